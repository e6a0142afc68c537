package streams

// C25: configuration defaults and limits (source.go, eos_config.go, topics.go, source_consumer.go)
tags C25

func Source.shouldMarkCommit(s) (r) {
  ensures r == s.config.CommitOffsets
}
func Source.eosErrorHandler(s) (r) {
  tags C25 C30
  ensures default: s.config.TxnErrorHandler == nil ==> isfn(r, DefaultTxnErrorHandler)
  ensures set: s.config.TxnErrorHandler != nil ==> r == s.config.TxnErrorHandler
}
func Source.deserializationErrorHandler(s) (r) {
  tags C25 C11
  ensures default: s.config.DeserializationErrorHandler == nil ==> isfn(r, DefaultDeserializationErrorHandler)
  ensures set: s.config.DeserializationErrorHandler != nil ==> r == s.config.DeserializationErrorHandler
}
func Source.CommitLogTopicNameForGroupId(s) (r) {
  ensures r == "gkes_commit_log_" + s.config.GroupId
}
func Source.StateStoreTopicName(s) (r) {
  ensures set: s.config.StateStoreTopic != "" ==> r == s.config.StateStoreTopic
  ensures default: s.config.StateStoreTopic == "" ==> r == "gkes_change_log_" + s.config.Topic + "_" + s.config.GroupId
}
func Source.stateCluster(s) (r) {
  ensures set: s.config.StateCluster != nil ==> r == s.config.StateCluster
  ensures default: s.config.StateCluster == nil ==> r == s.config.SourceCluster
}
func Source.AsDestination(s) (r) {
  ensures r.DefaultTopic == s.config.Topic && r.NumPartitions == s.config.NumPartitions && r.Cluster == s.config.SourceCluster
}
func Source.Topic(s) (r) { ensures r == s.config.Topic }
func Source.GroupId(s) (r) { ensures r == s.config.GroupId }
func Source.Config(s) (r) { ensures r == s.config }
func Source.NumPartitions(s) (r) { ensures r == s.config.NumPartitions }
func Source.BalanceStrategies(s) (r) { ensures r == s.config.BalanceStrategies }

pure replOf(f int) int = if f <= 0 then 1 else f
pure minInSyncOf(f int, m int) int = if f <= 1 || m <= 0 then 1 else if m >= f then f - 1 else m

func replicationFactorConfig(source) (r) {
  ensures r == replOf(source.config.ReplicationFactor)
}
func minInSyncConfig(source) (r) {
  ensures r == minInSyncOf(source.config.ReplicationFactor, source.config.MinInSync)
  ensures possible: r >= 1 && (source.config.ReplicationFactor > 1 ==> r < source.config.ReplicationFactor)
}
func commitLogPartitionsConfig(source) (r) {
  ensures r == (if source.config.CommitLogPartitions <= 0 then 5 else source.config.CommitLogPartitions)
}

// a batching configuration that can make progress
pure validEos(c EosConfig) bool = c.PoolSize >= 1 && c.PendingTxnCount >= 1 && c.TargetBatchSize >= 1 && c.MaxBatchSize >= 1 && c.BatchDelay >= 1000000 && c.TargetBatchSize <= c.MaxBatchSize
pure zeroEos(c EosConfig) bool = c.PoolSize == 0 && c.PendingTxnCount == 0 && c.TargetBatchSize == 0 && c.MaxBatchSize == 0 && c.BatchDelay == 0

func EosConfig.IsZero(cfg) (r) {
  ensures r == zeroEos(cfg)
}
func EosConfig.validate(cfg) {
  ensures accepted: validEos(cfg)
  ensures_panic rejected: !validEos(cfg)
}

func newSource(config) (r) {
  ensures fresh(r) && r.config == config && r.state == 0 && cap(r.failure) == 0 && r.failure != nil
}

// ---- topics ----
extern kadm.Client.CreateTopics(c, ctx, partitions, replicas, configs, topics) (res, err) {
  opt log
}
extern kadm.NewClient(cl) (r) {
  ensures r != nil
}
extern strconv.FormatFloat(f, fmt, prec, bits) (r) {}

func createTopicFromConfigMap(adminClient, numPartitions, replicationFactor, config, topic) (err) {
  modifies log kadm.Client.CreateTopics
  let n = ncalls(kadm.Client.CreateTopics)
  ensures ncalls(kadm.Client.CreateTopics) == n + 1
  ensures callarg(kadm.Client.CreateTopics, n, 2, int32) == numPartitions && callarg(kadm.Client.CreateTopics, n, 3, int16) == replicationFactor
  ensures callarg(kadm.Client.CreateTopics, n, 4, "map[string]*string") == config && callarg(kadm.Client.CreateTopics, n, 5, "[]string") == topic
  ensures callarg(kadm.Client.CreateTopics, n, 0, *kadm.Client) == adminClient
  ensures err == callres(kadm.Client.CreateTopics, n, 1, error)
}

func createTopic(adminClient, numPartitions, replicationFactor, minInsync, cleanupPolicy, dirtyRatio, topic) (err) {
  opt log
  requires 0 <= numPartitions && numPartitions < 2147483648 && 0 <= replicationFactor && replicationFactor < 32768
  modifies log kadm.Client.CreateTopics
  let n = ncalls(kadm.Client.CreateTopics)
  ensures once: ncalls(kadm.Client.CreateTopics) == n + 1
  ensures sizes: callarg(kadm.Client.CreateTopics, n, 2, int32) == numPartitions && callarg(kadm.Client.CreateTopics, n, 3, int16) == replicationFactor
  ensures names: callarg(kadm.Client.CreateTopics, n, 5, "[]string") == topic && callarg(kadm.Client.CreateTopics, n, 0, *kadm.Client) == adminClient
  ensures inSync: (let m = callarg(kadm.Client.CreateTopics, n, 4, "map[string]*string"); has(m, "min.insync.replicas") && *m["min.insync.replicas"] == itoa(minInsync))
  ensures cleanup: (let m = callarg(kadm.Client.CreateTopics, n, 4, "map[string]*string");
     if cleanupPolicy == CompactCleanupPolicy then has(m, "cleanup.policy") && *m["cleanup.policy"] == "compact" else !has(m, "cleanup.policy"))
  ensures err == callres(kadm.Client.CreateTopics, n, 1, error)
}

// every client reads committed data only and starts from the cluster's own options
func NewClient(cluster, options) (c, err) {
  tags C25 C27
  modifies $NEWCLIENT
  let n = ncalls(streams.Cluster.Config)
  let m = ncalls(kgo.NewClient)
  let fi = ncalls(kgo.FetchIsolationLevel)
  let rc = ncalls(kgo.ReadCommitted)
  let rp = ncalls(kgo.RecordPartitioner)
  ensures asked: ncalls(streams.Cluster.Config) == n + 1 && callarg(streams.Cluster.Config, n, 0, Cluster) == cluster
  ensures clusterError: callres(streams.Cluster.Config, n, 1, error) != nil ==> (err == callres(streams.Cluster.Config, n, 1, error) && c == nil && ncalls(kgo.NewClient) == m)
  ensures made: callres(streams.Cluster.Config, n, 1, error) == nil ==> (ncalls(kgo.NewClient) == m + 1 && c == callres(kgo.NewClient, m, 0, *kgo.Client) && err == callres(kgo.NewClient, m, 1, error))
  ensures some: err == nil ==> c != nil
  ensures committed: callres(streams.Cluster.Config, n, 1, error) == nil ==> (ncalls(kgo.FetchIsolationLevel) == fi + 1 && ncalls(kgo.ReadCommitted) == rc + 1 && callarg(kgo.FetchIsolationLevel, fi, 0, kgo.IsolationLevel) == callres(kgo.ReadCommitted, rc, 0, kgo.IsolationLevel) &&
     (let o = callarg(kgo.NewClient, m, 0, "[]kgo.Opt"); let x = callres(kgo.FetchIsolationLevel, fi, 0, kgo.Opt); len(o) >= 5 && (o[0] == x || o[1] == x || o[2] == x || o[3] == x || o[4] == x)))
  ensures partitioner: callres(streams.Cluster.Config, n, 1, error) == nil ==> (ncalls(kgo.RecordPartitioner) == rp + 1 && is(callarg(kgo.RecordPartitioner, rp, 0, kgo.Partitioner), OptionalPartitioner) &&
     (let o = callarg(kgo.NewClient, m, 0, "[]kgo.Opt"); let x = callres(kgo.RecordPartitioner, rp, 0, kgo.Opt); len(o) >= 5 && (o[0] == x || o[1] == x || o[2] == x || o[3] == x || o[4] == x)))
  ensures clusterOptions: callres(streams.Cluster.Config, n, 1, error) == nil ==> (let o = callarg(kgo.NewClient, m, 0, "[]kgo.Opt"); let co = callres(streams.Cluster.Config, n, 0, "[]kgo.Opt");
     len(o) == 5 + len(co) + len(options) && (forall i int {co[i]} :: (0 <= i && i < len(co)) ==> o[5+i] == co[i]) && (forall i int {options[i]} :: (0 <= i && i < len(options)) ==> o[5+len(co)+i] == options[i]))
}

func isNetworkError(err) (r) {
  tags C25 C30
  ensures r == (err != nil && errorsas(err, "*net.OpError"))
}


func createDestination(destination) (resolved, err) {
  opt log
  requires 0 <= destination.NumPartitions && destination.NumPartitions < 2147483648 && 0 <= destination.ReplicationFactor && destination.ReplicationFactor < 32768
  modifies log kadm.Client.CreateTopics, $NEWCLIENT
  let n = ncalls(kadm.Client.CreateTopics)
  let m = ncalls(kgo.NewClient)
  ensures same: resolved == destination
  ensures noClient: ncalls(kadm.Client.CreateTopics) == n ==> err != nil
  ensures made: ncalls(kadm.Client.CreateTopics) == n || ncalls(kadm.Client.CreateTopics) == n + 1
  ensures topic: ncalls(kadm.Client.CreateTopics) == n + 1 ==> (err == callres(kadm.Client.CreateTopics, n, 1, error) &&
     callarg(kadm.Client.CreateTopics, n, 2, int32) == destination.NumPartitions && callarg(kadm.Client.CreateTopics, n, 3, int16) == destination.ReplicationFactor &&
     len(callarg(kadm.Client.CreateTopics, n, 5, "[]string")) == 1 && callarg(kadm.Client.CreateTopics, n, 5, "[]string")[0] == destination.DefaultTopic &&
     *callarg(kadm.Client.CreateTopics, n, 4, "map[string]*string")["min.insync.replicas"] == itoa(destination.MinInSync))
}

func CreateDestination(destination) (resolved, err) {
  requires 0 <= destination.NumPartitions && destination.NumPartitions < 2147483648 && 0 <= destination.ReplicationFactor && destination.ReplicationFactor < 32768
  modifies log createDestination, log kadm.Client.CreateTopics, $NEWCLIENT
  let n = ncalls(createDestination)
  ensures tried: ncalls(createDestination) > n
  ensures last: err == callres(createDestination, ncalls(createDestination) - 1, 1, error)
  ensures same: resolved == destination
  ensures retried: err == nil || !errorsas(err, "*net.OpError") || ncalls(createDestination) >= n + 15
  loop 0 {
    invariant 0 <= retryCount && retryCount <= 15 && ncalls(createDestination) == n + retryCount
    invariant retryCount > 0 ==> (err == callres(createDestination, ncalls(createDestination) - 1, 1, error) && resolved == destination)
  }
}

// ---- source topics ----
extern kadm.Client.ListTopicsWithInternal(c, ctx, topics) (res, err) { opt log }
extern kadm.PartitionDetails.Numbers(p) (r) {
  ensures len(r) == len(p) && len(r) < 2147483648
}
pure numReplicas(p kadm.PartitionDetails) int
extern kadm.PartitionDetails.NumReplicas(p) (r) {
  ensures r == numReplicas(p) && r < 32768
}
pure listed(res kadm.TopicDetails, t string) bool = has(res, t) && res[t].Err == nil

func resolveOrCreateTopics(source, sourceTopicAdminClient, eosAdminClient) (r, err) {
  opt log
  requires 0 <= source.config.NumPartitions && source.config.NumPartitions < 2147483648 && source.config.ReplicationFactor < 32768 && source.config.CommitLogPartitions < 2147483648
  modifies source.config.NumPartitions, source.config.ReplicationFactor, source.config.CommitLogPartitions
  modifies log kadm.Client.CreateTopics, log kadm.Client.ListTopicsWithInternal, log createTopic
  let l = ncalls(kadm.Client.ListTopicsWithInternal)
  let c = ncalls(createTopic)
  let topic = source.config.Topic
  let group = source.config.GroupId
  let clog = "gkes_commit_log_" + group
  let change = if source.config.StateStoreTopic != "" then source.config.StateStoreTopic else "gkes_change_log_" + topic + "_" + group
  let parts = source.config.NumPartitions
  let repl = source.config.ReplicationFactor
  let isr = source.config.MinInSync
  let clp = source.config.CommitLogPartitions
  ensures same: err == nil ==> r == source
  ensures sizes: 0 <= source.config.NumPartitions && source.config.NumPartitions < 2147483648 && source.config.ReplicationFactor < 32768 && source.config.CommitLogPartitions < 2147483648
  ensures asked: err == nil ==> (ncalls(kadm.Client.ListTopicsWithInternal) == l + 2 && callarg(kadm.Client.ListTopicsWithInternal, l, 0, *kadm.Client) == sourceTopicAdminClient && callarg(kadm.Client.ListTopicsWithInternal, l + 1, 0, *kadm.Client) == eosAdminClient)
  ensures resolvedParts: (err == nil && listed(callres(kadm.Client.ListTopicsWithInternal, l, 0, kadm.TopicDetails), topic)) ==> (source.config.NumPartitions == len(callres(kadm.Client.ListTopicsWithInternal, l, 0, kadm.TopicDetails)[topic].Partitions) && source.config.ReplicationFactor == numReplicas(callres(kadm.Client.ListTopicsWithInternal, l, 0, kadm.TopicDetails)[topic].Partitions))
  ensures createdSource: (err == nil && !listed(callres(kadm.Client.ListTopicsWithInternal, l, 0, kadm.TopicDetails), topic)) ==> (ncalls(createTopic) > c && callarg(createTopic, c, 0, *kadm.Client) == sourceTopicAdminClient && callarg(createTopic, c, 1, int) == parts && callarg(createTopic, c, 2, int) == replOf(repl) && callarg(createTopic, c, 3, int) == minInSyncOf(repl, isr) && callarg(createTopic, c, 4, CleanupPolicy) == DeleteCleanupPolicy && (let t = callarg(createTopic, c, 6, "[]string"); len(t) == 1 && t[0] == topic) && source.config.NumPartitions == parts && source.config.ReplicationFactor == repl)
  ensures createdLog: (err == nil && !listed(callres(kadm.Client.ListTopicsWithInternal, l + 1, 0, kadm.TopicDetails), clog)) ==> (let k = if listed(callres(kadm.Client.ListTopicsWithInternal, l, 0, kadm.TopicDetails), topic) then c else c + 1; ncalls(createTopic) > k && callarg(createTopic, k, 0, *kadm.Client) == eosAdminClient && callarg(createTopic, k, 1, int) == (if clp <= 0 then 5 else clp) && callarg(createTopic, k, 2, int) == replOf(source.config.ReplicationFactor) && callarg(createTopic, k, 3, int) == minInSyncOf(source.config.ReplicationFactor, isr) && callarg(createTopic, k, 4, CleanupPolicy) == CompactCleanupPolicy && (let t = callarg(createTopic, k, 6, "[]string"); len(t) == 1 && t[0] == clog))
  ensures resolvedLog: (err == nil && listed(callres(kadm.Client.ListTopicsWithInternal, l + 1, 0, kadm.TopicDetails), clog)) ==> source.config.CommitLogPartitions == len(callres(kadm.Client.ListTopicsWithInternal, l + 1, 0, kadm.TopicDetails)[clog].Partitions)
  ensures createdChange: (err == nil && !listed(callres(kadm.Client.ListTopicsWithInternal, l + 1, 0, kadm.TopicDetails), change)) ==> (let k = ncalls(createTopic) - 1; k >= c && callarg(createTopic, k, 0, *kadm.Client) == eosAdminClient && callarg(createTopic, k, 1, int) == source.config.NumPartitions && callarg(createTopic, k, 2, int) == replOf(source.config.ReplicationFactor) && callarg(createTopic, k, 3, int) == minInSyncOf(source.config.ReplicationFactor, isr) && callarg(createTopic, k, 4, CleanupPolicy) == CompactCleanupPolicy && (let t = callarg(createTopic, k, 6, "[]string"); len(t) == 1 && t[0] == change))
  ensures mismatch: (err == nil && listed(callres(kadm.Client.ListTopicsWithInternal, l + 1, 0, kadm.TopicDetails), change)) ==> source.config.NumPartitions == len(callres(kadm.Client.ListTopicsWithInternal, l + 1, 0, kadm.TopicDetails)[change].Partitions)
}

// every option other than the sizes resolved from the existing topics
pure keeps(a EventSourceConfig, b EventSourceConfig) bool = a.GroupId == b.GroupId && a.Topic == b.Topic && a.StateStoreTopic == b.StateStoreTopic && a.MinInSync == b.MinInSync && a.SourceCluster == b.SourceCluster && a.StateCluster == b.StateCluster && a.BalanceStrategies == b.BalanceStrategies && a.CommitOffsets == b.CommitOffsets && a.EosConfig == b.EosConfig && a.MetricsHandler == b.MetricsHandler && a.OnPartitionAssigned == b.OnPartitionAssigned && a.OnPartitionActivated == b.OnPartitionActivated && a.OnPartitionWillRevoke == b.OnPartitionWillRevoke && a.OnPartitionRevoked == b.OnPartitionRevoked && a.DeserializationErrorHandler == b.DeserializationErrorHandler && a.TxnErrorHandler == b.TxnErrorHandler
pure sizesOk(c EventSourceConfig) bool = 0 <= c.NumPartitions && c.NumPartitions < 2147483648 && c.ReplicationFactor < 32768 && c.CommitLogPartitions < 2147483648

func createSource(source) (r, err) {
  opt log
  requires sizesOk(source.config)
  modifies source.config.NumPartitions, source.config.ReplicationFactor, source.config.CommitLogPartitions
  modifies log kadm.Client.CreateTopics, log kadm.Client.ListTopicsWithInternal, log createTopic, log resolveOrCreateTopics, $NEWCLIENT
  let n = ncalls(resolveOrCreateTopics)
  let cc = ncalls(streams.Cluster.Config)
  ensures resolvedBy: err == nil ==> (ncalls(resolveOrCreateTopics) == n + 1 && callarg(resolveOrCreateTopics, n, 0, *Source) == source && callres(resolveOrCreateTopics, n, 1, error) == nil && r == callres(resolveOrCreateTopics, n, 0, *Source))
  ensures same: err == nil ==> r == source
  ensures clusters: err == nil ==> (ncalls(streams.Cluster.Config) == cc + 2 && callarg(streams.Cluster.Config, cc, 0, Cluster) == source.config.SourceCluster && callarg(streams.Cluster.Config, cc + 1, 0, Cluster) == (if source.config.StateCluster == nil then source.config.SourceCluster else source.config.StateCluster))
  ensures sizes: sizesOk(source.config)
}

func CreateSource(sourceConfig) (resolved, err) {
  requires sizesOk(sourceConfig)
  modifies log createSource, log kadm.Client.CreateTopics, log kadm.Client.ListTopicsWithInternal, log createTopic, log resolveOrCreateTopics, $NEWCLIENT
  let n = ncalls(createSource)
  let valid = sourceConfig.GroupId != "" && sourceConfig.Topic != "" && sourceConfig.SourceCluster != nil
  ensures required: !valid ==> (err != nil && resolved == nil && ncalls(createSource) == n)
  ensures tried: valid ==> (ncalls(createSource) > n && err == callres(createSource, ncalls(createSource) - 1, 1, error))
  ensures retried: err == nil || !valid || !errorsas(err, "*net.OpError") || ncalls(createSource) >= n + 15
  ensures kept: err == nil ==> (resolved != nil && keeps(resolved.config, sourceConfig))
  ensures healthy: err == nil ==> (resolved.state == 0 && resolved.failure != nil && cap(resolved.failure) == 0)
  loop 0 {
    invariant 0 <= retryCount && retryCount <= 15 && ncalls(createSource) == n + retryCount
    invariant valid && fresh(source) && sizesOk(source.config)
    invariant keeps(source.config, sourceConfig)
    invariant source.state == 0 && source.failure != nil && cap(source.failure) == 0
    invariant retryCount > 0 ==> (err == callres(createSource, ncalls(createSource) - 1, 1, error) && (err == nil ==> resolved == source))
  }
}

// ---- the consumer a source is consumed with ----
pure rangeB(b kgo.GroupBalancer) bool
pure roundRobinB(b kgo.GroupBalancer) bool
pure stickyB(b kgo.GroupBalancer) bool
extern kgo.RangeBalancer() (b) { ensures b != nil && rangeB(b) }
extern kgo.RoundRobinBalancer() (b) { ensures b != nil && roundRobinB(b) }
extern kgo.CooperativeStickyBalancer() (b) { ensures b != nil && stickyB(b) }
func toGroupBalancers(instructionHandler, rs) (r) {
  opt log
  requires forall i int {rs[i]} :: (0 <= i && i < len(rs)) ==> (0 <= rs[i] && rs[i] <= 3)
  ensures count: len(r) == len(rs)
  ensures chosen: forall i int {r[i]} :: (0 <= i && i < len(rs)) ==> (r[i] != nil &&
     (if rs[i] == RangeBalanceStrategy then rangeB(r[i]) else if rs[i] == RoundRobinBalanceStrategy then roundRobinB(r[i]) else if rs[i] == CooperativeStickyBalanceStrategy then stickyB(r[i]) else is(r[i], *incrementalRebalancer)))
  loop 0 {
    invariant len(balancers) == nvisited() && fresh(balancers)
    invariant forall i int {balancers[i]} :: (0 <= i && i < nvisited()) ==> (balancers[i] != nil &&
     (if rs[i] == RangeBalanceStrategy then rangeB(balancers[i]) else if rs[i] == RoundRobinBalanceStrategy then roundRobinB(balancers[i]) else if rs[i] == CooperativeStickyBalanceStrategy then stickyB(balancers[i]) else is(balancers[i], *incrementalRebalancer)))
  }
}
