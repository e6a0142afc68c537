package msk
tags C26

// ---- assumed: MSK API, credential provider, AWS and kgo helpers ----
iface msk.MskClient.ListClusters(c, ctx, in, opts) (out, err) {
  ensures some: err == nil ==> out != nil
}
iface msk.MskClient.GetBootstrapBrokers(c, ctx, in, opts) (out, err) {
  ensures some: err == nil ==> out != nil
}
iface aws.CredentialsProvider.Retrieve(p, ctx) (creds, err) {
}
extern aws.String(v) (p) {
  ensures p != nil && *p == v
}
pure splitLen(s string, sep string) int
pure splitAt(s string, sep string, i int) string
extern strings.Split(s, sep) (r) {
  ensures len(r) == splitLen(s, sep)
  ensures sep != "" ==> len(r) > 0
  ensures forall i int {r[i]} :: (0 <= i && i < len(r)) ==> r[i] == splitAt(s, sep, i)
}
extern kgo.SeedBrokers(seeds) (o) {
  opt log
  ensures o != nil
}
extern kgo.DialTLSConfig(c) (o) {
  opt log
  ensures o != nil
}
extern kgo.SASL(ms) (o) {
  opt log
  ensures o != nil
}
extern aws.ManagedStreamingIAM(f) (m) {
  opt log
  ensures m != nil
}
extern scram.Auth.AsSha512Mechanism(a) (m) {
  opt log
  ensures m != nil
}

// the broker list MSK reports for a way of authenticating
pure brokersFor(a AuthType, r *kafka.GetBootstrapBrokersOutput) *string =
  if a == MutualTLS then r.BootstrapBrokerStringTls
  else if a == SaslScram then r.BootstrapBrokerStringSaslScram
  else if a == SaslIam then r.BootstrapBrokerStringSaslIam
  else if a == PublicMutualTLS then r.BootstrapBrokerStringPublicTls
  else if a == PublicSaslScram then r.BootstrapBrokerStringPublicSaslScram
  else if a == PublicSaslIam then r.BootstrapBrokerStringPublicSaslIam
  else r.BootstrapBrokerString

func MskCluster.getClusterArn(c) (arn, err) {
  modifies log msk.MskClient.ListClusters
  let n = ncalls(msk.MskClient.ListClusters)
  ensures once: ncalls(msk.MskClient.ListClusters) == n + 1
  ensures asked: *callarg(msk.MskClient.ListClusters, n, 2, *kafka.ListClustersInput).ClusterNameFilter == c.clusterName
  ensures listError: callres(msk.MskClient.ListClusters, n, 1, error) != nil ==> err == callres(msk.MskClient.ListClusters, n, 1, error)
  ensures found: callres(msk.MskClient.ListClusters, n, 1, error) == nil ==> (let l = callres(msk.MskClient.ListClusters, n, 0, *kafka.ListClustersOutput).ClusterInfoList;
     (err == nil <==> (len(l) > 0 && l[0].ClusterArn != nil)) && (err == nil ==> arn == *l[0].ClusterArn))
}

func MskCluster.getBootstrapBrokers(c) (brokers, err) {
  modifies log msk.MskClient.ListClusters, log msk.MskClient.GetBootstrapBrokers
  let n = ncalls(msk.MskClient.ListClusters)
  let m = ncalls(msk.MskClient.GetBootstrapBrokers)
  ensures once: ncalls(msk.MskClient.ListClusters) == n + 1
  ensures listAsked: *callarg(msk.MskClient.ListClusters, n, 2, *kafka.ListClustersInput).ClusterNameFilter == c.clusterName
  ensures listError: callres(msk.MskClient.ListClusters, n, 1, error) != nil ==> err == callres(msk.MskClient.ListClusters, n, 1, error)
  ensures notFound: ncalls(msk.MskClient.GetBootstrapBrokers) == m ==> err != nil
  ensures atMostOnce: ncalls(msk.MskClient.GetBootstrapBrokers) <= m + 1 && ncalls(msk.MskClient.GetBootstrapBrokers) >= m
  ensures brokerArn: ncalls(msk.MskClient.GetBootstrapBrokers) == m + 1 ==>
     (let l = callres(msk.MskClient.ListClusters, n, 0, *kafka.ListClustersOutput).ClusterInfoList; len(l) > 0 && *callarg(msk.MskClient.GetBootstrapBrokers, m, 2, *kafka.GetBootstrapBrokersInput).ClusterArn == *l[0].ClusterArn)
  ensures brokerError: (ncalls(msk.MskClient.GetBootstrapBrokers) == m + 1 && callres(msk.MskClient.GetBootstrapBrokers, m, 1, error) != nil) ==> err == callres(msk.MskClient.GetBootstrapBrokers, m, 1, error)
  ensures list: (ncalls(msk.MskClient.GetBootstrapBrokers) == m + 1 && callres(msk.MskClient.GetBootstrapBrokers, m, 1, error) == nil) ==>
     (let s = brokersFor(c.authType, callres(msk.MskClient.GetBootstrapBrokers, m, 0, *kafka.GetBootstrapBrokersOutput));
      if s == nil then err != nil else (err == nil && len(brokers) == splitLen(*s, ",") && len(brokers) > 0 && (forall i int {brokers[i]} :: (0 <= i && i < len(brokers)) ==> brokers[i] == splitAt(*s, ",", i))))
}

func MskCluster.saslIamAuth(c, ctx) (auth, err) {
  modifies log aws.CredentialsProvider.Retrieve
  let n = ncalls(aws.CredentialsProvider.Retrieve)
  ensures once: ncalls(aws.CredentialsProvider.Retrieve) == n + 1
  ensures provider: callarg(aws.CredentialsProvider.Retrieve, n, 0, aws.CredentialsProvider) == c.awsConfig.Credentials
  ensures error: err == callres(aws.CredentialsProvider.Retrieve, n, 1, error)
  ensures presented: err == nil ==> (let k = callres(aws.CredentialsProvider.Retrieve, n, 0, aws.Credentials);
     auth.AccessKey == k.AccessKeyID && auth.SecretKey == k.SecretAccessKey && auth.SessionToken == k.SessionToken)
}

pure amongFirst(o []kgo.Opt, x kgo.Opt) bool = (len(o) > 0 && o[0] == x) || (len(o) > 1 && o[1] == x) || (len(o) > 2 && o[2] == x)

func MskCluster.Config(c) (opts, err) {
  modifies c.builtOptions, held(c.mux), log msk.MskClient.ListClusters, log msk.MskClient.GetBootstrapBrokers, log kgo.SeedBrokers, log kgo.DialTLSConfig, log kgo.SASL, log aws.ManagedStreamingIAM, log scram.Auth.AsSha512Mechanism
  let n = ncalls(msk.MskClient.ListClusters)
  let m = ncalls(msk.MskClient.GetBootstrapBrokers)
  let sb = ncalls(kgo.SeedBrokers)
  let ss = ncalls(kgo.SASL)
  let im = ncalls(aws.ManagedStreamingIAM)
  let sm = ncalls(scram.Auth.AsSha512Mechanism)
  let td = ncalls(kgo.DialTLSConfig)
  ensures cached: old(len(c.builtOptions)) > 0 ==> (opts == old(c.builtOptions) && err == nil)
  ensures kept: err == nil ==> opts == c.builtOptions
  ensures nothingOnError: err != nil ==> (len(opts) == 0 && c.builtOptions == old(c.builtOptions))
  ensures asksMsk: old(len(c.builtOptions)) == 0 ==> (ncalls(msk.MskClient.ListClusters) == n + 1 && (err == nil ==> ncalls(msk.MskClient.GetBootstrapBrokers) == m + 1))
  ensures listError: (old(len(c.builtOptions)) == 0 && callres(msk.MskClient.ListClusters, n, 1, error) != nil) ==> err == callres(msk.MskClient.ListClusters, n, 1, error)
  ensures brokerError: (old(len(c.builtOptions)) == 0 && ncalls(msk.MskClient.GetBootstrapBrokers) == m + 1 && callres(msk.MskClient.GetBootstrapBrokers, m, 1, error) != nil) ==> err == callres(msk.MskClient.GetBootstrapBrokers, m, 1, error)
  ensures brokers: (old(len(c.builtOptions)) == 0 && err == nil) ==>
     (let s = brokersFor(c.authType, callres(msk.MskClient.GetBootstrapBrokers, m, 0, *kafka.GetBootstrapBrokersOutput));
      let l = callarg(kgo.SeedBrokers, sb, 0, "[]string");
      s != nil && ncalls(kgo.SeedBrokers) == sb + 1 && amongFirst(opts, callres(kgo.SeedBrokers, sb, 0, kgo.Opt)) &&
      len(l) == splitLen(*s, ",") && (forall i int {l[i]} :: (0 <= i && i < len(l)) ==> l[i] == splitAt(*s, ",", i)))
  ensures tls: (old(len(c.builtOptions)) == 0 && err == nil && c.tlsConfig != nil) ==> (ncalls(kgo.DialTLSConfig) == td + 1 && callarg(kgo.DialTLSConfig, td, 0, *tls.Config) == c.tlsConfig && amongFirst(opts, callres(kgo.DialTLSConfig, td, 0, kgo.Opt)))
  ensures iam: (old(len(c.builtOptions)) == 0 && err == nil && (c.authType == SaslIam || c.authType == PublicSaslIam)) ==>
     (ncalls(kgo.SASL) == ss + 1 && amongFirst(opts, callres(kgo.SASL, ss, 0, kgo.Opt)) && len(callarg(kgo.SASL, ss, 0, "[]sasl.Mechanism")) == 1 &&
      callarg(kgo.SASL, ss, 0, "[]sasl.Mechanism")[0] == callres(aws.ManagedStreamingIAM, im, 0, sasl.Mechanism) &&
      isfn(callarg(aws.ManagedStreamingIAM, im, 0), MskCluster.saslIamAuth) && boundto(callarg(aws.ManagedStreamingIAM, im, 0)) == c)
  ensures scram: (old(len(c.builtOptions)) == 0 && err == nil && (c.authType == SaslScram || c.authType == PublicSaslScram)) ==>
     (ncalls(kgo.SASL) == ss + 1 && amongFirst(opts, callres(kgo.SASL, ss, 0, kgo.Opt)) && len(callarg(kgo.SASL, ss, 0, "[]sasl.Mechanism")) == 1 &&
      callarg(kgo.SASL, ss, 0, "[]sasl.Mechanism")[0] == callres(scram.Auth.AsSha512Mechanism, sm, 0, sasl.Mechanism) &&
      callarg(scram.Auth.AsSha512Mechanism, sm, 0, scram.Auth) == c.scram)
  ensures noSasl: (old(len(c.builtOptions)) == 0 && err == nil && !(c.authType == SaslIam || c.authType == PublicSaslIam || c.authType == SaslScram || c.authType == PublicSaslScram)) ==> ncalls(kgo.SASL) == ss
  ensures userOptionsLast: (old(len(c.builtOptions)) == 0 && err == nil) ==> (len(opts) > len(c.clientOptions) && (forall i int {c.clientOptions[i]} :: (0 <= i && i < len(c.clientOptions)) ==> opts[len(opts) - len(c.clientOptions) + i] == c.clientOptions[i]))
}

func MskCluster.WithScramUserPass(c, user, pass) (r) {
  modifies c.scram
  ensures r == c
  ensures credentials: c.scram.User == user && c.scram.Pass == pass
}
func MskCluster.WithTlsConfig(c, t) (r) {
  modifies c.tlsConfig
  ensures r == c && c.tlsConfig == t
}
func MskCluster.WithClientOptions(c, opts) (r) {
  modifies c.clientOptions
  ensures r == c && c.clientOptions == opts
}
extern kafka.NewFromConfig(cfg, fns) (r) {
  ensures r != nil
}
func NewMskClusterWithClientConfig(clusterName, authType, awsConfig, optFns) (r) {
  ensures made: fresh(r) && r.clusterName == clusterName && r.authType == authType && r.awsConfig == awsConfig && r.client != nil && len(r.builtOptions) == 0 && len(r.clientOptions) == 0 && r.tlsConfig == nil
}
