package streams

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"
	"github.com/twmb/franz-go/pkg/kversion"
)

// vBroker is a minimal broker on the loopback interface: enough of the protocol for a transactional producer.
// It writes down what it is sent, in order.
type vBrokerEvent struct {
	Kind      string // "produce", "end"
	Txn       string
	Commit    bool
	Topic     string
	Partition int32
	Key       string
	Value     []byte
	Headers   map[string]string
}

type vBroker struct {
	l       net.Listener
	mu      sync.Mutex
	events  []vBrokerEvent
	pids    map[string]int64
	txns    map[int64]string
	produce func(topic string, partition int32) int16 // error code for a produce request
	end     func(txn string, commit bool) int16
	hold    func(topic string) // called before a produce request is answered
}

func newVBroker(t testing.TB) *vBroker {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skipf("no loopback: %v", err)
	}
	b := &vBroker{l: l, pids: map[string]int64{}, txns: map[int64]string{}}
	t.Cleanup(func() { l.Close() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go b.serve(c)
		}
	}()
	return b
}

// the cluster to give to a source
func (b *vBroker) Config() ([]kgo.Opt, error) {
	return []kgo.Opt{kgo.SeedBrokers(b.l.Addr().String()), kgo.MaxVersions(kversion.V2_4_0()), kgo.RequestRetries(2), kgo.RecordRetries(2), kgo.DisableIdempotentWrite()}[:3], nil
}

func (b *vBroker) log() []vBrokerEvent {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]vBrokerEvent{}, b.events...)
}

// what was produced to topic and partition, in order
func (b *vBroker) produced(topic string, partition int32) []vBrokerEvent {
	var out []vBrokerEvent
	for _, e := range b.log() {
		if e.Kind == "produce" && e.Topic == topic && e.Partition == partition {
			out = append(out, e)
		}
	}
	return out
}
func (b *vBroker) ends() []vBrokerEvent {
	var out []vBrokerEvent
	for _, e := range b.log() {
		if e.Kind == "end" {
			out = append(out, e)
		}
	}
	return out
}

func (b *vBroker) serve(c net.Conn) {
	defer c.Close()
	for {
		var sz [4]byte
		if _, err := io.ReadFull(c, sz[:]); err != nil {
			return
		}
		buf := make([]byte, binary.BigEndian.Uint32(sz[:]))
		if _, err := io.ReadFull(c, buf); err != nil {
			return
		}
		key := int16(binary.BigEndian.Uint16(buf))
		ver := int16(binary.BigEndian.Uint16(buf[2:]))
		corr := buf[4:8]
		n := int16(binary.BigEndian.Uint16(buf[8:]))
		off := 10
		if n > 0 {
			off += int(n)
		}
		req := kmsg.RequestForKey(key)
		if req == nil {
			return
		}
		req.SetVersion(ver)
		if req.IsFlexible() {
			off++ // empty tag section
		}
		if err := req.ReadFrom(buf[off:]); err != nil {
			return
		}
		resp := b.handle(req)
		if resp == nil {
			return
		}
		resp.SetVersion(ver)
		out := append([]byte{0, 0, 0, 0}, corr...)
		if resp.IsFlexible() && key != 18 {
			out = append(out, 0)
		}
		out = resp.AppendTo(out)
		binary.BigEndian.PutUint32(out, uint32(len(out)-4))
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

func (b *vBroker) handle(r kmsg.Request) kmsg.Response {
	host, _, _ := net.SplitHostPort(b.l.Addr().String())
	port := int32(b.l.Addr().(*net.TCPAddr).Port)
	switch req := r.(type) {
	case *kmsg.ApiVersionsRequest:
		resp := req.ResponseKind().(*kmsg.ApiVersionsResponse)
		for _, k := range []int16{0, 3, 10, 18, 22, 24, 26} {
			a := kmsg.NewApiVersionsResponseApiKey()
			a.ApiKey = k
			a.MaxVersion = kmsg.RequestForKey(k).MaxVersion()
			resp.ApiKeys = append(resp.ApiKeys, a)
		}
		return resp
	case *kmsg.MetadataRequest:
		resp := req.ResponseKind().(*kmsg.MetadataResponse)
		br := kmsg.NewMetadataResponseBroker()
		br.NodeID, br.Host, br.Port = 1, host, port
		resp.Brokers = append(resp.Brokers, br)
		resp.ControllerID = 1
		for _, t := range req.Topics {
			rt := kmsg.NewMetadataResponseTopic()
			rt.Topic = t.Topic
			for p := int32(0); p < 10; p++ {
				rp := kmsg.NewMetadataResponseTopicPartition()
				rp.Partition, rp.Leader, rp.Replicas, rp.ISR = p, 1, []int32{1}, []int32{1}
				rt.Partitions = append(rt.Partitions, rp)
			}
			resp.Topics = append(resp.Topics, rt)
		}
		return resp
	case *kmsg.FindCoordinatorRequest:
		resp := req.ResponseKind().(*kmsg.FindCoordinatorResponse)
		resp.NodeID, resp.Host, resp.Port = 1, host, port
		return resp
	case *kmsg.InitProducerIDRequest:
		resp := req.ResponseKind().(*kmsg.InitProducerIDResponse)
		id := ""
		if req.TransactionalID != nil {
			id = *req.TransactionalID
		}
		b.mu.Lock()
		if _, ok := b.pids[id]; !ok {
			b.pids[id] = int64(len(b.pids) + 1)
			b.txns[b.pids[id]] = id
		}
		resp.ProducerID = b.pids[id]
		b.mu.Unlock()
		return resp
	case *kmsg.AddPartitionsToTxnRequest:
		resp := req.ResponseKind().(*kmsg.AddPartitionsToTxnResponse)
		for _, t := range req.Topics {
			rt := kmsg.NewAddPartitionsToTxnResponseTopic()
			rt.Topic = t.Topic
			for _, p := range t.Partitions {
				rp := kmsg.NewAddPartitionsToTxnResponseTopicPartition()
				rp.Partition = p
				rt.Partitions = append(rt.Partitions, rp)
			}
			resp.Topics = append(resp.Topics, rt)
		}
		return resp
	case *kmsg.EndTxnRequest:
		resp := req.ResponseKind().(*kmsg.EndTxnResponse)
		if b.end != nil {
			resp.ErrorCode = b.end(req.TransactionalID, req.Commit)
		}
		b.mu.Lock()
		b.events = append(b.events, vBrokerEvent{Kind: "end", Txn: req.TransactionalID, Commit: req.Commit})
		b.mu.Unlock()
		return resp
	case *kmsg.ProduceRequest:
		resp := req.ResponseKind().(*kmsg.ProduceResponse)
		for _, t := range req.Topics {
			rt := kmsg.NewProduceResponseTopic()
			rt.Topic = t.Topic
			if b.hold != nil {
				b.hold(t.Topic)
			}
			for _, p := range t.Partitions {
				rp := kmsg.NewProduceResponseTopicPartition()
				rp.Partition = p.Partition
				if b.produce != nil {
					rp.ErrorCode = b.produce(t.Topic, p.Partition)
				}
				if rp.ErrorCode == 0 {
					b.store(t.Topic, p.Partition, p.Records)
				}
				rt.Partitions = append(rt.Partitions, rp)
			}
			resp.Topics = append(resp.Topics, rt)
		}
		return resp
	}
	return nil
}

func (b *vBroker) store(topic string, partition int32, raw []byte) {
	var rb kmsg.RecordBatch
	if err := rb.ReadFrom(raw); err != nil {
		return
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	in := rb.Records
	for i := int32(0); i < rb.NumRecords; i++ {
		l, used := binary.Varint(in)
		total := used + int(l)
		if used <= 0 || total > len(in) {
			return
		}
		var r kmsg.Record
		if err := r.ReadFrom(in[:total]); err != nil {
			return
		}
		in = in[total:]
		e := vBrokerEvent{Kind: "produce", Txn: b.txns[rb.ProducerID], Topic: topic, Partition: partition, Key: string(r.Key), Value: append([]byte{}, r.Value...), Headers: map[string]string{}}
		for _, h := range r.Headers {
			e.Headers[h.Key] = string(h.Value)
		}
		b.events = append(b.events, e)
	}
}

// ---- a producer pool on that broker, without its background loops ----

type vStore struct{}

func (vStore) ReceiveChange(IncomingRecord) error { return nil }
func (vStore) Revoked()                           {}

func vSource(b *vBroker, handler TxnErrorHandler) *Source {
	return newSource(EventSourceConfig{GroupId: "group", Topic: "topic", NumPartitions: 10, SourceCluster: b, TxnErrorHandler: handler})
}
func vCommitLog() *eosCommitLog {
	return &eosCommitLog{watermarks: map[int32]int64{}, pendingSyncs: map[string]*sync.WaitGroup{}, topic: "progress", numPartitions: 5}
}

// vPool: n producer nodes in a ring, the first on deck
func vPool(b *vBroker, n int, cfg EosConfig, handler TxnErrorHandler) *eosProducerPool[vStore] {
	cfg.PoolSize = n
	pp := &eosProducerPool[vStore]{
		cfg:               cfg,
		producerNodeQueue: make(chan *producerNode[vStore], n),
		commitQueue:       make(chan *producerNode[vStore], cfg.PendingTxnCount),
		buffer:            make(chan *EventContext[vStore], 1024),
		errorChannel:      make(chan error, 1024),
		source:            vSource(b, handler),
		partitionOwners:   partitionOwners[vStore]{owners: map[int32]*producerNode[vStore]{}, mux: new(sync.Mutex)},
		flushTimer:        time.NewTicker(time.Hour),
	}
	cl := vCommitLog()
	for i := 0; i < n; i++ {
		pp.producerNodes = append(pp.producerNodes, newProducerNode(i, pp.source, cl, pp.partitionOwners, nil, nil, pp.errorChannel))
	}
	for i, p := range pp.producerNodes {
		p.next = pp.producerNodes[(i+1)%n]
		if i > 0 {
			pp.producerNodeQueue <- p
		}
	}
	pp.onDeck = pp.producerNodes[0]
	return pp
}
func vClose(pp *eosProducerPool[vStore]) {
	for _, p := range pp.producerNodes {
		p.client.Close()
	}
}

// an event at partition and offset, offset < 0: an interjection
func vEvent(ctx context.Context, partition int32, offset int64, wg *sync.WaitGroup) *EventContext[vStore] {
	ec := &EventContext[vStore]{
		ctx:              ctx,
		producerChan:     make(chan EventContextProducer[vStore], 1),
		topicPartition:   TopicPartition{Topic: "topic", Partition: partition},
		revocationWaiter: wg,
		done:             make(chan struct{}),
	}
	if offset < 0 {
		ec.interjection = &interjection[vStore]{}
	} else {
		ec.input = newIncomingRecord(&kgo.Record{Topic: "topic", Partition: partition, Offset: offset})
	}
	return ec
}
func vRecord(topic string, partition int32, key string) *Record {
	r := NewRecord().WithTopic(topic).WithPartition(partition)
	r.WriteKeyString(key)
	r.WriteValueString("v")
	return r
}

// waits no longer than a few seconds for the counter to reach zero
func vZero(wg *sync.WaitGroup) bool {
	c := make(chan struct{})
	go func() { wg.Wait(); close(c) }()
	select {
	case <-c:
		return true
	case <-time.After(5 * time.Second):
		return false
	}
}
