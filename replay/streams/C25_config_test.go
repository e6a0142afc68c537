package streams

import (
	"errors"
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

type c25Cluster struct{ n string }

func (c c25Cluster) Config() ([]kgo.Opt, error) { return nil, nil }

func TestVerifC25_Defaults(t *testing.T) {
	ints := []int{-1, 0, 1, 2, 3, 4, 7}
	for _, rf := range ints {
		for _, mi := range ints {
			for _, clp := range ints {
				s := newSource(EventSourceConfig{Topic: "t", GroupId: "g", ReplicationFactor: rf, MinInSync: mi, CommitLogPartitions: clp, NumPartitions: 6})
				wrf, wclp := rf, clp
				if rf <= 0 {
					wrf = 1
				}
				if clp <= 0 {
					wclp = 5
				}
				wmi := mi
				if wrf <= 1 || mi <= 0 {
					wmi = 1
				} else if mi >= wrf {
					wmi = wrf - 1
				}
				if g := replicationFactorConfig(s); g != wrf {
					t.Fatalf("FAILING-INPUT: replication factor %d configured, %d used", rf, g)
				}
				if g := minInSyncConfig(s); g != wmi {
					t.Fatalf("FAILING-INPUT: replication factor %d, min in-sync %d configured, %d used (want %d)", rf, mi, g, wmi)
				}
				if g := commitLogPartitionsConfig(s); g != wclp {
					t.Fatalf("FAILING-INPUT: %d commit log partitions configured, %d used", clp, g)
				}
			}
		}
	}
	a, b := c25Cluster{"source"}, c25Cluster{"state"}
	if g := newSource(EventSourceConfig{SourceCluster: a}).stateCluster(); g != Cluster(a) {
		t.Fatalf("FAILING-INPUT: no state cluster configured, %v used", g)
	}
	if g := newSource(EventSourceConfig{SourceCluster: a, StateCluster: b}).stateCluster(); g != Cluster(b) {
		t.Fatalf("FAILING-INPUT: state cluster configured, %v used", g)
	}
	if g := newSource(EventSourceConfig{Topic: "t", GroupId: "g"}).StateStoreTopicName(); g != "gkes_change_log_t_g" {
		t.Fatalf("FAILING-INPUT: default state store topic is %s", g)
	}
	if g := newSource(EventSourceConfig{Topic: "t", GroupId: "g", StateStoreTopic: "x"}).StateStoreTopicName(); g != "x" {
		t.Fatalf("FAILING-INPUT: state store topic x configured, %s used", g)
	}
	if g := newSource(EventSourceConfig{Topic: "t", GroupId: "g"}).CommitLogTopicNameForGroupId(); g != "gkes_commit_log_g" {
		t.Fatalf("FAILING-INPUT: commit log topic is %s", g)
	}
	for _, c := range []bool{false, true} {
		if newSource(EventSourceConfig{CommitOffsets: c}).shouldMarkCommit() != c {
			t.Fatalf("FAILING-INPUT: CommitOffsets=%v not respected", c)
		}
	}
	d := newSource(EventSourceConfig{Topic: "t", GroupId: "g", NumPartitions: 6, SourceCluster: a, StateCluster: b}).AsDestination()
	if d.DefaultTopic != "t" || d.NumPartitions != 6 || d.Cluster != Cluster(a) {
		t.Fatalf("FAILING-INPUT: destination of the source is %+v", d)
	}
	calls := 0
	s := newSource(EventSourceConfig{
		TxnErrorHandler:             func(error) ErrorResponse { calls++; return Continue },
		DeserializationErrorHandler: func(ec ErrorContext, _ string, _ error) ErrorResponse { calls += 10; return Continue },
	})
	s.eosErrorHandler()(nil)
	s.deserializationErrorHandler()(nil, "", nil)
	if calls != 11 {
		t.Fatalf("FAILING-INPUT: the configured error policies were not used (%d)", calls)
	}
	if r := newSource(EventSourceConfig{}).eosErrorHandler(); r == nil {
		t.Fatalf("FAILING-INPUT: no transaction error policy by default")
	}
	if r := newSource(EventSourceConfig{}).deserializationErrorHandler(); r == nil {
		t.Fatalf("FAILING-INPUT: no deserialization error policy by default")
	}
	if newSource(EventSourceConfig{}).State() != Healthy {
		t.Fatalf("FAILING-INPUT: a new source is not healthy")
	}
}


func TestVerifC25_Eos(t *testing.T) {
	vals := []int{-1, 0, 1, 2, 10}
	ds := []time.Duration{-1, 0, 1, time.Millisecond - 1, time.Millisecond, time.Second}
	for _, p := range vals {
		for _, q := range vals {
			for _, tb := range vals {
				for _, mb := range vals {
					for _, d := range ds {
						c := EosConfig{PoolSize: p, PendingTxnCount: q, TargetBatchSize: tb, MaxBatchSize: mb, BatchDelay: d}
						want := p >= 1 && q >= 1 && tb >= 1 && mb >= 1 && d >= time.Millisecond && tb <= mb
						got := true
						func() {
							defer func() {
								if recover() != nil {
									got = false
								}
							}()
							c.validate()
						}()
						if got != want {
							t.Fatalf("FAILING-INPUT: %+v accepted: %v", c, got)
						}
						if c.IsZero() != (c == EosConfig{}) {
							t.Fatalf("FAILING-INPUT: %+v IsZero: %v", c, c.IsZero())
						}
					}
				}
			}
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				t.Fatalf("FAILING-INPUT: the default configuration is refused: %v", e)
			}
		}()
		DefaultEosConfig.validate()
	}()
}

func TestVerifC25_Required(t *testing.T) {
	if isNetworkError(nil) || isNetworkError(errors.New("x")) || !isNetworkError(fmt.Errorf("w: %w", &net.OpError{Op: "dial"})) {
		t.Fatalf("FAILING-INPUT: isNetworkError misjudges nil, a plain or a wrapped network error")
	}
	for i, c := range []EventSourceConfig{{Topic: "t", SourceCluster: SimpleCluster{}}, {GroupId: "g", SourceCluster: SimpleCluster{}}, {GroupId: "g", Topic: "t"}} {
		if s, err := CreateSource(c); err == nil || s != nil {
			t.Fatalf("FAILING-INPUT: incomplete configuration %d accepted: %+v", i, c)
		}
	}
	sc := &eventSourceConsumer[intStore]{}
	bs := toGroupBalancers(sc, []BalanceStrategy{RangeBalanceStrategy, RoundRobinBalanceStrategy, CooperativeStickyBalanceStrategy, IncrementalBalanceStrategy})
	want := []string{"range", "roundrobin", "cooperative-sticky", IncrementalCoopProtocol}
	if len(bs) != len(want) {
		t.Fatalf("FAILING-INPUT: 4 strategies gave %d balancers", len(bs))
	}
	for i := range bs {
		if bs[i].ProtocolName() != want[i] {
			t.Fatalf("FAILING-INPUT: strategy %d gave balancer %s, want %s", i, bs[i].ProtocolName(), want[i])
		}
	}
}
