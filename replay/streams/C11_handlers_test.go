package streams

import (
	"errors"
	"fmt"
	"math/rand"
	"testing"

	"github.com/twmb/franz-go/pkg/kgo"
)

type c11Store struct{}

func (c11Store) ReceiveChange(IncomingRecord) error { return nil }
func (c11Store) Revoked()                           {}

func c11Record(typ string, typed bool, value string) IncomingRecord {
	k := &kgo.Record{Value: []byte(value), Key: []byte("k")}
	if typed {
		k.Headers = []kgo.RecordHeader{{Key: "x", Value: []byte("other")}, {Key: RecordTypeHeaderKey, Value: []byte(typ)}}
	}
	return newIncomingRecord(k)
}

func TestVerifC11_Dispatch(t *testing.T) {
	rnd := rand.New(rand.NewSource(4))
	types := []string{"", "a", "b", "A", "aa", "c"}
	for round := 0; round < 400; round++ {
		policy := rnd.Intn(4) // 0 none, 1 continue, 2 fail, 3 exit
		var asked []string
		cfg := EventSourceConfig{}
		if policy > 0 {
			cfg.DeserializationErrorHandler = func(ec ErrorContext, typ string, err error) ErrorResponse {
				asked = append(asked, typ+":"+err.Error())
				return []ErrorResponse{Continue, FailConsumer, FatallyExit}[policy-1]
			}
		}
		var ran []string
		es := &EventSource[c11Store]{source: newSource(cfg)}
		RegisterDefaultHandler(es, func(ec *EventContext[c11Store], r IncomingRecord) ExecutionState {
			ran = append(ran, "default:"+string(r.Value()))
			return Incomplete
		}, "")
		var reg []string
		state := map[string]ExecutionState{}
		for i, n := 0, rnd.Intn(5); i < n; i++ {
			i := i
			typ := types[rnd.Intn(len(types))]
			reg = append(reg, typ)
			name := fmt.Sprintf("%d:%s", i, typ)
			state[name] = ExecutionState(rnd.Intn(3))
			RegisterEventType(es, func(r IncomingRecord) (string, error) {
				if string(r.Value()) == "bad" {
					return "half", errors.New("undecodable")
				}
				return "<" + string(r.Value()) + ">", nil
			}, func(ec *EventContext[c11Store], v string) ExecutionState {
				ran = append(ran, name+v)
				return state[name]
			}, typ)
		}
		for k := 0; k < 12; k++ {
			typ := types[rnd.Intn(len(types))]
			typed := rnd.Intn(4) > 0
			value := []string{"v", "bad", ""}[rnd.Intn(3)]
			ran, asked = nil, nil
			rec := c11Record(typ, typed, value)
			if !typed {
				typ = ""
			}
			ec := &EventContext[c11Store]{input: rec}
			got := es.handleEvent(ec, rec)
			want, wantRan, wantAsked := Incomplete, []string{"default:" + value}, []string(nil)
			for i, r := range reg {
				if r != typ {
					continue
				}
				name := fmt.Sprintf("%d:%s", i, r)
				if value == "bad" {
					wantRan = nil
					if policy > 0 {
						wantAsked = []string{typ + ":undecodable"}
					}
					if policy < 2 {
						want = Complete
					}
				} else {
					want, wantRan = state[name], []string{name + "<" + value + ">"}
				}
				break
			}
			if got != want || fmt.Sprint(ran) != fmt.Sprint(wantRan) || fmt.Sprint(asked) != fmt.Sprint(wantAsked) {
				t.Fatalf("FAILING-INPUT: handlers %q, policy %d: event of type %q (typed %v) with value %q ran %q, asked %q and is %v; want %q, %q, %v", reg, policy, typ, typed, value, ran, asked, got, wantRan, wantAsked, want)
			}
		}
	}
}
