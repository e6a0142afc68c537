package stores

import (
	"github.com/aws/go-kafka-event-source/streams"
	"github.com/google/btree"
)

// a store b that receives the change entry of a put into a ends up like a
func verifReplayPut[T Keyed](a, b *SimpleStore[T], item T) error {
	c := a.Put(item)
	return b.ReceiveChange(streams.VerifIncoming(c))
}

func verifReplayDelete[T Keyed](a, b *SimpleStore[T], item T) error {
	c, ok := a.Delete(item)
	if !ok {
		return nil
	}
	return b.ReceiveChange(streams.VerifIncoming(c))
}

func verifPutGet[T Keyed](a *SimpleStore[T], item T) (T, bool) {
	a.Put(item)
	return a.Get(item.Key())
}

func verifSameShard[K any, T any](st ShardedTree[K, T], k K) (a, b *btree.BTreeG[T]) {
	a = st.For(k)
	b = st.For(k)
	return
}
