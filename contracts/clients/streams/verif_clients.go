package streams

import (
	"bytes"

	"github.com/aws/go-kafka-event-source/streams/sak"
)

func verifIntRoundTrip[T sak.Signed](v T) (T, int) {
	var c intCodec[T]
	b := new(bytes.Buffer)
	c.Encode(b, v)
	r, _ := c.Decode(b.Bytes())
	return r, b.Len()
}

func verifStringRoundTrip(v string) (string, error) {
	b := new(bytes.Buffer)
	var c stringCodec
	c.Encode(b, v)
	return c.Decode(b.Bytes())
}

func verifBytesRoundTrip(v []byte) ([]byte, error) {
	b := new(bytes.Buffer)
	var c byteCodec
	c.Encode(b, v)
	return c.Decode(b.Bytes())
}

func verifLexoRoundTrip(v int64) (int64, error) {
	b := new(bytes.Buffer)
	LexoInt64Codec.Encode(b, v)
	return LexoInt64Codec.Decode(b.Bytes())
}

// VerifIncoming is what a consumer of the change log sees of an entry.
func VerifIncoming(c ChangeLogEntry) IncomingRecord { return c.record.AsIncomingRecord() }

// the progress record of tp as the progress log's consumer sees it
func verifProgress(cl *eosCommitLog, tp TopicPartition, offset int64) error {
	return cl.ReceiveChange(cl.commitRecord(tp, offset).AsIncomingRecord())
}

// the acknowledgements of n records
func verifAllAcknowledged[S any](b *produceBatcher[S], n int) {
	for i := 0; i < n; i++ {
		b.recordComplete()
	}
}
