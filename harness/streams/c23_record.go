package streams

import (
	"bytes"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

// what was set on a record
type vpSpec struct {
	key, val  []byte
	hk        []string
	hv        [][]byte
	typ       string
	topic     string
	partition int32
}

func vpFill(r *Record) vpSpec {
	var s vpSpec
	s.partition = AutoAssign
	how := vpChoose(3)
	k := vpBytes(vpChoose(3))
	switch how {
	case 0:
		r.WriteKey(k)
	case 1:
		r.WithKeyString(string(k))
	case 2:
		r.KeyWriter().Write(k)
	}
	s.key = k
	v := vpBytes(vpChoose(3))
	switch how {
	case 0:
		r.WithValue(v)
	case 1:
		r.WriteValueString(string(v), "!")
		v = append(append([]byte(nil), v...), '!')
	case 2:
		if len(v) == 2 {
			r.WriteValue(v[:1], v[1:])
		} else {
			r.ValueWriter().Write(v)
		}
	}
	s.val = v
	for i := vpChoose(3); i > 0; i-- {
		hk, hv := vpString(vpChoose(2)), vpBytes(vpChoose(2))
		r.WithHeader(hk, hv)
		s.hk, s.hv = append(s.hk, hk), append(s.hv, hv)
	}
	switch vpChoose(3) {
	case 1:
		s.typ = vpString(1)
		r.WithRecordType(s.typ)
	case 2:
		s.topic = vpString(1)
		s.partition = vpInt32()
		r.WithTopic(s.topic).WithPartition(s.partition)
	}
	return s
}

func vpSame(a, b []byte) bool { return (a == nil) == (len(b) == 0) && bytes.Equal(a, b) }

func (s vpSpec) check(k *kgo.Record, what string) {
	vpVerify(bytes.Equal(k.Key, s.key), what+": the key is not the one set")
	vpVerify(len(s.key) > 0 || k.Key == nil, what+": an unset key is not nil")
	vpVerify(bytes.Equal(k.Value, s.val), what+": the value is not the one set")
	vpVerify(len(s.val) > 0 || k.Value == nil, what+": an empty value is not a tombstone")
	vpVerify(k.Topic == s.topic, what+": the topic is not the one set")
	vpVerify(k.Partition == s.partition, what+": the partition is not the one set")
	n := len(s.hk)
	if len(s.typ) > 0 {
		n++
	}
	vpVerify(len(k.Headers) == n, what+": the number of headers is wrong")
	j := 0
	for _, h := range k.Headers {
		if h.Key == RecordTypeHeaderKey {
			vpVerify(len(s.typ) > 0 && string(h.Value) == s.typ, what+": the type header is wrong")
			continue
		}
		vpVerify(j < len(s.hk) && h.Key == s.hk[j] && bytes.Equal(h.Value, s.hv[j]), what+": a header is not the one set")
		j++
	}
	vpVerify(j == len(s.hk), what+": a header is missing")
}

func (s vpSpec) checkIncoming(r IncomingRecord, what string) {
	vpVerify(bytes.Equal(r.Key(), s.key) && bytes.Equal(r.Value(), s.val), what+": key or value is lost")
	vpVerify(r.RecordType() == s.typ, what+": the type does not round-trip")
	vpVerify(r.TopicPartition() == ntp(s.partition, s.topic), what+": the topic partition is lost")
	for i, k := range s.hk {
		first := i
		for j := i - 1; j >= 0; j-- {
			if s.hk[j] == k {
				first = j
			}
		}
		vpVerify(bytes.Equal(r.HeaderValue(k), s.hv[first]), what+": a header value is lost")
	}
}

// a first use of the record with arbitrary content: built, possibly converted, released
func vpDirty() {
	r := NewRecord()
	r.WithKeyString("dirtykey").WithValue([]byte("dirtyvalue")).WithHeader("dirty", []byte("d")).WithHeader("dirty2", nil).WithRecordType("dirtytype").WithTopic("dirtytopic").WithPartition(77)
	if vpChoose(2) == 1 {
		r.toKafkaRecord()
	}
	r.err = vpErr("dirty")
	r.Release()
}

type vpErr string

func (e vpErr) Error() string { return string(e) }

// key, value of 0..2 bytes, 0..2 headers with 0..1 byte names and values, type, topic, partition; fresh or recycled record;
// converted for producing, possibly twice
//
//vp:harness prop=C23
func vpH_C23_produce() {
	if vpChoose(2) == 1 {
		vpDirty()
	}
	r := NewRecord()
	vpVerify(r.Error() == nil, "a recycled record carries an error")
	s := vpFill(r)
	k := r.toKafkaRecord()
	s.check(k, "toKafkaRecord")
	s.checkIncoming(newIncomingRecord(k), "newIncomingRecord")
	switch vpChoose(3) {
	case 1:
		s.check(r.toKafkaRecord(), "toKafkaRecord again")
	case 2:
		r.WithHeader("late", []byte("l"))
		s.hk, s.hv = append(s.hk, "late"), append(s.hv, []byte("l"))
		s.check(r.toKafkaRecord(), "toKafkaRecord with another header")
	}
	vpReach("produce")
}

// the freshly allocated copy has what was set, shares nothing with the record and leaves it as it was
//
//vp:harness prop=C23
func vpH_C23_copy() {
	if vpChoose(2) == 1 {
		vpDirty()
	}
	r := NewRecord()
	s := vpFill(r)
	s.key, s.val = append([]byte(nil), s.key...), append([]byte(nil), s.val...)
	for i := range s.hv {
		s.hv[i] = append([]byte(nil), s.hv[i]...)
	}
	k := r.ToKafkaRecord()
	s.check(k, "ToKafkaRecord")
	in := r.AsIncomingRecord()
	s.checkIncoming(in, "AsIncomingRecord")
	// scribbling over both copies leaves the record alone
	for _, c := range []*kgo.Record{k, &in.kRecord} {
		for i := range c.Key {
			c.Key[i]++
		}
		for i := range c.Value {
			c.Value[i]++
		}
		for i := range c.Headers {
			for j := range c.Headers[i].Value {
				c.Headers[i].Value[j]++
			}
			c.Headers[i].Key = "scribble"
		}
		c.Topic, c.Partition = "scribble", 99
	}
	s.check(r.toKafkaRecord(), "the record after its copies were changed")
	// and the record's reuse leaves a copy alone
	k2 := r.ToKafkaRecord()
	r.Release()
	NewRecord().WithKeyString("zzzz").WithValue([]byte("zzzz")).WithHeader("z", []byte("z")).WithTopic("z").WithPartition(5).WithRecordType("z")
	s.check(k2, "a copy after the record was reused")
	vpReach("copy")
}

// change log entries carry what was set on them
//
//vp:harness prop=C23
func vpH_C23_entry() {
	if vpChoose(2) == 1 {
		vpDirty()
	}
	var s vpSpec
	s.partition = AutoAssign
	s.key, s.val = vpBytes(vpChoose(3)), vpBytes(vpChoose(3))
	e := NewChangeLogEntry()
	switch vpChoose(3) {
	case 0:
		e = e.WithKey(s.key).WithValue(s.val)
	case 1:
		e = e.WithKeyString(string(s.key))
		e.WriteValueString(string(s.val))
	case 2:
		e.WriteKey(s.key)
		e.ValueWriter().Write(s.val)
	}
	if vpChoose(2) == 1 {
		s.typ = vpString(1 + vpChoose(2))
		e = e.WithEntryType(s.typ)
	}
	if vpChoose(2) == 1 {
		s.hk, s.hv = []string{vpString(1)}, [][]byte{vpBytes(1)}
		e = e.WithHeader(s.hk[0], s.hv[0])
	}
	s.check(e.record.toKafkaRecord(), "change log entry")
	vpReach("entry")
}

// an incoming record reports what Kafka delivered: any offset, partition, epoch, 0..2 headers of which any may be the type
//
//vp:harness prop=C23
func vpH_C23_incoming() {
	k := &kgo.Record{Offset: vpInt64(), Partition: vpInt32(), LeaderEpoch: vpInt32(), Topic: vpString(vpChoose(3)), Timestamp: time.Unix(12345, 6)}
	if n := vpChoose(4); n > 0 {
		k.Key = vpBytes(n - 1)
	}
	if n := vpChoose(4); n > 0 {
		k.Value = vpBytes(n - 1)
	}
	typ := ""
	n := vpChoose(3)
	types := 0
	for i := 0; i < n; i++ {
		if vpChoose(2) == 1 && types == 0 {
			types++
			t := vpString(vpChoose(3))
			typ = t
			k.Headers = append(k.Headers, kgo.RecordHeader{Key: RecordTypeHeaderKey, Value: []byte(t)})
		} else {
			// anything but the type header, of any length around that of its name
			key := vpString(1)
			if c := vpChoose(4); c > 0 {
				key = vpString(len(RecordTypeHeaderKey) - 2 + c)
				vpAssume(key != RecordTypeHeaderKey)
			}
			k.Headers = append(k.Headers, kgo.RecordHeader{Key: key, Value: vpBytes(1)})
		}
	}
	saved := *k
	r := newIncomingRecord(k)
	vpVerify(r.Offset() == saved.Offset, "the offset is wrong")
	vpVerify(r.TopicPartition().Partition == saved.Partition && r.TopicPartition().Topic == saved.Topic, "the topic partition is wrong")
	vpVerify(r.LeaderEpoch() == saved.LeaderEpoch, "the leader epoch is wrong")
	vpVerify(r.Timestamp().Equal(saved.Timestamp), "the timestamp is wrong")
	vpVerify((r.Key() == nil) == (saved.Key == nil) && bytes.Equal(r.Key(), saved.Key), "the key is wrong")
	vpVerify((r.Value() == nil) == (saved.Value == nil) && bytes.Equal(r.Value(), saved.Value), "the value is wrong")
	vpVerify(r.RecordType() == typ, "the type is wrong")
	vpVerify(len(r.Headers()) == len(saved.Headers), "headers are lost")
	q := vpString(1)
	var want []byte
	for i := len(saved.Headers) - 1; i >= 0; i-- {
		if saved.Headers[i].Key == q {
			want = saved.Headers[i].Value
		}
	}
	vpVerify(bytes.Equal(r.HeaderValue(q), want), "HeaderValue is wrong")
	vpReach("incoming")
}

// every sequence of 6 (thorough 8) borrows, uses and releases of up to 3 records: a borrowed record is blank and nobody else's
//
//vp:harness prop=C23 thorough:timeout=600s
func vpH_C23_reuse() {
	n := 6
	if vpThorough() {
		n = 8
	}
	var held []*Record
	marks := byte(0)
	for i := 0; i < n; i++ {
		if len(held) == 0 || (len(held) < 3 && vpChoose(2) == 0) {
			r := NewRecord()
			for _, o := range held {
				vpVerify(o != r, "a record is borrowed twice")
			}
			vpSpec{partition: AutoAssign}.check(r.toKafkaRecord(), "a new record")
			vpVerify(r.err == nil && r.recordType == "", "a new record carries state over")
			marks++
			r.WithKey([]byte{marks}).WithHeader("h", []byte{marks})
			switch vpChoose(3) {
			case 0:
				r.WithValue([]byte{marks}).WithRecordType("t")
			case 1:
				r.WithTopic("x").WithPartition(3)
			case 2:
				r.toKafkaRecord()
			}
			held = append(held, r)
		} else {
			j := vpChoose(len(held))
			r := held[j]
			held = append(held[:j:j], held[j+1:]...)
			k := r.toKafkaRecord()
			vpVerify(len(k.Key) == 1 && len(k.Headers) >= 1 && k.Headers[0].Value[0] == k.Key[0], "a held record changed")
			r.Release()
		}
	}
	vpReach("reuse")
}
