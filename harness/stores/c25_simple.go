package stores

import (
	"bytes"
	"errors"

	"github.com/aws/go-kafka-event-source/streams"
)

type vpItem struct {
	K string
	V uint8
}

func (i vpItem) Key() string { return i.K }

type vpItemCodec struct{}

// one value byte followed by the key; a first byte of 200 or more cannot be decoded
func (vpItemCodec) Encode(b *bytes.Buffer, i vpItem) error {
	b.WriteByte(i.V)
	b.WriteString(i.K)
	return nil
}

func (vpItemCodec) Decode(b []byte) (vpItem, error) {
	if len(b) == 0 || b[0] >= 200 {
		return vpItem{K: "bad"}, errors.New("undecodable")
	}
	return vpItem{V: b[0], K: string(b[1:])}, nil
}

type vpEntry struct{ k, v []byte }

func (e vpEntry) incoming() streams.IncomingRecord {
	return streams.NewRecord().WithKey(e.k).WithValue(e.v).AsIncomingRecord()
}

func vpEntryOf(c streams.ChangeLogEntry) vpEntry {
	return vpEntry{append([]byte{}, c.KeyWriter().Bytes()...), append([]byte{}, c.ValueWriter().Bytes()...)}
}

type vpKV struct {
	k string
	v uint8
}

type vpStoreModel []vpKV

func (m *vpStoreModel) del(k string) bool {
	for i, e := range *m {
		if e.k == k {
			*m = append((*m)[:i:i], (*m)[i+1:]...)
			return true
		}
	}
	return false
}

func (m vpStoreModel) get(k string) (uint8, bool) {
	for _, e := range m {
		if e.k == k {
			return e.v, true
		}
	}
	return 0, false
}

func vpKey() string { return vpString(vpChoose(2)) }

func vpCheckStore(s *SimpleStore[vpItem], m vpStoreModel, q string, what string) {
	got, ok := s.Get(q)
	want, has := m.get(q)
	vpVerify(ok == has, what+": wrong presence of a key")
	if has {
		vpVerify(got.V == want && got.K == q, what+": not the latest value of a key")
	}
}

// 4 (thorough 5) puts/deletes with arbitrary keys of 0..1 bytes and values; the replayed store agrees for an arbitrary key
//vp:harness prop=C25 timeout=100s
func vpH_C25_replay() {
	tp := streams.TopicPartition{Topic: "t", Partition: 1}
	s := NewSimpleStore[vpItem](tp, vpItemCodec{})
	var m vpStoreModel
	var log []vpEntry
	n := 4
	if vpThorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		it := vpItem{K: vpKey(), V: vpUint8()}
		vpAssume(it.V < 200)
		if vpChoose(2) == 0 {
			cle := s.Put(it)
			m.del(it.K)
			m = append(m, vpKV{it.K, it.V})
			log = append(log, vpEntryOf(cle))
		} else {
			cle, ok := s.Delete(it)
			vpVerify(ok == m.del(it.K), "Delete reports presence wrongly")
			if ok {
				log = append(log, vpEntryOf(cle))
			}
		}
	}
	q := vpKey()
	vpCheckStore(s, m, q, "store")
	r := NewSimpleStore[vpItem](tp, vpItemCodec{})
	for _, e := range log {
		vpVerify(r.ReceiveChange(e.incoming()) == nil, "replaying an entry fails")
	}
	vpCheckStore(r, m, q, "replayed store")
	vpReach("replayed")
}

// a store with 2 items receives one entry which may be undecodable; then one arbitrary key is looked up
//vp:harness prop=C25 timeout=60s
func vpH_C25_undecodable() {
	tp := streams.TopicPartition{Topic: "t", Partition: 1}
	s := NewSimpleStore[vpItem](tp, vpItemCodec{})
	var m vpStoreModel
	for i := 0; i < 2; i++ {
		it := vpItem{K: vpKey(), V: vpUint8()}
		s.Put(it)
		m.del(it.K)
		m = append(m, vpKV{it.K, it.V})
	}
	k := []byte(vpKey())
	v := vpBytes(vpChoose(3))
	err := s.ReceiveChange(vpEntry{k, v}.incoming())
	if len(v) == 0 {
		vpVerify(err == nil, "a tombstone is refused")
		m.del(string(k))
	} else if v[0] >= 200 {
		vpVerify(err != nil, "an undecodable entry is not reported")
	} else {
		vpVerify(err == nil, "a decodable entry is refused")
		m.del(string(v[1:]))
		m = append(m, vpKV{string(v[1:]), v[0]})
	}
	q := vpString(vpChoose(2))
	if vpChoose(4) == 0 {
		q = "bad"
	}
	vpCheckStore(s, m, q, "store after an entry")
	vpReach("received")
}
