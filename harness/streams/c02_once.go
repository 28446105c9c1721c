package streams

//vp:use lib_app.go

import (
	"context"
	"time"
)

// 1 (thorough 1..2) partitions, 2 (thorough 3) events with any value at any base offset which forward 0..2 records and 0..1 changes at once or later, or an interjection, batch
// limits 1..2, pool 1..2, acknowledgements at once or late; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C02 delays=1 thorough:delays=2 timeout=150s thorough:timeout=600s horizon=60s sched
func vpH_C02_once() {
	np, n := 1, 1
	if vpThorough() {
		np, n = 1+vpChoose(2), 2
	}
	a := vpNewApp(np)
	a.once, a.kinds = true, 5
	a.w.base["t"] = vpBase()
	a.w.ackLate = vpChoose(2) == 1
	a.cfg.EosConfig = vpEos(1+vpChoose(2), 1, 1+vpChoose(2), 2)
	a.start(0, int32(np-1))
	vpQuiesce(time.Second)
	for i := 0; i < n; i++ {
		a.add(int32(i % np))
	}
	switch vpChoose(3) {
	case 0:
		go a.es.Interject(0, a.interjector)
		vpReach("interjection")
	case 1:
		a.kinds = 1
		a.add(0)
	case 2:
		a.kinds = 1
		a.add(int32(np - 1)).kind = 3
	}
	vpQuiesce(time.Second)
	a.finished()
	for _, fs := range a.fwds {
		for _, f := range fs {
			vpVerify(f.n == 1 && f.t.state == 1, "a forwarded record is not committed")
		}
	}
	vpReach("committed")
}

type vpSink struct {
	recs []*Record
	ecs  []*EventContext[*vpAppStore]
}

func (s *vpSink) ProduceRecord(ec *EventContext[*vpAppStore], r *Record, cb func(*Record, error)) {
	s.recs = append(s.recs, r)
	s.ecs = append(s.ecs, ec)
}

// any partition, with and without a state topic, 0..3 entries with any key and value and any topic and partition set before; events and
// interjections
//
//vp:harness prop=C02
func vpH_C02_changes() {
	p := vpInt32()
	topic := []string{"", "state"}[vpChoose(2)]
	s := &vpSink{}
	var ec *EventContext[*vpAppStore]
	if vpChoose(2) == 1 {
		ec = MockInterjectionEventContext[*vpAppStore](context.Background(), ntp(p, "t"), topic, nil, nil, s)
	} else {
		ec = MockEventContext[*vpAppStore](context.Background(), NewRecord().WithTopic("t").WithPartition(p), topic, nil, nil, s)
	}
	n := vpChoose(4)
	var es []ChangeLogEntry
	var ks, vs []byte
	for i := 0; i < n; i++ {
		k, v := vpUint8(), vpUint8()
		ks, vs = append(ks, k), append(vs, v)
		es = append(es, NewChangeLogEntry().WithKey([]byte{k}).WithValue([]byte{v}).WithEntryType("e"))
	}
	ec.RecordChange(es...)
	if topic == "" {
		vpVerify(len(s.recs) == 0, "a state change without a state topic is sent")
		vpReach("dropped")
		return
	}
	vpVerify(len(s.recs) == n, "a state change is lost or duplicated")
	for i, r := range s.recs {
		k := r.toKafkaRecord()
		vpVerify(k.Topic == "state" && k.Partition == p, "a state change is misrouted")
		vpVerify(vpAnd(k.Key[0] == ks[i], k.Value[0] == vs[i]), "a state change is altered")
		vpVerify(s.ecs[i] == ec, "a state change belongs to another event")
		vpVerify(r.recordType == "e", "a state change loses its type")
	}
	vpReach("sent")
}
