package streams

//vp:use lib_app.go

import (
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

// 1..2 partitions, 2 (thorough 3) events per run at any base offset and with any value, of every kind, fetched one by one or together, batch limit
// 1..2, pool 1..2; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C06 delays=1 thorough:delays=2 timeout=150s thorough:timeout=700s horizon=60s sched
func vpH_C06_serial() {
	np := 1 + vpChoose(2)
	a := vpNewApp(np)
	a.serial, a.kinds = true, 4
	a.w.base["t"] = vpBase()
	a.w.maxFetch = vpChoose(2)
	a.cfg.EosConfig = vpEos(1+vpChoose(2), 1, 1, 2)
	a.start(0, int32(np-1))
	n := 2
	if vpThorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		a.add(int32(i % np))
	}
	vpQuiesce(time.Second)
	a.finished()
	vpReach("done")
}

// one partition with 3 events at any base offset and an interjection, any resume position, the first or the second event missing from the log or
// none: records are delivered from the start although the resume position is later, and after they were handled delivered once more from any
// position with another event behind them; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C06 delays=1 thorough:delays=2 timeout=100s thorough:timeout=700s horizon=60s sched
func vpH_C06_redelivered() {
	a := vpNewApp(1)
	w := a.w
	a.serial = true
	w.base["t"] = vpBase()
	for i := 0; i < 3; i++ {
		a.add(0).kind = 0
	}
	resume := vpChoose(4) // the resume position
	gap := vpChoose(3) - 1
	if resume > 0 {
		cl := &eosCommitLog{numPartitions: 2, topic: vpCommitTopic}
		r := cl.commitRecord(ntp(0, "t"), a.evs[resume-1].off).toKafkaRecord()
		w.add(vpCommitTopic, r.Partition, *r)
	}
	if gap >= 0 {
		w.logs["t"][0] = append(append(w.logs["t"][0][:0:0], w.logs["t"][0][:gap]...), w.logs["t"][0][gap+1:]...)
	}
	a.cfg.EosConfig = vpEos(2, 1, 1, 2)
	a.start(0)
	rewind := func(at int64) {
		vpAtomic(func() {
			w.group().pos["t"][0] = at
			w.wakeAll()
		})
	}
	rewind(0)
	if vpChoose(2) == 1 {
		go a.es.Interject(0, a.interjector)
	}
	vpQuiesce(time.Second)
	for i, ev := range a.evs {
		vpVerify((ev.started == 0) == (i < resume || i == gap), "a record below the resume position is handled, or one above is not")
	}
	x := &vpEv{id: byte(len(a.evs)), val: vpUint8(), off: w.base["t"] + 3}
	a.evs = append(a.evs, x)
	vpAtomic(func() {
		w.add("t", 0, kgo.Record{Key: []byte{x.id}, Value: []byte{x.val}})
		l := w.logs["t"][0]
		l[len(l)-1].Offset = x.off
	})
	rewind(int64(vpChoose(3)))
	vpQuiesce(time.Second)
	for i, ev := range a.evs {
		vpVerify((ev.started == 0) == (i < resume || i == gap), "a record which was handled is handled again, or another one is not")
		vpVerify(ev.started == ev.ended, "an event does not complete")
	}
	vpReach("done")
}
