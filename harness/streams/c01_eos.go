package streams

//vp:use lib_app.go

import (
	"time"
)

// 1..2 partitions, 3 (thorough 4) events at any base offset, completing at once or in another goroutine, at once or 5 ms later; batch limits 1..2,
// pool 1..2; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C01 delays=1 thorough:delays=2 thorough:timeout=600s horizon=60s sched
func vpH_C01_positions() {
	np := 1 + vpChoose(2)
	a := vpNewApp(np)
	a.commits, a.kinds = true, 4
	a.cfg.EosConfig = vpEos(1+vpChoose(2), 1, 1+vpChoose(2), 2)
	a.w.base["t"] = vpBase()
	a.start(0, int32(np-1))
	n := 2
	if vpThorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		a.add(int32(i % np))
	}
	vpQuiesce(time.Second)
	a.finished()
	vpReach("committed")
}

// one partition, 2 (thorough 3) events with arbitrary values at any base offset, batch limits 1..2, pool 1..2; a crash at any Kafka operation or
// none, then a second instance takes over: every event has taken effect exactly once
//
//vp:harness prop=C01 horizon=60s sched
func vpH_C01_crash() {
	a := vpNewApp(1)
	w := a.w
	n := 2
	if vpThorough() {
		n = 3
	}
	w.base["t"] = vpBase()
	for i := 0; i < n; i++ {
		a.add(0)
	}
	a.cfg.EosConfig = vpEos(1+vpChoose(2), 1, 1+vpChoose(2), 2)
	w.crashAt = vpChoose(60) - 1
	w.ackLate = vpChoose(2) == 1
	crashed := w.crashed
	go a.start(0)
	vpQuiesce(time.Second)
	select {
	case <-crashed:
		vpReach("crashed")
	default:
		w.crash()
		vpReach("finished")
	}
	w.crashAt = -1
	b := a.successor()
	b.start(0)
	vpQuiesce(time.Second)
	out := w.committed("o", 1)
	vpVerify(len(out) == n, "an event's output is lost or duplicated")
	for i, r := range out {
		vpVerify(r.Value[0] == byte(i), "output is out of order")
		vpVerify(r.Value[1] == a.evs[i].val, "output is changed")
	}
	st := b.stores[0]
	vpVerify(len(st.m) == n, "the state does not hold every event")
	for i := range a.evs {
		vpVerify(st.m[byte(i)] == a.evs[i].val, "the state is not the one after every event once")
	}
}
