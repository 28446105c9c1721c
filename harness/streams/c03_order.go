package streams

//vp:use lib_app.go

import "time"

// 1..2 partitions, 3 (thorough 4) events which forward at once or later, one event per transaction or two, pool 2..3 with 1..2 pending
// transactions; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C03 delays=1 thorough:delays=2 timeout=200s thorough:timeout=700s horizon=60s sched
func vpH_C03_order() {
	np := 1 + vpChoose(2)
	a := vpNewApp(np)
	a.order = true
	a.w.base["t"] = vpBase()
	pool := 2 + vpChoose(2)
	pending := 1
	if pool == 3 {
		pending = 1 + vpChoose(2)
	}
	a.cfg.EosConfig = vpEos(pool, pending, 1, 1+vpChoose(2))
	n := 3
	if vpThorough() {
		n = 4
	}
	kinds := []int{0, 3}
	for i := 0; i < n; i++ {
		a.add(int32(i % np)).kind = kinds[vpChoose(2)]
	}
	a.start(0, int32(np-1))
	vpQuiesce(time.Second)
	a.finished()
	vpReach("committed")
}
