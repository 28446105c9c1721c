package streams

//vp:use c07_revoke.go
//vp:use lib_app.go

import "time"

// one partition, up to 5 (thorough 6) events in two groups, the second after the first was handled, with 2 or 3 records each, which complete at
// once or 5 ms later; batch limit 1..4, target 1..limit, pool 2..4, 1..2 pending transactions; up to 0 (thorough 1) scheduling delays
//
//vp:harness prop=C05 thorough:delays=1 timeout=150s thorough:timeout=700s horizon=60s sched
func vpH_C05_limits() {
	a := vpNewApp(1)
	a.w.base["t"] = vpBase()
	max := 1 + vpChoose(4)
	target := 1 + vpChoose(max)
	pool, pending := 2+vpChoose(3), 1+vpChoose(2)
	a.cfg.EosConfig = vpEos(pool, pending, target, max)
	a.start(0)
	vpQuiesce(time.Second)
	// however they are scheduled, no more than these are open: one accepts events, one commits, the others wait
	limit := pending + 2
	if pool < limit {
		limit = pool
	}
	monitor := a.w.onProduce
	a.w.onProduce = func(t *vpTxn, s *vpSent) {
		monitor(t, s)
		open := 0
		for _, t := range a.w.txns {
			if t.state == 0 {
				open++
			}
		}
		vpVerify(open <= limit, "more transactions wait than configured")
	}
	n := 3
	if vpThorough() {
		n = 4
	}
	kinds := []int{5, 3, 0}
	for i := 0; i < n; i++ {
		a.add(0).kind = kinds[vpChoose(3)]
	}
	vpQuiesce(2 * time.Millisecond)
	for i := 0; i < 2; i++ {
		a.add(0).kind = 5 * vpChoose(2)
	}
	vpQuiesce(time.Second)
	a.finished()
	for _, e := range a.evs {
		n, recs := 0, 0
		for _, f := range a.evs {
			if f.txn == e.txn {
				n++
				for _, i := range f.fwds {
					if a.fwds[0][i].at < e.at {
						recs++
					}
				}
			}
		}
		vpVerify(n <= max, "a transaction holds more events than configured")
		vpVerify(recs < max, "a transaction which has reached its record limit accepts an event")
	}
	vpReach("committed")
}

// 1..3 events at once or 3 ms apart, a batch target which they do not reach: they are committed after the batch delay and not after the next event
//
//vp:harness prop=C05 delays=1 thorough:delays=2 horizon=60s sched
func vpH_C05_lingering() {
	a := vpNewApp(1)
	n := 1 + vpChoose(3)
	vpLinger(a, n, -1)
}

// the same with an interjection, alone or before, between or after 1..2 events
//
//vp:harness prop=C05 delays=1 thorough:delays=2 horizon=60s sched
func vpH_C05_interjection() {
	a := vpNewApp(1)
	n := 1 + vpChoose(2)
	vpLinger(a, n, vpChoose(n))
}

// 1..3 transactions of interjections which produce nothing, one after the other or at once, pool 1..2, then an event: it is committed within the batch delay all the same
//
//vp:harness prop=C05 thorough:delays=1 horizon=60s sched
func vpH_C05_nothing() {
	a := vpNewApp(1)
	a.cfg.EosConfig = vpEos(1+vpChoose(2), 1, 3+vpChoose(2), 5)
	a.start(0)
	vpQuiesce(time.Second)
	n := 1 + vpChoose(3)
	runs := 0
	for i := 0; i < n; i++ {
		k := 1 + vpChoose(2)
		for j := 0; j < k; j++ {
			done := vpDone(func() {
				<-a.es.Interject(0, func(*EventContext[*vpAppStore], time.Time) ExecutionState { runs++; return Complete })
			})
			if j == k-1 {
				vpQuiesce(30 * time.Millisecond)
				vpVerify(vpClosed(done), "an interjection does not run")
			}
		}
	}
	ev := a.add(0)
	ev.kind = 3 * vpChoose(2)
	vpQuiesce(60 * time.Millisecond)
	vpVerify(runs >= n, "an interjection does not run")
	a.finished()
	for _, f := range a.fwds[0] {
		vpVerify(f.n == 1 && f.t.state == 1, "a record is not committed within the batch delay")
	}
	vpReach("committed")
}

func vpLinger(a *vpApp, n, interject int) {
	a.cfg.EosConfig = vpEos(2, 1, 50, 100)
	a.start(0)
	vpQuiesce(time.Second)
	for i := 0; i < n; i++ {
		if i == interject {
			go a.es.Interject(0, a.interjector)
		} else {
			a.add(0).kind = 3 * vpChoose(2)
		}
		if vpChoose(2) == 1 {
			vpQuiesce(3 * time.Millisecond)
		}
	}
	vpQuiesce(60 * time.Millisecond)
	a.finished()
	for _, f := range a.fwds[0] {
		vpVerify(f.n == 1 && f.t.state == 1, "a record is not committed within the batch delay")
	}
	vpReach("committed")
}

// every value of every field
//
//vp:harness prop=C05
func vpH_C05_validate() {
	c := EosConfig{PoolSize: vpInt(), PendingTxnCount: vpInt(), TargetBatchSize: vpInt(), MaxBatchSize: vpInt(), BatchDelay: time.Duration(vpInt64())}
	valid := vpAnd(vpAnd(c.PoolSize >= 1, c.PendingTxnCount >= 1), vpAnd(vpAnd(c.TargetBatchSize >= 1, c.MaxBatchSize >= c.TargetBatchSize), c.BatchDelay >= time.Millisecond))
	empty := vpAnd(vpAnd(c.PoolSize == 0, c.PendingTxnCount == 0), vpAnd(vpAnd(c.TargetBatchSize == 0, c.MaxBatchSize == 0), c.BatchDelay == 0))
	vpVerify(c.IsZero() == empty, "an empty configuration is not recognized, or another one is taken for it")
	rejected := false
	func() {
		defer func() { rejected = recover() != nil }()
		c.validate()
	}()
	vpVerify(rejected == !valid, "a configuration outside the documented ranges is accepted, or one within is rejected")
	d := DefaultEosConfig
	vpVerify(d.PoolSize == 3 && d.PendingTxnCount == 1 && d.TargetBatchSize == 1000 && d.MaxBatchSize == 10000 && d.BatchDelay == 10*time.Millisecond, "the defaults are not the documented ones")
}

// an event source with any configuration around the limits: rejected before anything is consumed, or taken as it is, or as the defaults if empty
//
//vp:harness prop=C05 horizon=60s sched
func vpH_C05_source() {
	a := vpNewApp(1)
	pick := func(vs ...int) int { return vs[vpChoose(len(vs))] }
	c := EosConfig{PoolSize: pick(0, 1, 2, -1), PendingTxnCount: pick(0, 1, -1), TargetBatchSize: pick(0, 1, 2), MaxBatchSize: pick(0, 1, 3, -1), BatchDelay: []time.Duration{0, time.Millisecond, time.Millisecond - 1}[vpChoose(3)]}
	a.cfg.EosConfig = c
	rejected := false
	func() {
		defer func() { rejected = recover() != nil }()
		a.start()
	}()
	valid := c.PoolSize >= 1 && c.PendingTxnCount >= 1 && c.TargetBatchSize >= 1 && c.MaxBatchSize >= c.TargetBatchSize && c.BatchDelay >= time.Millisecond
	if c == (EosConfig{}) {
		vpVerify(!rejected, "the empty configuration is rejected")
		vpVerify(a.es.source.config.EosConfig == DefaultEosConfig, "the empty configuration does not mean the defaults")
		vpReach("default")
		return
	}
	vpVerify(rejected == !valid, "an invalid configuration is accepted, or a valid one rejected")
	if !rejected {
		vpVerify(a.es.source.config.EosConfig == c, "the configuration is changed")
		vpReach("accepted")
	} else {
		vpReach("rejected")
		for _, c := range a.w.clients {
			vpVerify(c.cfg.Group == "" || c.cfg.OnAssigned == nil || a.es == nil, "a client joins the group in spite of an invalid configuration")
		}
	}
}
