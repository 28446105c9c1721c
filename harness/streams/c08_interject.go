package streams

//vp:use c07_revoke.go
//vp:use c24_routing.go

import (
	"context"
	"time"
)

// any interval of up to 2^50 ns, a number of jitters, any random number on a grid of 2^20: the next run is scheduled no further than the jitter from the interval
//
//vp:harness prop=C08
func vpH_C08_interval() {
	every := time.Duration(vpInt64())
	vpAssume(vpAnd(every >= 0, every < 1<<50))
	jitters := []time.Duration{0, 1, 7, 1000003, 100 * time.Millisecond, -100 * time.Millisecond, 3 * time.Second, 2 * time.Second, -1}
	jitter := jitters[vpChoose(len(jitters))]
	es := &EventSource[*vpStore]{}
	es.ScheduleInterjection(func(*EventContext[*vpStore], time.Time) ExecutionState { return Complete }, every, jitter)
	d := es.interjections[0].timerDuration()
	abs := jitter
	if abs < 0 {
		abs = -abs
	}
	vpVerify(vpAnd(d >= every-abs, d <= every+abs), "an interjection is scheduled outside of its jitter")
	vpReach("scheduled")
}

// vpRuns is a scheduled interjection which watches its runs
type vpRuns struct {
	a     *vpApp
	mode  int
	every time.Duration
	evs   []*vpEv
	last  map[int32]time.Time // when the last run of a partition was complete
	open  map[int32]bool
	slack time.Duration // what a run may have to wait for others
}

// modes: 0 completes at once; 1 completes in another goroutine; 2 completes in another goroutine, 5 ms later; 3 two phases, of which the first
// one returns Incomplete from its finalizer
func (r *vpRuns) run(ec *EventContext[*vpAppStore], when time.Time) ExecutionState {
	a, p := r.a, ec.TopicPartition().Partition
	a.enter(p)
	defer a.leave(p)
	now := time.Now()
	vpVerify(!r.open[p], "a scheduled interjection runs again before it is complete")
	vpVerify(ec.IsInterjection() && ec.Offset() == -1 && ec.TopicPartition() == ntp(p, "t"), "an interjection does not look like one")
	vpVerify(!when.After(now) && now.Sub(when) < time.Millisecond, "an interjection gets another time")
	vpVerify(!now.Before(r.last[p].Add(r.every)), "a scheduled interjection runs too early")
	vpVerify(!now.After(r.last[p].Add(r.every+5*time.Millisecond+r.slack)), "a scheduled interjection runs too late")
	ev := &vpEv{id: byte(100 + len(r.evs)), p: p, off: -1, val: 1, started: 1}
	r.evs = append(r.evs, ev)
	r.open[p] = true
	done := func() ExecutionState {
		ev.ended++
		r.last[p] = time.Now()
		r.open[p] = false
		return Complete
	}
	later := func(f func() ExecutionState) func() {
		return func() {
			ec.AsyncJobComplete(func() ExecutionState {
				a.enter(p)
				defer a.leave(p)
				return f()
			})
		}
	}
	a.forward(ec, ev, false)
	a.forward(ec, ev, true)
	switch r.mode {
	case 0:
		return done()
	case 1:
		go later(done)()
	case 2:
		time.AfterFunc(5*time.Millisecond, later(done))
	case 3:
		go later(func() ExecutionState {
			time.AfterFunc(5*time.Millisecond, later(done))
			return Incomplete
		})()
	}
	return Incomplete
}

// 1..2 partitions, an interjection every 20 (thorough: or 50) ms of any completion mode, up to 2 events in between, pool 1 (thorough 1..2); a partition is revoked
// while an interjection may be in flight, and assigned again; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C08 delays=1 thorough:delays=2 timeout=150s thorough:timeout=700s horizon=60s sched
func vpH_C08_recurring() {
	parts := 1 + vpChoose(2)
	a := vpNewApp(parts)
	a.serial, a.once = true, true
	a.cfg.EosConfig = vpEos(1, 1, 1, 2)
	if vpThorough() {
		a.cfg.EosConfig.PoolSize += vpChoose(2)
	}
	r := &vpRuns{a: a, mode: vpChoose(4), every: 20 * time.Millisecond, last: map[int32]time.Time{}, open: map[int32]bool{}}
	if vpThorough() && vpChoose(2) == 1 {
		r.every = 50 * time.Millisecond
	}
	a.cfg.OnPartitionActivated = func(_ *Source, p int32) { r.last[p] = time.Now() }
	a.create()
	a.es.ScheduleInterjection(r.run, r.every, 0)
	a.es.ConsumeEvents()
	ps := []int32{0, 1}[:parts]
	a.w.group().assign("t", ps...)
	kind := 0
	if vpThorough() {
		kind = vpChoose(3) * 2 // at once, nothing, several records
	}
	vpQuiesce(19 * time.Millisecond)
	a.add(0).kind = kind
	vpQuiesce(30 * time.Millisecond)
	a.add(0).kind = kind
	vpQuiesce(35 * time.Millisecond)
	// each period takes between every and every+5 (or +10) ms; 84 ms have passed
	per := func(p int32) (n int) {
		for _, ev := range r.evs {
			if ev.p == p {
				n++
			}
		}
		return
	}
	least := 84 / int((r.every+6*time.Millisecond)/time.Millisecond)
	for _, p := range ps {
		vpVerify(per(p) >= least, "a scheduled interjection stops recurring")
	}
	if m := vpChoose(2); m > 0 {
		vpQuiesce(17 * time.Millisecond)
	}
	revoked := vpDone(func() { a.w.group().revoke("t", 0) })
	vpQuiesce(10 * time.Millisecond)
	n := per(0)
	vpQuiesce(60 * time.Millisecond)
	vpVerify(vpClosed(revoked), "revoking blocks")
	vpVerify(per(0) == n, "an interjection runs on a partition after it was revoked")
	for _, ev := range r.evs {
		if ev.p == 0 {
			vpVerify(ev.ended == 1, "an interjection which was in flight does not complete")
			for _, i := range ev.fwds {
				f := a.fwds[ev.p][i]
				vpVerify(f.n == 1 && f.t != nil && f.t.state == 1, "the records of an interjection are not committed")
			}
		}
	}
	vpVerify(vpBlockedIn("interjection[") == 0, "a scheduled interjection is left behind")
	a.w.group().assign("t", 0)
	vpQuiesce(40 * time.Millisecond)
	vpVerify(per(0) > n, "a scheduled interjection does not run after its partition is assigned again")
	vpReach("again")
}

// 2..3 scheduled interjections with an interval of their own and completing at once or 5 ms later, on 1..2 partitions, with an event in between; the
// partition is revoked and assigned again: each of them keeps recurring on each partition
//
//vp:harness prop=C08 thorough:delays=1 timeout=100s thorough:timeout=700s horizon=60s sched
func vpH_C08_several() {
	parts := 1 + vpChoose(2)
	a := vpNewApp(parts)
	a.serial, a.once = true, true
	a.cfg.EosConfig = vpEos(1, 1, 1, 2)
	n := 2 + vpChoose(2)
	var rs []*vpRuns
	for i := 0; i < n; i++ {
		rs = append(rs, &vpRuns{a: a, mode: 2 * vpChoose(2), every: []time.Duration{20, 33, 20}[i] * time.Millisecond, slack: 15 * time.Millisecond,
			last: map[int32]time.Time{}, open: map[int32]bool{}})
	}
	a.cfg.OnPartitionActivated = func(_ *Source, p int32) {
		for _, r := range rs {
			r.last[p] = time.Now()
		}
	}
	a.create()
	for _, r := range rs {
		a.es.ScheduleInterjection(r.run, r.every, 0)
	}
	a.es.ConsumeEvents()
	ps := []int32{0, 1}[:parts]
	for round := 0; round < 2; round++ {
		a.w.group().assign("t", ps...)
		vpQuiesce(30 * time.Millisecond)
		a.add(0).kind = 0
		vpQuiesce(55 * time.Millisecond)
		for _, r := range rs {
			for _, p := range ps {
				k := 0
				for _, ev := range r.evs {
					if ev.p == p {
						k++
					}
				}
				vpVerify(k >= 85/int((r.every+r.slack)/time.Millisecond+11), "a scheduled interjection does not recur on every partition")
			}
			r.evs = nil
		}
		a.w.group().revoke("t", ps...)
		vpQuiesce(100 * time.Millisecond)
		for _, r := range rs {
			vpVerify(len(r.evs) == 0, "an interjection runs on a partition after it was revoked")
		}
	}
	vpReach("recurred")
}

// vpAsk is a one-off interjection and what became of it
type vpAsk struct {
	ran  map[int32]int
	done chan struct{}
	err  error
	open bool // the channel was closed without an error
}

// 1..2 partitions, in one of the states: not assigned, assigned but not ready, ready, busy with an event, being revoked, revoked, assigned again, revoked right after the requests;
// up to 3 requests at the same moment; up to 1 (thorough 2) scheduling delays: each request is answered once, in accordance with what ran
//
//vp:harness prop=C08 delays=1 thorough:delays=2 timeout=150s thorough:timeout=700s horizon=60s sched
func vpH_C08_oneoff() {
	a := vpNewApp(2)
	a.serial, a.once = true, true
	a.cfg.EosConfig = vpEos(1, 1, 1, 2)
	a.start(1)
	vpQuiesce(time.Second)
	g := a.w.group()
	state := vpChoose(7)
	switch state {
	case 1, 2, 3, 4, 5, 6:
		g.assign("t", 0)
	}
	release := make(chan struct{})
	switch state {
	case 2, 4, 5, 6:
		vpQuiesce(time.Second)
	case 3:
		vpQuiesce(time.Second)
		a.hook = func(*vpEv) { <-release }
		a.add(0).kind = 0
		vpQuiesce(time.Millisecond)
	}
	if state == 4 {
		go g.revoke("t", 0)
	}
	if state == 5 {
		g.revoke("t", 0)
		g.assign("t", 0)
	}
	n := 1 + vpChoose(3)
	async := vpChoose(2) == 1
	var asks []*vpAsk
	for i := 0; i < n; i++ {
		q := &vpAsk{}
		var ran int
		cmd := func(ec *EventContext[*vpAppStore], t time.Time) ExecutionState {
			ran++
			vpVerify(ec.TopicPartition().Partition == 0, "an interjection runs on another partition")
			if !async {
				return a.interjector(ec, t)
			}
			a.enter(0)
			defer a.leave(0)
			go ec.AsyncJobComplete(func() ExecutionState { return a.interjector(ec, t) })
			return Incomplete
		}
		q.done = vpDone(func() {
			c := a.es.Interject(0, cmd)
			err, ok := <-c
			q.err, q.open = err, !ok
			if q.open {
				vpVerify(ran == 1, "an interjection is answered before it runs")
			} else {
				vpVerify(err != nil && ran == 0, "an interjection which ran is answered with an error")
			}
			select {
			case err, ok := <-c:
				vpVerify(!ok && q.open && err == nil, "an interjection is answered twice")
			default:
				vpVerify(!q.open, "the channel of an interjection is not closed")
			}
		})
		asks = append(asks, q)
	}
	if state == 6 {
		go g.revoke("t", 0)
	}
	vpQuiesce(time.Second)
	if state == 3 {
		close(release)
		vpQuiesce(time.Second)
	}
	for _, q := range asks {
		vpVerify(vpClosed(q.done), "an interjection request is not answered")
		switch state {
		case 0:
			vpVerify(!q.open, "an interjection runs on a partition which is not assigned")
		case 2, 3:
			vpVerify(q.open, "an interjection does not run on an active partition")
		}
	}
	for _, f := range a.fwds[0] {
		vpVerify(f.n == 1 && f.t.state == 1, "a record of an interjection is not committed")
	}
	a.open(0)
	if len(asks) == 3 {
		vpReach("answered")
	}
}

// InterjectAll and InterjectAllSync over 0..2 partitions of which one may be revoked at the same time, with events in flight: they return, each
// partition which stays active runs the interjection exactly once
//
//vp:harness prop=C08 delays=1 thorough:delays=2 timeout=150s thorough:timeout=700s horizon=60s sched
func vpH_C08_all() {
	a := vpNewApp(2)
	a.serial, a.once = true, true
	a.cfg.EosConfig = vpEos(1, 1, 1, 2)
	n := vpChoose(3)
	a.start([]int32{1, 0}[:n]...)
	vpQuiesce(time.Second)
	for p := 0; p < n; p++ {
		a.add(int32(1 - p)).kind = 3 * vpChoose(2)
	}
	revoke := n > 0 && vpChoose(2) == 1
	var revoked chan struct{}
	if revoke {
		revoked = vpDone(func() { a.w.group().revoke("t", 1) })
	}
	ran := map[int32]int{}
	all := a.es.InterjectAll
	if vpChoose(2) == 1 {
		all = a.es.InterjectAllSync
	}
	done := vpDone(func() {
		all(func(ec *EventContext[*vpAppStore], t time.Time) ExecutionState {
			ran[ec.TopicPartition().Partition]++
			return a.interjector(ec, t)
		})
		for p := int32(0); p < 2; p++ {
			vpVerify(ran[p] == 1 || n < 2-int(p) || p == 1 && revoke, "an active partition has not run the interjection when the call returns")
		}
	})
	vpQuiesce(time.Second)
	vpVerify(vpClosed(done), "an interjection into all partitions does not return")
	vpVerify(revoked == nil || vpClosed(revoked), "revoking blocks")
	for p, k := range ran {
		vpVerify(k == 1, "an interjection runs twice")
		vpVerify(int(p) >= 2-n, "an interjection runs on a partition which is not assigned")
	}
	for _, fs := range a.fwds {
		for _, f := range fs {
			vpVerify(f.n == 1 && f.t.state == 1, "a record is not committed")
		}
	}
	vpReach("returned")
}

var _ = context.Background
