package streams

//vp:use lib_app.go

import "time"

// vpDone returns a channel which is closed when f returns
func vpDone(f func()) chan struct{} {
	c := make(chan struct{})
	go func() {
		f()
		close(c)
	}()
	return c
}

func vpClosed(c chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

// vpRest checks what has to hold when a revoked partition has come to rest
func (a *vpApp) rest() {
	for _, ev := range a.evs {
		vpVerify(ev.started == ev.ended, "an event which was in flight does not complete")
		for _, i := range ev.fwds {
			f := a.fwds[ev.p][i]
			vpVerify(f.n == 1 && f.t.state == 1, "an event which was in flight is not committed")
		}
	}
	a.open(0)
}

// over watches that nothing is in flight when a partition is reported revoked
func (a *vpApp) over() {
	a.cfg.OnPartitionRevoked = func(_ *Source, p int32) {
		for _, ev := range a.evs {
			vpVerify(ev.p != p || ev.started == ev.ended, "a partition is reported revoked while one of its events is in flight")
		}
		for _, f := range a.fwds[p] {
			vpVerify(f.t != nil && f.t.state == 1, "a partition is reported revoked before what its events produced is committed")
		}
		vpReach("reported")
	}
}

// 2 partitions with up to 2 (thorough 3) events at any base offset, which forward at once or later, or an interjection in flight, pool 1..2; partition
// 0 is revoked at any of several moments, an event is fetched and an interjection is requested while it is; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C07 delays=1 thorough:delays=2 timeout=150s thorough:timeout=700s horizon=60s sched
func vpH_C07_moments() {
	a := vpNewApp(2)
	a.serial, a.once, a.commits = true, true, true
	a.w.base["t"] = vpBase()
	a.cfg.EosConfig = vpEos(1+vpChoose(2), 1, 1, 2)
	a.over()
	a.start(0, 1)
	vpQuiesce(time.Second)
	n := 2
	if vpThorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		a.add(0).kind = 3 * vpChoose(2)
	}
	inter := vpChoose(2) == 1
	if inter {
		go a.es.Interject(0, a.interjector)
	}
	if m := vpChoose(4); m > 0 {
		vpQuiesce([]time.Duration{0, time.Millisecond, 7 * time.Millisecond, 100 * time.Millisecond}[m])
	}
	during := a.add(0)
	revoked := vpDone(func() { a.w.group().revoke("t", 0) })
	asked := vpDone(func() {
		<-a.es.Interject(0, a.interjector)
	})
	vpQuiesce(time.Second)
	vpVerify(vpClosed(revoked), "revoking blocks")
	vpVerify(vpClosed(asked), "an interjection request is not answered")
	late := a.add(0)
	other := a.add(1)
	vpQuiesce(time.Second)
	vpVerify(late.started == 0, "an event fetched after the revocation is processed")
	vpVerify(other.ended == 1 && other.txn.state == 1, "another partition is not processed after a revocation")
	a.rest()
	vpVerify(vpBlockedIn("partitionWorker[") <= 2, "the worker does not terminate")
	if during.started > 0 {
		vpReach("accepted")
	} else {
		vpReach("not accepted")
	}
}

// pool 1, one event per transaction: the first event is held, 1..8 events wait behind it in every buffer, then the partition is revoked and the event
// is released, or the other way round: no waiting event is processed, another partition goes on, and when the partition comes back every event
// is processed once
//
//vp:harness prop=C07 delays=1 thorough:delays=2 timeout=150s thorough:timeout=700s horizon=60s sched
func vpH_C07_waiting() {
	a := vpNewApp(2)
	a.serial, a.once = true, true
	w := a.w
	w.base["t"] = vpBase()
	w.maxFetch = 1
	a.cfg.EosConfig = vpEos(1, 1, 1, 1)
	a.over()
	a.start(0, 1)
	vpQuiesce(time.Second)
	release := make(chan struct{})
	a.hook = func(ev *vpEv) {
		if ev.id == 0 {
			<-release
		}
	}
	n := []int{1, 3, 8}[vpChoose(3)]
	for i := 0; i <= n; i++ {
		a.add(0).kind = 0
	}
	vpQuiesce(50 * time.Millisecond)
	asks := vpChoose(3)
	var asked []chan struct{}
	for i := 0; i < asks; i++ {
		asked = append(asked, vpDone(func() {
			<-a.es.Interject(0, a.interjector)
		}))
	}
	vpQuiesce(time.Millisecond)
	revoked := vpDone(func() { w.group().revoke("t", 0) })
	if vpChoose(2) == 1 {
		vpQuiesce(50 * time.Millisecond)
	}
	close(release)
	vpQuiesce(time.Second)
	vpVerify(vpClosed(revoked), "revoking blocks")
	for _, c := range asked {
		vpVerify(vpClosed(c), "an interjection request is not answered")
	}
	for _, ev := range a.evs[2:] {
		vpVerify(ev.started == 0 || vpThorough(), "a buffered event is processed after the revocation")
	}
	a.rest()
	other := a.add(1)
	vpQuiesce(time.Second)
	vpVerify(other.ended == 1 && other.txn.state == 1, "another partition is not processed after a revocation")
	vpVerify(vpBlockedIn("partitionWorker[") <= 2, "the worker does not terminate")
	a.serial = false // the order of ids starts again
	w.group().assign("t", 0)
	vpQuiesce(time.Second)
	a.finished()
	for _, ev := range a.evs {
		vpVerify(ev.started == 1, "an event is processed twice over a revocation")
	}
	vpReach("returned")
}
