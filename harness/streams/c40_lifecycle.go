package streams

//vp:use lib_app.go

import "time"

// vpLife records the lifecycle callbacks of each partition
type vpLife struct {
	a   *vpApp
	log map[int32][]string
}

func vpWatch(a *vpApp) *vpLife {
	l := &vpLife{a: a, log: map[int32][]string{}}
	on := func(what string) SourcePartitionEventHandler {
		return func(s *Source, p int32) {
			vpYield()
			l.log[p] = append(l.log[p], what)
			n := len(l.log[p])
			prev := ""
			if n > 1 {
				prev = l.log[p][n-2]
			}
			switch what {
			case "assigned":
				vpVerify(prev == "" || prev == "revoked", "a partition is reported assigned out of order")
			case "activated":
				vpVerify(prev == "assigned", "a partition is reported activated out of order")
			case "will revoke":
				vpVerify(prev == "assigned" || prev == "activated", "a partition is reported to be revoked out of order")
			case "revoked":
				vpVerify(prev == "will revoke", "a partition is reported revoked out of order")
				vpVerify(a.busy[p] == 0, "a partition is reported revoked while one of its events is processed")
				for _, ev := range a.evs {
					vpVerify(ev.p != p || ev.started == ev.ended, "a partition is reported revoked while one of its events is in flight")
				}
			}
		}
	}
	a.cfg.OnPartitionAssigned, a.cfg.OnPartitionActivated = on("assigned"), on("activated")
	a.cfg.OnPartitionWillRevoke, a.cfg.OnPartitionRevoked = on("will revoke"), on("revoked")
	return l
}

func (l *vpLife) count(p int32, what string) (n int) {
	for _, x := range l.log[p] {
		if x == what {
			n++
		}
	}
	return
}

var vpStrategies = [][]BalanceStrategy{nil, {IncrementalBalanceStrategy}, {RangeBalanceStrategy}, {RoundRobinBalanceStrategy}, {CooperativeStickyBalanceStrategy},
	{RangeBalanceStrategy, IncrementalBalanceStrategy}, {CooperativeStickyBalanceStrategy, RoundRobinBalanceStrategy}}

// every kind of list of balance strategies, 2 partitions assigned together or one after the other, one event each, one of them revoked and assigned again
//
//vp:harness prop=C40 horizon=60s sched
func vpH_C40_strategies() {
	a := vpNewApp(2)
	a.once = true
	l := vpWatch(a)
	a.cfg.BalanceStrategies = vpStrategies[vpChoose(len(vpStrategies))]
	a.cfg.EosConfig = vpEos(2, 1, 1, 2)
	together := vpChoose(2) == 1
	a.add(0)
	a.add(1)
	if together {
		a.start(0, 1)
	} else {
		a.start(1)
		vpQuiesce(time.Second)
		a.w.group().assign("t", 0)
	}
	vpQuiesce(time.Second)
	a.finished()
	back := int32(vpChoose(2))
	a.w.group().revoke("t", back)
	vpQuiesce(time.Second)
	a.add(back)
	a.w.group().assign("t", back)
	vpQuiesce(time.Second)
	a.finished()
	for p := int32(0); p < 2; p++ {
		n := 1
		if p == back {
			n = 2
		}
		vpVerify(l.count(p, "assigned") == n, "an assignment is not reported")
		vpVerify(l.count(p, "activated") == n, "an activation is not reported")
		vpVerify(l.count(p, "will revoke") == n-1 && l.count(p, "revoked") == n-1, "a revocation is not reported")
	}
	vpReach("assigned again")
}

// one partition with up to 2 state records and an event, prepared ahead of time or not, prepared and forgotten, at any of several moments, revoked at any of
// several moments, among them while its store is restored or an event is in flight, and assigned again at once or later; up to 1 (thorough 2)
// scheduling delays
//
//vp:harness prop=C40 delays=1 thorough:delays=2 timeout=150s thorough:timeout=700s horizon=60s sched
func vpH_C40_moments() {
	a := vpNewApp(1)
	a.once = true
	l := vpWatch(a)
	a.cfg.EosConfig = vpEos(2, 1, 1, 2)
	a.w.maxFetch = 1
	a.start()
	sc := a.es.consumer
	wait := func() {
		if m := vpChoose(3); m > 0 {
			vpQuiesce([]time.Duration{0, 7 * time.Millisecond, 100 * time.Millisecond}[m])
		}
	}
	prep := vpChoose(3)
	if prep > 0 {
		sc.PrepareTopicPartition(ntp(0, "t"))
		wait()
	}
	if prep == 2 {
		sc.ForgetPreparedTopicPartition(ntp(0, "t"))
		wait()
	}
	ev := a.add(0)
	ev.kind = 3 * vpChoose(2)
	a.w.group().assign("t", 0)
	wait()
	a.w.group().revoke("t", 0)
	if vpChoose(2) == 1 {
		vpQuiesce(time.Second)
	}
	a.w.group().assign("t", 0)
	vpQuiesce(time.Second)
	a.finished()
	vpVerify(ev.started == 1, "an event is processed twice over a revocation")
	vpVerify(l.count(0, "assigned") == 2 && l.count(0, "will revoke") == 1 && l.count(0, "revoked") == 1, "an assignment or revocation is not reported")
	vpVerify(l.log[0][len(l.log[0])-1] == "activated", "an assigned partition is not activated")
	vpReach("assigned again")
}
