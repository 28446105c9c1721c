package streams

//vp:use lib_app.go
//vp:use c07_revoke.go
//vp:use c37_metrics.go
//vp:use c40_lifecycle.go

import (
	"time"

	"github.com/twmb/franz-go/pkg/kadm"
	"github.com/twmb/franz-go/pkg/kmsg"
)

// vpEnd drives an event source to its end
type vpEnd struct {
	a        *vpApp
	m        vpMeter
	done     int // signals of Done
	graceful bool
	letGo    bool
	status   interface{ Running() bool }
	failed   bool
}

func vpNewEnd(parts int, strategies []BalanceStrategy) *vpEnd {
	s := &vpEnd{a: vpNewApp(parts)}
	a := s.a
	a.cfg.EosConfig = vpEos(2, 1, 1, 2)
	a.cfg.BalanceStrategies = strategies
	a.cfg.MetricsHandler = s.m.handle
	return s
}

// start runs the event source with its partitions; protocol is what the group uses
func (s *vpEnd) start(protocol string, ps ...int32) {
	a := s.a
	a.w.admin.describe = func(groups []string) (kadm.DescribedGroups, error) {
		vpVerify(len(groups) == 1 && groups[0] == "g", "the state of another group is asked for")
		switch protocol {
		case "fails":
			return nil, vpErrNotInTxn
		case "none":
			return kadm.DescribedGroups{}, nil
		}
		return kadm.DescribedGroups{"g": {Group: "g", Protocol: protocol}}, nil
	}
	a.start()
	s.status = a.es.ForkRunStatus()
	g := a.w.group()
	closing := g.closing
	g.closing = func() {
		if s.graceful {
			vpVerify(s.letGo, "the client leaves before the group has let the member go")
			vpVerify(s.status.Running(), "the background components halt before the group has let the member go")
		}
		closing()
	}
	g.rebal = func() {
		go func() {
			vpYield()
			s.sync()
		}()
	}
	if len(ps) > 0 {
		g.assign("t", ps...)
	}
}

// sync is a rebalance in which the group takes everything away from a member which wants to leave
func (s *vpEnd) sync() {
	a := s.a
	if a.es.consumer.incrBalancer == nil || s.letGo {
		return
	}
	var m kmsg.ConsumerMemberMetadata
	var meta IncrGroupMemberMeta
	b := a.es.consumer.incrBalancer
	vpVerify(m.ReadFrom(b.JoinGroupMetadata([]string{"t"}, nil, 1)) == nil && json.Unmarshal(m.UserData, &meta) == nil, "the state of a member can not be read")
	if meta.Status == ActiveMember {
		return
	}
	g := a.w.group()
	var ps []int32
	for p := range g.owned["t"] {
		ps = append(ps, p)
	}
	if len(ps) > 1 { // one after the other
		as := kmsg.ConsumerMemberAssignment{Topics: []kmsg.ConsumerMemberAssignmentTopic{{Topic: "t", Partitions: ps[1:]}}}
		b.ParseSyncAssignment(as.AppendTo(nil))
		g.revoke("t", ps[0])
		vpQuiesce(time.Second)
		ps = ps[1:]
		if s.graceful { // what is still owned is still processed
			ev := a.add(ps[0])
			ev.kind = 0
			vpQuiesce(time.Second)
			vpVerify(ev.ended == 1, "an event of a partition which the leaving member still owns is not processed")
			vpReach("still processed")
		}
	}
	s.letGo = true
	var as kmsg.ConsumerMemberAssignment
	b.ParseSyncAssignment(as.AppendTo(nil))
	if len(ps) > 0 {
		g.revoke("t", ps...)
	}
}

// await waits for Done
func (s *vpEnd) await() {
	<-s.a.es.Done()
	s.done++
	vpVerify(s.a.w.group().closed > 0, "Done is signalled before the client is closed")
	vpVerify(!s.status.Running(), "Done is signalled before the background components are told to halt")
}

// over checks that everything has come to an end
func (s *vpEnd) over() {
	a := s.a
	sc := a.es.consumer
	vpVerify(a.w.group().closed > 0, "the client is not closed")
	vpVerify(!s.status.Running(), "the background components are not told to halt")
	vpVerify(sc.stateStoreConsumer.client.Verif().(*vpKC).closed > 0, "the state client is not closed")
	vpVerify(sc.commitLog.changeLog.client.Verif().(*vpKC).closed > 0, "the commit log client is not closed")
	if !s.failed { // events of a failed transaction never complete; a worker which waits for its resume position goes on waiting
		vpVerify(vpBlockedIn("partitionWorker[") == vpBlockedIn("lastProcessed"), "a worker does not end")
	}
	vpVerify(vpBlockedIn("emitMetrics") == 0, "the metrics emitter does not end")
	vpVerify(vpBlockedIn("stateStoreConsumer[") == 0 && vpBlockedIn("stateStorePartition[") == 0, "the state store consumer does not end")
	vpVerify(vpBlockedIn("revokePartitions") == 0, "revoking blocks")
	started := 0
	for _, ev := range a.evs {
		started += ev.started
	}
	late := a.add(0)
	vpQuiesce(time.Second)
	vpVerify(late.started == 0, "an event is processed after the event source has stopped")
	for _, ev := range a.evs {
		started -= ev.started
	}
	vpVerify(started == 0, "an event is processed after the event source has stopped")
}

// every list of balance strategies, whatever the group is said to use; the event source is stopped gracefully or at once, once, twice or concurrently,
// or through WaitForChannel, with or without assigned partitions
//
//vp:harness prop=C36 timeout=100s horizon=120s sched
func vpH_C36_ways() {
	strat := vpStrategies[vpChoose(len(vpStrategies))]
	s := vpNewEnd(2, strat)
	a := s.a
	protocol := IncrementalCoopProtocol
	if len(strat) > 1 {
		protocol = []string{IncrementalCoopProtocol, "range", "none", "", "fails"}[vpChoose(5)]
	}
	switch vpChoose(3) {
	case 0:
		s.start(protocol)
	case 1:
		s.start(protocol, 0, 1)
		a.add(0)
		a.add(1).kind = 3
	case 2:
		s.start(protocol, 0, 1)
		a.add(0)
		vpQuiesce(time.Second)
	}
	way := vpChoose(7)
	incr := a.es.consumer.incrBalancer != nil && protocol == IncrementalCoopProtocol
	s.graceful = incr && way != 1 && way != 4 && way != 5
	ask := make(chan struct{})
	called := 0
	go s.await()
	switch way {
	case 0:
		a.es.Stop()
	case 1:
		a.es.StopNow()
	case 2:
		a.es.Stop()
		a.es.Stop()
	case 3:
		go a.es.Stop()
		go a.es.Stop()
	case 4:
		a.es.Stop()
		vpQuiesce(time.Millisecond)
		a.es.StopNow()
	case 5:
		go a.es.StopNow()
		a.es.StopNow()
	case 6:
		go a.es.WaitForChannel(ask, func() { called++ })
		close(ask)
		vpQuiesce(100 * time.Second)
		vpVerify(s.done+called == 1, "Done is not signalled once per graceful stop")
		if s.done == 1 { // its waiter has taken it
			vpReach("taken")
		}
		s.over()
		return
	}
	vpQuiesce(100 * time.Second)
	vpVerify(s.done == 1, "Done is not signalled")
	if way == 0 || way == 2 || way == 3 {
		select {
		case <-a.es.Done():
			vpVerify(false, "Done is signalled twice for one graceful stop")
		default:
		}
	}
	s.over()
	if s.graceful {
		vpVerify(s.letGo, "the group does not let the member go")
		for _, ev := range a.evs {
			vpVerify(ev.kind != 3 || ev.started == ev.ended || ev.off < 0, "an event which was in flight does not complete during a graceful stop")
		}
		vpReach("let go")
	}
}

// one or two partitions with events which forward at once or later and a state record each; incremental or range strategy; a graceful stop, an immediate
// one, or both, at any of several moments; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C36 delays=1 thorough:delays=2 timeout=150s thorough:timeout=700s horizon=120s sched
func vpH_C36_moments() {
	strat := [][]BalanceStrategy{{IncrementalBalanceStrategy}, {RangeBalanceStrategy}}[vpChoose(2)]
	s := vpNewEnd(2, strat)
	a := s.a
	a.once = true
	if vpChoose(2) == 0 {
		s.start(IncrementalCoopProtocol)
		go a.w.group().assign("t", 0)
	} else {
		s.start(IncrementalCoopProtocol, 0)
	}
	a.add(0).kind = 3 * vpChoose(2)
	if m := vpChoose(3); m > 0 {
		vpQuiesce([]time.Duration{0, 2 * time.Millisecond, 100 * time.Millisecond}[m])
	}
	go s.await()
	way := vpChoose(3)
	s.graceful = way == 0 && len(strat) > 0 && strat[0] == IncrementalBalanceStrategy
	switch way {
	case 0:
		a.es.Stop()
	case 1:
		a.es.StopNow()
	case 2:
		go a.es.Stop()
		a.es.StopNow()
	}
	vpQuiesce(100 * time.Second)
	vpVerify(s.done == 1, "Done is not signalled")
	s.over()
	vpReach("stopped")
}

// nobody waits for Done: stopping gracefully or at once, up to 3 times one after the other, does not block, with or without assigned partitions
//
//vp:harness prop=C36 thorough:delays=1 timeout=100s thorough:timeout=300s horizon=120s sched
func vpH_C36_unattended() {
	strat := [][]BalanceStrategy{{IncrementalBalanceStrategy}, {RangeBalanceStrategy}}[vpChoose(2)]
	s := vpNewEnd(2, strat)
	a := s.a
	if vpChoose(2) == 0 {
		s.start(IncrementalCoopProtocol)
	} else {
		s.start(IncrementalCoopProtocol, 0, 1)
		a.add(0)
		a.add(1).kind = 3 * vpChoose(2)
	}
	if vpChoose(2) == 1 {
		vpQuiesce(time.Second)
	}
	n := 1 + vpChoose(3)
	for i := 0; i < n; i++ {
		stop := a.es.Stop
		if vpChoose(2) == 1 {
			stop = a.es.StopNow
		}
		stopped := vpDone(stop)
		vpQuiesce(100 * time.Second)
		vpVerify(vpClosed(stopped), "stopping blocks")
	}
	s.over()
	select {
	case <-a.es.Done():
	default:
		vpVerify(false, "Done is not signalled")
	}
	vpReach("stopped")
}

// a transaction of one or two partitions can not be committed, begun, flushed or produced, alone or while the event source is being stopped: it becomes
// unhealthy and stops by itself; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C36 delays=1 thorough:delays=2 timeout=150s thorough:timeout=700s horizon=200s sched
func vpH_C36_failure() {
	strat := [][]BalanceStrategy{{IncrementalBalanceStrategy}, {RangeBalanceStrategy}}[vpChoose(2)]
	s := vpNewEnd(2, strat)
	a := s.a
	what := []string{"end", "begin", "flush", "produce"}[vpChoose(4)]
	all := vpChoose(2) == 1
	failed := 0
	a.w.fault = func(op string, t *vpTxn) error {
		if op == what && (op == "begin" || t != nil) && (all || failed == 0) {
			failed++
			return vpErrNotInTxn
		}
		return nil
	}
	s.start(IncrementalCoopProtocol, 0, 1)
	vpQuiesce(time.Second)
	a.add(0).kind = 0
	a.add(1).kind = 0
	go s.await()
	switch vpChoose(3) {
	case 1:
		go a.es.StopNow()
	case 2:
		a.es.Stop()
	}
	vpQuiesce(150 * time.Second)
	vpVerify(s.done == 1, "Done is not signalled")
	if failed > 0 {
		vpVerify(a.es.State() == Unhealthy, "a failed event source is not unhealthy")
		s.failed = true
		vpReach("failed")
	}
	s.over()
}

// stopping gracefully or at once right after starting, or before; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C36 delays=1 thorough:delays=2 timeout=100s thorough:timeout=300s horizon=120s sched
func vpH_C36_early() {
	strat := [][]BalanceStrategy{{IncrementalBalanceStrategy}, {RangeBalanceStrategy}}[vpChoose(2)]
	s := vpNewEnd(1, strat)
	a := s.a
	a.create()
	s.status = a.es.ForkRunStatus()
	g := a.w.group()
	g.rebal = func() { go s.sync() }
	before := vpChoose(2) == 1
	if !before {
		a.es.ConsumeEvents()
	}
	go s.await()
	if vpChoose(2) == 1 {
		a.es.Stop()
	} else {
		a.es.StopNow()
	}
	if before {
		a.es.ConsumeEvents()
	}
	vpQuiesce(100 * time.Second)
	vpVerify(s.done == 1, "Done is not signalled")
	vpVerify(g.closed > 0, "the client is not closed")
	vpVerify(!s.status.Running(), "the background components are not told to halt")
	vpVerify(a.es.consumer.stateStoreConsumer.client.Verif().(*vpKC).closed > 0, "the state client is not closed")
	vpVerify(vpBlockedIn("emitMetrics") == 0, "the metrics emitter does not end")
	vpReach("stopped")
}
