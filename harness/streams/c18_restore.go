package streams

//vp:use lib_app.go
//vp:use c07_revoke.go

import (
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

// vpRestore watches how stores are populated
type vpRestore struct {
	a      *vpApp
	n      map[*vpAppStore]int // records a store has got
	need   map[int32]int       // records the store of a partition has to have before its first event
	active map[*vpAppStore]bool
	hold   chan struct{} // stores wait for it
	halted bool
}

func vpWatchRestore(a *vpApp) *vpRestore {
	r := &vpRestore{a: a, n: map[*vpAppStore]int{}, need: map[int32]int{}, active: map[*vpAppStore]bool{}}
	a.change = func(s *vpAppStore, in IncomingRecord) {
		p := s.tp.Partition
		vpVerify(s.revoked == 0, "a revoked store is fed")
		vpVerify(!r.active[s], "a store is fed after its partition became active")
		vpVerify(!in.isMarkerRecord(), "a marker reaches a store")
		l := r.records(p)
		vpVerify(r.n[s] < len(l), "a store gets a record which is not in the state topic, or gets one again")
		x := l[r.n[s]]
		vpVerify(in.TopicPartition() == ntp(p, vpStateTopic) && in.Offset() == x.Offset, "a store does not get the state records in the order of the log")
		vpVerify(len(in.Key()) == 1 && len(in.Value()) == 2 && vpAnd(in.Key()[0] == x.Key[0], vpAnd(in.Value()[0] == x.Value[0], in.Value()[1] == x.Value[1])), "a state record is changed on its way")
		r.n[s]++
		if r.hold != nil {
			<-r.hold
			vpVerify(s.revoked == 0, "a store is revoked while it is fed")
		}
	}
	a.cfg.OnPartitionActivated = func(_ *Source, p int32) { r.complete(p) }
	a.ecHook = func(ec *EventContext[*vpAppStore]) {
		p := ec.TopicPartition().Partition
		s := r.complete(p)
		vpVerify(ec.Store() == s, "an event gets the store of another partition or assignment")
		r.active[s] = true
	}
	return r
}

// records of the state topic which stores have to see
func (r *vpRestore) records(p int32) (rs []*kgo.Record) {
	for _, x := range r.a.w.committed(vpStateTopic, int(p)) {
		if !isMarkerRecord(x) {
			rs = append(rs, x)
		}
	}
	return
}

// the store of p is the latest one and has everything
func (r *vpRestore) complete(p int32) *vpAppStore {
	s := r.store(p)
	vpVerify(s != nil && s.revoked == 0, "a partition is active without a store")
	vpVerify(r.n[s] >= r.need[p], "a partition is active before its store has every state record")
	return s
}

func (r *vpRestore) store(p int32) (s *vpAppStore) {
	for _, x := range r.a.stores {
		if x.tp.Partition == p {
			s = x
		}
	}
	return
}

// put appends a state record
func (r *vpRestore) put(p int32) {
	r.a.w.add(vpStateTopic, p, kgo.Record{Key: []byte{vpUint8()}, Value: []byte{100, vpUint8()}})
}

// noise appends what a store must not see
func (r *vpRestore) noise(p int32, kind int) {
	w := r.a.w
	switch kind {
	case 1: // a marker of somebody else
		w.add(vpStateTopic, p, kgo.Record{Key: markerKey, Value: []byte("other"), Headers: []kgo.RecordHeader{{Key: markerKeyString}}})
	case 2: // of an aborted transaction
		vpAtomic(func() {
			w.aborted[w.append(vpStateTopic, p, kgo.Record{Key: []byte{1}, Value: []byte{1, 1}})] = true
			w.wakeAll()
		})
	}
}

func (r *vpRestore) assign(ps ...int32) {
	for _, p := range ps {
		r.need[p] = len(r.records(p))
	}
	r.a.w.group().assign("t", ps...)
}

func vpPause() {
	n := 2
	if vpThorough() {
		n = 3
	}
	if m := vpChoose(n); m > 0 {
		vpQuiesce([]time.Duration{0, time.Second, 2 * time.Millisecond}[m])
	}
}

// 0..2 (thorough 0..3) state records with any bytes, with or without a foreign marker or the record of an aborted transaction among them, fetched one by one or
// together; the partition is assigned at once, or is prepared, prepared and forgotten, or forgotten and prepared again, with another state record in
// between, and gets an event and an interjection (thorough: another partition is assigned as well); up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C18 delays=1 thorough:delays=2 timeout=150s thorough:timeout=700s horizon=60s sched
func vpH_C18_restore() {
	a := vpNewApp(2)
	r := vpWatchRestore(a)
	a.cfg.EosConfig = vpEos(2, 1, 1, 2)
	layouts := [][]int{{}, {0, 0}, {0, 1, 0}, {2, 0}, {0, 0, 2, 0, 1}, {1, 1, 2}}
	n := 4
	if vpThorough() {
		n = len(layouts)
	}
	for _, k := range layouts[vpChoose(n)] {
		if k == 0 {
			r.put(0)
		} else {
			r.noise(0, k)
		}
	}
	r.put(1)
	a.w.maxFetch = vpChoose(2)
	vpNoYield(true)
	a.start()
	vpQuiesce(time.Millisecond)
	vpNoYield(false)
	sc := a.es.consumer
	how := vpChoose(4)
	if how > 0 {
		sc.PrepareTopicPartition(ntp(0, "t"))
		vpPause()
		r.put(0)
		if how > 1 {
			sc.ForgetPreparedTopicPartition(ntp(0, "t"))
			vpPause()
		}
		if how == 3 {
			sc.PrepareTopicPartition(ntp(0, "t"))
			vpPause()
		}
	}
	e := a.add(0)
	f := e
	if vpThorough() {
		f = a.add(1)
		r.assign(0, 1)
	} else {
		r.assign(0)
	}
	r.put(0) // too late to be needed
	vpQuiesce(time.Second)
	s := r.store(0)
	vpVerify(e.ended == 1 && f.ended == 1 && r.active[s], "an event is not processed")
	vpNoYield(true)
	<-a.es.Interject(0, a.interjector)
	vpQuiesce(time.Second)
	a.finished()
	if how == 0 {
		vpVerify(len(a.stores) == len(r.need), "a partition has several stores")
	}
	if how > 1 {
		vpReach("started over")
	}
}

// a partition with 3 state records, fetched one by one, is prepared or assigned, and prepared partitions are forgotten and assigned ones revoked, 2
// (thorough 3) times, at any of several moments; then it is assigned for good; another partition is restored all the while; up to 1
// (thorough 2) scheduling delays
//
//vp:harness prop=C18 delays=1 thorough:delays=2 timeout=150s thorough:timeout=700s horizon=60s sched
func vpH_C18_again() {
	a := vpNewApp(2)
	r := vpWatchRestore(a)
	a.cfg.EosConfig = vpEos(2, 1, 1, 2)
	for i := 0; i < 3; i++ {
		r.put(0)
	}
	r.put(1)
	r.put(1)
	a.w.maxFetch = 1
	a.start()
	sc := a.es.consumer
	f := a.add(1)
	r.assign(1)
	n := 2
	if vpThorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		if vpChoose(2) == 0 {
			sc.PrepareTopicPartition(ntp(0, "t"))
			vpPause()
			sc.ForgetPreparedTopicPartition(ntp(0, "t"))
		} else {
			r.assign(0)
			vpPause()
			a.w.group().revoke("t", 0)
		}
		s := r.store(0)
		vpVerify(s.revoked == 1, "the store of a partition which was given up is not revoked")
	}
	e := a.add(0)
	r.assign(0)
	vpQuiesce(time.Second)
	vpVerify(e.ended == 1 && f.ended == 1, "an event is not processed")
	a.finished()
	vpVerify(vpBlockedIn("stateStorePartition[") == 0, "a restore is left waiting")
	vpReach("restored")
}

// sending the marker fails up to 2 times: the partition which is prepared or assigned becomes active all the same, or is given up while the marker is
// sent, and nothing is left waiting
//
//vp:harness prop=C18 delays=1 thorough:delays=2 horizon=60s sched
func vpH_C18_marker() {
	a := vpNewApp(1)
	r := vpWatchRestore(a)
	a.cfg.EosConfig = vpEos(2, 1, 1, 2)
	r.put(0)
	fails := 1 + vpChoose(2)
	a.w.fault = func(op string, t *vpTxn) error {
		if op == "produce" && t == nil && fails > 0 {
			fails--
			return vpErrNotInTxn
		}
		return nil
	}
	a.start()
	sc := a.es.consumer
	switch vpChoose(3) {
	case 0:
		sc.PrepareTopicPartition(ntp(0, "t"))
		vpPause()
	case 1:
		sc.PrepareTopicPartition(ntp(0, "t"))
		vpPause()
		sc.ForgetPreparedTopicPartition(ntp(0, "t"))
	case 2:
		r.assign(0)
		vpPause()
		a.w.group().revoke("t", 0)
	}
	e := a.add(0)
	r.assign(0)
	vpQuiesce(5 * time.Second)
	vpVerify(e.ended == 1, "an event is not processed")
	a.finished()
	vpVerify(vpBlockedIn("stateStorePartition[") == 0, "a restore is left waiting")
	vpReach("restored")
}

// a store which takes its time for 1..3 records while the partition is prepared or assigned; then the event source stops, or the partition is given up, while
// the store works on a record and more are fetched: nothing panics or hangs, the store gets no more records, and the state client is closed
//
//vp:harness prop=C18 delays=1 thorough:delays=2 timeout=150s thorough:timeout=700s horizon=60s sched
func vpH_C18_giveup() {
	a := vpNewApp(2)
	r := vpWatchRestore(a)
	a.cfg.EosConfig = vpEos(2, 1, 1, 2)
	n := 1 + vpChoose(3)
	for i := 0; i < n; i++ {
		r.put(0)
	}
	r.put(1)
	a.w.maxFetch = 1
	slow := vpChoose(2) == 1
	if slow {
		r.hold = make(chan struct{})
	}
	a.start()
	sc := a.es.consumer
	prep := vpChoose(2) == 1
	if prep {
		sc.PrepareTopicPartition(ntp(0, "t"))
	} else {
		r.assign(0)
	}
	vpPause()
	stop := vpChoose(2) == 1
	done := vpDone(func() {
		switch {
		case stop:
			a.es.StopNow()
		case prep:
			sc.ForgetPreparedTopicPartition(ntp(0, "t"))
		default:
			a.w.group().revoke("t", 0)
		}
	})
	if slow {
		vpQuiesce(time.Millisecond)
		close(r.hold)
	}
	vpQuiesce(5 * time.Second)
	vpVerify(vpClosed(done), "giving up a partition or stopping blocks")
	k := len(r.records(0))
	r.put(0)
	vpQuiesce(5 * time.Second)
	s := r.store(0)
	vpVerify(r.n[s] <= k, "a store is fed after its partition was given up")
	vpVerify(vpBlockedIn("stateStorePartition[") == 0, "a restore is left waiting")
	if stop {
		vpVerify(sc.stateStoreConsumer.client.Verif().(*vpKC).closed == 1, "the state client is not closed")
		vpReach("stopped")
	} else {
		e := a.add(1)
		r.assign(1)
		vpQuiesce(time.Second)
		vpVerify(e.ended == 1, "another partition is not restored")
		vpReach("given up")
	}
}

// a store which is stuck while more fetches arrive than the restore can buffer: giving the partition up lets another partition be restored
//
//vp:harness prop=C18 horizon=60s steps=6000000 sched
func vpH_C18_backlog() {
	a := vpNewApp(2)
	r := vpWatchRestore(a)
	n := []int{1023, 1024, 1025, 1026, 1030}[vpChoose(5)]
	rec := kgo.Record{Key: []byte{1}, Value: []byte{2, 3}}
	for i := 0; i < n; i++ {
		a.w.append(vpStateTopic, 0, rec)
	}
	r.put(1)
	a.w.maxFetch = 1
	plain := a.change
	hold := make(chan struct{})
	a.change = func(s *vpAppStore, in IncomingRecord) {
		if s.tp.Partition == 1 {
			plain(s, in)
			return
		}
		vpVerify(in.Offset() == int64(r.n[s]), "a store does not get the state records in the order of the log")
		r.n[s]++
		if r.n[s] == 1 {
			<-hold
		}
	}
	a.start()
	sc := a.es.consumer
	sc.PrepareTopicPartition(ntp(0, "t"))
	vpQuiesce(time.Second)
	done := vpDone(func() { sc.ForgetPreparedTopicPartition(ntp(0, "t")) })
	vpQuiesce(time.Second)
	e := a.add(1)
	close(hold)
	r.assign(1)
	vpQuiesce(time.Second)
	vpVerify(vpClosed(done), "giving up a partition blocks")
	vpVerify(r.n[r.store(0)] == 1, "a store is fed after its partition was given up")
	vpVerify(e.ended == 1, "another partition is not restored")
	vpReach("restored")
}
