package streams

//vp:use c07_revoke.go

import "time"

// vpStores watches which store each partition uses
type vpStores struct {
	a     *vpApp
	owned map[int32]*vpAppStore // since the partition was assigned or prepared
	seen  map[*vpAppStore]int32
}

func (s *vpStores) use(ec *EventContext[*vpAppStore]) {
	p, st := ec.TopicPartition().Partition, ec.Store()
	vpVerify(st != nil && st.revoked == 0, "a revoked store is used")
	vpVerify(st.tp == ntp(p, vpStateTopic), "a partition uses the store of another partition or topic")
	vpVerify(s.owned[p] == nil || s.owned[p] == st, "a partition uses two stores between its assignment and its revocation")
	if q, ok := s.seen[st]; ok {
		vpVerify(q == p && s.owned[p] == st, "a partition uses a store from before its assignment")
	}
	s.owned[p], s.seen[st] = st, p
	n := 0
	for _, o := range s.a.stores {
		if o.tp.Partition == p && o.revoked == 0 {
			n++
		}
	}
	vpVerify(n == 1, "a partition has several stores")
}

// 2 partitions, every history of 3 (thorough 4) out of: assign, revoke, prepare, forget, an event, an interjection, in every order which Kafka and the
// balancer can produce, each at once or after the previous one has settled; up to 1 scheduling delay
//
//vp:harness prop=C20 delays=1 timeout=100s thorough:timeout=700s horizon=60s sched
func vpH_C20_histories() {
	if vpThorough() {
		vpStoreHistory(4)
	} else {
		vpStoreHistory(3)
	}
}

// the same for every history of 5 (thorough 6), without scheduling delays
//
//vp:harness prop=C20 timeout=100s thorough:timeout=700s horizon=60s sched
func vpH_C20_long() {
	if vpThorough() {
		vpStoreHistory(6)
	} else {
		vpStoreHistory(5)
	}
}

func vpStoreHistory(n int) {
	a := vpNewApp(2)
	a.cfg.EosConfig = vpEos(1, 1, 1, 2)
	s := &vpStores{a: a, owned: map[int32]*vpAppStore{}, seen: map[*vpAppStore]int32{}}
	a.ecHook = s.use
	a.start()
	sc := a.es.consumer
	g := a.w.group()
	const (
		none = iota
		prepared
		assigned
	)
	st := map[int32]int{}
	revokes := map[int32]int{}
	for i := 0; i < n; i++ {
		p := int32(0)
		if i > 0 {
			p = int32(vpChoose(2))
		}
		switch st[p] {
		case none:
			if vpChoose(2) == 0 {
				g.assign("t", p)
				st[p] = assigned
			} else {
				sc.PrepareTopicPartition(ntp(p, "t"))
				st[p] = prepared
			}
		case prepared:
			if vpChoose(2) == 0 {
				g.assign("t", p)
				st[p] = assigned
			} else {
				sc.ForgetPreparedTopicPartition(ntp(p, "t"))
				s.owned[p] = nil
				st[p] = none
				revokes[p]++
			}
		case assigned:
			switch vpChoose(3) {
			case 0:
				g.revoke("t", p)
				s.owned[p] = nil
				st[p] = none
				revokes[p]++
			case 1:
				a.add(p).kind = 0
			case 2:
				go a.es.Interject(p, a.interjector)
			}
		}
		if vpChoose(2) == 1 {
			vpQuiesce(100 * time.Millisecond)
		}
		s.count(st, revokes)
	}
	vpQuiesce(time.Second)
	s.count(st, revokes)
	for p := int32(0); p < 2; p++ {
		if st[p] == assigned {
			for _, ev := range a.evs {
				vpVerify(ev.p != p || ev.ended == 1, "an event of an assigned partition is not processed")
			}
		}
	}
	vpReach("settled")
}

// count checks the stores there are
func (s *vpStores) count(st map[int32]int, revokes map[int32]int) {
	for p := int32(0); p < 2; p++ {
		live, revoked := 0, 0
		for _, o := range s.a.stores {
			vpVerify(o.tp.Topic == vpStateTopic && (o.tp.Partition == 0 || o.tp.Partition == 1), "a store is created for another partition or topic")
			if o.tp.Partition != p {
				continue
			}
			vpVerify(o.revoked <= 1, "a store is told twice that it is revoked")
			revoked += o.revoked
			if o.revoked == 0 {
				live++
			}
		}
		want := 0
		if st[p] != 0 {
			want = 1
		}
		vpVerify(live == want, "a partition does not have exactly one store while it is assigned")
		vpVerify(revoked == revokes[p], "a store is not told that its partition is revoked")
	}
}

// 2 partitions assigned and revoked together or in any order, prepared before or not, with their stores restored from 0..2 records: the stores are
// apart from each other and a new one is used after every assignment
//
//vp:harness prop=C20 horizon=60s sched
func vpH_C20_together() {
	a := vpNewApp(2)
	a.cfg.EosConfig = vpEos(1, 1, 1, 2)
	s := &vpStores{a: a, owned: map[int32]*vpAppStore{}, seen: map[*vpAppStore]int32{}}
	a.ecHook = s.use
	a.start()
	sc := a.es.consumer
	revokes := map[int32]int{}
	for round := 0; round < 2; round++ {
		if vpChoose(2) == 1 {
			sc.PrepareTopicPartition(ntp(1, "t"))
		}
		if vpChoose(2) == 1 {
			vpQuiesce(100 * time.Millisecond)
		}
		order := [][]int32{{0, 1}, {1, 0}}[vpChoose(2)]
		a.w.group().assign("t", order...)
		a.add(0).kind = 0
		a.add(1).kind = 0
		vpQuiesce(100 * time.Millisecond)
		s.count(map[int32]int{0: 2, 1: 2}, revokes)
		vpVerify(s.owned[0] != s.owned[1], "two partitions share a store")
		if vpChoose(2) == 1 {
			a.w.group().revoke("t", order...)
		} else {
			a.w.group().revoke("t", order[0])
			a.w.group().revoke("t", order[1])
		}
		s.owned[0], s.owned[1] = nil, nil
		revokes[0]++
		revokes[1]++
		s.count(map[int32]int{}, revokes)
	}
	vpReach("twice")
}

// a partition is prepared by the balancer while Kafka assigns it, at the same time, with an event which uses its store: there is one
// store; up to 1 (thorough 3) scheduling delays
//
//vp:harness prop=C20 delays=1 thorough:delays=3 timeout=100s thorough:timeout=300s horizon=60s sched
func vpH_C20_race() {
	a := vpNewApp(1)
	a.cfg.EosConfig = vpEos(1, 1, 1, 2)
	s := &vpStores{a: a, owned: map[int32]*vpAppStore{}, seen: map[*vpAppStore]int32{}}
	a.ecHook = s.use
	a.start()
	sc := a.es.consumer
	vpQuiesce(100 * time.Millisecond)
	done := vpDone(func() { sc.PrepareTopicPartition(ntp(0, "t")) })
	a.w.group().assign("t", 0)
	a.add(0).kind = 0
	vpQuiesce(time.Second)
	vpVerify(vpClosed(done), "preparing a partition blocks")
	s.count(map[int32]int{0: 2}, map[int32]int{})
	vpVerify(len(a.stores) == 1, "a partition gets two stores")
	vpVerify(a.evs[0].ended == 1, "an event of an assigned partition is not processed")
	a.w.group().revoke("t", 0)
	s.owned[0] = nil
	vpQuiesce(time.Second)
	s.count(map[int32]int{}, map[int32]int{0: 1})
	vpReach("revoked")
}

// an event which uses the store forwards later, or at once, when its partition is revoked, at any of several moments: the store is told after the last use; up to 1 (thorough 2) scheduling delays
//
//vp:harness prop=C20 delays=1 thorough:delays=2 timeout=100s thorough:timeout=300s horizon=60s sched
func vpH_C20_flight() {
	a := vpNewApp(1)
	a.cfg.EosConfig = vpEos(1, 1, 1, 2)
	s := &vpStores{a: a, owned: map[int32]*vpAppStore{}, seen: map[*vpAppStore]int32{}}
	a.ecHook = s.use
	a.start(0)
	vpQuiesce(time.Second)
	a.add(0).kind = 3 * vpChoose(2)
	a.add(0).kind = 3
	if m := vpChoose(3); m > 0 {
		vpQuiesce([]time.Duration{0, time.Millisecond, 7 * time.Millisecond}[m])
	}
	st := a.stores[0]
	st.over = func() {
		for _, ev := range a.evs {
			vpVerify(ev.started == ev.ended, "a store is revoked while an event which uses it is in flight")
		}
	}
	a.w.group().revoke("t", 0)
	vpVerify(st.revoked == 1, "a store is not told that its partition is revoked")
	vpQuiesce(time.Second)
	vpVerify(len(a.stores) == 1 && st.revoked == 1, "a store is told twice that it is revoked")
	vpReach("revoked")
}
