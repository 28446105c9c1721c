package streams

//vp:use c10_scheduler.go
//vp:use c07_revoke.go

import (
	"context"
	"time"
)

type vpItem struct {
	key, id, seq int
	extra        int
	group        *vpBatchGroup
	executed     int
}

type vpBatchGroup struct {
	b     *BatchItems[vpNoStore, int, *vpItem]
	ec    *EventContext[vpNoStore]
	key   int
	by    int
	seq   int
	items []*vpItem
	mixed bool // items of several keys
	calls int
}

type vpBatcher struct {
	ab        *AsyncBatcher[vpNoStore, int, *vpItem]
	max, conc int
	groups    []*vpBatchGroup
	items     []*vpItem
	executing int
	busy      map[int]bool
	slow      bool
	batches   int
}

func vpNewBatcher(max, conc int, delay time.Duration) *vpBatcher {
	b := &vpBatcher{max: max, conc: conc, busy: map[int]bool{}}
	b.ab = NewAsyncBatcher[vpNoStore, int, *vpItem](b.execute, max, conc, delay)
	return b
}

func (b *vpBatcher) execute(items []*BatchItem[int, *vpItem]) {
	b.batches++
	vpVerify(len(items) > 0, "an empty batch is executed")
	vpVerify(len(items) <= b.max, "a batch is larger than configured")
	b.executing++
	vpVerify(b.executing <= b.conc, "more batches are executed at the same time than configured")
	mine := map[int]bool{}
	for _, bi := range items {
		it := bi.Value
		vpVerify(bi.Key() == it.key, "an item gets another key")
		vpVerify(!b.busy[it.key], "a key is in two batches which are executed at the same time")
		mine[it.key] = true
		it.executed++
		vpVerify(it.executed == 1, "an item is executed twice")
		for _, o := range b.items {
			vpVerify(o.key != it.key || o.group.by != it.group.by || o.seq >= it.seq || o.executed == 1, "the items of a key are executed in another order")
		}
		bi.Err, bi.UserData = vpJobErr, it.extra
	}
	for k := range mine {
		b.busy[k] = true
	}
	if b.slow {
		time.Sleep(3 * time.Millisecond)
	} else {
		vpYield()
	}
	for k := range mine {
		b.busy[k] = false
	}
	b.executing--
}

func (b *vpBatcher) AsyncComplete(a AsyncJob[vpNoStore]) {
	n := 0
	for _, g := range b.groups {
		if g.ec == a.ctx {
			n = g.calls
			vpVerify(a.Finalize() == Complete, "the result of a callback is lost")
			vpVerify(g.calls == n+1 || g.b.callback == nil, "a callback is not run for its event")
			if g.b.callback == nil {
				g.calls++
			}
			vpVerify(g.calls == 1, "a group is completed twice")
			b.done(g)
			return
		}
	}
	vpVerify(false, "another event is completed")
}

func (b *vpBatcher) done(g *vpBatchGroup) {
	for _, it := range g.items {
		vpVerify(it.executed == 1, "a group is completed before all of its items have been executed")
	}
	for _, o := range b.groups {
		vpVerify(o.key != g.key || o.by != g.by || o.seq >= g.seq || o.mixed || g.mixed || o.calls == 1, "the groups of a key are completed in another order")
	}
	if len(g.items) > 0 {
		return
	}
	for _, o := range b.items {
		vpVerify(o.key != g.key || o.group.by != g.by || o.group.seq > g.seq || o.executed == 1, "a group without items is completed before earlier items of its key")
	}
}

func (b *vpBatcher) callback(ec *EventContext[vpNoStore], bs *BatchItems[vpNoStore, int, *vpItem]) ExecutionState {
	for _, g := range b.groups {
		if g.b == bs {
			vpVerify(ec == g.ec && bs.Key() == g.key, "a callback gets another event")
			vpVerify(len(bs.Items()) == len(g.items), "a callback gets other items")
			for i, bi := range bs.Items() {
				vpVerify(bi.Value == g.items[i] && bi.Err == vpJobErr && bi.UserData == any(g.items[i].extra), "a callback does not get the results of its items")
			}
			g.calls++
			return Complete
		}
	}
	vpVerify(false, "a callback gets another group")
	return Complete
}

// group makes up a group of n items, the last one of which may have another key
func (b *vpBatcher) group(by, key, n, last int) *vpBatchGroup {
	g := &vpBatchGroup{key: key, by: by, seq: len(b.groups), ec: MockEventContext[vpNoStore](context.Background(), nil, "", vpNoStore{}, b, nil)}
	cb := b.callback
	if g.seq == 3 {
		cb = nil
	}
	g.b = NewBatchItems[vpNoStore, int, *vpItem](g.ec, key, cb)
	for i := 0; i < n; i++ {
		it := &vpItem{key: key, id: len(b.items), extra: vpInt(), group: g, seq: len(b.items)}
		if i == n-1 {
			it.key = last
			g.mixed = key != last
		}
		b.items = append(b.items, it)
		g.items = append(g.items, it)
		if it.key == key {
			g.b.Add(it)
		} else {
			g.b.AddWithKey(it.key, it)
		}
	}
	b.groups = append(b.groups, g)
	return g
}

func (b *vpBatcher) add(by int) {
	for _, g := range b.groups {
		if g.by == by {
			vpVerify(b.ab.Add(g.b) == Incomplete, "a group which has not been executed is reported as complete")
			if b.slow && vpChoose(2) == 1 {
				time.Sleep(2 * time.Millisecond)
			}
		}
	}
}

func (b *vpBatcher) finished() {
	for _, it := range b.items {
		vpVerify(it.executed == 1, "an item is never executed")
	}
	for _, g := range b.groups {
		vpVerify(g.calls == 1, "a group is never completed")
	}
	vpReach("finished")
}

// one goroutine adds 3 (thorough 4) groups of 0..2 items and 2 keys, the last item of a group may have the other key; batches of 1..3 items, 1..2 at the
// same time; executions, delays between the groups and the flush delay of 1, 5 or 8 ms overlap in any way
//
//vp:harness prop=C12 delays=0 thorough:delays=1 timeout=100s thorough:timeout=700s sched
func vpH_C12_one() {
	b := vpNewBatcher(1+vpChoose(3), 1+vpChoose(2), []time.Duration{time.Millisecond, 0, 8 * time.Millisecond}[vpChoose(3)])
	b.slow = true
	n := 3
	if vpThorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		k := 0
		if i > 0 {
			k = vpChoose(2)
		}
		m := vpChoose(3)
		last := k
		if m == 2 {
			last = vpChoose(2)
		}
		b.group(0, k, m, last)
	}
	b.add(0)
	vpQuiesce(time.Second)
	b.finished()
}

// 4 groups of up to one item are added by one goroutine or two; up to 3 (thorough 4) scheduling delays
//
//vp:harness prop=C12 delays=3 thorough:delays=4 timeout=100s thorough:timeout=700s sched
func vpH_C12_two() {
	b := vpNewBatcher(1+vpChoose(2), 1+vpChoose(2), time.Millisecond)
	by := vpChoose(2)
	for i := 0; i < 4; i++ {
		k := 0
		if i == 2 {
			k = vpChoose(2)
		}
		m := 1
		if i > 1 {
			m = vpChoose(2)
		}
		b.group(by*(i%2), k, m, k)
	}
	if by > 0 {
		go b.add(1)
	}
	b.add(0)
	vpQuiesce(time.Second)
	b.finished()
}

// up to 4 (thorough 6) items of different keys are added at once or 3 ms apart, batches of 1..3, one at a time or two, which take no time: each item is executed
// within the delay of 5 ms (the default) or 8 ms, a full batch at once and one which is not full not before the delay
//
//vp:harness prop=C12 delays=1 thorough:delays=2 timeout=100s thorough:timeout=700s sched
func vpH_C12_prompt() {
	delay := []time.Duration{0, 8 * time.Millisecond}[vpChoose(2)]
	max, conc := 1+vpChoose(3), 1+vpChoose(2)
	n := 4
	if vpThorough() {
		n = 6
	}
	added := make([]time.Time, n)
	ran := make([]time.Time, n)
	full := 0 // items in full batches
	var b *vpBatcher
	b = &vpBatcher{max: max, conc: conc, busy: map[int]bool{}}
	limit := delay
	if limit == 0 {
		limit = 5 * time.Millisecond
	}
	b.ab = NewAsyncBatcher[vpNoStore, int, *vpItem](func(items []*BatchItem[int, *vpItem]) {
		first := time.Now()
		for _, bi := range items {
			i := bi.Value.id
			ran[i] = time.Now()
			if added[i].Before(first) {
				first = added[i]
			}
			vpVerify(time.Since(added[i]) <= limit, "an item is executed later than the configured delay")
		}
		if len(items) == max {
			full += max
		} else {
			vpVerify(time.Since(first) == limit, "a batch which is not full is executed before the configured delay")
		}
		b.execute(items)
	}, max, conc, delay)
	for i := 0; i < n; i++ {
		b.group(0, i, 1, i)
	}
	apart := vpChoose(2) == 1
	done := vpDone(func() {
		for i, g := range b.groups {
			added[i] = time.Now()
			b.ab.Add(g.b)
			if apart && vpChoose(2) == 1 {
				time.Sleep(3 * time.Millisecond)
			}
		}
	})
	if !apart && conc == 1 {
		vpQuiesce(time.Millisecond)
		vpVerify(full == n/max*max, "a full batch is not executed at once")
	}
	vpQuiesce(time.Second)
	vpVerify(vpClosed(done), "adding a group blocks")
	b.finished()
}
