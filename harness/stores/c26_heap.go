package stores

type vpPrio struct {
	p  int8
	id int
}

func (a vpPrio) HasPriorityOver(b vpPrio) bool { return a.p < b.p }

type vpHeapModel struct {
	h    *MinMaxHeap[vpPrio]
	live []*PrioritizedItem[vpPrio]
	ids  []int // ids present, for items whose handle is unknown too
	vals map[int]int8
	next int
}

func (m *vpHeapModel) del(id int) {
	for i, x := range m.ids {
		if x == id {
			m.ids = append(m.ids[:i:i], m.ids[i+1:]...)
			break
		}
	}
	for i, x := range m.live {
		if x.Value.id == id {
			m.live = append(m.live[:i:i], m.live[i+1:]...)
			break
		}
	}
}

func (m *vpHeapModel) has(id int) bool {
	for _, x := range m.ids {
		if x == id {
			return true
		}
	}
	return false
}

func (m *vpHeapModel) checkExtreme(it *PrioritizedItem[vpPrio], max bool, what string) {
	if len(m.ids) == 0 {
		vpVerify(it == nil, what+" of an empty heap returns an item")
		return
	}
	vpVerify(it != nil, what+" of a non-empty heap returns nothing")
	vpVerify(m.has(it.Value.id), what+" returns an item that is not in the heap")
	ok := m.vals[it.Value.id] == it.Value.p
	for _, id := range m.ids {
		if max {
			ok = vpAnd(ok, m.vals[id] <= it.Value.p)
		} else {
			ok = vpAnd(ok, m.vals[id] >= it.Value.p)
		}
	}
	vpVerify(ok, what+" does not return an extreme item")
}

func (m *vpHeapModel) step(op int) {
	switch op {
	case 0:
		id := m.next
		m.next++
		p := vpInt8()
		it := &PrioritizedItem[vpPrio]{Value: vpPrio{p, id}}
		m.h.Push(it)
		m.live = append(m.live, it)
		m.ids = append(m.ids, id)
		m.vals[id] = p
	case 1:
		m.checkExtreme(m.h.Min(), false, "Min")
	case 2:
		m.checkExtreme(m.h.Max(), true, "Max")
	case 3:
		it := m.h.PopMin()
		m.checkExtreme(it, false, "PopMin")
		if it != nil {
			m.del(it.Value.id)
		}
	case 4:
		it := m.h.PopMax()
		m.checkExtreme(it, true, "PopMax")
		if it != nil {
			m.del(it.Value.id)
		}
	case 5:
		if len(m.live) == 0 {
			return
		}
		it := m.live[vpChoose(len(m.live))]
		m.h.Remove(it)
		m.del(it.Value.id)
	case 6:
		if len(m.live) == 0 {
			return
		}
		it := m.live[vpChoose(len(m.live))]
		it.Value.p = vpInt8()
		m.vals[it.Value.id] = it.Value.p
		m.h.Update(it)
	}
	vpVerify(m.h.Len() == len(m.ids), "Len is not the number of items")
}

func vpHeapSeq(maxInit, ops int) {
	n := vpChoose(maxInit + 1)
	m := &vpHeapModel{vals: map[int]int8{}}
	var init []vpPrio
	for i := 0; i < n; i++ {
		p := vpInt8()
		init = append(init, vpPrio{p, i})
		m.ids = append(m.ids, i)
		m.vals[i] = p
	}
	m.next = n
	m.h = NewMinMaxHeap(init...)
	for i := 0; i < ops; i++ {
		m.step(vpChoose(7))
	}
	drain := 3 + vpChoose(2)
	for len(m.ids) > 0 {
		m.step(drain)
	}
	vpVerify(m.h.PopMin() == nil && m.h.Min() == nil && m.h.Max() == nil && m.h.Len() == 0, "a drained heap is not empty")
	vpReach("drained")
}

// every sequence of 4 operations on a heap built from 0..1 items, priorities arbitrary, then drained from either end
//vp:harness prop=C26 timeout=100s
func vpH_C26_ops() { vpHeapSeq(1, 4) }

// a heap built from 2..5 arbitrary items, one operation, then drained from either end
//vp:harness prop=C26 timeout=100s
func vpH_C26_init() { vpHeapSeq(5, 1) }

func vpHeapInv(h *MinMaxHeap[vpPrio]) bool {
	n := len(h.items)
	ok := true
	for i := 0; i < n; i++ {
		lvl := 0
		for j := i; j > 0; j = (j - 1) / 2 {
			lvl++
		}
		for _, c := range []int{2*i + 1, 2*i + 2, 4*i + 3, 4*i + 4, 4*i + 5, 4*i + 6} {
			if c >= n {
				continue
			}
			if lvl%2 == 0 {
				ok = vpAnd(ok, h.items[i].Value.p <= h.items[c].Value.p)
			} else {
				ok = vpAnd(ok, h.items[i].Value.p >= h.items[c].Value.p)
			}
		}
	}
	return ok
}

// one operation on an arbitrary valid heap of 1..12 (thorough 20) items leaves a valid heap of exactly the right items
//vp:harness prop=C26 timeout=100s
func vpH_C26_step() {
	N := 12
	if vpThorough() {
		N = 20
	}
	n := 1 + vpChoose(N)
	h := &MinMaxHeap[vpPrio]{}
	m := &vpHeapModel{h: h, vals: map[int]int8{}, next: n}
	for i := 0; i < n; i++ {
		it := &PrioritizedItem[vpPrio]{index: i, Value: vpPrio{vpInt8(), i}}
		h.items = append(h.items, it)
		m.live = append(m.live, it)
		m.ids = append(m.ids, i)
		m.vals[i] = it.Value.p
	}
	vpAssume(vpHeapInv(h))
	m.step(vpChoose(7))
	vpVerify(vpHeapInv(h), "the heap order is broken after one operation")
	vpVerify(len(h.items) == len(m.ids), "wrong number of items")
	for i, it := range h.items {
		vpVerify(it.index == i, "an item does not know its position")
		vpVerify(m.has(it.Value.id), "the heap holds an item that was removed")
		vpVerify(m.vals[it.Value.id] == it.Value.p, "an item's priority changed")
		for _, o := range h.items[:i] {
			vpVerify(o != it, "an item occurs twice")
		}
	}
	vpReach("one operation")
}
