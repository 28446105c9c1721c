package sak

type vpListModel struct {
	l    *List[int]
	elts []*Element[int]
}

func vpCheckList(m *vpListModel, what string) {
	vpVerify(m.l.Len() == len(m.elts), what+": Len is wrong")
	i := 0
	for e := m.l.Front(); e != nil; e = e.Next() {
		vpVerify(i < len(m.elts), what+": forward traversal is too long")
		vpVerify(m.elts[i] == e, what+": forward traversal differs")
		i++
	}
	vpVerify(i == len(m.elts), what+": forward traversal is too short")
	for e := m.l.Back(); e != nil; e = e.Prev() {
		i--
		vpVerify(i >= 0, what+": backward traversal is too long")
		vpVerify(m.elts[i] == e, what+": backward traversal differs")
	}
	vpVerify(i == 0, what+": backward traversal is too short")
}

func (m *vpListModel) index(e *Element[int]) int {
	for i, x := range m.elts {
		if x == e {
			return i
		}
	}
	return -1
}

func (m *vpListModel) insertAt(i int, e *Element[int], v int) {
	vpVerify(e != nil && e.Value == v, "an insertion returns the wrong element")
	m.elts = append(m.elts[:i:i], append([]*Element[int]{e}, m.elts[i:]...)...)
}

func (m *vpListModel) removeAt(i int) { m.elts = append(m.elts[:i:i], m.elts[i+1:]...) }

// two lists of 0..3 and 0..2 elements plus a removed one; 2 (thorough 3) operations on either list with any of the elements
//vp:harness prop=C28 timeout=150s
func vpH_C28_ops() {
	vals := 0
	val := func() int { vals++; return vals }
	a := &vpListModel{l: NewList[int]()}
	b := &vpListModel{l: new(List[int])} // lazily initialised
	var all []*Element[int]
	na, nb := vpChoose(4), vpChoose(3)
	for i := 0; i < na; i++ {
		v := val()
		e := a.l.PushBack(v)
		a.insertAt(i, e, v)
		all = append(all, e)
	}
	for i := 0; i < nb; i++ {
		v := val()
		e := b.l.PushFront(v)
		b.insertAt(0, e, v)
		all = append(all, e)
	}
	v := val()
	gone := a.l.PushFront(v)
	a.l.Remove(gone)
	all = append(all, gone)
	vpCheckList(a, "list a at first")
	vpCheckList(b, "list b at first")
	n := 2
	if vpThorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		m, o := a, b
		if i == 0 || vpChoose(2) == 0 { // the first operation is on a: the lists differ only in size
		} else {
			m, o = b, a
		}
		op := vpChoose(11)
		var e, mark *Element[int]
		if op >= 2 && op <= 8 {
			e = all[vpChoose(len(all))]
		}
		if op == 7 || op == 8 {
			mark = all[vpChoose(len(all))]
		}
		v := val()
		ei := m.index(e)
		switch op {
		case 0:
			x := m.l.PushFront(v)
			m.insertAt(0, x, v)
			all = append(all, x)
		case 1:
			x := m.l.PushBack(v)
			m.insertAt(len(m.elts), x, v)
			all = append(all, x)
		case 2, 3:
			var x *Element[int]
			at := ei
			if op == 2 {
				x = m.l.InsertBefore(v, e)
			} else {
				x = m.l.InsertAfter(v, e)
				at++
			}
			if ei < 0 {
				vpVerify(x == nil, "inserting at a foreign mark returns an element")
			} else {
				m.insertAt(at, x, v)
				all = append(all, x)
			}
		case 4:
			want := e.Value
			vpVerify(m.l.Remove(e) == want, "Remove returns another value")
			if ei >= 0 {
				m.removeAt(ei)
				vpVerify(e.Next() == nil && e.Prev() == nil, "a removed element has neighbours")
			}
		case 5, 6:
			if op == 5 {
				m.l.MoveToFront(e)
			} else {
				m.l.MoveToBack(e)
			}
			if ei >= 0 {
				m.removeAt(ei)
				at := 0
				if op == 6 {
					at = len(m.elts)
				}
				m.insertAt(at, e, e.Value)
			}
		case 7, 8:
			if op == 7 {
				m.l.MoveBefore(e, mark)
			} else {
				m.l.MoveAfter(e, mark)
			}
			if ei >= 0 && m.index(mark) >= 0 && e != mark {
				m.removeAt(ei)
				at := m.index(mark)
				if op == 8 {
					at++
				}
				m.insertAt(at, e, e.Value)
			}
		case 9, 10:
			src := o
			if vpChoose(2) == 0 {
				src = m
			}
			var vs []int
			for _, x := range src.elts {
				vs = append(vs, x.Value)
			}
			if op == 9 {
				m.l.PushBackList(src.l)
				for x := m.l.Front(); x != nil; x = x.Next() {
					if m.index(x) < 0 && len(vs) > 0 && x.Value == vs[0] {
						m.elts = append(m.elts, x)
						all = append(all, x)
						vs = vs[1:]
					}
				}
			} else {
				m.l.PushFrontList(src.l)
				at := 0
				for x := m.l.Front(); x != nil && len(vs) > 0; x = x.Next() {
					vpVerify(x.Value == vs[0], "PushFrontList copies in the wrong order")
					m.insertAt(at, x, vs[0])
					all = append(all, x)
					at++
					vs = vs[1:]
				}
			}
			vpVerify(len(vs) == 0, "a pushed list is incomplete")
		}
		vpCheckList(m, "changed list")
		vpCheckList(o, "other list")
	}
	m := a
	m.l.Init()
	m.elts = nil
	vpCheckList(m, "initialised list")
	vpReach("sequence")
}
