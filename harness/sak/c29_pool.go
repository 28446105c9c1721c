package sak

type vpObj struct {
	id    int
	dirty bool
	held  int
	inuse bool
}

type vpPoolEnv struct {
	p     *Pool[*vpObj]
	made  int
	reset int
	size  int
}

func vpNewPool(size int) *vpPoolEnv {
	e := &vpPoolEnv{size: size}
	e.p = NewPool(size, func() *vpObj { e.made++; return &vpObj{id: e.made} }, func(o *vpObj) *vpObj {
		vpVerify(!o.inuse, "an object is reset while borrowed")
		o.dirty = false
		e.reset++
		return o
	})
	return e
}

func (e *vpPoolEnv) borrow() *vpObj {
	o := e.p.Borrow()
	vpVerify(o != nil, "Borrow returns nothing")
	vpVerify(!o.inuse, "an object is held by two borrowers")
	vpVerify(!o.dirty, "an object is handed out without having been reset")
	o.inuse, o.dirty = true, true
	return o
}

func (e *vpPoolEnv) release(o *vpObj) bool {
	o.inuse = false
	return e.p.Release(o)
}

// every sequence of 5 (thorough 7) borrows and releases, pool size 0..2
//vp:harness prop=C29 timeout=60s
func vpH_C29_seq() {
	e := vpNewPool(vpChoose(3))
	var held []*vpObj
	kept := 0
	n := 5
	if vpThorough() {
		n = 7
	}
	for i := 0; i < n; i++ {
		if len(held) == 0 || vpChoose(2) == 0 {
			made := e.made
			held = append(held, e.borrow())
			if e.made == made {
				kept--
				vpVerify(kept >= 0, "an object appears from nowhere")
			}
		} else {
			j := vpChoose(len(held))
			o := held[j]
			held = append(held[:j:j], held[j+1:]...)
			if e.release(o) {
				kept++
			}
			vpVerify(kept <= e.size, "the pool retains more than its size")
		}
	}
	// what was kept comes out again, each object once
	made := e.made
	for i := 0; i < kept; i++ {
		e.borrow()
	}
	vpVerify(e.made == made, "the pool lost an object")
	vpReach("sequence")
}

// 3 goroutines, each borrowing and releasing twice, pool size 0..2, up to 2 (thorough 4) scheduling delays
//vp:harness prop=C29 delays=2 thorough:delays=4 timeout=120s sched
func vpH_C29_conc() {
	e := vpNewPool(vpChoose(3))
	done := make(chan bool, 3)
	for i := 0; i < 3; i++ {
		go func() {
			for k := 0; k < 2; k++ {
				o := e.borrow()
				vpYield()
				vpVerify(o.inuse, "somebody else released a borrowed object")
				e.release(o)
			}
			done <- true
		}()
	}
	for i := 0; i < 3; i++ {
		<-done
	}
	// nothing held now: at most size objects come out before a new one is made
	made := e.made
	n := 0
	for i := 0; i < e.size+1; i++ {
		e.borrow()
		if e.made == made {
			n++
		}
	}
	vpVerify(n <= e.size, "the pool retains more than its size")
	vpReach("concurrent")
}
