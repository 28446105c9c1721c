package sak

import (
	"context"
	"time"
)

type vpNode struct {
	rs     RunStatus
	parent int // index of the context ancestor, -1 none
	cancel int // index of the node whose cancel function it carries
	halted bool
	vals   map[int]int
}

type vpKeyT int

func vpAnc(ns []*vpNode, i, a int) bool {
	for ; i >= 0; i = ns[i].parent {
		if i == a {
			return true
		}
	}
	return false
}

func vpHaltModel(ns []*vpNode, i int) {
	c := ns[i].cancel
	for j := range ns {
		if vpAnc(ns, j, c) {
			ns[j].halted = true
		}
	}
}

func vpCheckNodes(ns []*vpNode) {
	for i, n := range ns {
		vpVerify(n.rs.Running() == !n.halted, "Running is wrong")
		vpVerify((n.rs.Err() != nil) == n.halted, "Err is wrong")
		done := false
		select {
		case <-n.rs.Done():
			done = true
		default:
		}
		vpVerify(done == n.halted, "the done channel is wrong")
		for k := 0; k < 2; k++ {
			want := -1
			for j := i; j >= 0 && want < 0; j = ns[j].parent {
				if v, ok := ns[j].vals[k]; ok {
					want = v
				}
			}
			got, ok := n.rs.Ctx().Value(vpKeyT(k)).(int)
			if !ok {
				got = -1
			}
			vpVerify(got == want, "an attached value is wrong")
		}
	}
}

// WithValue keeps the run status: halting either halts both. Model: it shares its origin's cancel function.
func vpGrow(ns []*vpNode, v int) []*vpNode {
	p := vpChoose(len(ns))
	if vpChoose(2) == 0 {
		return append(ns, &vpNode{rs: ns[p].rs.Fork(), parent: p, cancel: len(ns), halted: ns[p].halted, vals: map[int]int{}})
	}
	k := vpChoose(2)
	return append(ns, &vpNode{rs: ns[p].rs.WithValue(vpKeyT(k), v), parent: p, cancel: ns[p].cancel, halted: ns[p].halted, vals: map[int]int{k: v}})
}

// trees grown by 3 (thorough 4) forks or attached values, with halts in between and twice
//vp:harness prop=C30 timeout=120s thorough:timeout=400s
func vpH_C30_tree() {
	var ns []*vpNode
	if vpChoose(2) == 0 {
		ns = append(ns, &vpNode{rs: NewRunStatus(nil), parent: -1, vals: map[int]int{}})
	} else {
		ns = append(ns, &vpNode{rs: NewRunStatus(context.WithValue(context.Background(), vpKeyT(0), 77)), parent: -1, vals: map[int]int{0: 77}})
	}
	n := 3
	if vpThorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		ns = vpGrow(ns, i)
		vpCheckNodes(ns)
		if h := vpChoose(len(ns) + 1); h < len(ns) {
			ns[h].rs.Halt()
			vpHaltModel(ns, h)
			if vpChoose(2) == 0 {
				ns[h].rs.Halt()
			}
			vpCheckNodes(ns)
		}
	}
	vpReach("tree")
}

// two goroutines halt arbitrary nodes of root-child-grandchild and sibling while a third waits for one of them; 2 (thorough 3) scheduling delays
//vp:harness prop=C30 delays=2 thorough:delays=3 timeout=120s sched
func vpH_C30_conc() {
	root := NewRunStatus(context.Background())
	child := root.Fork()
	ns := []*vpNode{{rs: root, parent: -1, cancel: 0, vals: map[int]int{}}, {rs: child, parent: 0, cancel: 1, vals: map[int]int{}},
		{rs: child.Fork(), parent: 1, cancel: 2, vals: map[int]int{}}, {rs: root.Fork(), parent: 0, cancel: 3, vals: map[int]int{}}}
	x, y := vpChoose(4), vpChoose(4)
	w := 0
	if vpChoose(2) == 0 {
		w = x
	} else {
		w = y
	}
	done := make(chan int, 3)
	go func() { ns[x].rs.Halt(); vpVerify(!ns[x].rs.Running(), "running after Halt"); done <- 1 }()
	go func() { ns[y].rs.Halt(); done <- 1 }()
	go func() {
		<-ns[w].rs.Done()
		vpVerify(ns[w].rs.Err() != nil, "done without an error")
		done <- 1
	}()
	for i := 0; i < 3; i++ {
		<-done
	}
	vpHaltModel(ns, x)
	vpHaltModel(ns, y)
	vpCheckNodes(ns)
	vpReach("halted concurrently")
}

// a parent which times out, is canceled or neither, at any moment before or after a halt: a run status ends with its parent, for either reason
//
//vp:harness prop=C30 timeout=120s horizon=10s sched
func vpH_C30_parent() {
	ctx, cancel := context.WithTimeout(context.Background(), []time.Duration{0, time.Millisecond, 3 * time.Millisecond}[vpChoose(3)])
	defer cancel()
	root := NewRunStatus(ctx)
	rs := root
	switch vpChoose(3) {
	case 1:
		rs = root.Fork()
	case 2:
		rs = root.WithValue(vpKeyT(0), 1)
	}
	if vpChoose(2) == 1 {
		rs = rs.Fork()
	}
	ended := false
	go func() {
		<-rs.Done()
		ended = true
	}()
	for i := 0; i < 3; i++ {
		over := ctx.Err() != nil
		vpVerify(!over || !rs.Running() && !root.Running(), "running although its parent has ended")
		vpVerify(!over || rs.Err() != nil, "no error although its parent has ended")
		vpVerify(over || rs.Running() && rs.Err() == nil, "not running although its parent is")
		switch vpChoose(3) {
		case 0:
			time.Sleep(2 * time.Millisecond)
		case 1:
			cancel()
		}
	}
	rs.Halt()
	vpVerify(!rs.Running() && rs.Err() != nil, "running after Halt")
	vpQuiesce(time.Millisecond)
	vpVerify(ended, "Done is not closed")
	vpReach("parent")
}
