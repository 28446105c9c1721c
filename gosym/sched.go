package main

import (
	"fmt"
	"sort"
	"strings"
)

type thread struct {
	p      *path
	id     int
	name   string
	wake   chan struct{}
	done   bool
	ready  func() bool // nil: runnable
	desc   string
	top    *frame
	depth  int
	consec int
	selRun int
	// quiescence waiters
	low      bool
	lowUntil int64
	noYield  int
	daemon   bool
}

type chanv struct {
	id     int
	buf    []value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

// waiter is a blocked channel operation; several waiters of one select share sel.
type waiter struct {
	sel *selState
	idx int
	val value // send value
}
type selState struct {
	th          *thread
	fired       bool
	idx         int
	val         value
	ok          bool
	panicClosed bool
}

type selCase struct {
	ch   *chanv
	recv bool
	val  value
}

type timerT struct {
	when   int64
	seq    int
	active bool
	ch     *chanv
	fn     func(p *path) // runs as environment step
	period int64
}

func (p *path) newChan(n int) *chanv {
	p.nchan++
	return &chanv{id: p.nchan, cap: n}
}

// ---- switching ----

func (p *path) spawn(name string, f func(th *thread)) *thread {
	p.nthread++
	th := &thread{p: p, id: p.nthread, name: name, wake: make(chan struct{}, 1)}
	p.threads = append(p.threads, th)
	if len(p.threads) > 400 {
		panic(engineError{"too many threads"})
	}
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		if !th.park() {
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					p.threadPanic(th, r)
				}
			}()
			f(th)
		}()
		th.done = true
		if p.isAborting() {
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					p.threadPanic(th, r)
				}
			}()
			if th.id == 1 {
				p.finish(outcome{kind: outOK})
				return
			}
			p.resched(th, true, nil)
		}()
	}()
	return th
}

// park waits for the baton; false means the path is being torn down.
func (th *thread) park() bool {
	select {
	case <-th.wake:
		return !th.p.isAborting()
	case <-th.p.abortCh:
		return false
	}
}

func (p *path) isAborting() bool {
	select {
	case <-p.abortCh:
		return true
	default:
		return false
	}
}

func (p *path) threadPanic(th *thread, r any) {
	switch r := r.(type) {
	case *pathAbort:
		return
	case targetPanic:
		p.finish(outcome{kind: outPanic, msg: fmt.Sprintf("panic in %s: %s [%s]", th.name, p.show(r.v, 0), r.pos)})
	case engineError:
		p.finish(outcome{kind: outUnsupported, msg: r.msg + " at " + th.whereTop()})
	default:
		if p.w.ex.debug {
			panic(r)
		}
		p.finish(outcome{kind: outUnsupported, msg: fmt.Sprintf("engine: %v at %s", r, th.whereTop())})
	}
}

func (th *thread) whereTop() string {
	if th.top == nil {
		return "?"
	}
	return th.top.where()
}

func (p *path) enabled(th *thread) bool {
	if th.done || th.low {
		return false
	}
	return th.ready == nil || th.ready()
}

// resched picks the next thread. cur is the thread giving up control (blocked) or
// reaching a visible operation (not blocked).
func (p *path) resched(cur *thread, blocked bool, fr *frame) {
	if p.isAborting() {
		panic(abortSentinel)
	}
	for {
		var cands []*thread
		n := len(p.threads)
		start := 0
		for i, t := range p.threads {
			if t == cur {
				start = i
				break
			}
		}
		if !blocked {
			cands = append(cands, cur)
		}
		for k := 1; k <= n; k++ {
			t := p.threads[(start+k)%n]
			if t == cur && !blocked {
				continue
			}
			if p.enabled(t) {
				cands = append(cands, t)
			}
		}
		if len(cands) == 0 {
			if p.advance() {
				continue
			}
			p.deadlock()
			panic(abortSentinel)
		}
		if !blocked && len(cands) > 1 {
			cur.consec++
			if cur.consec > p.h.opt.spin {
				// fairness: a spinning thread yields
				cur.consec = 0
				cands = append(cands[1:], cands[0])
			}
		}
		idx := 0
		nc := len(cands)
		early := p.h.opt.earlyTimers && p.delays > 0 && p.pendingTimer() != nil
		if early {
			nc++
		}
		if nc > 1 && p.delays > 0 {
			k := nc
			if k > p.delays+1 {
				k = p.delays + 1
				if early {
					k = p.delays + 1
				}
			}
			idx = p.choose(k, "sched")
			p.delays -= idx
		}
		if idx >= len(cands) {
			p.fireNext()
			continue
		}
		next := cands[idx]
		if next == cur {
			return
		}
		if cur != nil {
			cur.consec = 0
		}
		p.switches++
		p.cur = next
		if p.w.ex.trace {
			p.tracef("switch -> T%d %s", next.id, next.name)
		}
		next.wake <- struct{}{}
		if cur == nil || cur.done {
			return
		}
		if !cur.park() {
			panic(abortSentinel)
		}
		return
	}
}

func (p *path) removeDone() {
	live := p.threads[:0:0]
	for _, t := range p.threads {
		if !t.done {
			live = append(live, t)
		}
	}
	p.threads = live
}

// point is a scheduling point before a visible operation.
func (th *thread) point(fr *frame) {
	p := th.p
	if th.noYield > 0 || (fr != nil && fr.fi.noYield) {
		return
	}
	p.visible++
	if len(p.threads) == 1 && p.pendingTimer() == nil {
		return
	}
	if p.visible > p.h.opt.maxVisible {
		p.stepLimit(fr)
	}
	p.resched(th, false, fr)
}

// block waits until ready holds.
func (th *thread) block(fr *frame, desc string, ready func() bool) {
	for !ready() {
		th.ready = ready
		th.desc = desc
		th.p.resched(th, true, fr)
		th.ready = nil
		th.desc = ""
	}
}

func (p *path) deadlock() {
	var sb strings.Builder
	for _, t := range p.threads {
		if t.done {
			continue
		}
		fmt.Fprintf(&sb, "; T%d(%s) %s at %s", t.id, t.name, t.desc, t.whereTop())
	}
	p.finish(outcome{kind: outDeadlock, msg: "deadlock: every goroutine is blocked" + sb.String()})
}

// ---- time ----

func (p *path) addTimer(d int64, period int64) *timerT {
	if d < 0 {
		d = 0
	}
	p.timerSeq++
	t := &timerT{when: p.now + d, seq: p.timerSeq, active: true, period: period}
	p.timers = append(p.timers, t)
	return t
}

func (p *path) pendingTimer() *timerT {
	var best *timerT
	for _, t := range p.timers {
		if t.active && (best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq)) {
			best = t
		}
	}
	return best
}

func (p *path) fireNext() bool {
	t := p.pendingTimer()
	if t == nil {
		return false
	}
	if t.when > p.now {
		p.now = t.when
	}
	if t.period == 0 || t.ch == nil || t.ch.canSend() {
		p.fires++ // a tick nobody has room for changes nothing
	}
	if t.period > 0 {
		t.when += t.period
		p.timerSeq++
		t.seq = p.timerSeq
	} else {
		t.active = false
		live := p.timers[:0]
		for _, x := range p.timers {
			if x.active {
				live = append(live, x)
			}
		}
		p.timers = live
	}
	if p.w.ex.trace {
		p.tracef("timer fires at %d", p.now)
	}
	t.fn(p)
	return true
}

// advance is called when no thread can run: release a quiescence waiter or advance the clock.
func (p *path) advance() bool {
	t := p.pendingTimer()
	var low *thread
	for _, th := range p.threads {
		if !th.done && th.low && (low == nil || th.lowUntil < low.lowUntil) {
			low = th
		}
	}
	if low != nil && (t == nil || t.when > low.lowUntil) {
		low.low = false
		if low.lowUntil > p.now {
			p.now = low.lowUntil
		}
		return true
	}
	if t == nil || t.when > p.horizon || p.fires > p.h.opt.maxFires {
		return false
	}
	return p.fireNext()
}

// quiesce blocks until nothing else can run, letting d nanoseconds of virtual time pass.
func (th *thread) quiesce(fr *frame, d int64) {
	p := th.p
	th.low = true
	th.lowUntil = p.now + d
	th.desc = "quiesce"
	if p.horizon < th.lowUntil+int64(60e9) {
		p.horizon = th.lowUntil + int64(60e9)
	}
	p.resched(th, true, fr)
	th.low = false
	th.desc = ""
}

// ---- channels ----

func (ch *chanv) popRecv() *waiter {
	for len(ch.recvq) > 0 {
		w := ch.recvq[0]
		ch.recvq = ch.recvq[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}
func (ch *chanv) popSend() *waiter {
	for len(ch.sendq) > 0 {
		w := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}
func (ch *chanv) hasRecv() bool {
	for _, w := range ch.recvq {
		if !w.sel.fired {
			return true
		}
	}
	return false
}
func (ch *chanv) hasSend() bool {
	for _, w := range ch.sendq {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (ch *chanv) canSend() bool {
	return ch.closed || len(ch.buf) < ch.cap || ch.hasRecv()
}
func (ch *chanv) canRecv() bool {
	return len(ch.buf) > 0 || ch.closed || ch.hasSend()
}

func (w *waiter) fire(v value, ok bool) {
	w.sel.fired = true
	w.sel.idx = w.idx
	w.sel.val = v
	w.sel.ok = ok
}

func (ch *chanv) doSend(fr *frame, v value) {
	if ch.closed {
		panic(targetPanic{iface{fr.w.pr.runtimeErr, "send on closed channel"}, fr.where()})
	}
	if w := ch.popRecv(); w != nil {
		w.fire(v, true)
		return
	}
	ch.buf = append(ch.buf, v)
}

func (ch *chanv) doRecv() (value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]value(nil), ch.buf[1:]...)
		if w := ch.popSend(); w != nil {
			ch.buf = append(ch.buf, w.val)
			w.fire(nil, true)
		}
		return v, true
	}
	if w := ch.popSend(); w != nil {
		w.fire(nil, true)
		return w.val, true
	}
	return nil, false
}

func (th *thread) send(fr *frame, ch *chanv, v value) {
	if ch != nil {
		th.point(fr)
		if ch.canSend() {
			ch.doSend(fr, v)
			return
		}
	}
	th.waitSel(fr, []selCase{{ch: ch, val: v}}, "chan send")
}

func (th *thread) recv(fr *frame, ch *chanv) (value, bool) {
	if ch != nil {
		th.point(fr)
		if ch.canRecv() {
			return ch.doRecv()
		}
	}
	_, v, ok := th.waitSel(fr, []selCase{{ch: ch, recv: true}}, "chan receive")
	return v, ok
}

func (th *thread) waitSel(fr *frame, cases []selCase, desc string) (int, value, bool) {
	s := &selState{th: th}
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		w := &waiter{sel: s, idx: i, val: c.val}
		if c.recv {
			c.ch.recvq = append(c.ch.recvq, w)
		} else {
			c.ch.sendq = append(c.ch.sendq, w)
		}
	}
	th.block(fr, desc, func() bool { return s.fired })
	for _, c := range cases {
		if c.ch == nil {
			continue
		}
		if c.recv {
			c.ch.recvq = dropSel(c.ch.recvq, s)
		} else {
			c.ch.sendq = dropSel(c.ch.sendq, s)
		}
	}
	if s.panicClosed {
		panic(targetPanic{iface{fr.w.pr.runtimeErr, "send on closed channel"}, fr.where()})
	}
	return s.idx, s.val, s.ok
}

func dropSel(q []*waiter, s *selState) []*waiter {
	r := q[:0]
	for _, w := range q {
		if w.sel != s {
			r = append(r, w)
		}
	}
	return r
}

func (th *thread) sel(fr *frame, cases []selCase, blocking bool) (int, value, bool) {
	th.point(fr)
	var rdy []int
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		if c.recv && c.ch.canRecv() || !c.recv && c.ch.canSend() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := 0
		if len(rdy) > 1 && th.p.selects > 0 && !fr.fi.noYield && th.noYield == 0 {
			k = th.p.choose(len(rdy), "select")
			if k > 0 {
				th.p.selects--
			}
		}
		if len(rdy) > 1 && k == 0 {
			// fairness: a case which stays ready is chosen in the end
			if th.selRun++; th.selRun > th.p.h.opt.spin {
				th.selRun, k = 0, len(rdy)-1
			}
		}
		i := rdy[k]
		if cases[i].recv {
			v, ok := cases[i].ch.doRecv()
			return i, v, ok
		}
		cases[i].ch.doSend(fr, cases[i].val)
		return i, nil, false
	}
	if !blocking {
		return -1, nil, false
	}
	return th.waitSel(fr, cases, "select")
}

func (th *thread) closeChan(fr *frame, ch *chanv) {
	if ch == nil {
		panic(targetPanic{iface{fr.w.pr.runtimeErr, "close of nil channel"}, fr.where()})
	}
	th.point(fr)
	if ch.closed {
		panic(targetPanic{iface{fr.w.pr.runtimeErr, "close of closed channel"}, fr.where()})
	}
	ch.closed = true
	for {
		w := ch.popRecv()
		if w == nil {
			break
		}
		w.fire(nil, false)
	}
	for {
		w := ch.popSend()
		if w == nil {
			break
		}
		w.fire(nil, false)
		w.sel.panicClosed = true
	}
}

// ---- locks ----

type muState struct {
	locked  bool
	readers int
	owner   int
	wwait   int
}

func (p *path) mutex(k any) *muState {
	m := p.mutexes[k]
	if m == nil {
		m = &muState{}
		p.mutexes[k] = m
	}
	return m
}

func (th *thread) lock(fr *frame, k any, desc string) {
	th.point(fr)
	m := th.p.mutex(k)
	m.wwait++
	th.block(fr, desc, func() bool { return !m.locked && m.readers == 0 })
	m.wwait--
	m.locked = true
	m.owner = th.id
}

func (th *thread) unlock(fr *frame, k any) {
	th.point(fr)
	m := th.p.mutex(k)
	if !m.locked {
		panic(targetPanic{iface{fr.w.pr.runtimeErr, "fatal error: sync: unlock of unlocked mutex"}, fr.where()})
	}
	m.locked = false
	if th.p.h.opt.post {
		th.point(fr)
	}
}

func (th *thread) rlock(fr *frame, k any) {
	th.point(fr)
	m := th.p.mutex(k)
	// a waiting writer blocks new readers
	th.block(fr, "RWMutex.RLock", func() bool { return !m.locked && m.wwait == 0 })
	m.readers++
}

func (th *thread) runlock(fr *frame, k any) {
	th.point(fr)
	m := th.p.mutex(k)
	if m.readers == 0 {
		panic(targetPanic{iface{fr.w.pr.runtimeErr, "fatal error: sync: RUnlock of unlocked RWMutex"}, fr.where()})
	}
	m.readers--
	if th.p.h.opt.post {
		th.point(fr)
	}
}

type wgState struct{ n int64 }

func (p *path) wgroup(k any) *wgState {
	m := p.wgroups[k]
	if m == nil {
		m = &wgState{}
		p.wgroups[k] = m
	}
	return m
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
