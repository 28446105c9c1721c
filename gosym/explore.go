package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type decision struct {
	kind  uint8 // 0 branch, 1 concretise, 2 choose
	taken bool
	n     uint16 // alternatives which are possible; 1 when the solver has refuted the other side
	nv    uint32 // choose: the variable
	val   uint64
}
type dlist struct {
	prev *dlist
	d    decision
	n    int
}

func (l *dlist) slice() []decision {
	if l == nil {
		return nil
	}
	r := make([]decision, l.n)
	for ; l != nil; l = l.prev {
		r[l.n-1] = l.d
	}
	return r
}

type workItem struct {
	dl *dlist
	m  model
}

type outKind int

const (
	outOK outKind = iota
	outInfeasible
	outViolation
	outPanic
	outDeadlock
	outSteps
	outUnsupported
	outKnown
	outStopped
)

type outcome struct {
	kind outKind
	msg  string
}

type varInfo struct {
	name string
	w    uint8
	kind string // data, choose, sched, select, map
	lim  int
}

// hopts are the bounds of one harness.
type hopts struct {
	delays      int
	selects     int
	mapOrders   int
	earlyTimers bool
	post        bool // a scheduling point after unlocking, too: what follows may read unprotected data
	spin        int
	maxSteps    int64
	maxVisible  int
	maxFires    int
	horizon     int64
	timeout     time.Duration
	maxPaths    int64
	nonterm     bool // exceeding the step bound is a violation
	expectLock  bool
	noNative    bool // schedule dependent: no native replay
	slow        bool // native runs take too long to validate against
	solverMs    int
	preempt     string
}

type harness struct {
	fn   string // function name
	prop string
	opt  hopts
	doc  string
}

// path is one symbolic execution.
type path struct {
	jsons  []any
	w      *worker
	h      *harness
	prefix []decision
	di     int
	trail  *dlist
	m      model
	ep     uint32
	pc     []*Term
	sent   int
	pcSet  map[*Term]bool
	pcVars [][]*Term
	vars   map[string]*Term
	vinfo  []varInfo
	nvar   int

	threads  []*thread
	cur      *thread
	nthread  int
	nchan    int
	wg       sync.WaitGroup
	abortCh  chan struct{}
	finished bool
	out      outcome
	outModel model
	outVars  []varInfo

	steps    int64
	maxSteps int64
	visible  int
	switches int
	delays   int
	selects  int
	mapOrd   int

	now      int64
	horizon  int64
	timers   []*timerT
	timerSeq int
	fires    int

	mutexes  map[any]*muState
	wgroups  map[any]*wgState
	onces    map[any]int
	pools    map[any][]value
	avals    map[any]value
	conds    map[any][]*selState
	misc     map[any]any
	uuid     int
	reached  map[string]bool
	reachSeq []string
	notes    []string
	verifies int64
	tr       []string
	replay   bool
}

type worker struct {
	id     int
	ex     *explorer
	pr     *program
	ts     *termStore
	sol    *solver
	ep     uint32
	globs  []*value
	pkgIn  map[*pkgInfo]bool
	frozen bool
	initTh *thread
	calls  int64
}

type violation struct {
	Harness string
	Msg     string
	Kind    string
	Vars    []varInfo
	Model   model
	Trace   []string
}

// validTrace is a completed single-threaded path kept for comparison with a native run.
type validTrace struct {
	Fn       string
	Values   model
	Order    []string
	Reach    []string
	Verifies int64
}

type explorer struct {
	pr      *program
	h       *harness
	cache   queryCache
	debug   bool
	trace   bool
	workers []*worker

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []workItem
	active  int
	stop    bool
	stopMsg string

	paths, okPaths, infeasible atomic.Int64
	verifies                   atomic.Int64
	discharged                 atomic.Int64
	concreteOK                 atomic.Int64
	steps, switches            atomic.Int64
	maxStepsSeen               atomic.Int64
	violations                 []violation
	known                      map[string]int
	incomplete                 map[string]int
	reached                    map[string]int
	samples                    []map[string]any
	valid                      []validTrace
	deadline                   time.Time
	start                      time.Time
	vc                         *vcTree
	verdict                    vcVerdict
}

func newExplorer(pr *program, h *harness, nworkers int) *explorer {
	ex := &explorer{pr: pr, h: h, known: map[string]int{}, incomplete: map[string]int{}, reached: map[string]int{}, vc: newVcTree()}
	ex.cond = sync.NewCond(&ex.mu)
	for i := 0; i < nworkers; i++ {
		ms := h.opt.solverMs
		if ms == 0 {
			ms = 20000
		}
		w := &worker{id: i, ex: ex, pr: pr, ts: newTermStore(), sol: newSolver(ms), pkgIn: map[*pkgInfo]bool{}}
		ex.workers = append(ex.workers, w)
	}
	return ex
}

func (ex *explorer) run() {
	ex.start = time.Now()
	ex.deadline = ex.start.Add(ex.h.opt.timeout)
	ex.queue = []workItem{{nil, model{}}}
	var wg sync.WaitGroup
	timer := time.AfterFunc(ex.h.opt.timeout, func() {
		ex.mu.Lock()
		if !ex.stop && (len(ex.queue) > 0 || ex.active > 0) {
			ex.stop = true
			ex.stopMsg = "time budget"
			ex.incomplete["time budget exhausted"]++
		}
		ex.cond.Broadcast()
		ex.mu.Unlock()
	})
	for _, w := range ex.workers {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			w.loop()
		}(w)
	}
	wg.Wait()
	timer.Stop()
}

func (ex *explorer) push(it workItem) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (w *worker) loop() {
	ex := w.ex
	defer w.sol.stop()
	npop := 0
	for {
		ex.mu.Lock()
		for len(ex.queue) == 0 && ex.active > 0 && !ex.stop {
			ex.cond.Wait()
		}
		if ex.stop || len(ex.queue) == 0 {
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		var it workItem
		npop++
		if w.id%4 == 3 && npop%2 == 0 {
			it = ex.queue[0]
			ex.queue = ex.queue[1:]
		} else {
			it = ex.queue[len(ex.queue)-1]
			ex.queue = ex.queue[:len(ex.queue)-1]
		}
		ex.active++
		ex.mu.Unlock()
		p := w.runPath(it, false)
		ex.mu.Lock()
		ex.active--
		ex.record(p)
		ex.mu.Unlock()
		ex.cond.Broadcast()
	}
}

func (ex *explorer) record(p *path) {
	ex.paths.Add(1)
	ex.steps.Add(p.steps)
	ex.switches.Add(int64(p.switches))
	ex.verifies.Add(p.verifies)
	switch p.out.kind {
	case outStopped:
	case outOK, outInfeasible, outKnown:
		ex.vc.add(p.trail.slice(), vcHolds)
	default:
		ex.vc.add(p.trail.slice(), vcOpen)
	}
	for k := range p.reached {
		ex.reached[k]++
	}
	if p.out.kind == outOK && p.nthread == 1 && !p.h.opt.slow && (len(ex.valid) < 4 || (len(ex.valid) < 12 && ex.paths.Load()%37 == 0)) {
		vt := validTrace{Fn: ex.h.fn, Values: p.fullModel(), Reach: p.reachSeq, Verifies: p.verifies}
		for _, x := range p.vinfo {
			vt.Order = append(vt.Order, x.name)
		}
		ex.valid = append(ex.valid, vt)
	}
	switch p.out.kind {
	case outOK:
		ex.okPaths.Add(1)
		if len(ex.samples) < 3 || (len(ex.samples) < 8 && ex.paths.Load()%101 == 0) {
			ex.samples = append(ex.samples, p.sample())
		}
	case outInfeasible:
		ex.infeasible.Add(1)
	case outKnown:
		ex.known[p.out.msg]++
	case outUnsupported:
		ex.incomplete[p.out.msg]++
	case outSteps:
		ex.incomplete["step bound: "+p.out.msg]++
	case outStopped:
	case outViolation, outPanic, outDeadlock:
		kind := map[outKind]string{outViolation: "assertion", outPanic: "panic", outDeadlock: "deadlock"}[p.out.kind]
		ex.violations = append(ex.violations, violation{Harness: ex.h.fn, Msg: p.out.msg, Kind: kind, Vars: p.vinfo, Model: p.fullModel(), Trace: p.tr})
		ex.stop = true
		ex.stopMsg = "violation"
	}
	if ex.h.opt.maxPaths > 0 && ex.paths.Load() >= ex.h.opt.maxPaths && !ex.stop {
		ex.stop = true
		ex.stopMsg = "path budget"
		if len(ex.queue) > 0 || ex.active > 0 {
			ex.incomplete["path budget exhausted"]++
		}
	}
}

func (p *path) fullModel() model {
	m := model{}
	src := p.m
	if p.outModel != nil {
		src = p.outModel
	}
	for _, v := range p.vinfo {
		m[v.name] = src[v.name] & mask1(v.w)
	}
	return m
}

func (p *path) sample() map[string]any {
	s := map[string]any{}
	var data, ch []string
	for _, v := range p.vinfo {
		x := p.m[v.name]
		if v.kind == "data" {
			data = append(data, fmt.Sprintf("%s=%d", v.name, sx(x, max(v.w, 1))))
		} else {
			ch = append(ch, fmt.Sprintf("%s=%d/%d", v.name, x, v.lim))
		}
	}
	s["inputs"] = strings.Join(data, " ")
	s["choices"] = strings.Join(ch, " ")
	s["steps"] = p.steps
	if len(p.notes) > 0 {
		s["notes"] = p.notes
	}
	return s
}

func (w *worker) runPath(it workItem, replay bool) *path {
	w.ts.tab = make(map[termKey]*Term, 1<<10)
	w.ts.tab[termKey{op: opConst, val: 1}] = w.ts.T
	w.ts.tab[termKey{op: opConst, val: 0}] = w.ts.F
	w.ep++
	h := w.ex.h
	p := &path{w: w, h: h, prefix: it.dl.slice(), m: it.m, ep: w.ep, pcSet: map[*Term]bool{}, vars: map[string]*Term{},
		abortCh: make(chan struct{}), maxSteps: h.opt.maxSteps, delays: h.opt.delays, selects: h.opt.selects, mapOrd: h.opt.mapOrders,
		mutexes: map[any]*muState{}, wgroups: map[any]*wgState{}, onces: map[any]int{}, pools: map[any][]value{}, avals: map[any]value{},
		conds: map[any][]*selState{}, misc: map[any]any{}, reached: map[string]bool{}, replay: replay}
	p.now = 1700000000 * 1e9
	p.horizon = p.now + h.opt.horizon
	w.sol.beginPath(w.ep)
	w.resetGlobals()
	fn := w.pr.harnessFn(h.fn)
	main := p.spawn("main", func(th *thread) {
		th.callFn(nil, fn, nil, nil)
	})
	p.cur = main
	main.wake <- struct{}{}
	<-p.abortCh
	p.wg.Wait()
	return p
}

// finish ends the path; called by whichever thread runs.
func (p *path) finish(o outcome) {
	if p.finished {
		return
	}
	p.finished = true
	p.out = o
	if p.w.ex.trace && (o.kind == outViolation || o.kind == outDeadlock) {
		for _, t := range p.threads {
			if !t.done {
				p.tr = append(p.tr, "alive: "+t.whereTop())
			}
		}
	}
	close(p.abortCh)
}

func (p *path) end(o outcome) {
	p.finish(o)
	panic(abortSentinel)
}

func (p *path) stepLimit(fr *frame) {
	pos := ""
	if fr != nil {
		pos = fr.where()
	}
	if p.h.opt.nonterm {
		p.end(outcome{outViolation, "does not terminate within the step bound at " + pos})
	}
	p.end(outcome{outSteps, pos})
}

// ---- symbolic decisions ----

func (p *path) eval(t *Term) uint64 { return t.eval(p.m, p.ep) }

func (p *path) setModel(m model) {
	p.m = m
	p.w.ep++
	p.ep = p.w.ep
	// emission epoch is tied to the path scope, not to the model: keep solver epoch
}

func (p *path) addPC(t *Term) {
	if t.isTrue() || p.pcSet[t] {
		return
	}
	p.pcSet[t] = true
	p.pc = append(p.pc, t)
	if t.op == opAnd {
		p.pcSet[t.a] = true
		p.pcSet[t.b] = true
	}
}

func (p *path) flushPC() {
	for p.sent < len(p.pc) {
		p.w.sol.assert(p.pc[p.sent], p.vars)
		p.sent++
	}
}

func (p *path) query(t *Term) (satResult, model) {
	if p.w.ex.stop && !p.replay {
		p.end(outcome{kind: outStopped})
	}
	qc := &p.w.ex.cache
	key, qvars := p.question(t)
	var r satResult
	var m model
	if e, ok := qc.get(key); ok && key != "" {
		r = e.r
		if r == resSat {
			m = make(model, len(qvars))
			for i, v := range qvars {
				m[v.name] = e.vals[i]
			}
		}
	} else {
		p.flushPC()
		r, m = p.w.sol.check(t, p.vars)
		if key != "" {
			e := cacheEntry{r: r}
			for _, v := range qvars {
				e.vals = append(e.vals, m[v.name])
			}
			qc.put(key, e)
		}
	}
	if r == resSat {
		// keep values of variables the solver does not know about
		full := make(model, len(p.m)+len(m))
		for k, v := range p.m {
			full[k] = v
		}
		for k, v := range m {
			full[k] = v
		}
		m = full
	}
	return r, m
}

func (p *path) replaying() bool { return p.di < len(p.prefix) }

func (p *path) record(d decision) {
	n := 1
	if p.trail != nil {
		n = p.trail.n + 1
	}
	p.trail = &dlist{p.trail, d, n}
}

func (p *path) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if p.pcSet[c] {
		return true
	}
	nc := p.w.ts.Not(c)
	if p.pcSet[nc] {
		return false
	}
	if p.replaying() {
		d := p.prefix[p.di]
		p.di++
		p.record(d)
		if d.kind != 0 {
			panic(engineError{fmt.Sprintf("replay divergence: branch, recorded kind %d", d.kind)})
		}
		if d.taken {
			p.addPC(c)
		} else {
			p.addPC(nc)
		}
		return d.taken
	}
	side := p.eval(c) == 1
	alts := uint16(1)
	if !p.replay {
		other := c
		if side {
			other = nc
		}
		r, m2 := p.query(other)
		if r != resUnsat {
			alts = 2
		}
		switch r {
		case resSat:
			if forkStats != nil && p.cur != nil {
				forkMu.Lock()
				k := p.cur.whereTop()
				if len(k) > 140 {
					k = k[:140]
				}
				forkStats[k]++
				forkMu.Unlock()
			}
			n := 1
			if p.trail != nil {
				n = p.trail.n + 1
			}
			p.w.ex.push(workItem{&dlist{p.trail, decision{kind: 0, taken: !side, n: 2}, n}, m2})
		case resUnknown:
			p.w.ex.mu.Lock()
			p.w.ex.incomplete["solver unknown"]++
			p.w.ex.mu.Unlock()
		}
	}
	p.record(decision{kind: 0, taken: side, n: alts})
	if side {
		p.addPC(c)
	} else {
		p.addPC(nc)
	}
	return side
}

func (p *path) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return p.branch(v)
	}
	panic(engineError{fmt.Sprintf("truth of %T", v)})
}

// concretize forks over the possible values of t.
func (p *path) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	for {
		var v uint64
		if p.replaying() {
			v = p.prefix[p.di].val
			if p.prefix[p.di].kind != 1 {
				panic(engineError{"replay divergence: concretise"})
			}
		} else {
			v = p.eval(t)
		}
		c := p.w.ts.Eq(t, p.w.ts.Const(t.w, v))
		if c.isTrue() || p.pcSet[c] {
			if p.replaying() {
				p.di++
			}
			p.record(decision{kind: 1, val: v, taken: true, n: 1})
			return v
		}
		nc := p.w.ts.Not(c)
		if p.replaying() {
			d := p.prefix[p.di]
			p.di++
			p.record(d)
			if d.taken {
				p.addPC(c)
				return v
			}
			p.addPC(nc)
			continue
		}
		alts := uint16(1)
		if !p.replay {
			r, m2 := p.query(nc)
			if r != resUnsat {
				alts = 2
			}
			if r == resSat {
				n := 1
				if p.trail != nil {
					n = p.trail.n + 1
				}
				if forkStats != nil && p.cur != nil {
					forkMu.Lock()
					k := "conc " + p.cur.whereTop()
					if len(k) > 140 {
						k = k[:140]
					}
					forkStats[k]++
					forkMu.Unlock()
				}
				p.w.ex.push(workItem{&dlist{p.trail, decision{kind: 1, val: v, taken: false, n: 2}, n}, m2})
			} else if r == resUnknown {
				p.w.ex.mu.Lock()
				p.w.ex.incomplete["solver unknown"]++
				p.w.ex.mu.Unlock()
			}
		}
		p.record(decision{kind: 1, val: v, taken: true, n: alts})
		p.addPC(c)
		return v
	}
}

func (p *path) concInt(v value) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *Term:
		return p.concretize(v)
	}
	panic(engineError{fmt.Sprintf("integer expected, got %T", v)})
}

func (p *path) newVar(kind string, w uint8) *Term {
	p.nvar++
	name := fmt.Sprintf("%s%d", kind[:1], p.nvar)
	p.vinfo = append(p.vinfo, varInfo{name: name, w: w, kind: kind})
	return p.w.ts.Var(name, w)
}

// choose picks one of n alternatives, exploring all of them.
func (p *path) choose(n int, kind string) int {
	if n <= 1 {
		return 0
	}
	p.nvar++
	name := fmt.Sprintf("%s%d", kind[:1], p.nvar)
	p.vinfo = append(p.vinfo, varInfo{name: name, w: 16, kind: kind, lim: n})
	if p.replaying() {
		d := p.prefix[p.di]
		p.di++
		if d.kind != 2 {
			panic(engineError{"replay divergence: choose"})
		}
		p.record(d)
		if p.m[name] != d.val {
			p.m = cloneWith(p.m, name, d.val)
		}
		return int(d.val)
	}
	if forkStats != nil && p.cur != nil {
		forkMu.Lock()
		k := kind + " " + p.cur.whereTop()
		if len(k) > 140 {
			k = k[:140]
		}
		forkStats[k] += n - 1
		forkMu.Unlock()
	}
	v := p.m[name]
	if v >= uint64(n) {
		v = 0
	}
	if !p.replay {
		ln := 1
		if p.trail != nil {
			ln = p.trail.n + 1
		}
		for i := n - 1; i >= 0; i-- {
			if uint64(i) == v {
				continue
			}
			p.w.ex.push(workItem{&dlist{p.trail, decision{kind: 2, val: uint64(i), n: uint16(n), nv: uint32(p.nvar)}, ln}, cloneWith(p.m, name, uint64(i))})
		}
	}
	p.record(decision{kind: 2, val: v, n: uint16(n), nv: uint32(p.nvar)})
	if p.m[name] != v {
		p.m = cloneWith(p.m, name, v)
	}
	return int(v)
}

func cloneWith(m model, k string, v uint64) model {
	n := make(model, len(m)+1)
	for a, b := range m {
		n[a] = b
	}
	n[k] = v
	return n
}

func (p *path) assume(v value) {
	switch v := v.(type) {
	case bool:
		if !v {
			p.end(outcome{kind: outInfeasible})
		}
	case *Term:
		if p.pcSet[v] {
			return
		}
		if p.eval(v) == 0 {
			if p.replay {
				p.end(outcome{kind: outInfeasible})
			}
			r, m := p.query(v)
			if r == resUnknown {
				p.end(outcome{outUnsupported, "solver unknown on assumption"})
			}
			if r == resUnsat {
				p.end(outcome{kind: outInfeasible})
			}
			p.setModel(m)
		}
		p.addPC(v)
	}
}

func (p *path) verify(fr *frame, v value, msg string) {
	p.verifies++
	switch v := v.(type) {
	case bool:
		if !v {
			p.tr = append(p.tr, "at "+fr.where())
			p.end(outcome{outViolation, msg})
		}
		if !p.replaying() {
			p.w.ex.concreteOK.Add(1)
		}
	case *Term:
		if p.pcSet[v] {
			return
		}
		if p.eval(v) == 0 {
			p.tr = append(p.tr, "at "+fr.where())
			p.end(outcome{outViolation, msg})
		}
		if !p.replaying() && !p.replay {
			r, m := p.query(p.w.ts.Not(v))
			switch r {
			case resSat:
				p.outModel = m
				p.setModel(m)
				p.tr = append(p.tr, "at "+fr.where())
				p.end(outcome{outViolation, msg})
			case resUnknown:
				p.w.ex.mu.Lock()
				p.w.ex.incomplete["solver unknown on: "+msg]++
				p.w.ex.mu.Unlock()
			case resUnsat:
				p.w.ex.discharged.Add(1)
			}
		}
		p.addPC(v)
	}
}

func (p *path) tracef(f string, a ...any) {
	if len(p.tr) < 4000 {
		p.tr = append(p.tr, fmt.Sprintf(f, a...))
	}
	if p.w.ex.debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// ---- globals ----

func (w *worker) resetGlobals() {
	for pi := range w.pkgIn {
		if pi.repo {
			for _, g := range pi.globals {
				w.globs[g.idx] = nil
			}
			delete(w.pkgIn, pi)
		}
	}
}

func (w *worker) global(fr *frame, idx int) value {
	if idx < len(w.globs) && w.globs[idx] != nil {
		return w.globs[idx]
	}
	w.pr.mu.Lock()
	n := len(w.pr.globals)
	gi := w.pr.globals[idx]
	w.pr.mu.Unlock()
	if len(w.globs) < n {
		ng := make([]*value, n+256)
		copy(ng, w.globs)
		w.globs = ng
	}
	pi := gi.pkg
	if !w.pkgIn[pi] {
		w.pkgIn[pi] = true
		w.pr.mu.Lock()
		gs := append([]*globalInfo{}, pi.globals...)
		w.pr.mu.Unlock()
		for _, g := range gs {
			c := new(value)
			*c = g.zero()
			w.globs[g.idx] = c
		}
		if pi.pkg.Pkg.Path() == jpkg {
			w.jsonGlobals(pi)
		} else if pi.init != nil && !noInit(pi.pkg.Pkg.Path()) {
			w.runInit(fr, pi)
		}
	}
	if w.globs[idx] == nil {
		c := new(value)
		*c = gi.zero()
		w.globs[idx] = c
		if pi.pkg.Pkg.Path() == jpkg {
			w.jsonGlobals(pi)
		}
	}
	return w.globs[idx]
}

func (w *worker) runInit(fr *frame, pi *pkgInfo) {
	th := fr.th
	th.noYield++
	defer func() { th.noYield-- }()
	if pi.repo {
		fi := pi.init
		fi.prepare(w.pr)
		th.runInitFn(fi)
		return
	}
	// dependency initialisers run once per worker; failures leave zero values behind
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*pathAbort); ok {
				panic(r)
			}
			if w.ex.debug {
				fmt.Fprintf(os.Stderr, "init of %s: %v\n", pi.pkg.Pkg.Path(), r)
			}
			w.ex.pr.noteInit(pi.pkg.Pkg.Path(), fmt.Sprint(r))
		}
	}()
	steps, maxS := fr.p.steps, fr.p.maxSteps
	fr.p.maxSteps = fr.p.steps + 50_000_000
	fi := pi.init
	fi.prepare(w.pr)
	th.runInitFn(fi)
	fr.p.steps, fr.p.maxSteps = steps, maxS
}

func (th *thread) runInitFn(fi *fnInfo) {
	depth, top := th.depth, th.top
	th.callFn(nil, fi, nil, nil)
	th.depth, th.top = depth, top
}

func topN(m map[string]int, n int) []string {
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v || l[i].v == l[j].v && l[i].k < l[j].k })
	var r []string
	for i, x := range l {
		if i >= n {
			break
		}
		r = append(r, fmt.Sprintf("%s (%d)", x.k, x.v))
	}
	return r
}

// forkStats counts the solver forks per source position (debugging aid, GOSYM_FORKS=1).
var forkStats map[string]int
var forkMu sync.Mutex

func init() {
	if os.Getenv("GOSYM_FORKS") != "" {
		forkStats = map[string]int{}
	}
}

func dumpForks() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range forkStats {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i := 0; i < len(l) && i < 25; i++ {
		fmt.Println("  forks", l[i].n, l[i].k)
	}
}
