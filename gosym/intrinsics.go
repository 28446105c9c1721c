package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
)

type intrinsic func(fr *frame, args []value) value

func noInit(pkg string) bool {
	switch pkg {
	case "runtime", "sync", "sync/atomic", "reflect", "unsafe", "os", "syscall", "internal/poll", "net", "fmt", "time", "internal/godebug",
		"crypto/tls", "crypto/x509", "net/http", "log", "internal/reflectlite", "github.com/json-iterator/go", "github.com/modern-go/reflect2",
		"math/rand", "crypto/rand", "github.com/google/uuid", "compress/gzip", "github.com/klauspost/compress/zstd", "internal/cpu":
		return true
	}
	return false
}

func lookupIntrinsic(fi *fnInfo) intrinsic {
	n := fi.name
	if f, ok := intrinsics[n]; ok {
		return f
	}
	if fi.pkg != nil && fi.pkg.repo {
		short := fi.fn.Name()
		if o := fi.fn.Origin(); o != nil {
			short = o.Name()
		}
		if strings.HasPrefix(short, "vp") && fi.fn.Signature.Recv() == nil {
			if f, ok := harnessAPI[short]; ok {
				return f
			}
		}
		return nil
	}
	// whole packages that are not modelled
	if fi.pkg != nil {
		switch fi.pkg.pkg.Pkg.Path() {
		case "log":
			return func(fr *frame, args []value) value { return nil }
		case "reflect", "github.com/json-iterator/go", "github.com/modern-go/reflect2", "os", "syscall", "net":
			if fi.fn.Blocks != nil && strings.HasSuffix(fi.fn.Name(), "init") {
				return nil
			}
			return func(fr *frame, args []value) value {
				panic(engineError{"unmodelled function " + n})
			}
		}
	}
	return nil
}

var intrinsics map[string]intrinsic
var harnessAPI map[string]intrinsic

func ptrKey(v value) any {
	switch v := v.(type) {
	case *value:
		return v
	case uptr:
		return ptrKey(v.p)
	}
	panic(engineError{fmt.Sprintf("ptrKey %T", v)})
}

func nilCheck(fr *frame, v value) {
	if isNilPtr(v) {
		fr.throwNil()
	}
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	jsonIntrinsics(I)

	// ---- sync ----
	I["(*sync.Mutex).Lock"] = func(fr *frame, a []value) value {
		nilCheck(fr, a[0])
		fr.th.lock(fr, ptrKey(a[0]), "Mutex.Lock")
		return nil
	}
	I["(*sync.Mutex).Unlock"] = func(fr *frame, a []value) value {
		nilCheck(fr, a[0])
		fr.th.unlock(fr, ptrKey(a[0]))
		return nil
	}
	I["(*sync.Mutex).TryLock"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		m := fr.p.mutex(ptrKey(a[0]))
		if m.locked {
			return false
		}
		m.locked = true
		return true
	}
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).RLock"] = func(fr *frame, a []value) value {
		nilCheck(fr, a[0])
		fr.th.rlock(fr, ptrKey(a[0]))
		return nil
	}
	I["(*sync.RWMutex).RUnlock"] = func(fr *frame, a []value) value {
		fr.th.runlock(fr, ptrKey(a[0]))
		return nil
	}
	I["(*sync.RWMutex).TryLock"] = I["(*sync.Mutex).TryLock"]
	I["(*sync.WaitGroup).Add"] = func(fr *frame, a []value) value {
		nilCheck(fr, a[0])
		fr.th.point(fr)
		w := fr.p.wgroup(ptrKey(a[0]))
		w.n += int64(fr.p.concInt(a[1]))
		if w.n < 0 {
			panic(targetPanic{iface{fr.w.pr.runtimeErr, "sync: negative WaitGroup counter"}, fr.where()})
		}
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(fr *frame, a []value) value {
		return I["(*sync.WaitGroup).Add"](fr, []value{a[0], ^uint64(0)})
	}
	I["(*sync.WaitGroup).Wait"] = func(fr *frame, a []value) value {
		nilCheck(fr, a[0])
		fr.th.point(fr)
		w := fr.p.wgroup(ptrKey(a[0]))
		fr.th.block(fr, "WaitGroup.Wait", func() bool { return w.n == 0 })
		return nil
	}
	I["(*sync.WaitGroup).Go"] = func(fr *frame, a []value) value {
		w := fr.p.wgroup(ptrKey(a[0]))
		w.n++
		fn := a[1].(*closure)
		k := a[0]
		fr.p.spawn("wg.Go", func(th *thread) {
			th.call(nil, fn, nil)
			I["(*sync.WaitGroup).Done"](&frame{th: th, p: th.p, w: th.p.w, fi: nativeFn}, []value{k})
		})
		return nil
	}
	I["(*sync.Once).Do"] = func(fr *frame, a []value) value {
		nilCheck(fr, a[0])
		fr.th.point(fr)
		k := ptrKey(a[0])
		if fr.p.onces[k] == 2 {
			return nil
		}
		if fr.p.onces[k] == 1 {
			fr.th.block(fr, "Once.Do", func() bool { return fr.p.onces[k] == 2 })
			return nil
		}
		fr.p.onces[k] = 1
		func() {
			defer func() { fr.p.onces[k] = 2 }()
			fr.th.call(fr, a[1].(*closure), nil)
		}()
		return nil
	}
	I["(*sync.Pool).Get"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		k := ptrKey(a[0])
		if l := fr.p.pools[k]; len(l) > 0 {
			v := l[len(l)-1]
			fr.p.pools[k] = l[:len(l)-1]
			return v
		}
		st := (*a[0].(*value)).(structure)
		nf, _ := st[len(st)-1].(*closure)
		if nf == nil {
			return iface{}
		}
		return fr.th.call(fr, nf, nil)
	}
	I["(*sync.Pool).Put"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		k := ptrKey(a[0])
		if fr.fi.repo || (fr.fi.pkg != nil && fr.fi.pkg.repo) {
			fr.p.pools[k] = append(fr.p.pools[k], a[1])
		}
		return nil
	}
	I["sync.NewCond"] = nil
	delete(I, "sync.NewCond")
	condL := func(fr *frame, c value) iface {
		st := (*c.(*value)).(structure)
		for _, f := range st {
			if i, ok := f.(iface); ok {
				return i
			}
		}
		panic(engineError{"cond"})
	}
	callM := func(fr *frame, i iface, name string) {
		ms := types.NewMethodSet(i.t)
		s := ms.Lookup(nil, name)
		if s == nil {
			panic(engineError{"method " + name})
		}
		fr.th.callFn(fr, fr.w.pr.lookupMethod(i.t, s.Obj().(*types.Func)), []value{i.v}, nil)
	}
	I["(*sync.Cond).Wait"] = func(fr *frame, a []value) value {
		k := ptrKey(a[0])
		l := condL(fr, a[0])
		s := &selState{th: fr.th}
		fr.p.conds[k] = append(fr.p.conds[k], s)
		callM(fr, l, "Unlock")
		fr.th.block(fr, "Cond.Wait", func() bool { return s.fired })
		callM(fr, l, "Lock")
		return nil
	}
	I["(*sync.Cond).Signal"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		k := ptrKey(a[0])
		if l := fr.p.conds[k]; len(l) > 0 {
			l[0].fired = true
			fr.p.conds[k] = l[1:]
		}
		return nil
	}
	I["(*sync.Cond).Broadcast"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		k := ptrKey(a[0])
		for _, s := range fr.p.conds[k] {
			s.fired = true
		}
		fr.p.conds[k] = nil
		return nil
	}
	// sync.Map
	anyT := types.NewInterfaceType(nil, nil)
	smap := func(fr *frame, v value) *mapv {
		k := ptrKey(v)
		m, _ := fr.p.misc[k].(*mapv)
		if m == nil {
			m = newMap()
			fr.p.misc[k] = m
		}
		return m
	}
	I["(*sync.Map).Load"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		m := smap(fr, a[0])
		if i := fr.p.mapFind(m, a[1], anyT); i >= 0 {
			return tuple{m.ents[i].v, true}
		}
		return tuple{iface{}, false}
	}
	I["(*sync.Map).Store"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		fr.p.mapSet(smap(fr, a[0]), a[1], a[2], anyT)
		return nil
	}
	I["(*sync.Map).LoadOrStore"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		m := smap(fr, a[0])
		if i := fr.p.mapFind(m, a[1], anyT); i >= 0 {
			return tuple{m.ents[i].v, true}
		}
		fr.p.mapSet(m, a[1], a[2], anyT)
		return tuple{a[2], false}
	}
	I["(*sync.Map).Delete"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		fr.p.mapDel(smap(fr, a[0]), a[1], anyT)
		return nil
	}
	I["(*sync.Map).LoadAndDelete"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		m := smap(fr, a[0])
		if i := fr.p.mapFind(m, a[1], anyT); i >= 0 {
			v := m.ents[i].v
			fr.p.mapDel(m, a[1], anyT)
			return tuple{v, true}
		}
		return tuple{iface{}, false}
	}
	I["(*sync.Map).Range"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		m := smap(fr, a[0])
		for _, e := range append([]ment{}, m.ents...) {
			if e.dead {
				continue
			}
			if !fr.p.truth(fr.th.call(fr, a[1].(*closure), []value{e.k, e.v})) {
				break
			}
		}
		return nil
	}

	// ---- sync/atomic ----
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
		t := t
		I["sync/atomic.Load"+t.n] = func(fr *frame, a []value) value { fr.th.point(fr); return fr.load(a[0]) }
		I["sync/atomic.Store"+t.n] = func(fr *frame, a []value) value { fr.th.point(fr); fr.store(a[0], a[1]); return nil }
		I["sync/atomic.Add"+t.n] = func(fr *frame, a []value) value {
			fr.th.point(fr)
			v := fr.load(a[0])
			var r value
			x, ok1 := v.(uint64)
			y, ok2 := a[1].(uint64)
			if ok1 && ok2 {
				r = (x + y) & mask(t.w)
			} else {
				r = fromTerm(fr.w.ts.Bin(opAdd, fr.w.toTerm(v, t.w), fr.w.toTerm(a[1], t.w)))
			}
			fr.store(a[0], r)
			return r
		}
		I["sync/atomic.Swap"+t.n] = func(fr *frame, a []value) value {
			fr.th.point(fr)
			v := fr.load(a[0])
			fr.store(a[0], a[1])
			return v
		}
		I["sync/atomic.CompareAndSwap"+t.n] = func(fr *frame, a []value) value {
			fr.th.point(fr)
			v := fr.load(a[0])
			x, ok1 := v.(uint64)
			y, ok2 := a[1].(uint64)
			eq := false
			if ok1 && ok2 {
				eq = x == y
			} else {
				eq = fr.p.branch(fr.w.ts.Eq(fr.w.toTerm(v, t.w), fr.w.toTerm(a[1], t.w)))
			}
			if eq {
				fr.store(a[0], a[2])
			}
			return eq
		}
	}
	I["sync/atomic.LoadPointer"] = func(fr *frame, a []value) value { fr.th.point(fr); return fr.load(a[0]) }
	I["sync/atomic.StorePointer"] = func(fr *frame, a []value) value { fr.th.point(fr); fr.store(a[0], a[1]); return nil }
	I["sync/atomic.SwapPointer"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		v := fr.load(a[0])
		fr.store(a[0], a[1])
		return v
	}
	I["sync/atomic.CompareAndSwapPointer"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		if ptrEq(fr.load(a[0]), a[1]) {
			fr.store(a[0], a[2])
			return true
		}
		return false
	}
	I["(*sync/atomic.Value).Load"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		if v, ok := fr.p.avals[ptrKey(a[0])]; ok {
			return v
		}
		return iface{}
	}
	I["(*sync/atomic.Value).Store"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		fr.p.avals[ptrKey(a[0])] = a[1]
		return nil
	}
	I["(*sync/atomic.Value).Swap"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		v, ok := fr.p.avals[ptrKey(a[0])]
		fr.p.avals[ptrKey(a[0])] = a[1]
		if !ok {
			return iface{}
		}
		return v
	}
	I["(*sync/atomic.Value).CompareAndSwap"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		v, ok := fr.p.avals[ptrKey(a[0])]
		if !ok {
			v = iface{}
		}
		if fr.p.truth(fr.w.ifaceEq(v, a[1])) {
			fr.p.avals[ptrKey(a[0])] = a[2]
			return true
		}
		return false
	}

	// ---- runtime ----
	I["runtime.Gosched"] = func(fr *frame, a []value) value {
		fr.th.consec += 1 << 20
		fr.th.point(fr)
		return nil
	}
	I["runtime.GC"] = func(fr *frame, a []value) value { return nil }
	I["runtime.NumCPU"] = func(fr *frame, a []value) value { return uint64(4) }
	I["runtime.GOMAXPROCS"] = func(fr *frame, a []value) value { return uint64(4) }
	I["runtime.NumGoroutine"] = func(fr *frame, a []value) value {
		n := 0
		for _, t := range fr.p.threads {
			if !t.done {
				n++
			}
		}
		return uint64(n)
	}
	I["runtime.SetFinalizer"] = func(fr *frame, a []value) value { return nil }
	I["runtime.KeepAlive"] = func(fr *frame, a []value) value { return nil }
	I["runtime/debug.Stack"] = func(fr *frame, a []value) value { return []value{} }
	I["runtime/debug.PrintStack"] = func(fr *frame, a []value) value { return nil }
	I["runtime.Caller"] = func(fr *frame, a []value) value { return tuple{uint64(0), "", uint64(0), false} }
	I["os.Exit"] = func(fr *frame, a []value) value {
		panic(targetPanic{iface{fr.w.pr.runtimeErr, "os.Exit called"}, fr.where()})
	}
	I["os.Getenv"] = func(fr *frame, a []value) value { return "" }
	I["os.Hostname"] = func(fr *frame, a []value) value { return tuple{"host", iface{}} }
	I["os/signal.Notify"] = func(fr *frame, a []value) value { return nil }
	I["os/signal.Stop"] = func(fr *frame, a []value) value { return nil }
	I["(runtime.Error).RuntimeError"] = func(fr *frame, a []value) value { return nil }
	I["(runtime.errorString).Error"] = func(fr *frame, a []value) value {
		if s, ok := a[0].(string); ok && !strings.HasPrefix(s, "fatal") {
			return "runtime error: " + s
		}
		return a[0]
	}

	// ---- internal helpers ----
	I["internal/race.Acquire"] = func(fr *frame, a []value) value { return nil }
	I["internal/abi.NoEscape"] = func(fr *frame, a []value) value { return a[0] }
	I["strings.noescape"] = func(fr *frame, a []value) value { return a[0] }
	I["internal/abi.FuncPCABI0"] = func(fr *frame, a []value) value { return uint64(0) }
	I["internal/bytealg.MakeNoZero"] = func(fr *frame, a []value) value {
		n := int(fr.p.concInt(a[0]))
		s := make([]value, n)
		for i := range s {
			s[i] = byteVals[0]
		}
		return s
	}
	I["internal/bytealg.IndexByte"] = func(fr *frame, a []value) value { return indexByte(fr, a[0].([]value), a[1]) }
	I["internal/bytealg.IndexByteString"] = func(fr *frame, a []value) value { return indexByte(fr, strBytes(a[0]), a[1]) }
	I["internal/bytealg.Count"] = func(fr *frame, a []value) value { return countByte(fr, a[0].([]value), a[1]) }
	I["internal/bytealg.CountString"] = func(fr *frame, a []value) value { return countByte(fr, strBytes(a[0]), a[1]) }
	I["internal/bytealg.Compare"] = func(fr *frame, a []value) value { return cmpBytes(fr, a[0].([]value), a[1].([]value)) }
	I["internal/bytealg.CompareString"] = func(fr *frame, a []value) value { return cmpBytes(fr, strBytes(a[0]), strBytes(a[1])) }
	I["bytes.Compare"] = I["internal/bytealg.Compare"]
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	I["internal/bytealg.Equal"] = func(fr *frame, a []value) value { return fr.w.bytesEq(a[0].([]value), a[1].([]value)) }
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	idxStr := func(fr *frame, h, n []value) value {
		for i := 0; i+len(n) <= len(h); i++ {
			if fr.p.truth(fr.w.bytesEq(h[i:i+len(n)], n)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	I["strings.Index"] = func(fr *frame, a []value) value {
		if x, ok := a[0].(string); ok {
			if y, ok := a[1].(string); ok {
				return uint64(int64(strings.Index(x, y)))
			}
		}
		return idxStr(fr, strBytes(a[0]), strBytes(a[1]))
	}
	I["bytes.Index"] = func(fr *frame, a []value) value { return idxStr(fr, a[0].([]value), a[1].([]value)) }
	I["strings.EqualFold"] = func(fr *frame, a []value) value {
		return strings.EqualFold(mustStr(a[0]), mustStr(a[1]))
	}
	I["strings.ToLower"] = func(fr *frame, a []value) value { return strings.ToLower(mustStr(a[0])) }
	I["strings.ToUpper"] = func(fr *frame, a []value) value { return strings.ToUpper(mustStr(a[0])) }
	I["math.Float64bits"] = func(fr *frame, a []value) value { return math.Float64bits(a[0].(float64)) }
	I["math.Float64frombits"] = func(fr *frame, a []value) value {
		if u, ok := a[0].(uint64); ok {
			return math.Float64frombits(u)
		}
		return fr.w.ts.Fop(opFBits, wF64, a[0].(*Term))
	}
	I["math.Float32bits"] = func(fr *frame, a []value) value { return uint64(math.Float32bits(float32(a[0].(float64)))) }
	f1 := func(f func(float64) float64) intrinsic {
		return func(fr *frame, a []value) value {
			x, ok := a[0].(float64)
			if !ok {
				panic(engineError{"symbolic float function"})
			}
			return f(x)
		}
	}
	I["math.Floor"] = f1(math.Floor)
	I["math.Ceil"] = f1(math.Ceil)
	I["math.Trunc"] = f1(math.Trunc)
	I["math.Sqrt"] = f1(math.Sqrt)
	I["math.Log2"] = f1(math.Log2)
	I["math.Abs"] = f1(math.Abs)
	I["math/bits.Len64"] = nil
	delete(I, "math/bits.Len64")

	// ---- time ----
	now := func(fr *frame) value {
		const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
		n := fr.p.now
		return structure{uint64(n % 1e9), uint64(n/1e9 + unixToInternal), (*value)(nil)}
	}
	I["time.Now"] = func(fr *frame, a []value) value { return now(fr) }
	I["time.runtimeNano"] = func(fr *frame, a []value) value { return uint64(fr.p.now) }
	I["time.runtimeNow"] = func(fr *frame, a []value) value {
		return tuple{uint64(fr.p.now / 1e9), uint64(fr.p.now % 1e9), uint64(fr.p.now)}
	}
	I["time.Sleep"] = func(fr *frame, a []value) value {
		d := int64(fr.p.concInt(a[0]))
		if d <= 0 {
			fr.th.point(fr)
			return nil
		}
		fired := false
		t := fr.p.addTimer(d, 0)
		t.fn = func(p *path) { fired = true }
		fr.th.block(fr, "sleep", func() bool { return fired })
		return nil
	}
	mkTimer := func(fr *frame, typ string, d int64, period int64, fn *closure) value {
		t := fr.p.addTimer(d, period)
		var chv value = (*chanv)(nil)
		if fn == nil {
			ch := fr.p.newChan(1)
			chv = ch
			t.ch = ch
			t.fn = func(p *path) {
				if len(ch.buf) < ch.cap || ch.hasRecv() {
					fr2 := &frame{p: p, w: p.w, fi: nativeFn}
					ch.doSend(fr2, now(fr2))
				}
			}
		} else {
			t.fn = func(p *path) {
				p.spawn("timer", func(th *thread) { th.call(nil, fn, nil) })
			}
		}
		tt := fr.w.pr.typeOf("time", typ)
		cell := new(value)
		*cell = zeroFn(tt)()
		(*cell).(structure)[0] = chv
		fr.p.misc[cell] = t
		return cell
	}
	I["time.NewTimer"] = func(fr *frame, a []value) value {
		return mkTimer(fr, "Timer", int64(fr.p.concInt(a[0])), 0, nil)
	}
	I["time.AfterFunc"] = func(fr *frame, a []value) value {
		return mkTimer(fr, "Timer", int64(fr.p.concInt(a[0])), 0, a[1].(*closure))
	}
	I["time.After"] = func(fr *frame, a []value) value {
		c := mkTimer(fr, "Timer", int64(fr.p.concInt(a[0])), 0, nil).(*value)
		return (*c).(structure)[0]
	}
	I["time.NewTicker"] = func(fr *frame, a []value) value {
		d := int64(fr.p.concInt(a[0]))
		if d <= 0 {
			fr.throw("non-positive interval for NewTicker")
		}
		return mkTimer(fr, "Ticker", d, d, nil)
	}
	I["time.Tick"] = func(fr *frame, a []value) value {
		d := int64(fr.p.concInt(a[0]))
		c := mkTimer(fr, "Ticker", d, d, nil).(*value)
		return (*c).(structure)[0]
	}
	tm := func(fr *frame, v value) *timerT {
		nilCheck(fr, v)
		t, _ := fr.p.misc[v.(*value)].(*timerT)
		if t == nil {
			panic(targetPanic{iface{fr.w.pr.runtimeErr, "time: use of uninitialized Timer"}, fr.where()})
		}
		return t
	}
	drain := func(t *timerT) {
		// since Go 1.23 Stop and Reset discard a stale value
		if t.ch != nil && goTimerChanUnbuffered {
			t.ch.buf = nil
		}
	}
	I["(*time.Timer).Stop"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		t := tm(fr, a[0])
		was := t.active
		t.active = false
		drain(t)
		return was
	}
	I["(*time.Ticker).Stop"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		tm(fr, a[0]).active = false
		drain(tm(fr, a[0]))
		return nil
	}
	reset := func(fr *frame, t *timerT, d int64, period int64) bool {
		was := t.active
		if d < 0 {
			d = 0
		}
		t.when = fr.p.now + d
		t.period = period
		fr.p.timerSeq++
		t.seq = fr.p.timerSeq
		t.active = true
		found := false
		for _, x := range fr.p.timers {
			if x == t {
				found = true
			}
		}
		if !found {
			fr.p.timers = append(fr.p.timers, t)
		}
		drain(t)
		return was
	}
	I["(*time.Timer).Reset"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		return reset(fr, tm(fr, a[0]), int64(fr.p.concInt(a[1])), 0)
	}
	I["(*time.Ticker).Reset"] = func(fr *frame, a []value) value {
		fr.th.point(fr)
		d := int64(fr.p.concInt(a[1]))
		if d <= 0 {
			fr.throw("non-positive interval for Ticker.Reset")
		}
		reset(fr, tm(fr, a[0]), d, d)
		return nil
	}
	I["(time.Time).Format"] = func(fr *frame, a []value) value { return "time" }
	I["(time.Time).String"] = func(fr *frame, a []value) value { return "time" }
	I["(time.Duration).String"] = func(fr *frame, a []value) value { return "duration" }
	I["(time.Time).Local"] = func(fr *frame, a []value) value { return a[0] }

	// ---- randomness ----
	rnd := func(fr *frame, n value, w uint8) value {
		v := fr.p.newVar("data", w)
		switch n := n.(type) {
		case nil:
			return v
		case uint64:
			if sx(n, w) <= 0 {
				panic(targetPanic{iface{fr.w.pr.runtimeErr, "invalid argument to Intn"}, fr.where()})
			}
			if n <= 64 {
				return uint64(fr.p.choose(int(n), "data"))
			}
			fr.p.assume(fromTerm(fr.w.ts.Cmp(opUlt, v, fr.w.ts.Const(w, n))))
		case *Term:
			if !fr.p.branch(fr.w.ts.Cmp(opSlt, fr.w.ts.Const(w, 0), n)) {
				panic(targetPanic{iface{fr.w.pr.runtimeErr, "invalid argument to Intn"}, fr.where()})
			}
			fr.p.assume(fromTerm(fr.w.ts.Cmp(opUlt, v, n)))
		}
		return v
	}
	for _, pk := range []string{"math/rand", "math/rand/v2"} {
		I[pk+".Intn"] = func(fr *frame, a []value) value { return rnd(fr, a[0], 64) }
		I[pk+".Int63n"] = I[pk+".Intn"]
		I[pk+".Int63"] = func(fr *frame, a []value) value {
			v := fr.p.newVar("data", 64)
			fr.p.assume(fromTerm(fr.w.ts.Cmp(opSle, fr.w.ts.Const(64, 0), v)))
			return v
		}
		I[pk+".Int"] = I[pk+".Int63"]
		I[pk+".Int31n"] = func(fr *frame, a []value) value { return rnd(fr, a[0], 32) }
		I[pk+".Uint32"] = func(fr *frame, a []value) value { return rnd(fr, nil, 32) }
		I[pk+".Uint64"] = func(fr *frame, a []value) value { return rnd(fr, nil, 64) }
		I[pk+".Float64"] = func(fr *frame, a []value) value {
			// k / 2^20: a grid of the half open unit interval
			v := fr.w.ts.Zext(fr.w.ts.Extract(fr.p.newVar("data", 64), 19, 0), 64)
			return fr.w.ts.Fop(opFDiv, wF64, fr.w.ts.Fop(opUToF, wF64, v), fr.w.toTerm(float64(1<<20), wF64))
		}
		I[pk+".Seed"] = func(fr *frame, a []value) value { return nil }
	}
	I["github.com/google/uuid.NewString"] = func(fr *frame, a []value) value {
		fr.p.uuid++
		return fmt.Sprintf("00000000-0000-4000-8000-%012x", fr.p.uuid)
	}

	// ---- fmt / errors / strconv ----
	I["fmt.Sprintf"] = func(fr *frame, a []value) value { return fr.sprintf(a[0], a[1].([]value)) }
	I["fmt.Sprint"] = func(fr *frame, a []value) value {
		var sb strings.Builder
		for _, x := range a[0].([]value) {
			sb.WriteString(fr.fmtArg('v', x, false))
		}
		return sb.String()
	}
	I["fmt.Sprintln"] = I["fmt.Sprint"]
	nop3 := func(fr *frame, a []value) value { return tuple{uint64(0), iface{}} }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		I[n] = nop3
	}
	I["fmt.Errorf"] = func(fr *frame, a []value) value {
		args := a[1].([]value)
		msg := fr.sprintfX(a[0], args, true)
		f, _ := a[0].(string)
		if strings.Contains(f, "%w") {
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' {
					i++
					if f[i] == '%' {
						continue
					}
					for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
						i++
					}
					if i < len(f) && f[i] == 'w' && n < len(args) {
						c := new(value)
						*c = structure{msg, args[n]}
						return iface{fr.w.pr.wrapErr, c}
					}
					n++
				}
			}
		}
		c := new(value)
		*c = structure{msg}
		return iface{fr.w.pr.errorStr, c}
	}
	I["errors.Is"] = func(fr *frame, a []value) value {
		err, target := a[0].(iface), a[1].(iface)
		return fr.errorsIs(err, target)
	}
	I["errors.As"] = func(fr *frame, a []value) value { return fr.errorsAs(a[0].(iface), a[1].(iface)) }
	I["strconv.FormatFloat"] = func(fr *frame, a []value) value {
		f, ok := a[0].(float64)
		if !ok {
			panic(engineError{"FormatFloat of a symbolic value"})
		}
		return strconv.FormatFloat(f, byte(fr.p.concInt(a[1])), int(sx(uint64(fr.p.concInt(a[2])), 64)), int(fr.p.concInt(a[3])))
	}
	I["strconv.Itoa"] = func(fr *frame, a []value) value { return fr.itoa(a[0], true) }
	I["strconv.FormatInt"] = func(fr *frame, a []value) value {
		if t, ok := a[0].(*Term); ok {
			if b, ok := a[1].(uint64); ok && b == 10 {
				return fr.itoa(t, true)
			}
		}
		return strconv.FormatInt(int64(fr.p.concInt(a[0])), int(fr.p.concInt(a[1])))
	}
	I["sort.Slice"] = func(fr *frame, a []value) value {
		s := a[0].(iface).v.([]value)
		less := a[1].(*closure)
		insertionSort(fr, s, func(i, j int) bool {
			return fr.p.truth(fr.th.call(fr, less, []value{uint64(i), uint64(j)}))
		})
		return nil
	}
	I["sort.SliceStable"] = I["sort.Slice"]
	I["sort.Ints"] = func(fr *frame, a []value) value { return sortVals(fr, a[0].([]value), 64) }
	I["sort.Strings"] = func(fr *frame, a []value) value {
		s := a[0].([]value)
		sort.SliceStable(s, func(i, j int) bool { return mustStr(s[i]) < mustStr(s[j]) })
		return nil
	}
	// reflect bits used by deep dependencies
	I["reflect.DeepEqual"] = func(fr *frame, a []value) value {
		return fr.deepEq(a[0], a[1], 0)
	}

	I["context.WithValue"] = func(fr *frame, a []value) value {
		c := new(value)
		*c = structure{a[0], a[1], a[2]}
		return iface{fr.w.pr.valueCtx, c}
	}

	// ---- harness API ----
	H := map[string]intrinsic{}
	harnessAPI = H
	data := func(w uint8) intrinsic {
		return func(fr *frame, a []value) value { return fr.p.newVar("data", w) }
	}
	H["vpInt"], H["vpInt64"], H["vpUint64"] = data(64), data(64), data(64)
	H["vpInt32"], H["vpUint32"] = data(32), data(32)
	H["vpInt16"], H["vpUint16"] = data(16), data(16)
	H["vpUint8"], H["vpInt8"] = data(8), data(8)
	H["vpBool"] = data(0)
	H["vpBytes"] = func(fr *frame, a []value) value {
		n := int(fr.p.concInt(a[0]))
		s := make([]value, n)
		for i := range s {
			s[i] = fr.p.newVar("data", 8)
		}
		return s
	}
	H["vpString"] = func(fr *frame, a []value) value {
		return bytesToStr(H["vpBytes"](fr, a).([]value))
	}
	H["vpChoose"] = func(fr *frame, a []value) value { return uint64(fr.p.choose(int(fr.p.concInt(a[0])), "choose")) }
	H["vpAssume"] = func(fr *frame, a []value) value { fr.p.assume(a[0]); return nil }
	H["vpVerify"] = func(fr *frame, a []value) value { fr.p.verify(fr, a[0], fr.p.show(a[1], 0)); return nil }
	H["vpReach"] = func(fr *frame, a []value) value { fr.p.reached[mustStr(a[0])] = true; fr.p.reachSeq = append(fr.p.reachSeq, mustStr(a[0])); return nil }
	H["vpNote"] = func(fr *frame, a []value) value {
		if len(fr.p.notes) < 40 {
			fr.p.notes = append(fr.p.notes, fr.sprintf(a[0], a[1].([]value)).(string))
		}
		return nil
	}
	H["vpQuiesce"] = func(fr *frame, a []value) value { fr.th.quiesce(fr, int64(fr.p.concInt(a[0]))); return nil }
	H["vpYield"] = func(fr *frame, a []value) value { fr.th.point(fr); return nil }
	H["vpKnown"] = func(fr *frame, a []value) value {
		if fr.p.truth(a[1]) {
			fr.p.end(outcome{outKnown, mustStr(a[0])})
		}
		return nil
	}
	H["vpConc"] = func(fr *frame, a []value) value { return fr.p.concInt(a[0]) }
	H["vpNow"] = func(fr *frame, a []value) value { return uint64(fr.p.now) }
	H["vpNoYield"] = func(fr *frame, a []value) value {
		if fr.p.truth(a[0]) {
			fr.th.noYield++
		} else {
			fr.th.noYield--
		}
		return nil
	}
	// vpAtomic runs f without schedule points
	H["vpAtomic"] = func(fr *frame, a []value) value {
		fr.th.noYield++
		defer func() { fr.th.noYield-- }()
		fr.th.call(fr, a[0].(*closure), nil)
		return nil
	}
	// vpStuck reports whether a named blocked goroutine exists (used for leak checks)
	H["vpBlocked"] = func(fr *frame, a []value) value {
		n := 0
		for _, t := range fr.p.threads {
			if !t.done && t != fr.th {
				n++
			}
		}
		return uint64(n)
	}
	H["vpBlockedIn"] = func(fr *frame, a []value) value {
		n := 0
		pat := mustStr(a[0])
		for _, t := range fr.p.threads {
			if !t.done && t != fr.th && strings.Contains(t.whereTop(), pat) {
				n++
			}
		}
		return uint64(n)
	}
	H["vpAnd"] = func(fr *frame, a []value) value {
		return fr.w.fromBool(fr.w.ts.And(fr.w.boolTerm(a[0]), fr.w.boolTerm(a[1])))
	}
	H["vpOr"] = func(fr *frame, a []value) value {
		return fr.w.fromBool(fr.w.ts.Or(fr.w.boolTerm(a[0]), fr.w.boolTerm(a[1])))
	}
	H["vpThorough"] = func(fr *frame, a []value) value { return os.Getenv("VERIF_TIER") == "thorough" }
	H["vpSymbolic"] = func(fr *frame, a []value) value { return true }
}

func (w *worker) boolTerm(v value) *Term {
	switch v := v.(type) {
	case bool:
		if v {
			return w.ts.T
		}
		return w.ts.F
	case *Term:
		return v
	}
	panic(engineError{fmt.Sprintf("bool expected, got %T", v)})
}

func (w *worker) fromBool(t *Term) value {
	if t.isConst() {
		return t.val == 1
	}
	return t
}

const goTimerChanUnbuffered = false

func mustStr(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	panic(engineError{fmt.Sprintf("concrete string expected, got %T", v)})
}

func indexByte(fr *frame, b []value, c value) value {
	for i, x := range b {
		u, ok1 := x.(uint64)
		v, ok2 := c.(uint64)
		if ok1 && ok2 {
			if u == v {
				return uint64(i)
			}
			continue
		}
		if fr.p.branch(fr.w.ts.Eq(fr.w.toTerm(x, 8), fr.w.toTerm(c, 8))) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func countByte(fr *frame, b []value, c value) value {
	n := uint64(0)
	for _, x := range b {
		if fr.p.truth(fromTerm(fr.w.ts.Eq(fr.w.toTerm(x, 8), fr.w.toTerm(c, 8)))) {
			n++
		}
	}
	return n
}

func cmpBytes(fr *frame, a, b []value) value {
	lt := fr.w.toTerm(fr.w.bytesLess(a, b, false), 0)
	eq := fr.w.toTerm(fr.w.bytesEq(a, b), 0)
	ts := fr.w.ts
	return fromTerm(ts.Ite(eq, ts.Const(64, 0), ts.Ite(lt, ts.Const(64, ^uint64(0)), ts.Const(64, 1))))
}

func insertionSort(fr *frame, s []value, less func(i, j int) bool) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			// swap contents in place, as reflect.Swapper does
			a, b := copyVal(s[j]), copyVal(s[j-1])
			storeVal(&s[j], b)
			storeVal(&s[j-1], a)
		}
	}
}

func sortVals(fr *frame, s []value, w uint8) value {
	insertionSort(fr, s, func(i, j int) bool {
		return fr.p.truth(fromTerm(fr.w.ts.Cmp(opSlt, fr.w.toTerm(s[i], w), fr.w.toTerm(s[j], w))))
	})
	return nil
}

// ---- fmt ----

// itoa is the decimal representation of a 64 bit integer: it forks on the sign and the number of digits only.
func (fr *frame) itoa(v value, signed bool) value {
	if u, ok := v.(uint64); ok {
		if signed {
			return strconv.FormatInt(int64(u), 10)
		}
		return strconv.FormatUint(u, 10)
	}
	ts := fr.w.ts
	t := fr.w.toTerm(v, 64)
	var out []value
	if signed && fr.p.truth(ts.Cmp(opSlt, t, ts.Const(64, 0))) {
		out = append(out, byteVals['-'])
		t = ts.Neg(t)
	}
	n, lim := 1, uint64(10)
	for n < 19 && !fr.p.truth(ts.Cmp(opUlt, t, ts.Const(64, lim))) {
		n++
		lim *= 10
	}
	if n == 19 && !fr.p.truth(ts.Cmp(opUlt, t, ts.Const(64, lim))) {
		n++
	}
	w := uint8(64)
	if n <= 4 {
		w = 16
	} else if n <= 9 {
		w = 32
	}
	if w < 64 {
		t = ts.Extract(t, w-1, 0)
	}
	for i := n - 1; i >= 0; i-- {
		d := uint64(1)
		for k := 0; k < i; k++ {
			d *= 10
		}
		q := ts.Bin(opURem, ts.Bin(opUDiv, t, ts.Const(w, d)), ts.Const(w, 10))
		x := ts.Bin(opAdd, ts.Extract(q, 7, 0), ts.Const(8, '0'))
		if x.isConst() {
			out = append(out, x.val)
		} else {
			out = append(out, x)
		}
	}
	return bytesToStr(out)
}

func (fr *frame) sprintf(f value, args []value) value { return fr.sprintfX(f, args, false) }

// sprintfX formats; symbolic integers in texts which are only for reading (approx) are not spelled out.
func (fr *frame) sprintfX(f value, args []value, approx bool) value {
	fs, ok := f.(string)
	if !ok {
		return f
	}
	var out []value
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, byteVals[s[i]])
		}
	}
	n := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			out = append(out, byteVals[fs[i]])
			continue
		}
		i++
		if i >= len(fs) {
			break
		}
		if fs[i] == '%' {
			lit("%")
			continue
		}
		flags := ""
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			flags += string(fs[i])
			i++
		}
		if i >= len(fs) {
			break
		}
		if n >= len(args) {
			lit("%!" + string(fs[i]) + "(MISSING)")
			continue
		}
		a := args[n]
		n++
		if iv, ok := a.(iface); ok {
			if ss, ok := iv.v.(*SymStr); ok && (fs[i] == 's' || fs[i] == 'v') {
				out = append(out, ss.b...)
				continue
			}
			if t, ok := iv.v.(*Term); ok {
				if w, sg := intInfo(iv.t); w > 0 && (fs[i] == 'd' || fs[i] == 'v') && fr.w.pr.methodSet(iv.t).Len() == 0 {
					if approx {
						lit("<int>")
						continue
					}
					if flags == "" {
						ts := fr.w.ts
						if w < 64 && sg {
							t = ts.Sext(t, 64)
						} else if w < 64 {
							t = ts.Zext(t, 64)
						}
						switch r := fr.itoa(t, sg).(type) {
						case string:
							lit(r)
						case *SymStr:
							out = append(out, r.b...)
						}
						continue
					}
				}
			}
			if flags != "" {
				if u, ok := iv.v.(uint64); ok {
					w, sg := intInfo(iv.t)
					if sg {
						lit(fmt.Sprintf("%"+flags+string(fs[i]), sx(u, w)))
					} else {
						lit(fmt.Sprintf("%"+flags+string(fs[i]), u))
					}
					continue
				}
			}
		}
		lit(fr.fmtArg(fs[i], a, true))
	}
	return bytesToStr(out)
}

func (fr *frame) fmtArg(verb byte, a value, useMethods bool) string {
	iv, ok := a.(iface)
	if !ok {
		return fr.p.show(a, 0)
	}
	if iv.t == nil {
		return "<nil>"
	}
	if verb == 'T' {
		return iv.t.String()
	}
	if (verb == 'v' || verb == 's' || verb == 'w') && useMethods {
		for _, mn := range []string{"Error", "String"} {
			ms := fr.w.pr.methodSet(iv.t)
			if s := ms.Lookup(nil, mn); s != nil {
				f := s.Obj().(*types.Func)
				sig := f.Type().(*types.Signature)
				if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
					if p, ok := iv.v.(*value); ok && p == nil {
						return "<nil>"
					}
					fr.th.noYield++
					r := fr.th.callFn(fr, fr.w.pr.lookupMethod(iv.t, f), []value{iv.v}, nil)
					fr.th.noYield--
					return fr.p.show(r, 0)
				}
			}
		}
	}
	if w, sg := intInfo(iv.t); w > 0 {
		u := fr.p.concInt(iv.v)
		f := "%" + string(verb)
		if verb == 's' {
			f = "%d"
		}
		if sg {
			return fmt.Sprintf(f, sx(u, w))
		}
		return fmt.Sprintf(f, u)
	}
	if s, ok := iv.v.(string); ok {
		if verb == 'q' {
			return strconv.Quote(s)
		}
		return s
	}
	return fr.p.show(iv.v, 0)
}

// ---- errors ----

func (fr *frame) callMethod(iv iface, name string, args ...value) (value, bool) {
	ms := fr.w.pr.methodSet(iv.t)
	s := ms.Lookup(nil, name)
	if s == nil {
		return nil, false
	}
	f := s.Obj().(*types.Func)
	return fr.th.callFn(fr, fr.w.pr.lookupMethod(iv.t, f), append([]value{iv.v}, args...), nil), true
}

func (fr *frame) errorsIs(err, target iface) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	for depth := 0; depth < 20; depth++ {
		if types.Comparable(target.t) && fr.p.truth(fr.w.ifaceEq(err, target)) {
			return true
		}
		if s := fr.w.pr.methodSet(err.t).Lookup(nil, "Is"); s != nil {
			if r, ok := fr.callMethod(err, "Is", target); ok && fr.p.truth(r) {
				return true
			}
		}
		r, ok := fr.callMethod(err, "Unwrap")
		if !ok {
			return false
		}
		switch u := r.(type) {
		case iface:
			if u.t == nil {
				return false
			}
			err = u
		case []value:
			for _, e := range u {
				if fr.errorsIs(e.(iface), target) {
					return true
				}
			}
			return false
		}
	}
	return false
}

func (fr *frame) errorsAs(err, target iface) bool {
	if target.t == nil {
		fr.throw("errors: target cannot be nil")
	}
	pt := target.t.Underlying().(*types.Pointer).Elem()
	it, isI := pt.Underlying().(*types.Interface)
	_ = it
	ct := fr.w.pr.canon(pt)
	for depth := 0; err.t != nil && depth < 20; depth++ {
		if isI && fr.w.pr.implements(err.t, ct) {
			fr.store(target.v, err)
			return true
		}
		if !isI && err.t == ct {
			fr.store(target.v, err.v)
			return true
		}
		r, ok := fr.callMethod(err, "Unwrap")
		if !ok {
			return false
		}
		switch u := r.(type) {
		case iface:
			err = u
		case []value:
			for _, e := range u {
				if fr.errorsAs(e.(iface), target) {
					return true
				}
			}
			return false
		}
	}
	return false
}

func (fr *frame) deepEq(a, b value, d int) value {
	if d > 50 {
		panic(engineError{"DeepEqual depth"})
	}
	switch x := a.(type) {
	case iface:
		y, ok := b.(iface)
		if !ok || x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		return fr.deepEq(x.v, y.v, d+1)
	case *value:
		y, ok := b.(*value)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return fr.deepEq(*x, *y, d+1)
	case structure:
		y := b.(structure)
		return fr.deepSeq(x, y, d)
	case array:
		return fr.deepSeq(x, b.(array), d)
	case []value:
		y := b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		return fr.deepSeq(x, y, d)
	case *mapv:
		y := b.(*mapv)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if x.n != y.n {
			return false
		}
		var r value = true
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			k, ok := keyOf(e.k)
			i, hit := y.idx[k]
			if !ok || !hit {
				return false
			}
			r = fr.w.andV(r, fr.deepEq(e.v, y.ents[i].v, d+1))
		}
		return r
	case uint64:
		if y, ok := b.(uint64); ok {
			return x == y
		}
		t := b.(*Term)
		return fromTerm(fr.w.ts.Eq(t, fr.w.ts.Const(t.w, x)))
	case *Term:
		return fromTerm(fr.w.ts.Eq(x, fr.w.toTerm(b, x.w)))
	case bool:
		return fromTerm(fr.w.ts.Eq(fr.w.toTerm(x, 0), fr.w.toTerm(b, 0)))
	case string, *SymStr:
		return fr.w.strEq(a, b)
	case float64:
		return a == b
	}
	return a == b
}

func (fr *frame) deepSeq(x, y []value, d int) value {
	var r value = true
	for i := range x {
		r = fr.w.andV(r, fr.deepEq(x[i], y[i], d+1))
		if r == false {
			return false
		}
	}
	return r
}
