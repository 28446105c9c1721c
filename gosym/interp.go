package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type engineError struct{ msg string }

func (e engineError) Error() string { return e.msg }

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v   value // iface
	pos string
}

type pathAbort struct{}

var abortSentinel = &pathAbort{}

// program is shared by all workers.
type program struct {
	prog     *ssa.Program
	sizes    types.Sizes
	mu       sync.Mutex
	fns      sync.Map // *ssa.Function -> *fnInfo
	hasher   typeutil.Hasher
	canonM   typeutil.Map
	canonC   sync.Map
	canonMu  sync.Mutex
	globals  []*globalInfo
	gidx     map[*ssa.Global]int
	pkgs     map[*ssa.Package]*pkgInfo
	repoPath func(pkg string) bool

	root       []*packages.Package
	runtimeErr types.Type
	errorStr   types.Type // *errors.errorString
	valueCtx   types.Type // *context.valueCtx
	wrapErr    types.Type // *fmt.wrapError
	emptyIface types.Type

	implCache sync.Map
	methCache sync.Map
}

type globalInfo struct {
	g    *ssa.Global
	pkg  *pkgInfo
	idx  int
	zero func() value
}
type pkgInfo struct {
	pkg     *ssa.Package
	idx     int
	repo    bool
	noYield bool
	globals []*globalInfo
	init    *fnInfo
}

type fnInfo struct {
	fn        *ssa.Function
	name      string
	pkg       *pkgInfo
	once      sync.Once
	nregs     int
	params    []int
	frees     []int
	blocks    []*blockInfo
	recoverB  *blockInfo
	hasDefer  bool
	intrinsic func(fr *frame, args []value) value
	touched   atomic.Bool
	repo      bool
	noYield   bool
	ninstr    int
	zeroRes   func() value
	execs     atomic.Int64
}

type blockInfo struct {
	idx     int
	phis    []phiInfo
	instrs  []func(fr *frame)
	pos     []token.Pos
	term    func(fr *frame) *blockInfo // nil result: returned
	termPos token.Pos
	preds   []int
}
type phiInfo struct {
	dst   int
	edges []opnd
}

type frame struct {
	th        *thread
	p         *path
	w         *worker
	fi        *fnInfo
	regs      []value
	caller    *frame
	defers    *deferred
	result    value
	panicking bool
	panicV    any
	prev      int
	pos       token.Pos
	phiTmp    []value
}

type deferred struct {
	fn   *closure
	args []value
	tail *deferred
}

type opnd struct {
	k   uint8 // 0 none, 1 reg, 2 const, 3 global, 4 fresh zero
	idx int
	v   value
	z   func() value
}

func (fr *frame) get(o *opnd) value {
	switch o.k {
	case 1:
		return fr.regs[o.idx]
	case 2:
		return o.v
	case 3:
		return fr.w.global(fr, o.idx)
	case 4:
		return o.z()
	}
	return nil
}

// ---- type canonicalisation ----

func (pr *program) canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := pr.canonC.Load(t); ok {
		return c.(types.Type)
	}
	pr.canonMu.Lock()
	defer pr.canonMu.Unlock()
	t = types.Unalias(t)
	var c types.Type
	if v := pr.canonM.At(t); v != nil {
		c = v.(types.Type)
	} else {
		pr.canonM.Set(t, t)
		c = t
	}
	pr.canonC.Store(t, c)
	return c
}

type implKey struct{ t, it types.Type }

func (pr *program) implements(t, it types.Type) bool {
	k := implKey{t, it}
	if v, ok := pr.implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	pr.implCache.Store(k, r)
	return r
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (pr *program) lookupMethod(t types.Type, m *types.Func) *fnInfo {
	k := methKey{t, m}
	if v, ok := pr.methCache.Load(k); ok {
		return v.(*fnInfo)
	}
	f := pr.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(engineError{fmt.Sprintf("no method %v on %v", m, t)})
	}
	fi := pr.fnInfo(f)
	pr.methCache.Store(k, fi)
	return fi
}

// ---- functions ----

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (pr *program) pkgInfoFor(p *ssa.Package) *pkgInfo {
	if p == nil {
		return nil
	}
	pr.mu.Lock()
	pi := pr.pkgs[p]
	if pi != nil {
		pr.mu.Unlock()
		return pi
	}
	path := p.Pkg.Path()
	pi = &pkgInfo{pkg: p, idx: len(pr.pkgs), repo: pr.repoPath(path)}
	pi.noYield = !pi.repo
	pr.pkgs[p] = pi
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			gi := &globalInfo{g: g, pkg: pi, idx: len(pr.globals), zero: zeroFn(deref(g.Type()))}
			pr.globals = append(pr.globals, gi)
			pr.gidx[g] = gi.idx
			pi.globals = append(pi.globals, gi)
		}
	}
	pr.mu.Unlock()
	if f := p.Func("init"); f != nil {
		pi.init = pr.fnInfo(f)
	}
	return pi
}

func (pr *program) fnInfo(f *ssa.Function) *fnInfo {
	if v, ok := pr.fns.Load(f); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{fn: f, name: fnName(f)}
	v, loaded := pr.fns.LoadOrStore(f, fi)
	if loaded {
		return v.(*fnInfo)
	}
	return fi
}

func (fi *fnInfo) prepare(pr *program) {
	fi.once.Do(func() {
		pkg := fi.fn.Pkg
		if pkg == nil && fi.fn.Origin() != nil {
			pkg = fi.fn.Origin().Pkg
		}
		if pkg == nil && fi.fn.Parent() != nil {
			for q := fi.fn; q != nil; q = q.Parent() {
				if q.Pkg != nil {
					pkg = q.Pkg
				} else if q.Origin() != nil && q.Origin().Pkg != nil {
					pkg = q.Origin().Pkg
				}
			}
		}
		if pkg == nil && fi.fn.Object() != nil && fi.fn.Object().Pkg() != nil {
			pkg = pr.prog.Package(fi.fn.Object().Pkg())
		}
		fi.pkg = pr.pkgInfoFor(pkg)
		fi.noYield = true
		if fi.pkg != nil {
			fi.noYield = fi.pkg.noYield
			pos := pr.prog.Fset.Position(fi.fn.Pos())
			fi.repo = fi.pkg.repo && !strings.Contains(pos.Filename, "zz_verif")
		}
		fi.intrinsic = lookupIntrinsic(fi)
		if fi.intrinsic != nil {
			return
		}
		if fi.fn.Blocks == nil {
			if strings.HasSuffix(fi.name, ".init") {
				return
			}
			name := fi.name
			fi.intrinsic = func(fr *frame, args []value) value {
				panic(engineError{"no body for function " + name})
			}
			return
		}
		pr.compile(fi)
	})
}

// ---- compilation ----

type compiler struct {
	pr   *program
	fi   *fnInfo
	regs map[ssa.Value]int
	bl   []*blockInfo
}

func (pr *program) compile(fi *fnInfo) {
	f := fi.fn
	c := &compiler{pr: pr, fi: fi, regs: map[ssa.Value]int{}}
	alloc := func(v ssa.Value) int {
		n := fi.nregs
		fi.nregs++
		c.regs[v] = n
		return n
	}
	for _, p := range f.Params {
		fi.params = append(fi.params, alloc(p))
	}
	for _, p := range f.FreeVars {
		fi.frees = append(fi.frees, alloc(p))
	}
	for _, b := range f.Blocks {
		bi := &blockInfo{idx: b.Index}
		for _, p := range b.Preds {
			bi.preds = append(bi.preds, p.Index)
		}
		c.bl = append(c.bl, bi)
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
			switch in.(type) {
			case *ssa.Defer:
				fi.hasDefer = true
			}
			fi.ninstr++
		}
	}
	for i, b := range f.Blocks {
		bi := c.bl[i]
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				pi := phiInfo{dst: c.regs[phi]}
				for _, e := range phi.Edges {
					pi.edges = append(pi.edges, c.op(e))
				}
				bi.phis = append(bi.phis, pi)
				continue
			}
			c.instr(bi, in)
		}
	}
	fi.blocks = c.bl
	if f.Recover != nil {
		fi.recoverB = c.bl[f.Recover.Index]
		fi.hasDefer = true
	}
	res := f.Signature.Results()
	if res.Len() == 1 {
		fi.zeroRes = zeroFn(res.At(0).Type())
	} else if res.Len() > 1 {
		fi.zeroRes = zeroFn(res)
	} else {
		fi.zeroRes = func() value { return nil }
	}
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{}
	case *ssa.Const:
		return constOpnd(v)
	case *ssa.Function:
		return opnd{k: 2, v: &closure{fi: c.pr.fnInfo(v)}}
	case *ssa.Builtin:
		return opnd{k: 2, v: &closure{bi: v.Name()}}
	case *ssa.Global:
		c.pr.pkgInfoFor(v.Pkg)
		c.pr.mu.Lock()
		i, ok := c.pr.gidx[v]
		if !ok { // e.g. synthetic globals
			pi := c.pr.pkgs[v.Pkg]
			gi := &globalInfo{g: v, pkg: pi, idx: len(c.pr.globals), zero: zeroFn(deref(v.Type()))}
			c.pr.globals = append(c.pr.globals, gi)
			c.pr.gidx[v] = gi.idx
			pi.globals = append(pi.globals, gi)
			i = gi.idx
		}
		c.pr.mu.Unlock()
		return opnd{k: 3, idx: i}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(engineError{fmt.Sprintf("no register for %v in %s", v, c.fi.name)})
	}
	return opnd{k: 1, idx: r}
}

func constOpnd(k *ssa.Const) opnd {
	t := k.Type()
	if k.Value == nil {
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return opnd{k: 4, z: zeroFn(t)}
		case *types.TypeParam:
			panic(engineError{"const of type parameter"})
		}
		return opnd{k: 2, v: zeroFn(t)()}
	}
	if b := basicOf(t); b != nil {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return opnd{k: 2, v: constant.BoolVal(k.Value)}
		case b.Info()&types.IsInteger != 0:
			w, _ := intInfo(t)
			var u uint64
			iv := constant.ToInt(k.Value)
			if i, ok := constant.Int64Val(iv); ok {
				u = uint64(i)
			} else if x, ok := constant.Uint64Val(iv); ok {
				u = x
			} else {
				panic(engineError{"big constant"})
			}
			if b.Kind() == types.UnsafePointer {
				return opnd{k: 2, v: uptr{}}
			}
			return opnd{k: 2, v: u & mask(w)}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(k.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return opnd{k: 2, v: f}
		case b.Info()&types.IsComplex != 0:
			return opnd{k: 2, v: complex(0, 0)}
		case b.Info()&types.IsString != 0:
			if k.Value.Kind() == constant.String {
				return opnd{k: 2, v: constant.StringVal(k.Value)}
			}
			i, _ := constant.Int64Val(k.Value)
			return opnd{k: 2, v: string(rune(i))}
		}
	}
	panic(engineError{fmt.Sprintf("constant %v of type %v", k, t)})
}

func (c *compiler) instr(bi *blockInfo, in ssa.Instruction) {
	var dst int
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	add := func(f func(fr *frame)) {
		bi.instrs = append(bi.instrs, f)
		bi.pos = append(bi.pos, in.Pos())
	}
	pr := c.pr
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		x := c.op(in.X)
		switch in.Op {
		case token.MUL:
			add(func(fr *frame) { fr.regs[dst] = fr.load(fr.get(&x)) })
		case token.ARROW:
			ez := zeroFn(in.X.Type().Underlying().(*types.Chan).Elem())
			commaOk := in.CommaOk
			add(func(fr *frame) {
				ch, _ := fr.get(&x).(*chanv)
				v, ok := fr.th.recv(fr, ch)
				if v == nil && !ok {
					v = ez()
				}
				if commaOk {
					fr.regs[dst] = tuple{v, ok}
				} else {
					fr.regs[dst] = v
				}
			})
		case token.NOT:
			add(func(fr *frame) {
				switch v := fr.get(&x).(type) {
				case bool:
					fr.regs[dst] = !v
				case *Term:
					fr.regs[dst] = fromTerm(fr.w.ts.Not(v))
				}
			})
		case token.SUB:
			w, _ := intInfo(in.X.Type())
			add(func(fr *frame) {
				switch v := fr.get(&x).(type) {
				case uint64:
					fr.regs[dst] = -v & mask(w)
				case float64:
					fr.regs[dst] = -v
				case *Term:
					if v.w == wF64 {
						fr.regs[dst] = fr.w.ts.Fop(opFNeg, wF64, v)
					} else {
						fr.regs[dst] = fr.w.ts.Neg(v)
					}
				default:
					panic(engineError{"negation of " + fmt.Sprintf("%T", v)})
				}
			})
		case token.XOR:
			w, _ := intInfo(in.X.Type())
			add(func(fr *frame) {
				switch v := fr.get(&x).(type) {
				case uint64:
					fr.regs[dst] = ^v & mask(w)
				case *Term:
					fr.regs[dst] = fr.w.ts.BNot(v)
				}
			})
		default:
			panic(engineError{"unop " + in.Op.String()})
		}
	case *ssa.BinOp:
		x, y := c.op(in.X), c.op(in.Y)
		f := pr.binop(in.Op, in.X.Type(), in.Y.Type())
		add(func(fr *frame) { fr.regs[dst] = f(fr, fr.get(&x), fr.get(&y)) })
	case *ssa.Call:
		call := c.call(&in.Call)
		add(func(fr *frame) { fr.regs[dst] = call(fr) })
	case *ssa.ChangeInterface:
		x := c.op(in.X)
		add(func(fr *frame) { fr.regs[dst] = fr.get(&x) })
	case *ssa.ChangeType:
		x := c.op(in.X)
		add(func(fr *frame) { fr.regs[dst] = fr.get(&x) })
	case *ssa.Convert:
		x := c.op(in.X)
		f := pr.conv(in.Type(), in.X.Type())
		add(func(fr *frame) { fr.regs[dst] = f(fr, fr.get(&x)) })
	case *ssa.MultiConvert:
		x := c.op(in.X)
		f := pr.conv(in.Type(), in.X.Type())
		add(func(fr *frame) { fr.regs[dst] = f(fr, fr.get(&x)) })
	case *ssa.SliceToArrayPointer:
		x := c.op(in.X)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		add(func(fr *frame) {
			s := fr.get(&x).([]value)
			if int64(len(s)) < n {
				fr.throw("slice to array pointer: length too short")
			}
			var cell value = array(s[:n:n])
			fr.regs[dst] = &cell
		})
	case *ssa.MakeInterface:
		x := c.op(in.X)
		t := pr.canon(in.X.Type())
		add(func(fr *frame) { fr.regs[dst] = iface{t, copyVal(fr.get(&x))} })
	case *ssa.Extract:
		x := c.op(in.Tuple)
		i := in.Index
		add(func(fr *frame) { fr.regs[dst] = fr.get(&x).(tuple)[i] })
	case *ssa.Slice:
		x, lo, hi, mx := c.op(in.X), c.op(in.Low), c.op(in.High), c.op(in.Max)
		var ez func() value
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			ez = zeroFn(u.Elem())
		case *types.Pointer:
		}
		add(func(fr *frame) {
			fr.regs[dst] = fr.slice(fr.get(&x), fr.get(&lo), fr.get(&hi), fr.get(&mx), ez)
		})
	case *ssa.Return:
		bi.termPos = in.Pos()
		switch len(in.Results) {
		case 0:
			bi.term = func(fr *frame) *blockInfo { return nil }
		case 1:
			x := c.op(in.Results[0])
			bi.term = func(fr *frame) *blockInfo { fr.result = fr.get(&x); return nil }
		default:
			var ops []opnd
			for _, r := range in.Results {
				ops = append(ops, c.op(r))
			}
			bi.term = func(fr *frame) *blockInfo {
				t := make(tuple, len(ops))
				for i := range ops {
					t[i] = fr.get(&ops[i])
				}
				fr.result = t
				return nil
			}
		}
	case *ssa.RunDefers:
		add(func(fr *frame) { fr.runDefers() })
	case *ssa.Panic:
		x := c.op(in.X)
		bi.termPos = in.Pos()
		bi.term = func(fr *frame) *blockInfo {
			fr.pos = bi.termPos
			v := fr.get(&x)
			panic(targetPanic{v, fr.where()})
		}
	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		add(func(fr *frame) {
			cv, _ := fr.get(&ch).(*chanv)
			fr.th.send(fr, cv, copyVal(fr.get(&x)))
		})
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		add(func(fr *frame) { fr.store(fr.get(&a), fr.get(&v)) })
	case *ssa.If:
		x := c.op(in.Cond)
		t, e := c.bl[in.Block().Succs[0].Index], c.bl[in.Block().Succs[1].Index]
		bi.termPos = in.Pos()
		bi.term = func(fr *frame) *blockInfo {
			switch v := fr.get(&x).(type) {
			case bool:
				if v {
					return t
				}
				return e
			case *Term:
				if fr.p.branch(v) {
					return t
				}
				return e
			}
			panic(engineError{"if on non-bool"})
		}
	case *ssa.Jump:
		t := c.bl[in.Block().Succs[0].Index]
		bi.termPos = in.Pos()
		bi.term = func(fr *frame) *blockInfo { return t }
	case *ssa.Defer:
		prep := c.prepCall(&in.Call)
		var ds opnd
		if in.DeferStack != nil {
			ds = c.op(in.DeferStack)
		}
		add(func(fr *frame) {
			fn, args := prep(fr)
			target := &fr.defers
			if ds.k != 0 {
				if d, ok := fr.get(&ds).(**deferred); ok {
					target = d
				}
			}
			*target = &deferred{fn: fn, args: args, tail: *target}
		})
	case *ssa.Go:
		prep := c.prepCall(&in.Call)
		pos := in.Pos()
		add(func(fr *frame) {
			fn, args := prep(fr)
			fr.p.spawn(pr.shortPos(pos), func(th *thread) { th.call(nil, fn, args) })
		})
	case *ssa.MakeChan:
		x := c.op(in.Size)
		add(func(fr *frame) {
			n := fr.p.concInt(fr.get(&x))
			fr.regs[dst] = fr.p.newChan(int(int64(n)))
		})
	case *ssa.Alloc:
		z := zeroFn(deref(in.Type()))
		add(func(fr *frame) {
			p := new(value)
			*p = z()
			fr.regs[dst] = p
		})
	case *ssa.MakeSlice:
		ln, cp := c.op(in.Len), c.op(in.Cap)
		ez := zeroFn(in.Type().Underlying().(*types.Slice).Elem())
		add(func(fr *frame) {
			n, m := int64(fr.p.concInt(fr.get(&ln))), int64(fr.p.concInt(fr.get(&cp)))
			if n < 0 || m < n {
				fr.throw("makeslice: len out of range")
			}
			if m > 1<<22 {
				panic(engineError{"makeslice too large"})
			}
			s := make([]value, m)
			for i := range s {
				s[i] = ez()
			}
			fr.regs[dst] = s[:n]
		})
	case *ssa.MakeMap:
		add(func(fr *frame) { fr.regs[dst] = newMap() })
	case *ssa.Range:
		x := c.op(in.X)
		_, isMap := in.X.Type().Underlying().(*types.Map)
		add(func(fr *frame) {
			v := fr.get(&x)
			if isMap {
				m, _ := v.(*mapv)
				fr.regs[dst] = fr.p.newMapIter(m, fr)
			} else {
				fr.regs[dst] = &strIter{s: v}
			}
		})
	case *ssa.Next:
		x := c.op(in.Iter)
		if in.IsString {
			add(func(fr *frame) { fr.regs[dst] = fr.get(&x).(*strIter).next(fr) })
		} else {
			add(func(fr *frame) { fr.regs[dst] = fr.get(&x).(*mapIter).next() })
		}
	case *ssa.FieldAddr:
		x := c.op(in.X)
		i := in.Field
		add(func(fr *frame) {
			p, ok := fr.get(&x).(*value)
			if !ok {
				panic(engineError{fmt.Sprintf("FieldAddr through %T", fr.get(&x))})
			}
			if p == nil {
				fr.throwNil()
			}
			s, ok := (*p).(structure)
			if !ok {
				panic(engineError{fmt.Sprintf("FieldAddr on cell holding %T", *p)})
			}
			fr.regs[dst] = &s[i]
		})
	case *ssa.Field:
		x := c.op(in.X)
		i := in.Field
		add(func(fr *frame) { fr.regs[dst] = fr.get(&x).(structure)[i] })
	case *ssa.IndexAddr:
		x, ix := c.op(in.X), c.op(in.Index)
		var elem types.Type
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			elem = u.Elem()
		case *types.Pointer:
			elem = u.Elem().Underlying().(*types.Array).Elem()
		}
		byteElem := isByte(elem)
		iw, isg := intInfo(in.Index.Type())
		add(func(fr *frame) {
			var s []value
			switch v := fr.get(&x).(type) {
			case []value:
				s = v
			case *value:
				if v == nil {
					fr.throwNil()
				}
				s = (*v).(array)
			default:
				panic(engineError{fmt.Sprintf("IndexAddr on %T", v)})
			}
			i := fr.index(fr.get(&ix), len(s), iw, isg)
			if byteElem {
				fr.regs[dst] = bptr{s[i:cap(s)]}
			} else {
				fr.regs[dst] = &s[i]
			}
		})
	case *ssa.Index:
		x, ix := c.op(in.X), c.op(in.Index)
		iw, isg := intInfo(in.Index.Type())
		add(func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case array:
				fr.regs[dst] = v[fr.index(fr.get(&ix), len(v), iw, isg)]
			case string:
				fr.regs[dst] = byteVals[v[fr.index(fr.get(&ix), len(v), iw, isg)]]
			case *SymStr:
				fr.regs[dst] = v.b[fr.index(fr.get(&ix), len(v.b), iw, isg)]
			default:
				panic(engineError{fmt.Sprintf("Index on %T", v)})
			}
		})
	case *ssa.Lookup:
		x, ix := c.op(in.X), c.op(in.Index)
		commaOk := in.CommaOk
		mt, isMap := in.X.Type().Underlying().(*types.Map)
		if !isMap {
			iw, isg := intInfo(in.Index.Type())
			add(func(fr *frame) {
				b := fr.get(&x)
				i := fr.index(fr.get(&ix), strLen(b), iw, isg)
				switch v := b.(type) {
				case string:
					fr.regs[dst] = byteVals[v[i]]
				case *SymStr:
					fr.regs[dst] = v.b[i]
				}
			})
			break
		}
		ez := zeroFn(mt.Elem())
		kt := mt.Key()
		add(func(fr *frame) {
			m, _ := fr.get(&x).(*mapv)
			i := fr.p.mapFind(m, fr.get(&ix), kt)
			var v value
			if i >= 0 {
				v = copyVal(m.ents[i].v)
			} else {
				v = ez()
			}
			if commaOk {
				fr.regs[dst] = tuple{v, i >= 0}
			} else {
				fr.regs[dst] = v
			}
		})
	case *ssa.MapUpdate:
		x, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		add(func(fr *frame) {
			m, _ := fr.get(&x).(*mapv)
			if m == nil {
				fr.throw("assignment to entry in nil map")
			}
			fr.p.mapSet(m, fr.get(&k), fr.get(&v), kt)
		})
	case *ssa.TypeAssert:
		x := c.op(in.X)
		at := pr.canon(in.AssertedType)
		_, isI := at.Underlying().(*types.Interface)
		z := zeroFn(in.AssertedType)
		commaOk := in.CommaOk
		add(func(fr *frame) {
			v := fr.get(&x).(iface)
			var ok bool
			var r value
			if isI {
				ok = v.t != nil && pr.implements(v.t, at)
				r = v
			} else {
				ok = v.t == at
				r = v.v
			}
			if commaOk {
				if !ok {
					r = z()
				}
				fr.regs[dst] = tuple{r, ok}
				return
			}
			if !ok {
				fr.throw(fmt.Sprintf("interface conversion: interface is %v, not %v", v.t, at))
			}
			fr.regs[dst] = r
		})
	case *ssa.MakeClosure:
		fi := pr.fnInfo(in.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range in.Bindings {
			bs = append(bs, c.op(b))
		}
		add(func(fr *frame) {
			env := make([]value, len(bs))
			for i := range bs {
				env[i] = fr.get(&bs[i])
			}
			fr.regs[dst] = &closure{fi: fi, env: env}
		})
	case *ssa.Select:
		type st struct {
			ch, send opnd
			recv     bool
			z        func() value
		}
		var sts []st
		for _, s := range in.States {
			x := st{ch: c.op(s.Chan), recv: s.Dir == types.RecvOnly}
			if s.Send != nil {
				x.send = c.op(s.Send)
			}
			x.z = zeroFn(s.Chan.Type().Underlying().(*types.Chan).Elem())
			sts = append(sts, x)
		}
		blocking := in.Blocking
		add(func(fr *frame) {
			cases := make([]selCase, len(sts))
			for i := range sts {
				ch, _ := fr.get(&sts[i].ch).(*chanv)
				cases[i] = selCase{ch: ch, recv: sts[i].recv}
				if !sts[i].recv {
					cases[i].val = copyVal(fr.get(&sts[i].send))
				}
			}
			chosen, v, ok := fr.th.sel(fr, cases, blocking)
			r := tuple{uint64(int64(chosen)), ok}
			for i := range sts {
				if sts[i].recv {
					if i == chosen && ok {
						r = append(r, v)
					} else {
						r = append(r, sts[i].z())
					}
				}
			}
			fr.regs[dst] = r
		})
	default:
		panic(engineError{fmt.Sprintf("instruction %T", in)})
	}
}

// prepCall returns a function evaluating callee and arguments.
func (c *compiler) prepCall(call *ssa.CallCommon) func(fr *frame) (*closure, []value) {
	pr := c.pr
	v := c.op(call.Value)
	var ops []opnd
	for _, a := range call.Args {
		ops = append(ops, c.op(a))
	}
	if call.Method != nil {
		m := call.Method
		return func(fr *frame) (*closure, []value) {
			recv, ok := fr.get(&v).(iface)
			if !ok {
				panic(engineError{fmt.Sprintf("invoke %v on %T", m, fr.get(&v))})
			}
			if recv.t == nil {
				fr.throwNil()
			}
			args := make([]value, len(ops)+1)
			args[0] = recv.v
			for i := range ops {
				args[i+1] = fr.get(&ops[i])
			}
			return &closure{fi: pr.lookupMethod(recv.t, m)}, args
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		f := pr.builtin(b, call)
		name := b.Name()
		return func(fr *frame) (*closure, []value) {
			args := make([]value, len(ops))
			for i := range ops {
				args[i] = fr.get(&ops[i])
			}
			return &closure{native: func(fr *frame, a []value) value { return f(fr, a) }, bi: name}, args
		}
	}
	return func(fr *frame) (*closure, []value) {
		fn, _ := fr.get(&v).(*closure)
		args := make([]value, len(ops))
		for i := range ops {
			args[i] = fr.get(&ops[i])
		}
		return fn, args
	}
}

func (c *compiler) call(call *ssa.CallCommon) func(fr *frame) value {
	pr := c.pr
	var ops []opnd
	for _, a := range call.Args {
		ops = append(ops, c.op(a))
	}
	if call.Method == nil {
		if b, ok := call.Value.(*ssa.Builtin); ok {
			f := pr.builtin(b, call)
			return func(fr *frame) value {
				args := make([]value, len(ops))
				for i := range ops {
					args[i] = fr.get(&ops[i])
				}
				return f(fr, args)
			}
		}
		if f, ok := call.Value.(*ssa.Function); ok {
			fi := pr.fnInfo(f)
			if f.Name() == "init" && f.Synthetic != "" && f.Pkg != c.fi.fn.Pkg {
				return func(fr *frame) value { return nil } // package initialisers run on demand
			}
			return func(fr *frame) value {
				args := make([]value, len(ops))
				for i := range ops {
					args[i] = fr.get(&ops[i])
				}
				return fr.th.callFn(fr, fi, args, nil)
			}
		}
	}
	prep := c.prepCall(call)
	return func(fr *frame) value {
		fn, args := prep(fr)
		return fr.th.call(fr, fn, args)
	}
}

func (th *thread) call(fr *frame, fn *closure, args []value) value {
	if fn == nil {
		if fr == nil {
			panic(targetPanic{iface{nil, "call of nil function"}, "go"})
		}
		fr.throwNil()
	}
	if fn.native != nil {
		if fr == nil {
			fr = &frame{th: th, p: th.p, w: th.p.w, fi: nativeFn}
		}
		return fn.native(fr, args)
	}
	return th.callFn(fr, fn.fi, args, fn.env)
}

var nativeFn = &fnInfo{name: "(native)", noYield: false}

const maxDepth = 4000

func (th *thread) callFn(caller *frame, fi *fnInfo, args []value, env []value) value {
	pr := th.p.w.pr
	fi.prepare(pr)
	if fi.intrinsic != nil {
		if caller == nil {
			caller = &frame{th: th, p: th.p, w: th.p.w, fi: nativeFn}
		}
		return fi.intrinsic(caller, args)
	}
	if fi.blocks == nil {
		return nil
	}
	fr := &frame{th: th, p: th.p, w: th.p.w, fi: fi, caller: caller}
	if fi.repo && !fi.touched.Load() {
		fi.touched.Store(true)
	}
	th.depth++
	if th.depth > maxDepth {
		panic(engineError{"call depth"})
	}
	prevTop := th.top
	th.top = fr
	fr.regs = make([]value, fi.nregs)
	for i, r := range fi.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fi.frees {
		fr.regs[r] = env[i]
	}
	if !fi.hasDefer {
		fr.run(fi.blocks[0])
	} else {
		b := fi.blocks[0]
		for b != nil {
			b = fr.runProtected(b)
		}
	}
	th.top = prevTop
	th.depth--
	return fr.result
}

// runProtected runs from b; after a recovered panic it returns the recover block.
func (fr *frame) runProtected(b *blockInfo) (next *blockInfo) {
	completed := false
	th := fr.th
	depth := th.depth
	defer func() {
		if completed {
			return
		}
		r := recover()
		if r == nil {
			r = abortSentinel // runtime.Goexit or similar
		}
		if _, ok := r.(targetPanic); !ok {
			panic(r)
		}
		fr.panicking = true
		fr.panicV = r
		th.depth = depth
		th.top = fr
		fr.runDefers()
		// recovered
		if fr.fi.recoverB != nil {
			next = fr.fi.recoverB
		} else {
			fr.result = fr.fi.zeroRes()
		}
	}()
	fr.run(b)
	completed = true
	return nil
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	depth := fr.th.depth
	defer func() {
		if ok {
			return
		}
		r := recover()
		if _, isT := r.(targetPanic); !isT {
			panic(r)
		}
		fr.panicking = true
		fr.panicV = r
		fr.th.depth = depth
		fr.th.top = fr
	}()
	fr.th.call(fr, d.fn, d.args)
	ok = true
}

func (fr *frame) doRecover() value {
	c := fr.caller
	if c != nil && c.panicking && !fr.panicking {
		c.panicking = false
		p := c.panicV.(targetPanic)
		c.panicV = nil
		if i, ok := p.v.(iface); ok {
			return i
		}
		return iface{}
	}
	return iface{}
}

func (fr *frame) run(b *blockInfo) {
	for {
		if len(b.phis) > 0 {
			pi := 0
			for i, q := range b.preds {
				if q == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = fr.get(&b.phis[0].edges[pi])
			} else {
				tmp := fr.phiTmp[:0]
				for i := range b.phis {
					tmp = append(tmp, fr.get(&b.phis[i].edges[pi]))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
				fr.phiTmp = tmp
			}
		}
		p := fr.p
		p.steps += int64(len(b.instrs)) + 1
		if p.steps > p.maxSteps {
			p.stepLimit(fr)
		}
		for i, f := range b.instrs {
			fr.pos = b.pos[i]
			f(fr)
		}
		fr.prev = b.idx
		n := b.term(fr)
		if n == nil {
			return
		}
		b = n
	}
}

// ---- errors of the target program ----

func (fr *frame) throw(msg string) {
	panic(targetPanic{iface{fr.w.pr.runtimeErr, msg}, fr.where()})
}
func (fr *frame) throwNil() {
	fr.throw("invalid memory address or nil pointer dereference")
}

func (pr *program) shortPos(pos token.Pos) string {
	p := pr.prog.Fset.Position(pos)
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (fr *frame) where() string {
	var sb strings.Builder
	n := 0
	for f := fr; f != nil && n < 12; f = f.caller {
		if f.fi == nativeFn {
			continue
		}
		if n > 0 {
			sb.WriteString(" < ")
		}
		fmt.Fprintf(&sb, "%s", shortFn(f.fi.name))
		if f.pos.IsValid() {
			sb.WriteString("@" + fr.w.pr.shortPos(f.pos))
		}
		n++
	}
	return sb.String()
}

func shortFn(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		pre := ""
		if strings.HasPrefix(n, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(n, "(") {
			pre = "("
		}
		return pre + n[i+1:]
	}
	return n
}

// ---- memory ----

func (fr *frame) load(p value) value {
	switch p := p.(type) {
	case *value:
		if p == nil {
			fr.throwNil()
		}
		v := *p
		switch v.(type) {
		case structure, array:
			return copyVal(v)
		}
		return v
	case bptr:
		if p.a == nil {
			fr.throwNil()
		}
		return p.a[0]
	case castPtr:
		if len(p.a) < p.n {
			fr.throw(fmt.Sprintf("unsafe read of %d bytes beyond the end of a %d byte object", p.n, len(p.a)))
		}
		return fr.w.leLoad(p.a, p.n)
	case strView:
		return bytesToStr((*p.p).([]value))
	}
	panic(engineError{fmt.Sprintf("load through %T", p)})
}

func (w *worker) leLoad(a []value, n int) value {
	var u uint64
	conc := true
	for i := n - 1; i >= 0; i-- {
		b, ok := a[i].(uint64)
		if !ok {
			conc = false
			break
		}
		u = u<<8 | b
	}
	if conc {
		return u
	}
	t := w.toTerm(a[n-1], 8)
	for i := n - 2; i >= 0; i-- {
		t = w.ts.Concat(t, w.toTerm(a[i], 8))
	}
	return fromTerm(t)
}

func (fr *frame) store(p, v value) {
	switch p := p.(type) {
	case *value:
		if p == nil {
			fr.throwNil()
		}
		storeVal(p, v)
	case bptr:
		if p.a == nil {
			fr.throwNil()
		}
		p.a[0] = v
	case castPtr:
		if len(p.a) < p.n {
			fr.throw(fmt.Sprintf("unsafe write of %d bytes beyond the end of a %d byte object", p.n, len(p.a)))
		}
		for i := 0; i < p.n; i++ {
			switch x := v.(type) {
			case uint64:
				p.a[i] = byteVals[byte(x>>(8*i))]
			case *Term:
				p.a[i] = fromTerm(fr.w.ts.Extract(x, uint8(8*i+7), uint8(8*i)))
			}
		}
	default:
		panic(engineError{fmt.Sprintf("store through %T", p)})
	}
}

// index checks an index and returns it as a concrete value.
func (fr *frame) index(ix value, n int, iw uint8, signed bool) int {
	switch i := ix.(type) {
	case uint64:
		if signed {
			if s := sx(i, iw); s < 0 || s >= int64(n) {
				fr.throw(fmt.Sprintf("index out of range [%d] with length %d", s, n))
			}
		} else if i >= uint64(n) {
			fr.throw(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	case *Term:
		t := i
		if t.w < 64 {
			if signed {
				t = fr.w.ts.Sext(t, 64)
			} else {
				t = fr.w.ts.Zext(t, 64)
			}
		}
		if !fr.p.branch(fr.w.ts.Cmp(opUlt, t, fr.w.ts.Const(64, uint64(n)))) {
			fr.throw(fmt.Sprintf("index out of range with length %d", n))
		}
		return int(fr.p.concretize(t))
	}
	panic(engineError{fmt.Sprintf("index %T", ix)})
}

func (fr *frame) slice(x, lo, hi, max value, ez func() value) value {
	var s []value
	switch v := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		l, h := 0, n
		if lo != nil {
			l = int(int64(fr.p.concInt(lo)))
		}
		if hi != nil {
			h = int(int64(fr.p.concInt(hi)))
		}
		if h < 0 || h > n {
			fr.throw(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
		}
		if l < 0 || l > h {
			fr.throw(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if st, ok := v.(string); ok {
			return st[l:h]
		}
		return bytesToStr(v.(*SymStr).b[l:h])
	case []value:
		s = v
	case *value:
		if v == nil {
			fr.throwNil()
		}
		s = []value((*v).(array))
	default:
		panic(engineError{fmt.Sprintf("slice of %T", x)})
	}
	l, h, m := 0, len(s), cap(s)
	if lo != nil {
		l = int(int64(fr.p.concInt(lo)))
	}
	if hi != nil {
		h = int(int64(fr.p.concInt(hi)))
	}
	if max != nil {
		m = int(int64(fr.p.concInt(max)))
	}
	if m < 0 || m > cap(s) || h < 0 || h > m {
		fr.throw(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, cap(s)))
	}
	if l < 0 || l > h {
		fr.throw(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
	}
	if h > len(s) && ez != nil {
		full := s[:h]
		for i := len(s); i < h; i++ {
			if full[i] == nil {
				full[i] = ez()
			}
		}
	}
	if s == nil {
		return s
	}
	return s[l:h:m]
}

// ---- terms <-> values ----

func fromTerm(t *Term) value {
	if t.op == opConst {
		if t.w == 0 {
			return t.val == 1
		}
		if t.w == wF64 {
			return math.Float64frombits(t.val)
		}
		return t.val
	}
	return t
}

func (w *worker) toTerm(v value, width uint8) *Term {
	switch v := v.(type) {
	case uint64:
		return w.ts.Const(width, v)
	case bool:
		return w.ts.Bool(v)
	case *Term:
		return v
	case float64:
		return w.ts.mk(termKey{op: opConst, w: wF64, val: math.Float64bits(v)})
	}
	panic(engineError{fmt.Sprintf("term of %T", v)})
}

// ---- equality ----

type eqFn func(w *worker, x, y value) value

func (w *worker) andV(x, y value) value {
	if b, ok := x.(bool); ok {
		if !b {
			return false
		}
		return y
	}
	if b, ok := y.(bool); ok {
		if !b {
			return false
		}
		return x
	}
	return fromTerm(w.ts.And(x.(*Term), y.(*Term)))
}

var eqCache sync.Map

func (w *worker) eqFor(t types.Type) eqFn {
	if f, ok := eqCache.Load(t); ok {
		return f.(eqFn)
	}
	f := w.pr.mkEq(t)
	eqCache.Store(t, f)
	return f
}

func (pr *program) mkEq(t types.Type) eqFn {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0 && u.Kind() != types.UnsafePointer:
			wd, _ := intInfo(t)
			return func(w *worker, x, y value) value {
				a, ok1 := x.(uint64)
				b, ok2 := y.(uint64)
				if ok1 && ok2 {
					return a == b
				}
				if _, ok := x.(uptr); ok {
					return ptrEq(x, y)
				}
				return fromTerm(w.ts.Eq(w.toTerm(x, wd), w.toTerm(y, wd)))
			}
		case u.Info()&types.IsBoolean != 0:
			return func(w *worker, x, y value) value {
				a, ok1 := x.(bool)
				b, ok2 := y.(bool)
				if ok1 && ok2 {
					return a == b
				}
				return fromTerm(w.ts.Eq(w.toTerm(x, 0), w.toTerm(y, 0)))
			}
		case u.Info()&types.IsString != 0:
			return func(w *worker, x, y value) value { return w.strEq(x, y) }
		case u.Info()&types.IsFloat != 0:
			return func(w *worker, x, y value) value {
				a, ok1 := x.(float64)
				b, ok2 := y.(float64)
				if ok1 && ok2 {
					return a == b
				}
				return fromTerm(w.ts.Fop(opFEq, 0, w.toTerm(x, wF64), w.toTerm(y, wF64)))
			}
		}
		return func(w *worker, x, y value) value { return ptrEq(x, y) }
	case *types.Struct:
		var fs []eqFn
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				fs = append(fs, nil)
				continue
			}
			fs = append(fs, pr.mkEq(u.Field(i).Type()))
		}
		return func(w *worker, x, y value) value {
			a, b := x.(structure), y.(structure)
			var r value = true
			for i, f := range fs {
				if f == nil {
					continue
				}
				r = w.andV(r, f(w, a[i], b[i]))
				if r == false {
					return false
				}
			}
			return r
		}
	case *types.Array:
		f := pr.mkEq(u.Elem())
		return func(w *worker, x, y value) value {
			a, b := x.(array), y.(array)
			var r value = true
			for i := range a {
				r = w.andV(r, f(w, a[i], b[i]))
				if r == false {
					return false
				}
			}
			return r
		}
	case *types.Interface:
		return func(w *worker, x, y value) value { return w.ifaceEq(x, y) }
	case *types.Slice:
		return func(w *worker, x, y value) value {
			a, _ := x.([]value)
			b, _ := y.([]value)
			return a == nil && b == nil
		}
	case *types.Map:
		return func(w *worker, x, y value) value {
			a, _ := x.(*mapv)
			b, _ := y.(*mapv)
			return a == b
		}
	case *types.Signature:
		return func(w *worker, x, y value) value {
			a, _ := x.(*closure)
			b, _ := y.(*closure)
			return a == b
		}
	case *types.Chan:
		return func(w *worker, x, y value) value {
			a, _ := x.(*chanv)
			b, _ := y.(*chanv)
			return a == b
		}
	}
	return func(w *worker, x, y value) value { return ptrEq(x, y) }
}

func ptrEq(x, y value) bool {
	if isNilPtr(x) || isNilPtr(y) {
		return isNilPtr(x) && isNilPtr(y)
	}
	k1, ok1 := keyOf2(x)
	k2, ok2 := keyOf2(y)
	if !ok1 || !ok2 {
		panic(engineError{fmt.Sprintf("pointer comparison of %T and %T", x, y)})
	}
	return k1 == k2
}
func keyOf2(v value) (any, bool) {
	switch v := v.(type) {
	case *value:
		return v, true
	case bptr:
		return &v.a[0], true
	case castPtr:
		return &v.a[0], true
	case uptr:
		return keyOf2(v.p)
	case *chanv, *mapv:
		return v, true
	case **deferred:
		return v, true
	}
	return nil, false
}

func (w *worker) ifaceEq(x, y value) value {
	a, _ := x.(iface)
	b, _ := y.(iface)
	if a.t != b.t {
		return false
	}
	if a.t == nil {
		return true
	}
	if !types.Comparable(a.t) {
		panic(targetPanic{iface{w.pr.runtimeErr, "comparing uncomparable type " + a.t.String()}, ""})
	}
	return w.eqFor(a.t)(w, a.v, b.v)
}

func (w *worker) strEq(x, y value) value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		return a == b
	}
	if strLen(x) != strLen(y) {
		return false
	}
	return w.bytesEq(strBytes(x), strBytes(y))
}

func (w *worker) bytesEq(a, b []value) value {
	if len(a) != len(b) {
		return false
	}
	r := w.ts.T
	for i := range a {
		x, ok1 := a[i].(uint64)
		y, ok2 := b[i].(uint64)
		if ok1 && ok2 {
			if x != y {
				return false
			}
			continue
		}
		r = w.ts.And(r, w.ts.Eq(w.toTerm(a[i], 8), w.toTerm(b[i], 8)))
	}
	return fromTerm(r)
}

// bytesLess builds a lexicographic a < b (or a <= b) condition.
func (w *worker) bytesLess(a, b []value, orEq bool) value {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	var r *Term
	if len(a) < len(b) || (orEq && len(a) == len(b)) {
		r = w.ts.T
	} else {
		r = w.ts.F
	}
	for i := n - 1; i >= 0; i-- {
		x, y := w.toTerm(a[i], 8), w.toTerm(b[i], 8)
		r = w.ts.Or(w.ts.Cmp(opUlt, x, y), w.ts.And(w.ts.Eq(x, y), r))
	}
	return fromTerm(r)
}

// ---- binary operators ----

type binFn func(fr *frame, x, y value) value

func (pr *program) binop(o token.Token, tx, ty types.Type) binFn {
	switch o {
	case token.EQL:
		f := pr.mkEq(tx)
		if _, isI := tx.Underlying().(*types.Interface); isI {
			if _, isI2 := ty.Underlying().(*types.Interface); !isI2 {
				ct := pr.canon(ty)
				return func(fr *frame, x, y value) value {
					if _, ok := y.(iface); !ok {
						y = iface{ct, y}
					}
					return f(fr.w, x, y)
				}
			}
		} else if _, isI2 := ty.Underlying().(*types.Interface); isI2 {
			ct := pr.canon(tx)
			return func(fr *frame, x, y value) value {
				return fr.w.ifaceEq(iface{ct, x}, y)
			}
		}
		return func(fr *frame, x, y value) value { return f(fr.w, x, y) }
	case token.NEQ:
		f := pr.binop(token.EQL, tx, ty)
		return func(fr *frame, x, y value) value {
			switch r := f(fr, x, y).(type) {
			case bool:
				return !r
			case *Term:
				return fromTerm(fr.w.ts.Not(r))
			}
			panic("neq")
		}
	}
	b := basicOf(tx)
	if b == nil {
		panic(engineError{fmt.Sprintf("binop %v on %v", o, tx)})
	}
	switch {
	case b.Info()&types.IsString != 0:
		return strBin(o)
	case b.Info()&types.IsFloat != 0:
		return floatBin(o, b.Kind() == types.Float32)
	case b.Info()&types.IsBoolean != 0:
		return func(fr *frame, x, y value) value {
			a, c := fr.w.toTerm(x, 0), fr.w.toTerm(y, 0)
			switch o {
			case token.AND, token.LAND:
				return fromTerm(fr.w.ts.And(a, c))
			case token.OR, token.LOR:
				return fromTerm(fr.w.ts.Or(a, c))
			}
			panic(engineError{"bool binop " + o.String()})
		}
	case b.Info()&types.IsInteger != 0:
		w, s := intInfo(tx)
		return intBin(o, w, s, ty)
	}
	panic(engineError{fmt.Sprintf("binop %v on %v", o, tx)})
}

func strBin(o token.Token) binFn {
	return func(fr *frame, x, y value) value {
		a, ok1 := x.(string)
		b, ok2 := y.(string)
		if ok1 && ok2 {
			switch o {
			case token.ADD:
				return a + b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
		xb, yb := strBytes(x), strBytes(y)
		switch o {
		case token.ADD:
			return bytesToStr(append(append([]value{}, xb...), yb...))
		case token.LSS:
			return fr.w.bytesLess(xb, yb, false)
		case token.LEQ:
			return fr.w.bytesLess(xb, yb, true)
		case token.GTR:
			return fr.w.bytesLess(yb, xb, false)
		case token.GEQ:
			return fr.w.bytesLess(yb, xb, true)
		}
		panic(engineError{"string op " + o.String()})
	}
}

func floatBin(o token.Token, f32 bool) binFn {
	rnd := func(f float64) value {
		if f32 {
			return float64(float32(f))
		}
		return f
	}
	return func(fr *frame, x, y value) value {
		a, ok1 := x.(float64)
		b, ok2 := y.(float64)
		if ok1 && ok2 {
			switch o {
			case token.ADD:
				return rnd(a + b)
			case token.SUB:
				return rnd(a - b)
			case token.MUL:
				return rnd(a * b)
			case token.QUO:
				return rnd(a / b)
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
		if f32 {
			panic(engineError{"symbolic float32"})
		}
		ta, tb := fr.w.toTerm(x, wF64), fr.w.toTerm(y, wF64)
		ts := fr.w.ts
		switch o {
		case token.ADD:
			return ts.Fop(opFAdd, wF64, ta, tb)
		case token.SUB:
			return ts.Fop(opFSub, wF64, ta, tb)
		case token.MUL:
			return ts.Fop(opFMul, wF64, ta, tb)
		case token.QUO:
			return ts.Fop(opFDiv, wF64, ta, tb)
		case token.LSS:
			return ts.Fop(opFLt, 0, ta, tb)
		case token.LEQ:
			return ts.Fop(opFLe, 0, ta, tb)
		case token.GTR:
			return ts.Fop(opFLt, 0, tb, ta)
		case token.GEQ:
			return ts.Fop(opFLe, 0, tb, ta)
		}
		panic(engineError{"float op " + o.String()})
	}
}

func intBin(o token.Token, w uint8, signed bool, ty types.Type) binFn {
	m := mask(w)
	switch o {
	case token.SHL, token.SHR:
		yw, ys := intInfo(ty)
		return func(fr *frame, x, y value) value {
			a, ok1 := x.(uint64)
			b, ok2 := y.(uint64)
			if ok2 && ys && sx(b, yw) < 0 {
				fr.throw("negative shift amount")
			}
			if ok1 && ok2 {
				if o == token.SHL {
					if b >= uint64(w) {
						return uint64(0)
					}
					return (a << b) & m
				}
				if signed {
					if b >= uint64(w) {
						b = uint64(w) - 1
					}
					return uint64(sx(a, w)>>b) & m
				}
				if b >= uint64(w) {
					return uint64(0)
				}
				return a >> b
			}
			ts := fr.w.ts
			tx := fr.w.toTerm(x, w)
			var amt *Term
			if ok2 {
				if b > uint64(w) {
					b = uint64(w)
				}
				amt = ts.Const(w, b)
			} else {
				t := y.(*Term)
				if ys {
					if fr.p.branch(ts.Cmp(opSlt, t, ts.Const(yw, 0))) {
						fr.throw("negative shift amount")
					}
				}
				t64 := ts.Zext(t, 64)
				small := ts.Cmp(opUlt, t64, ts.Const(64, uint64(w)))
				var low *Term
				if w == 64 {
					low = t64
				} else {
					low = ts.Extract(t64, w-1, 0)
				}
				amt = ts.Ite(small, low, ts.Const(w, uint64(w)))
			}
			if o == token.SHL {
				return fromTerm(ts.Bin(opShl, tx, amt))
			}
			if signed {
				return fromTerm(ts.Bin(opAshr, tx, amt))
			}
			return fromTerm(ts.Bin(opLshr, tx, amt))
		}
	}
	return func(fr *frame, x, y value) value {
		a, ok1 := x.(uint64)
		b, ok2 := y.(uint64)
		if ok1 && ok2 {
			switch o {
			case token.ADD:
				return (a + b) & m
			case token.SUB:
				return (a - b) & m
			case token.MUL:
				return (a * b) & m
			case token.QUO, token.REM:
				if b == 0 {
					fr.throw("integer divide by zero")
				}
				if signed {
					p, q := sx(a, w), sx(b, w)
					if q == -1 {
						if o == token.QUO {
							return uint64(-p) & m
						}
						return uint64(0)
					}
					if o == token.QUO {
						return uint64(p/q) & m
					}
					return uint64(p%q) & m
				}
				if o == token.QUO {
					return a / b
				}
				return a % b
			case token.AND:
				return a & b
			case token.OR:
				return a | b
			case token.XOR:
				return a ^ b
			case token.AND_NOT:
				return a &^ b
			case token.LSS:
				if signed {
					return sx(a, w) < sx(b, w)
				}
				return a < b
			case token.LEQ:
				if signed {
					return sx(a, w) <= sx(b, w)
				}
				return a <= b
			case token.GTR:
				if signed {
					return sx(a, w) > sx(b, w)
				}
				return a > b
			case token.GEQ:
				if signed {
					return sx(a, w) >= sx(b, w)
				}
				return a >= b
			}
		}
		if u, ok := x.(uptr); ok && ok2 && b == 0 {
			return u
		}
		if u, ok := y.(uptr); ok && ok1 && a == 0 {
			return u
		}
		ts := fr.w.ts
		tx, tyy := fr.w.toTerm(x, w), fr.w.toTerm(y, w)
		switch o {
		case token.ADD:
			return fromTerm(ts.Bin(opAdd, tx, tyy))
		case token.SUB:
			return fromTerm(ts.Bin(opSub, tx, tyy))
		case token.MUL:
			return fromTerm(ts.Bin(opMul, tx, tyy))
		case token.QUO, token.REM:
			if fr.p.branch(ts.Eq(tyy, ts.Const(w, 0))) {
				fr.throw("integer divide by zero")
			}
			switch {
			case signed && o == token.QUO:
				return fromTerm(ts.Bin(opSDiv, tx, tyy))
			case signed:
				return fromTerm(ts.Bin(opSRem, tx, tyy))
			case o == token.QUO:
				return fromTerm(ts.Bin(opUDiv, tx, tyy))
			}
			return fromTerm(ts.Bin(opURem, tx, tyy))
		case token.AND:
			return fromTerm(ts.Bin(opBAnd, tx, tyy))
		case token.OR:
			return fromTerm(ts.Bin(opBOr, tx, tyy))
		case token.XOR:
			return fromTerm(ts.Bin(opBXor, tx, tyy))
		case token.AND_NOT:
			return fromTerm(ts.Bin(opBAnd, tx, ts.BNot(tyy)))
		case token.LSS, token.GTR:
			if o == token.GTR {
				tx, tyy = tyy, tx
			}
			if signed {
				return fromTerm(ts.Cmp(opSlt, tx, tyy))
			}
			return fromTerm(ts.Cmp(opUlt, tx, tyy))
		case token.LEQ, token.GEQ:
			if o == token.GEQ {
				tx, tyy = tyy, tx
			}
			if signed {
				return fromTerm(ts.Cmp(opSle, tx, tyy))
			}
			return fromTerm(ts.Cmp(opUle, tx, tyy))
		}
		panic(engineError{"int op " + o.String()})
	}
}

// ---- conversions ----

type convFn func(fr *frame, x value) value

func (pr *program) conv(dst, src types.Type) convFn {
	ud, us := dst.Underlying(), src.Underlying()
	bd, bs := basicOf(dst), basicOf(src)
	// unsafe.Pointer conversions
	if bd != nil && bd.Kind() == types.UnsafePointer {
		if ps, ok := us.(*types.Pointer); ok {
			et := ps.Elem()
			return func(fr *frame, x value) value {
				if isNilPtr(x) {
					return uptr{}
				}
				if cp, ok := x.(castPtr); ok {
					return uptr{bptr{cp.a}, types.Typ[types.Uint8]}
				}
				return uptr{x, et}
			}
		}
		return func(fr *frame, x value) value {
			if u, ok := x.(uptr); ok {
				return u
			}
			if u, ok := x.(uint64); ok && u == 0 {
				return uptr{}
			}
			panic(engineError{"integer to unsafe.Pointer"})
		}
	}
	if bs != nil && bs.Kind() == types.UnsafePointer {
		if pd, ok := ud.(*types.Pointer); ok {
			et := pd.Elem()
			return func(fr *frame, x value) value { return pr.castPtr(fr, x, et) }
		}
		return func(fr *frame, x value) value { return x } // uintptr
	}
	dw, dsg := intInfo(dst)
	sw, ssg := intInfo(src)
	switch {
	case dw > 0 && sw > 0:
		m := mask(dw)
		return func(fr *frame, x value) value {
			switch v := x.(type) {
			case uint64:
				if ssg {
					return uint64(sx(v, sw)) & m
				}
				return v & m
			case *Term:
				ts := fr.w.ts
				if dw < sw {
					return fromTerm(ts.Extract(v, dw-1, 0))
				}
				if dw == sw {
					return v
				}
				if ssg {
					return fromTerm(ts.Sext(v, dw))
				}
				return fromTerm(ts.Zext(v, dw))
			case uptr:
				return v
			}
			panic(engineError{fmt.Sprintf("int conv of %T", x)})
		}
	case bd != nil && bd.Info()&types.IsFloat != 0 && sw > 0:
		f32 := bd.Kind() == types.Float32
		return func(fr *frame, x value) value {
			switch v := x.(type) {
			case uint64:
				var f float64
				if ssg {
					f = float64(sx(v, sw))
				} else {
					f = float64(v)
				}
				if f32 {
					f = float64(float32(f))
				}
				return f
			case *Term:
				if ssg {
					return fr.w.ts.Fop(opSToF, wF64, v)
				}
				return fr.w.ts.Fop(opUToF, wF64, v)
			}
			panic(engineError{"float conv"})
		}
	case bs != nil && bs.Info()&types.IsFloat != 0 && dw > 0:
		return func(fr *frame, x value) value {
			switch v := x.(type) {
			case float64:
				if dsg {
					return uint64(int64(v)) & mask(dw)
				}
				return uint64(v) & mask(dw)
			case *Term:
				t := fr.w.ts.Fop(opFToS, 64, v)
				if dw < 64 {
					t = fr.w.ts.Extract(t, dw-1, 0)
				}
				return t
			}
			panic(engineError{"float conv"})
		}
	case bd != nil && bd.Info()&types.IsFloat != 0 && bs != nil && bs.Info()&types.IsFloat != 0:
		f32 := bd.Kind() == types.Float32
		return func(fr *frame, x value) value {
			if f, ok := x.(float64); ok && f32 {
				return float64(float32(f))
			}
			return x
		}
	case bd != nil && bd.Info()&types.IsString != 0:
		if bs != nil && bs.Info()&types.IsString != 0 {
			return func(fr *frame, x value) value { return x }
		}
		if sw > 0 {
			return func(fr *frame, x value) value {
				return string(rune(sx(fr.p.concInt(x), sw)))
			}
		}
		if sl, ok := us.(*types.Slice); ok {
			if isByte(sl.Elem()) {
				return func(fr *frame, x value) value { return bytesToStr(x.([]value)) }
			}
			return func(fr *frame, x value) value {
				var rs []rune
				for _, r := range x.([]value) {
					rs = append(rs, rune(fr.p.concInt(r)))
				}
				return string(rs)
			}
		}
	case bs != nil && bs.Info()&types.IsString != 0:
		if sl, ok := ud.(*types.Slice); ok {
			if isByte(sl.Elem()) {
				return func(fr *frame, x value) value {
					b := strBytes(x)
					n := make([]value, len(b))
					copy(n, b)
					return n
				}
			}
			return func(fr *frame, x value) value {
				s, ok := x.(string)
				if !ok {
					panic(engineError{"[]rune of symbolic string"})
				}
				r := []value{}
				for _, c := range s {
					r = append(r, uint64(uint32(c)))
				}
				return r
			}
		}
	}
	if sl, ok := us.(*types.Slice); ok {
		if ar, ok := ud.(*types.Array); ok {
			n := int(ar.Len())
			_ = sl
			return func(fr *frame, x value) value {
				s := x.([]value)
				if len(s) < n {
					fr.throw("slice to array: length too short")
				}
				return copyVal(array(s[:n]))
			}
		}
	}
	if types.Identical(ud, us) || (bd == nil && bs == nil) {
		return func(fr *frame, x value) value { return x }
	}
	panic(engineError{fmt.Sprintf("conversion %v -> %v", src, dst)})
}

// castPtr converts an unsafe.Pointer to *et.
func (pr *program) castPtr(fr *frame, x value, et types.Type) value {
	u, ok := x.(uptr)
	if !ok {
		if n, isN := x.(uint64); isN && n == 0 {
			return (*value)(nil)
		}
		panic(engineError{fmt.Sprintf("cast of %T", x)})
	}
	if isNilPtr(u.p) {
		return (*value)(nil)
	}
	if bp, ok := u.p.(bptr); ok {
		if isByte(et) {
			return bp
		}
		if w, _ := intInfo(et); w > 0 {
			return castPtr{bp.a, int(w / 8)}
		}
		if at, ok := et.Underlying().(*types.Array); ok && isByte(at.Elem()) && int64(len(bp.a)) >= at.Len() {
			var cell value = array(bp.a[:at.Len():at.Len()])
			return &cell
		}
	}
	if p, ok := u.p.(*value); ok {
		if types.Identical(u.t.Underlying(), et.Underlying()) {
			return p
		}
		if _, isS := (*p).(structure); isS {
			if st, ok := et.Underlying().(*types.Struct); ok {
				if so, ok := u.t.Underlying().(*types.Struct); ok && st.NumFields() == so.NumFields() {
					return p
				}
				// prefix compatible
				return p
			}
		}
		if a, isA := (*p).(array); isA {
			if w, _ := intInfo(et); w > 0 {
				if at, ok := u.t.Underlying().(*types.Array); ok && isByte(at.Elem()) {
					return castPtr{a, int(w / 8)}
				}
			}
		}
		if _, isSl := (*p).([]value); isSl {
			if b := basicOf(et); b != nil && b.Info()&types.IsString != 0 {
				return strView{p}
			}
		}
		w1, _ := intInfo(u.t)
		w2, _ := intInfo(et)
		if w1 > 0 && w1 == w2 {
			return p
		}
		if _, ok := u.t.Underlying().(*types.Pointer); ok {
			return p
		}
		if b := basicOf(u.t); b != nil && b.Kind() == types.UnsafePointer {
			return p
		}
	}
	panic(engineError{fmt.Sprintf("unsafe cast %v -> %v (%T)", u.t, et, u.p)})
}

// ---- builtins ----

func (pr *program) builtin(b *ssa.Builtin, call *ssa.CallCommon) func(fr *frame, args []value) value {
	argT := func(i int) types.Type { return call.Args[i].Type() }
	switch b.Name() {
	case "append":
		var ez func() value
		if sl, ok := call.Args[0].Type().Underlying().(*types.Slice); ok {
			ez = zeroFn(sl.Elem())
		}
		_ = ez
		return func(fr *frame, args []value) value {
			if len(args) == 1 {
				return args[0]
			}
			s, _ := args[0].([]value)
			switch t := args[1].(type) {
			case []value:
				if len(t) == 0 {
					return s
				}
				n := len(s)
				s = append(s, t...)
				for i := n; i < len(s); i++ {
					switch s[i].(type) {
					case structure, array:
						s[i] = copyVal(s[i])
					}
				}
				return s
			case string, *SymStr:
				return append(s, strBytes(t)...)
			}
			panic(engineError{fmt.Sprintf("append %T", args[1])})
		}
	case "copy":
		return func(fr *frame, args []value) value {
			d := args[0].([]value)
			var s []value
			switch t := args[1].(type) {
			case []value:
				s = t
			default:
				s = strBytes(t)
			}
			n := len(d)
			if len(s) < n {
				n = len(s)
			}
			tmp := make([]value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(s[i])
			}
			copy(d, tmp)
			return uint64(n)
		}
	case "close":
		return func(fr *frame, args []value) value {
			ch, _ := args[0].(*chanv)
			fr.th.closeChan(fr, ch)
			return nil
		}
	case "delete":
		kt := argT(0).Underlying().(*types.Map).Key()
		return func(fr *frame, args []value) value {
			m, _ := args[0].(*mapv)
			if m != nil {
				fr.p.mapDel(m, args[1], kt)
			}
			return nil
		}
	case "clear":
		if sl, ok := argT(0).Underlying().(*types.Slice); ok {
			ez := zeroFn(sl.Elem())
			return func(fr *frame, args []value) value {
				s := args[0].([]value)
				for i := range s {
					storeVal(&s[i], ez())
				}
				return nil
			}
		}
		return func(fr *frame, args []value) value {
			m, _ := args[0].(*mapv)
			if m != nil {
				m.ents, m.idx, m.n, m.sym = nil, map[any]int{}, 0, 0
			}
			return nil
		}
	case "len":
		return func(fr *frame, args []value) value {
			switch x := args[0].(type) {
			case string:
				return uint64(len(x))
			case *SymStr:
				return uint64(len(x.b))
			case []value:
				return uint64(len(x))
			case array:
				return uint64(len(x))
			case *value:
				return uint64(len((*x).(array)))
			case *mapv:
				if x == nil {
					return uint64(0)
				}
				return uint64(x.n)
			case *chanv:
				if x == nil {
					return uint64(0)
				}
				fr.th.point(fr)
				return uint64(len(x.buf))
			}
			panic(engineError{fmt.Sprintf("len of %T", args[0])})
		}
	case "cap":
		return func(fr *frame, args []value) value {
			switch x := args[0].(type) {
			case []value:
				return uint64(cap(x))
			case array:
				return uint64(len(x))
			case *value:
				return uint64(len((*x).(array)))
			case *chanv:
				if x == nil {
					return uint64(0)
				}
				return uint64(x.cap)
			}
			panic(engineError{fmt.Sprintf("cap of %T", args[0])})
		}
	case "min", "max":
		o := token.LSS
		if b.Name() == "max" {
			o = token.GTR
		}
		f := pr.binop(o, argT(0), argT(0))
		return func(fr *frame, args []value) value {
			r := args[0]
			for _, a := range args[1:] {
				if fr.p.truth(f(fr, a, r)) {
					r = a
				}
			}
			return r
		}
	case "print", "println":
		return func(fr *frame, args []value) value { return nil }
	case "panic":
		return func(fr *frame, args []value) value { panic(targetPanic{args[0], fr.where()}) }
	case "recover":
		return func(fr *frame, args []value) value { return fr.doRecover() }
	case "ssa:wrapnilchk":
		return func(fr *frame, args []value) value {
			if isNilPtr(args[0]) {
				fr.throw("value method called using nil pointer")
			}
			return args[0]
		}
	case "ssa:deferstack":
		return func(fr *frame, args []value) value { return &fr.defers }
	case "String": // unsafe.String
		return func(fr *frame, args []value) value {
			n := int(fr.p.concInt(args[1]))
			if n == 0 {
				return ""
			}
			return bytesToStr(args[0].(bptr).a[:n])
		}
	case "StringData":
		return func(fr *frame, args []value) value {
			b := strBytes(args[0])
			if len(b) == 0 {
				return bptr{}
			}
			return bptr{append([]value{}, b...)}
		}
	case "SliceData":
		byteE := isByte(argT(0).Underlying().(*types.Slice).Elem())
		return func(fr *frame, args []value) value {
			s := args[0].([]value)
			if cap(s) == 0 {
				if byteE {
					return bptr{}
				}
				return (*value)(nil)
			}
			if byteE {
				return bptr{s[:cap(s)]}
			}
			return &s[:1][0]
		}
	case "Slice":
		return func(fr *frame, args []value) value {
			n := int(fr.p.concInt(args[1]))
			if bp, ok := args[0].(bptr); ok {
				return bp.a[:n:n]
			}
			if n == 1 {
				panic(engineError{"unsafe.Slice"})
			}
			if n == 0 {
				return []value{}
			}
			panic(engineError{"unsafe.Slice"})
		}
	}
	name := b.Name()
	return func(fr *frame, args []value) value { panic(engineError{"builtin " + name}) }
}

func (it *strIter) next(fr *frame) tuple {
	switch s := it.s.(type) {
	case string:
		if it.pos >= len(s) {
			return tuple{false, uint64(0), uint64(0)}
		}
		p := it.pos
		for i, r := range s[p:] {
			_ = i
			sz := len(string(r))
			if r == 0xfffd && s[p] != 0xef {
				sz = 1
			}
			it.pos += sz
			return tuple{true, uint64(p), uint64(uint32(r))}
		}
	case *SymStr:
		if it.pos >= len(s.b) {
			return tuple{false, uint64(0), uint64(0)}
		}
		p := it.pos
		c := s.b[p]
		// only ASCII bytes are supported symbolically
		if t, ok := c.(*Term); ok {
			if !fr.p.branch(fr.w.ts.Cmp(opUlt, t, fr.w.ts.Const(8, 0x80))) {
				panic(engineError{"range over symbolic non-ASCII string"})
			}
			it.pos++
			return tuple{true, uint64(p), fr.w.ts.Zext(t, 32)}
		}
		it.pos++
		return tuple{true, uint64(p), c}
	}
	panic(engineError{"strIter"})
}
