package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// value is any of:
//
//	uint64            concrete integer of any kind (masked to its width)
//	*Term             symbolic integer / bool / float64
//	bool, float64, string, *SymStr
//	complex128 (unsupported)
//	*value, bptr, castPtr   pointers
//	uptr              unsafe.Pointer / uintptr holding a pointer
//	[]value           slice
//	array, structure, tuple
//	iface, *mapv, *chanv, *closure
//	*jsonTok as an element of a byte slice: an opaque JSON document
type value = any

type structure []value
type array []value
type tuple []value
type iface struct {
	t types.Type
	v value
}
type closure struct {
	fi     *fnInfo
	env    []value
	native func(fr *frame, args []value) value
	bi     string
}

// bptr points to element 0 of a byte array; a extends to the end of the backing store.
type bptr struct{ a []value }

// castPtr is a pointer to an integer of n bytes overlaying byte elements.
type castPtr struct {
	a []value
	n int
}

// strView is a *string overlaying a []byte cell.
type strView struct{ p *value }

type uptr struct {
	p value
	t types.Type // element type of the original pointer
}

type SymStr struct{ b []value }

var byteVals [256]value

func init() {
	for i := range byteVals {
		byteVals[i] = uint64(i)
	}
}

func isNilPtr(p value) bool {
	switch p := p.(type) {
	case nil:
		return true
	case *value:
		return p == nil
	case bptr:
		return p.a == nil
	case castPtr:
		return p.a == nil
	case uptr:
		return isNilPtr(p.p)
	}
	return false
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	case array:
		n := make(array, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	}
	return v
}

func storeVal(p *value, v value) {
	switch v := v.(type) {
	case structure:
		d, ok := (*p).(structure)
		if !ok || len(d) != len(v) {
			*p = copyVal(v)
			return
		}
		for i := range v {
			storeVal(&d[i], v[i])
		}
	case array:
		d, ok := (*p).(array)
		if !ok || len(d) != len(v) {
			*p = copyVal(v)
			return
		}
		for i := range v {
			storeVal(&d[i], v[i])
		}
	default:
		*p = v
	}
}

// ---- types ----

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

// intInfo returns the width and signedness of an integer type (0 if it is not one).
func intInfo(t types.Type) (w uint8, signed bool) {
	b := basicOf(t)
	if b == nil {
		return 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 0, false
}

func isByte(t types.Type) bool {
	w, s := intInfo(t)
	return w == 8 && !s
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// zeroFn returns a constructor for zero values of t.
func zeroFn(t types.Type) func() value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return func() value { return uptr{} }
		case u.Info()&types.IsBoolean != 0:
			return func() value { return false }
		case u.Info()&types.IsString != 0:
			return func() value { return "" }
		case u.Info()&types.IsFloat != 0:
			return func() value { return float64(0) }
		case u.Info()&types.IsComplex != 0:
			return func() value { return complex128(0) }
		case u.Kind() == types.UntypedNil:
			return func() value { return iface{} }
		}
		return func() value { return byteVals[0] }
	case *types.Pointer:
		return func() value { return (*value)(nil) }
	case *types.Slice:
		return func() value { return []value(nil) }
	case *types.Array:
		n := int(u.Len())
		ez := zeroFn(u.Elem())
		return func() value {
			a := make(array, n)
			for i := range a {
				a[i] = ez()
			}
			return a
		}
	case *types.Struct:
		zs := make([]func() value, u.NumFields())
		for i := range zs {
			i := i
			ft := u.Field(i).Type()
			zs[i] = nil
			switch ft.Underlying().(type) {
			case *types.Struct, *types.Array:
				zs[i] = zeroFn(ft)
			default:
				zs[i] = zeroFn(ft)
			}
		}
		return func() value {
			s := make(structure, len(zs))
			for i, z := range zs {
				s[i] = z()
			}
			return s
		}
	case *types.Map:
		return func() value { return (*mapv)(nil) }
	case *types.Chan:
		return func() value { return (*chanv)(nil) }
	case *types.Signature:
		return func() value { return (*closure)(nil) }
	case *types.Interface:
		return func() value { return iface{} }
	case *types.Tuple:
		zs := make([]func() value, u.Len())
		for i := range zs {
			zs[i] = zeroFn(u.At(i).Type())
		}
		return func() value {
			s := make(tuple, len(zs))
			for i, z := range zs {
				s[i] = z()
			}
			return s
		}
	}
	panic(engineError{fmt.Sprintf("zero of %v", t)})
}

// ---- strings ----

func strBytes(v value) []value {
	switch v := v.(type) {
	case string:
		b := make([]value, len(v))
		for i := 0; i < len(v); i++ {
			b[i] = byteVals[v[i]]
		}
		return b
	case *SymStr:
		return v.b
	}
	panic(engineError{fmt.Sprintf("strBytes of %T", v)})
}

func strLen(v value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(engineError{fmt.Sprintf("strLen of %T", v)})
}

// bytesToStr makes a string value of byte values (copied).
func bytesToStr(b []value) value {
	bs := make([]byte, len(b))
	for i, x := range b {
		u, ok := x.(uint64)
		if !ok {
			c := make([]value, len(b))
			copy(c, b)
			return &SymStr{c}
		}
		bs[i] = byte(u)
	}
	return string(bs)
}

func concreteBytes(b []value) ([]byte, bool) {
	bs := make([]byte, len(b))
	for i, x := range b {
		u, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		bs[i] = byte(u)
	}
	return bs, true
}

func toByteSlice(b []byte) []value {
	r := make([]value, len(b))
	for i, x := range b {
		r[i] = byteVals[x]
	}
	return r
}

// ---- maps ----

type ment struct {
	k, v value
	dead bool
}
type mapv struct {
	idx  map[any]int // concrete keys -> entry
	ents []ment
	n    int
	sym  int // number of live entries with a key that is not concrete
}

func newMap() *mapv { return &mapv{idx: map[any]int{}} }

type ikey struct {
	t types.Type
	k any
}
type ckey [2]any

// keyOf turns a concrete key into a Go comparable value; ok is false for symbolic keys.
func keyOf(v value) (any, bool) {
	switch v := v.(type) {
	case uint64, string, bool, *value, *chanv:
		return v, true
	case float64:
		return v, true
	case uptr:
		k, ok := keyOf(v.p)
		return ckey{"uptr", k}, ok
	case nil:
		return nil, true
	case bptr:
		return &v.a[0], true
	case iface:
		if v.t == nil {
			return ikey{}, true
		}
		k, ok := keyOf(v.v)
		return ikey{v.t, k}, ok
	case structure:
		var r any = "s"
		for _, x := range v {
			k, ok := keyOf(x)
			if !ok {
				return nil, false
			}
			r = ckey{r, k}
		}
		return r, true
	case array:
		var r any = "a"
		for _, x := range v {
			k, ok := keyOf(x)
			if !ok {
				return nil, false
			}
			r = ckey{r, k}
		}
		return r, true
	case *Term, *SymStr:
		return nil, false
	}
	panic(engineError{fmt.Sprintf("map key of %T", v)})
}

// find returns the entry index of key or -1, forking on symbolic keys.
func (p *path) mapFind(m *mapv, key value, kt types.Type) int {
	if m == nil {
		return -1
	}
	k, ok := keyOf(key)
	if ok {
		if i, hit := m.idx[k]; hit {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	eq := p.w.eqFor(kt)
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		if ok {
			if _, c := keyOf(e.k); c {
				continue
			}
		}
		if p.truth(eq(p.w, e.k, key)) {
			return i
		}
	}
	return -1
}

func (p *path) mapSet(m *mapv, key, v value, kt types.Type) {
	i := p.mapFind(m, key, kt)
	if i >= 0 {
		m.ents[i].v = copyVal(v)
		return
	}
	key = copyVal(key)
	m.ents = append(m.ents, ment{k: key, v: copyVal(v)})
	m.n++
	if k, ok := keyOf(key); ok {
		m.idx[k] = len(m.ents) - 1
	} else {
		m.sym++
	}
}

func (p *path) mapDel(m *mapv, key value, kt types.Type) {
	i := p.mapFind(m, key, kt)
	if i < 0 {
		return
	}
	e := &m.ents[i]
	e.dead = true
	m.n--
	if k, ok := keyOf(e.k); ok {
		delete(m.idx, k)
	} else {
		m.sym--
	}
	e.v = nil
}

type mapIter struct {
	m     *mapv
	start int // rotation
	pos   int
	n     int // entries at start of iteration (for rotation)
}

func (it *mapIter) next() tuple {
	if it.m == nil {
		return tuple{false, nil, nil}
	}
	for {
		var i int
		if it.pos < it.n {
			i = (it.start + it.pos) % it.n
		} else {
			i = it.pos
		}
		if i >= len(it.m.ents) || (it.pos >= it.n && it.pos >= len(it.m.ents)) {
			return tuple{false, nil, nil}
		}
		it.pos++
		e := &it.m.ents[i]
		if e.dead {
			continue
		}
		return tuple{true, e.k, copyVal(e.v)}
	}
}

type strIter struct {
	s   value
	pos int
}

// ---- printing for reports and fmt ----

func (p *path) show(v value, d int) string {
	if d > 4 {
		return "..."
	}
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case uint64:
		return strconv.FormatInt(int64(v), 10)
	case *Term:
		if p != nil {
			return fmt.Sprintf("sym(%s)", v.String())
		}
		return v.String()
	case bool:
		return strconv.FormatBool(v)
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case string:
		return v
	case *SymStr:
		var sb strings.Builder
		for _, b := range v.b {
			if u, ok := b.(uint64); ok {
				sb.WriteByte(byte(u))
			} else {
				sb.WriteString("?")
			}
		}
		return sb.String()
	case iface:
		return p.show(v.v, d+1)
	case *value:
		if v == nil {
			return "<nil>"
		}
		return "&" + p.show(*v, d+1)
	case structure:
		var parts []string
		for _, x := range v {
			parts = append(parts, p.show(x, d+1))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case []value:
		var parts []string
		for i, x := range v {
			if i > 12 {
				parts = append(parts, "...")
				break
			}
			parts = append(parts, p.show(x, d+1))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case array:
		return p.show([]value(v), d)
	case *mapv:
		if v == nil {
			return "map[]"
		}
		var parts []string
		for _, e := range v.ents {
			if !e.dead {
				parts = append(parts, p.show(e.k, d+1)+":"+p.show(e.v, d+1))
			}
		}
		return "map[" + strings.Join(parts, " ") + "]"
	}
	return fmt.Sprintf("%T", v)
}

// newMapIter starts an iteration; the starting entry is a nondeterministic choice while the
// map order budget lasts (Go leaves the order unspecified).
func (p *path) newMapIter(m *mapv, fr *frame) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	if m.n*2 < len(m.ents) { // compact before iterating
		ne := make([]ment, 0, m.n)
		for _, e := range m.ents {
			if !e.dead {
				if k, ok := keyOf(e.k); ok {
					m.idx[k] = len(ne)
				}
				ne = append(ne, e)
			}
		}
		m.ents = ne
	}
	it.n = len(m.ents)
	if m.n > 1 && p.mapOrd > 0 && fr.fi.repo && fr.th.noYield == 0 {
		it.start = p.choose(it.n, "map")
		if it.start > 0 {
			p.mapOrd--
		}
	}
	return it
}
