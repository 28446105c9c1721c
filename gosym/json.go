package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// A model of jsoniter's compatible configuration. Values without symbolic parts are marshalled to their text; others to a text which refers to a
// copy of the value, which only this model can read.

type jnull struct{}
type jnum struct {
	v value // uint64 or *Term of 64 bits, signed
	f string
}
type jobj struct {
	keys []string
	vals []any
}

const jtoken = "{\"\u00a7symbolic\":"

func jsonIntrinsics(I map[string]intrinsic) {
	const recv = "(*github.com/json-iterator/go.frozenConfig)."
	I[recv+"Marshal"] = func(fr *frame, a []value) value {
		iv := a[1].(iface)
		n := fr.jtree(iv.t, iv.v)
		var sb bytes.Buffer
		if !jtext(&sb, n) {
			fr.p.jsons = append(fr.p.jsons, n)
			sb.Reset()
			fmt.Fprintf(&sb, "%s%d}", jtoken, len(fr.p.jsons)-1)
		}
		return tuple{jbytes(sb.String()), iface{}}
	}
	I[recv+"Unmarshal"] = func(fr *frame, a []value) value {
		bs, ok := a[1].([]value)
		if !ok && a[1] != nil {
			panic(engineError{fmt.Sprintf("json of %T", a[1])})
		}
		s := make([]byte, len(bs))
		for i, b := range bs {
			u, ok := b.(uint64)
			if !ok {
				panic(engineError{"json of symbolic bytes"})
			}
			s[i] = byte(u)
		}
		n, err := fr.jparse(string(s))
		if err != nil {
			return fr.jerr(err.Error())
		}
		iv := a[2].(iface)
		pt, ok := iv.t.Underlying().(*types.Pointer)
		if !ok || isNilPtr(iv.v) {
			return fr.jerr("ReadVal: can not read into nil pointer")
		}
		if e := fr.jassign(pt.Elem(), iv.v.(*value), n); e != "" {
			return fr.jerr(e)
		}
		return iface{}
	}
}

const jpkg = "github.com/json-iterator/go"

func (w *worker) jsonGlobals(pi *pkgInfo) {
	for _, g := range pi.globals {
		switch g.g.Name() {
		case "ConfigCompatibleWithStandardLibrary", "ConfigDefault", "ConfigFastest":
			t := w.pr.typeOf(jpkg, "frozenConfig")
			c := new(value)
			*c = zeroFn(t)()
			if w.globs[g.idx] != nil {
				*w.globs[g.idx] = iface{w.pr.canon(types.NewPointer(t)), c}
			}
		}
	}
}

func jbytes(s string) []value {
	r := make([]value, len(s))
	for i := range r {
		r[i] = byteVals[s[i]]
	}
	return r
}

func (fr *frame) jerr(msg string) value {
	c := new(value)
	*c = structure{msg}
	return iface{fr.w.pr.errorStr, c}
}

func jname(f *types.Var, tag string) (name string, omit, skip bool) {
	if !f.Exported() {
		return "", false, true
	}
	t := reflect.StructTag(tag).Get("json")
	if t == "-" {
		return "", false, true
	}
	parts := strings.Split(t, ",")
	name = f.Name()
	if parts[0] != "" {
		name = parts[0]
	}
	for _, o := range parts[1:] {
		if o == "omitempty" {
			omit = true
		} else {
			panic(engineError{"json option " + o})
		}
	}
	if f.Embedded() {
		panic(engineError{"json of an embedded field"})
	}
	return
}

func (fr *frame) jtree(t types.Type, v value) any {
	if t == nil {
		return jnull{}
	}
	if w, sg := intInfo(t); w > 0 {
		switch v := v.(type) {
		case uint64:
			if sg {
				return jnum{v: sx2(v, w)}
			}
			return jnum{v: v, f: "u"}
		case *Term:
			if sg {
				return jnum{v: fromTerm(fr.w.ts.Sext(v, 64))}
			}
			return jnum{v: fromTerm(fr.w.ts.Zext(v, 64)), f: "u"}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&(types.IsBoolean|types.IsString) != 0 {
			return v
		}
	case *types.Pointer:
		if isNilPtr(v) {
			return jnull{}
		}
		return fr.jtree(u.Elem(), *(v.(*value)))
	case *types.Interface:
		iv := v.(iface)
		return fr.jtree(iv.t, iv.v)
	case *types.Slice:
		l, _ := v.([]value)
		if l == nil {
			return jnull{}
		}
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 {
			panic(engineError{"json of bytes"})
		}
		r := make([]any, len(l))
		for i, x := range l {
			r[i] = fr.jtree(u.Elem(), x)
		}
		return r
	case *types.Struct:
		o := &jobj{}
		for i, x := range v.(structure) {
			name, omit, skip := jname(u.Field(i), u.Tag(i))
			if skip {
				continue
			}
			if omit {
				panic(engineError{"json omitempty"})
			}
			o.keys = append(o.keys, name)
			o.vals = append(o.vals, fr.jtree(u.Field(i).Type(), x))
		}
		return o
	}
	panic(engineError{"json of " + t.String()})
}

func sx2(v uint64, w uint8) uint64 { return uint64(sx(v, w)) }

// jtext writes the text, unless there are symbolic parts
func jtext(sb *bytes.Buffer, n any) bool {
	switch n := n.(type) {
	case jnull:
		sb.WriteString("null")
	case bool:
		fmt.Fprint(sb, n)
	case string:
		b, _ := json.Marshal(n)
		sb.Write(b)
	case jnum:
		u, ok := n.v.(uint64)
		if !ok {
			return false
		}
		if n.f == "u" {
			sb.WriteString(strconv.FormatUint(u, 10))
		} else {
			sb.WriteString(strconv.FormatInt(int64(u), 10))
		}
	case []any:
		sb.WriteByte('[')
		for i, x := range n {
			if i > 0 {
				sb.WriteByte(',')
			}
			if !jtext(sb, x) {
				return false
			}
		}
		sb.WriteByte(']')
	case *jobj:
		sb.WriteByte('{')
		for i, k := range n.keys {
			if i > 0 {
				sb.WriteByte(',')
			}
			jtext(sb, k)
			sb.WriteByte(':')
			if !jtext(sb, n.vals[i]) {
				return false
			}
		}
		sb.WriteByte('}')
	default:
		return false
	}
	return true
}

func (fr *frame) jparse(s string) (any, error) {
	if strings.HasPrefix(s, jtoken) {
		i, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(s, jtoken), "}"))
		if err != nil || i >= len(fr.p.jsons) {
			return nil, fmt.Errorf("invalid json")
		}
		return fr.p.jsons[i], nil
	}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	n, err := jdecode(d)
	if err == nil && d.More() {
		err = fmt.Errorf("there are bytes left after unmarshal")
	}
	return n, err
}

func jdecode(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t := t.(type) {
	case nil:
		return jnull{}, nil
	case bool:
		return t, nil
	case string:
		return t, nil
	case json.Number:
		if i, err := strconv.ParseInt(string(t), 10, 64); err == nil {
			return jnum{v: uint64(i)}, nil
		}
		return jnum{f: string(t)}, nil
	case json.Delim:
		if t == '[' {
			r := []any{}
			for d.More() {
				x, err := jdecode(d)
				if err != nil {
					return nil, err
				}
				r = append(r, x)
			}
			_, err := d.Token()
			return r, err
		}
		o := &jobj{}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			x, err := jdecode(d)
			if err != nil {
				return nil, err
			}
			o.keys = append(o.keys, k.(string))
			o.vals = append(o.vals, x)
		}
		_, err := d.Token()
		return o, err
	}
	return nil, fmt.Errorf("invalid json")
}

func (fr *frame) jassign(t types.Type, at *value, n any) string {
	bad := "json: can not decode into " + t.String()
	if _, ok := n.(jnull); ok {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			*at = zeroFn(t)()
		}
		return ""
	}
	if w, sg := intInfo(t); w > 0 {
		x, ok := n.(jnum)
		if !ok || x.v == nil {
			return bad
		}
		switch v := x.v.(type) {
		case uint64:
			lo := v & mask(w)
			if sg && sx2(lo, w) != v || !sg && lo != v {
				return bad
			}
			*at = lo
		case *Term:
			if w < 64 {
				lo := fr.w.ts.Extract(v, w-1, 0)
				ext := fr.w.ts.Zext(lo, 64)
				if sg {
					ext = fr.w.ts.Sext(lo, 64)
				}
				if !fr.p.branch(fr.w.ts.Eq(ext, v)) {
					return bad
				}
				*at = fromTerm(lo)
			} else {
				*at = v
			}
		}
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := n.(type) {
		case bool:
			if u.Info()&types.IsBoolean != 0 {
				*at = x
				return ""
			}
		case *Term:
			if u.Info()&types.IsBoolean != 0 && x.w == 0 {
				*at = x
				return ""
			}
		case string, *SymStr:
			if u.Info()&types.IsString != 0 {
				*at = x
				return ""
			}
		}
		return bad
	case *types.Pointer:
		if isNilPtr(*at) {
			c := new(value)
			*c = zeroFn(u.Elem())()
			*at = c
		}
		return fr.jassign(u.Elem(), (*at).(*value), n)
	case *types.Slice:
		l, ok := n.([]any)
		if !ok {
			return bad
		}
		r := make([]value, len(l))
		*at = r
		for i, x := range l {
			r[i] = zeroFn(u.Elem())()
			if e := fr.jassign(u.Elem(), &r[i], x); e != "" {
				*at = r[:i+1]
				return e
			}
		}
		return ""
	case *types.Struct:
		o, ok := n.(*jobj)
		if !ok {
			return bad
		}
		s := (*at).(structure)
		for i, k := range o.keys {
			hit := -1
			for j := 0; j < u.NumFields(); j++ {
				name, _, skip := jname(u.Field(j), u.Tag(j))
				if skip {
					continue
				}
				if name == k || hit < 0 && strings.EqualFold(name, k) {
					hit = j
					if name == k {
						break
					}
				}
			}
			if hit >= 0 {
				if e := fr.jassign(u.Field(hit).Type(), &s[hit], o.vals[i]); e != "" {
					return e
				}
			}
		}
		return ""
	}
	panic(engineError{"json into " + t.String()})
}
