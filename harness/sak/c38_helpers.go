package sak

func vpNumHelpers[T Number](mk func() T, what string) {
	a, b := mk(), mk()
	lo, hi := Min(a, b), Max(a, b)
	vpVerify(vpAnd(lo <= a, lo <= b), what+": Min does not bound its arguments")
	vpVerify(vpOr(lo == a, lo == b), what+": Min is not one of its arguments")
	vpVerify(vpAnd(hi >= a, hi >= b), what+": Max does not bound its arguments")
	vpVerify(vpOr(hi == a, hi == b), what+": Max is not one of its arguments")
	n := vpChoose(5)
	vs := make([]T, n)
	for i := range vs {
		vs[i] = mk()
	}
	lo, hi = MinN(vs...), MaxN(vs...)
	if n == 0 {
		vpVerify(lo == 0 && hi == 0, what+": MinN/MaxN of nothing is not zero")
		return
	}
	inlo, inhi, blo, bhi := false, false, true, true
	for _, v := range vs {
		inlo, inhi = vpOr(inlo, v == lo), vpOr(inhi, v == hi)
		blo, bhi = vpAnd(blo, lo <= v), vpAnd(bhi, hi >= v)
	}
	vpVerify(vpAnd(inlo, blo), what+": MinN is wrong")
	vpVerify(vpAnd(inhi, bhi), what+": MaxN is wrong")
	vpReach(what)
}

// Min, Max, MinN, MaxN over 0..4 arbitrary values of int, int8, int16, int32, int64, uint8, uint16, uint32, uint64
//vp:harness prop=C38 timeout=100s
func vpH_C38_minmax() {
	switch vpChoose(9) {
	case 0:
		vpNumHelpers(vpInt, "int")
	case 1:
		vpNumHelpers(vpInt8, "int8")
	case 2:
		vpNumHelpers(vpInt16, "int16")
	case 3:
		vpNumHelpers(vpInt32, "int32")
	case 4:
		vpNumHelpers(vpInt64, "int64")
	case 5:
		vpNumHelpers(vpUint8, "uint8")
	case 6:
		vpNumHelpers(vpUint16, "uint16")
	case 7:
		vpNumHelpers(vpUint32, "uint32")
	case 8:
		vpNumHelpers(vpUint64, "uint64")
	}
}

func vpAbsHelper[T Signed](mk func() T, what string) {
	a := mk()
	r := Abs(a)
	vpVerify(vpOr(r == a, r == -a), what+": Abs is not plus or minus its argument")
	vpVerify(vpOr(r >= 0, a == -a), what+": Abs is negative")
	vpReach("abs " + what)
}

// Abs of every signed integer of every width
//vp:harness prop=C38 timeout=60s
func vpH_C38_abs() {
	switch vpChoose(5) {
	case 0:
		vpAbsHelper(vpInt, "int")
	case 1:
		vpAbsHelper(vpInt8, "int8")
	case 2:
		vpAbsHelper(vpInt16, "int16")
	case 3:
		vpAbsHelper(vpInt32, "int32")
	case 4:
		vpAbsHelper(vpInt64, "int64")
	}
}

// pointer/struct slices of 0..4 arbitrary values: order, elements and no aliasing
//vp:harness prop=C38 timeout=60s
func vpH_C38_slices() {
	type s struct{ a, b uint8 }
	n := vpChoose(5)
	in := make([]s, n)
	for i := range in {
		in[i] = s{vpUint8(), vpUint8()}
	}
	orig := append([]s{}, in...)
	ps := ToPtrSlice(in)
	vpVerify(len(ps) == n, "ToPtrSlice has the wrong length")
	for i, p := range ps {
		vpVerify(p != nil && *p == orig[i], "ToPtrSlice has the wrong element")
		for j := 0; j < i; j++ {
			vpVerify(ps[j] != p, "ToPtrSlice repeats a pointer")
		}
	}
	for i := range in {
		in[i] = s{}
	}
	for i, p := range ps {
		vpVerify(*p == orig[i], "ToPtrSlice aliases its input")
	}
	back := ToStructSlice(ps)
	vpVerify(len(back) == n, "ToStructSlice has the wrong length")
	for _, p := range ps {
		*p = s{1, 1}
	}
	for i := range back {
		vpVerify(back[i] == orig[i], "ToStructSlice has the wrong element or aliases its input")
	}
	v := s{vpUint8(), 3}
	p := Ptr(v)
	vpVerify(*p == v && Ptr(v) != p, "Ptr")
	vpReach("slices")
}

// maps of 0..3 arbitrary keys and values: copy, values, keys
//vp:harness prop=C38 timeout=60s maporder=2
func vpH_C38_maps() {
	n := vpChoose(4)
	m := map[uint8]uint8{}
	for i := 0; i < n; i++ {
		m[vpUint8()] = vpUint8()
	}
	c := MapCopy(m)
	vpVerify(len(c) == len(m), "MapCopy has the wrong size")
	q := vpUint8()
	v, ok := m[q]
	v2, ok2 := c[q]
	vpVerify(ok == ok2 && v == v2, "MapCopy differs")
	ks, vs := MapKeysToSlice(m), MapValuesToSlice(m)
	vpVerify(len(ks) == len(m) && len(vs) == len(m), "wrong number of keys or values")
	for i, k := range ks {
		_, ok := m[k]
		vpVerify(ok, "a key that is not in the map")
		for _, k2 := range ks[:i] {
			vpVerify(k != k2, "a key occurs twice")
		}
	}
	// the values are those of the keys, as a multiset
	used := make([]bool, len(vs))
	for _, k := range ks {
		found := false
		for i, v := range vs {
			if !used[i] && !found && v == m[k] {
				used[i], found = true, true
			}
		}
		vpVerify(found, "a value is missing")
	}
	c[q] = v + 1
	v3, ok3 := m[q]
	vpVerify(ok3 == ok && v3 == v, "MapCopy aliases its input")
	vpReach("maps")
}
