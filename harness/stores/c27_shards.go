package stores

import "github.com/google/btree"

type vpShItem struct {
	k string
	v uint8
}

type vpHKey struct {
	h  uint64
	id uint8
}

// exponents 0..3 (thorough 0..6), arbitrary 64 bit hashes
//vp:harness prop=C27 timeout=100s
func vpH_C27_for() {
	e := 4
	if vpThorough() {
		e = 7
	}
	exp := vpChoose(e)
	n := 2 << exp
	st := NewShardedTree[vpHKey, uint8](exp, func(k vpHKey) uint64 { return k.h }, NumberLess[uint8])
	seen := map[*btree.BTreeG[uint8]]bool{}
	for i := 0; i < n; i++ {
		t := st.For(vpHKey{h: uint64(i)})
		vpVerify(t != nil && !seen[t], "a shard is not reachable")
		seen[t] = true
	}
	h := vpUint64()
	t := st.For(vpHKey{h: h, id: vpUint8()})
	vpVerify(seen[t], "an unknown tree is selected")
	vpVerify(st.For(vpHKey{h: h, id: vpUint8()}) == t, "equal hashes select different trees")
	vpReach("selected")
}

// 3 items with arbitrary keys and hashes that agree for equal keys; exponents 0..1
//vp:harness prop=C27 timeout=100s
func vpH_C27_items() {
	exp := vpChoose(2)
	var ks []uint8
	var hs []uint64
	hash := func(k uint8) uint64 {
		for i, x := range ks {
			if x == k {
				return hs[i]
			}
		}
		h := vpUint64()
		ks, hs = append(ks, k), append(hs, h)
		return h
	}
	st := NewShardedTree[uint8, vpShItem](exp, hash, func(a, b vpShItem) bool { return a.k < b.k })
	var m []vpShItem
	for i := 0; i < 3; i++ {
		k, v := vpUint8(), vpUint8()
		it := vpShItem{string([]byte{k}), v}
		st.For(k).ReplaceOrInsert(it)
		rep := false
		for j := range m {
			if m[j].k == it.k {
				m[j].v = v
				rep = true
			}
		}
		if !rep {
			m = append(m, it)
		}
	}
	vpVerify(st.Len() == len(m), "Len is not the number of distinct items")
	for _, e := range m {
		got, ok := st.For(e.k[0]).Get(vpShItem{k: e.k})
		vpVerify(ok && got.v == e.v, "an item is not found through its key")
	}
	vpReach("items")
}

// equal strings and byte slices of 0..4 arbitrary bytes hash equally on every call
//vp:harness prop=C27 timeout=60s
func vpH_C27_hash() {
	b := vpBytes(vpChoose(5))
	s := string(b)
	vpVerify(StringHash(s) == StringHash(string(append([]byte{}, b...))), "StringHash of equal strings differs")
	vpVerify(ByteHash(b) == ByteHash(append([]byte{}, b...)), "ByteHash of equal slices differs")
	x, y := vpString(1), vpString(1)
	vpVerify(StringLess(x, y) == (x[0] < y[0]), "StringLess is not the string order")
	vpReach("hash")
}
