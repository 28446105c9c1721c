package streams

import "bytes"

// every int64 decodes to itself, whatever was in the buffer before (0..2 bytes)
//
//vp:harness prop=C22
func vpH_C22_roundtrip() {
	n := vpChoose(3)
	prior := vpBytes(n)
	b := bytes.NewBuffer(nil)
	b.Write(prior)
	v := vpInt64()
	vpVerify(LexoInt64Codec.Encode(b, v) == nil, "Encode fails")
	out := b.Bytes()
	vpVerify(len(out) == n+LexInt64Size, "encoding does not have LexInt64Size bytes")
	vpVerify(bytes.Equal(out[:n], prior), "Encode disturbs earlier content")
	r, err := LexoInt64Codec.Decode(out[n:])
	vpVerify(err == nil, "Decode rejects an encoding")
	vpVerify(r == v, "LexoInt64Codec does not round-trip")
	vpReach("round trip")
}

// for every pair a < b of int64 values enc(a) sorts before enc(b)
//
//vp:harness prop=C22
func vpH_C22_order() {
	x, y := vpInt64(), vpInt64()
	vpAssume(x < y)
	b1, b2 := bytes.NewBuffer(nil), bytes.NewBuffer(nil)
	LexoInt64Codec.Encode(b1, x)
	LexoInt64Codec.Encode(b2, y)
	vpVerify(bytes.Compare(b1.Bytes(), b2.Bytes()) < 0, "order of the encodings differs from the order of the integers")
	vpReach("order")
}

// input of every length 0..16 other than LexInt64Size is rejected with an error
//
//vp:harness prop=C22
func vpH_C22_length() {
	n := vpChoose(17)
	in := vpBytes(n)
	_, err := LexoInt64Codec.Decode(in)
	vpVerify((err == nil) == (n == LexInt64Size), "wrong length accepted or right length rejected")
	vpReach("length")
}
