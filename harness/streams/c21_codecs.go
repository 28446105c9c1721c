package streams

import "bytes"

// prior content of a buffer: 0..2 arbitrary bytes
func vpPrior() (*bytes.Buffer, []byte) {
	n := vpChoose(3)
	p := vpBytes(n)
	b := bytes.NewBuffer(nil)
	b.Write(p)
	return b, p
}

func vpSamePrefix(got, want []byte) bool {
	if len(got) < len(want) {
		return false
	}
	return bytes.Equal(got[:len(want)], want)
}

// IntCodec, Int64Codec, Int32Codec round-trip every 64/64/32 bit value after any prior content (0..2 bytes)
//
//vp:harness prop=C21
func vpH_C21_int() {
	b, prior := vpPrior()
	switch vpChoose(3) {
	case 0:
		v := vpInt()
		vpVerify(IntCodec.Encode(b, v) == nil, "IntCodec.Encode fails")
		out := b.Bytes()
		vpVerify(vpSamePrefix(out, prior), "IntCodec.Encode disturbs earlier content")
		r, err := IntCodec.Decode(out[len(prior):])
		vpVerify(err == nil, "IntCodec.Decode fails")
		vpVerify(r == v, "IntCodec does not round-trip")
	case 1:
		v := vpInt64()
		vpVerify(Int64Codec.Encode(b, v) == nil, "Int64Codec.Encode fails")
		out := b.Bytes()
		vpVerify(vpSamePrefix(out, prior), "Int64Codec.Encode disturbs earlier content")
		r, err := Int64Codec.Decode(out[len(prior):])
		vpVerify(err == nil, "Int64Codec.Decode fails")
		vpVerify(r == v, "Int64Codec does not round-trip")
	case 2:
		v := vpInt32()
		vpVerify(Int32Codec.Encode(b, v) == nil, "Int32Codec.Encode fails")
		out := b.Bytes()
		vpVerify(vpSamePrefix(out, prior), "Int32Codec.Encode disturbs earlier content")
		r, err := Int32Codec.Decode(out[len(prior):])
		vpVerify(err == nil, "Int32Codec.Decode fails")
		vpVerify(r == v, "Int32Codec does not round-trip")
	}
	vpReach("int round trip")
}

// decoding any input of 0..7 bytes as an integer reports an error and does not panic
//
//vp:harness prop=C21
func vpH_C21_short() {
	n := vpChoose(8)
	// the input sits at the end of its allocation
	in := vpBytes(n)
	in = append(make([]byte, 0, n), in...)[:n:n]
	if n < 4 {
		_, e := Int32Codec.Decode(in)
		vpVerify(e != nil, "Int32Codec.Decode accepts input that is too short")
	}
	_, e1 := IntCodec.Decode(in)
	vpVerify(e1 != nil, "IntCodec.Decode accepts input that is too short")
	_, e2 := Int64Codec.Decode(in)
	vpVerify(e2 != nil, "Int64Codec.Decode accepts input that is too short")
	vpReach("short input")
}

// StringCodec and ByteCodec round-trip every string/byte slice of 0..6 bytes after any prior content (0..2 bytes)
//
//vp:harness prop=C21
func vpH_C21_bytes() {
	b, prior := vpPrior()
	n := vpChoose(7)
	if vpChoose(2) == 0 {
		s := vpString(n)
		vpVerify(StringCodec.Encode(b, s) == nil, "StringCodec.Encode fails")
		vpVerify(vpSamePrefix(b.Bytes(), prior), "StringCodec.Encode disturbs earlier content")
		r, err := StringCodec.Decode(b.Bytes()[len(prior):])
		vpVerify(err == nil, "StringCodec.Decode fails")
		vpVerify(r == s, "StringCodec does not round-trip")
	} else {
		s := vpBytes(n)
		orig := string(s)
		vpVerify(ByteCodec.Encode(b, s) == nil, "ByteCodec.Encode fails")
		vpVerify(vpSamePrefix(b.Bytes(), prior), "ByteCodec.Encode disturbs earlier content")
		r, err := ByteCodec.Decode(b.Bytes()[len(prior):])
		vpVerify(err == nil, "ByteCodec.Decode fails")
		vpVerify(string(r) == orig && string(s) == orig, "ByteCodec does not round-trip")
	}
	vpReach("bytes round trip")
}
