// Package c13: comparison, encoding and validation of parameter sets.
// Bounds: ring degrees 16 and 32 (construction: every logN from -2 to 20 and every 8-bit logN of an encoding), moduli chains of 1 to 3 elements with and without special primes, both ring types; every 64-bit Hamming weight, every slot count and every standard deviation and scale (64-bit patterns for the binary form, multiples of 2^-16 below 2^36 in size for comparison and JSON; JSON values are structured, decimal text is not modelled); every truncation length; ill-formed moduli: every word of more than 61 bits, every multiple of 3, 5, 97 or 193, every word below 2^61 that is not 1 modulo the root order for a chosen residue, duplicates within and across the chains. Excluded: a Hamming weight, standard deviation or slot count of zero in the JSON form, which stands for the default value.
package c13

import (
	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math"
)

var types = []ring.Type{ring.Standard, ring.ConjugateInvariant}

const fden = 1 << 16
const flim = 1 << 52

func chains() [][2][]uint64 {
	c := [][2][]uint64{
		{{zz.Q30}, {}},
		{{zz.Q30, zz.P30}, {zz.Q36}},
	}
	if zzvsym.Thorough() {
		c = append(c, [2][]uint64{{zz.Q30, zz.P30, zz.R30}, {zz.Q36, zz.P36}}, [2][]uint64{{zz.Q61, zz.Q60}, {zz.P61}})
	}
	return c
}

func mk(logN int, q, p []uint64, h int, sigma float64, t ring.Type) rlwe.Parameters {
	x, err := rlwe.NewParameters(logN, q, p, h, sigma, t)
	zzvsym.Assert(err == nil, "rlwe.NewParameters refuses a valid set")
	return x
}

func anyH(name string) int { return int(zzvsym.I64(name, math.MinInt64, math.MaxInt64)) }

func anyF(name string) float64 { return zzvsym.F64(name, -flim, flim, fden) }

func eq(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// agree checks the components of x.
func agree(x rlwe.Parameters, logN int, q, p []uint64, h int, t ring.Type, id string) {
	zzvsym.Assert(x.LogN() == logN, id+": logN")
	zzvsym.Assert(eq(x.Q(), q), id+": moduli")
	zzvsym.Assert(eq(x.P(), p), id+": special moduli")
	zzvsym.Assert(x.HammingWeight() == h, id+": Hamming weight")
	zzvsym.Assert(x.RingType() == t, id+": ring type")
	if x.LogN() != logN || !eq(x.Q(), q) || !eq(x.P(), p) || x.RingType() != t {
		return
	}
	r := x.RingQ()
	zzvsym.Assert(r != nil && r.N == 1<<uint(logN) && r.Type() == t && eq(r.Modulus, q), id+": ring")
	r = x.RingP()
	if len(p) == 0 {
		zzvsym.Assert(r == nil, id+": special ring")
		return
	}
	zzvsym.Assert(r != nil && r.N == 1<<uint(logN) && r.Type() == t && eq(r.Modulus, p), id+": special ring")
}

type comp struct {
	logN int
	q, p []uint64
	t    ring.Type
}

func variants() []comp {
	s, c := ring.Standard, ring.ConjugateInvariant
	a, b, d, e, f := uint64(zz.Q30), uint64(zz.P30), uint64(zz.R30), uint64(zz.Q36), uint64(zz.P36)
	v := []comp{
		{4, []uint64{a, b}, []uint64{e}, s},
		{5, []uint64{a, b}, []uint64{e}, s},
		{4, []uint64{a, b}, []uint64{e}, c},
		{4, []uint64{a, d}, []uint64{e}, s},
		{4, []uint64{d, b}, []uint64{e}, s},
		{4, []uint64{b, a}, []uint64{e}, s},
		{4, []uint64{a}, []uint64{e}, s},
		{4, []uint64{a, b, d}, []uint64{e}, s},
		{4, []uint64{a, b}, []uint64{f}, s},
		{4, []uint64{a, b}, nil, s},
		{4, []uint64{a, b}, []uint64{e, f}, s},
		{4, []uint64{a}, []uint64{b, e}, s},
	}
	return v
}

// ZZ_RlweEquals compares all pairs of variants with arbitrary scalars.
func ZZ_RlweEquals() {
	v := variants()
	for i := range v {
		for j := range v {
			h0, h1 := anyH("h0"), anyH("h1")
			s0, s1 := anyF("s0"), anyF("s1")
			x := mk(v[i].logN, v[i].q, v[i].p, h0, s0, v[i].t)
			y := mk(v[j].logN, v[j].q, v[j].p, h1, s1, v[j].t)
			want := i == j && h0 == h1 && s0 == s1
			zzvsym.Assert(x.Equals(y) == want, "rlwe.Parameters.Equals")
			zzvsym.Assert(y.Equals(x) == want, "rlwe.Parameters.Equals reversed")
			zzvsym.Assert(x.CopyNew().Equals(x) && x.Equals(x.CopyNew()), "rlwe.Parameters.CopyNew")
		}
		zzvsym.Assert(!mk(v[i].logN, v[i].q, v[i].p, 1, 1, v[i].t).Equals(rlwe.Parameters{}), "rlwe.Parameters.Equals empty")
	}
	zzvsym.Assert(rlwe.Parameters{}.Equals(rlwe.Parameters{}), "rlwe.Parameters.Equals both empty")
}

// ZZ_CkksEquals compares slot counts and scales too.
func ZZ_CkksEquals() {
	v := variants()[:3]
	for i := range v {
		for j := range v {
			h0, h1 := anyH("h0"), anyH("h1")
			s0, s1 := anyF("s0"), anyF("s1")
			d0, d1 := anyF("d0"), anyF("d1")
			for l0 := 2; l0 <= 3; l0++ {
				for l1 := 2; l1 <= 3; l1++ {
					x, e0 := ckks.NewParameters(mk(v[i].logN, v[i].q, v[i].p, h0, s0, v[i].t), l0, d0)
					y, e1 := ckks.NewParameters(mk(v[j].logN, v[j].q, v[j].p, h1, s1, v[j].t), l1, d1)
					zzvsym.Assert(e0 == nil && e1 == nil, "ckks.NewParameters refuses a valid set")
					want := i == j && h0 == h1 && s0 == s1 && l0 == l1 && d0 == d1
					zzvsym.Assert(x.Equals(y) == want, "ckks.Parameters.Equals")
					zzvsym.Assert(y.Equals(x) == want, "ckks.Parameters.Equals reversed")
				}
			}
		}
	}
}

// cuts checks that every proper prefix is refused without a crash.
func cuts(data []byte, dec func([]byte) error, id string) {
	for c := 0; c < len(data); c++ {
		d := append([]byte{}, data[:c]...)
		var err error
		panicked := zzvsym.Panics(func() { err = dec(d) })
		zzvsym.Assert(!panicked, id+": truncated encoding crashes")
		zzvsym.Assert(panicked || err != nil, id+": truncated encoding accepted")
	}
}

// ZZ_RlweBinary round-trips the binary form.
func ZZ_RlweBinary() {
	for _, logN := range []int{4, 5} {
		for _, c := range chains() {
			for _, t := range types {
				h := anyH("h")
				bits := zzvsym.U64("sigma", 0, math.MaxUint64)
				x := mk(logN, c[0], c[1], h, math.Float64frombits(bits), t)
				data, err := x.MarshalBinary()
				zzvsym.Assert(err == nil, "rlwe.Parameters.MarshalBinary fails")
				zzvsym.Assert(len(data) == x.MarshalBinarySize(), "rlwe.Parameters.MarshalBinarySize")
				for k := 0; k < 2; k++ {
					var y rlwe.Parameters
					if k == 1 {
						y = mk(4, []uint64{zz.S30}, []uint64{zz.S36}, 3, 2, ring.Standard)
					}
					zzvsym.Assert(y.UnmarshalBinary(data) == nil, "rlwe.Parameters.UnmarshalBinary fails")
					agree(y, logN, c[0], c[1], h, t, "rlwe.Parameters.UnmarshalBinary")
					zzvsym.Assert(math.Float64bits(y.Sigma()) == bits, "rlwe.Parameters.UnmarshalBinary: sigma")
				}
				cuts(data, func(d []byte) error { return new(rlwe.Parameters).UnmarshalBinary(d) }, "rlwe.Parameters.UnmarshalBinary")
			}
		}
	}
}

// ZZ_CkksBinary round-trips the binary form.
func ZZ_CkksBinary() {
	for _, logN := range []int{4, 5} {
		for _, c := range chains() {
			for _, t := range types {
				h := anyH("h")
				bits := zzvsym.U64("sigma", 0, math.MaxUint64)
				sbits := zzvsym.U64("scale", 0, math.MaxUint64)
				max := logN - 1
				if t == ring.ConjugateInvariant {
					max = logN
				}
				for ls := 1; ls <= max; ls++ {
					x, err := ckks.NewParameters(mk(logN, c[0], c[1], h, math.Float64frombits(bits), t), ls, math.Float64frombits(sbits))
					zzvsym.Assert(err == nil, "ckks.NewParameters refuses a valid set")
					data, err := x.MarshalBinary()
					zzvsym.Assert(err == nil, "ckks.Parameters.MarshalBinary fails")
					zzvsym.Assert(len(data) == x.MarshalBinarySize(), "ckks.Parameters.MarshalBinarySize")
					var y ckks.Parameters
					zzvsym.Assert(y.UnmarshalBinary(data) == nil, "ckks.Parameters.UnmarshalBinary fails")
					agree(y.Parameters, logN, c[0], c[1], h, t, "ckks.Parameters.UnmarshalBinary")
					zzvsym.Assert(math.Float64bits(y.Sigma()) == bits, "ckks.Parameters.UnmarshalBinary: sigma")
					zzvsym.Assert(math.Float64bits(y.DefaultScale()) == sbits, "ckks.Parameters.UnmarshalBinary: scale")
					zzvsym.Assert(y.LogSlots() == ls, "ckks.Parameters.UnmarshalBinary: slots")
					if ls == max {
						cuts(data, func(d []byte) error { return new(ckks.Parameters).UnmarshalBinary(d) }, "ckks.Parameters.UnmarshalBinary")
					}
				}
			}
		}
	}
}

// ZZ_BinaryInvalid decodes encodings with one invalid field.
func ZZ_BinaryInvalid() {
	for _, t := range types {
		x := mk(4, []uint64{zz.Q30, zz.P30}, []uint64{zz.Q36}, 5, 3.2, t)
		data, _ := x.MarshalBinary()
		y, _ := ckks.NewParameters(x, 2, 1024)
		data2, _ := y.MarshalBinary()
		bad := func(d []byte, f func([]byte) error, id string) {
			var err error
			panicked := zzvsym.Panics(func() { err = f(d) })
			zzvsym.Assert(!panicked, id+" crashes")
			zzvsym.Assert(panicked || err != nil, id+" accepted")
		}
		r := func(d []byte) error { return new(rlwe.Parameters).UnmarshalBinary(d) }
		c := func(d []byte) error { return new(ckks.Parameters).UnmarshalBinary(d) }
		both := func(f func(d []byte), id string) {
			d := append([]byte{}, data...)
			f(d)
			bad(d, r, "rlwe.Parameters.UnmarshalBinary: "+id)
			d = append([]byte{}, data2...)
			f(d)
			bad(d, c, "ckks.Parameters.UnmarshalBinary: "+id)
		}
		n := byte(zzvsym.U64("logN", 18, 255))
		both(func(d []byte) { d[0] = n }, "large degree")
		n = byte(zzvsym.U64("logN", 0, 3))
		both(func(d []byte) { d[0] = n }, "small degree")
		n = byte(zzvsym.U64("type", 2, 255))
		both(func(d []byte) { d[19] = n }, "ring type")
		n = byte(zzvsym.U64("count", 3, 255))
		both(func(d []byte) { d[1] = n }, "more moduli than data")
		n = byte(zzvsym.U64("count", 2, 255))
		both(func(d []byte) { d[2] = n }, "more special moduli than data")
		n = byte(zzvsym.U64("low", 0, 127))
		for i := 0; i < 3; i++ {
			both(func(d []byte) { d[20+8*i+7] = 2 * n }, "even modulus")
		}
	}
}

// ZZ_Json round-trips the JSON form.
func ZZ_Json() { json(false) }

// ZZ_JsonNeg does the same for negative scalars.
func ZZ_JsonNeg() { json(true) }

func json(neg bool) {
	for _, logN := range []int{4, 5} {
		for _, c := range chains() {
			for _, t := range types {
				h, s, d := int(zzvsym.I64("h", 1, math.MaxInt64)), zzvsym.F64("sigma", 1, flim, fden), anyF("scale")
				if neg {
					h, s = int(zzvsym.I64("h", math.MinInt64, -1)), zzvsym.F64("sigma", -flim, -1, fden)
				}
				x := mk(logN, c[0], c[1], h, s, t)
				data, err := x.MarshalJSON()
				zzvsym.Assert(err == nil, "rlwe.Parameters.MarshalJSON fails")
				for k := 0; k < 2; k++ {
					var y rlwe.Parameters
					if k == 1 {
						y = mk(4, []uint64{zz.S30}, []uint64{zz.S36}, 3, 2, ring.ConjugateInvariant)
					}
					zzvsym.Assert(y.UnmarshalJSON(data) == nil, "rlwe.Parameters.UnmarshalJSON fails")
					agree(y, logN, c[0], c[1], h, t, "rlwe.Parameters.UnmarshalJSON")
					zzvsym.Assert(y.Sigma() == s, "rlwe.Parameters.UnmarshalJSON: sigma")
					zzvsym.Assert(y.Equals(x), "rlwe.Parameters.UnmarshalJSON: Equals")
				}
				max := logN - 1
				if t == ring.ConjugateInvariant {
					max = logN
				}
				for ls := 1; ls <= max; ls++ {
					x, err := ckks.NewParameters(x, ls, d)
					zzvsym.Assert(err == nil, "ckks.NewParameters refuses a valid set")
					data, err := x.MarshalJSON()
					zzvsym.Assert(err == nil, "ckks.Parameters.MarshalJSON fails")
					var y ckks.Parameters
					zzvsym.Assert(y.UnmarshalJSON(data) == nil, "ckks.Parameters.UnmarshalJSON fails")
					agree(y.Parameters, logN, c[0], c[1], h, t, "ckks.Parameters.UnmarshalJSON")
					zzvsym.Assert(y.Sigma() == s, "ckks.Parameters.UnmarshalJSON: sigma")
					zzvsym.Assert(y.LogSlots() == ls && y.DefaultScale() == d, "ckks.Parameters.UnmarshalJSON: slots or scale")
					zzvsym.Assert(y.Equals(x), "ckks.Parameters.UnmarshalJSON: Equals")
				}
			}
		}
	}
}

// ZZ_JsonInvalid decodes malformed text and invalid sets.
func ZZ_JsonInvalid() {
	ok := `{"LogN":4,"Q":[1073742209],"P":[],"H":3,"Sigma":3.2,"LogSlots":2,"DefaultScale":1024,"RingType":"Standard"}`
	_ = ok
	bad := []string{
		"", "{", "[]", "3", `"x"`, "null", "{}",
		`{"LogN":4,"Q":[1],"P":[],"H":3,"Sigma":3.2}`,
		`{"LogN":4,"Q":[15],"P":[],"H":3,"Sigma":3.2}`,
		`{"LogN":4,"Q":[101],"P":[],"H":3,"Sigma":3.2}`,
		`{"LogN":4,"Q":[97,97],"P":[],"H":3,"Sigma":3.2}`,
		`{"LogN":4,"Q":[97],"P":[97],"H":3,"Sigma":3.2}`,
		`{"LogN":4,"Q":[97],"P":[193,193],"H":3,"Sigma":3.2}`,
		`{"LogN":3,"Q":[97],"P":[193],"H":3,"Sigma":3.2}`,
		`{"LogN":18,"Q":[97],"P":[193],"H":3,"Sigma":3.2}`,
		`{"LogN":-1,"Q":[97],"P":[193],"Sigma":3.2}`,
		`{"LogN":0,"Q":[97],"P":[193],"Sigma":3.2}`,
		`{"LogN":4,"Q":[97],"P":[193],"H":3,"Sigma":3.2,"RingType":"Other"}`,
		`{"LogN":4,"Q":[97],"P":[193],"H":3,"Sigma":3.2,"RingType":7}`,
		`{"LogN":4,"Q":[-97],"P":[193],"H":3,"Sigma":3.2}`,
		`{"LogN":4,"Q":[97],"LogQ":[30],"P":[193],"H":3,"Sigma":3.2}`,
		`{"LogN":4,"LogQ":[62],"LogP":[30],"H":3,"Sigma":3.2}`,
		`{"LogN":4,"LogQ":[30],"LogP":[0],"H":3,"Sigma":3.2}`,
		`{"LogN":"4","Q":[97],"P":[193],"H":3,"Sigma":3.2}`,
		`{"LogN":4,"Q":[97],"P":[193],"H":3,"Sigma":3.2`,
		`{"LogN":4,"Q":[97],"P":[193],"H":3,"Sigma":3.2}}`,
	}
	for _, s := range bad {
		var e0, e1 error
		p0 := zzvsym.Panics(func() { e0 = new(rlwe.Parameters).UnmarshalJSON([]byte(s)) })
		p1 := zzvsym.Panics(func() { e1 = new(ckks.Parameters).UnmarshalJSON([]byte(s)) })
		zzvsym.Assert(!p0, "rlwe.Parameters.UnmarshalJSON: invalid text crashes")
		zzvsym.Assert(!p1, "ckks.Parameters.UnmarshalJSON: invalid text crashes")
		zzvsym.Assert(p0 || e0 != nil, "rlwe.Parameters.UnmarshalJSON: invalid text accepted")
		zzvsym.Assert(p1 || e1 != nil, "ckks.Parameters.UnmarshalJSON: invalid text accepted")
	}
	// a type error must not leave the other fields in force
	for _, s := range []string{
		`{"LogN":4,"Q":[97],"P":[193],"H":3,"Sigma":3.2,"LogSlots":"2"}`,
		`{"LogN":4,"Q":[97],"P":[193],"H":3,"Sigma":3.2,"LogSlots":2,"DefaultScale":"1"}`,
		`{"LogN":4,"Q":[97],"P":[193],"H":3.5,"Sigma":3.2,"LogSlots":2,"DefaultScale":1}`,
		`{"LogN":4,"Q":[97],"P":[193],"H":3,"Sigma":3.2,"LogSlots":4,"DefaultScale":1}`,
		`{"LogN":4,"Q":[97],"P":[193],"H":3,"Sigma":3.2,"LogSlots":-1,"DefaultScale":1}`,
	} {
		var e1 error
		p1 := zzvsym.Panics(func() { e1 = new(ckks.Parameters).UnmarshalJSON([]byte(s)) })
		zzvsym.Assert(!p1, "ckks.Parameters.UnmarshalJSON: ill-typed text crashes")
		zzvsym.Assert(p1 || e1 != nil, "ckks.Parameters.UnmarshalJSON: ill-typed text accepted")
	}
}

// refused checks every way of constructing the set.
func refused(logN int, q, p []uint64, t ring.Type, id string) {
	h := anyH("h")
	var err error
	panicked := zzvsym.Panics(func() { _, err = rlwe.NewParameters(logN, q, p, h, 3.2, t) })
	zzvsym.Assert(!panicked, "rlwe.NewParameters: "+id+" crashes")
	zzvsym.Assert(panicked || err != nil, "rlwe.NewParameters: "+id+" accepted")
	for k := 0; k < 2; k++ {
		h := 0
		if k == 1 {
			h = 7
		}
		panicked := zzvsym.Panics(func() {
			_, err = rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, Q: q, P: p, H: h, RingType: t})
		})
		zzvsym.Assert(!panicked, "rlwe.NewParametersFromLiteral: "+id+" crashes")
		zzvsym.Assert(panicked || err != nil, "rlwe.NewParametersFromLiteral: "+id+" accepted")
		panicked = zzvsym.Panics(func() {
			_, err = ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: logN, Q: q, P: p, H: h, RingType: t, LogSlots: 2, DefaultScale: 1024})
		})
		zzvsym.Assert(!panicked, "ckks.NewParametersFromLiteral: "+id+" crashes")
		zzvsym.Assert(panicked || err != nil, "ckks.NewParametersFromLiteral: "+id+" accepted")
	}
}

// ZZ_Degrees constructs with every degree around the valid range.
func ZZ_Degrees() {
	for logN := -2; logN <= 20; logN++ {
		if logN >= 4 && logN <= 17 {
			continue
		}
		refused(logN, []uint64{zz.Q61}, []uint64{zz.P61}, ring.Standard, "degree")
	}
	logN := int(zzvsym.I64("logN", 18, math.MaxInt64))
	_, err := rlwe.NewParameters(logN, []uint64{zz.Q61}, []uint64{zz.P61}, 3, 3.2, ring.Standard)
	zzvsym.Assert(err != nil, "rlwe.NewParameters: huge degree accepted")
	logN = int(zzvsym.I64("logN", math.MinInt64, 3))
	_, err = rlwe.NewParameters(logN, []uint64{zz.Q61}, []uint64{zz.P61}, 3, 3.2, ring.Standard)
	zzvsym.Assert(err != nil, "rlwe.NewParameters: negative degree accepted")
}

func positions(bad uint64, f func(q, p []uint64)) {
	f([]uint64{bad}, []uint64{})
	f([]uint64{bad, zz.Q30}, []uint64{zz.Q36})
	f([]uint64{zz.Q30, bad}, []uint64{zz.Q36})
	f([]uint64{zz.Q30, zz.P30}, []uint64{bad})
	f([]uint64{zz.Q30, zz.P30}, []uint64{zz.Q36, bad})
}

// ZZ_LargeModuli: words beyond the size the arithmetic supports.
func ZZ_LargeModuli() {
	positions(zzvsym.U64("q", 1<<61, math.MaxUint64), func(q, p []uint64) { refused(4, q, p, ring.Standard, "oversized modulus") })
}

// ZZ_CompositeModuli: multiples of a small prime, congruent to one or not.
func ZZ_CompositeModuli() {
	for _, t := range types {
		for _, f := range []uint64{2, 3, 5, 97} {
			k := zzvsym.U64("k", 2, (1<<61)/97)
			positions(f*k, func(q, p []uint64) { refused(4, q, p, t, "composite modulus") })
			if f != 2 {
				c := uint64(1)
				for f*c%64 != 1 {
					c++
				}
				k = zzvsym.U64("k", 1, (1<<61)/97/64-1)
				positions(f*(c+64*k), func(q, p []uint64) { refused(4, q, p, t, "composite NTT-friendly modulus") })
			}
		}
	}
}

// ZZ_BadRoots: primes without the root of unity.
func ZZ_BadRoots() {
	for _, t := range types {
		for _, q := range []uint64{2, 3, 17, 101, 113, 1000003, 2305843009213693951} {
			positions(q, func(q, p []uint64) { refused(4, q, p, t, "modulus without root") })
		}
	}
	// 97 = 1 mod 32 but not mod 64
	positions(97, func(q, p []uint64) {
		refused(4, q, p, ring.ConjugateInvariant, "modulus without root")
		refused(5, q, p, ring.Standard, "modulus without root")
	})
	positions(0, func(q, p []uint64) { refused(4, q, p, ring.Standard, "zero modulus") })
	positions(1, func(q, p []uint64) { refused(4, q, p, ring.Standard, "unit modulus") })
}

// ZZ_Duplicates within and across the chains.
func ZZ_Duplicates() {
	a, b, c := uint64(zz.Q30), uint64(zz.P30), uint64(zz.Q36)
	for _, t := range types {
		for _, x := range [][2][]uint64{
			{{a, a}, {}}, {{a, b, a}, {c}}, {{b, a, a}, {c}}, {{a}, {c, c}}, {{a}, {c, b, c}},
			{{a}, {a}}, {{a, b}, {b}}, {{a, b}, {c, a}}, {{a, b, c}, {c}},
		} {
			refused(4, x[0], x[1], t, "duplicate modulus")
		}
	}
	refused(4, []uint64{}, []uint64{a}, ring.Standard, "empty chain")
}

// ZZ_Slots: ckks.NewParameters accepts exactly the valid slot counts.
func ZZ_Slots() {
	for _, t := range types {
		for _, logN := range []int{4, 5} {
			max := logN - 1
			if t == ring.ConjugateInvariant {
				max = logN
			}
			x := mk(logN, []uint64{zz.Q30}, []uint64{zz.Q36}, 5, 3.2, t)
			ls := int(zzvsym.I64("logSlots", math.MinInt64, math.MaxInt64))
			_, err := ckks.NewParameters(x, ls, 1024)
			if ls > max || ls < 0 {
				zzvsym.Assert(err != nil, "ckks.NewParameters: invalid slot count accepted")
			}
			if ls >= 1 && ls <= max {
				zzvsym.Assert(err == nil, "ckks.NewParameters: valid slot count refused")
			}
		}
	}
	_, err := ckks.NewParameters(rlwe.Parameters{}, 2, 1024)
	zzvsym.Assert(err != nil, "ckks.NewParameters: empty set accepted")
}
