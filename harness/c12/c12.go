// Package c12: binary encodings of polynomials, ciphertexts and keys.
// Bounds: polynomials of degree 1, 2, 4 (thorough 8) with 1 to 3 rows; ciphertexts of degree 0 to 2; gadget keys of 1 to 3 rows with and without special primes, relinearisation keys of 1 and 2 entries, rotation sets of 0 to 2 entries; every 64-bit coefficient (32-bit for the 32-bit format), both flags of every polynomial, every 64-bit pattern of the scale, every 32-bit Galois element; every truncation length.
package c12

import (
	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math"
)

func poly(name string, n, m int, max uint64) *ring.Poly {
	p := ring.NewPoly(n, m)
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = zzvsym.U64(name, 0, max)
		}
	}
	p.IsNTT = zzvsym.Bool(name + ".ntt")
	p.IsMForm = zzvsym.Bool(name + ".mform")
	return p
}

func qp(name string, n, mq, mp int) rlwe.PolyQP {
	x := rlwe.PolyQP{}
	if mq > 0 {
		x.Q = poly(name+".q", n, mq, math.MaxUint64)
	}
	if mp > 0 {
		x.P = poly(name+".p", n, mp, math.MaxUint64)
	}
	return x
}

func same(got, want *ring.Poly, id string) {
	if got == nil || want == nil {
		zzvsym.Assert(got == nil && want == nil, id+": presence")
		return
	}
	zzvsym.Assert(got.IsNTT == want.IsNTT, id+": NTT flag")
	zzvsym.Assert(got.IsMForm == want.IsMForm, id+": Montgomery flag")
	zzvsym.Assert(len(got.Coeffs) == len(want.Coeffs), id+": rows")
	if len(got.Coeffs) != len(want.Coeffs) {
		return
	}
	for i := range want.Coeffs {
		zzvsym.Assert(len(got.Coeffs[i]) == len(want.Coeffs[i]), id+": degree")
		if len(got.Coeffs[i]) != len(want.Coeffs[i]) {
			return
		}
		for j := range want.Coeffs[i] {
			zzvsym.Assert(got.Coeffs[i][j] == want.Coeffs[i][j], id+": coefficients")
		}
	}
}

func sameQP(got, want rlwe.PolyQP, id string) {
	same(got.Q, want.Q, id+" (Q)")
	same(got.P, want.P, id+" (P)")
}

// cuts checks that every proper prefix is refused without a crash.
func cuts(data []byte, dec func([]byte) error, skip func(int) bool, id string) {
	for c := 0; c < len(data); c++ {
		if skip != nil && skip(c) {
			continue
		}
		d := make([]byte, c)
		copy(d, data[:c])
		var err error
		panicked := zzvsym.Panics(func() { err = dec(d) })
		zzvsym.Assert(!panicked, id+": truncated encoding crashes")
		zzvsym.Assert(panicked || err != nil, id+": truncated encoding accepted")
	}
}

func sizes() []int {
	if zzvsym.Thorough() {
		return []int{1, 2, 4, 8}
	}
	return []int{1, 2, 4}
}

// dirty is a receiver with unrelated content.
func dirty(k int) *ring.Poly {
	p := new(ring.Poly)
	if k > 0 {
		p = ring.NewPoly(2, k)
		p.IsNTT = zzvsym.Bool("old.ntt")
		p.IsMForm = zzvsym.Bool("old.mform")
		for i := range p.Coeffs {
			for j := range p.Coeffs[i] {
				p.Coeffs[i][j] = zzvsym.U64("old", 0, math.MaxUint64)
			}
		}
	}
	return p
}

func ZZ_Poly() {
	for _, n := range sizes() {
		for m := 1; m <= 3; m++ {
			p := poly("p", n, m, math.MaxUint64)
			data, err := p.MarshalBinary()
			zzvsym.Assert(err == nil, "Poly.MarshalBinary fails")
			zzvsym.Assert(len(data) == p.GetDataLen(true), "Poly.GetDataLen")
			for k := 0; k <= 3; k++ {
				got := dirty(k)
				zzvsym.Assert(got.UnmarshalBinary(data) == nil, "Poly.UnmarshalBinary fails")
				same(got, p, "Poly.UnmarshalBinary")
				got = dirty(k)
				pt, err := got.DecodePolyNew(data)
				zzvsym.Assert(err == nil && pt == len(data), "Poly.DecodePolyNew length")
				same(got, p, "Poly.DecodePolyNew")
			}
			cuts(data, func(d []byte) error { return new(ring.Poly).UnmarshalBinary(d) }, nil, "Poly.UnmarshalBinary")
			cuts(data, func(d []byte) error { _, e := new(ring.Poly).DecodePolyNew(d); return e }, nil, "Poly.DecodePolyNew")
		}
	}
}

// ZZ_PolyWriteTo writes in a buffer with previous content and bytes beyond.
func ZZ_PolyWriteTo() {
	for _, n := range sizes() {
		for m := 1; m <= 2; m++ {
			for extra := 0; extra <= 3; extra += 3 {
				p := poly("p", n, m, math.MaxUint64)
				l := p.GetDataLen(true)
				buf := make([]byte, l+extra)
				for i := range buf {
					buf[i] = zzvsym.Byte("buf")
				}
				tail := append([]byte{}, buf[l:]...)
				pt, err := p.WriteTo(buf)
				zzvsym.Assert(err == nil && pt == l, "Poly.WriteTo length")
				got := new(ring.Poly)
				pt, err = got.DecodePolyNew(buf)
				zzvsym.Assert(err == nil && pt == l, "DecodePolyNew of WriteTo")
				same(got, p, "WriteTo")
				for i := range tail {
					zzvsym.Assert(buf[l+i] == tail[i], "WriteTo writes past its length")
				}
				for c := 0; c < l; c++ {
					var e error
					bad := zzvsym.Panics(func() { _, e = p.WriteTo(make([]byte, c)) })
					zzvsym.Assert(!bad && e != nil, "WriteTo a short buffer")
				}
			}
		}
	}
}

func ZZ_Poly32() {
	for _, n := range sizes() {
		for m := 1; m <= 2; m++ {
			p := poly("p", n, m, math.MaxUint32)
			l := p.GetDataLen32(true)
			buf := make([]byte, l)
			for i := range buf {
				buf[i] = zzvsym.Byte("buf")
			}
			pt, err := p.WriteTo32(buf)
			zzvsym.Assert(err == nil && pt == l, "Poly.WriteTo32 length")
			for k := 0; k <= 3; k++ {
				got := dirty(k)
				pt, err = got.DecodePolyNew32(buf)
				zzvsym.Assert(err == nil && pt == l, "DecodePolyNew32 length")
				same(got, p, "WriteTo32")
			}
			cuts(buf, func(d []byte) error { _, e := new(ring.Poly).DecodePolyNew32(d); return e }, nil, "Poly.DecodePolyNew32")
			for c := 0; c < l; c++ {
				var e error
				bad := zzvsym.Panics(func() { _, e = p.WriteTo32(make([]byte, c)) })
				zzvsym.Assert(!bad && e != nil, "WriteTo32 a short buffer")
			}
		}
	}
}

// ZZ_Coeffs covers the encodings without header.
func ZZ_Coeffs() {
	for _, n := range sizes() {
		for m := 1; m <= 3; m++ {
			p := poly("p", n, m, math.MaxUint64)
			buf := make([]byte, p.GetDataLen(false))
			pt, err := p.WriteCoeffs(buf)
			zzvsym.Assert(err == nil && pt == len(buf), "WriteCoeffs length")
			got := ring.NewPoly(n, m)
			pt, err = ring.DecodeCoeffs(0, n, m, got.Coeffs, buf)
			zzvsym.Assert(err == nil && pt == len(buf), "DecodeCoeffs length")
			for i := range p.Coeffs {
				for j := range p.Coeffs[i] {
					zzvsym.Assert(got.Coeffs[i][j] == p.Coeffs[i][j], "WriteCoeffs")
				}
			}
		}
	}
}

func ct(name string, n, m, deg int) *rlwe.Ciphertext {
	c := &rlwe.Ciphertext{}
	for d := 0; d <= deg; d++ {
		c.Value = append(c.Value, poly(name, n, m, math.MaxUint64))
	}
	return c
}

func sameCt(got, want *rlwe.Ciphertext, id string) {
	zzvsym.Assert(got != nil && len(got.Value) == len(want.Value), id+": degree")
	if got == nil || len(got.Value) != len(want.Value) {
		return
	}
	for d := range want.Value {
		same(got.Value[d], want.Value[d], id)
	}
}

func ZZ_Ciphertext() {
	for _, n := range sizes() {
		for deg := 0; deg <= 2; deg++ {
			for m := 1; m <= 2; m++ {
				c := ct("c", n, m, deg)
				data, err := c.MarshalBinary()
				zzvsym.Assert(err == nil && len(data) == c.GetDataLen(true), "rlwe.Ciphertext length")
				for k := 0; k <= 1; k++ {
					got := new(rlwe.Ciphertext)
					if k == 1 {
						got = ct("old", 2, 2, 1)
					}
					zzvsym.Assert(got.UnmarshalBinary(data) == nil, "rlwe.Ciphertext.UnmarshalBinary fails")
					sameCt(got, c, "rlwe.Ciphertext")
				}
				cuts(data, func(d []byte) error { return new(rlwe.Ciphertext).UnmarshalBinary(d) }, nil, "rlwe.Ciphertext")
			}
		}
	}
}

func ZZ_CkksCiphertext() {
	for _, n := range sizes() {
		for deg := 0; deg <= 2; deg++ {
			bitsIn := zzvsym.U64("scale", 0, math.MaxUint64)
			c := &ckks.Ciphertext{Ciphertext: ct("c", n, 2, deg), Scale: math.Float64frombits(bitsIn)}
			data, err := c.MarshalBinary()
			zzvsym.Assert(err == nil && len(data) == c.GetDataLen(true), "ckks.Ciphertext length")
			for k := 0; k <= 1; k++ {
				got := new(ckks.Ciphertext)
				if k == 1 {
					got = &ckks.Ciphertext{Ciphertext: ct("old", 2, 2, 1), Scale: 7}
				}
				zzvsym.Assert(got.UnmarshalBinary(data) == nil, "ckks.Ciphertext.UnmarshalBinary fails")
				sameCt(got.Ciphertext, c.Ciphertext, "ckks.Ciphertext")
				zzvsym.Assert(math.Float64bits(got.Scale) == bitsIn, "ckks.Ciphertext: scale")
			}
			cuts(data, func(d []byte) error { return new(ckks.Ciphertext).UnmarshalBinary(d) }, nil, "ckks.Ciphertext")
		}
	}
}

func ZZ_SecretKey() {
	for _, n := range sizes() {
		for mp := 0; mp <= 2; mp++ {
			sk := &rlwe.SecretKey{Value: qp("sk", n, 2, mp)}
			data, err := sk.MarshalBinary()
			zzvsym.Assert(err == nil && len(data) == sk.GetDataLen(true), "SecretKey length")
			for k := 0; k <= 1; k++ {
				got := new(rlwe.SecretKey)
				if k == 1 {
					got.Value = qp("old", 2, 3, 1)
				}
				zzvsym.Assert(got.UnmarshalBinary(data) == nil, "SecretKey.UnmarshalBinary fails")
				sameQP(got.Value, sk.Value, "SecretKey")
			}
			cuts(data, func(d []byte) error { return new(rlwe.SecretKey).UnmarshalBinary(d) }, nil, "SecretKey")
		}
	}
}

func ZZ_PolyQP() {
	for _, n := range sizes() {
		for mp := 0; mp <= 1; mp++ {
			p := qp("p", n, 1, mp)
			l := p.GetDataLen(true)
			buf := make([]byte, l+2)
			for i := range buf {
				buf[i] = zzvsym.Byte("buf")
			}
			pt, err := p.WriteTo(buf)
			zzvsym.Assert(err == nil && pt == l, "PolyQP.WriteTo length")
			got := qp("old", 2, 2, 1)
			pt, err = got.DecodePolyNew(buf)
			zzvsym.Assert(err == nil && pt == l, "PolyQP.DecodePolyNew length")
			sameQP(got, p, "PolyQP")
			for c := 0; c < l; c++ {
				var e error
				bad := zzvsym.Panics(func() { _, e = p.WriteTo(make([]byte, c)) })
				zzvsym.Assert(!bad && e != nil, "PolyQP.WriteTo a short buffer")
			}
		}
	}
}

func ZZ_PublicKey() {
	for _, n := range sizes() {
		for mp := 0; mp <= 2; mp++ {
			pk := &rlwe.PublicKey{Value: [2]rlwe.PolyQP{qp("b", n, 2, mp), qp("a", n, 2, mp)}}
			data, err := pk.MarshalBinary()
			zzvsym.Assert(err == nil && len(data) == pk.GetDataLen(true), "PublicKey length")
			for k := 0; k <= 1; k++ {
				got := new(rlwe.PublicKey)
				if k == 1 {
					got.Value = [2]rlwe.PolyQP{qp("old", 2, 3, 1), qp("old", 2, 3, 1)}
				}
				zzvsym.Assert(got.UnmarshalBinary(data) == nil, "PublicKey.UnmarshalBinary fails")
				sameQP(got.Value[0], pk.Value[0], "PublicKey 0")
				sameQP(got.Value[1], pk.Value[1], "PublicKey 1")
			}
			cuts(data, func(d []byte) error { return new(rlwe.PublicKey).UnmarshalBinary(d) }, nil, "PublicKey")
		}
	}
}

func swk(name string, n, rows, mq, mp int) *rlwe.SwitchingKey {
	k := &rlwe.SwitchingKey{Value: make([][2]rlwe.PolyQP, rows)}
	for i := range k.Value {
		k.Value[i][0] = qp(name+".b", n, mq, mp)
		k.Value[i][1] = qp(name+".a", n, mq, mp)
	}
	return k
}

func sameSwk(got, want *rlwe.SwitchingKey, id string) {
	zzvsym.Assert(got != nil && len(got.Value) == len(want.Value), id+": gadget rows")
	if got == nil || len(got.Value) != len(want.Value) {
		return
	}
	for i := range want.Value {
		sameQP(got.Value[i][0], want.Value[i][0], id+" 0")
		sameQP(got.Value[i][1], want.Value[i][1], id+" 1")
	}
}

func ZZ_SwitchingKey() {
	for rows := 1; rows <= 3; rows++ {
		for mp := 0; mp <= 2; mp++ {
			k := swk("k", 2, rows, 2, mp)
			data, err := k.MarshalBinary()
			zzvsym.Assert(err == nil && len(data) == k.GetDataLen(true), "SwitchingKey length")
			for c := 0; c <= 1; c++ {
				got := new(rlwe.SwitchingKey)
				if c == 1 {
					got = swk("old", 1, 2, 1, 1)
				}
				zzvsym.Assert(got.UnmarshalBinary(data) == nil, "SwitchingKey.UnmarshalBinary fails")
				sameSwk(got, k, "SwitchingKey")
			}
			cuts(data, func(d []byte) error { return new(rlwe.SwitchingKey).UnmarshalBinary(d) }, nil, "SwitchingKey")
		}
	}
}

func ZZ_RelinearizationKey() {
	for deg := 1; deg <= 2; deg++ {
		for mp := 0; mp <= 1; mp++ {
			k := &rlwe.RelinearizationKey{}
			for i := 0; i < deg; i++ {
				k.Keys = append(k.Keys, swk("k"+zz.Itoa(i), 2, 2, 2, mp))
			}
			data, err := k.MarshalBinary()
			zzvsym.Assert(err == nil && len(data) == k.GetDataLen(true), "RelinearizationKey length")
			for c := 0; c <= 1; c++ {
				got := new(rlwe.RelinearizationKey)
				if c == 1 {
					got.Keys = []*rlwe.SwitchingKey{swk("old", 1, 2, 1, 1), swk("old", 1, 2, 1, 1), swk("old", 1, 2, 1, 1)}
				}
				zzvsym.Assert(got.UnmarshalBinary(data) == nil, "RelinearizationKey.UnmarshalBinary fails")
				zzvsym.Assert(len(got.Keys) == deg, "RelinearizationKey: degree")
				for i := 0; i < deg && i < len(got.Keys); i++ {
					sameSwk(got.Keys[i], k.Keys[i], "RelinearizationKey")
				}
			}
			cuts(data, func(d []byte) error { return new(rlwe.RelinearizationKey).UnmarshalBinary(d) }, nil, "RelinearizationKey")
		}
	}
}

func ZZ_RotationKeySet() {
	for cnt := 0; cnt <= 2; cnt++ {
		for mp := 0; mp <= 1; mp++ {
			k := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}
			els := make([]uint64, cnt)
			for i := range els {
				els[i] = zzvsym.U64("galEl", 0, math.MaxUint32)
				for j := 0; j < i; j++ {
					zzvsym.Assume(els[i] != els[j])
				}
				k.Keys[els[i]] = swk("k"+zz.Itoa(i), 2, 1+i, 1, mp)
			}
			data, err := k.MarshalBinary()
			zzvsym.Assert(err == nil && len(data) == k.GetDataLen(true), "RotationKeySet length")
			for c := 0; c <= 1; c++ {
				got := new(rlwe.RotationKeySet)
				if c == 1 {
					got.Keys = map[uint64]*rlwe.SwitchingKey{3: swk("old", 1, 2, 1, 1)}
				}
				zzvsym.Assert(got.UnmarshalBinary(data) == nil, "RotationKeySet.UnmarshalBinary fails")
				zzvsym.Assert(len(got.Keys) == cnt, "RotationKeySet: number of keys")
				for _, g := range els {
					x, ok := got.GetRotationKey(g)
					zzvsym.Assert(ok, "RotationKeySet: missing key")
					if ok {
						sameSwk(x, k.Keys[g], "RotationKeySet")
					}
				}
			}
			// The encoding is a concatenation of entries: a cut between two
			// entries is the encoding of the smaller set.
			ends := map[int]bool{0: true}
			if cnt == 2 {
				a, b := 4+k.Keys[els[0]].GetDataLen(true), 4+k.Keys[els[1]].GetDataLen(true)
				ends[a], ends[b] = true, true
			}
			cuts(data, func(d []byte) error { return new(rlwe.RotationKeySet).UnmarshalBinary(d) }, func(c int) bool { return ends[c] }, "RotationKeySet")
		}
	}
}

// ZZ_Buffer covers the byte buffer used by the parameter encodings.
func ZZ_Buffer() {
	b := utils.NewBuffer(make([]byte, 0, 4))
	x := zzvsym.Byte("x")
	y := zzvsym.U64("y", 0, math.MaxUint64)
	zs := []uint64{zzvsym.U64("z", 0, math.MaxUint64), zzvsym.U64("z", 0, math.MaxUint64)}
	ws := []byte{zzvsym.Byte("w"), zzvsym.Byte("w"), zzvsym.Byte("w")}
	b.WriteUint8(x)
	b.WriteUint64(y)
	b.WriteUint64Slice(zs)
	b.WriteUint8Slice(ws)
	zzvsym.Assert(len(b.Bytes()) == 1+8+16+3, "Buffer length")
	r := utils.NewBuffer(b.Bytes())
	zzvsym.Assert(r.ReadUint8() == x, "Buffer byte")
	zzvsym.Assert(r.ReadUint64() == y, "Buffer word")
	gz, gw := make([]uint64, 2), make([]byte, 3)
	r.ReadUint64Slice(gz)
	r.ReadUint8Slice(gw)
	for i := range gz {
		zzvsym.Assert(gz[i] == zs[i], "Buffer words")
	}
	for i := range gw {
		zzvsym.Assert(gw[i] == ws[i], "Buffer bytes")
	}
	zzvsym.Assert(len(r.Bytes()) == 0, "Buffer leftover")
}
