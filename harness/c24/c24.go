// Package c24: deep and shallow copies.
// Bounds: polynomials, plaintexts and ciphertexts of degree 0 to 2, 1 to 3 rows, with every content, flag and scale; keys with 1 to 3 gadget rows with and without special primes; shallow copies of basis extenders, key switchers, decryptors, encryptors of both kinds and encoders of ring degree 16, each after one operation of every kind on the original (arbitrary polynomial operands, fixed keys and random streams). Memory reachable from both objects is compared cell by cell.
package c24

import (
	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math"
)

func poly(name string, n, m int) *ring.Poly {
	p := ring.NewPoly(n, m)
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = zzvsym.U64(name, 0, math.MaxUint64)
		}
	}
	p.IsNTT = zzvsym.Bool(name + ".ntt")
	p.IsMForm = zzvsym.Bool(name + ".mform")
	return p
}

func qp(name string, n, mq, mp int) rlwe.PolyQP {
	x := rlwe.PolyQP{}
	if mq > 0 {
		x.Q = poly(name+".q", n, mq)
	}
	if mp > 0 {
		x.P = poly(name+".p", n, mp)
	}
	return x
}

func same(got, want *ring.Poly, id string) {
	if got == nil || want == nil {
		zzvsym.Assert(got == nil && want == nil, id+": presence")
		return
	}
	zzvsym.Assert(got.IsNTT == want.IsNTT, id+": NTT flag")
	zzvsym.Assert(got.IsMForm == want.IsMForm, id+": Montgomery flag")
	values(got, want, id)
}

func values(got, want *ring.Poly, id string) {
	zzvsym.Assert(len(got.Coeffs) == len(want.Coeffs), id+": rows")
	if len(got.Coeffs) != len(want.Coeffs) {
		return
	}
	for i := range want.Coeffs {
		zzvsym.Assert(len(got.Coeffs[i]) == len(want.Coeffs[i]), id+": degree")
		if len(got.Coeffs[i]) != len(want.Coeffs[i]) {
			return
		}
		for j := range want.Coeffs[i] {
			zzvsym.Assert(got.Coeffs[i][j] == want.Coeffs[i][j], id+": coefficients")
		}
	}
}

func sameQP(got, want rlwe.PolyQP, id string) {
	same(got.Q, want.Q, id+" (Q)")
	same(got.P, want.P, id+" (P)")
}

func disjoint(a, b interface{}, id string) {
	zzvsym.Assert(zzvsym.Disjoint(a, b), id+": shared storage")
}

func ZZ_PolyCopyNew() {
	for m := 0; m <= 3; m++ {
		for _, n := range []int{1, 4} {
			p := poly("p", n, m)
			c := p.CopyNew()
			same(c, p, "Poly.CopyNew")
			disjoint(c, p, "Poly.CopyNew")
		}
	}
}

// snapshot of a polynomial made without the code under test.
func snap(p *ring.Poly) *ring.Poly {
	c := &ring.Poly{IsNTT: p.IsNTT, IsMForm: p.IsMForm, Coeffs: make([][]uint64, len(p.Coeffs))}
	for i := range p.Coeffs {
		c.Coeffs[i] = append([]uint64{}, p.Coeffs[i]...)
	}
	return c
}

// copied checks dst against its old content after k rows were copied from src.
func copied(dst, old, src *ring.Poly, k int, flags bool, id string) {
	f := old
	if flags {
		f = src
	}
	zzvsym.Assert(dst.IsNTT == f.IsNTT && dst.IsMForm == f.IsMForm, id+": flags")
	zzvsym.Assert(len(dst.Coeffs) == len(old.Coeffs), id+": rows")
	for i := range dst.Coeffs {
		w := old
		if i < k {
			w = src
		}
		for j := range dst.Coeffs[i] {
			zzvsym.Assert(dst.Coeffs[i][j] == w.Coeffs[i][j], id+": coefficients")
		}
	}
}

func ZZ_PolyCopy() {
	for a := 1; a <= 3; a++ {
		for b := 1; b <= 3; b++ {
			min := a
			if b < a {
				min = b
			}
			run := func(k int, flags bool, f func(dst, src *ring.Poly), id string) {
				dst, src := poly("dst", 4, a), poly("src", 4, b)
				od, os := snap(dst), snap(src)
				f(dst, src)
				copied(dst, od, os, k, flags, id)
				copied(src, os, os, 0, false, id+" (source)")
				disjoint(dst, src, id)
			}
			run(min, true, func(d, s *ring.Poly) { d.Copy(s) }, "Poly.Copy")
			run(min, false, func(d, s *ring.Poly) { d.CopyValues(s) }, "Poly.CopyValues")
			run(min, true, func(d, s *ring.Poly) { ring.Copy(s, d) }, "ring.Copy")
			run(min, false, func(d, s *ring.Poly) { ring.CopyValues(s, d) }, "ring.CopyValues")
			for l := 0; l < min; l++ {
				run(l+1, true, func(d, s *ring.Poly) { ring.CopyLvl(l, s, d) }, "ring.CopyLvl")
				run(l+1, false, func(d, s *ring.Poly) { ring.CopyValuesLvl(l, s, d) }, "ring.CopyValuesLvl")
			}
			run(min, true, func(d, s *ring.Poly) { (&rlwe.Plaintext{Value: d}).Copy(&rlwe.Plaintext{Value: s}) }, "Plaintext.Copy")
		}
		p := poly("p", 4, a)
		o := snap(p)
		p.Copy(p)
		same(p, o, "Poly.Copy to itself")
		ring.Copy(p, p)
		same(p, o, "ring.Copy to itself")
	}
}

func ct(name string, deg, m int) *rlwe.Ciphertext {
	c := new(rlwe.Ciphertext)
	for d := 0; d <= deg; d++ {
		c.Value = append(c.Value, poly(name, 4, m))
	}
	return c
}

func ZZ_Ciphertext() {
	for deg := 0; deg <= 2; deg++ {
		for m := 1; m <= 2; m++ {
			c := ct("c", deg, m)
			d := c.CopyNew()
			zzvsym.Assert(len(d.Value) == deg+1, "Ciphertext.CopyNew: degree")
			for i := range c.Value {
				same(d.Value[i], c.Value[i], "Ciphertext.CopyNew")
			}
			disjoint(c, d, "Ciphertext.CopyNew")
			s := math.Float64frombits(zzvsym.U64("scale", 0, math.MaxUint64))
			x := &ckks.Ciphertext{Ciphertext: c, Scale: s}
			y := x.CopyNew()
			zzvsym.Assert(math.Float64bits(y.Scale) == math.Float64bits(s), "ckks.Ciphertext.CopyNew: scale")
			zzvsym.Assert(len(y.Value) == deg+1, "ckks.Ciphertext.CopyNew: degree")
			for i := range c.Value {
				same(y.Value[i], c.Value[i], "ckks.Ciphertext.CopyNew")
			}
			disjoint(x, y, "ckks.Ciphertext.CopyNew")
			for mo := 1; mo <= 3; mo++ {
				min := m
				if mo < m {
					min = mo
				}
				e, f := ct("e", deg, mo), ct("f", deg, mo)
				t := math.Float64frombits(zzvsym.U64("scale", 0, math.MaxUint64))
				z := &ckks.Ciphertext{Ciphertext: f, Scale: t}
				var oe, of, oc []*ring.Poly
				for i := range e.Value {
					oe, of, oc = append(oe, snap(e.Value[i])), append(of, snap(f.Value[i])), append(oc, snap(c.Value[i]))
				}
				e.Copy(c)
				z.Copy(x)
				zzvsym.Assert(math.Float64bits(z.Scale) == math.Float64bits(s), "ckks.Ciphertext.Copy: scale")
				for i := range e.Value {
					copied(e.Value[i], oe[i], oc[i], min, true, "Ciphertext.Copy")
					copied(f.Value[i], of[i], oc[i], min, true, "ckks.Ciphertext.Copy")
					copied(c.Value[i], oc[i], oc[i], 0, false, "Ciphertext.Copy (source)")
				}
				disjoint(e, c, "Ciphertext.Copy")
				disjoint(z, x, "ckks.Ciphertext.Copy")
			}
		}
	}
}

func ZZ_Keys() {
	for mq := 0; mq <= 2; mq++ {
		for mp := 0; mp <= 2; mp++ {
			a, b := qp("a", 4, mq, mp), qp("b", 4, mq, mp)
			c := a.CopyNew()
			sameQP(c, a, "PolyQP.CopyNew")
			disjoint(&c, &a, "PolyQP.CopyNew")
			if mq > 0 {
				d := qp("d", 4, mq, mp)
				d.Copy(a)
				sameQP(d, a, "PolyQP.Copy")
				disjoint(&d, &a, "PolyQP.Copy")
				e := qp("e", 4, mq, mp)
				nq, mqf := e.Q.IsNTT, e.Q.IsMForm
				e.CopyValues(a)
				values(e.Q, a.Q, "PolyQP.CopyValues")
				if mp > 0 {
					values(e.P, a.P, "PolyQP.CopyValues")
				}
				zzvsym.Assert(e.Q.IsNTT == nq && e.Q.IsMForm == mqf, "PolyQP.CopyValues: flags")
			}
			sk := &rlwe.SecretKey{Value: a}
			sk2 := sk.CopyNew()
			sameQP(sk2.Value, a, "SecretKey.CopyNew")
			disjoint(sk, sk2, "SecretKey.CopyNew")
			pk := &rlwe.PublicKey{Value: [2]rlwe.PolyQP{a, b}}
			pk2 := pk.CopyNew()
			sameQP(pk2.Value[0], a, "PublicKey.CopyNew")
			sameQP(pk2.Value[1], b, "PublicKey.CopyNew")
			disjoint(pk, pk2, "PublicKey.CopyNew")
		}
	}
	zzvsym.Assert((*rlwe.SecretKey)(nil).CopyNew() == nil && (*rlwe.PublicKey)(nil).CopyNew() == nil && (*rlwe.SwitchingKey)(nil).CopyNew() == nil && (*rlwe.RelinearizationKey)(nil).CopyNew() == nil, "CopyNew of nil keys")
}

func swk(name string, rows, mp int) *rlwe.SwitchingKey {
	k := new(rlwe.SwitchingKey)
	for i := 0; i < rows; i++ {
		k.Value = append(k.Value, [2]rlwe.PolyQP{qp(name, 2, 2, mp), qp(name, 2, 2, mp)})
	}
	return k
}

func sameSwk(got, want *rlwe.SwitchingKey, id string) {
	zzvsym.Assert(len(got.Value) == len(want.Value), id+": rows")
	for i := range got.Value {
		sameQP(got.Value[i][0], want.Value[i][0], id)
		sameQP(got.Value[i][1], want.Value[i][1], id)
	}
}

func ZZ_SwitchingKeys() {
	for rows := 1; rows <= 3; rows++ {
		for mp := 0; mp <= 2; mp++ {
			a, b := swk("a", rows, mp), swk("b", rows, mp)
			c := a.CopyNew()
			sameSwk(c, a, "SwitchingKey.CopyNew")
			disjoint(a, c, "SwitchingKey.CopyNew")
			for _, ks := range [][]*rlwe.SwitchingKey{{a}, {a, b}} {
				r := &rlwe.RelinearizationKey{Keys: ks}
				s := r.CopyNew()
				zzvsym.Assert(len(s.Keys) == len(ks), "RelinearizationKey.CopyNew: degree")
				for i := range ks {
					sameSwk(s.Keys[i], ks[i], "RelinearizationKey.CopyNew")
				}
				disjoint(r, s, "RelinearizationKey.CopyNew")
			}
		}
	}
}

// intact: an operation on one object keeps everything reachable from the other.
func intact(a, b interface{}, f func(), id string) {
	zzvsym.Assert(zzvsym.Intact(a, b, f), id+": writes to shared memory")
}

const n = 16

func params(q, p []uint64) rlwe.Parameters {
	x, err := rlwe.NewParameters(4, q, p, 4, 3.2, ring.Standard)
	if err != nil {
		panic(err)
	}
	return x
}

var qs = []uint64{zz.Q30, zz.P30, zz.R30}
var ps = []uint64{zz.Q36, zz.P36}

func ZZ_BasisExtender() {
	rq, rp := zz.Ring(n, qs, ring.Standard), zz.Ring(n, ps, ring.Standard)
	x := ring.NewBasisExtender(rq, rp)
	y := x.ShallowCopy()
	for k := 0; k < 2; k++ {
		a, b := x, y
		if k == 1 {
			a, b = y, x
		}
		q, p, q2, p2 := zz.Poly("q", rq, 2), zz.Poly("p", rp, 1), rq.NewPoly(), rp.NewPoly()
		intact(a, b, func() { a.ModUpQtoP(2, 1, q, p2) }, "BasisExtender.ShallowCopy (ModUpQtoP)")
		intact(a, b, func() { a.ModUpPtoQ(1, 2, p, q2) }, "BasisExtender.ShallowCopy (ModUpPtoQ)")
		intact(a, b, func() { a.ModDownQPtoQ(2, 1, q, p, q2) }, "BasisExtender.ShallowCopy (ModDownQPtoQ)")
		intact(a, b, func() { a.ModDownQPtoQNTT(2, 1, q, p, q2) }, "BasisExtender.ShallowCopy (ModDownQPtoQNTT)")
		intact(a, b, func() { a.ModDownQPtoP(2, 1, q, p, p2) }, "BasisExtender.ShallowCopy (ModDownQPtoP)")
	}
	zzvsym.Assert((*ring.BasisExtender)(nil).ShallowCopy() == nil, "BasisExtender.ShallowCopy of nil")
}

func fixedQP(ps rlwe.Parameters, s uint64) rlwe.PolyQP {
	x := ps.RingQP().NewPoly()
	if x.Q != nil {
		fill(x.Q, ps.RingQ(), s)
	}
	if x.P != nil {
		fill(x.P, ps.RingP(), s+7)
	}
	return x
}

func fill(p *ring.Poly, r *ring.Ring, s uint64) {
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			s = s*6364136223846793005 + 1442695040888963407
			p.Coeffs[i][j] = (s >> 20) % r.Modulus[i]
		}
	}
}

func ZZ_KeySwitcher() {
	pr := params(qs[:2], ps[:1])
	x := rlwe.NewKeySwitcher(pr)
	y := x.ShallowCopy()
	k := rlwe.NewSwitchingKey(pr, 1, 0)
	for i := range k.Value {
		k.Value[i] = [2]rlwe.PolyQP{fixedQP(pr, uint64(3*i+1)), fixedQP(pr, uint64(3*i+2))}
	}
	for s := 0; s < 2; s++ {
		a, b := x, y
		if s == 1 {
			a, b = y, x
		}
		for _, ntt := range []bool{false, true} {
			// arbitrary operands once; fixed ones for the other combinations
			c := pr.RingQ().NewPoly()
			if s == 0 && !ntt {
				c = zz.Poly("c", pr.RingQ(), 1)
			} else {
				fill(c, pr.RingQ(), uint64(11+s))
			}
			c.IsNTT = ntt
			p0, p1 := pr.RingQ().NewPoly(), pr.RingQ().NewPoly()
			r0, r1 := pr.RingQ().NewPoly(), pr.RingQ().NewPoly()
			intact(a, b, func() { a.SwitchKeysInPlace(1, c, k, p0, p1) }, "KeySwitcher.ShallowCopy (SwitchKeysInPlace)")
			b.SwitchKeysInPlace(1, c, k, r0, r1)
			values(r0, p0, "KeySwitcher.ShallowCopy result")
			values(r1, p1, "KeySwitcher.ShallowCopy result")
			intact(a, b, func() { a.DecomposeNTT(1, 0, 1, c, a.PoolDecompQP) }, "KeySwitcher.ShallowCopy (DecomposeNTT)")
			intact(a, b, func() { a.KeyswitchHoisted(1, a.PoolDecompQP, k, p0, p1, a.Pool[1].P, a.Pool[2].P) }, "KeySwitcher.ShallowCopy (KeyswitchHoisted)")
			b.DecomposeNTT(1, 0, 1, c, b.PoolDecompQP)
			b.KeyswitchHoisted(1, b.PoolDecompQP, k, r0, r1, b.Pool[1].P, b.Pool[2].P)
			values(r0, p0, "KeySwitcher.ShallowCopy hoisted result")
			values(r1, p1, "KeySwitcher.ShallowCopy hoisted result")
		}
	}
}

func ckksParams(pr rlwe.Parameters) ckks.Parameters {
	x, err := ckks.NewParameters(pr, 2, 1024)
	if err != nil {
		panic(err)
	}
	return x
}

func ZZ_Decryptor() {
	pr := params(qs, ps)
	sk := &rlwe.SecretKey{Value: fixedQP(pr, 5)}
	sk2 := &rlwe.SecretKey{Value: fixedQP(pr, 6)}
	orig := rlwe.NewDecryptor(pr, sk)
	ckp := ckksParams(pr)
	corig := ckks.NewDecryptor(ckp, sk)
	for _, key := range []*rlwe.SecretKey{nil, sk2} {
		var x, y rlwe.Decryptor
		var cx, cy ckks.Decryptor
		if key == nil {
			x, y = orig, orig.ShallowCopy()
			cx, cy = corig, corig.ShallowCopy()
		} else {
			x, y = orig, orig.WithKey(key)
			cx, cy = corig, corig.WithKey(key)
			_ = cx
		}
		for s := 0; s < 2; s++ {
			a, b, ca, cb := x, y, cx, cy
			if s == 1 {
				a, b, ca, cb = y, x, cy, cx
			}
			for _, ntt := range []bool{false, true} {
				c := rlwe.NewCiphertext(pr, 2, 2)
				for i := range c.Value {
					c.Value[i] = zz.Poly("c", pr.RingQ(), 2)
					c.Value[i].IsNTT = ntt
				}
				p0, p1 := rlwe.NewPlaintext(pr, 2), rlwe.NewPlaintext(pr, 2)
				intact(a, b, func() { a.Decrypt(c, p0) }, "Decryptor.ShallowCopy")
				b.Decrypt(c, p1)
				if key == nil {
					values(p1.Value, p0.Value, "Decryptor.ShallowCopy result")
				}
				cc := &ckks.Ciphertext{Ciphertext: c, Scale: 1024}
				c0, c1 := ckks.NewPlaintext(ckp, 2, 1), ckks.NewPlaintext(ckp, 2, 1)
				intact(ca, cb, func() { ca.Decrypt(cc, c0) }, "ckks.Decryptor.ShallowCopy")
				cb.Decrypt(cc, c1)
				if key == nil {
					values(c1.Value, c0.Value, "ckks.Decryptor.ShallowCopy result")
				}
			}
		}
	}
}

func ZZ_Encryptor() {
	for _, sp := range [][]uint64{nil, ps} {
		pr := params(qs, sp)
		ckp := ckksParams(pr)
		sk := &rlwe.SecretKey{Value: fixedQP(pr, 5)}
		pk := &rlwe.PublicKey{Value: [2]rlwe.PolyQP{fixedQP(pr, 8), fixedQP(pr, 9)}}
		for _, key := range []interface{}{sk, pk} {
			e := rlwe.NewEncryptor(pr, key)
			ce := ckks.NewEncryptor(ckp, key)
			for k := 0; k < 3; k++ {
				var f rlwe.Encryptor
				var cf ckks.Encryptor
				switch k {
				case 0:
					f, cf = e.ShallowCopy(), ce.ShallowCopy()
				case 1:
					f, cf = e.WithKey(sk), ce.WithKey(sk)
				case 2:
					f, cf = e.WithKey(pk), ce.WithKey(pk)
				}
				for s := 0; s < 2; s++ {
					a, b, ca, cb := e, f, ce, cf
					if s == 1 {
						a, b, ca, cb = f, e, cf, ce
					}
					for _, ntt := range []bool{false, true} {
						pt := &rlwe.Plaintext{Value: zz.Poly("m", pr.RingQ(), 2)}
						pt.Value.IsNTT = ntt
						for _, cn := range []bool{false, true} {
							c := rlwe.NewCiphertext(pr, 1, 2)
							c.Value[0].IsNTT, c.Value[1].IsNTT = cn, cn
							intact(a, b, func() { a.Encrypt(pt, c) }, "Encryptor.ShallowCopy")
							cc := &ckks.Ciphertext{Ciphertext: c}
							intact(ca, cb, func() { ca.Encrypt(&ckks.Plaintext{Plaintext: pt, Scale: 3}, cc) }, "ckks.Encryptor.ShallowCopy")
						}
					}
				}
			}
		}
	}
}

func ZZ_Encoder() {
	for _, t := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
		rp, err := rlwe.NewParameters(4, qs, nil, 4, 3.2, t)
		if err != nil {
			panic(err)
		}
		pr := ckksParams(rp)
		x := ckks.NewEncoder(pr)
		y := x.ShallowCopy()
		ls := 3
		if t == ring.ConjugateInvariant {
			ls = 4
		}
		vals := []complex128{complex(1.5, -2), complex(0.25, 3), complex(-7, 1), complex(2, 2)}
		fl := []float64{1, -2.5, 3.25, 9}
		for s := 0; s < 2; s++ {
			a, b := x, y
			if s == 1 {
				a, b = y, x
			}
			p0, p1 := ckks.NewPlaintext(pr, 2, 1<<20), ckks.NewPlaintext(pr, 2, 1<<20)
			intact(a, b, func() { a.Encode(vals, p0, ls) }, "Encoder.ShallowCopy (Encode)")
			b.Encode(vals, p1, ls)
			same(p1.Value, p0.Value, "Encoder.ShallowCopy Encode result")
			var d0, d1 []complex128
			intact(a, b, func() { d0 = a.Decode(p0, ls) }, "Encoder.ShallowCopy (Decode)")
			d1 = b.Decode(p0, ls)
			zzvsym.Assert(len(d0) == len(d1), "Encoder.ShallowCopy Decode result")
			for i := range d0 {
				zzvsym.Assert(d0[i] == d1[i], "Encoder.ShallowCopy Decode result")
			}
			p0, p1 = ckks.NewPlaintext(pr, 2, 1<<20), ckks.NewPlaintext(pr, 2, 1<<20)
			intact(a, b, func() { a.EncodeCoeffs(fl, p0) }, "Encoder.ShallowCopy (EncodeCoeffs)")
			b.EncodeCoeffs(fl, p1)
			same(p1.Value, p0.Value, "Encoder.ShallowCopy EncodeCoeffs result")
			var f0, f1 []float64
			intact(a, b, func() { f0 = a.DecodeCoeffs(p0) }, "Encoder.ShallowCopy (DecodeCoeffs)")
			f1 = b.DecodeCoeffs(p0)
			zzvsym.Assert(len(f0) == len(f1), "Encoder.ShallowCopy DecodeCoeffs result")
			for i := range f0 {
				zzvsym.Assert(f0[i] == f1[i], "Encoder.ShallowCopy DecodeCoeffs result")
			}
			intact(a, b, func() { a.DecodePublic(p0, ls, 3.2) }, "Encoder.ShallowCopy (DecodePublic)")
			intact(a, b, func() { a.GetErrSTDSlotDomain(vals, vals, 2) }, "Encoder.ShallowCopy (GetErrSTDSlotDomain)")
			intact(a, b, func() { a.GetErrSTDCoeffDomain(vals, vals, 2) }, "Encoder.ShallowCopy (GetErrSTDCoeffDomain)")
		}
	}
}
