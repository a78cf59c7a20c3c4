// Package c16: hybrid key switching.
// Bounds: ring degree 16, standard and conjugate-invariant rings; up to 10 moduli and one to three special primes of 61 to 15 bits (keys with all or fewer special primes); every level; every polynomial, every digit polynomial below twice the moduli and every key; symbolic keys for the inner product, fixed keys where the result is divided by the special modulus.
package c16

import (
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math/big"
)

func params(q, p []uint64, t ring.Type) rlwe.Parameters {
	x, err := rlwe.NewParameters(4, q, p, 8, 3.2, t)
	if err != nil {
		panic(err)
	}
	return x
}

// key returns a gadget key with special primes 0..levelP; symbolic or fixed.
func key(params rlwe.Parameters, levelP int, symbolic bool) *rlwe.SwitchingKey {
	swk := rlwe.NewSwitchingKey(params, params.MaxLevel(), levelP)
	seed := uint64(0x9e3779b97f4a7c15)
	fill := func(rows [][]uint64, m []uint64) {
		for i := range rows {
			for j := range rows[i] {
				if symbolic {
					rows[i][j] = zzvsym.U64("k", 0, m[i]-1)
				} else {
					seed = seed*6364136223846793005 + 1442695040888963407
					rows[i][j] = (seed >> 2) % m[i]
				}
			}
		}
	}
	for i := range swk.Value {
		for b := 0; b < 2; b++ {
			fill(swk.Value[i][b].Q.Coeffs, params.RingQ().Modulus)
			fill(swk.Value[i][b].P.Coeffs, params.RingP().Modulus)
		}
	}
	return swk
}

func rowsOf(swk *rlwe.SwitchingKey) (c [][][]uint64) {
	for i := range swk.Value {
		for b := 0; b < 2; b++ {
			c = append(c, zz.Rows(swk.Value[i][b].Q), zz.Rows(swk.Value[i][b].P))
		}
	}
	return
}

func same(swk *rlwe.SwitchingKey, c [][][]uint64, id string) {
	for i := range swk.Value {
		for b := 0; b < 2; b++ {
			zz.Same(swk.Value[i][b].Q, c[4*i+2*b], id+": key changed")
			zz.Same(swk.Value[i][b].P, c[4*i+2*b+1], id+": key changed")
		}
	}
}

// digits returns the number of digits of a key with special primes 0..levelP.
func digits(level, levelP int) int { return (level + 1 + levelP) / (levelP + 1) }

// out is a receiver in both bases.
type out struct {
	q, p   *ring.Poly
	q0, p0 [][]uint64
}

func receiver(params rlwe.Parameters) out {
	o := out{q: zz.PolyMax("o", params.RingQ(), params.MaxLevel(), 0), p: zz.PolyMax("o", params.RingP(), params.PCount()-1, 0)}
	o.q0, o.p0 = zz.Rows(o.q), zz.Rows(o.p)
	return o
}

// product asserts that o is the sum of the products of the digits and component b of the key.
func (o out) product(params rlwe.Parameters, level, levelP, b int, d []rlwe.PolyQP, swk *rlwe.SwitchingKey, id string) {
	one := func(m, got []uint64, row func(i int) ([]uint64, []uint64), q uint64) {
		inv := zz.InvR(q)
		for j := range got {
			s := new(big.Int)
			for i := 0; i < digits(level, levelP); i++ {
				x, y := row(i)
				s.Add(s, new(big.Int).Mul(zz.U(x[j]), zz.U(y[j])))
			}
			s.Mul(s, inv)
			zz.Reduced(got[j], s, q, id)
		}
	}
	for x := 0; x <= level; x++ {
		m := params.RingQ().Modulus
		one(m, o.q.Coeffs[x], func(i int) ([]uint64, []uint64) { return d[i].Q.Coeffs[x], swk.Value[i][b].Q.Coeffs[x] }, m[x])
	}
	for x := 0; x <= levelP; x++ {
		m := params.RingP().Modulus
		one(m, o.p.Coeffs[x], func(i int) ([]uint64, []uint64) { return d[i].P.Coeffs[x], swk.Value[i][b].P.Coeffs[x] }, m[x])
	}
	zz.SameFrom(o.q, o.q0, level+1, id+": row above the level changed")
	zz.SameFrom(o.p, o.p0, levelP+1, id+": row above the level changed")
}

// hoisted checks KeyswitchHoistedNoModDown on arbitrary digits.
func hoisted(params rlwe.Parameters, ks *rlwe.KeySwitcher, level, levelP int) {
	swk := key(params, levelP, true)
	k0 := rowsOf(swk)
	var d []rlwe.PolyQP
	var d0 [][][]uint64
	for i := 0; i < digits(level, levelP); i++ {
		x := rlwe.PolyQP{Q: zz.PolyMax("d", params.RingQ(), params.MaxLevel(), 2), P: zz.PolyMax("d", params.RingP(), params.PCount()-1, 2)}
		d = append(d, x)
		d0 = append(d0, zz.Rows(x.Q), zz.Rows(x.P))
	}
	a, b := receiver(params), receiver(params)
	ks.KeyswitchHoistedNoModDown(level, d, swk, a.q, b.q, a.p, b.p)
	for i := range d {
		zz.Same(d[i].Q, d0[2*i], "KeyswitchHoistedNoModDown: digit changed")
		zz.Same(d[i].P, d0[2*i+1], "KeyswitchHoistedNoModDown: digit changed")
	}
	same(swk, k0, "KeyswitchHoistedNoModDown")
	a.product(params, level, levelP, 0, d, swk, "KeyswitchHoistedNoModDown")
	b.product(params, level, levelP, 1, d, swk, "KeyswitchHoistedNoModDown")
	zzvsym.ObserveU(a.q.Coeffs[0][3])
}

// anyPoly returns an arbitrary polynomial over the moduli 0..level, its digits, and the polynomial to switch.
func anyPoly(params rlwe.Parameters, level, levelP int, ntt bool) (c *ring.Poly, x [][]*zz.RNS) {
	r := params.RingQ()
	c = r.NewPoly()
	for i := range c.Coeffs {
		for j := range c.Coeffs[i] {
			c.Coeffs[i][j] = uint64(i*j+5) % r.Modulus[i]
		}
	}
	for i := 0; i < digits(level, levelP); i++ {
		lo, hi := i*(levelP+1), (i+1)*(levelP+1)
		if hi > level+1 {
			hi = level + 1
		}
		var y []*zz.RNS
		for j := 0; j < r.N; j++ {
			v := zz.AnyRNS("x", r.Modulus[lo:hi])
			for k := range v.Res {
				c.Coeffs[lo+k][j] = v.Res[k]
			}
			y = append(y, v)
		}
		x = append(x, y)
	}
	if ntt {
		r.NTTLvl(level, c, c)
		c.IsNTT = true
	}
	return
}

// decompose checks DecomposeNTT: every digit is one integer polynomial, congruent to the input modulo its moduli.
func decompose(params rlwe.Parameters, ks *rlwe.KeySwitcher, level, levelP int, ntt bool) {
	id := "DecomposeNTT"
	c, x := anyPoly(params, level, levelP, ntt)
	c0 := zz.Rows(c)
	var d []rlwe.PolyQP
	for i := range x {
		_ = i
		d = append(d, params.RingQP().NewPoly())
	}
	ks.DecomposeNTT(level, levelP, levelP+1, c, d)
	zz.Same(c, c0, id+": operand changed")
	rq, rp := params.RingQ(), params.RingP()
	for i := range x {
		for k := 0; k <= level; k++ {
			for j := range d[i].Q.Coeffs[k] {
				zzvsym.Assert(d[i].Q.Coeffs[k][j] < 2*rq.Modulus[k], id+": range")
			}
		}
		for k := 0; k <= levelP; k++ {
			for j := range d[i].P.Coeffs[k] {
				zzvsym.Assert(d[i].P.Coeffs[k][j] < 2*rp.Modulus[k], id+": range")
			}
		}
		rq.ReduceLvl(level, d[i].Q, d[i].Q)
		rp.ReduceLvl(levelP, d[i].P, d[i].P)
		rq.InvNTTLvl(level, d[i].Q, d[i].Q)
		rp.InvNTTLvl(levelP, d[i].P, d[i].P)
		m := append(append([]uint64{}, rq.Modulus[:level+1]...), rp.Modulus[:levelP+1]...)
		for j := range x[i] {
			col := append(zz.Column(d[i].Q, j, level+1), zz.Column(d[i].P, j, levelP+1)...)
			// the moduli of the digit first: exact there
			var got, mod []uint64
			for k := range m {
				if lo := i * (levelP + 1); k >= lo && k < lo+len(x[i][j].Q) {
					zzvsym.Assert(zzvsym.Cong(zz.U(col[k]), zz.U(x[i][j].Res[k-lo]), zz.U(m[k])), id+": residue of the digit")
				} else {
					got, mod = append(got, col[k]), append(mod, m[k])
				}
			}
			zz.Near(got, x[i][j].X, x[i][j].Prod, mod, len(x[i][j].Q) == 1, id)
		}
	}
}

// direct checks SwitchKeysInPlaceNoModDown against the digits.
func direct(params rlwe.Parameters, ks *rlwe.KeySwitcher, level, levelP int, ntt bool) {
	id := "SwitchKeysInPlaceNoModDown"
	c, x := anyPoly(params, level, levelP, ntt)
	c0 := zz.Rows(c)
	d := make([]rlwe.PolyQP, len(x))
	for i := range x {
		d[i] = params.RingQP().NewPoly()
	}
	rlwe.NewKeySwitcher(params).DecomposeNTT(level, levelP, levelP+1, c, d)
	swk := key(params, levelP, true)
	k0 := rowsOf(swk)
	a, b := receiver(params), receiver(params)
	ks.SwitchKeysInPlaceNoModDown(level, c, swk, a.q, a.p, b.q, b.p)
	zz.Same(c, c0, id+": operand changed")
	zzvsym.Assert(c.IsNTT == ntt, id+": operand changed")
	same(swk, k0, id)
	a.product(params, level, levelP, 0, d, swk, id)
	b.product(params, level, levelP, 1, d, swk, id)
	zzvsym.ObserveU(a.q.Coeffs[0][3])
}

// divided asserts that got = want divided by the special modulus, up to one.
func divided(params rlwe.Parameters, level, levelP int, want out, got *ring.Poly, g0 [][]uint64, ntt bool, id string) {
	rq, rp := params.RingQ(), params.RingP()
	be := ring.NewBasisExtender(rq, rp)
	w := rq.NewPoly()
	zz.SameFrom(got, g0, level+1, id+": row above the level changed")
	for i := 0; i <= level; i++ {
		for j := range got.Coeffs[i] {
			zzvsym.Assert(got.Coeffs[i][j] < rq.Modulus[i], id+": range")
		}
	}
	if ntt {
		rq.InvNTTLvl(level, got, got)
	}
	rq.InvNTTLvl(level, want.q, want.q)
	rp.InvNTTLvl(levelP, want.p, want.p)
	be.ModDownQPtoQ(level, levelP, want.q, want.p, w)
	for j := 0; j < rq.N; j++ {
		var v []*big.Int
		for i := 0; i <= level; i++ {
			v = append(v, zz.U(w.Coeffs[i][j]))
		}
		near(zz.Column(got, j, level+1), v, rq.Modulus[:level+1], id)
	}
}

// near asserts got = want + e with one e in {-1,0,1}.
func near(got []uint64, want []*big.Int, m []uint64, id string) {
	var first *big.Int
	for i := range got {
		o := zz.Off(zz.U(got[i]), want[i], zz.One, m[i])
		zzvsym.Assert(o.Cmp(big.NewInt(2)) <= 0, id+": value")
		if first == nil {
			first = o
		} else {
			zzvsym.Assert(o.Cmp(first) == 0, id+": same integer for all moduli")
		}
	}
}

// full checks SwitchKeysInPlace and KeyswitchHoisted against the paths without the division.
func full(params rlwe.Parameters, ks *rlwe.KeySwitcher, level, levelP int, ntt bool) {
	swk := key(params, levelP, false)
	k0 := rowsOf(swk)
	c, x := anyPoly(params, level, levelP, ntt)
	c0 := zz.Rows(c)
	ref := rlwe.NewKeySwitcher(params)
	a, b := receiver(params), receiver(params)
	ref.SwitchKeysInPlaceNoModDown(level, c, swk, a.q, a.p, b.q, b.p)
	e, f := receiver(params), receiver(params)
	if ntt {
		d := make([]rlwe.PolyQP, len(x))
		for i := range x {
			d[i] = params.RingQP().NewPoly()
		}
		ref.DecomposeNTT(level, levelP, levelP+1, c, d)
		ks.KeyswitchHoisted(level, d, swk, e.q, f.q, e.p, f.p)
		divided(params, level, levelP, copyOf(a), e.q, e.q0, true, "KeyswitchHoisted")
		divided(params, level, levelP, copyOf(b), f.q, f.q0, true, "KeyswitchHoisted")
		e, f = receiver(params), receiver(params)
	}
	ks.SwitchKeysInPlace(level, c, swk, e.q, f.q)
	zz.Same(c, c0, "SwitchKeysInPlace: operand changed")
	same(swk, k0, "SwitchKeysInPlace")
	divided(params, level, levelP, a, e.q, e.q0, ntt, "SwitchKeysInPlace")
	divided(params, level, levelP, b, f.q, f.q0, ntt, "SwitchKeysInPlace")
	zzvsym.ObserveU(e.q.Coeffs[0][3])
}

func copyOf(o out) out { return out{q: o.q.CopyNew(), p: o.p.CopyNew()} }

type checker func(params rlwe.Parameters, ks *rlwe.KeySwitcher, level, levelP int)

var (
	one   = [2][]uint64{{zz.Q60, zz.Q30, zz.P60}, {zz.P61}}
	two   = [2][]uint64{{zz.Q55, zz.Q15, zz.Q61}, {zz.R61, zz.P61}}
	three = [2][]uint64{{zz.Q61, zz.P60, zz.Q36, zz.Q55, zz.Q60}, {zz.P30, zz.P61, zz.R61}}
	long  = [2][]uint64{{zz.Q61, zz.Q60, zz.R61, zz.P60, zz.Q55, zz.P55, zz.R60, zz.R55, zz.S61, zz.S60}, {zz.P61}}
	small = [2][]uint64{{zz.Q30, zz.P30, zz.R30}, {zz.S30, zz.Q36}}
)

// all runs f at every level and number of special primes with one key switcher.
func all(c [2][]uint64, t ring.Type, fewer bool, f checker) {
	params := params(c[0], c[1], t)
	ks := rlwe.NewKeySwitcher(params)
	for level := len(c[0]) - 1; level >= 0; level-- {
		for levelP := len(c[1]) - 1; levelP >= 0; levelP-- {
			f(params, ks, level, levelP)
			if !fewer {
				break
			}
		}
	}
	// once more at the top after the lower levels, with a copy
	f(params, ks.ShallowCopy(), len(c[0])-1, len(c[1])-1)
}

func in(ntt bool, f func(params rlwe.Parameters, ks *rlwe.KeySwitcher, level, levelP int, ntt bool)) checker {
	return func(params rlwe.Parameters, ks *rlwe.KeySwitcher, level, levelP int) {
		f(params, ks, level, levelP, ntt)
	}
}

const (
	std = ring.Standard
	ci  = ring.ConjugateInvariant
)

func ZZ_Hoisted() {
	all(one, std, true, hoisted)
	all(three, ci, true, hoisted)
	all(small, std, true, hoisted)
}
func ZZ_HoistedLong() { all(long, std, true, hoisted) }
func ZZ_Decompose1() {
	all(one, std, false, in(true, decompose))
	all(one, ci, false, in(false, decompose))
}
func ZZ_Decompose2() {
	all(two, std, true, in(true, decompose))
	all(two, std, false, in(false, decompose))
}
func ZZ_Decompose3()     { all(three, ci, true, in(true, decompose)) }
func ZZ_Direct1()        { all(one, std, false, in(true, direct)); all(one, ci, false, in(false, direct)) }
func ZZ_Direct2()        { all(two, std, false, in(true, direct)) }
func ZZ_Direct2Coeff()   { all(two, std, false, in(false, direct)) }
func ZZ_DirectLong()     { directTop(long, true) }
func ZZ_DirectLongC()    { directTop(long, false) }
func ZZ_Full1()          { all(one, std, false, in(true, full)) }
func ZZ_Full1Coeff()     { all(one, std, false, in(false, full)) }
func ZZ_Full2()          { all(two, std, true, in(true, full)) }
func ZZ_Full2Coeff()     { all(two, ci, true, in(false, full)) }
func ZZT_Direct3()       { all(three, std, true, in(true, direct)); all(three, ci, true, in(false, direct)) }
func ZZT_Full3()         { all(three, ci, true, in(true, full)); all(three, std, true, in(false, full)) }
func ZZT_FullLong()      { all(long, std, true, in(true, full)) }
func ZZT_DecomposeLong() { all(long, std, true, in(true, decompose)) }

func directTop(c [2][]uint64, ntt bool) {
	params := params(c[0], c[1], std)
	direct(params, rlwe.NewKeySwitcher(params), len(c[0])-1, len(c[1])-1, ntt)
}
