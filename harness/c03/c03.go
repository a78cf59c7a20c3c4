// Package c03: number-theoretic transforms.
// Bounds: N=16 and 32 (thorough: up to 64), one modulus of 61, 30 or 15 bits per ring (thorough: eight sizes) plus one ring of three moduli, every coefficient symbolic below twice the modulus (inverse transforms: below the modulus and below twice the modulus), standard and conjugate-invariant rings, in place and out of place.
package c03

import (
	"fast-ksw/ring"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math/big"
)

func sizes() []int {
	if zzvsym.Thorough() {
		return []int{16, 32, 64}
	}
	return []int{16, 32}
}

func moduli() []uint64 {
	if zzvsym.Thorough() {
		return []uint64{zz.Q61, zz.Q60, zz.Q55, zz.Q45, zz.Q36, zz.Q30, zz.Q20, zz.Q15}
	}
	return []uint64{zz.Q61, zz.Q30, zz.Q15}
}

type tr func(r *ring.Ring, l int, a, b *ring.Poly)

func nttLvl(r *ring.Ring, l int, a, b *ring.Poly)     { r.NTTLvl(l, a, b) }
func lazyLvl(r *ring.Ring, l int, a, b *ring.Poly)    { r.NTTLazyLvl(l, a, b) }
func invLvl(r *ring.Ring, l int, a, b *ring.Poly)     { r.InvNTTLvl(l, a, b) }
func invLazyLvl(r *ring.Ring, l int, a, b *ring.Poly) { r.InvNTTLazyLvl(l, a, b) }

// round checks that back(forward(x)) = x with the ranges of each.
func round(id string, n int, q uint64, t ring.Type, f tr, kf uint64, g tr, kg uint64, inplace bool) {
	r := zz.Ring(n, []uint64{q}, t)
	p := zz.PolyMax("x", r, 0, 2)
	x := zz.Rows(p)
	a := p
	if !inplace {
		a = ring.NewPoly(n, 1)
	}
	f(r, 0, p, a)
	if !inplace {
		zz.Same(p, x, id+": operand changed")
	}
	for j := 0; j < n; j++ {
		zzvsym.Assert(a.Coeffs[0][j] < kf*q, id+": forward range")
	}
	zzvsym.ObserveU(a.Coeffs[0][3])
	y := zz.Rows(a)
	b := a
	if !inplace {
		b = ring.NewPoly(n, 1)
	}
	g(r, 0, a, b)
	if !inplace {
		zz.Same(a, y, id+": operand changed")
	}
	for j := 0; j < n; j++ {
		zz.Bounded(b.Coeffs[0][j], zz.U(x[0][j]), q, kg, id+": inverse after forward")
	}
	zzvsym.ObserveU(b.Coeffs[0][5])
}

func each(t ring.Type, f tr, kf uint64, g tr, kg uint64, id string) {
	for _, n := range sizes() {
		for _, q := range moduli() {
			if (q-1)%uint64(4*n) != 0 {
				continue
			}
			round(id, n, q, t, f, kf, g, kg, n == 16)
		}
	}
}

func ZZ_RoundStandard()     { each(ring.Standard, nttLvl, 1, invLvl, 1, "standard") }
func ZZ_RoundStandardLazy() { each(ring.Standard, lazyLvl, 2, invLvl, 1, "standard lazy") }
func ZZ_RoundStandardInvLazy() {
	each(ring.Standard, nttLvl, 1, invLazyLvl, 2, "standard inverse lazy")
}
func ZZ_RoundConjugate() { each(ring.ConjugateInvariant, nttLvl, 1, invLvl, 1, "conjugate invariant") }
func ZZ_RoundConjugateLazy() {
	each(ring.ConjugateInvariant, lazyLvl, 2, invLvl, 1, "conjugate invariant lazy")
}
func ZZ_RoundConjugateInvLazy() {
	each(ring.ConjugateInvariant, nttLvl, 1, invLazyLvl, 2, "conjugate invariant inverse lazy")
}

// conv is the product of a and b in the ring, coefficient k.
func conv(a, b []uint64, t ring.Type) []*big.Int {
	n := len(a)
	if t == ring.Standard {
		out := zeros(n)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				m := new(big.Int).Mul(zz.U(a[i]), zz.U(b[j]))
				if i+j < n {
					out[i+j].Add(out[i+j], m)
				} else {
					out[i+j-n].Sub(out[i+j-n], m)
				}
			}
		}
		return out
	}
	// a_0 + sum a_i (X^i + X^-i) with X^(2n) = -1
	out := zeros(n)
	put := func(e int, m *big.Int) {
		for e < 0 {
			e, m = e+2*n, new(big.Int).Neg(m)
		}
		for e >= 2*n {
			e, m = e-2*n, new(big.Int).Neg(m)
		}
		if e < n {
			out[e].Add(out[e], m)
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			m := new(big.Int).Mul(zz.U(a[i]), zz.U(b[j]))
			put(i+j, m)
			if i > 0 {
				put(j-i, m)
			}
			if j > 0 {
				put(i-j, m)
			}
			if i > 0 && j > 0 {
				put(-i-j, m)
			}
		}
	}
	return out
}

func zeros(n int) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = new(big.Int)
	}
	return out
}

// product checks the convolution theorem.
func product(n int, q uint64, t ring.Type, id string) {
	r := zz.Ring(n, []uint64{q}, t)
	a, b := zz.PolyMax("a", r, 0, 2), zz.PolyMax("b", r, 0, 2)
	A, B, C := ring.NewPoly(n, 1), ring.NewPoly(n, 1), ring.NewPoly(n, 1)
	r.NTTLazy(a, A)
	r.NTT(b, B)
	r.MulCoeffs(A, B, C)
	r.InvNTT(C, C)
	want := conv(a.Coeffs[0], b.Coeffs[0], t)
	for j := 0; j < n; j++ {
		zz.Reduced(C.Coeffs[0][j], want[j], q, id)
	}
	zzvsym.ObserveU(C.Coeffs[0][1])
}

func products(t ring.Type, id string) {
	for _, n := range sizes() {
		if n > 32 || (n > 16 && !zzvsym.Thorough()) {
			continue
		}
		for _, q := range moduli() {
			product(n, q, t, id)
		}
	}
}

func ZZ_ProductStandard() { products(ring.Standard, "product in the standard ring") }
func ZZ_ProductConjugate() {
	products(ring.ConjugateInvariant, "product in the conjugate-invariant ring")
}

// rns checks that every variant works row by row at its level and leaves the other rows alone.
func rns(t ring.Type) {
	n := 16
	q := []uint64{zz.Q61, zz.Q30, zz.Q15}
	r := zz.Ring(n, q, t)
	a := zz.PolyMax("a", r, 2, 2)
	x := zz.Rows(a)
	c := zz.PolyMax("c", r, 2, 2)
	c0 := zz.Rows(c)
	ref := ring.NewPoly(n, 3)
	for i := 0; i < 3; i++ {
		one := zz.Ring(n, q[i:i+1], t)
		one.NTTLvl(0, &ring.Poly{Coeffs: a.Coeffs[i : i+1]}, &ring.Poly{Coeffs: ref.Coeffs[i : i+1]})
	}
	for lvl := 0; lvl < 3; lvl++ {
		c = &ring.Poly{Coeffs: copyRows(c0)}
		r.NTTLvl(lvl, a, c)
		zz.Same(a, x, "NTTLvl: operand changed")
		zz.SameFrom(c, c0, lvl+1, "NTTLvl: row above the level changed")
		for i := 0; i <= lvl; i++ {
			for j := 0; j < n; j++ {
				zzvsym.Assert(c.Coeffs[i][j] == ref.Coeffs[i][j], "NTTLvl: rows")
			}
		}
		c = &ring.Poly{Coeffs: copyRows(c0)}
		r.NTTLazyLvl(lvl, a, c)
		zz.SameFrom(c, c0, lvl+1, "NTTLazyLvl: row above the level changed")
		for i := 0; i <= lvl; i++ {
			for j := 0; j < n; j++ {
				zz.Bounded(c.Coeffs[i][j], zz.U(ref.Coeffs[i][j]), q[i], 2, "NTTLazyLvl: rows")
			}
		}
		c = &ring.Poly{Coeffs: copyRows(c0)}
		r.InvNTTLvl(lvl, ref, c)
		zz.SameFrom(c, c0, lvl+1, "InvNTTLvl: row above the level changed")
		for i := 0; i <= lvl; i++ {
			for j := 0; j < n; j++ {
				zz.Reduced(c.Coeffs[i][j], zz.U(x[i][j]), q[i], "InvNTTLvl: rows")
			}
		}
		c = &ring.Poly{Coeffs: copyRows(c0)}
		r.InvNTTLazyLvl(lvl, ref, c)
		zz.SameFrom(c, c0, lvl+1, "InvNTTLazyLvl: row above the level changed")
		for i := 0; i <= lvl; i++ {
			for j := 0; j < n; j++ {
				zz.Bounded(c.Coeffs[i][j], zz.U(x[i][j]), q[i], 2, "InvNTTLazyLvl: rows")
			}
		}
		v := make([]uint64, n)
		r.NTTSingle(lvl, a.Coeffs[lvl], v)
		for j := 0; j < n; j++ {
			zzvsym.Assert(v[j] == ref.Coeffs[lvl][j], "NTTSingle")
		}
		r.NTTSingleLazy(lvl, a.Coeffs[lvl], v)
		for j := 0; j < n; j++ {
			zz.Bounded(v[j], zz.U(ref.Coeffs[lvl][j]), q[lvl], 2, "NTTSingleLazy")
		}
		r.InvNTTSingle(lvl, ref.Coeffs[lvl], v)
		for j := 0; j < n; j++ {
			zz.Reduced(v[j], zz.U(x[lvl][j]), q[lvl], "InvNTTSingle")
		}
		r.InvNTTSingleLazy(lvl, ref.Coeffs[lvl], v)
		for j := 0; j < n; j++ {
			zz.Bounded(v[j], zz.U(x[lvl][j]), q[lvl], 2, "InvNTTSingleLazy")
		}
	}
	c = &ring.Poly{Coeffs: copyRows(c0)}
	r.NTT(a, c)
	zz.Same(c, ref.Coeffs, "NTT: rows")
	r.InvNTT(ref, c)
	for i := 0; i < 3; i++ {
		for j := 0; j < n; j++ {
			zz.Reduced(c.Coeffs[i][j], zz.U(x[i][j]), q[i], "InvNTT: rows")
		}
	}
	r.NTTLazy(a, c)
	for i := 0; i < 3; i++ {
		for j := 0; j < n; j++ {
			zz.Bounded(c.Coeffs[i][j], zz.U(ref.Coeffs[i][j]), q[i], 2, "NTTLazy: rows")
		}
	}
	r.InvNTTLazy(ref, c)
	for i := 0; i < 3; i++ {
		for j := 0; j < n; j++ {
			zz.Bounded(c.Coeffs[i][j], zz.U(x[i][j]), q[i], 2, "InvNTTLazy: rows")
		}
	}
}

func copyRows(c [][]uint64) [][]uint64 {
	out := make([][]uint64, len(c))
	for i := range c {
		out[i] = append([]uint64(nil), c[i]...)
	}
	return out
}

func ZZ_RowsStandard()  { rns(ring.Standard) }
func ZZ_RowsConjugate() { rns(ring.ConjugateInvariant) }
