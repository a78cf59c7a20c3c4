// Package c04: automorphisms.
// Bounds: N=16 (index tables of the rotations: N=16 and 32), one to three moduli of 61, 30 and 15 bits, every coefficient symbolic, every odd Galois element below twice the degree (every power of five below four times the degree for the conjugate-invariant ring) plus elements beyond it, rotation amounts symbolic over 64-bit integers.
package c04

import (
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math"
	"math/big"
)

func moduli() []uint64 { return []uint64{zz.Q61, zz.Q30, zz.Q15} }

func zeros(n int) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = new(big.Int)
	}
	return out
}

// auto is the image of a under X -> X^g.
func auto(a []uint64, g uint64, t ring.Type) []*big.Int {
	n := len(a)
	out := zeros(n)
	if t == ring.Standard {
		for i := range a {
			e := int((uint64(i) * (g % uint64(2*n))) % uint64(2*n))
			if e < n {
				out[e].Add(out[e], zz.U(a[i]))
			} else {
				out[e-n].Sub(out[e-n], zz.U(a[i]))
			}
		}
		return out
	}
	// a_0 + sum a_i (X^i + X^-i), X^(2n) = -1
	put := func(e int, x uint64) {
		if e < n {
			out[e].Add(out[e], zz.U(x))
		} else if e >= 2*n && e < 3*n {
			out[e-2*n].Sub(out[e-2*n], zz.U(x))
		}
	}
	m := 4 * n
	for i := range a {
		e := (i * int(g%uint64(m))) % m
		put(e, a[i])
		if i > 0 {
			put((m-e)%m, a[i])
		}
	}
	return out
}

func elements(m uint64) []uint64 {
	var g []uint64
	for x := uint64(1); x < m; x += 2 {
		g = append(g, x)
	}
	return append(g, m+3, 5*m+m-1, 1<<40+5)
}

func ZZ_PermuteCoefficients() {
	n := 16
	q := moduli()
	r := zz.Ring(n, q, ring.Standard)
	for _, g := range elements(32) {
		a := zz.Poly("a", r, 2)
		c := zz.PolyMax("c", r, 2, 0)
		x := zz.Rows(a)
		r.Permute(a, g, c)
		zz.Same(a, x, "Permute: operand changed")
		for i := range q {
			w := auto(x[i], g, ring.Standard)
			for j := 0; j < n; j++ {
				zzvsym.Assert(c.Coeffs[i][j] <= q[i], "Permute: range")
				zzvsym.Assert(zzvsym.Cong(zz.U(c.Coeffs[i][j]), w[j], zz.U(q[i])), "Permute: value")
			}
			zzvsym.ObserveU(c.Coeffs[i][3])
		}
	}
}

// ntt checks the automorphisms of the transformed domain.
func ntt(t ring.Type, id string) {
	n := 16
	q := moduli()
	r := zz.Ring(n, q, t)
	a := zz.Poly("a", r, 2)
	x := zz.Rows(a)
	A := r.NewPoly()
	r.NTT(a, A)
	X := zz.Rows(A)
	for k, g := range elements(r.NthRoot) {
		if t == ring.ConjugateInvariant {
			g = g&^3 + 1 // the subgroup of the powers of five
		}
		level := k % 3
		want := make([][]*big.Int, 3)
		for i := range want {
			want[i] = auto(x[i], g, t)
		}
		check := func(p *ring.Poly, id string) {
			zz.Same(A, X, id+": operand changed")
			b := r.NewPoly()
			r.InvNTTLvl(level, p, b)
			for i := 0; i <= level; i++ {
				for j := 0; j < n; j++ {
					zz.Reduced(b.Coeffs[i][j], want[i][j], q[i], id)
				}
			}
		}
		c := zz.PolyMax("c", r, 2, 0)
		c0 := zz.Rows(c)
		r.PermuteNTTLvl(level, A, g, c)
		check(c, id+" PermuteNTTLvl")
		zz.SameFrom(c, c0, level+1, id+" PermuteNTTLvl: row above the level changed")
		for i := 0; i <= level; i++ {
			for j := 0; j < n; j++ {
				zzvsym.Assert(c.Coeffs[i][j] < q[i], id+" PermuteNTTLvl: range")
			}
		}
		zzvsym.ObserveU(c.Coeffs[0][5])

		d := zz.PolyMax("d", r, 2, 0)
		d0 := zz.Rows(d)
		index := r.PermuteNTTIndex(g)
		zzvsym.Assert(len(index) == n, id+" PermuteNTTIndex: length")
		r.PermuteNTTWithIndexLvl(level, A, index, d)
		zz.SameFrom(d, d0, level+1, id+" PermuteNTTWithIndexLvl: row above the level changed")
		for i := 0; i <= level; i++ {
			for j := 0; j < n; j++ {
				zzvsym.Assert(d.Coeffs[i][j] == c.Coeffs[i][j], id+" PermuteNTTWithIndexLvl: differs from PermuteNTTLvl")
			}
		}

		e := zz.PolyMax("e", r, 2, 7)
		e0 := zz.Rows(e)
		r.PermuteNTTWithIndexAndAddNoModLvl(level, A, index, e)
		zz.SameFrom(e, e0, level+1, id+" PermuteNTTWithIndexAndAddNoModLvl: row above the level changed")
		zz.Same(A, X, id+" PermuteNTTWithIndexAndAddNoModLvl: operand changed")
		for i := 0; i <= level; i++ {
			for j := 0; j < n; j++ {
				zzvsym.Assert(e.Coeffs[i][j] == e0[i][j]+c.Coeffs[i][j], id+" PermuteNTTWithIndexAndAddNoModLvl: value")
			}
		}

		// the variant that derives the level from its operands
		f := ring.NewPoly(n, level+1)
		r.PermuteNTT(A, g, f)
		for i := 0; i <= level; i++ {
			for j := 0; j < n; j++ {
				zzvsym.Assert(f.Coeffs[i][j] == c.Coeffs[i][j], id+" PermuteNTT: differs from PermuteNTTLvl")
			}
		}
	}
}

func ZZ_PermuteNTTStandard()  { ntt(ring.Standard, "standard") }
func ZZ_PermuteNTTConjugate() { ntt(ring.ConjugateInvariant, "conjugate invariant") }

func params(logN int, t ring.Type) rlwe.Parameters {
	p, err := rlwe.NewParameters(logN, []uint64{zz.Q55, zz.P55}, []uint64{zz.Q60, zz.P60}, 8, 3.2, t)
	if err != nil {
		panic(err)
	}
	return p
}

func pow5(k int, m uint64) uint64 {
	r := uint64(1)
	for i := 0; i < k; i++ {
		r = r * 5 % m
	}
	return r
}

// rotation checks the Galois element of any rotation amount.
func rotation(logN int, t ring.Type, id string) {
	p := params(logN, t)
	m := p.RingQ().NthRoot
	k := int(zzvsym.I64("k", -1<<63, 1<<63-1))
	g := p.GaloisElementForColumnRotationBy(k)
	// 5 has order m/4 modulo m
	d := k % int(m/4)
	if d < 0 {
		d += int(m / 4)
	}
	n := int(m / 4)
	for i := 0; i < n; i++ {
		if d == i {
			zzvsym.Assert(g == pow5(i, m), id+": Galois element of a rotation is the power of five")
		}
	}
	zzvsym.ObserveU(g)
}

func ZZ_RotationElementStandard()  { rotation(4, ring.Standard, "standard") }
func ZZ_RotationElementConjugate() { rotation(4, ring.ConjugateInvariant, "conjugate invariant") }

// group checks composition, inverses and the other element lists.
func group(logN int, t ring.Type, id string) {
	p := params(logN, t)
	m := p.RingQ().NthRoot
	seen := map[uint64]bool{}
	n := int(m / 4)
	for a := -n; a <= 2*n; a++ {
		ga := p.GaloisElementForColumnRotationBy(a)
		zzvsym.Assert(ga < m && ga&1 == 1, id+": a Galois element is odd and below the root order")
		if a >= 0 && a < n {
			zzvsym.Assert(!seen[ga], id+": different rotations have different Galois elements")
			seen[ga] = true
		}
		for b := -3; b < n; b += 5 {
			gb := p.GaloisElementForColumnRotationBy(b)
			zzvsym.Assert(ga*gb%m == p.GaloisElementForColumnRotationBy(a+b), id+": rotations compose")
		}
	}
	for g := uint64(1); g < m; g += 2 {
		h := p.InverseGaloisElement(g)
		zzvsym.Assert(h < m && g*h%m == 1, id+": inverse Galois element")
	}
	l := p.GaloisElementsForRowInnerSum()
	zzvsym.Assert(len(l) == logN, id+": inner sum elements")
	for i := 0; i < logN; i++ {
		if t == ring.Standard && i == logN-1 {
			zzvsym.Assert(l[i] == m-1 && p.GaloisElementForRowRotation() == m-1, id+": conjugation element")
		} else {
			zzvsym.Assert(l[i] == pow5(1<<uint(i), m), id+": inner sum elements")
		}
	}
	w := zzvsym.U64("generator", 0, math.MaxUint64)
	any := ring.GenGaloisParams(uint64(1)<<uint(logN), w)
	p1 := uint64(1)
	for i := range any {
		zzvsym.Assert(any[i] == p1, id+": GenGaloisParams of any generator")
		p1 = p1 * w % (uint64(2) << uint(logN))
	}
	zzvsym.Assert(len(any) == 1<<uint(logN-1), id+": GenGaloisParams of any generator")
	gen := ring.GenGaloisParams(uint64(1)<<uint(logN), 5)
	for i := range gen {
		zzvsym.Assert(gen[i] == pow5(i, uint64(2)<<uint(logN)), id+": GenGaloisParams")
	}
	zzvsym.Assert(len(gen) == 1<<uint(logN-1), id+": GenGaloisParams")
}

func ZZ_GroupStandard() {
	group(4, ring.Standard, "standard")
	group(5, ring.Standard, "standard")
	if zzvsym.Thorough() {
		group(6, ring.Standard, "standard")
		group(7, ring.Standard, "standard")
	}
}

func ZZ_GroupConjugate() {
	group(4, ring.ConjugateInvariant, "conjugate invariant")
	if zzvsym.Thorough() {
		group(5, ring.ConjugateInvariant, "conjugate invariant")
		group(6, ring.ConjugateInvariant, "conjugate invariant")
	}
}

// ZZ_RotationOfSlots checks that the automorphism of a rotation by k followed by one by l is that of k+l on polynomials over both bases.
func ZZ_RotationOverBothBases() {
	p := params(4, ring.Standard)
	r := p.RingQP()
	n := p.N()
	for k := -2; k < 8; k += 3 {
		for l := 1; l < 6; l += 4 {
			lq, lp := k&1, l>>2
			a := rlwe.PolyQP{Q: zz.Poly("aq", p.RingQ(), 1), P: zz.Poly("ap", p.RingP(), 1)}
			aq, ap := zz.Rows(a.Q), zz.Rows(a.P)
			b, c, d := r.NewPoly(), r.NewPoly(), r.NewPoly()
			r.PermuteNTTWithIndexLvl(1, 1, a, p.RingQ().PermuteNTTIndex(p.GaloisElementForColumnRotationBy(k)), b)
			c = rlwe.PolyQP{Q: zz.Poly("cq", p.RingQ(), 1), P: zz.Poly("cp", p.RingP(), 1)}
			cq, cp := zz.Rows(c.Q), zz.Rows(c.P)
			r.PermuteNTTWithIndexLvl(lq, lp, b, p.RingQ().PermuteNTTIndex(p.GaloisElementForColumnRotationBy(l)), c)
			r.PermuteNTTWithIndexLvl(1, 1, a, p.RingQ().PermuteNTTIndex(p.GaloisElementForColumnRotationBy(k+l)), d)
			zz.Same(a.Q, aq, "both bases: operand changed")
			zz.Same(a.P, ap, "both bases: operand changed")
			zz.SameFrom(c.Q, cq, lq+1, "both bases: row above the level changed")
			zz.SameFrom(c.P, cp, lp+1, "both bases: row above the level changed")
			e := rlwe.PolyQP{Q: zz.Poly("eq", p.RingQ(), 1), P: zz.Poly("ep", p.RingP(), 1)}
			eq, ep := zz.Rows(e.Q), zz.Rows(e.P)
			r.PermuteNTTWithIndexAndAddNoModLvl(lq, lp, b, p.RingQ().PermuteNTTIndex(p.GaloisElementForColumnRotationBy(l)), e)
			zz.SameFrom(e.Q, eq, lq+1, "both bases: row above the level changed")
			zz.SameFrom(e.P, ep, lp+1, "both bases: row above the level changed")
			for j := 0; j < n; j++ {
				for i := 0; i <= lq; i++ {
					zzvsym.Assert(c.Q.Coeffs[i][j] == d.Q.Coeffs[i][j], "both bases: rotations compose")
					zzvsym.Assert(e.Q.Coeffs[i][j] == eq[i][j]+d.Q.Coeffs[i][j], "both bases: accumulation")
				}
				for i := 0; i <= lp; i++ {
					zzvsym.Assert(c.P.Coeffs[i][j] == d.P.Coeffs[i][j], "both bases: rotations compose")
					zzvsym.Assert(e.P.Coeffs[i][j] == ep[i][j]+d.P.Coeffs[i][j], "both bases: accumulation")
				}
			}
			zzvsym.ObserveU(c.Q.Coeffs[0][1])
		}
	}
}
