// Package c08: scaling by t/Q.
// Bounds: N=16, bases of 1 to 4 (thorough: 5) moduli of 61 to 15 bits, prime t of 2 to 61 bits for both scalers and powers of two up to 2^32 for the multiprecision one; every represented integer.
package c08

import (
	"fast-ksw/ring"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math/big"
)

const n = 16

func bases() [][]uint64 {
	b := [][]uint64{{zz.Q61}, {zz.Q61, zz.P61, zz.R61}, {zz.Q15, zz.Q55, zz.Q30, zz.P45}}
	if zzvsym.Thorough() {
		b = append(b, []uint64{zz.Q55, zz.Q14, zz.Q36, zz.S61, zz.Q20}, []uint64{zz.Q30, zz.P30})
	}
	return b
}

func primes() []uint64 { return []uint64{12289, 65537, zz.P60, zz.S61} }

// the residue-domain scaler; y = t*x + (Q-1)/2 mod Q is the free variable, and
// round(t*x/Q) = (t*x + (Q-1)/2 - y)/Q, which is ((Q-1)/2 - y)/Q modulo t.
func rns(inner bool) {
	for _, q := range bases() {
		for _, t := range primes() {
			rQ := zz.Ring(n, q, ring.Standard)
			rT := zz.Ring(n, []uint64{t}, ring.Standard)
			Q, T := zz.Prod(q), zz.U(t)
			if new(big.Int).Mod(Q, T).Sign() == 0 {
				continue
			}
			half := new(big.Int).Rsh(Q, 1)
			p, out := rQ.NewPoly(), zz.PolyMax("out", rT, 0, 0)
			want := make([]*big.Int, n)
			qInv := new(big.Int).ModInverse(Q, T)
			for j := 0; j < n; j++ {
				y := zz.AnyRNS("y", q)
				if inner {
					y.Inner()
				}
				for i, qi := range q {
					m := zz.U(qi)
					x := new(big.Int).Sub(zz.U(y.Res[i]), half)
					x.Mul(x, new(big.Int).ModInverse(T, m))
					p.Coeffs[i][j] = x.Mod(x, m).Uint64()
				}
				w := new(big.Int).Sub(half, y.X)
				want[j] = w.Mul(w, qInv)
			}
			old := zz.Rows(p)
			ring.NewRNSScaler(rQ, rT).DivByQOverTRounded(p, out)
			for j := 0; j < n; j++ {
				zzvsym.Assert(out.Coeffs[0][j] < t, "RNSScaler: range")
				zz.Near([]uint64{out.Coeffs[0][j]}, want[j], zz.One, []uint64{t}, inner, "RNSScaler")
			}
			zz.Same(p, old, "RNSScaler: input changed")
			zzvsym.ObserveU(out.Coeffs[0][2])
		}
	}
}

func ZZ_RNS()      { rns(true) }
func ZZ_RNSEdges() { rns(false) }

func simple(q []uint64, t uint64, rows int) {
	rQ := zz.Ring(n, q, ring.Standard)
	Q := zz.Prod(q)
	p, out := rQ.NewPoly(), ring.NewPoly(n, rows)
	want := make([]*big.Int, n)
	for j := 0; j < n; j++ {
		x := zz.AnyRNS("y", q)
		for i := range q {
			p.Coeffs[i][j] = x.Res[i]
		}
		w := new(big.Int).Lsh(new(big.Int).Mul(x.X, zz.U(t)), 1)
		w.Add(w, Q)
		w.Div(w, new(big.Int).Lsh(Q, 1))
		want[j] = w.Mod(w, zz.U(t))
	}
	old := zz.Rows(p)
	ring.NewSimpleScaler(t, rQ).DivByQOverTRounded(p, out)
	for i := range out.Coeffs {
		for j := 0; j < n; j++ {
			zzvsym.Assert(out.Coeffs[i][j] < t, "SimpleScaler: range")
			zzvsym.Assert(zz.U(out.Coeffs[i][j]).Cmp(want[j]) == 0, "SimpleScaler: value")
		}
	}
	zz.Same(p, old, "SimpleScaler: input changed")
	zzvsym.ObserveU(out.Coeffs[0][2])
}

func ZZ_Simple() {
	for k, q := range bases() {
		for _, t := range []uint64{2, 3, 1 << 16, 65537, 1 << 32, zz.P60, zz.S61} {
			simple(q, t, 1+k%2)
		}
	}
}

// two scalings with one scaler do not influence each other
func ZZ_Reuse() {
	q := bases()[1]
	rQ, rT := zz.Ring(n, q, ring.Standard), zz.Ring(n, []uint64{65537}, ring.Standard)
	a, b := zz.Poly("a", rQ, 2), zz.Poly("b", rQ, 2)
	for k, s := range []ring.Scaler{ring.NewRNSScaler(rQ, rT), ring.NewSimpleScaler(65537, rQ)} {
		x, y, z := ring.NewPoly(n, 1), ring.NewPoly(n, 1), ring.NewPoly(n, 1)
		s.DivByQOverTRounded(a, x)
		s.DivByQOverTRounded(b, y)
		s.DivByQOverTRounded(a, z)
		for j := 0; j < n; j++ {
			zzvsym.Assert(x.Coeffs[0][j] == z.Coeffs[0][j], "scaler state of kind "+zz.Itoa(k))
		}
	}
}
