// Package zz holds what the harnesses share: rings, symbolic polynomials and
// the arithmetic of the specifications.
package zz

import (
	"fast-ksw/ring"
	"fast-ksw/zzvsym"
	"math/big"
	"strconv"
)

// Primes equal to one modulo 2^18 (36 bits: 2^17, 30 and 20 bits: 2^11, 15 bits: 2^8, 12289: 2^12, 193: 2^6).
const (
	Q61 = 0x1fffffffffe00001
	P61 = 0x1fffffffffc80001
	R61 = 0x1fffffffffb40001
	S61 = 0x1fffffffff500001
	Q60 = 0xffffffffffc0001
	P60 = 0xfffffffff840001
	R60 = 0xfffffffff240001
	S60 = 0xffffffffe7c0001
	Q55 = 0x7fffffff380001
	P55 = 0x7ffffffef00001
	R55 = 0x7ffffffeac0001
	S55 = 0x7ffffffe700001
	Q45 = 0x1fffff980001
	P45 = 0x1ffffeb40001
	R45 = 0x1ffffe640001
	S45 = 0x1ffffe0c0001
	Q36 = 0xffff00001
	P36 = 0xfff9c0001
	R36 = 0xfff8e0001
	S36 = 0xfff840001
	Q30 = 0x3fff7801
	P30 = 0x3fff5801
	R30 = 0x3fff4001
	S30 = 0x3fff1801
	Q20 = 0xfd801
	P20 = 0xfc001
	R20 = 0xf8801
	S20 = 0xf3001
	Q15 = 0x7e01
	P15 = 0x7b01
	R15 = 0x7901
	S15 = 0x6901
	Q14 = 12289
	Q8  = 193
)

var One = big.NewInt(1)
var Two64 = new(big.Int).Lsh(One, 64)

// U converts to a big integer.
func U(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

// Itoa formats an index.
func Itoa(i int) string { return strconv.Itoa(i) }

// Ring builds a ring; standard or conjugate invariant.
func Ring(n int, q []uint64, t ring.Type) *ring.Ring {
	r, err := ring.NewRingFromType(n, q, t)
	if err != nil {
		panic(err)
	}
	return r
}

// Poly returns a polynomial with arbitrary reduced coefficients.
func Poly(name string, r *ring.Ring, level int) *ring.Poly { return PolyMax(name, r, level, 1) }

// PolyMax returns a polynomial with arbitrary coefficients below k times the modulus (any word when k is 0).
func PolyMax(name string, r *ring.Ring, level int, k uint64) *ring.Poly {
	p := ring.NewPoly(r.N, level+1)
	for i := 0; i <= level; i++ {
		m := k*r.Modulus[i] - 1
		if k == 0 {
			m = 1<<64 - 1
		}
		for j := 0; j < r.N; j++ {
			p.Coeffs[i][j] = zzvsym.U64(name, 0, m)
		}
	}
	return p
}

// Copy returns the rows of p.
func Rows(p *ring.Poly) [][]uint64 {
	out := make([][]uint64, len(p.Coeffs))
	for i := range p.Coeffs {
		out[i] = append([]uint64(nil), p.Coeffs[i]...)
	}
	return out
}

// Same asserts that p still has the rows c.
func Same(p *ring.Poly, c [][]uint64, id string) {
	zzvsym.Assert(len(p.Coeffs) == len(c), id)
	SameFrom(p, c, 0, id)
}

// SameFrom asserts equality of the rows from k on.
func SameFrom(p *ring.Poly, c [][]uint64, k int, id string) {
	for i := k; i < len(c); i++ {
		zzvsym.Assert(len(p.Coeffs[i]) == len(c[i]), id)
		for j := range c[i] {
			zzvsym.Assert(p.Coeffs[i][j] == c[i][j], id)
		}
	}
}

// Reduced asserts x < q and x = want modulo q.
func Reduced(x uint64, want *big.Int, q uint64, id string) { Bounded(x, want, q, 1, id) }

// Bounded asserts x < k*q and x = want modulo q.
func Bounded(x uint64, want *big.Int, q, k uint64, id string) {
	zzvsym.Assert(x < k*q, id+": range")
	zzvsym.Assert(zzvsym.Cong(U(x), want, U(q)), id+": value")
}

// InvR is 2^-64 modulo q.
func InvR(q uint64) *big.Int { return new(big.Int).ModInverse(Two64, U(q)) }

// Prod is the product of the first level+1 moduli.
func Prod(q []uint64) *big.Int {
	p := big.NewInt(1)
	for _, x := range q {
		p.Mul(p, U(x))
	}
	return p
}

// RNS is an arbitrary integer below the product of some moduli, given by its coordinates y_i:
// S = sum y_i*Q/q_i, V = floor(S/Q), X = S - V*Q. Every X in [0,Q) has exactly one such tuple
// and X = y_i*(Q/q_i) modulo q_i.
type RNS struct {
	Q       []uint64
	Prod, X *big.Int
	Res     []uint64 // residues of X
}

// AnyRNS returns an arbitrary integer below the product of the moduli.
func AnyRNS(name string, q []uint64) *RNS {
	x := &RNS{Q: q, Prod: Prod(q)}
	s := new(big.Int)
	for _, qi := range q {
		y := zzvsym.U64(name, 0, qi-1)
		star := new(big.Int).Quo(x.Prod, U(qi))
		s.Add(s, new(big.Int).Mul(U(y), star))
		r := new(big.Int).Mul(U(y), new(big.Int).Mod(star, U(qi)))
		x.Res = append(x.Res, r.Mod(r, U(qi)).Uint64())
	}
	v := new(big.Int).Div(s, x.Prod)
	x.X = s.Sub(s, v.Mul(v, x.Prod))
	return x
}

// Inner assumes that x is at least a 2^-40 fraction of Q away from both ends of [0,Q).
func (x *RNS) Inner() {
	g := new(big.Int).Rsh(x.Prod, 40)
	zzvsym.Assume(x.X.Cmp(g) >= 0)
	zzvsym.Assume(x.X.Cmp(new(big.Int).Sub(x.Prod, g)) <= 0)
}

// Off returns (got - want)/step + 1 modulo m.
func Off(got, want, step *big.Int, m uint64) *big.Int {
	d := new(big.Int).Sub(got, want)
	d.Mul(d, new(big.Int).ModInverse(step, U(m)))
	d.Add(d, One)
	return d.Mod(d, U(m))
}

// Near asserts that got[i] = want + e*step modulo m[i] with one e in {-1,0,1} for all i, e = 0 if exact.
func Near(got []uint64, want, step *big.Int, m []uint64, exact bool, id string) {
	var first *big.Int
	for i := range m {
		o := Off(U(got[i]), want, step, m[i])
		if exact {
			zzvsym.Assert(o.Cmp(One) == 0, id+": value")
			continue
		}
		zzvsym.Assert(o.Cmp(big.NewInt(2)) <= 0, id+": value")
		if first == nil {
			first = o
		} else {
			zzvsym.Assert(o.Cmp(first) == 0, id+": same integer for all moduli")
		}
	}
}

// Column returns the residues of coefficient j.
func Column(p *ring.Poly, j, n int) []uint64 {
	out := make([]uint64, n)
	for i := range out {
		out[i] = p.Coeffs[i][j]
	}
	return out
}
