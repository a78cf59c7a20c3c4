// Package c05: monomial products, shifts, rotations and bit reversal.
// Bounds: N=16 and 64, one to three moduli of 61, 30 and 15 bits, every coefficient symbolic below its modulus, every shift amount in [-2N-3,4N+3] (both signs, beyond the degree) plus amounts of 2^40 and 2^62; receiver distinct from or equal to the operand.
package c05

import (
	"fast-ksw/ring"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math/big"
)

func amounts(n int) []int {
	var k []int
	step := 1
	if n > 16 {
		step = 13
		if zzvsym.Thorough() {
			step = 3
		}
	}
	for i := -2*n - 3; i <= 4*n+3; i += step {
		k = append(k, i)
	}
	return append(k, -n, -1, 0, 1, n-1, n, n+1, 2*n-1, 2*n, 2*n+1, 1<<40+5, -1<<40-7, 1<<62+9, -1<<62)
}

func mod(k, n int) int {
	k %= n
	if k < 0 {
		k += n
	}
	return k
}

type op struct {
	id   string
	f    func(r *ring.Ring, a *ring.Poly, k int, b *ring.Poly)
	want func(r *ring.Ring, x []uint64, i int, k int) []*big.Int
	max  uint64 // largest value above the modulus minus one
}

// run checks o on one ring for one amount.
func (o op) run(r *ring.Ring, k int, inplace bool) {
	q := r.Modulus
	l := len(q) - 1
	a := zz.Poly("a", r, l)
	x := zz.Rows(a)
	b := a
	if !inplace {
		b = zz.PolyMax("b", r, l, 0)
	}
	o.f(r, a, k, b)
	if !inplace {
		zz.Same(a, x, o.id+": operand changed")
	}
	zzvsym.Assert(len(b.Coeffs) == len(q), o.id+": rows")
	for i := range q {
		w := o.want(r, x[i], i, k)
		zzvsym.Assert(len(b.Coeffs[i]) == r.N, o.id+": length")
		for j := 0; j < r.N; j++ {
			zzvsym.Assert(b.Coeffs[i][j] < q[i]+o.max, o.id+": range")
			zzvsym.Assert(zzvsym.Cong(zz.U(b.Coeffs[i][j]), w[j], zz.U(q[i])), o.id+": value")
		}
		zzvsym.ObserveU(b.Coeffs[i][3])
	}
	if inplace {
		return
	}
	// no shared storage: writing to the receiver does not show in the operand and the other way round
	y := zz.Rows(b)
	for i := range q {
		for j := 0; j < r.N; j++ {
			b.Coeffs[i][j] = zzvsym.U64("w", 0, 1<<64-1)
		}
	}
	zz.Same(a, x, o.id+": receiver and operand share storage")
	for i := range q {
		for j := 0; j < r.N; j++ {
			a.Coeffs[i][j] = zzvsym.U64("v", 0, 1<<64-1)
			b.Coeffs[i][j] = y[i][j]
		}
	}
	for i := range q {
		for j := 0; j < r.N; j++ {
			a.Coeffs[i][j] = zzvsym.U64("u", 0, 1<<64-1)
		}
	}
	zz.Same(b, y, o.id+": receiver and operand share storage")
}

func (o op) all(n int) {
	q := []uint64{zz.Q61, zz.Q30, zz.Q15}
	if n > 16 {
		q = q[:1]
	}
	r := zz.Ring(n, q, ring.Standard)
	for i, k := range amounts(n) {
		o.run(r, k, i%2 == 1)
		if zzvsym.Thorough() || k == 0 || k == 1 || k == -1 || k == n || k == -n {
			o.run(r, k, i%2 == 0)
		}
	}
}

func monomial(r *ring.Ring, x []uint64, i, k int) []*big.Int {
	out := make([]*big.Int, r.N)
	for j := range x {
		e := mod(j+mod(k, 2*r.N), 2*r.N)
		if e < r.N {
			out[e] = zz.U(x[j])
		} else {
			out[e-r.N] = new(big.Int).Neg(zz.U(x[j]))
		}
	}
	return out
}

func shift(r *ring.Ring, x []uint64, i, k int) []*big.Int {
	out := make([]*big.Int, r.N)
	for j := range x {
		out[j] = zz.U(x[mod(j+mod(k, r.N), r.N)])
	}
	return out
}

// rotation: coefficient j is multiplied by w^(k*j), w the square of the 2N-th root of the ring.
func rotation(r *ring.Ring, x []uint64, i, k int) []*big.Int {
	q := zz.U(r.Modulus[i])
	psi := new(big.Int).Mul(zz.U(r.PsiMont[i]), zz.InvR(r.Modulus[i]))
	psi.Mod(psi, q)
	w := new(big.Int).Exp(psi, big.NewInt(int64(2*mod(k, r.N))), q)
	f := big.NewInt(1)
	out := make([]*big.Int, r.N)
	for j := range x {
		out[j] = new(big.Int).Mul(zz.U(x[j]), f)
		f = new(big.Int).Mul(f, w)
		f.Mod(f, q)
	}
	return out
}

func reversal(r *ring.Ring, x []uint64, i, k int) []*big.Int {
	out := make([]*big.Int, r.N)
	for j := range x {
		t, y := 0, j
		for m := r.N; m > 1; m >>= 1 {
			t, y = t<<1|y&1, y>>1
		}
		out[t] = zz.U(x[j])
	}
	return out
}

var opMonomial = op{id: "MultByMonomial", f: func(r *ring.Ring, a *ring.Poly, k int, b *ring.Poly) { r.MultByMonomial(a, k, b) }, want: monomial, max: 1}
var opShift = op{id: "Shift", f: func(r *ring.Ring, a *ring.Poly, k int, b *ring.Poly) { r.Shift(a, k, b) }, want: shift}
var opRotate = op{id: "Rotate", f: func(r *ring.Ring, a *ring.Poly, k int, b *ring.Poly) { r.Rotate(a, k, b) }, want: rotation}

func ZZ_Monomial()   { opMonomial.all(16) }
func ZZ_Monomial64() { opMonomial.all(64) }
func ZZ_Shift()      { opShift.all(16) }
func ZZ_Shift64()    { opShift.all(64) }
func ZZ_Rotate()     { opRotate.all(16) }
func ZZ_Rotate64()   { opRotate.all(64) }

func ZZ_MonomialNew() {
	r := zz.Ring(16, []uint64{zz.Q61, zz.Q30}, ring.Standard)
	for k := -33; k < 66; k += 7 {
		o := op{id: "MultByMonomialNew", f: func(r *ring.Ring, a *ring.Poly, k int, b *ring.Poly) { b.Coeffs = r.MultByMonomialNew(a, k).Coeffs }, want: monomial, max: 1}
		o.run(r, k, false)
	}
}

func ZZ_BitReverse() {
	for _, n := range []int{16, 32, 64} {
		r := zz.Ring(n, []uint64{zz.Q61, zz.Q30}, ring.Standard)
		o := op{id: "BitReverse", f: func(r *ring.Ring, a *ring.Poly, k int, b *ring.Poly) { r.BitReverse(a, b) }, want: reversal}
		if n == 64 {
			// 30 and 15 bits: the larger roots exist
			r = zz.Ring(n, []uint64{zz.Q61}, ring.Standard)
		}
		o.run(r, 0, false)
		o.run(r, 0, true)
	}
}

// ZZ_RotateTransformed checks the meaning of Rotate: the transform of the result is the transform of the bit-reversed
// operand with its values rotated by k positions, in natural order.
func ZZ_RotateSlots() {
	n := 16
	r := zz.Ring(n, []uint64{zz.Q61}, ring.Standard)
	q := zz.U(zz.Q61)
	psi := new(big.Int).Mul(zz.U(r.PsiMont[0]), zz.InvR(zz.Q61))
	psi.Mod(psi, q)
	for k := 0; k < n; k++ {
		a := zz.Poly("a", r, 0)
		b := r.NewPoly()
		r.Rotate(a, k, b)
		// the value of b at psi^(2i) is the value of a at psi^(2(i+k))
		for i := 0; i < n; i++ {
			va, vb := new(big.Int), new(big.Int)
			for j := 0; j < n; j++ {
				ea := new(big.Int).Exp(psi, big.NewInt(int64(2*(i+k)*j)), q)
				eb := new(big.Int).Exp(psi, big.NewInt(int64(2*i*j)), q)
				va.Add(va, ea.Mul(ea, zz.U(a.Coeffs[0][j])))
				vb.Add(vb, eb.Mul(eb, zz.U(b.Coeffs[0][j])))
			}
			zzvsym.Assert(zzvsym.Cong(va, vb, q), "Rotate: evaluation points")
		}
	}
}
