// Package c02: coefficient-wise ring operations.
// Bounds: N=16, all coefficients symbolic, moduli of 61, 30 and 14 bits (thorough: seven sizes from 8 to 61 bits), every level, receiver distinct from or equal to the operands; scalars symbolic over 64 bits, big scalars symbolic over [-2^130,2^130], powers of two 0..63.
package c02

import (
	"fast-ksw/ring"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math/big"
)

func moduli() []uint64 {
	if zzvsym.Thorough() {
		return []uint64{zz.Q61, zz.P61, zz.Q55, zz.Q45, zz.Q30, zz.Q14, zz.Q8}
	}
	return []uint64{zz.Q61, zz.Q30, zz.Q14}
}

type op3 struct {
	id         string
	f          func(r *ring.Ring, l int, a, b, c *ring.Poly)
	want       func(a, b, c *big.Int) *big.Int
	ka, kb, kc uint64 // input ranges in multiples of the modulus (0: any word)
	out        uint64 // output below out*modulus; 0: exactly the integer given by exact
	mont       bool
	add        bool // result is c plus something below out*modulus
}

func mulw(a, b, c *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func mula(a, b, c *big.Int) *big.Int { x := new(big.Int).Mul(a, b); return x.Add(x, c) }
func muls(a, b, c *big.Int) *big.Int { x := new(big.Int).Mul(a, b); return x.Sub(c, x) }
func muln(a, b, c *big.Int) *big.Int { x := new(big.Int).Mul(a, b); return x.Neg(x) }
func addw(a, b, c *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func subw(a, b, c *big.Int) *big.Int { return new(big.Int).Sub(a, b) }

func runOp3(o op3) {
	q := moduli()
	r := zz.Ring(16, q, ring.Standard)
	top := len(q) - 1
	for level := top; level >= 0; level -= top {
		for al := 0; al < 4; al++ {
			// 0 distinct, 1 receiver is first, 2 receiver is second, 3 all the same
			if al != 0 && level != top {
				continue
			}
			kc := o.kc
			a := zz.PolyMax("a", r, top, o.ka)
			b := zz.PolyMax("b", r, top, o.kb)
			c := zz.PolyMax("c", r, top, kc)
			switch al {
			case 1:
				if o.kc > o.ka {
					continue
				}
				a = c
			case 2:
				b = c
			case 3:
				if o.ka != o.kb {
					continue
				}
				a, b = c, c
			}
			a0, b0, c0 := zz.Rows(a), zz.Rows(b), zz.Rows(c)
			o.f(r, level, a, b, c)
			if al != 1 && al != 3 {
				zz.Same(a, a0, o.id+": operand changed")
			}
			if al != 2 && al != 3 {
				zz.Same(b, b0, o.id+": operand changed")
			}
			zz.SameFrom(c, c0, level+1, o.id+": row above the level changed")
			for i := 0; i <= level; i++ {
				for j := 0; j < r.N; j++ {
					w := o.want(zz.U(a0[i][j]), zz.U(b0[i][j]), zz.U(c0[i][j]))
					if o.mont {
						s := o.want(zz.U(a0[i][j]), zz.U(b0[i][j]), big.NewInt(0))
						rest := new(big.Int).Sub(w, s)
						w = s.Mul(s, zz.InvR(q[i]))
						w.Add(w, rest)
					}
					x := c.Coeffs[i][j]
					zzvsym.Assert(zzvsym.Cong(zz.U(x), w, zz.U(q[i])), o.id+": value")
					if o.add {
						zzvsym.Assert(x >= c0[i][j], o.id+": range")
						zzvsym.Assert(x-c0[i][j] <= o.out*q[i], o.id+": range")
					} else if o.out > 0 {
						zzvsym.Assert(x < o.out*q[i], o.id+": range")
					}
					if j == 3 {
						zzvsym.ObserveU(x)
					}
				}
			}
			if top == 0 {
				break
			}
		}
	}
}

func ZZ_Add() {
	runOp3(op3{id: "Add", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.AddLvl(l, a, b, c) }, want: addw, ka: 1, kb: 1, kc: 1, out: 1})
	runOp3(op3{id: "AddNoMod", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.AddNoModLvl(l, a, b, c) }, want: addw, ka: 2, kb: 2, kc: 2, out: 4})
}

func ZZ_Sub() {
	runOp3(op3{id: "Sub", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.SubLvl(l, a, b, c) }, want: subw, ka: 1, kb: 1, kc: 1, out: 1})
	runOp3(op3{id: "SubNoMod", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.SubNoModLvl(l, a, b, c) }, want: subw, ka: 1, kb: 1, kc: 1, out: 2})
}

func ZZ_MulCoeffs() {
	runOp3(op3{id: "MulCoeffs", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.MulCoeffsLvl(l, a, b, c) }, want: mulw, ka: 0, kb: 0, kc: 0, out: 1})
	runOp3(op3{id: "MulCoeffsConstant", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.MulCoeffsConstantLvl(l, a, b, c) }, want: mulw, ka: 0, kb: 0, kc: 0, out: 2})
}

func ZZ_MulCoeffsAndAdd() {
	runOp3(op3{id: "MulCoeffsAndAdd", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.MulCoeffsAndAddLvl(l, a, b, c) }, want: mula, ka: 2, kb: 2, kc: 1, out: 1})
	runOp3(op3{id: "MulCoeffsAndAddNoMod", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.MulCoeffsAndAddNoModLvl(l, a, b, c) }, want: mula, ka: 2, kb: 2, kc: 2, out: 1, add: true})
}

func ZZ_Mont() {
	runOp3(op3{id: "MulCoeffsMontgomery", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.MulCoeffsMontgomeryLvl(l, a, b, c) }, want: mulw, ka: 2, kb: 1, kc: 1, out: 1, mont: true})
	runOp3(op3{id: "MulCoeffsMontgomeryConstant", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.MulCoeffsMontgomeryConstantLvl(l, a, b, c) }, want: mulw, ka: 2, kb: 1, kc: 1, out: 2, mont: true})
	runOp3(op3{id: "MulCoeffsMontgomeryConstantAndNeg", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.MulCoeffsMontgomeryConstantAndNegLvl(l, a, b, c) }, want: muln, ka: 2, kb: 1, kc: 1, out: 2, mont: true})
}

func ZZ_MontAdd() {
	runOp3(op3{id: "MulCoeffsMontgomeryAndAdd", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.MulCoeffsMontgomeryAndAddLvl(l, a, b, c) }, want: mula, ka: 2, kb: 1, kc: 1, out: 1, mont: true})
	runOp3(op3{id: "MulCoeffsMontgomeryAndAddNoMod", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.MulCoeffsMontgomeryAndAddNoModLvl(l, a, b, c) }, want: mula, ka: 2, kb: 1, kc: 1, out: 1, mont: true, add: true})
	runOp3(op3{id: "MulCoeffsMontgomeryConstantAndAddNoMod", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.MulCoeffsMontgomeryConstantAndAddNoModLvl(l, a, b, c) }, want: mula, ka: 2, kb: 1, kc: 1, out: 2, mont: true, add: true})
}

func ZZ_MontSub() {
	runOp3(op3{id: "MulCoeffsMontgomeryAndSub", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.MulCoeffsMontgomeryAndSubLvl(l, a, b, c) }, want: muls, ka: 2, kb: 1, kc: 1, out: 1, mont: true})
	runOp3(op3{id: "MulCoeffsMontgomeryAndSubNoMod", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.MulCoeffsMontgomeryAndSubNoModLvl(l, a, b, c) }, want: muls, ka: 2, kb: 1, kc: 1, out: 1, mont: true, add: true})
	runOp3(op3{id: "MulCoeffsMontgomeryConstantAndSubNoMod", f: func(r *ring.Ring, l int, a, b, c *ring.Poly) { r.MulCoeffsMontgomeryConstantAndSubNoModLvl(l, a, b, c) }, want: muls, ka: 2, kb: 1, kc: 1, out: 2, mont: true, add: true})
}

func ZZ_Vector() {
	q := moduli()
	r := zz.Ring(16, q, ring.Standard)
	for i := range q {
		v := make([]uint64, r.N)
		for j := range v {
			v[j] = zzvsym.U64("v", 0, q[i]-1)
		}
		lv := len(q) - 1
		sub := zz.Ring(16, q[i:i+1], ring.Standard)
		_ = lv
		for al := 0; al < 2; al++ {
			a := zz.PolyMax("a", sub, 0, 2)
			c := zz.PolyMax("c", sub, 0, 2)
			if al == 1 {
				c = a
			}
			a0 := zz.Rows(a)
			sub.MulByVectorMontgomeryLvl(0, a, v, c)
			if al == 0 {
				zz.Same(a, a0, "MulByVectorMontgomery: operand changed")
			}
			for j := 0; j < r.N; j++ {
				w := new(big.Int).Mul(zz.U(a0[0][j]), zz.U(v[j]))
				w.Mul(w, zz.InvR(q[i]))
				zz.Reduced(c.Coeffs[0][j], w, q[i], "MulByVectorMontgomery")
			}
			a0, c0 := zz.Rows(a), zz.Rows(c)
			sub.MulByVectorMontgomeryAndAddNoModLvl(0, a, v, c)
			for j := 0; j < r.N; j++ {
				w := new(big.Int).Mul(zz.U(a0[0][j]), zz.U(v[j]))
				w.Mul(w, zz.InvR(q[i]))
				w.Add(w, zz.U(c0[0][j]))
				zz.Bounded(c.Coeffs[0][j], w, q[i], 3, "MulByVectorMontgomeryAndAddNoMod")
			}
		}
	}
}

type op2 struct {
	id   string
	f    func(r *ring.Ring, l int, a, c *ring.Poly)
	want func(a *big.Int, q uint64) *big.Int
	ka   uint64
	out  uint64
	le   bool // the modulus itself is allowed
	m    uint64
}

func runOp2(o op2) {
	q := moduli()
	r := zz.Ring(16, q, ring.Standard)
	top := len(q) - 1
	for level := top; level >= 0; level -= top {
		for al := 0; al < 2; al++ {
			a := zz.PolyMax("a", r, top, o.ka)
			c := zz.PolyMax("c", r, top, o.ka)
			if al == 1 {
				c = a
			}
			a0, c0 := zz.Rows(a), zz.Rows(c)
			o.f(r, level, a, c)
			if al == 0 {
				zz.Same(a, a0, o.id+": operand changed")
			}
			zz.SameFrom(c, c0, level+1, o.id+": row above the level changed")
			for i := 0; i <= level; i++ {
				m := q[i]
				if o.m > 0 {
					m = o.m
				}
				for j := 0; j < r.N; j++ {
					x := c.Coeffs[i][j]
					zzvsym.Assert(zzvsym.Cong(zz.U(x), o.want(zz.U(a0[i][j]), q[i]), zz.U(m)), o.id+": value")
					if o.le {
						zzvsym.Assert(x <= o.out*m, o.id+": range")
					} else {
						zzvsym.Assert(x < o.out*m, o.id+": range")
					}
					if j == 3 {
						zzvsym.ObserveU(x)
					}
				}
			}
		}
		if top == 0 {
			break
		}
	}
}

func same(a *big.Int, q uint64) *big.Int { return a }

func ZZ_Neg() {
	runOp2(op2{id: "Neg", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.NegLvl(l, a, c) }, want: func(a *big.Int, q uint64) *big.Int { return new(big.Int).Neg(a) }, ka: 1, out: 1, le: true})
}

func ZZ_Reduce() {
	runOp2(op2{id: "Reduce", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.ReduceLvl(l, a, c) }, want: same, ka: 0, out: 1})
	runOp2(op2{id: "ReduceConstant", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.ReduceConstantLvl(l, a, c) }, want: same, ka: 0, out: 2})
	for _, m := range []uint64{3, 257, 65537, 0xfffffffffffffff} {
		m := m
		runOp2(op2{id: "Mod", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.ModLvl(l, a, m, c) }, want: same, ka: 0, out: 1, m: m})
	}
}

func ZZ_MForm() {
	mf := func(a *big.Int, q uint64) *big.Int { return new(big.Int).Mul(a, zz.Two64) }
	im := func(a *big.Int, q uint64) *big.Int { return new(big.Int).Mul(a, zz.InvR(q)) }
	runOp2(op2{id: "MForm", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.MFormLvl(l, a, c) }, want: mf, ka: 0, out: 1})
	runOp2(op2{id: "MFormConstant", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.MFormConstantLvl(l, a, c) }, want: mf, ka: 0, out: 2})
	runOp2(op2{id: "InvMForm", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.InvMFormLvl(l, a, c) }, want: im, ka: 0, out: 1})
}

func ZZ_Pow2() {
	ns := []int{0, 1, 2, 7, 13, 31, 32, 45, 60, 63}
	if zzvsym.Thorough() {
		ns = nil
		for i := 0; i < 64; i++ {
			ns = append(ns, i)
		}
	}
	for _, n := range ns {
		n := n
		w := func(a *big.Int, q uint64) *big.Int { return new(big.Int).Lsh(a, uint(n)) }
		runOp2(op2{id: "MulByPow2", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.MulByPow2Lvl(l, a, n, c) }, want: w, ka: 1, out: 1})
	}
}

// ZZ_AddScalar: scalars below the modulus of the row.
func ZZ_AddScalar() {
	s := zzvsym.U64("s", 0, zz.Q14-1)
	if zzvsym.Thorough() {
		s = zzvsym.U64("s", 0, zz.Q8-1)
	}
	runOp2(op2{id: "AddScalar", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.AddScalarLvl(l, a, s, c) }, want: func(a *big.Int, q uint64) *big.Int { return new(big.Int).Add(a, zz.U(s)) }, ka: 1, out: 1})
	runOp2(op2{id: "SubScalar", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.SubScalarLvl(l, a, s, c) }, want: func(a *big.Int, q uint64) *big.Int { return new(big.Int).Sub(a, zz.U(s)) }, ka: 1, out: 1})
}

func bigScalar() *big.Int {
	b := new(big.Int).Lsh(zz.One, 130)
	return zzvsym.Big("S", new(big.Int).Neg(b), b)
}

func ZZ_AddScalarBigint() {
	s := bigScalar()
	runOp2(op2{id: "AddScalarBigint", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.AddScalarBigintLvl(l, a, s, c) }, want: func(a *big.Int, q uint64) *big.Int { return new(big.Int).Add(a, s) }, ka: 1, out: 1})
}

func ZZ_SubScalarBigint() {
	s := bigScalar()
	runOp2(op2{id: "SubScalarBigint", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.SubScalarBigintLvl(l, a, s, c) }, want: func(a *big.Int, q uint64) *big.Int { return new(big.Int).Sub(a, s) }, ka: 1, out: 1})
}

func ZZ_MulScalar() {
	s := zzvsym.U64("s", 0, 1<<64-1)
	runOp2(op2{id: "MulScalar", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.MulScalarLvl(l, a, s, c) }, want: func(a *big.Int, q uint64) *big.Int { return new(big.Int).Mul(a, zz.U(s)) }, ka: 2, out: 1})
}

func ZZ_MulScalarBigint() {
	s := bigScalar()
	runOp2(op2{id: "MulScalarBigint", f: func(r *ring.Ring, l int, a, c *ring.Poly) { r.MulScalarBigintLvl(l, a, s, c) }, want: func(a *big.Int, q uint64) *big.Int { return new(big.Int).Mul(a, s) }, ka: 2, out: 1})
}

// ZZ_Defaults: the variants without a level work on the common rows.
func ZZ_Defaults() {
	q := moduli()
	r := zz.Ring(16, q, ring.Standard)
	top := len(q) - 1
	a := zz.Poly("a", r, top)
	b := zz.Poly("b", r, top-1)
	c := zz.Poly("c", r, top)
	chk := func(id string, f func(), want func(a, b *big.Int, q uint64) *big.Int, k uint64, rows int) {
		c0 := zz.Rows(c)
		f()
		zz.SameFrom(c, c0, rows, id+": row above the common level changed")
		for i := 0; i < rows; i++ {
			for j := 0; j < r.N; j++ {
				zz.Bounded(c.Coeffs[i][j], want(zz.U(a.Coeffs[i][j]), zz.U(b.Coeffs[i%top][j]), q[i]), q[i], k, id)
			}
		}
		for i := range c.Coeffs {
			copy(c.Coeffs[i], c0[i])
		}
	}
	add := func(a, b *big.Int, q uint64) *big.Int { return new(big.Int).Add(a, b) }
	sub := func(a, b *big.Int, q uint64) *big.Int { return new(big.Int).Sub(a, b) }
	mul := func(a, b *big.Int, q uint64) *big.Int { return new(big.Int).Mul(a, b) }
	mont := func(a, b *big.Int, q uint64) *big.Int { x := new(big.Int).Mul(a, b); return x.Mul(x, zz.InvR(q)) }
	chk("Add", func() { r.Add(a, b, c) }, add, 1, top)
	chk("AddNoMod", func() { r.AddNoMod(a, b, c) }, add, 2, top)
	chk("Sub", func() { r.Sub(a, b, c) }, sub, 1, top)
	chk("SubNoMod", func() { r.SubNoMod(a, b, c) }, sub, 2, top)
	chk("MulCoeffs", func() { r.MulCoeffs(a, b, c) }, mul, 1, top)
	chk("MulCoeffsConstant", func() { r.MulCoeffsConstant(a, b, c) }, mul, 2, top)
	chk("MulCoeffsMontgomery", func() { r.MulCoeffsMontgomery(a, b, c) }, mont, 1, top)
	chk("MulCoeffsMontgomeryConstant", func() { r.MulCoeffsMontgomeryConstant(a, b, c) }, mont, 2, top)
	neg := func(a, b *big.Int, q uint64) *big.Int { return new(big.Int).Neg(a) }
	id := func(a, b *big.Int, q uint64) *big.Int { return a }
	chk("Neg", func() { r.Neg(a, c) }, neg, 2, top+1)
	chk("Reduce", func() { r.Reduce(a, c) }, id, 1, top+1)
	chk("MForm", func() { r.MForm(a, c) }, func(a, b *big.Int, q uint64) *big.Int { return new(big.Int).Mul(a, zz.Two64) }, 1, top+1)
	chk("InvMForm", func() { r.InvMForm(a, c) }, func(a, b *big.Int, q uint64) *big.Int { return new(big.Int).Mul(a, zz.InvR(q)) }, 1, top+1)
	chk("MulScalar", func() { r.MulScalar(a, 77, c) }, func(a, b *big.Int, q uint64) *big.Int { return new(big.Int).Mul(a, big.NewInt(77)) }, 1, top+1)
}

// ZZ_Equal: comparison of polynomials modulo the moduli.
func ZZ_Equal() {
	r := zz.Ring(16, []uint64{zz.Q61, zz.Q14}, ring.Standard)
	a := zz.Poly("a", r, 1)
	b := a.CopyNew()
	zzvsym.Assert(r.Equal(a, b), "Equal of a copy")
	for _, ij := range [][2]int{{0, 0}, {0, 15}, {1, 7}} {
		i, j := ij[0], ij[1]
		b = a.CopyNew()
		b.Coeffs[i][j] = zzvsym.U64("d", 0, r.Modulus[i]-1)
		zzvsym.Assert(r.Equal(a, b) == (a.Coeffs[i][j] == b.Coeffs[i][j]), "Equal")
		zzvsym.Assert(r.EqualLvl(0, a, b) == (i == 1 || a.Coeffs[i][j] == b.Coeffs[i][j]), "EqualLvl")
		zzvsym.Assert(a.Equals(b) == (a.Coeffs[i][j] == b.Coeffs[i][j]), "Poly.Equals")
	}
}
