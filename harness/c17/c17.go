// Package c17: key switching over an auxiliary modulus.
// Bounds: ring degree 16; three to five moduli, one and two special primes, blocks of one to three moduli, auxiliary moduli of 60 to 130 bits; every level; every polynomial to switch (digits of two moduli: away from the ends of their range) with fixed keys; arbitrary contents of the derived keys.
package c17

import (
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math/big"
)

type config struct {
	q, p, t []uint64
	gamma   int
}

func (c config) params() frlwe.Parameters {
	return frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: 4, Q: c.q, P: c.p, T: c.t, H: 8, Sigma: 3.2, Gamma: c.gamma})
}

// fixed makes the samplers return the same fixed polynomials on every use.
func fixed(params rlwe.Parameters) *samples {
	h := hook(params)
	seed := uint64(1)
	next := func(m uint64) uint64 {
		seed = seed*6364136223846793005 + 1442695040888963407
		return (seed >> 3) % m
	}
	h.uniform = func(k int, r *ring.Ring, level int) *ring.Poly {
		p := r.NewPolyLvl(level)
		for i := range p.Coeffs {
			for j := range p.Coeffs[i] {
				p.Coeffs[i][j] = next(r.Modulus[i])
			}
		}
		return p
	}
	ints := func(b int64) []*big.Int {
		v := make([]*big.Int, params.N())
		for j := range v {
			v[j] = big.NewInt(int64(next(uint64(2*b+1))) - b)
		}
		return v
	}
	h.gaussian = func(k int) []*big.Int { return ints(19) }
	h.ternary = func(k int) []*big.Int { return ints(1) }
	return h
}

// keys generates the same relinearisation (or rotation) key in both forms.
func keys(fp frlwe.Parameters, rot int) (*rlwe.SwitchingKey, [2]*frlwe.SwitchingKey) {
	params := fp.Parameters
	defer off()
	fixed(params)
	sk := rlwe.NewKeyGenerator(params).GenSecretKey()
	var a *rlwe.SwitchingKey
	var b [2]*frlwe.SwitchingKey
	fixed(params)
	if rot == 0 {
		a = rlwe.NewKeyGenerator(params).GenRelinearizationKey(sk, 1).Keys[0]
	} else {
		a = rlwe.NewKeyGenerator(params).GenSwitchingKeyForRotationBy(rot, sk)
	}
	fixed(params)
	if rot == 0 {
		b = frlwe.NewKeyGenerator(fp).GenRelinKey(sk).Value
	} else {
		k := frlwe.NewKeyGenerator(fp).GenRotKey(rot, sk)
		b = k.Value
		zzvsym.Assert(k.Rotidx == uint64(rot), "GenRotKey: index")
	}
	return a, b
}

// block checks that part holds one integer per coefficient, congruent to the block of the rows c (coefficients, special primes first).
func block(fp frlwe.Parameters, part *ring.Poly, x []*zz.RNS, id string) {
	r := fp.RingT()
	m := r.Modulus
	zzvsym.Assert(len(part.Coeffs) == len(m), id+": rows")
	c := part.CopyNew()
	for i := range c.Coeffs {
		for j := range c.Coeffs[i] {
			zzvsym.Assert(c.Coeffs[i][j] < m[i], id+": range")
		}
	}
	r.InvMForm(c, c)
	r.InvNTT(c, c)
	for j := range x {
		zz.Near(zz.Column(c, j, len(m)), x[j].X, x[j].Prod, m, len(x[j].Q) == 1, id)
	}
}

// ints returns the integers below the product of the moduli with the given residues (fixed values).
func ints(rows [][]uint64, m []uint64) []*zz.RNS {
	prod := zz.Prod(m)
	var out []*zz.RNS
	for j := range rows[0] {
		x := new(big.Int)
		for i := range m {
			star := new(big.Int).Quo(prod, zz.U(m[i]))
			y := new(big.Int).ModInverse(star, zz.U(m[i]))
			y.Mul(y, zz.U(rows[i][j]))
			y.Mod(y, zz.U(m[i]))
			x.Add(x, y.Mul(y, star))
		}
		out = append(out, &zz.RNS{Q: m, Prod: prod, X: x.Mod(x, prod)})
	}
	return out
}

// spans returns the blocks of n moduli.
func spans(n, gamma int) (out [][2]int) {
	for i := 0; i < n; i += gamma {
		k := i + gamma
		if k > n {
			k = n
		}
		out = append(out, [2]int{i, k})
	}
	return
}

// derived checks fixed keys completely.
func (c config) derived(rot int) {
	fp := c.params()
	id := "GenRelinKey"
	if rot != 0 {
		id = "GenRotKey"
	}
	a, b := keys(fp, rot)
	m := append(append([]uint64{}, c.p...), c.q...)
	for i := range a.Value {
		for k := 0; k < 2; k++ {
			v := a.Value[i][k]
			qp := fp.RingQP()
			qp.InvMFormLvl(len(c.q)-1, len(c.p)-1, v, v)
			qp.InvNTTLvl(len(c.q)-1, len(c.p)-1, v, v)
			rows := append(zz.Rows(v.P), zz.Rows(v.Q)...)
			zzvsym.Assert(len(b[k].Value[i]) == len(spans(len(m), c.gamma)), id+": blocks")
			for n, s := range spans(len(m), c.gamma) {
				block(fp, b[k].Value[i][n], ints(rows[s[0]:s[1]], m[s[0]:s[1]]), id)
			}
		}
	}
}

// anyKey checks the second component of a key with arbitrary contents.
func (c config) anyKey() {
	fp := c.params()
	params := fp.Parameters
	m := append(append([]uint64{}, c.p...), c.q...)
	defer off()
	h := fixed(params)
	sk := rlwe.NewKeyGenerator(params).GenSecretKey()
	var x [][][]*zz.RNS // digit, block, coefficient
	var rows [][][]uint64
	digit := func(i int) {
		for len(rows) <= i {
			w := make([][]uint64, len(m))
			for k := range w {
				w[k] = make([]uint64, 16)
			}
			var blocks [][]*zz.RNS
			for _, s := range spans(len(m), c.gamma) {
				var col []*zz.RNS
				for j := 0; j < 16; j++ {
					v := zz.AnyRNS("a", m[s[0]:s[1]])
					for k := range v.Res {
						w[s[0]+k][j] = v.Res[k]
					}
					col = append(col, v)
				}
				blocks = append(blocks, col)
			}
			rows, x = append(rows, w), append(x, blocks)
		}
	}
	nq, np := 0, 0
	h.uniform = func(k int, r *ring.Ring, level int) *ring.Poly {
		p := r.NewPolyLvl(level)
		if len(r.Modulus) == len(c.q) {
			digit(nq)
			for i := range p.Coeffs {
				copy(p.Coeffs[i], rows[nq][len(c.p)+i])
			}
			nq++
		} else {
			digit(np)
			for i := range p.Coeffs {
				copy(p.Coeffs[i], rows[np][i])
			}
			np++
		}
		r.NTTLvl(level, p, p)
		r.MFormLvl(level, p, p)
		return p
	}
	k := frlwe.NewKeyGenerator(fp).GenRelinKey(sk)
	for i := range k.Value[1].Value {
		for n, v := range k.Value[1].Value[i] {
			block(fp, v, x[i][n], "GenRelinKey")
		}
	}
}

// run checks SwitchKey against the direct computation.
func (c config) run(rot int, levels ...int) {
	fp := c.params()
	params := fp.Parameters
	a, b := keys(fp, rot)
	ks := frlwe.NewKeySwitcher(fp)
	ref := rlwe.NewKeySwitcher(params)
	r := params.RingQ()
	alpha := len(c.p)
	for _, level := range levels {
		id := "SwitchKey"
		x := r.NewPoly()
		for i := range x.Coeffs {
			for j := range x.Coeffs[i] {
				x.Coeffs[i][j] = uint64(i*j+5) % r.Modulus[i]
			}
		}
		for lo := 0; lo <= level; lo += alpha {
			hi := lo + alpha
			if hi > level+1 {
				hi = level + 1
			}
			for j := 0; j < r.N; j++ {
				v := zz.AnyRNS("x", c.q[lo:hi])
				if hi-lo > 1 {
					v.Inner()
				}
				for k := range v.Res {
					x.Coeffs[lo+k][j] = v.Res[k]
				}
			}
		}
		x0 := zz.Rows(x)
		y, z := zz.PolyMax("o", r, len(c.q)-1, 0), zz.PolyMax("o", r, len(c.q)-1, 0)
		y0, z0 := zz.Rows(y), zz.Rows(z)
		var k0 [][][]uint64
		for k := 0; k < 2; k++ {
			for i := range b[k].Value {
				for _, v := range b[k].Value[i] {
					k0 = append(k0, zz.Rows(v))
				}
			}
		}
		ks.SwitchKey(level, x, b[0], b[1], y, z)
		zz.Same(x, x0, id+": operand changed")
		zz.SameFrom(y, y0, level+1, id+": row above the level changed")
		zz.SameFrom(z, z0, level+1, id+": row above the level changed")
		n := 0
		for k := 0; k < 2; k++ {
			for i := range b[k].Value {
				for _, v := range b[k].Value[i] {
					zz.Same(v, k0[n], id+": key changed")
					n++
				}
			}
		}
		u, w := r.NewPoly(), r.NewPoly()
		ref.SwitchKeysInPlace(level, x, a, u, w)
		for j := 0; j < r.N; j++ {
			near(zz.Column(y, j, level+1), zz.Column(u, j, level+1), c.q, id)
			near(zz.Column(z, j, level+1), zz.Column(w, j, level+1), c.q, id)
		}
		zzvsym.ObserveU(y.Coeffs[0][3])
		zzvsym.ObserveU(z.Coeffs[level][5])
	}
}

// near asserts got = want + e with one e in {-1,0,1}.
func near(got, want []uint64, m []uint64, id string) {
	var first *big.Int
	for i := range got {
		zzvsym.Assert(got[i] < m[i], id+": range")
		o := zz.Off(zz.U(got[i]), zz.U(want[i]), zz.One, m[i])
		zzvsym.Assert(o.Cmp(big.NewInt(2)) <= 0, id+": value")
		if first == nil {
			first = o
		} else {
			zzvsym.Assert(o.Cmp(first) == 0, id+": same integer for all moduli")
		}
	}
}

var (
	// one modulus per digit, one per block
	one = config{[]uint64{zz.Q30, zz.P30, zz.R30}, []uint64{zz.Q36}, []uint64{zz.Q45, zz.P45}, 1}
	// blocks of two, the last one partial
	half = config{[]uint64{zz.Q30, zz.P30, zz.R30, zz.S30}, []uint64{zz.Q36}, []uint64{zz.Q60, zz.P60}, 2}
	// digits of two moduli, the last one partial
	two = config{[]uint64{zz.Q30, zz.P30, zz.R30}, []uint64{zz.Q36, zz.S30}, []uint64{zz.Q60, zz.P60, zz.R60}, 2}
	// blocks across the two bases
	three = config{[]uint64{zz.Q30, zz.P30, zz.R30, zz.S30}, []uint64{zz.Q36, zz.R36}, []uint64{zz.Q61, zz.P61, zz.R61}, 3}
	// many digits
	many = config{[]uint64{zz.Q30, zz.P30, zz.R30, zz.S30, zz.Q20, zz.P20}, []uint64{zz.Q36}, []uint64{zz.Q61, zz.P61}, 2}
)

func ZZ_Switch1()     { one.run(0, 2, 1, 0, 2) }
func ZZ_Switch1Half() { half.run(0, 3, 2, 1, 0) }
func ZZ_Rotation()    { half.run(3, 3, 0) }
func ZZ_Switch2()     { two.run(0, 2, 1, 0) }
func ZZ_Switch3()    { three.run(0, 3) }
func ZZT_Switch3Low() { three.run(5, 2) }
func ZZT_Switch3One() { three.run(5, 1) }
func ZZT_Many()       { many.run(0, 5) }
func ZZT_ManyLow()    { many.run(7, 4) }
func ZZ_Keys() {
	one.derived(0)
	half.derived(3)
	two.derived(0)
	three.derived(5)
}
func ZZ_AnyKey() {
	one.anyKey()
	half.anyKey()
	two.anyKey()
	three.anyKey()
}
