// Package c07: division by the last moduli.
// Bounds: N=16, bases of 2 to 4 (thorough: 5) moduli of 61 to 15 bits in ascending, descending and mixed order, every number of divisions from 0 to the level; every represented integer.
package c07

import (
	"fast-ksw/ring"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math/big"
	"math/bits"
)

// put makes coefficient j of p an arbitrary integer modulo the product of q,
// written u_0 + m_0*(u_1 + m_1*(... + m_k*t)) with m the dropped moduli (less
// floor(m_i/2) at each step if round is set).
func put(p *ring.Poly, j int, q []uint64, drop int, round bool) *big.Int {
	keep := len(q) - drop
	z := zzvsym.Big("t", big.NewInt(0), new(big.Int).Sub(zz.Prod(q[:keep]), zz.One))
	for i := keep; i < len(q); i++ {
		z = new(big.Int).Mul(z, zz.U(q[i]))
		z.Add(z, zz.U(zzvsym.U64("u", 0, q[i]-1)))
		if round {
			z.Sub(z, zz.U(q[i]>>1))
		}
	}
	for i, qi := range q {
		p.Coeffs[i][j] = new(big.Int).Mod(z, zz.U(qi)).Uint64()
	}
	return z
}

type div struct {
	id    string
	ntt   bool
	round bool
	one   bool // divides once
	f     func(r *ring.Ring, level, n int, a, pool, b *ring.Poly)
}

func (d div) run(q []uint64, level, nb int, inplace bool) {
	d.id += " moduli 0.." + zz.Itoa(level) + " of " + zz.Itoa(len(q)) + " (last of " + zz.Itoa(bits.Len64(q[level])) + " bits) by " + zz.Itoa(nb)
	n := 16
	r := zz.Ring(n, q, ring.Standard)
	a := r.NewPoly()
	var want []*big.Int
	for j := 0; j < n; j++ {
		z := put(a, j, q[:level+1], nb, d.round)
		for i := 0; i < nb; i++ {
			m := zz.U(q[level-i])
			if d.round {
				z = new(big.Int).Add(z, new(big.Int).Rsh(m, 1))
			}
			z = new(big.Int).Div(z, m)
		}
		want = append(want, z)
	}
	for i := level + 1; i < len(q); i++ {
		for j := 0; j < n; j++ {
			a.Coeffs[i][j] = zzvsym.U64("above", 0, q[i]-1)
		}
	}
	if d.ntt {
		r.NTTLvl(level, a, a)
	}
	a0 := zz.Rows(a)
	pool := zz.PolyMax("pool", r, len(q)-1, 0)
	b := a
	if !inplace {
		b = zz.PolyMax("b", r, len(q)-1, 0)
	}
	b0 := zz.Rows(b)
	d.f(r, level, nb, a, pool, b)
	if !inplace {
		zz.SameFrom(b, b0, level+1, d.id+": row above the level changed")
	}
	zz.SameFrom(a, a0, level+1, d.id+": row above the level changed")
	for i := 0; i <= level-nb; i++ {
		for j := 0; j < n; j++ {
			zzvsym.Assert(b.Coeffs[i][j] < q[i], d.id+": range")
		}
	}
	if d.ntt {
		r.InvNTTLvl(level-nb, b, b)
	}
	for i := 0; i <= level-nb; i++ {
		for j := 0; j < n; j++ {
			zz.Reduced(b.Coeffs[i][j], want[j], q[i], d.id)
		}
		zzvsym.ObserveU(b.Coeffs[i][3])
	}
}

func bases() [][]uint64 {
	b := [][]uint64{{zz.Q61, zz.P61, zz.R61}, {zz.Q15, zz.Q30, zz.Q61}, {zz.Q61, zz.Q30, zz.Q15}, {zz.Q36, zz.Q61, zz.Q30, zz.P61}}
	if zzvsym.Thorough() {
		b = append(b, []uint64{zz.Q61, zz.P61, zz.R61, zz.S61, zz.Q60}, []uint64{zz.Q55, zz.Q45, zz.Q36, zz.Q30, zz.Q20}, []uint64{zz.Q8, zz.Q14, zz.Q15, zz.Q20, zz.Q60})
	}
	return b
}

func (d div) all() {
	k := 0
	for i, q := range bases() {
		for level := len(q) - 1; level > 0; level-- {
			for nb := 0; nb <= level; nb++ {
				if !d.one && d.ntt && d.round && nb == 1 && i > 0 && !zzvsym.Thorough() {
					continue // the case of DivRoundByLastModulusNTTLvl
				}
				if d.one && nb != 1 || !d.one && level < len(q)-1 && nb < level && !zzvsym.Thorough() {
					continue
				}
				d.run(q, level, nb, k%2 == 1)
				k++
			}
		}
	}
	d.run(bases()[0], 2, 1, k%2 == 1)
}

func ZZ_DivFloor() {
	div{id: "DivFloorByLastModulusLvl", one: true, f: func(r *ring.Ring, l, n int, a, p, b *ring.Poly) { r.DivFloorByLastModulusLvl(l, a, b) }}.all()
}

func ZZ_DivFloorNTT() {
	div{id: "DivFloorByLastModulusNTTLvl", one: true, ntt: true, f: func(r *ring.Ring, l, n int, a, p, b *ring.Poly) { r.DivFloorByLastModulusNTTLvl(l, a, p, b) }}.all()
}

func ZZ_DivFloorMany() {
	div{id: "DivFloorByLastModulusManyLvl", f: func(r *ring.Ring, l, n int, a, p, b *ring.Poly) { r.DivFloorByLastModulusManyLvl(l, n, a, p, b) }}.all()
}

func ZZ_DivFloorManyNTT() {
	div{id: "DivFloorByLastModulusManyNTTLvl", ntt: true, f: func(r *ring.Ring, l, n int, a, p, b *ring.Poly) { r.DivFloorByLastModulusManyNTTLvl(l, n, a, p, b) }}.all()
}

func ZZ_DivRound() {
	div{id: "DivRoundByLastModulusLvl", one: true, round: true, f: func(r *ring.Ring, l, n int, a, p, b *ring.Poly) { r.DivRoundByLastModulusLvl(l, a, b) }}.all()
}

func ZZ_DivRoundNTT() {
	div{id: "DivRoundByLastModulusNTTLvl", one: true, round: true, ntt: true, f: func(r *ring.Ring, l, n int, a, p, b *ring.Poly) { r.DivRoundByLastModulusNTTLvl(l, a, p, b) }}.all()
}

func ZZ_DivRoundMany() {
	div{id: "DivRoundByLastModulusManyLvl", round: true, f: func(r *ring.Ring, l, n int, a, p, b *ring.Poly) { r.DivRoundByLastModulusManyLvl(l, n, a, p, b) }}.all()
}

func ZZ_DivRoundManyNTT() {
	div{id: "DivRoundByLastModulusManyNTTLvl", round: true, ntt: true, f: func(r *ring.Ring, l, n int, a, p, b *ring.Poly) { r.DivRoundByLastModulusManyNTTLvl(l, n, a, p, b) }}.all()
}
