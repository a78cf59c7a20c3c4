// Package c09: conversions between integers and residue vectors.
// Bounds: N=16, bases of 1 to 4 (thorough: 5) moduli of 61 to 8 bits, every level, every gap; integers of +-2^260 (machine integers: every 64-bit value).
package c09

import (
	"fast-ksw/ring"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math"
	"math/big"
)

func bases() [][]uint64 {
	b := [][]uint64{{zz.Q61}, {zz.Q61, zz.P61, zz.R61}, {zz.Q8, zz.Q61, zz.Q30, zz.P45}}
	if zzvsym.Thorough() {
		b = append(b, []uint64{zz.Q55, zz.Q14, zz.Q36, zz.S61, zz.Q20}, []uint64{zz.Q14})
	}
	return b
}

const n = 16

func res(x *big.Int, q uint64) uint64 { return new(big.Int).Mod(x, zz.U(q)).Uint64() }

// row checks that row i of p holds the residues of want and, beyond len(want), the old content.
func row(p *ring.Poly, i int, q uint64, want []*big.Int, old [][]uint64, id string) {
	for j := 0; j < n; j++ {
		if j < len(want) {
			zzvsym.Assert(p.Coeffs[i][j] == res(want[j], q), id)
		} else {
			zzvsym.Assert(p.Coeffs[i][j] == old[i][j], id+": coefficient beyond the input")
		}
	}
	zzvsym.ObserveU(p.Coeffs[i][1])
}

func lens() []int { return []int{n, 3, 0} }

func ZZ_SetInt64() {
	for _, q := range bases() {
		for _, l := range lens() {
			r := zz.Ring(n, q, ring.Standard)
			p := zz.PolyMax("p", r, len(q)-1, 0)
			old := zz.Rows(p)
			c, want := make([]int64, l), make([]*big.Int, l)
			for j := range c {
				c[j] = zzvsym.I64("c", math.MinInt64, math.MaxInt64)
				want[j] = big.NewInt(c[j])
			}
			r.SetCoefficientsInt64(c, p)
			for i := range q {
				row(p, i, q[i], want, old, "SetCoefficientsInt64")
			}
		}
	}
}

func ZZ_SetUint64() {
	for _, q := range bases() {
		for _, l := range lens() {
			r := zz.Ring(n, q, ring.Standard)
			p := zz.PolyMax("p", r, len(q)-1, 0)
			old := zz.Rows(p)
			c, want := make([]uint64, l), make([]*big.Int, l)
			for j := range c {
				c[j] = zzvsym.U64("c", 0, math.MaxUint64)
				want[j] = zz.U(c[j])
			}
			r.SetCoefficientsUint64(c, p)
			for i := range q {
				row(p, i, q[i], want, old, "SetCoefficientsUint64")
			}
		}
	}
}

func bigs(l int) ([]*big.Int, []*big.Int) {
	B := new(big.Int).Lsh(zz.One, 260)
	c, want := make([]*big.Int, l), make([]*big.Int, l)
	for j := range c {
		c[j] = zzvsym.Big("c", new(big.Int).Neg(B), B)
		want[j] = new(big.Int).Set(c[j])
	}
	return c, want
}

func ZZ_SetBigint() {
	for _, q := range bases() {
		for _, l := range lens() {
			r := zz.Ring(n, q, ring.Standard)
			for level := -1; level < len(q); level++ {
				p := zz.PolyMax("p", r, len(q)-1, 0)
				old := zz.Rows(p)
				c, want := bigs(l)
				k := level + 1
				if level < 0 {
					r.SetCoefficientsBigint(c, p)
					k = len(q)
				} else {
					r.SetCoefficientsBigintLvl(level, c, p)
				}
				for i := 0; i < k; i++ {
					row(p, i, q[i], want, old, "SetCoefficientsBigint")
				}
				zz.SameFrom(p, old, k, "SetCoefficientsBigintLvl: row above the level changed")
				for j := range c {
					zzvsym.Assert(c[j].Cmp(want[j]) == 0, "SetCoefficientsBigint: input changed")
				}
			}
		}
	}
}

func ZZ_SetString() {
	for _, q := range bases() {
		for _, l := range lens() {
			r := zz.Ring(n, q, ring.Standard)
			p := zz.PolyMax("p", r, len(q)-1, 0)
			old := zz.Rows(p)
			c, want := bigs(l)
			s := make([]string, l)
			for j := range s {
				s[j] = c[j].String()
			}
			r.SetCoefficientsString(s, p)
			for i := range q {
				row(p, i, q[i], want, old, "SetCoefficientsString")
			}
		}
	}
}

// read makes a polynomial of arbitrary integers, exact below the level.
func read(r *ring.Ring, q []uint64, level int) (*ring.Poly, []*big.Int) {
	p := r.NewPoly()
	x := make([]*big.Int, n)
	for j := 0; j < n; j++ {
		v := zz.AnyRNS("y", q[:level+1])
		x[j] = v.X
		for i := range q {
			if i <= level {
				p.Coeffs[i][j] = v.Res[i]
			} else {
				p.Coeffs[i][j] = zzvsym.U64("above", 0, math.MaxUint64)
			}
		}
	}
	return p, x
}

func get(gap int, f func(r *ring.Ring, level int, p *ring.Poly, gap int, out []*big.Int), full, centred bool, id string) {
	for _, q := range bases() {
		for level := 0; level < len(q); level++ {
			if full && level < len(q)-1 {
				continue
			}
			r := zz.Ring(n, q, ring.Standard)
			p, x := read(r, q, level)
			old := zz.Rows(p)
			out := make([]*big.Int, n)
			for i := range out {
				out[i] = big.NewInt(77)
			}
			f(r, level, p, gap, out)
			Q := zz.Prod(q[:level+1])
			h := new(big.Int).Rsh(Q, 1)
			for i := 0; i*gap < n; i++ {
				w := x[i*gap]
				zzvsym.Assert(new(big.Int).Mod(out[i], Q).Cmp(w) == 0, id+": value")
				if centred {
					// -Q/2 < out <= Q/2 for an odd Q
					zzvsym.Assert(out[i].Cmp(h) <= 0 && new(big.Int).Neg(h).Cmp(out[i]) <= 0, id+": range")
				} else {
					zzvsym.Assert(out[i].Cmp(w) == 0, id+": canonical value")
				}
			}
			zz.Same(p, old, id+": polynomial changed")
			zzvsym.Observe(out[0])
		}
	}
}

func bigint(r *ring.Ring, level int, p *ring.Poly, gap int, out []*big.Int) {
	r.PolyToBigint(p, gap, out)
}
func bigintLvl(r *ring.Ring, level int, p *ring.Poly, gap int, out []*big.Int) {
	r.PolyToBigintLvl(level, p, gap, out)
}
func centred(r *ring.Ring, level int, p *ring.Poly, gap int, out []*big.Int) {
	r.PolyToBigintCenteredLvl(level, p, gap, out)
}

func ZZ_Get()         { get(1, bigint, true, false, "PolyToBigint") }
func ZZ_GetGap()      { get(4, bigint, true, false, "PolyToBigint with gap 4") }
func ZZ_GetLvl()      { get(1, bigintLvl, false, false, "PolyToBigintLvl") }
func ZZ_GetLvlGap()   { get(2, bigintLvl, false, false, "PolyToBigintLvl with gap 2") }
func ZZ_Centred()     { get(1, centred, false, true, "PolyToBigintCenteredLvl") }
func ZZ_CentredGap()  { get(2, centred, false, true, "PolyToBigintCenteredLvl with gap 2") }
func ZZT_CentredGap() { get(8, centred, false, true, "PolyToBigintCenteredLvl with gap 8") }

// the decimal form of a polynomial of lower level read back
func ZZ_Strings() {
	for _, q := range bases() {
		r := zz.Ring(n, q, ring.Standard)
		p, x := read(r, q, len(q)-1)
		s := r.PolyToString(p)
		zzvsym.Assert(len(s) == n, "PolyToString: length")
		b := r.NewPoly()
		r.SetCoefficientsString(s, b)
		for j := range x {
			y, ok := new(big.Int).SetString(s[j], 10)
			zzvsym.Assert(ok && y.Cmp(x[j]) == 0, "PolyToString: value")
			for i := range q {
				zzvsym.Assert(b.Coeffs[i][j] == p.Coeffs[i][j], "strings: round trip")
			}
		}
	}
}
