// Package c10: the samplers.
// Bounds: ring degree 16, one to three moduli of 61 to 15 bits, every level; random streams whose first words or bits are arbitrary (the numbers below) and whose continuation is fixed.
package c10

import (
	"errors"
	"fast-ksw/ring"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math/big"
)

const n = 16

var q = []uint64{zz.Q61, zz.Q30, zz.Q15}

// stream is a source of random bytes: fill(i, b) sets the b bytes of the i-th request.
type stream struct {
	calls uint64
	fill  func(call uint64, b []byte)
}

func (s *stream) Clock(b []byte)   { s.fill(s.calls, b); s.calls++ }
func (s *stream) GetClock() uint64 { return s.calls }
func (s *stream) SetClock(b []byte, c uint64) error {
	return errors.New("not supported")
}

// word splits w into big-endian bytes.
func word(w uint64, b []byte) {
	for i := range b {
		b[i] = byte(w >> (8 * uint(len(b)-1-i)))
	}
}

// words makes a stream of eight-byte words.
func words(next func() uint64) *stream {
	return &stream{fill: func(_ uint64, b []byte) {
		for i := 0; i+8 <= len(b); i += 8 {
			word(next(), b[i:i+8])
		}
	}}
}

func depth(quick, thorough int) int {
	if zzvsym.Thorough() {
		return thorough
	}
	return quick
}

func anyWord(name string) uint64 { return zzvsym.U64(name, 0, 1<<64-1) }

// rangeAndRest asserts that the first level+1 rows are reduced and the others as before.
func rangeAndRest(p *ring.Poly, x [][]uint64, m []uint64, level int, id string) {
	for i := 0; i <= level; i++ {
		for j := range p.Coeffs[i] {
			zzvsym.Assert(p.Coeffs[i][j] < m[i], id+": range")
		}
	}
	zz.SameFrom(p, x, level+1, id+": row beyond the level changed")
}

type ucfg struct {
	m          []uint64
	level, row int
}

// ZZ_UniformRange: arbitrary words at the start of one row, then words below every modulus.
func ZZ_UniformRange() {
	cs := []ucfg{{[]uint64{zz.Q61}, 0, 0}, {[]uint64{zz.Q15, zz.Q61}, 1, 1}, {[]uint64{zz.Q30, zz.Q15, zz.P61}, 1, 1}, {[]uint64{zz.Q30, zz.Q15, zz.P61}, 2, 2}}
	c := cs[zzvsym.Choose("cfg", len(cs))]
	r := zz.Ring(n, c.m, ring.Standard)
	i := 0
	p := zz.PolyMax("p", r, len(c.m)-1, 0)
	x := zz.Rows(p)
	s := words(func() uint64 {
		i++
		if i > c.row*n && i <= c.row*n+depth(4, 7) {
			return anyWord("w")
		}
		return uint64(i) * 7
	})
	u := ring.NewUniformSampler(s, r)
	if c.level == len(c.m)-1 && zzvsym.Choose("entry", 2) == 0 {
		u.Read(p)
	} else {
		u.ReadLvl(c.level, p)
	}
	rangeAndRest(p, x, c.m, c.level, "UniformSampler")
}

// ZZ_UniformCover: a stream repeating one acceptable word gives that value everywhere, so every value can occur.
func ZZ_UniformCover() {
	for _, m := range [][]uint64{{zz.Q61}, {zz.Q15}, {zz.Q8}, {zz.Q30, zz.P30}} {
		r := zz.Ring(n, m, ring.Standard)
		min := m[0]
		for _, y := range m {
			if y < min {
				min = y
			}
		}
		for e := 0; e < 4; e++ {
			v := zzvsym.U64("v", 0, min-1)
			u := ring.NewUniformSampler(words(func() uint64 { return v }), r)
			p := zz.PolyMax("p", r, len(m)-1, 0)
			switch e {
			case 0:
				u.Read(p)
			case 1:
				u.ReadLvl(len(m)-1, p)
			case 2:
				p = u.ReadNew()
			case 3:
				p = u.ReadLvlNew(len(m) - 1)
			}
			zzvsym.Assert(len(p.Coeffs) == len(m), "UniformSampler: rows")
			for i := range p.Coeffs {
				for j := range p.Coeffs[i] {
					zzvsym.Assert(p.Coeffs[i][j] == v, "UniformSampler: the only word of the stream is not sampled")
				}
			}
		}
	}
}

// ZZ_RandUniform: one integer below a bound.
func ZZ_RandUniform() {
	b := zzvsym.Choose("bits", 61) + 1
	mask := uint64(1)<<uint(b) - 1
	v := zzvsym.U64("bound", uint64(1)<<uint(b-1), mask)
	i := 0
	x := ring.RandUniform(words(func() uint64 {
		i++
		if i < 3 {
			return anyWord("w")
		}
		return 0
	}), v, mask)
	zzvsym.Assert(x < v, "RandUniform: range")
}

// ternary asserts that coefficient j is one element of {-1,0,1} for all moduli and returns it as 0, 1, 2 on the given path conditions.
func ternary(r *ring.Ring, p *ring.Poly, level, j int, mont bool, id string) (zero, one, minus bool) {
	zero, one, minus = true, true, true
	for i := 0; i <= level; i++ {
		m := r.Modulus[i]
		o := uint64(1)
		if mont {
			o = ring.MForm(1, m, r.BredParams[i])
		}
		c := p.Coeffs[i][j]
		zero = zero && c == 0
		one = one && c == o
		minus = minus && c == m-o
	}
	zzvsym.Assert(zero || one || minus, id+": not one of -1, 0, 1 for all moduli")
	return
}

// bits is an arbitrary byte, one symbol per bit.
func bits() byte {
	var b byte
	for j := uint(0); j < 8; j++ {
		b += byte(zzvsym.U64("bit", 0, 1)) << j
	}
	return b
}

// ZZ_TernaryHalf: the sampler of density one half on every stream.
func ZZ_TernaryHalf() {
	r := zz.Ring(n, q, ring.Standard)
	for _, mont := range []bool{false, true} {
		for level := 0; level < 3; level++ {
			s := &stream{fill: func(_ uint64, b []byte) {
				for i := range b {
					b[i] = bits()
				}
			}}
			p := zz.PolyMax("p", r, 2, 0)
			x := zz.Rows(p)
			t := ring.NewTernarySampler(s, r, 0.5, mont)
			full := true
			switch {
			case level < 2:
				t.ReadLvl(level, p)
			case mont:
				t.Read(p)
			default:
				p = t.ReadNew()
				full = false
			}
			if full {
				rangeAndRest(p, x, q, level, "TernarySampler")
			}
			for j := 0; j < n; j++ {
				ternary(r, p, level, j, mont, "TernarySampler")
			}
		}
	}
}

// ZZ_TernaryProba: other densities; the stream has a run of zeros (which is what goes furthest into the probability matrix), then arbitrary bits.
func ZZ_TernaryProba() {
	r := zz.Ring(n, q[1:], ring.Standard)
	ps := []float64{1.0 / 3, 0.3, 0.15, 0.9, 1e-9}
	d := ps[zzvsym.Choose("density", depth(3, len(ps)))]
	z := []int{0, 54, 55, 125}[zzvsym.Choose("zeros", 4)]
	k := depth(5, 7)
	s := &stream{fill: func(call uint64, b []byte) {
		for i := range b {
			b[i] = 0
			for j := 0; j < 8; j++ {
				t := int(call)*8*n + 8*i + j
				switch {
				case t < z:
				case t < z+k:
					b[i] |= byte(zzvsym.Choose("bit", 2)) << uint(j)
				default:
					b[i] |= (byte(0x96+0x35*i+int(call)*0x11) >> uint(j) & 1) << uint(j)
				}
			}
		}
	}}
	p := zz.PolyMax("p", r, 1, 0)
	x := zz.Rows(p)
	level := z % 2
	mont := z > 54
	t := ring.NewTernarySampler(s, r, d, mont)
	t.ReadLvl(level, p)
	rangeAndRest(p, x, q[1:], level, "TernarySampler (density)")
	for j := 0; j < n; j++ {
		ternary(r, p, level, j, mont, "TernarySampler (density)")
	}
}

// ZZ_TernarySparse: exactly the requested number of non-zero coefficients.
func ZZ_TernarySparse() {
	r := zz.Ring(n, q[1:], ring.Standard)
	// one draw is arbitrary, the next one of several; others take the first remaining position
	type cfg struct{ hw, first int }
	cs := []cfg{{0, 0}, {1, 0}, {2, 0}, {8, 7}, {9, 7}, {15, 14}, {16, 14}, {17, 0}}
	c := cs[zzvsym.Choose("cfg", len(cs))]
	hw, first := c.hw, c.first
	draws := 0
	s := &stream{fill: func(call uint64, b []byte) {
		if call == 0 {
			for i := range b {
				b[i] = bits()
			}
			return
		}
		w := uint64(0)
		if draws == first {
			w = uint64(zzvsym.Choose("draw", 32)) + zzvsym.U64("high", 0, 1<<27-1)<<5
		}
		if draws == first+1 {
			w = []uint64{0, 1, 15, 30}[zzvsym.Choose("draw", depth(2, 4))]
		}
		draws++
		word(w, b)
	}}
	mont := first > 0
	p := zz.PolyMax("p", r, 1, 0)
	x := zz.Rows(p)
	level := hw % 2
	t := ring.NewTernarySamplerWithHammingWeight(s, r, hw, mont)
	t.ReadLvl(level, p)
	rangeAndRest(p, x, q[1:], level, "TernarySampler (sparse)")
	if hw > n {
		hw = n
	}
	nz := 0
	for j := 0; j < n; j++ {
		ternary(r, p, level, j, mont, "TernarySampler (sparse)")
		if p.Coeffs[0][j] != 0 {
			nz++
		}
	}
	zzvsym.Assert(nz == hw, "TernarySampler (sparse): number of non-zero coefficients")
}

var pattern int

// gaussian runs f with normally distributed values replaced by arbitrary ones and returns the expected coefficients.
func gaussian(rejected int, sigma float64, bound int64, f func(g *ring.GaussianSampler, r *ring.Ring)) []*big.Int {
	r := zz.Ring(n, q, ring.Standard)
	var want []*big.Int
	k := 0
	pattern++
	const den = 1 << 20
	top := int64(float64(bound)/sigma*den) + 1
	ring.ZZNorm = func(*ring.GaussianSampler) (float64, uint64) {
		k++
		sign := uint64(k+pattern) / 3 & 1
		if k <= rejected {
			// rounded above the bound
			return zzvsym.F64("big", top+den, top*1000, den), sign
		}
		// any accepted value: the integer and its distance from the middle; zero now and then
		w, x := new(big.Int), 0.25/sigma
		if k%5 != 2 {
			e := zzvsym.I64("e", 1, bound)
			x = (float64(e*4+zzvsym.I64("frac", -1, 1)) / 4) / sigma
			w = big.NewInt(e)
		}
		if sign == 0 {
			w.Neg(w)
		}
		want = append(want, w)
		return x, sign
	}
	s := &stream{fill: func(_ uint64, b []byte) {}}
	f(ring.NewGaussianSampler(s, r, sigma, int(bound)), r)
	ring.ZZNorm = nil
	return want
}

// check compares with old (nil: nothing) plus the expected values.
func (p expect) check(got *ring.Poly, level int, want []*big.Int, id string) {
	zzvsym.Assert(len(want) == n, id+": one accepted value per coefficient")
	for i := 0; i <= level; i++ {
		for j := 0; j < n; j++ {
			w := new(big.Int).Set(want[j])
			if p.old != nil {
				w.Add(w, zz.U(p.old[i][j]))
			}
			zz.Reduced(got.Coeffs[i][j], w, q[i], id)
		}
	}
	if p.rest != nil {
		zz.SameFrom(got, p.rest, level+1, id+": row beyond the level changed")
	}
}

type expect struct{ old, rest [][]uint64 }

// ZZ_Gaussian: the value read is the rounded one, with its sign, for all moduli; values above the bound are drawn again.
func ZZ_Gaussian() {
	for _, rej := range []int{0, 2} {
		for level := 0; level < 3; level++ {
			for _, sigma := range []float64{3.2, 1} {
				bound := int64(19)
				if sigma == 1 {
					bound = 6
				}
				var p *ring.Poly
				var x, y [][]uint64
				w := gaussian(rej, sigma, bound, func(g *ring.GaussianSampler, r *ring.Ring) {
					p = zz.PolyMax("p", r, 2, 0)
					x = zz.Rows(p)
					g.ReadLvl(level, p)
				})
				expect{nil, x}.check(p, level, w, "GaussianSampler.ReadLvl")
				w = gaussian(rej, 7.5, 40, func(g *ring.GaussianSampler, r *ring.Ring) {
					p = zz.PolyMax("p", r, 2, 0)
					x = zz.Rows(p)
					ring.NewGaussianSampler(&stream{fill: func(uint64, []byte) {}}, r, sigma, int(bound)).ReadFromDistLvl(level, p, r, 7.5, 40)
				})
				expect{nil, x}.check(p, level, w, "GaussianSampler.ReadFromDistLvl")
				w = gaussian(rej, sigma, bound, func(g *ring.GaussianSampler, r *ring.Ring) {
					p = zz.Poly("p", r, 2)
					x, y = zz.Rows(p), zz.Rows(p)
					g.ReadAndAddLvl(level, p)
				})
				expect{y, x}.check(p, level, w, "GaussianSampler.ReadAndAddLvl")
				w = gaussian(rej, 7.5, 40, func(g *ring.GaussianSampler, r *ring.Ring) {
					p = zz.Poly("p", r, 2)
					x, y = zz.Rows(p), zz.Rows(p)
					ring.NewGaussianSampler(&stream{fill: func(uint64, []byte) {}}, r, sigma, int(bound)).ReadAndAddFromDistLvl(level, p, r, 7.5, 40)
				})
				expect{y, x}.check(p, level, w, "GaussianSampler.ReadAndAddFromDistLvl")
				w = gaussian(rej, sigma, bound, func(g *ring.GaussianSampler, r *ring.Ring) { p = g.ReadLvlNew(level) })
				zzvsym.Assert(len(p.Coeffs) == level+1, "GaussianSampler.ReadLvlNew: rows")
				expect{nil, nil}.check(p, level, w, "GaussianSampler.ReadLvlNew")
			}
		}
		var p *ring.Poly
		w := gaussian(rej, 3.2, 19, func(g *ring.GaussianSampler, r *ring.Ring) { p = g.ReadNew() })
		expect{nil, nil}.check(p, 2, w, "GaussianSampler.ReadNew")
		w = gaussian(rej, 3.2, 19, func(g *ring.GaussianSampler, r *ring.Ring) { p = zz.PolyMax("p", r, 2, 0); g.Read(p) })
		expect{nil, nil}.check(p, 2, w, "GaussianSampler.Read")
	}
}

// ZZ_GaussianStream: the sampler itself on a stream with arbitrary words.
func ZZ_GaussianStream() {
	ring.ZZNorm = nil
	r := zz.Ring(n, q, ring.Standard)
	// the strip of the ziggurat: the base strip, a middle one, the narrow ones
	strip := []uint64{1, 2, 127, 64, 0}[zzvsym.Choose("strip", depth(3, 5))]
	at := []int{0, 127, 126, 125}[zzvsym.Choose("at", depth(2, 4))]
	k := 0
	s := words(func() uint64 {
		k++
		if k == at+1 {
			return uint64(zzvsym.Choose("sign", 2))<<63 + zzvsym.U64("hi", 0, 1<<24-1)<<39 + strip<<32 + zzvsym.U64("lo", 0, 1<<32-1)
		}
		return uint64(k)*0x9e3779b97f4a7c15 + 77
	})
	p := zz.PolyMax("p", r, 2, 0)
	x := zz.Rows(p)
	g := ring.NewGaussianSampler(s, r, 3.2, 19)
	for i := 0; i < at/n; i++ {
		g.ReadLvl(0, r.NewPoly())
	}
	g.ReadLvl(1, p)
	rangeAndRest(p, x, q, 1, "GaussianSampler (stream)")
	for j := 0; j < n; j++ {
		a, b := p.Coeffs[0][j], p.Coeffs[1][j]
		pos := a <= 19 && a == b
		neg := a != 0 && q[0]-a <= 19 && q[0]-a == q[1]-b
		zzvsym.Assert(pos || neg, "GaussianSampler (stream): same bounded integer for all moduli")
	}
}
