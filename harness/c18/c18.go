// Package c18: linear operations of the scheme evaluator.
// Bounds: ring degree 16, both ring types, three moduli of 60, 36 and 45 bits; every component coefficient, every degree 0 to 2, every receiver aliasing, chosen levels, scales (integral and fractional ratios) and constants of every accepted type; some constants symbolic.
package c18

import (
	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math"
	"math/big"
)

type env struct {
	p  ckks.Parameters
	ev ckks.Evaluator
	r  *ring.Ring
	q  []uint64
	ci bool

	words bool // operands are given and compared as stored words
}

func newEnv(t ring.Type) *env {
	q := []uint64{zz.Q60, zz.Q36, zz.Q45}
	rp, err := rlwe.NewParameters(4, q, []uint64{zz.Q30}, 8, 3.2, t)
	if err != nil {
		panic(err)
	}
	p, err := ckks.NewParameters(rp, 3, 1<<20)
	if err != nil {
		panic(err)
	}
	return &env{p, ckks.NewEvaluator(p, rlwe.EvaluationKey{}), p.RingQ(), q, t == ring.ConjugateInvariant, false}
}

func bi(x int64) *big.Int { return big.NewInt(x) }

// val are the coefficients of the components of an operand, row by row.
type val [][][]uint64

func (e *env) poly(p *ring.Poly, name string) [][]uint64 {
	level := len(p.Coeffs) - 1
	x := zz.PolyMax(name, e.r, level, 1)
	rows := zz.Rows(x)
	if !e.words {
		e.r.NTTLvl(level, x, x)
	}
	for i := range p.Coeffs {
		copy(p.Coeffs[i], x.Coeffs[i])
	}
	p.IsNTT = true
	return rows
}

func (e *env) ct(name string, deg, level int, scale float64) (*ckks.Ciphertext, val) {
	c := ckks.NewCiphertext(e.p, deg, level, scale)
	var v val
	for _, p := range c.Value {
		v = append(v, e.poly(p, name))
	}
	return c, v
}

func (e *env) pt(name string, level int, scale float64) (*ckks.Plaintext, val) {
	p := ckks.NewPlaintext(e.p, level, scale)
	return p, val{e.poly(p.Value, name)}
}

// check compares a result with the wanted coefficients.
func (e *env) check(c *ckks.Ciphertext, deg, level int, scale float64, want func(u, i, j int) *big.Int, lazy bool, id string) {
	zzvsym.Assert(c.Degree() == deg, id+": degree")
	zzvsym.Assert(c.Level() == level, id+": level")
	zzvsym.Assert(c.Scale == scale, id+": scale")
	for u, p := range c.Value {
		zzvsym.Assert(len(p.Coeffs) == level+1, id+": level")
		zzvsym.Assert(p.IsNTT, id+": domain")
		if !lazy {
			for i := 0; i <= level; i++ {
				for j := range p.Coeffs[i] {
					zzvsym.Assert(p.Coeffs[i][j] <= e.q[i], id+": range")
				}
			}
		}
		if e.words {
			for i := 0; i <= level; i++ {
				for j, x := range p.Coeffs[i] {
					zzvsym.Assert(zzvsym.Cong(zz.U(x), want(u, i, j), zz.U(e.q[i])), id+": value")
				}
			}
			continue
		}
		x := e.r.NewPolyLvl(level)
		e.r.ReduceLvl(level, p, x)
		e.r.InvNTTLvl(level, x, x)
		for i := 0; i <= level; i++ {
			for j := range x.Coeffs[i] {
				zz.Reduced(x.Coeffs[i][j], want(u, i, j), e.q[i], id)
			}
		}
	}
	zzvsym.ObserveU(c.Value[deg].Coeffs[level][5])
}

// kept are the stored words of an operand that must not change.
type kept struct {
	o     ckks.Operand
	rows  [][][]uint64
	scale float64
}

func keep(o ckks.Operand) kept {
	k := kept{o: o, scale: o.ScalingFactor()}
	for _, p := range o.El().Value {
		k.rows = append(k.rows, zz.Rows(p))
	}
	return k
}

func (k kept) check(id string) {
	zzvsym.Assert(k.o.Degree() == len(k.rows)-1 && k.o.ScalingFactor() == k.scale, id+": operand changed")
	for u, p := range k.o.El().Value {
		zzvsym.Assert(len(p.Coeffs) == len(k.rows[u]), id+": operand changed")
		zz.Same(p, k.rows[u], id+": operand changed")
	}
}

// at is a coefficient of a component, zero above the degree.
func (v val) at(u, i, j int) *big.Int {
	if u >= len(v) {
		return new(big.Int)
	}
	return zz.U(v[u][i][j])
}

// times multiplies by a + b*X^(N/2).
func (e *env) times(v val, a, b *big.Int) func(u, i, j int) *big.Int {
	return func(u, i, j int) *big.Int {
		h := e.r.N / 2
		r := new(big.Int).Mul(v.at(u, i, j), a)
		if e.ci || b.Sign() == 0 {
			return r
		}
		if j >= h {
			return r.Add(r, new(big.Int).Mul(v.at(u, i, j-h), b))
		}
		return r.Sub(r, new(big.Int).Mul(v.at(u, i, j+h), b))
	}
}

type binop struct {
	id   string
	f    func(a, b ckks.Operand, o *ckks.Ciphertext)
	n    func(a, b ckks.Operand) *ckks.Ciphertext
	sub  bool
	lazy bool
}

func (e *env) ops() []binop {
	return []binop{
		{"Add", e.ev.Add, e.ev.AddNew, false, false},
		{"Sub", e.ev.Sub, e.ev.SubNew, true, false},
		{"AddNoMod", e.ev.AddNoMod, e.ev.AddNoModNew, false, true},
		{"SubNoMod", e.ev.SubNoMod, e.ev.SubNoModNew, true, true},
	}
}

// Receivers: a new one, a fresh one of a larger degree and level, one of the
// operands, or the result of the allocating variant.
const (
	fresh = iota
	first
	second
	alloc
)

func (e *env) binary(o binop, d0, d1, l0, l1, lo int, s0, s1 float64, recv int) {
	id := o.id
	var a, b ckks.Operand
	var ca, cb, out *ckks.Ciphertext
	var va, vb val
	if d0 == 0 {
		a, va = e.pt("a", l0, s0)
	} else {
		ca, va = e.ct("a", d0, l0, s0)
		a = ca
	}
	if d1 == 0 {
		b, vb = e.pt("b", l1, s1)
	} else {
		cb, vb = e.ct("b", d1, l1, s1)
		b = cb
	}
	d := d0
	if d1 > d {
		d = d1
	}
	switch recv {
	case fresh:
		out, _ = e.ct("o", 2, lo, 3)
	case first:
		if d0 < d {
			return
		}
		out, lo = ca, l0
	case second:
		if d1 < d {
			return
		}
		out, lo = cb, l1
	case alloc:
		lo = l0
	}
	level := l0
	if l1 < level {
		level = l1
	}
	if lo < level {
		level = lo
	}
	f0, f1, scale := bi(1), bi(1), s0
	if s1 > s0 {
		f0, scale = bi(int64(math.Floor(s1/s0))), s1
	} else {
		f1 = bi(int64(math.Floor(s0 / s1)))
	}
	if o.sub {
		f1.Neg(f1)
	}
	ka, kb := keep(a), keep(b)
	if recv == alloc {
		out = o.n(a, b)
		id += "New"
	} else {
		o.f(a, b, out)
	}
	if recv != first {
		ka.check(id)
	}
	if recv != second {
		kb.check(id)
	}
	e.check(out, d, level, scale, func(u, i, j int) *big.Int {
		r := new(big.Int).Mul(va.at(u, i, j), f0)
		return r.Add(r, new(big.Int).Mul(vb.at(u, i, j), f1))
	}, o.lazy, id)
}

var degrees = [][2]int{{1, 1}, {2, 1}, {1, 2}, {1, 0}, {0, 1}, {2, 2}, {2, 0}, {0, 2}}
var scales = [][2]float64{{64, 64}, {64, 1024}, {1024, 64}, {64, 100}, {100, 64}, {40, 100}, {100, 40}}

func ZZ_Binary() {
	o := zzvsym.Choose("operation", 4)
	recv := zzvsym.Choose("receiver", 4)
	e := newEnv(ring.Standard)
	e.words = true
	op := e.ops()[o]
	n := recv
	{
		for _, d := range degrees {
			for k := 0; k < 3; k++ {
				s := scales[n%len(scales)]
				n++
				e.binary(op, d[0], d[1], 2, 2, 2, s[0], s[1], recv)
			}
			e.binary(op, d[0], d[1], 2, 1, 2, 64, 64, recv)
			e.binary(op, d[0], d[1], 1, 2, 1, 256, 64, recv)
			e.binary(op, d[0], d[1], 1, 2, 2, 64, 256, recv)
			e.binary(op, d[0], d[1], 2, 2, 0, 64, 640, recv)
			e.binary(op, d[0], d[1], 1, 0, 2, 640, 64, recv)
		}
	}
}

func ZZ_BinaryInvariant() {
	e := newEnv(ring.ConjugateInvariant)
	e.words = true
	n := 0
	for _, op := range e.ops() {
		for recv := fresh; recv <= alloc; recv++ {
			for _, d := range degrees[:5] {
				s := scales[n%len(scales)]
				n++
				e.binary(op, d[0], d[1], 2, 1, 2, s[0], s[1], recv)
			}
		}
	}
}

// ZZ_Same: both operands and the receiver are one ciphertext.
func ZZ_Same() {
	e := newEnv(ring.Standard)
	for _, o := range e.ops() {
		for _, d := range []int{1, 2} {
			c, v := e.ct("a", d, 1, 64)
			o.f(c, c, c)
			f := bi(2)
			if o.sub {
				f = bi(0)
			}
			e.check(c, d, 1, 64, e.times(v, f, bi(0)), o.lazy, o.id)
			c, v = e.ct("a", d, 2, 64)
			k := keep(c)
			out, _ := e.ct("o", d, 1, 1)
			o.f(c, c, out)
			k.check(o.id)
			e.check(out, d, 1, 64, e.times(v, f, bi(0)), o.lazy, o.id)
		}
	}
}

// unary runs f on a ciphertext of every degree into a fresh receiver, a
// receiver of a lower level and in place, and the allocating variant.
func (e *env) unary(id string, scale float64, f func(c, o *ckks.Ciphertext), n func(c *ckks.Ciphertext) *ckks.Ciphertext, want func(v val, level int) (func(u, i, j int) *big.Int, float64)) {
	for deg := 1; deg <= 2; deg++ {
		for k := 0; k < 4; k++ {
			c, v := e.ct("a", deg, 2, scale)
			o := c
			level := 2
			kc := keep(c)
			switch k {
			case 0:
				o, _ = e.ct("o", deg, 2, 3)
			case 1:
				o, _ = e.ct("o", deg, 1, 3)
				level = 1
			}
			if k < 3 {
				f(c, o)
			} else if n != nil {
				o = n(c)
			} else {
				continue
			}
			if k != 2 {
				kc.check(id)
			}
			w, s := want(v, level)
			e.check(o, deg, level, s, w, false, id)
		}
	}
}

func ZZ_Units() {
	for _, t := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
		e := newEnv(t)
		one := func(a, b int64) func(v val, level int) (func(u, i, j int) *big.Int, float64) {
			return func(v val, level int) (func(u, i, j int) *big.Int, float64) { return e.times(v, bi(a), bi(b)), 77 }
		}
		e.unary("Neg", 77, e.ev.Neg, e.ev.NegNew, one(-1, 0))
		e.unary("Reduce", 77, func(c, o *ckks.Ciphertext) { zzvsym.Assert(e.ev.Reduce(c, o) == nil, "Reduce: error") }, e.ev.ReduceNew, one(1, 0))
		e.unary("ScaleUp", 77, func(c, o *ckks.Ciphertext) { e.ev.ScaleUp(c, 1<<21, o) }, func(c *ckks.Ciphertext) *ckks.Ciphertext { return e.ev.ScaleUpNew(c, 1<<21) },
			func(v val, level int) (func(u, i, j int) *big.Int, float64) {
				return e.times(v, bi(1<<21), bi(0)), 77 * (1 << 21)
			})
		if t == ring.Standard {
			e.unary("MultByi", 77, e.ev.MultByi, e.ev.MultByiNew, one(0, 1))
			e.unary("DivByi", 77, e.ev.DivByi, e.ev.DivByiNew, one(0, -1))
		}
	}
}

// scaled is x*2^20.
func scaled(x float64) *big.Int {
	if x >= 1<<40 || x <= -1<<40 {
		return new(big.Int).Lsh(bi(int64(x)), 20)
	}
	return bi(int64(x * (1 << 20)))
}

// round is the nearest integer of x*scale (multiples of 2^-20 and 2^-4), away from zero on ties.
func round(x, scale float64) *big.Int {
	sh := uint(0)
	for scale *= 16; scale >= 1<<60; scale /= 2 {
		sh++
	}
	p := new(big.Int).Mul(scaled(x), bi(int64(scale)))
	p.Lsh(p, sh)
	neg := p.Sign() < 0
	p.Abs(p)
	p.Add(p, bi(1<<23))
	p.Rsh(p, 24)
	if neg {
		p.Neg(p)
	}
	return p
}

var types = []ring.Type{ring.Standard, ring.ConjugateInvariant}

type constant struct {
	c    interface{}
	a, b float64
}

var constants = []constant{
	{int(3), 3, 0}, {int(-5), -5, 0}, {int64(-1 << 40), -1 << 40, 0}, {uint64(1<<42 + 12345), 1<<42 + 12345, 0}, {int(0), 0, 0}, {float64(7), 7, 0}, {float64(-2), -2, 0},
	{0.5, 0.5, 0}, {-2.75, -2.75, 0}, {complex(3, -2), 3, -2}, {complex(0, 1), 0, 1}, {complex(0, -4), 0, -4}, {complex(-0.5, 0.25), -0.5, 0.25}, {complex(0, 1.5), 0, 1.5}, {complex(-6, 0), -6, 0},
	{complex(2, 0.125), 2, 0.125}, {0.0009765625, 0.0009765625, 0},
}

// consts returns the integers a constant is scaled to, and the scale.
func (c constant) at(e *env, level int) (a, b *big.Int, s float64) {
	s = 1
	if c.a != math.Trunc(c.a) || c.b != math.Trunc(c.b) {
		s = float64(e.q[level])
	}
	return round(c.a, s), round(c.b, s), s
}

func ZZ_MultByConst() {
	{
		e := newEnv(types[zzvsym.Choose("ring type", 2)])
		k := zzvsym.Choose("part", 3)
		for _, c := range constants[k*6 : k*6+6-k/2] {
			c := c
			e.unary("MultByConst", 1024, func(x, o *ckks.Ciphertext) { e.ev.MultByConst(x, c.c, o) }, func(x *ckks.Ciphertext) *ckks.Ciphertext { return e.ev.MultByConstNew(x, c.c) },
				func(v val, level int) (func(u, i, j int) *big.Int, float64) {
					a, b, s := c.at(e, level)
					return e.times(v, a, b), 1024 * s
				})
		}
	}
}

func ZZ_AddConst() {
	{
		e := newEnv(types[zzvsym.Choose("ring type", 2)])
		k := zzvsym.Choose("part", 3)
		for n, c := range constants[k*6 : k*6+6-k/2] {
			c := c
			scale := []float64{1024, 1 << 20, 48.5}[n%3]
			e.unary("AddConst", scale, func(x, o *ckks.Ciphertext) { e.ev.AddConst(x, c.c, o) }, func(x *ckks.Ciphertext) *ckks.Ciphertext { return e.ev.AddConstNew(x, c.c) },
				func(v val, level int) (func(u, i, j int) *big.Int, float64) {
					return func(u, i, j int) *big.Int {
						x := v.at(u, i, j)
						if u == 0 && j == 0 {
							x.Add(x, round(c.a, scale))
						}
						if u == 0 && j == e.r.N/2 && !e.ci {
							x.Add(x, round(c.b, scale))
						}
						return x
					}, scale
				})
		}
	}
}

func ZZ_MultByConstAndAdd() {
	{
		e := newEnv(types[zzvsym.Choose("ring type", 2)])
		id := "MultByConstAndAdd"
		for n, c := range constants {
			for k := 0; k < 4; k++ {
				lo := 2 - k%3
				li := 2 - (k/2+n)%3
				level := lo
				if li < level {
					level = li
				}
				deg := 1 + n%2
				s0, s1 := 1024.0, 1024.0
				a, b, s := c.at(e, level)
				switch (n + k) % 5 {
				case 4:
					s1 = 2560
				case 1:
					s1 = 4096
				case 2:
					s0 = 2560
				case 3:
					s1 = s0 * s * 8
				}
				f := bi(1) // factor of the accumulator
				scale := s1
				switch {
				case s != 1 && s1 > s0*s || s == 1 && s1 > s0:
					a, b = round(c.a, s1/s0), round(c.b, s1/s0)
				case s1 < s0*s:
					f, scale = round(math.Floor(s0*s/s1), 1), s0*s
				}
				x, v := e.ct("a", deg, li, s0)
				o, w := e.ct("o", deg, lo, s1)
				kx := keep(x)
				e.ev.MultByConstAndAdd(x, c.c, o)
				kx.check(id)
				m := e.times(v, a, b)
				e.check(o, deg, level, scale, func(u, i, j int) *big.Int {
					r := new(big.Int).Mul(w.at(u, i, j), f)
					return r.Add(r, m(u, i, j))
				}, false, id)
			}
		}
	}
}

func ZZ_Gaussian() {
	type pair struct {
		a, b interface{}
		x, y *big.Int
	}
	huge := new(big.Int).Lsh(bi(5), 130)
	for _, t := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
		e := newEnv(t)
		for _, c := range []pair{
			{int64(3), int64(-7), bi(3), bi(-7)}, {uint64(1<<62 + 5), uint64(9), bi(1<<62 + 5), bi(9)}, {uint64(4), int64(0), bi(4), bi(0)}, {int64(0), int64(1), bi(0), bi(1)},
			{int64(1<<62 + 99), int64(-1<<62 - 7), bi(1<<62 + 99), bi(-1<<62 - 7)}, {huge, new(big.Int).Neg(huge), huge, new(big.Int).Neg(huge)}, {int64(-9), uint64(0), bi(-9), bi(0)},
		} {
			c := c
			e.unary("MultByGaussianInteger", 77, func(x, o *ckks.Ciphertext) { e.ev.MultByGaussianInteger(x, c.a, c.b, o) }, nil,
				func(v val, level int) (func(u, i, j int) *big.Int, float64) { return e.times(v, c.x, c.y), 77 })
			x, v := e.ct("a", 2, 2, 77)
			o, w := e.ct("o", 2, 1, 77)
			kx := keep(x)
			e.ev.MultByGaussianIntegerAndAdd(x, c.a, c.b, o)
			kx.check("MultByGaussianIntegerAndAdd")
			m := e.times(v, c.x, c.y)
			e.check(o, 2, 1, 77, func(u, i, j int) *big.Int {
				r := m(u, i, j)
				return r.Add(r, w.at(u, i, j))
			}, false, "MultByGaussianIntegerAndAdd")
		}
	}
}

func ZZ_DropLevel() {
	e := newEnv(ring.Standard)
	for deg := 1; deg <= 2; deg++ {
		for n := 0; n <= 2; n++ {
			c, v := e.ct("a", deg, 2, 77)
			k := keep(c)
			o := e.ev.DropLevelNew(c, n)
			k.check("DropLevelNew")
			e.check(o, deg, 2-n, 77, e.times(v, bi(1), bi(0)), false, "DropLevelNew")
			e.ev.DropLevel(c, n)
			e.check(c, deg, 2-n, 77, e.times(v, bi(1), bi(0)), false, "DropLevel")
		}
	}
}

// signed is any integer of absolute value at most m, of a chosen sign.
func signed(name string, m int64) int64 {
	if zzvsym.Choose("sign", 2) == 0 {
		return zzvsym.I64(name, 0, m)
	}
	return zzvsym.I64(name, -m, -1)
}

// ZZ_AnyInteger: integer constants with arbitrary values.
func ZZ_AnyInteger() {
	e := newEnv(ring.Standard)
	e.words = true
	k := signed("k", 1<<50)
	n := zzvsym.U64("n", 0, 1<<50)
	K, N := bi(k), zz.U(n)
	x, v := e.ct("a", 1, 1, 64)
	o, w := e.ct("o", 1, 1, 64)
	e.ev.MultByConst(x, k, o)
	e.check(o, 1, 1, 64, e.times(v, K, bi(0)), false, "MultByConst")
	e.ev.MultByConst(x, n, o)
	e.check(o, 1, 1, 64, e.times(v, N, bi(0)), false, "MultByConst")
	o, w = e.ct("o", 1, 1, 64)
	e.ev.MultByConstAndAdd(x, n, o)
	m := e.times(v, N, bi(0))
	e.check(o, 1, 1, 64, func(u, i, j int) *big.Int {
		r := m(u, i, j)
		return r.Add(r, w.at(u, i, j))
	}, false, "MultByConstAndAdd")
}

// ZZ_AnyGaussian: Gaussian integers with arbitrary parts.
func ZZ_AnyGaussian() {
	e := newEnv(types[zzvsym.Choose("ring type", 2)])
	k := signed("k", 1<<63-1)
	n := zzvsym.U64("n", 0, 1<<64-1)
	x, v := e.ct("a", 1, 1, 64)
	o, _ := e.ct("o", 1, 1, 64)
	e.ev.MultByGaussianInteger(x, n, k, o)
	e.check(o, 1, 1, 64, e.times(v, zz.U(n), bi(k)), false, "MultByGaussianInteger")
}

// ZZ_AnyFraction: added constants with arbitrary values.
func ZZ_AnyFraction() {
	e := newEnv(ring.Standard)
	e.words = true
	var f float64
	if zzvsym.Choose("sign", 2) == 0 {
		f = zzvsym.F64("f", 1, 1<<30, 1<<10)
	} else {
		f = zzvsym.F64("f", -1<<30, -1, 1<<10)
	}
	x, v := e.ct("a", 1, 1, 1<<20)
	o, _ := e.ct("o", 1, 1, 64)
	F := bi(int64(f * (1 << 20)))
	e.ev.AddConst(x, f, o)
	e.check(o, 1, 1, 1<<20, func(u, i, j int) *big.Int {
		r := v.at(u, i, j)
		if u == 0 {
			r.Add(r, F)
		}
		return r
	}, false, "AddConst")
}
