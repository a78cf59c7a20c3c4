// Package c19: products, relinearisation, key switching and rotations of the scheme evaluator.
// Bounds: ring degree 16, both ring types; three moduli of 60, 36 and 45 bits, one and two special primes of 61 and 60 bits; every stored word of every component and plaintext; fixed keys; every level of operands and receiver, degrees 0 and 1 (2 to relinearise), every aliasing of operands and receiver, chosen rotations of both signs. Key-switched components are compared with the key switcher (checked by C16) up to one per coefficient.
package c19

import (
	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math"
	"math/big"
)

type env struct {
	p   ckks.Parameters
	ev  ckks.Evaluator
	ref *rlwe.KeySwitcher
	r   *ring.Ring
	q   []uint64
	ci  bool

	rlk *rlwe.SwitchingKey
	rtk map[int]*rlwe.SwitchingKey
	con *rlwe.SwitchingKey
}

var seed = uint64(0x9e3779b97f4a7c15)

func next(m uint64) uint64 {
	seed = seed*6364136223846793005 + 1442695040888963407
	return (seed >> 2) % m
}

// key returns a fixed gadget key.
func key(p rlwe.Parameters) *rlwe.SwitchingKey {
	swk := rlwe.NewSwitchingKey(p, p.MaxLevel(), p.PCount()-1)
	for i := range swk.Value {
		for b := 0; b < 2; b++ {
			for k, row := range swk.Value[i][b].Q.Coeffs {
				for j := range row {
					row[j] = next(p.RingQ().Modulus[k])
				}
			}
			for k, row := range swk.Value[i][b].P.Coeffs {
				for j := range row {
					row[j] = next(p.RingP().Modulus[k])
				}
			}
		}
	}
	return swk
}

var rotations = []int{1, 3, -1, 5}

func newEnv(t ring.Type, special []uint64) *env {
	q := []uint64{zz.Q60, zz.Q36, zz.Q45}
	rp, err := rlwe.NewParameters(4, q, special, 8, 3.2, t)
	if err != nil {
		panic(err)
	}
	p, err := ckks.NewParameters(rp, 3, 1<<20)
	if err != nil {
		panic(err)
	}
	e := &env{p: p, r: p.RingQ(), q: q, ci: t == ring.ConjugateInvariant, rtk: map[int]*rlwe.SwitchingKey{}}
	e.rlk = key(rp)
	set := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}
	for _, k := range rotations {
		e.rtk[k] = key(rp)
		set.Keys[e.galois(k)] = e.rtk[k]
	}
	if !e.ci {
		e.con = key(rp)
		set.Keys[2*uint64(e.r.N)-1] = e.con
	}
	e.ev = ckks.NewEvaluator(p, rlwe.EvaluationKey{Rlk: &rlwe.RelinearizationKey{Keys: []*rlwe.SwitchingKey{e.rlk}}, Rtks: set})
	e.ref = rlwe.NewKeySwitcher(rp)
	return e
}

// galois is 5^k modulo the order of the roots of unity.
func (e *env) galois(k int) uint64 {
	n := 2 * uint64(e.r.N)
	if e.ci {
		n *= 2
	}
	g := uint64(1)
	for i := 0; i < (k%int(n)+int(n))%int(n); i++ {
		g = g * 5 % n
	}
	return g
}

// words fills a component with arbitrary words below the moduli.
func (e *env) words(p *ring.Poly, name string) {
	x := zz.PolyMax(name, e.r, len(p.Coeffs)-1, 1)
	for i := range p.Coeffs {
		copy(p.Coeffs[i], x.Coeffs[i])
	}
	p.IsNTT = true
}

func (e *env) ct(name string, deg, level int, scale float64) *ckks.Ciphertext {
	c := ckks.NewCiphertext(e.p, deg, level, scale)
	for _, p := range c.Value {
		e.words(p, name)
	}
	return c
}

func (e *env) pt(name string, level int, scale float64) *ckks.Plaintext {
	p := ckks.NewPlaintext(e.p, level, scale)
	e.words(p.Value, name)
	return p
}

// val are the stored rows of the components of an operand.
type val [][][]uint64

func rows(o ckks.Operand) val {
	var v val
	for _, p := range o.El().Value {
		v = append(v, zz.Rows(p))
	}
	return v
}

type kept struct {
	o     ckks.Operand
	v     val
	scale float64
}

func keep(o ckks.Operand) kept { return kept{o, rows(o), o.ScalingFactor()} }

func (k kept) check(id string) {
	zzvsym.Assert(k.o.Degree() == len(k.v)-1 && k.o.ScalingFactor() == k.scale, id+": operand changed")
	for u, p := range k.o.El().Value {
		zzvsym.Assert(len(p.Coeffs) == len(k.v[u]), id+": operand changed")
		zz.Same(p, k.v[u], id+": operand changed")
	}
}

func (v val) at(u, i, j int) *big.Int {
	if u >= len(v) {
		return new(big.Int)
	}
	return zz.U(v[u][i][j])
}

// prod are the components of the product of two values, in the transform domain.
func prod(a, b val, u, i, j int) *big.Int {
	s := new(big.Int)
	for x := 0; x <= u; x++ {
		s.Add(s, new(big.Int).Mul(a.at(x, i, j), b.at(u-x, i, j)))
	}
	return s
}

// switched runs the reference key switcher on a component (transform domain, with the given values), in one domain or the other:
// they agree up to one, and the operation is compared with the one that it uses now.
func (e *env) switched(level int, x func(i, j int) *big.Int, swk *rlwe.SwitchingKey, ntt bool) [2]*ring.Poly {
	c := e.r.NewPoly()
	for i := 0; i <= level; i++ {
		for j := range c.Coeffs[i] {
			c.Coeffs[i][j] = new(big.Int).Mod(x(i, j), zz.U(e.q[i])).Uint64()
		}
	}
	o := [2]*ring.Poly{e.r.NewPoly(), e.r.NewPoly()}
	if ntt {
		c.IsNTT = true
		e.ref.SwitchKeysInPlace(level, c, swk, o[0], o[1])
		e.r.InvNTTLvl(level, o[0], o[0])
		e.r.InvNTTLvl(level, o[1], o[1])
		return o
	}
	e.r.InvNTTLvl(level, c, c)
	e.ref.SwitchKeysInPlace(level, c, swk, o[0], o[1])
	return o
}

func (e *env) shape(c *ckks.Ciphertext, deg, level int, scale float64, id string) {
	zzvsym.Assert(c.Degree() == deg, id+": degree")
	zzvsym.Assert(c.Level() == level, id+": level")
	zzvsym.Assert(math.Abs(c.Scale-scale) <= scale/(1<<45), id+": scale")
	for _, p := range c.Value {
		zzvsym.Assert(len(p.Coeffs) == level+1, id+": level")
		zzvsym.Assert(p.IsNTT, id+": domain")
		for i := range p.Coeffs {
			for j := range p.Coeffs[i] {
				zzvsym.Assert(p.Coeffs[i][j] < e.q[i], id+": range")
			}
		}
	}
	zzvsym.ObserveU(c.Value[0].Coeffs[level][5])
}

// exact compares a component in the transform domain.
func (e *env) exact(p *ring.Poly, want func(i, j int) *big.Int, id string) {
	for i := range p.Coeffs {
		for j, x := range p.Coeffs[i] {
			zzvsym.Assert(zzvsym.Cong(zz.U(x), want(i, j), zz.U(e.q[i])), id+": value")
		}
	}
}

// near compares a component, less a value in the transform domain, with a reference in the coefficient domain up to one.
func (e *env) near(p *ring.Poly, base func(i, j int) *big.Int, ref *ring.Poly, id string) {
	level := len(p.Coeffs) - 1
	x := e.r.NewPolyLvl(level)
	for i := range x.Coeffs {
		for j := range x.Coeffs[i] {
			d := new(big.Int).Sub(zz.U(p.Coeffs[i][j]), base(i, j))
			x.Coeffs[i][j] = d.Mod(d, zz.U(e.q[i])).Uint64()
		}
	}
	e.r.InvNTTLvl(level, x, x)
	for j := 0; j < e.r.N; j++ {
		var d []uint64
		for i := 0; i <= level; i++ {
			y := new(big.Int).Sub(zz.U(x.Coeffs[i][j]), zz.U(ref.Coeffs[i][j]))
			d = append(d, y.Mod(y, zz.U(e.q[i])).Uint64())
		}
		zz.Near(d, new(big.Int), zz.One, e.q[:level+1], false, id)
	}
}

func zero(i, j int) *big.Int { return new(big.Int) }

// Receivers.
const (
	fresh = iota // used before, of a chosen degree and level
	first
	second
	alloc
)

type shape struct {
	d0, d1, l0, l1 int
	recv, do, lo   int
	square         bool
}

// mul checks the products without and with relinearisation.
func (e *env) mul(s shape, relin bool) {
	id := "Mul"
	if relin {
		id = "MulRelin"
	}
	var a, b ckks.Operand
	var ca, cb, out *ckks.Ciphertext
	if s.d0 == 0 {
		a = e.pt("a", s.l0, 3)
	} else {
		ca = e.ct("a", 1, s.l0, 3)
		a = ca
	}
	if s.square {
		b, cb = a, ca
	} else if s.d1 == 0 {
		b = e.pt("b", s.l1, 5)
	} else {
		cb = e.ct("b", 1, s.l1, 5)
		b = cb
	}
	va, vb := rows(a), rows(b)
	ka, kb := keep(a), keep(b)
	level := s.l0
	if s.l1 < level {
		level = s.l1
	}
	scale := a.ScalingFactor() * b.ScalingFactor()
	switch s.recv {
	case fresh:
		out = e.ct("o", s.do, s.lo, 7)
		if s.lo < level {
			level = s.lo
		}
	case first:
		out = ca
	case second:
		out = cb
	}
	switch {
	case s.recv == alloc && relin:
		id += "New"
		out = e.ev.MulRelinNew(a, b)
	case s.recv == alloc:
		id += "New"
		out = e.ev.MulNew(a, b)
	case relin:
		e.ev.MulRelin(a, b, out)
	default:
		e.ev.Mul(a, b, out)
	}
	if s.recv != first && !(s.square && s.recv == second) {
		ka.check(id)
	}
	if s.recv != second && !(s.square && s.recv == first) {
		kb.check(id)
	}
	if relin && s.d0+s.d1 == 2 {
		e.shape(out, 1, level, scale, id)
		k := e.switched(level, func(i, j int) *big.Int { return prod(va, vb, 2, i, j) }, e.rlk, false)
		for u := 0; u < 2; u++ {
			u := u
			e.near(out.Value[u], func(i, j int) *big.Int { return prod(va, vb, u, i, j) }, k[u], id)
		}
		return
	}
	deg := s.d0 + s.d1
	e.shape(out, deg, level, scale, id)
	for u := 0; u <= deg; u++ {
		u := u
		e.exact(out.Value[u], func(i, j int) *big.Int { return prod(va, vb, u, i, j) }, id)
	}
}

func shapes() []shape {
	return []shape{
		{1, 1, 2, 2, fresh, 2, 2, false}, {1, 1, 1, 2, fresh, 1, 2, false}, {1, 1, 2, 1, fresh, 2, 0, false}, {1, 1, 2, 2, first, 0, 0, false}, {1, 1, 1, 2, second, 0, 0, false}, {1, 1, 2, 2, alloc, 0, 0, false}, {1, 1, 0, 2, alloc, 0, 0, false},
		{1, 1, 2, 2, fresh, 2, 2, true}, {1, 1, 1, 1, fresh, 1, 2, true}, {1, 1, 2, 2, first, 0, 0, true}, {1, 1, 1, 1, alloc, 0, 0, true},
		{1, 0, 2, 2, fresh, 1, 2, false}, {1, 0, 2, 1, fresh, 1, 2, false}, {0, 1, 2, 2, fresh, 1, 1, false}, {1, 0, 2, 1, first, 0, 0, false}, {0, 1, 1, 2, second, 0, 0, false}, {0, 1, 2, 2, alloc, 0, 0, false}, {1, 0, 1, 2, alloc, 0, 0, false},
	}
}

var types = []ring.Type{ring.Standard, ring.ConjugateInvariant}
var specials = [][]uint64{{zz.Q61}, {zz.Q61, zz.P60}}

func ZZ_Mul() {
	for _, t := range types {
		e := newEnv(t, specials[0])
		for _, s := range shapes() {
			e.mul(s, false)
		}
	}
}

// ZZ_MulPlain: relinearising products with plaintexts needs no key.
func ZZ_MulPlain() {
	for _, t := range types {
		e := newEnv(t, specials[0])
		for _, s := range shapes() {
			if s.d0+s.d1 == 1 {
				e.mul(s, true)
				if s.recv == fresh {
					s.do = 2
					e.mul(s, true)
				}
			}
		}
	}
}

func ZZ_MulRelin() {
	e := newEnv(ring.Standard, specials[0])
	s := shapes()
	e.mul(s[zzvsym.Choose("shape", 11)], true)
}

func ZZ_MulRelinOther() {
	e := newEnv(types[zzvsym.Choose("ring type", 2)], specials[1])
	s := shapes()
	e.mul(s[4*zzvsym.Choose("shape", 3)], true)
}

// accumulate checks MulAndAdd and MulRelinAndAdd.
func (e *env) accumulate(s shape, relin bool, ratio float64) {
	id := "MulAndAdd"
	f := e.ev.MulAndAdd
	if relin {
		id, f = "MulRelinAndAdd", e.ev.MulRelinAndAdd
	}
	var a, b ckks.Operand
	if s.d0 == 0 {
		a = e.pt("a", s.l0, 64)
	} else {
		a = e.ct("a", 1, s.l0, 64)
	}
	if s.square {
		b = a
	} else if s.d1 == 0 {
		b = e.pt("b", s.l1, 64)
	} else {
		b = e.ct("b", 1, s.l1, 64)
	}
	out := e.ct("o", s.do, s.lo, 4096/ratio)
	va, vb, vo := rows(a), rows(b), rows(out)
	ka, kb := keep(a), keep(b)
	level := s.l0
	if s.l1 < level {
		level = s.l1
	}
	if s.lo < level {
		level = s.lo
	}
	f(a, b, out)
	ka.check(id)
	kb.check(id)
	deg := s.d0 + s.d1
	switched := relin && deg == 2
	if switched {
		deg = 1
	}
	if s.do > deg {
		deg = s.do
	}
	e.shape(out, deg, level, 4096, id)
	factor := new(big.Int).SetInt64(int64(math.Floor(ratio + 0.5)))
	base := func(u int) func(i, j int) *big.Int {
		return func(i, j int) *big.Int {
			x := new(big.Int).Mul(vo.at(u, i, j), factor)
			if u == 2 && relin {
				return x
			}
			return x.Add(x, prod(va, vb, u, i, j))
		}
	}
	var k [2]*ring.Poly
	if switched {
		k = e.switched(level, func(i, j int) *big.Int { return prod(va, vb, 2, i, j) }, e.rlk, true)
	}
	for u := 0; u <= deg; u++ {
		if switched && u < 2 {
			e.near(out.Value[u], base(u), k[u], id)
		} else {
			e.exact(out.Value[u], base(u), id)
		}
	}
}

func accumulators() []shape {
	return []shape{
		{1, 1, 2, 2, fresh, 2, 2, false}, {1, 1, 1, 2, fresh, 1, 2, false}, {1, 1, 2, 1, fresh, 2, 0, false}, {1, 1, 2, 2, fresh, 2, 2, true}, {1, 1, 1, 1, fresh, 1, 2, true},
		{1, 0, 2, 2, fresh, 1, 2, false}, {0, 1, 2, 1, fresh, 1, 2, false}, {1, 0, 1, 2, fresh, 2, 1, false}, {0, 1, 2, 2, fresh, 2, 1, false},
	}
}

func ZZ_MulAndAdd() {
	e := newEnv(types[zzvsym.Choose("ring type", 2)], specials[0])
	for k, s := range accumulators() {
		for _, r := range []float64{1, 8, 2.5, 1024} {
			e.accumulate(s, false, r)
			if s.d0+s.d1 == 1 && (k+int(r))%2 == 0 {
				e.accumulate(s, true, r)
			}
		}
	}
}

func ZZ_MulRelinAndAdd() {
	e := newEnv(ring.Standard, specials[0])
	k := zzvsym.Choose("shape", 5)
	e.accumulate(accumulators()[k], true, []float64{1, 8, 2.5, 1, 1024}[k])
}

// linear checks an operation that switches component in and permutes by g.
func (e *env) linear(id string, in, lo, li, do int, swk *rlwe.SwitchingKey, g uint64, f func(c, o *ckks.Ciphertext), n func(c *ckks.Ciphertext) *ckks.Ciphertext, recv int) {
	c := e.ct("c", in, li, 9)
	v := rows(c)
	k := keep(c)
	o := c
	level := li
	switch recv {
	case fresh:
		o = e.ct("o", do, lo, 7)
		if lo < level {
			level = lo
		}
		f(c, o)
	case first:
		f(c, o)
	case alloc:
		id += "New"
		o = n(c)
	}
	if recv != first {
		k.check(id)
	}
	e.shape(o, 1, level, 9, id)
	var x [2]*ring.Poly
	if swk != nil {
		x = e.switched(level, func(i, j int) *big.Int { return v.at(in, i, j) }, swk, g == 1)
	} else {
		x = [2]*ring.Poly{e.r.NewPoly(), e.r.NewPoly()}
	}
	for u := 0; u < 2; u++ {
		base := e.r.NewPolyLvl(level)
		for i := range base.Coeffs {
			if u < in || swk == nil {
				copy(base.Coeffs[i], v[u][i])
			}
		}
		y := x[u]
		if g != 1 {
			pb := e.r.NewPolyLvl(level)
			e.r.PermuteNTTLvl(level, base, g, pb)
			base = pb
			py := e.r.NewPoly()
			e.r.NTTLvl(level, y, y)
			e.r.PermuteNTTLvl(level, y, g, py)
			e.r.InvNTTLvl(level, py, py)
			y = py
		}
		e.near(o.Value[u], func(i, j int) *big.Int { return zz.U(base.Coeffs[i][j]) }, y, id)
	}
}

// receivers calls f with level and receiver combinations.
func receivers(n int, f func(lo, li, do, recv int)) {
	switch n {
	case 0:
		f(2, 2, 1, fresh)
	case 1:
		f(2, 2, 1, first)
	case 2:
		f(1, 2, 1, fresh)
	case 3:
		f(2, 1, 1, fresh)
	case 4:
		f(0, 1, 1, alloc)
		f(0, 0, 1, first)
	}
}

func (e *env) relinearize(n int) {
	receivers(n, func(lo, li, do, recv int) {
		e.linear("Relinearize", 2, lo, li, 1+n%2, e.rlk, 1, e.ev.Relinearize, e.ev.RelinearizeNew, recv)
	})
}

func (e *env) switchKeys(n int) {
	swk := key(e.p.Parameters)
	receivers(n, func(lo, li, do, recv int) {
		e.linear("SwitchKeys", 1, lo, li, 1, swk, 1, func(c, o *ckks.Ciphertext) { e.ev.SwitchKeys(c, swk, o) }, func(c *ckks.Ciphertext) *ckks.Ciphertext { return e.ev.SwitchKeysNew(c, swk) }, recv)
	})
}

func (e *env) rotate(n, k int) {
	receivers(n, func(lo, li, do, recv int) {
		e.linear("Rotate by "+zz.Itoa(k), 1, lo, li, 1, e.rtk[k], e.galois(k), func(c, o *ckks.Ciphertext) { e.ev.Rotate(c, k, o) }, func(c *ckks.Ciphertext) *ckks.Ciphertext { return e.ev.RotateNew(c, k) }, recv)
	})
}

func (e *env) conjugate(n int) {
	receivers(n, func(lo, li, do, recv int) {
		e.linear("Conjugate", 1, lo, li, 1, e.con, 2*uint64(e.r.N)-1, e.ev.Conjugate, e.ev.ConjugateNew, recv)
	})
}

func ZZ_Relinearize() {
	newEnv(types[zzvsym.Choose("ring type", 2)], specials[0]).relinearize(zzvsym.Choose("receiver", 5))
}

func ZZ_SwitchKeys() {
	newEnv(types[zzvsym.Choose("ring type", 2)], specials[0]).switchKeys(zzvsym.Choose("receiver", 5))
}

func ZZ_Rotate() {
	e := newEnv(types[zzvsym.Choose("ring type", 2)], specials[0])
	n := zzvsym.Choose("receiver", 5)
	e.rotate(n, 0)
	e.rotate(n, rotations[n%4])
}

func ZZ_Conjugate() {
	newEnv(ring.Standard, specials[0]).conjugate(zzvsym.Choose("receiver", 5))
}

func ZZ_TwoSpecial() {
	e := newEnv(types[zzvsym.Choose("ring type", 2)], specials[1])
	switch zzvsym.Choose("operation", 3) {
	case 0:
		e.relinearize(1)
	case 1:
		e.switchKeys(3)
	case 2:
		e.rotate(1, -1)
	}
}

func ZZT_All() {
	e := newEnv(types[zzvsym.Choose("ring type", 2)], specials[zzvsym.Choose("special", 2)])
	n := zzvsym.Choose("receiver", 5)
	e.relinearize(n)
	e.switchKeys(n)
	e.rotate(n, rotations[zzvsym.Choose("rotation", 4)])
}

func ZZT_MulRelin() {
	e := newEnv(types[zzvsym.Choose("ring type", 2)], specials[zzvsym.Choose("special", 2)])
	s := shapes()
	e.mul(s[zzvsym.Choose("shape", 11)], true)
	e.accumulate(accumulators()[zzvsym.Choose("accumulator", 5)], true, 8)
}
