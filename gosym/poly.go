package main

// Exact integer polynomials over atoms. Every machine integer the executor
// handles is one of these plus an interval; wrap-around, high words, shifts and
// reductions are expressed by floor-division atoms, so no machine semantics is
// lost.

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

var (
	b0    = big.NewInt(0)
	b1    = big.NewInt(1)
	bm1   = big.NewInt(-1)
	b2    = big.NewInt(2)
	pow2c = func() (t [300]*big.Int) {
		for i := range t {
			t[i] = new(big.Int).Lsh(big.NewInt(1), uint(i))
		}
		return
	}()
)

func pow2(n int) *big.Int {
	if n < len(pow2c) {
		return pow2c[n]
	}
	return new(big.Int).Lsh(b1, uint(n))
}

func bi(x int64) *big.Int   { return big.NewInt(x) }
func bu(x uint64) *big.Int  { return new(big.Int).SetUint64(x) }
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func neg(a *big.Int) *big.Int    { return new(big.Int).Neg(a) }
func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

// floorDiv, floorMod: floor semantics for m>0
func floorDiv(a, m *big.Int) *big.Int {
	q, r := new(big.Int), new(big.Int)
	q.DivMod(a, m, r) // Euclidean = floor for m>0
	return q
}
func floorMod(a, m *big.Int) *big.Int { return new(big.Int).Mod(a, m) }

type AtomKind uint8

const (
	AVar AtomKind = iota
	ADiv
	AInd
	AFloor
	ADef // alias of a polynomial whose interval is tighter than its terms show
)

type Atom struct {
	id     int
	kind   AtomKind
	name   string
	lo, hi *big.Int
	P      *Poly
	m      *big.Int
	cond   *Cond
	fl     *SFloat
	size   int
	split  bool
}

type Mono struct {
	id     int
	atoms  []*Atom
	lo, hi *big.Int
	bv     int // bound version
}

type Term struct {
	m *Mono
	c *big.Int
}

type Poly struct {
	t   []Term // sorted by mono id
	key string
}

var (
	atoms     []*Atom
	monoTab   = map[string]*Mono{}
	monos     []*Mono
	oneMono   *Mono
	divTab    = map[string]*Atom{}
	indTab    = map[string]*Atom{}
	defTab    = map[string]*Atom{}
	boundsVer int
)

func resetTerms() {
	atoms = nil
	monoTab = map[string]*Mono{}
	monos = nil
	divTab = map[string]*Atom{}
	indTab = map[string]*Atom{}
	floorTab = map[string]*Atom{}
	defTab = map[string]*Atom{}
	canonTab, classTab, plainTab = map[string]*SInt{}, map[string]*SInt{}, map[string]*SInt{}
	expTabs = map[string]map[*Atom]*Poly{}
	fullTab = map[*Atom]*Poly{}
	oneMono = internMono(nil)
}

func newAtom(k AtomKind, name string, lo, hi *big.Int) *Atom {
	a := &Atom{id: len(atoms), kind: k, name: name, lo: lo, hi: hi}
	atoms = append(atoms, a)
	return a
}

func internMono(as []*Atom) *Mono {
	var sb strings.Builder
	for _, a := range as {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte('.')
	}
	k := sb.String()
	if m, ok := monoTab[k]; ok {
		return m
	}
	m := &Mono{id: len(monos), atoms: append([]*Atom(nil), as...), bv: -1}
	monos = append(monos, m)
	monoTab[k] = m
	return m
}

func mulMono(a, b *Mono) *Mono {
	if a == oneMono {
		return b
	}
	if b == oneMono {
		return a
	}
	as := make([]*Atom, 0, len(a.atoms)+len(b.atoms))
	as = append(as, a.atoms...)
	as = append(as, b.atoms...)
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	out := as[:0]
	for _, x := range as {
		if x.kind == AInd && len(out) > 0 && out[len(out)-1] == x {
			continue
		}
		out = append(out, x)
	}
	return internMono(out)
}

func (m *Mono) bounds() (*big.Int, *big.Int) {
	if m.bv == boundsVer && m.lo != nil {
		return m.lo, m.hi
	}
	lo, hi := b1, b1
	for i := 0; i < len(m.atoms); {
		a := m.atoms[i]
		n := 1
		for i+n < len(m.atoms) && m.atoms[i+n] == a {
			n++
		}
		i += n
		l, h := a.lo, a.hi
		if n%2 == 0 && l.Sign() < 0 {
			// even power
			x := mul(l, l)
			y := mul(h, h)
			mx := bmax(x, y)
			mn := b0
			if h.Sign() < 0 {
				mn = bmin(x, y)
			}
			l, h = mn, mx
			n /= 2
		}
		for k := 0; k < n; k++ {
			lo, hi = imul(lo, hi, l, h)
		}
	}
	m.lo, m.hi, m.bv = lo, hi, boundsVer
	return lo, hi
}

func imul(a, b, c, d *big.Int) (*big.Int, *big.Int) {
	if a.Sign() >= 0 && c.Sign() >= 0 {
		return mul(a, c), mul(b, d)
	}
	p, q, r, s := mul(a, c), mul(a, d), mul(b, c), mul(b, d)
	return bmin(bmin(p, q), bmin(r, s)), bmax(bmax(p, q), bmax(r, s))
}

var zeroPoly = &Poly{}

func constPoly(c *big.Int) *Poly {
	if c.Sign() == 0 {
		return zeroPoly
	}
	return &Poly{t: []Term{{oneMono, c}}}
}
func atomPoly(a *Atom) *Poly {
	return &Poly{t: []Term{{internMono([]*Atom{a}), b1}}}
}
func (p *Poly) isConst() (*big.Int, bool) {
	if len(p.t) == 0 {
		return b0, true
	}
	if len(p.t) == 1 && p.t[0].m == oneMono {
		return p.t[0].c, true
	}
	return nil, false
}
func (p *Poly) constTerm() *big.Int {
	if len(p.t) > 0 && p.t[0].m == oneMono {
		return p.t[0].c
	}
	return b0
}
func (p *Poly) dropConst() *Poly {
	if len(p.t) > 0 && p.t[0].m == oneMono {
		return &Poly{t: p.t[1:]}
	}
	return p
}

func padd(a, b *Poly) *Poly { return plin(a, b1, b) }
func psub(a, b *Poly) *Poly { return plin(a, bm1, b) }

// plin = a + k*b
func plin(a *Poly, k *big.Int, b *Poly) *Poly {
	if len(b.t) == 0 || k.Sign() == 0 {
		return a
	}
	kone := k.IsInt64() && k.Int64() == 1
	if len(a.t) == 0 && kone {
		return b
	}
	out := make([]Term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].m.id < b.t[j].m.id):
			out = append(out, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].m.id < a.t[i].m.id:
			c := b.t[j].c
			if !kone {
				c = mul(c, k)
			}
			out = append(out, Term{b.t[j].m, c})
			j++
		default:
			var c *big.Int
			if kone {
				c = add(a.t[i].c, b.t[j].c)
			} else {
				c = mul(b.t[j].c, k)
				c.Add(c, a.t[i].c)
			}
			if c.Sign() != 0 {
				out = append(out, Term{a.t[i].m, c})
			}
			i++
			j++
		}
	}
	return &Poly{t: out}
}
func pscale(a *Poly, k *big.Int) *Poly {
	if k.Sign() == 0 {
		return zeroPoly
	}
	if k.IsInt64() && k.Int64() == 1 {
		return a
	}
	out := make([]Term, len(a.t))
	for i, t := range a.t {
		out[i] = Term{t.m, mul(t.c, k)}
	}
	return &Poly{t: out}
}
func paddc(a *Poly, c *big.Int) *Poly { return padd(a, constPoly(c)) }

var maxPolyTerms = 400000

func pmul(a, b *Poly) *Poly {
	if c, ok := a.isConst(); ok {
		return pscale(b, c)
	}
	if c, ok := b.isConst(); ok {
		return pscale(a, c)
	}
	if len(a.t)*len(b.t) > maxPolyTerms {
		giveUp("polynomial product too large")
	}
	acc := make(map[*Mono]*big.Int, len(a.t)*len(b.t))
	for _, x := range a.t {
		for _, y := range b.t {
			m := mulMono(x.m, y.m)
			c := mul(x.c, y.c)
			if o, ok := acc[m]; ok {
				o.Add(o, c)
			} else {
				acc[m] = c
			}
		}
	}
	return polyFromMap(acc)
}
func polyFromMap(acc map[*Mono]*big.Int) *Poly {
	out := make([]Term, 0, len(acc))
	for m, c := range acc {
		if c.Sign() != 0 {
			out = append(out, Term{m, c})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].m.id < out[j].m.id })
	return &Poly{t: out}
}

// pmodc reduces coefficients modulo m into [0,m)
func pmodc(a *Poly, m *big.Int) *Poly {
	out := make([]Term, 0, len(a.t))
	for _, t := range a.t {
		c := t.c
		if c.Sign() < 0 || c.CmpAbs(m) >= 0 {
			c = floorMod(c, m)
		}
		if c.Sign() != 0 {
			out = append(out, Term{t.m, c})
		}
	}
	return &Poly{t: out}
}

// pexactdiv divides all coefficients by m (caller guarantees divisibility)
func pexactdiv(a *Poly, m *big.Int) *Poly {
	out := make([]Term, len(a.t))
	for i, t := range a.t {
		out[i] = Term{t.m, new(big.Int).Quo(t.c, m)}
	}
	return &Poly{t: out}
}

func (p *Poly) Key() string {
	if p.key != "" || len(p.t) == 0 {
		return p.key
	}
	buf := make([]byte, 0, len(p.t)*24)
	for _, t := range p.t {
		buf = strconv.AppendInt(buf, int64(t.m.id), 36)
		buf = append(buf, ':')
		buf = t.c.Append(buf, 62)
		buf = append(buf, ',')
	}
	p.key = string(buf)
	return p.key
}

func peq(a, b *Poly) bool {
	if a == b {
		return true
	}
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i].m != b.t[i].m || a.t[i].c.Cmp(b.t[i].c) != 0 {
			return false
		}
	}
	return true
}

// isDiffConst returns a-b when it is a constant.
func diffConst(a, b *Poly) (*big.Int, bool) {
	x, y := a.dropConst(), b.dropConst()
	if len(x.t) != len(y.t) {
		return nil, false
	}
	if !peq(x, y) {
		return nil, false
	}
	return sub(a.constTerm(), b.constTerm()), true
}

func (p *Poly) bounds() (*big.Int, *big.Int) {
	lo, hi := new(big.Int), new(big.Int)
	for _, t := range p.t {
		l, h := t.m.bounds()
		if t.c.Sign() >= 0 {
			lo.Add(lo, mul(t.c, l))
			hi.Add(hi, mul(t.c, h))
		} else {
			lo.Add(lo, mul(t.c, h))
			hi.Add(hi, mul(t.c, l))
		}
	}
	return lo, hi
}

func newVar(name string, lo, hi *big.Int) *Atom {
	return newAtom(AVar, name, lo, hi)
}

// divPoly returns floor(P/m) exactly. lo,hi: a sound interval of P valid
// unconditionally when global is true (else only under the current path facts).
func divPoly(P *Poly, m *big.Int, lo, hi *big.Int, global bool) *Poly {
	if m.IsInt64() && m.Int64() == 1 {
		return P
	}
	P0 := pmodc(P, m)
	K := pexactdiv(psub(P, P0), m)
	if len(P0.t) == 0 {
		return K
	}
	if c, ok := P0.isConst(); ok {
		return paddc(K, floorDiv(c, m))
	}
	// constant by interval?
	var l0, h0 *big.Int
	kc, kconst := K.isConst()
	if kconst && lo != nil {
		off := mul(kc, m)
		l0, h0 = sub(lo, off), sub(hi, off)
	}
	if l0 != nil {
		a, b := floorDiv(l0, m), floorDiv(h0, m)
		if a.Cmp(b) == 0 {
			return paddc(K, a)
		}
	}
	if len(P0.t) <= 8 {
		a, b := P0.bounds()
		a, b = floorDiv(a, m), floorDiv(b, m)
		if a.Cmp(b) == 0 {
			return paddc(K, a)
		}
	}
	// common factor
	g := new(big.Int).Set(m)
	for _, t := range P0.t {
		if t.m == oneMono {
			continue
		}
		if g.BitLen() == 1 {
			break
		}
		g.GCD(nil, nil, g, t.c)
	}
	if g.BitLen() > 1 {
		out := make([]Term, 0, len(P0.t))
		for _, t := range P0.t {
			c := floorDiv(t.c, g)
			if c.Sign() != 0 {
				out = append(out, Term{t.m, c})
			}
		}
		var gl, gh *big.Int
		if l0 != nil {
			gl, gh = floorDiv(l0, g), floorDiv(h0, g)
		}
		return padd(K, divPoly(&Poly{t: out}, new(big.Int).Quo(m, g), gl, gh, global))
	}
	// nested division
	if len(P0.t) == 1 && len(P0.t[0].m.atoms) == 1 && P0.t[0].c.Cmp(b1) == 0 {
		if a := P0.t[0].m.atoms[0]; a.kind == ADiv {
			return padd(K, divPoly(a.P, mul(a.m, m), nil, nil, global))
		}
	}
	key := m.Text(62) + "/" + P0.Key()
	a, ok := divTab[key]
	if !ok && len(P0.t) <= 12 {
		// balanced coefficients: the quotient may be constant after all
		out := make([]Term, len(P0.t))
		var carry []Term
		hm := new(big.Int).Rsh(m, 1)
		for i, t := range P0.t {
			c := t.c
			if c.Cmp(hm) > 0 {
				c = sub(c, m)
				carry = append(carry, Term{t.m, b1})
			}
			out[i] = Term{t.m, c}
		}
		if len(carry) > 0 {
			B := &Poly{t: out}
			l, h := B.bounds()
			x, y := floorDiv(l, m), floorDiv(h, m)
			if x.Cmp(y) != 0 && sub(y, x).Cmp(b2) <= 0 {
				if l2, h2, ok := lpBounds(B, 2000, func(l, h *big.Int) bool { return floorDiv(l, m).Cmp(floorDiv(h, m)) == 0 }); ok {
					x, y = floorDiv(bmax(l, l2), m), floorDiv(bmin(h, h2), m)
				}
			}
			if x.Cmp(y) == 0 {
				return padd(K, paddc(&Poly{t: carry}, x))
			}
		}
	}
	if !ok {
		l, h := P0.bounds()
		a = newAtom(ADiv, "", floorDiv(l, m), floorDiv(h, m))
		a.P, a.m = P0, m
		a.size = len(P0.t)
		divTab[key] = a
	}
	if global && l0 != nil {
		a.tighten(floorDiv(l0, m), floorDiv(h0, m))
	}
	if a.lo.Cmp(a.hi) == 0 {
		return paddc(K, a.lo)
	}
	return padd(K, atomPoly(a))
}

// alias names the value of s by one atom when its interval is much tighter
// than the bounds of its expanded form.
func alias(s *SInt) *SInt {
	if len(s.p.t) < 2 || inArm() > 0 {
		return s
	}
	if c := canon(s); c != s {
		return c
	}
	l, h := s.p.bounds()
	w := sub(s.hi, s.lo)
	if sub(h, l).Cmp(add(w, w)) <= 0 {
		return s
	}
	k := s.p.Key()
	a, ok := defTab[k]
	if !ok {
		a = newAtom(ADef, "", s.lo, s.hi)
		a.P = s.p
		a.size = len(s.p.t)
		defTab[k] = a
	} else {
		a.tighten(s.lo, s.hi)
	}
	return &SInt{p: atomPoly(a), lo: a.lo, hi: a.hi}
}

// canon names a value of [0,m) by its residue class modulo m: two values of
// that range in the same class are equal.
func canon(s *SInt) *SInt {
	if s.lo.Sign() != 0 || s.hi.BitLen() > 70 || s.hi.BitLen() < 3 || len(s.p.t) < 2 || inArm() > 0 {
		return s
	}
	m := add(s.hi, b1)
	if m.Bit(0) == 0 {
		return s
	}
	key := m.Text(62) + "%" + s.p.Key()
	if r, ok := canonTab[key]; ok {
		return r
	}
	r := s
	if P := expandM(pmodc(s.p, m), m); P != nil && len(P.t) <= 600 {
		ck := m.Text(62) + "=" + P.Key()
		if o, ok := classTab[ck]; ok {
			r = o
		} else {
			// a form whose bounds lie in [0,m) is the value itself
			if len(P.t) <= 12 {
				B := balanced(P, m)
				for _, Q := range []*Poly{P, B} {
					if l, h := Q.bounds(); l.Sign() >= 0 && h.Cmp(m) < 0 {
						r = mkS(Q, nil, l, h)
						break
					}
				}
			}
			if r == s {
				a, ok := defTab[s.p.Key()]
				if !ok {
					a = newAtom(ADef, "", s.lo, s.hi)
					a.P = s.p
					a.size = len(s.p.t)
					defTab[s.p.Key()] = a
				}
				r = &SInt{p: atomPoly(a), lo: bmax(a.lo, s.lo), hi: bmin(a.hi, s.hi)}
			}
			classTab[ck] = r
		}
	}
	canonTab[key] = r
	return r
}

// plain is canon restricted to values whose class has a representative whose
// own bounds lie in [0,m): that representative is the value.
func plain(s *SInt) *SInt {
	if s.lo.Sign() != 0 || s.hi.BitLen() > 70 || s.hi.BitLen() < 3 || len(s.p.t) < 2 || len(s.p.t) > 400 || inArm() > 0 {
		return s
	}
	m := add(s.hi, b1)
	if m.Bit(0) == 0 {
		return s
	}
	key := m.Text(62) + "%" + s.p.Key()
	if r, ok := plainTab[key]; ok {
		return r
	}
	r := s
	if P := expandM(pmodc(s.p, m), m); P != nil && len(P.t) <= 8 {
		B := balanced(P, m)
		for _, Q := range []*Poly{P, B} {
			if l, h := Q.bounds(); l.Sign() >= 0 && h.Cmp(m) < 0 {
				r = mkS(Q, nil, l, h)
				break
			}
		}
	}
	plainTab[key] = r
	return r
}

// balanced moves coefficients modulo m to the interval around zero.
func balanced(p *Poly, m *big.Int) *Poly {
	out := make([]Term, len(p.t))
	h := new(big.Int).Rsh(m, 1)
	for i, t := range p.t {
		c := t.c
		if c.Cmp(h) > 0 {
			c = sub(c, m)
		}
		out[i] = Term{t.m, c}
	}
	return &Poly{t: out}
}

var canonTab, classTab, plainTab = map[string]*SInt{}, map[string]*SInt{}, map[string]*SInt{}

// aliasKnown returns the alias of s if it already has one.
func aliasKnown(s *SInt) *SInt {
	if len(s.p.t) < 2 || len(defTab) == 0 {
		return s
	}
	a := defTab[s.p.Key()]
	if a == nil {
		return s
	}
	return &SInt{p: atomPoly(a), lo: bmax(a.lo, s.lo), hi: bmin(a.hi, s.hi)}
}

// expand replaces alias atoms by their definitions.
func expand(p *Poly) *Poly {
	if len(defTab) == 0 {
		return p
	}
	for n := 0; n < 40; n++ {
		found := false
	scan:
		for _, t := range p.t {
			for _, a := range t.m.atoms {
				if a.kind == ADef {
					found = true
					break scan
				}
			}
		}
		if !found {
			return p
		}
		if len(p.t) > 3000 {
			return nil
		}
		acc := zeroPoly
		for _, t := range p.t {
			q := constPoly(t.c)
			var rest []*Atom
			for _, a := range t.m.atoms {
				if a.kind == ADef {
					if len(q.t)*len(a.P.t) > 20000 {
						return nil
					}
					q = pmul(q, a.P)
				} else {
					rest = append(rest, a)
				}
			}
			acc = padd(acc, pmul(q, &Poly{t: []Term{{internMono(rest), b1}}}))
		}
		p = acc
	}
	return nil
}

// fullTab keeps the complete expansion of alias atoms.
var fullTab = map[*Atom]*Poly{}

// expandAll is expand with the expansion of each alias atom kept.
func expandAll(p *Poly) *Poly {
	if len(defTab) == 0 {
		return p
	}
	ok := true
	var ex func(p *Poly) *Poly
	ex = func(p *Poly) *Poly {
		has := false
		for _, t := range p.t {
			for _, a := range t.m.atoms {
				has = has || a.kind == ADef
			}
		}
		if !has {
			return p
		}
		acc := map[*Mono]*big.Int{}
		for _, t := range p.t {
			q := constPoly(t.c)
			var rest []*Atom
			for _, a := range t.m.atoms {
				if a.kind != ADef || !ok {
					rest = append(rest, a)
					continue
				}
				x := fullTab[a]
				if x == nil {
					x = ex(a.P)
					if !ok {
						return p
					}
					fullTab[a] = x
				}
				if len(q.t)*len(x.t) > 40000 {
					ok = false
					return p
				}
				q = pmul(q, x)
			}
			if len(rest) > 0 {
				q = pmul(q, &Poly{t: []Term{{internMono(rest), b1}}})
			}
			for _, u := range q.t {
				if c := acc[u.m]; c != nil {
					acc[u.m] = add(c, u.c)
				} else {
					acc[u.m] = u.c
				}
			}
			if len(acc) > 40000 {
				ok = false
				return p
			}
		}
		return polyFromMap(acc)
	}
	r := ex(p)
	if !ok {
		return nil
	}
	return r
}

// expandM is expand modulo m, with the expansion of each alias atom kept.
func expandM(p *Poly, m *big.Int) *Poly {
	if len(defTab) == 0 {
		return p
	}
	has := false
	for _, t := range p.t {
		for _, a := range t.m.atoms {
			has = has || a.kind == ADef
		}
	}
	if !has {
		return p
	}
	mk := m.Text(62)
	expTab := expTabs[mk]
	if expTab == nil {
		expTab = map[*Atom]*Poly{}
		expTabs[mk] = expTab
	}
	var of func(a *Atom) *Poly
	var ex func(p *Poly) *Poly
	ok := true
	of = func(a *Atom) *Poly {
		if x := expTab[a]; x != nil {
			return x
		}
		x := ex(pmodc(a.P, m))
		expTab[a] = x
		return x
	}
	ex = func(p *Poly) *Poly {
		acc := map[*Mono]*big.Int{}
		put := func(q *Poly) {
			for _, t := range q.t {
				if c := acc[t.m]; c != nil {
					acc[t.m] = add(c, t.c)
				} else {
					acc[t.m] = t.c
				}
			}
		}
		for _, t := range p.t {
			q := constPoly(t.c)
			var rest []*Atom
			for _, a := range t.m.atoms {
				if a.kind == ADef && ok {
					x := of(a)
					if len(q.t)*len(x.t) > 40000 {
						ok = false
						return p
					}
					q = pmodc(pmul(q, x), m)
				} else {
					rest = append(rest, a)
				}
			}
			if len(rest) > 0 {
				q = pmul(q, &Poly{t: []Term{{internMono(rest), b1}}})
			}
			put(q)
			if len(acc) > 100000 {
				ok = false
				return p
			}
		}
		return pmodc(polyFromMap(acc), m)
	}
	r := ex(p)
	if !ok {
		delete(expTabs, mk)
		return nil
	}
	return r
}

var expTabs = map[string]map[*Atom]*Poly{}

func (a *Atom) tighten(lo, hi *big.Int) {
	ch := false
	if lo.Cmp(a.lo) > 0 {
		a.lo = lo
		ch = true
	}
	if hi.Cmp(a.hi) < 0 {
		a.hi = hi
		ch = true
	}
	if ch {
		boundsVer++
	}
}

// remPoly returns P mod m (floor) exactly, in canonical form.
func remPoly(P *Poly, m *big.Int, lo, hi *big.Int, global bool) *Poly {
	D := divPoly(P, m, lo, hi, global)
	return plin(P, neg(m), D)
}

func (p *Poly) String() string {
	if len(p.t) == 0 {
		return "0"
	}
	var sb strings.Builder
	for i, t := range p.t {
		if i > 12 {
			sb.WriteString("+...")
			break
		}
		if i > 0 {
			sb.WriteString(" + ")
		}
		sb.WriteString(t.c.String())
		for _, a := range t.m.atoms {
			sb.WriteString("*")
			sb.WriteString(a.String())
		}
	}
	return sb.String()
}
func (a *Atom) String() string {
	switch a.kind {
	case AVar:
		return a.name
	case ADiv:
		return "D" + strconv.Itoa(a.id)
	case ADef:
		return "Z" + strconv.Itoa(a.id)
	case AInd:
		return "I" + strconv.Itoa(a.id)
	}
	return "F" + strconv.Itoa(a.id)
}
