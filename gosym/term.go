package main

// Symbolic scalars (integers, booleans, floats) and conditions.

import (
	"fmt"
	"math/big"
	"strconv"
)

type SInt struct {
	p      *Poly
	raw    *Poly // congruent to p modulo 2^64 (nil: same as p)
	lo, hi *big.Int
}

func (s *SInt) rawp() *Poly {
	if s.raw != nil {
		return s.raw
	}
	return s.p
}
func (s *SInt) String() string {
	return fmt.Sprintf("{%s in [%s,%s]}", s.p, s.lo, s.hi)
}

func constS(c *big.Int) *SInt { return &SInt{p: constPoly(c), lo: c, hi: c} }
func (s *SInt) isConst() (*big.Int, bool) {
	if c, ok := s.p.isConst(); ok {
		return c, true
	}
	if s.lo.Cmp(s.hi) == 0 {
		return s.lo, true
	}
	return nil, false
}

// mkS builds a mathematical (unwrapped) integer with the best cheap interval.
func mkS(p, raw *Poly, lo, hi *big.Int) *SInt {
	if len(p.t) <= 6 {
		l, h := p.bounds()
		lo, hi = bmax(lo, l), bmin(hi, h)
	}
	lo, hi = factBounds(p, lo, hi)
	if lo.Cmp(hi) == 0 && lo != nil {
		return &SInt{p: constPoly(lo), lo: lo, hi: hi}
	}
	if raw == p {
		raw = nil
	}
	return &SInt{p: p, raw: raw, lo: lo, hi: hi}
}

const maxRawTerms = 600

func sadd(a, b *SInt) *SInt {
	return mkS(padd(a.p, b.p), rawOp(a, b, 0), add(a.lo, b.lo), add(a.hi, b.hi))
}
func ssub(a, b *SInt) *SInt {
	return mkS(psub(a.p, b.p), rawOp(a, b, 1), sub(a.lo, b.hi), sub(a.hi, b.lo))
}
func smul(a, b *SInt) *SInt {
	lo, hi := imul(a.lo, a.hi, b.lo, b.hi)
	if a == b || peq(a.p, b.p) {
		lo = bmax(lo, b0)
	}
	return mkS(pmul(a.p, b.p), rawOp(a, b, 2), lo, hi)
}
func rawOp(a, b *SInt, op int) *Poly {
	if a.raw == nil && b.raw == nil {
		return nil
	}
	ra, rb := a.rawp(), b.rawp()
	if len(ra.t)+len(rb.t) > maxRawTerms {
		return nil
	}
	switch op {
	case 0:
		return padd(ra, rb)
	case 1:
		return psub(ra, rb)
	}
	if len(ra.t)*len(rb.t) > maxRawTerms {
		return nil
	}
	return pmul(ra, rb)
}

// sdivc = floor(a/m), m>0
func sdivc(a *SInt, m *big.Int) *SInt {
	lo, hi := floorDiv(a.lo, m), floorDiv(a.hi, m)
	if lo.Cmp(hi) == 0 {
		return constS(lo)
	}
	p := divPoly(a.p, m, a.lo, a.hi, inArm() == 0)
	return mkS(p, nil, lo, hi)
}

// smodc = a mod m (floor), m>0
func smodc(a *SInt, m *big.Int) *SInt {
	if a.lo.Sign() >= 0 && a.hi.Cmp(m) < 0 {
		return a
	}
	if m.Bit(0) == 1 && inArm() == 0 && m.BitLen() > 2 {
		// residues: the class may be that of a value already inside the range
		if P := expandM(pmodc(a.p, m), m); P != nil && len(P.t) <= 40 {
			B := balanced(P, m)
			if l, h := B.bounds(); floorDiv(l, m).Cmp(floorDiv(h, m)) == 0 {
				k := mul(floorDiv(l, m), m)
				return mkS(paddc(B, neg(k)), nil, sub(l, k), sub(h, k))
			} else if sub(h, l).Cmp(new(big.Int).Lsh(m, 1)) < 0 {
				a = mkS(B, nil, l, h)
				if l2, h2, ok := lpBounds(B, 2000, func(l, h *big.Int) bool { return floorDiv(l, m).Cmp(floorDiv(h, m)) == 0 }); ok {
					l, h = bmax(l, l2), bmin(h, h2)
					if floorDiv(l, m).Cmp(floorDiv(h, m)) == 0 {
						k := mul(floorDiv(l, m), m)
						return mkS(paddc(B, neg(k)), nil, sub(l, k), sub(h, k))
					}
				}
			}
		}
	}
	p := remPoly(a.p, m, a.lo, a.hi, inArm() == 0)
	lo, hi := b0, sub(m, b1)
	// when the quotient is constant the interval transfers
	q1, q2 := floorDiv(a.lo, m), floorDiv(a.hi, m)
	if q1.Cmp(q2) == 0 {
		k := mul(q1, m)
		lo, hi = sub(a.lo, k), sub(a.hi, k)
	}
	return mkS(p, nil, lo, hi)
}

type ITy struct {
	w      int
	signed bool
}

var u64T = ITy{64, false}

func (t ITy) rng() (*big.Int, *big.Int) {
	if t.signed {
		return neg(pow2(t.w - 1)), sub(pow2(t.w-1), b1)
	}
	return b0, sub(pow2(t.w), b1)
}

// wrap reduces a mathematical integer to machine type t.
func wrap(a *SInt, t ITy) *SInt {
	lo, hi := t.rng()
	if a.lo.Cmp(lo) >= 0 && a.hi.Cmp(hi) <= 0 {
		return a
	}
	m := pow2(t.w)
	// constant quotient?
	q1, q2 := floorDiv(sub(a.lo, lo), m), floorDiv(sub(a.hi, lo), m)
	if q1.Cmp(q2) == 0 {
		k := mul(q1, m)
		var raw *Poly
		if t.w == 64 {
			raw = paddc(a.rawp(), neg(k))
		}
		return mkS(paddc(a.p, neg(k)), raw, sub(a.lo, k), sub(a.hi, k))
	}
	if t.w == 64 && !t.signed {
		if r := lpWrap(a, t); r != nil {
			return r
		}
	}
	var p *Poly
	if t.signed {
		off := pow2(t.w - 1)
		p = paddc(remPoly(paddc(a.p, off), m, add(a.lo, off), add(a.hi, off), inArm() == 0), neg(off))
	} else {
		p = remPoly(a.p, m, a.lo, a.hi, inArm() == 0)
	}
	if t.w == 64 {
		return mkS(p, a.rawp(), lo, hi)
	}
	return mkS(p, nil, lo, hi)
}

// ---------------------------------------------------------------- conditions

type CKind uint8

const (
	CConst CKind = iota
	CGE          // p >= 0
	CEQ          // p == 0
	CNot
	CAnd
	COr
	CFlt         // float comparison, known up to an error bound
)

type Cond struct {
	kind CKind
	b    bool
	p    *Poly
	x, y *Cond
	key  string
	id   int
	not  *Cond
	fl   *fltCmp
}

type fltCmp struct {
	num *Poly
	den *big.Int
	eps *big.Rat
	ev  func(*evalCtx) bool
}

func itoa(i int) string { return strconv.Itoa(i) }

var (
	condTab = map[string]*Cond{}
	cTrue   = &Cond{kind: CConst, b: true, key: "T", id: 0}
	cFalse  = &Cond{kind: CConst, b: false, key: "F", id: 1}
	condN   = 2
)

func resetConds() {
	condTab = map[string]*Cond{}
	cTrue.not, cFalse.not = cFalse, cTrue
	condN = 2
}

func internCond(c *Cond) *Cond {
	if o, ok := condTab[c.key]; ok {
		return o
	}
	c.id = condN
	condN++
	condTab[c.key] = c
	return c
}
func cBool(b bool) *Cond {
	if b {
		return cTrue
	}
	return cFalse
}

// primitive part: P = g*prim + c with prim having gcd 1 and positive lead
func primitive(P *Poly) (g *big.Int, prim *Poly, c *big.Int) {
	c = P.constTerm()
	D := P.dropConst()
	if len(D.t) == 0 {
		return b1, D, c
	}
	g = new(big.Int).Abs(D.t[0].c)
	for _, t := range D.t[1:] {
		if g.IsInt64() && g.Int64() == 1 {
			break
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if D.t[0].c.Sign() < 0 {
		g.Neg(g)
	}
	if g.IsInt64() && g.Int64() == 1 {
		return g, D, c
	}
	return g, pexactdiv(D, g), c
}

// cGE returns p>=0 given p in [lo,hi]
func cGE(p *Poly, lo, hi *big.Int) *Cond {
	lo, hi = factBounds(p, lo, hi)
	if lo.Sign() >= 0 {
		return cTrue
	}
	if hi.Sign() < 0 {
		return cFalse
	}
	if c := shannon(p, func(v *big.Int) bool { return v.Sign() >= 0 }); c != nil {
		return c
	}
	g, prim, c := primitive(p)
	if len(prim.t) == 0 {
		return cBool(c.Sign() >= 0)
	}
	// g*prim + c >= 0
	if g.Sign() > 0 {
		// prim >= ceil(-c/g) : prim - ceil(-c/g) >= 0 ; ceil(-c/g) = -floor(c/g)
		return geAtom(prim, neg(floorDiv(c, g)))
	}
	// -|g| prim + c >= 0 : prim <= floor(c/|g|) : not (prim >= floor(c/|g|)+1)
	k := add(floorDiv(c, neg(g)), b1)
	return cNot(geAtom(prim, k))
}

// geAtom: prim >= k
func geAtom(prim *Poly, k *big.Int) *Cond {
	if len(prim.t) == 1 && len(prim.t[0].m.atoms) == 1 {
		a := prim.t[0].m.atoms[0]
		if k.Cmp(a.lo) <= 0 {
			return cTrue
		}
		if k.Cmp(a.hi) > 0 {
			return cFalse
		}
		if a.kind == AInd { // k == 1
			return a.cond
		}
		if a.kind == ADiv {
			// floor(P/m) >= k  <=>  P - k*m >= 0
			l, h := a.P.bounds()
			km := mul(k, a.m)
			return cGE(paddc(a.P, neg(km)), sub(l, km), sub(h, km))
		}
	}
	p := paddc(prim, neg(k))
	return internCond(&Cond{kind: CGE, p: p, key: "G" + p.Key()})
}

func cEQ(p *Poly, lo, hi *big.Int) *Cond {
	lo, hi = factBounds(p, lo, hi)
	if lo.Sign() > 0 || hi.Sign() < 0 {
		return cFalse
	}
	if c := shannon(p, func(v *big.Int) bool { return v.Sign() == 0 }); c != nil {
		return c
	}
	g, prim, c := primitive(p)
	if len(prim.t) == 0 {
		return cBool(c.Sign() == 0)
	}
	k, r := new(big.Int), new(big.Int)
	k.QuoRem(neg(c), g, r)
	if r.Sign() != 0 {
		return cFalse
	}
	// prim == k
	if len(prim.t) == 1 && len(prim.t[0].m.atoms) == 1 {
		a := prim.t[0].m.atoms[0]
		if k.Cmp(a.lo) < 0 || k.Cmp(a.hi) > 0 {
			return cFalse
		}
		if a.kind == AInd {
			if k.Sign() == 0 {
				return cNot(a.cond)
			}
			return a.cond
		}
	}
	if k.Cmp(b0) == 0 && len(prim.t) == 1 {
		// product == 0
	}
	l, h := prim.bounds()
	if k.Cmp(l) < 0 || k.Cmp(h) > 0 {
		return cFalse
	}
	q := paddc(prim, neg(k))
	return internCond(&Cond{kind: CEQ, p: q, key: "E" + q.Key()})
}

func cNot(c *Cond) *Cond {
	switch c.kind {
	case CConst:
		return cBool(!c.b)
	case CNot:
		return c.x
	}
	if c.not == nil {
		c.not = internCond(&Cond{kind: CNot, x: c, key: "N" + strconv.Itoa(c.id)})
		c.not.not = c
	}
	return c.not
}
func cAnd(a, b *Cond) *Cond {
	if a.kind == CConst {
		if a.b {
			return b
		}
		return cFalse
	}
	if b.kind == CConst {
		if b.b {
			return a
		}
		return cFalse
	}
	if a == b {
		return a
	}
	if cNot(a) == b {
		return cFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return internCond(&Cond{kind: CAnd, x: a, y: b, key: "A" + strconv.Itoa(a.id) + "," + strconv.Itoa(b.id)})
}
func cOr(a, b *Cond) *Cond { return cNot(cAnd(cNot(a), cNot(b))) }
func cIte(c, a, b *Cond) *Cond {
	if c.kind == CConst {
		if c.b {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a == cTrue && b == cFalse {
		return c
	}
	if a == cFalse && b == cTrue {
		return cNot(c)
	}
	return cOr(cAnd(c, a), cAnd(cNot(c), b))
}

// ind returns the 0/1 polynomial of a condition.
func ind(c *Cond) *Poly {
	switch c.kind {
	case CConst:
		if c.b {
			return constPoly(b1)
		}
		return zeroPoly
	case CNot:
		return psub(constPoly(b1), ind(c.x))
	}
	k := c.key
	a, ok := indTab[k]
	if !ok {
		a = newAtom(AInd, "", b0, b1)
		a.cond = c
		indTab[k] = a
	}
	return atomPoly(a)
}

// scond comparisons of integers
func sGE(a, b *SInt) *Cond {
	if a.lo.Cmp(b.hi) >= 0 {
		return cTrue
	}
	if a.hi.Cmp(b.lo) < 0 {
		return cFalse
	}
	return cGE(psub(a.p, b.p), sub(a.lo, b.hi), sub(a.hi, b.lo))
}
func sEQ(a, b *SInt) *Cond {
	if a.lo.Cmp(b.hi) > 0 || a.hi.Cmp(b.lo) < 0 {
		return cFalse
	}
	d := psub(a.p, b.p)
	if len(defTab) > 0 && len(d.t) > 0 && len(d.t) < 3000 {
		if x := expand(d); x != nil {
			if c, ok := x.isConst(); ok {
				return cBool(c.Sign() == 0)
			}
		}
	}
	if a2, b2 := canon(a), canon(b); a2 != a || b2 != b {
		d = psub(a2.p, b2.p)
		if c, ok := d.isConst(); ok {
			return cBool(c.Sign() == 0)
		}
	}
	return cEQ(d, sub(a.lo, b.hi), sub(a.hi, b.lo))
}

// iteS merges two integers.
func iteS(c *Cond, a, b *SInt) *SInt {
	if c.kind == CConst {
		if c.b {
			return a
		}
		return b
	}
	if peq(a.p, b.p) {
		lo, hi := bmin(a.lo, b.lo), bmax(a.hi, b.hi)
		r := a.raw
		if r != nil && b.raw != nil && !peq(r, b.raw) {
			r = nil
		}
		return mkS(a.p, r, lo, hi)
	}
	al, ah := boundsUnder(c, a)
	bl, bh := boundsUnder(cNot(c), b)
	lo, hi := bmin(al, bl), bmax(ah, bh)
	I := ind(c)
	// an arm whose value collapsed to a constant: express it through the other
	if k, ok := a.p.isConst(); ok && len(b.p.t) > 0 {
		if _, bc := b.p.isConst(); !bc {
			if l, h := boundsUnder(c, b); l.Cmp(h) == 0 {
				a = &SInt{p: paddc(b.p, sub(k, l)), lo: k, hi: k}
			}
		}
	} else if k, ok := b.p.isConst(); ok {
		if l, h := boundsUnder(cNot(c), a); l.Cmp(h) == 0 {
			b = &SInt{p: paddc(a.p, sub(k, l)), lo: k, hi: k}
		}
	}
	d := psub(a.p, b.p)
	if k, ok := d.isConst(); ok {
		m := new(big.Int).Abs(k)
		if m.Cmp(b1) > 0 && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
			// the merged value is the canonical remainder modulo m
			p := remPoly(b.p, m, nil, nil, false)
			s := mkS(p, nil, lo, hi)
			if lo.Sign() == 0 && add(hi, b1).Cmp(m) == 0 {
				s = plain(s)
			}
			return s
		}
		return mkS(plin(b.p, k, I), nil, lo, hi)
	}
	return mkS(padd(b.p, pmul(I, d)), nil, lo, hi)
}

func boundsUnder(c *Cond, a *SInt) (*big.Int, *big.Int) {
	n := len(factLog)
	pushFacts(c)
	lo, hi := factBounds(a.p, a.lo, a.hi)
	popFacts(n)
	if lo.Cmp(hi) > 0 { // infeasible
		return a.lo, a.hi
	}
	return lo, hi
}

// ---------------------------------------------------------------- path facts

type ival struct{ lo, hi *big.Int }
type factUndo struct {
	key string
	old *ival
}

var (
	facts   = map[string]*ival{}
	factLog []factUndo
	pcond   []*Cond
	armN    int
)

func inArm() int { return armN }

func resetFacts() {
	facts = map[string]*ival{}
	factLog = nil
	pcond = nil
	armN = 0
}

func pushFacts(c *Cond) {
	switch c.kind {
	case CAnd:
		pushFacts(c.x)
		pushFacts(c.y)
	case CGE:
		addFact(c.p, b0, nil)
	case CEQ:
		addFact(c.p, b0, b0)
	case CNot:
		switch c.x.kind {
		case CGE:
			addFact(c.x.p, nil, bm1)
		case CEQ:
			// p != 0: refine at an end point
			lo, hi := c.x.p.bounds()
			lo, hi = factBounds(c.x.p, lo, hi)
			if lo.Sign() == 0 {
				addFact(c.x.p, b1, nil)
			} else if hi.Sign() == 0 {
				addFact(c.x.p, nil, bm1)
			}
		case CAnd:
		}
	}
}

func addFact(P *Poly, lo, hi *big.Int) {
	g, prim, c := primitive(P)
	if len(prim.t) == 0 {
		return
	}
	// g*prim + c in [lo,hi]
	var l, h *big.Int
	ag := new(big.Int).Abs(g)
	if lo != nil {
		x := sub(lo, c)
		if g.Sign() > 0 {
			l = neg(floorDiv(neg(x), ag))
		} else {
			h = floorDiv(neg(x), ag)
		}
	}
	if hi != nil {
		x := sub(hi, c)
		if g.Sign() > 0 {
			h = floorDiv(x, ag)
		} else {
			l = neg(floorDiv(x, ag))
		}
	}
	k := prim.Key()
	old := facts[k]
	n := &ival{l, h}
	if old != nil {
		if n.lo == nil || (old.lo != nil && old.lo.Cmp(n.lo) > 0) {
			n.lo = old.lo
		}
		if n.hi == nil || (old.hi != nil && old.hi.Cmp(n.hi) < 0) {
			n.hi = old.hi
		}
	}
	factLog = append(factLog, factUndo{k, old})
	facts[k] = n
}
func popFacts(n int) {
	for len(factLog) > n {
		u := factLog[len(factLog)-1]
		factLog = factLog[:len(factLog)-1]
		if u.old == nil {
			delete(facts, u.key)
		} else {
			facts[u.key] = u.old
		}
	}
}
func factBounds(p *Poly, lo, hi *big.Int) (*big.Int, *big.Int) {
	if len(facts) == 0 || len(p.t) == 0 || len(p.t) > 4000 {
		return lo, hi
	}
	g, prim, c := primitive(p)
	if len(prim.t) == 0 {
		return lo, hi
	}
	f := facts[prim.Key()]
	if f == nil {
		return lo, hi
	}
	fl, fh := f.lo, f.hi
	if g.Sign() < 0 {
		fl, fh = fh, fl
	}
	if fl != nil {
		x := add(mul(fl, g), c)
		lo = bmax(lo, x)
	}
	if fh != nil {
		x := add(mul(fh, g), c)
		hi = bmin(hi, x)
	}
	return lo, hi
}

// assume adds a condition permanently (top level) or until the arm ends.
func assumeCond(c *Cond) {
	if c == cTrue {
		return
	}
	pcond = append(pcond, c)
	pushFacts(c)
	if armN == 0 {
		tightenAtoms(c)
	}
}

// tightenAtoms narrows variable bounds for top-level assumptions.
func tightenAtoms(c *Cond) {
	switch c.kind {
	case CAnd:
		tightenAtoms(c.x)
		tightenAtoms(c.y)
	case CGE:
		tight1(c.p, true, false)
	case CEQ:
		tight1(c.p, true, true)
	case CNot:
		if c.x.kind == CGE {
			tight1(psub(constPoly(bm1), c.x.p), true, false)
		}
	}
}
func tight1(P *Poly, ge, le bool) {
	D := P.dropConst()
	if len(D.t) != 1 || len(D.t[0].m.atoms) != 1 {
		return
	}
	a := D.t[0].m.atoms[0]
	if a.kind == AInd {
		return
	}
	g, k := D.t[0].c, P.constTerm()
	// g*a + k >= 0 (and <=0)
	if ge {
		if g.Sign() > 0 {
			a.tighten(neg(floorDiv(k, g)), a.hi)
		} else {
			a.tighten(a.lo, floorDiv(k, neg(g)))
		}
	}
	if le {
		if g.Sign() > 0 {
			a.tighten(a.lo, floorDiv(neg(k), g))
		} else {
			ag := neg(g)
			a.tighten(neg(floorDiv(neg(k), ag)), a.hi)
		}
	}
}

// shannon turns a predicate on a polynomial over at most four indicators into
// a Boolean combination of their conditions.
func shannon(p *Poly, pred func(*big.Int) bool) *Cond {
	if len(p.t) > 16 {
		return nil
	}
	var as []*Atom
	for _, t := range p.t {
		for _, a := range t.m.atoms {
			if a.kind != AInd {
				return nil
			}
			f := false
			for _, b := range as {
				if a == b {
					f = true
				}
			}
			if !f {
				as = append(as, a)
			}
		}
	}
	if len(as) < 1 || len(as) > 4 {
		return nil
	}
	val := map[*Atom]int{}
	var rec func(i int) *Cond
	rec = func(i int) *Cond {
		if i == len(as) {
			s := new(big.Int)
			for _, t := range p.t {
				on := true
				for _, a := range t.m.atoms {
					if val[a] == 0 {
						on = false
					}
				}
				if on {
					s.Add(s, t.c)
				}
			}
			return cBool(pred(s))
		}
		a := as[i]
		// implied by an earlier choice?
		for _, b := range as[:i] {
			if v := impliedBy(b.cond, val[b] == 1, a.cond); v >= 0 {
				val[a] = v
				return rec(i + 1)
			}
		}
		val[a] = 1
		x := rec(i + 1)
		val[a] = 0
		y := rec(i + 1)
		return cIte(a.cond, x, y)
	}
	return rec(0)
}

// impliedBy: the truth of d given that c has truth value t (-1 unknown).
func impliedBy(c *Cond, t bool, d *Cond) int {
	if c.kind == CNot {
		c, t = c.x, !t
	}
	flip := false
	if d.kind == CNot {
		d, flip = d.x, true
	}
	r := -1
	switch {
	case c.kind == CGE && d.kind == CGE:
		if k, ok := diffConst(d.p, c.p); ok { // d.p = c.p + k
			if t && k.Sign() >= 0 {
				r = 1
			}
			if !t && k.Sign() <= 0 {
				r = 0
			}
		} else if len(c.p.t) == len(d.p.t) || len(c.p.t) == len(d.p.t)+1 || len(c.p.t)+1 == len(d.p.t) {
			if k, ok := padd(d.p, c.p).isConst(); ok { // d.p = k - c.p
				if t && k.Sign() < 0 {
					r = 0 // c.p>=0 -> d.p<=k<0
				}
				if !t && add(k, b1).Sign() >= 0 {
					r = 1 // c.p<=-1 -> d.p>=k+1
				}
			}
		}
	case c.kind == CEQ && d.kind == CGE && t:
		if k, ok := diffConst(d.p, c.p); ok {
			r = 0
			if k.Sign() >= 0 {
				r = 1
			}
		}
	case c.kind == CGE && d.kind == CEQ:
		if k, ok := diffConst(d.p, c.p); ok {
			// c.p>=0 -> d.p>=k
			if t && k.Sign() > 0 {
				r = 0
			}
			if !t && k.Sign() <= 0 {
				r = 0
			}
		}
	}
	if r >= 0 && flip {
		r = 1 - r
	}
	return r
}
