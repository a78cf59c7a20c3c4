package main

// Symbolic float64: an exact rational linear/polynomial form plus an absolute
// error bound that accounts for every rounding on the way, plus an evaluator
// with the real IEEE semantics (used for witnesses).

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
)

type SFloat struct {
	num    *Poly
	den    *big.Int // > 0
	eps    *big.Rat // |computed - num/den| <= eps
	lo, hi *big.Rat // bounds of the computed value
	ev     func(*evalCtx) float64
	k      int // identity of the computation
}

var floorTab = map[string]*Atom{}

func ratF(f float64) *big.Rat {
	r := new(big.Rat)
	r.SetFloat64(f)
	return r
}
func rabs(a *big.Rat) *big.Rat { return new(big.Rat).Abs(a) }
func radd(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }
func rsub(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) }
func rmul(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
func rmax(a, b *big.Rat) *big.Rat {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func rmin(a, b *big.Rat) *big.Rat {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}

var ulp = new(big.Rat).SetFrac(b1, new(big.Int).Lsh(b1, 53))
var tiny = new(big.Rat).SetFrac(b1, new(big.Int).Lsh(b1, 1074))

func simplifyRat(r *big.Rat, up bool) *big.Rat {
	// keep error bounds small in representation: round up to 1/2^1100 grid when huge
	if r.Denom().BitLen() < 400 {
		return r
	}
	n := new(big.Int).Lsh(r.Num(), 300)
	q := floorDiv(n, r.Denom())
	if up {
		q.Add(q, b1)
	}
	return new(big.Rat).SetFrac(q, new(big.Int).Lsh(b1, 300))
}

func constF(f float64) *SFloat {
	r := ratF(f)
	return &SFloat{num: constPoly(new(big.Int).Set(r.Num())), den: new(big.Int).Set(r.Denom()), eps: new(big.Rat), lo: r, hi: r, ev: func(*evalCtx) float64 { return f }, k: fkey("c", math.Float64bits(f))}
}

// rounded widens a result of exact form (num/den, eps, lo, hi) by one rounding.
func rounded(s *SFloat) *SFloat {
	mx := rmax(rabs(s.lo), rabs(s.hi))
	e := radd(rmul(mx, ulp), tiny)
	s.eps = simplifyRat(radd(s.eps, e), true)
	lo, hi := s.lo, s.hi
	if lo.Sign() != 0 {
		lo = rsub(lo, e)
		if s.lo.Sign() > 0 && lo.Sign() < 0 {
			lo = new(big.Rat)
		}
	}
	if hi.Sign() != 0 {
		hi = radd(hi, e)
		if s.hi.Sign() < 0 && hi.Sign() > 0 {
			hi = new(big.Rat)
		}
	}
	s.lo, s.hi = simplifyRat(lo, false), simplifyRat(hi, true)
	return s
}

func floatFromInt(a *SInt) *SFloat {
	a = alias(a)
	s := &SFloat{num: a.p, den: b1, eps: new(big.Rat), lo: new(big.Rat).SetInt(a.lo), hi: new(big.Rat).SetInt(a.hi)}
	p := a.p
	s.k = fkey("i", a.p.Key())
	s.ev = func(e *evalCtx) float64 {
		v := e.poly(p)
		f, _ := new(big.Float).SetInt(v).Float64()
		return f
	}
	l53 := pow2(53)
	if a.lo.CmpAbs(l53) <= 0 && a.hi.CmpAbs(l53) <= 0 {
		return s
	}
	return rounded(s)
}

func fadd(a, b *SFloat, minus bool) *SFloat {
	den := mul(a.den, b.den)
	x, y := pscale(a.num, b.den), pscale(b.num, a.den)
	s := &SFloat{den: den, eps: radd(a.eps, b.eps)}
	if minus {
		s.num = psub(x, y)
		s.lo, s.hi = rsub(a.lo, b.hi), rsub(a.hi, b.lo)
		s.ev = func(e *evalCtx) float64 { return a.val(e) - b.val(e) }
		s.k = fkey("-", a.k, b.k)
	} else {
		s.num = padd(x, y)
		s.lo, s.hi = radd(a.lo, b.lo), radd(a.hi, b.hi)
		s.ev = func(e *evalCtx) float64 { return a.val(e) + b.val(e) }
		s.k = fkey("+", a.k, b.k)
	}
	s.reduce()
	return rounded(s)
}

func (s *SFloat) reduce() {
	g := new(big.Int).Set(s.den)
	for _, t := range s.num.t {
		if g.BitLen() <= 1 {
			return
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if g.BitLen() > 1 {
		s.num = pexactdiv(s.num, g)
		s.den = new(big.Int).Quo(s.den, g)
	}
}

func rimul(a, b, c, d *big.Rat) (*big.Rat, *big.Rat) {
	p, q, r, s := rmul(a, c), rmul(a, d), rmul(b, c), rmul(b, d)
	return rmin(rmin(p, q), rmin(r, s)), rmax(rmax(p, q), rmax(r, s))
}

func fmul(a, b *SFloat) *SFloat {
	s := &SFloat{num: pmul(a.num, b.num), den: mul(a.den, b.den)}
	ma, mb := rmax(rabs(a.lo), rabs(a.hi)), rmax(rabs(b.lo), rabs(b.hi))
	s.eps = radd(radd(rmul(ma, b.eps), rmul(mb, a.eps)), rmul(a.eps, b.eps))
	s.lo, s.hi = rimul(a.lo, a.hi, b.lo, b.hi)
	s.ev = func(e *evalCtx) float64 { return a.val(e) * b.val(e) }
	s.k = fkey("*", a.k, b.k)
	s.reduce()
	return rounded(s)
}

func fneg(a *SFloat) *SFloat {
	return &SFloat{num: pscale(a.num, bm1), den: a.den, eps: a.eps, lo: new(big.Rat).Neg(a.hi), hi: new(big.Rat).Neg(a.lo),
		ev: func(e *evalCtx) float64 { return -a.val(e) }, k: fkey("n", a.k)}
}

// fdivc divides by a nonzero constant.
func fdivc(a *SFloat, f float64) *SFloat {
	r := ratF(f)
	inv := new(big.Rat).Inv(r)
	s := &SFloat{}
	s.eps = rmul(a.eps, rabs(inv))
	s.lo, s.hi = rimul(a.lo, a.hi, inv, inv)
	// a residue divided by its rounded modulus: divide by the modulus itself
	// and count the difference as an error
	if len(a.num.t) == 1 && len(a.num.t[0].m.atoms) == 1 && a.num.t[0].c.Cmp(b1) == 0 && a.den.Cmp(b1) == 0 && f > 1<<53 {
		g := new(big.Rat).SetInt(add(a.num.t[0].m.atoms[0].hi, b1))
		if d := rabs(rsub(g, r)); d.Sign() > 0 && d.Cmp(rmul(r, rmul(ulp, ratF(4)))) <= 0 {
			ginv := new(big.Rat).Inv(g)
			s.eps = radd(rmul(a.eps, rabs(ginv)), rmul(radd(rmax(rabs(a.lo), rabs(a.hi)), a.eps), rabs(rsub(ginv, inv))))
			inv = ginv
		}
	}
	s.num, s.den = pscale(a.num, inv.Num()), mul(a.den, inv.Denom())
	s.ev = func(e *evalCtx) float64 { return a.val(e) / f }
	s.k = fkey("/", a.k, math.Float64bits(f))
	s.reduce()
	return rounded(s)
}

func rfloor(r *big.Rat) *big.Int { return floorDiv(r.Num(), r.Denom()) }

// floatToInt truncates toward zero; the value must be known non-negative, or
// known non-positive, or the sign is split by the caller.
func floatToInt(a *SFloat) (*SInt, bool) { return floatToInt2(a, false) }

// floatToInt2: with split, the value is max(a,0) truncated, whatever the sign
// of a (the caller selects the arm by the sign).
func floatToInt2(a *SFloat, split bool) (*SInt, bool) {
	if a.lo.Sign() < 0 {
		if a.hi.Sign() <= 0 {
			s, ok := floatToInt(fneg(a))
			if !ok {
				return nil, false
			}
			return ssub(constS(b0), s), true
		}
		return nil, false
	}
	lo, hi := rfloor(a.lo), rfloor(a.hi)
	if lo.Cmp(hi) == 0 {
		return constS(lo), true
	}
	// exact integer value?
	if a.eps.Sign() == 0 && a.den.Cmp(b1) == 0 {
		return mkS(a.num, nil, lo, hi), true
	}
	if a.eps.Sign() == 0 {
		lo2, hi2 := mul(lo, a.den), mul(add(hi, b1), a.den)
		return mkS(divPoly(a.num, a.den, lo2, sub(hi2, b1), inArm() == 0 && !split), nil, lo, hi), true
	}
	// an integer part and a small rest that stays within a unit interval
	if !split {
		if ip := a.intPart(a.num); ip != nil {
			return mkS(ip, nil, lo, hi), true
		}
		if x := expandAll(a.num); x != nil && x != a.num {
			if ip := a.intPart(x); ip != nil {
				return mkS(ip, nil, lo, hi), true
			}
		}
	}
	key := fmt.Sprint(a.k, split)
	at, ok := floorTab[key]
	if !ok {
		at = newAtom(AFloor, "", lo, hi)
		at.fl = a
		at.split = split
		floorTab[key] = at
	}
	return mkS(atomPoly(at), nil, lo, hi), true
}

// intPart splits num/den into integer coefficients and a rest; the truncation
// is the integer part (plus a constant) if the rest stays in a unit interval.
func (a *SFloat) intPart(num *Poly) *Poly {
	var ip []Term
	for _, t := range num.t {
		two := add(t.c, t.c)
		k := floorDiv(add(two, a.den), add(a.den, a.den))
		if len(t.m.atoms) == 0 {
			k = floorDiv(t.c, a.den)
		}
		if k.Sign() != 0 {
			ip = append(ip, Term{t.m, k})
		}
	}
	p := &Poly{t: ip}
	rl, rh := plin(num, neg(a.den), p).bounds()
	l := rsub(new(big.Rat).SetFrac(rl, a.den), a.eps)
	h := radd(new(big.Rat).SetFrac(rh, a.den), a.eps)
	if k := rfloor(l); k.Cmp(rfloor(h)) == 0 {
		return paddc(p, k)
	}
	return nil
}

// fcmpGE decides a >= b when the intervals allow it.
func fcmp(a, b *SFloat) (known bool, ge bool) {
	if a.lo.Cmp(b.hi) >= 0 {
		return true, true
	}
	if a.hi.Cmp(b.lo) < 0 {
		return true, false
	}
	return false, false
}

func (s *SFloat) val(e *evalCtx) float64 {
	if v, ok := e.fm[s.k]; ok {
		return v
	}
	v := s.ev(e)
	e.fm[s.k] = v
	return v
}

func f64OK(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

// ---------------------------------------------------------------- evaluation

type evalCtx struct {
	v    map[*Atom]*big.Int
	memo map[*Atom]*big.Int
	fm   map[int]float64
	cm   map[*Cond]bool
	rnd  *rand.Rand
	def  func(*Atom) *big.Int // default for unassigned variables
}

func newEval(v map[*Atom]*big.Int, def func(*Atom) *big.Int) *evalCtx {
	return &evalCtx{v: v, memo: map[*Atom]*big.Int{}, fm: map[int]float64{}, cm: map[*Cond]bool{}, def: def}
}
func (e *evalCtx) atom(a *Atom) *big.Int {
	if x, ok := e.memo[a]; ok {
		return x
	}
	var r *big.Int
	switch a.kind {
	case AVar:
		if x, ok := e.v[a]; ok {
			r = x
		} else {
			r = e.def(a)
			e.v[a] = r
		}
	case ADiv:
		r = floorDiv(e.poly(a.P), a.m)
	case ADef:
		r = e.poly(a.P)
	case AInd:
		if e.cond(a.cond) {
			r = b1
		} else {
			r = b0
		}
	case AFloor:
		f := a.fl.val(e)
		if a.split && f < 0 {
			f = 0
		}
		x, _ := new(big.Float).SetFloat64(f).Int(nil)
		r = x
	}
	e.memo[a] = r
	return r
}
func (e *evalCtx) poly(p *Poly) *big.Int {
	s := new(big.Int)
	t := new(big.Int)
	for _, x := range p.t {
		t.Set(x.c)
		for _, a := range x.m.atoms {
			t.Mul(t, e.atom(a))
		}
		s.Add(s, t)
	}
	return s
}
func (e *evalCtx) cond(c *Cond) bool {
	if c.kind == CAnd || c.kind == COr {
		if v, ok := e.cm[c]; ok {
			return v
		}
		v := e.cond1(c)
		e.cm[c] = v
		return v
	}
	return e.cond1(c)
}
func (e *evalCtx) cond1(c *Cond) bool {
	switch c.kind {
	case CConst:
		return c.b
	case CGE:
		return e.poly(c.p).Sign() >= 0
	case CEQ:
		return e.poly(c.p).Sign() == 0
	case CNot:
		return !e.cond(c.x)
	case CAnd:
		return e.cond(c.x) && e.cond(c.y)
	case COr:
		return e.cond(c.x) || e.cond(c.y)
	case CFlt:
		return c.fl.ev(e)
	}
	return true
}

func iteF(c *Cond, a, b *SFloat) *SFloat {
	x, y := pscale(a.num, b.den), pscale(b.num, a.den)
	s := &SFloat{den: mul(a.den, b.den)}
	s.num = padd(y, pmul(ind(c), psub(x, y)))
	s.eps = rmax(a.eps, b.eps)
	s.lo, s.hi = rmin(a.lo, b.lo), rmax(a.hi, b.hi)
	s.ev = func(e *evalCtx) float64 {
		if e.cond(c) {
			return a.val(e)
		}
		return b.val(e)
	}
	s.k = fkey("ite", c.id, a.k, b.k)
	s.reduce()
	return s
}

var fkeys = map[string]int{}

func fkey(op string, xs ...any) int {
	k := fmt.Sprint(op, xs)
	if v, ok := fkeys[k]; ok {
		return v
	}
	v := len(fkeys) + 1
	fkeys[k] = v
	return v
}
