package main

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
)

func truncInt(x uint64, t ITy) uint64 {
	if t.w == 64 {
		return x
	}
	sh := uint(64 - t.w)
	if t.signed {
		return uint64(int64(x<<sh) >> sh)
	}
	return x << sh >> sh
}

func (it *Interp) binop(op token.Token, x, y V, xt, yt types.Type) V {
	ti := tinfo(xt)
	switch op {
	case token.EQL, token.NEQ:
		c := it.equal(x, y, xt, yt)
		if op == token.NEQ {
			c = cNot(c)
		}
		return fromC(c)
	}
	switch ti.kind.k {
	case kInt:
		if op == token.SHL || op == token.SHR {
			return it.shift(op, x, y, ti.kind.it, tinfo(yt).kind.it)
		}
		return it.iop(op, x, y, ti.kind.it)
	case kFloat:
		r := it.fop2(op, x, y)
		if b, ok := xt.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			switch op {
			case token.ADD, token.SUB, token.MUL, token.QUO:
				r = round32(r)
			}
		}
		return r
	case kComplex:
		a, b := cplx(x), cplx(y)
		switch op {
		case token.ADD, token.SUB:
			return V{p: &Cplx{it.fop(op, a.re, b.re), it.fop(op, a.im, b.im)}}
		case token.MUL:
			return V{p: &Cplx{
				it.fop(token.SUB, it.fop(token.MUL, a.re, b.re), it.fop(token.MUL, a.im, b.im)),
				it.fop(token.ADD, it.fop(token.MUL, a.re, b.im), it.fop(token.MUL, a.im, b.re))}}
		case token.QUO:
			ar, o1 := vF(a.re)
			ai, o2 := vF(a.im)
			br, o3 := vF(b.re)
			bim, o4 := vF(b.im)
			if o1 && o2 && o3 && o4 {
				r := complex(ar, ai) / complex(br, bim)
				return V{p: &Cplx{concF(real(r)), concF(imag(r))}}
			}
			if o4 && bim == 0 {
				return V{p: &Cplx{it.fop(op, a.re, b.re), it.fop(op, a.im, b.re)}}
			}
		}
		giveUp("complex op " + op.String())
	case kBool:
		a, b := toC(x), toC(y)
		switch op {
		case token.AND, token.LAND:
			return fromC(cAnd(a, b))
		case token.OR, token.LOR:
			return fromC(cOr(a, b))
		}
	}
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s, t := asStr(x), asStr(y)
		switch op {
		case token.ADD:
			return V{p: s + t}
		case token.LSS:
			return fromC(cBool(s < t))
		case token.LEQ:
			return fromC(cBool(s <= t))
		case token.GTR:
			return fromC(cBool(s > t))
		case token.GEQ:
			return fromC(cBool(s >= t))
		}
	}
	giveUp("binop " + op.String() + " on " + xt.String())
	return V{}
}

func (it *Interp) iop(op token.Token, x, y V, t ITy) V {
	if x.p == nil && y.p == nil {
		return it.iopc(op, x.c, y.c, t)
	}
	a, b := toS(x, t), toS(y, t)
	switch op {
	case token.ADD:
		return fromS(wrapA(a, b, sadd, t), t)
	case token.SUB:
		return fromS(wrapA(a, b, ssub, t), t)
	case token.MUL:
		return fromS(wrap(smulA(a, b), t), t)
	case token.LSS:
		return fromC(cNot(sGE(a, b)))
	case token.GEQ:
		return fromC(sGE(a, b))
	case token.GTR:
		return fromC(cNot(sGE(b, a)))
	case token.LEQ:
		return fromC(sGE(b, a))
	case token.QUO, token.REM:
		c, ok := b.isConst()
		if !ok {
			// fork over small divisors
			k := it.concrete(y, t)
			c = bi(k)
		}
		if c.Sign() == 0 {
			it.gopanic("integer divide by zero")
		}
		if c.Sign() < 0 {
			giveUp("division by negative constant")
		}
		if a.lo.Sign() >= 0 {
			if op == token.QUO {
				return fromS(sdivc(a, c), t)
			}
			return fromS(smodc(a, c), t)
		}
		// truncated division: sign split
		neg1 := cNot(sGE(a, constS(b0)))
		var p1, p2 *SInt
		na := ssub(constS(b0), a)
		if op == token.QUO {
			p1 = ssub(constS(b0), sdivc(na, c))
			p2 = sdivc(a, c)
			p2.lo = bmax(p2.lo, b0)
			p1.hi = bmin(p1.hi, b0)
		} else {
			p1 = ssub(constS(b0), smodc(na, c))
			p2 = smodc(a, c)
		}
		return fromS(wrap(iteS(neg1, p1, p2), t), t)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return fromS(it.bitop(op, a, b, t), t)
	}
	giveUp("int op " + op.String())
	return V{}
}

func (it *Interp) iopc(op token.Token, a, b uint64, t ITy) V {
	switch op {
	case token.ADD:
		return V{c: truncInt(a+b, t)}
	case token.SUB:
		return V{c: truncInt(a-b, t)}
	case token.MUL:
		return V{c: truncInt(a*b, t)}
	case token.AND:
		return V{c: a & b}
	case token.OR:
		return V{c: a | b}
	case token.XOR:
		return V{c: truncInt(a^b, t)}
	case token.AND_NOT:
		return V{c: truncInt(a&^b, t)}
	case token.QUO, token.REM:
		if b == 0 {
			it.gopanic("integer divide by zero")
		}
		if t.signed {
			if int64(b) == -1 {
				if op == token.QUO {
					return V{c: truncInt(-a, t)}
				}
				return V{}
			}
			if op == token.QUO {
				return V{c: uint64(int64(a) / int64(b))}
			}
			return V{c: uint64(int64(a) % int64(b))}
		}
		if op == token.QUO {
			return V{c: a / b}
		}
		return V{c: a % b}
	}
	var r bool
	if t.signed {
		x, y := int64(a), int64(b)
		switch op {
		case token.LSS:
			r = x < y
		case token.LEQ:
			r = x <= y
		case token.GTR:
			r = x > y
		case token.GEQ:
			r = x >= y
		}
	} else {
		switch op {
		case token.LSS:
			r = a < b
		case token.LEQ:
			r = a <= b
		case token.GTR:
			r = a > b
		case token.GEQ:
			r = a >= b
		}
	}
	return fromC(cBool(r))
}

func (it *Interp) shift(op token.Token, x, y V, t, yt ITy) V {
	if y.p != nil {
		k := it.concrete(y, yt)
		y = V{c: uint64(k)}
	}
	if yt.signed && int64(y.c) < 0 {
		it.gopanic("negative shift amount")
	}
	n := y.c
	if x.p == nil {
		if op == token.SHL {
			if n >= 64 {
				return V{}
			}
			return V{c: truncInt(x.c<<n, t)}
		}
		if t.signed {
			if n > 63 {
				n = 63
			}
			return V{c: uint64(int64(x.c) >> n)}
		}
		if n >= 64 {
			return V{}
		}
		return V{c: x.c >> n}
	}
	a := toS(x, t)
	if op == token.SHL {
		if n >= uint64(t.w) {
			return V{}
		}
		return fromS(wrap(smul(a, constS(pow2(int(n)))), t), t)
	}
	if n >= uint64(t.w) {
		n = uint64(t.w)
	}
	return fromS(sdivc(a, pow2(int(n))), t)
}

// multipleOf reports whether every coefficient is divisible by 2^k.
func trailingZeros(p *Poly) int {
	k := 1 << 20
	for _, t := range p.t {
		z := int(t.c.TrailingZeroBits())
		if z < k {
			k = z
		}
	}
	return k
}

func (it *Interp) bitop(op token.Token, a, b *SInt, t ITy) *SInt {
	if a.lo.Sign() < 0 || b.lo.Sign() < 0 {
		// reinterpret in two's complement
		m := pow2(t.w)
		ua, ub := smodc(a, m), smodc(b, m)
		r := it.bitop(op, ua, ub, ITy{t.w, false})
		return wrap(r, t)
	}
	if op == token.AND_NOT {
		// a & ^b = a - (a&b)
		return ssub2(a, it.bitop(token.AND, a, b, t), b0, a.hi)
	}
	if _, ok := a.isConst(); ok {
		a, b = b, a
	}
	if c, ok := b.isConst(); ok {
		switch op {
		case token.AND:
			if c.Sign() == 0 {
				return constS(b0)
			}
			// contiguous runs of ones
			res := constS(b0)
			i := 0
			n := c.BitLen()
			for i < n {
				if c.Bit(i) == 0 {
					i++
					continue
				}
				j := i
				for j < n && c.Bit(j) == 1 {
					j++
				}
				// bits i..j-1
				part := smul(sdivc(smodc(a, pow2(j)), pow2(i)), constS(pow2(i)))
				res = sadd(res, part)
				i = j
			}
			return clampS(res, b0, bmin(c, a.hi))
		case token.OR:
			// a|c = a + c - (a&c)
			return clampS(ssub(sadd(a, b), it.bitop(token.AND, a, b, t)), bmax(a.lo, c), nil)
		case token.XOR:
			an := it.bitop(token.AND, a, b, t)
			return clampS(ssub(sadd(a, b), smul(constS(b2), an)), b0, sub(pow2(maxi(a.hi.BitLen(), c.BitLen())), b1))
		}
	}
	if peq(a.p, b.p) {
		switch op {
		case token.AND, token.OR:
			return a
		case token.XOR:
			return constS(b0)
		}
	}
	// disjoint bits
	disjoint := func(x, y *SInt) bool {
		z := trailingZeros(x.p)
		return y.hi.BitLen() <= z
	}
	if disjoint(a, b) || disjoint(b, a) {
		if op == token.AND {
			return constS(b0)
		}
		return sadd(a, b)
	}
	// bitwise expansion
	n := maxi(a.hi.BitLen(), b.hi.BitLen())
	if n > 64 {
		giveUp("wide bit operation")
	}
	res := zeroPoly
	for i := 0; i < n; i++ {
		x, y := bitOf(a, i), bitOf(b, i)
		// as conditions, so products stay idempotent
		cx, cy := cEQ(paddc(x.p, bm1), sub(x.lo, b1), sub(x.hi, b1)), cEQ(paddc(y.p, bm1), sub(y.lo, b1), sub(y.hi, b1))
		var p *Poly
		switch op {
		case token.AND:
			p = ind(cAnd(cx, cy))
		case token.OR:
			p = padd(padd(x.p, y.p), pscale(ind(cAnd(cx, cy)), bm1))
		case token.XOR:
			p = padd(padd(x.p, y.p), pscale(ind(cAnd(cx, cy)), bi(-2)))
		}
		res = plin(res, pow2(i), p)
	}
	return mkS(res, nil, b0, sub(pow2(n), b1))
}

func bitOf(a *SInt, i int) *SInt { return smodc(sdivc(a, pow2(i)), b2) }
func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}
func ssub2(a, b *SInt, lo, hi *big.Int) *SInt { return clampS(ssub(a, b), lo, hi) }
func clampS(s *SInt, lo, hi *big.Int) *SInt {
	r := *s
	if lo != nil {
		r.lo = bmax(r.lo, lo)
	}
	if hi != nil {
		r.hi = bmin(r.hi, hi)
	}
	return &r
}

func (it *Interp) fop2(op token.Token, x, y V) V {
	a, o1 := vF(x)
	b, o2 := vF(y)
	if o1 && o2 {
		switch op {
		case token.LSS:
			return fromC(cBool(a < b))
		case token.LEQ:
			return fromC(cBool(a <= b))
		case token.GTR:
			return fromC(cBool(a > b))
		case token.GEQ:
			return fromC(cBool(a >= b))
		}
		return it.fop(op, x, y)
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return fromC(fcmpCond(op, toF(x), toF(y)))
	}
	return it.fop(op, x, y)
}

func (it *Interp) fop(op token.Token, x, y V) V {
	a, o1 := vF(x)
	b, o2 := vF(y)
	if o1 && o2 {
		switch op {
		case token.ADD:
			return concF(a + b)
		case token.SUB:
			return concF(a - b)
		case token.MUL:
			return concF(a * b)
		case token.QUO:
			return concF(a / b)
		}
	}
	switch op {
	case token.ADD:
		if o1 && a == 0 {
			return y
		}
		if o2 && b == 0 {
			return x
		}
		return fromF(fadd(toF(x), toF(y), false))
	case token.SUB:
		if o2 && b == 0 {
			return x
		}
		if o1 && a == 0 {
			return fromF(fneg(toF(y)))
		}
		return fromF(fadd(toF(x), toF(y), true))
	case token.MUL:
		if (o1 && a == 0) || (o2 && b == 0) {
			return concF(0)
		}
		for _, p := range []struct {
			ok bool
			f  float64
			v  V
		}{{o1, a, y}, {o2, b, x}} {
			if p.ok {
				if p.f == 1 {
					return p.v
				}
				if fr, _ := math.Frexp(math.Abs(p.f)); fr == 0.5 {
					return fromF(fmulPow2(toF(p.v), p.f))
				}
			}
		}
		return fromF(fmul(toF(x), toF(y)))
	case token.QUO:
		if o2 {
			if b == 0 {
				giveUp("float division by zero")
			}
			if fr, _ := math.Frexp(math.Abs(b)); fr == 0.5 {
				return fromF(fmulPow2(toF(x), 1/b))
			}
			return fromF(fdivc(toF(x), b))
		}
	}
	giveUp("float op " + op.String())
	return V{}
}

// fmulPow2 multiplies by a power of two (exact barring overflow/underflow).
func fmulPow2(a *SFloat, f float64) *SFloat {
	r := ratF(f)
	s := &SFloat{num: pscale(a.num, r.Num()), den: mul(a.den, r.Denom()), eps: rmul(a.eps, rabs(r))}
	s.lo, s.hi = rimul(a.lo, a.hi, r, r)
	s.ev = func(e *evalCtx) float64 { return a.val(e) * f }
	s.k = fkey("*2", a.k, math.Float64bits(f))
	s.reduce()
	return s
}

// fcmpCond: comparison of symbolic floats; exact forms give integer conditions.
func fcmpCond(op token.Token, a, b *SFloat) *Cond {
	d := &SFloat{den: mul(a.den, b.den)}
	switch op {
	case token.LSS, token.LEQ:
		a, b = b, a
	}
	// a > b or a >= b
	strict := op == token.LSS || op == token.GTR
	if a.lo.Cmp(b.hi) > 0 || (!strict && a.lo.Cmp(b.hi) >= 0) {
		return cTrue
	}
	if a.hi.Cmp(b.lo) < 0 || (strict && a.hi.Cmp(b.lo) <= 0) {
		return cFalse
	}
	d.num = psub(pscale(a.num, b.den), pscale(b.num, a.den))
	if a.eps.Sign() == 0 && b.eps.Sign() == 0 {
		p := d.num
		if strict {
			p = paddc(p, bm1)
		}
		lo, hi := p.bounds()
		return cGE(p, lo, hi)
	}
	// inexact: condition known up to the error bound
	d.eps = radd(a.eps, b.eps)
	k := fkey("cmp", strict, a.k, b.k)
	c := internCond(&Cond{kind: CFlt, p: d.num, key: "F" + itoa(k)})
	if c.fl == nil {
		c.fl = &fltCmp{num: d.num, den: d.den, eps: d.eps, ev: func(e *evalCtx) bool {
			if strict {
				return a.val(e) > b.val(e)
			}
			return a.val(e) >= b.val(e)
		}}
	}
	return c
}

func (it *Interp) equal(x, y V, xt, yt types.Type) *Cond {
	ti := tinfo(xt)
	switch ti.kind.k {
	case kInt:
		if x.p == nil && y.p == nil {
			return cBool(x.c == y.c)
		}
		return sEQ(toS(x, ti.kind.it), toS(y, ti.kind.it))
	case kBool:
		a, b := toC(x), toC(y)
		return cIte(a, b, cNot(b))
	case kFloat:
		f, o1 := vF(x)
		g, o2 := vF(y)
		if o1 && o2 {
			return cBool(f == g)
		}
		a, b := toF(x), toF(y)
		if a.lo.Cmp(b.hi) > 0 || a.hi.Cmp(b.lo) < 0 {
			return cFalse
		}
		if a.eps.Sign() == 0 && b.eps.Sign() == 0 {
			d := psub(pscale(a.num, b.den), pscale(b.num, a.den))
			lo, hi := d.bounds()
			return cEQ(d, lo, hi)
		}
		return cAnd(fcmpCond(token.GEQ, a, b), fcmpCond(token.LEQ, a, b))
	case kComplex:
		a, b := cplx(x), cplx(y)
		f := types.Typ[types.Float64]
		return cAnd(it.equal(a.re, b.re, f, f), it.equal(a.im, b.im, f, f))
	case kPtr:
		return cBool(x.p == y.p && x.c == y.c)
	}
	switch u := xt.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return cBool(asStr(x) == asStr(y))
		}
	case *types.Interface:
		a, _ := x.p.(*Iface)
		if _, isI := yt.Underlying().(*types.Interface); !isI {
			if y.p == nil && isUntypedNil(yt) {
				return cBool(a == nil)
			}
			if a == nil || !types.Identical(a.t, yt) {
				return cFalse
			}
			return it.equal(a.v, y, yt, yt)
		}
		b, _ := y.p.(*Iface)
		if a == nil || b == nil {
			return cBool(a == nil && b == nil)
		}
		if !types.Identical(a.t, b.t) {
			return cFalse
		}
		return it.equal(a.v, b.v, a.t, b.t)
	case *types.Slice, *types.Map, *types.Signature:
		// comparison with nil
		if x.p == nil || y.p == nil {
			return cBool(x.p == nil && y.p == nil)
		}
		return cFalse
	case *types.Struct, *types.Array:
		a, b := x.p.(*Agg), y.p.(*Agg)
		c := cTrue
		for i := range a.f {
			k := ti.pat[i]
			switch k.k {
			case kInt:
				c = cAnd(c, sEQ(toS(a.f[i], k.it), toS(b.f[i], k.it)))
			default:
				if vIdentical(a.f[i], b.f[i]) {
					continue
				}
				if k.k == kPtr {
					return cFalse
				}
				if s, ok := a.f[i].p.(string); ok && k.k == kOther {
					c = cAnd(c, cBool(s == asStr(b.f[i])))
					continue
				}
				giveUp("composite comparison")
			}
		}
		return c
	case *types.Pointer, *types.Chan:
		return cBool(x.p == y.p && x.c == y.c)
	}
	giveUp("equality on " + xt.String())
	return nil
}

func isUntypedNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (it *Interp) convert(x V, from, to types.Type) V {
	ft, tt := tinfo(from), tinfo(to)
	switch ft.kind.k {
	case kInt:
		switch tt.kind.k {
		case kInt:
			if x.p == nil {
				return V{c: truncInt(x.c, tt.kind.it)}
			}
			return fromS(wrap(toS(x, ft.kind.it), tt.kind.it), tt.kind.it)
		case kFloat:
			if x.p == nil {
				var f float64
				if ft.kind.it.signed {
					f = float64(int64(x.c))
				} else {
					f = float64(x.c)
				}
				if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return concF(f)
			}
			return fromF(floatFromInt(toS(x, ft.kind.it)))
		case kPtr:
			giveUp("integer to pointer")
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return V{p: string(rune(it.concrete(x, ft.kind.it)))}
		}
	case kFloat:
		switch tt.kind.k {
		case kFloat:
			if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
				return round32(x)
			}
			return x
		case kInt:
			t := tt.kind.it
			if f, ok := vF(x); ok {
				if t.signed {
					return V{c: truncInt(uint64(int64(f)), t)}
				}
				return V{c: truncInt(uint64(f), t)}
			}
			return it.f2i(toF(x), t)
		}
	case kComplex:
		return x
	case kPtr:
		if tt.kind.k == kPtr {
			return x
		}
		giveUp("pointer conversion to " + to.String())
	}
	switch u := to.Underlying().(type) {
	case *types.Slice:
		s := asStr(x)
		e := tinfo(u.Elem())
		if e.kind.it.w != 8 {
			giveUp("string to []rune")
		}
		o := newObj(e, len(s), "bytes")
		for i := range o.cells {
			o.cells[i] = V{c: uint64(s[i])}
		}
		return V{p: &Slice{o, 0, len(s), len(s), 1}}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if sl, ok := x.p.(*Slice); ok {
				bs := make([]byte, sl.len)
				for i := range bs {
					c := sl.o.cells[sl.off+i]
					if c.p != nil {
						giveUp("symbolic bytes to string")
					}
					bs[i] = byte(c.c)
				}
				return V{p: string(bs)}
			}
			if x.p == nil {
				return V{p: ""}
			}
			return x
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	giveUp("conversion " + from.String() + " to " + to.String())
	return V{}
}

func (it *Interp) f2i(f *SFloat, t ITy) V { return fromS(wrap(it.f2big(f), t), t) }

// f2big truncates a symbolic float to an unbounded integer.
func (it *Interp) f2big(f *SFloat) *SInt {
	if f.lo.Sign() < 0 && f.hi.Sign() > 0 {
		// split on the sign
		c := fcmpCond(token.GEQ, f, constF(0))
		a := *f
		a.lo = new(big.Rat)
		b := *f
		b.hi = new(big.Rat)
		x, ok1 := floatToInt2(&a, true)
		nb := fneg(&b)
		y, ok2 := floatToInt2(nb, true)
		if ok2 {
			y = ssub(constS(b0), y)
		}
		if !ok1 || !ok2 {
			giveUp("float to int")
		}
		return iteS(c, x, y)
	}
	s, ok := floatToInt(f)
	if !ok {
		giveUp("float to int")
	}
	return s
}

// smulA multiplies machine integers.
func smulA(a, b *SInt) *SInt {
	_, ca := a.isConst()
	_, cb := b.isConst()
	switch {
	case !ca && !cb:
		a, b = alias(a), alias(b)
	case ca && !cb && b.hi.Cmp(almost64) < 0:
		b = alias(b)
	case cb && !ca && a.hi.Cmp(almost64) < 0:
		a = alias(a)
	}
	return smul(a, b)
}

// almost64 separates values with a known bound from wrapped words.
var almost64 = sub(pow2(64), b2)

// wrapA wraps a sum or difference, first with the operands under their alias names.
func wrapA(a, b *SInt, f func(a, b *SInt) *SInt, t ITy) *SInt {
	r := f(a, b)
	lo, hi := t.rng()
	if r.lo.Cmp(lo) >= 0 && r.hi.Cmp(hi) <= 0 {
		return r
	}
	if t.w == 64 && !t.signed {
		x, y := aliasKnown(a), aliasKnown(b)
		if x != a || y != b {
			if s := lpWrap(f(x, y), t); s != nil {
				return s
			}
		}
	}
	return wrap(r, t)
}

// round32 rounds to single precision.
func round32(x V) V {
	if f, ok := vF(x); ok {
		return concF(float64(float32(f)))
	}
	a := toF(x)
	top := ratF(1e38)
	if a.hi.Cmp(top) > 0 || new(big.Rat).Neg(a.lo).Cmp(top) > 0 {
		giveUp("symbolic float32")
	}
	mx := rmax(rabs(a.lo), rabs(a.hi))
	e := radd(rmul(mx, ratF(1.0/(1<<24))), ratF(1e-45))
	lo, hi := rsub(a.lo, e), radd(a.hi, e)
	if a.lo.Sign() >= 0 && lo.Sign() < 0 {
		lo = ratF(0)
	}
	if a.hi.Sign() <= 0 && hi.Sign() > 0 {
		hi = ratF(0)
	}
	return fromF(&SFloat{num: a.num, den: a.den, eps: simplifyRat(radd(a.eps, e), true), lo: simplifyRat(lo, false), hi: simplifyRat(hi, true),
		ev: func(c *evalCtx) float64 { return float64(float32(a.val(c))) }, k: fkey("f32", a.k)})
}
