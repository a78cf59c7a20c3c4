package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"math/cmplx"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type extFn func(it *Interp, fn *ssa.Function, a []V) V

var externs = map[string]extFn{}
var extCache = map[*ssa.Function]extFn{}

// packages whose functions are opaque no-ops
var opaquePkgs = map[string]bool{"fmt": true, "log": true, "os": true, "runtime": true, "testing": true, "time": true, "reflect": true, "sync": true, "sync/atomic": true}

func lookupExternal(fn *ssa.Function) extFn {
	if h, ok := extCache[fn]; ok {
		return h
	}
	name := fn.String()
	h := externs[name]
	if h == nil {
		if o := fn.Origin(); o != nil {
			h = externs[o.String()]
		}
	}
	if h == nil && fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		if fn.Name() == "init" && !strings.HasPrefix(p, "fast-ksw") && !initAllow[p] {
			h = func(it *Interp, fn *ssa.Function, a []V) V { return V{} }
			extCache[fn] = h
			return h
		}
		if opaquePkgs[p] {
			h = opaque
		}
		if p == "math/big" && fn.Name() != "init" {
			h = func(it *Interp, fn *ssa.Function, a []V) V { giveUp("math/big: " + fn.String()); return V{} }
		}
	}
	extCache[fn] = h
	return h
}

func opaque(it *Interp, fn *ssa.Function, a []V) V {
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return V{}
	}
	mk := func(t types.Type) V {
		if isErr(t) && fn.Name() == "Errorf" {
			return errV("fmt.Errorf")
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return V{p: "<" + fn.Name() + ">"}
		}
		return zeroV(tinfo(t))
	}
	if res.Len() == 1 {
		return mk(res.At(0).Type())
	}
	t := &Tuple{}
	for i := 0; i < res.Len(); i++ {
		t.f = append(t.f, mk(res.At(i).Type()))
	}
	return V{p: t}
}

func isErr(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

var errType types.Type

// errV makes a fresh non-nil error value.
func errV(msg string) V {
	o := &Obj{cells: []V{{p: msg}}, pat: []cellTy{{k: kOther}}, label: "error"}
	return V{p: &Iface{errType, V{p: o}}}
}

func tup(vs ...V) V { return V{p: &Tuple{vs}} }

func isSym(vs ...V) bool {
	for _, v := range vs {
		if v.p != nil {
			return true
		}
	}
	return false
}

func init() {
	e := externs
	S := func(v V) *SInt { return toS(v, u64T) }
	U := func(s *SInt) V { return fromS(s, u64T) }
	// ---- math/bits
	mul64 := func(it *Interp, fn *ssa.Function, a []V) V {
		if !isSym(a[0], a[1]) {
			h, l := bits.Mul64(a[0].c, a[1].c)
			return tup(V{c: h}, V{c: l})
		}
		x, y := S(a[0]), S(a[1])
		p := smulA(x, y)
		hi := sdivc(p, pow2(64))
		// low word: same floor division, so no new unknown
		lo := wrap(p, u64T)
		return tup(U(hi), U(lo))
	}
	e["math/bits.Mul64"], e["math/bits.Mul"] = mul64, mul64
	add64 := func(it *Interp, fn *ssa.Function, a []V) V {
		if !isSym(a[0], a[1], a[2]) {
			h, l := bits.Add64(a[0].c, a[1].c, a[2].c)
			return tup(V{c: h}, V{c: l})
		}
		s := sadd(sadd(S(a[0]), S(a[1])), S(a[2]))
		return tup(U(wrap(s, u64T)), U(sdivc(s, pow2(64))))
	}
	e["math/bits.Add64"], e["math/bits.Add"] = add64, add64
	sub64 := func(it *Interp, fn *ssa.Function, a []V) V {
		if !isSym(a[0], a[1], a[2]) {
			h, l := bits.Sub64(a[0].c, a[1].c, a[2].c)
			return tup(V{c: h}, V{c: l})
		}
		s := ssub(ssub(S(a[0]), S(a[1])), S(a[2]))
		return tup(U(wrap(s, u64T)), U(ssub(constS(b0), sdivc(s, pow2(64)))))
	}
	e["math/bits.Sub64"], e["math/bits.Sub"] = sub64, sub64
	div64 := func(it *Interp, fn *ssa.Function, a []V) V {
		if isSym(a[2]) {
			giveUp("bits.Div64 by symbolic divisor")
		}
		y := bu(a[2].c)
		if y.Sign() == 0 {
			it.gopanic("integer divide by zero")
		}
		n := sadd(smul(S(a[0]), constS(pow2(64))), S(a[1]))
		if !isSym(a[0], a[1]) && a[0].c >= a[2].c {
			it.gopanic("integer overflow in bits.Div64")
		}
		return tup(U(wrap(sdivc(n, y), u64T)), U(smodc(n, y)))
	}
	e["math/bits.Div64"], e["math/bits.Div"] = div64, div64
	conc1 := func(f func(uint64) uint64) extFn {
		return func(it *Interp, fn *ssa.Function, a []V) V {
			if isSym(a[0]) {
				return it.bitsSym(fn.Name(), S(a[0]))
			}
			return V{c: f(a[0].c)}
		}
	}
	e["math/bits.Len64"] = conc1(func(x uint64) uint64 { return uint64(bits.Len64(x)) })
	e["math/bits.Len"] = e["math/bits.Len64"]
	e["math/bits.Len32"] = conc1(func(x uint64) uint64 { return uint64(bits.Len32(uint32(x))) })
	e["math/bits.TrailingZeros64"] = conc1(func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) })
	e["math/bits.TrailingZeros"] = e["math/bits.TrailingZeros64"]
	e["math/bits.LeadingZeros64"] = conc1(func(x uint64) uint64 { return uint64(bits.LeadingZeros64(x)) })
	e["math/bits.LeadingZeros"] = e["math/bits.LeadingZeros64"]
	bit := func(x *SInt, i int) *SInt { return smodc(sdivc(x, pow2(i)), pow2(1)) }
	e["math/bits.OnesCount64"] = func(it *Interp, fn *ssa.Function, a []V) V {
		if !isSym(a[0]) {
			return V{c: uint64(bits.OnesCount64(a[0].c))}
		}
		x, r := S(a[0]), constS(b0)
		for i := 0; i < 64; i++ {
			r = sadd(r, bit(x, i))
		}
		return U(r)
	}
	e["math/bits.OnesCount"] = e["math/bits.OnesCount64"]
	e["math/bits.Reverse64"] = func(it *Interp, fn *ssa.Function, a []V) V {
		if !isSym(a[0]) {
			return V{c: bits.Reverse64(a[0].c)}
		}
		x, r := S(a[0]), constS(b0)
		for i := 0; i < 64; i++ {
			r = sadd(r, smul(bit(x, i), constS(pow2(63-i))))
		}
		return U(r)
	}
	e["math/bits.RotateLeft64"] = func(it *Interp, fn *ssa.Function, a []V) V {
		if !isSym(a[0], a[1]) {
			return V{c: bits.RotateLeft64(a[0].c, int(int64(a[1].c)))}
		}
		k := int(it.concrete(a[1], ITy{64, true})) & 63
		x := S(a[0])
		return U(sadd(smul(smodc(x, pow2(64-k)), constS(pow2(k))), sdivc(x, pow2(64-k))))
	}
	// ---- math
	for n, f := range map[string]func(float64) float64{"Sqrt": math.Sqrt, "Exp": math.Exp, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10,
		"Floor": math.Floor, "Ceil": math.Ceil, "Round": math.Round, "Trunc": math.Trunc, "Sin": math.Sin, "Cos": math.Cos, "Exp2": math.Exp2, "Acos": math.Acos, "Tan": math.Tan, "Cosh": math.Cosh, "RoundToEven": math.RoundToEven} {
		n, f := n, f
		e["math."+n] = func(it *Interp, fn *ssa.Function, a []V) V {
			if x, ok := vF(a[0]); ok {
				return concF(f(x))
			}
			return it.mathSym(n, toF(a[0]))
		}
	}
	e["math.Abs"] = func(it *Interp, fn *ssa.Function, a []V) V {
		if x, ok := vF(a[0]); ok {
			return concF(math.Abs(x))
		}
		f := toF(a[0])
		if f.lo.Sign() >= 0 {
			return a[0]
		}
		if f.hi.Sign() <= 0 {
			return fromF(fneg(f))
		}
		return fromF(iteF(fcmpCond(geqTok, f, constF(0)), f, fneg(f)))
	}
	for n, f := range map[string]func(float64, float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Max": math.Max, "Min": math.Min, "Atan2": math.Atan2, "Hypot": math.Hypot, "Copysign": math.Copysign} {
		f := f
		n := n
		e["math."+n] = func(it *Interp, fn *ssa.Function, a []V) V {
			x, o1 := vF(a[0])
			y, o2 := vF(a[1])
			if !o1 || !o2 {
				giveUp("symbolic math." + n)
			}
			return concF(f(x, y))
		}
	}
	e["math.Float64bits"] = func(it *Interp, fn *ssa.Function, a []V) V {
		if a[0].p != nil {
			if b, ok := a[0].p.(*bitsFloat); ok {
				return b.v
			}
			giveUp("Float64bits of symbolic")
		}
		return V{c: a[0].c}
	}
	e["math.Float64frombits"] = func(it *Interp, fn *ssa.Function, a []V) V {
		if a[0].p != nil {
			return V{p: &bitsFloat{a[0]}}
		}
		return V{c: a[0].c}
	}
	e["math.IsNaN"] = func(it *Interp, fn *ssa.Function, a []V) V {
		f, ok := vF(a[0])
		return fromC(cBool(ok && math.IsNaN(f)))
	}
	e["math.IsInf"] = func(it *Interp, fn *ssa.Function, a []V) V {
		f, ok := vF(a[0])
		return fromC(cBool(ok && math.IsInf(f, int(int64(a[1].c)))))
	}
	e["math.Inf"] = func(it *Interp, fn *ssa.Function, a []V) V { return concF(math.Inf(int(int64(a[0].c)))) }
	e["math.Modf"] = func(it *Interp, fn *ssa.Function, a []V) V {
		f, ok := vF(a[0])
		if !ok {
			giveUp("symbolic Modf")
		}
		x, y := math.Modf(f)
		return tup(concF(x), concF(y))
	}
	e["math.Frexp"] = func(it *Interp, fn *ssa.Function, a []V) V {
		f, ok := vF(a[0])
		if !ok {
			giveUp("symbolic Frexp")
		}
		x, y := math.Frexp(f)
		return tup(concF(x), V{c: uint64(int64(y))})
	}
	e["math.Sincos"] = func(it *Interp, fn *ssa.Function, a []V) V {
		f, ok := vF(a[0])
		if !ok {
			giveUp("symbolic Sincos")
		}
		x, y := math.Sincos(f)
		return tup(concF(x), concF(y))
	}
	cfun := func(f func(complex128) complex128) extFn {
		return func(it *Interp, fn *ssa.Function, a []V) V {
			c := cplx(a[0])
			re, o1 := vF(c.re)
			im, o2 := vF(c.im)
			if !o1 || !o2 {
				giveUp("symbolic cmplx function")
			}
			r := f(complex(re, im))
			return V{p: &Cplx{concF(real(r)), concF(imag(r))}}
		}
	}
	e["math/cmplx.Exp"] = cfun(cmplx.Exp)
	e["math/cmplx.Sqrt"] = cfun(cmplx.Sqrt)
	e["math/cmplx.Conj"] = func(it *Interp, fn *ssa.Function, a []V) V {
		c := cplx(a[0])
		return V{p: &Cplx{c.re, it.fop(subTok, concF(0), c.im)}}
	}
	e["math/cmplx.Abs"] = func(it *Interp, fn *ssa.Function, a []V) V {
		c := cplx(a[0])
		re, o1 := vF(c.re)
		im, o2 := vF(c.im)
		if !o1 || !o2 {
			giveUp("symbolic cmplx.Abs")
		}
		return concF(cmplx.Abs(complex(re, im)))
	}
	// ---- errors / strings / misc
	e["errors.New"] = func(it *Interp, fn *ssa.Function, a []V) V { return errV(asStr(a[0])) }
	e["crypto/rand.Read"] = func(it *Interp, fn *ssa.Function, a []V) V {
		s := it.sliceOf(a[0])
		for i := 0; i < s.len; i++ {
			it.store(s.o, s.off+i, V{c: uint64((i*37 + 11) & 255)})
		}
		return tup(V{c: uint64(s.len)}, V{})
	}
	e["strings.Compare"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return V{c: uint64(int64(strings.Compare(asStr(a[0]), asStr(a[1]))))}
	}
	bigExterns()
	bigFloatExterns()
	symExterns()
	shareExterns()
}

// bitsFloat marks a float carrying known bits.
type bitsFloat struct{ v V }

func (it *Interp) bitsSym(name string, s *SInt) V {
	switch name {
	case "OnesCount64", "OnesCount":
		n := s.hi.BitLen()
		r := constS(b0)
		for i := 0; i < n; i++ {
			r = sadd(r, bitOf(s, i))
		}
		return fromS(r, ITy{64, true})
	case "Len64", "Len", "Len32":
		// sum of [s >= 2^i]
		n := s.hi.BitLen()
		p := zeroPoly
		for i := 0; i < n; i++ {
			k := neg(pow2(i))
			p = padd(p, ind(cGE(paddc(s.p, k), add(s.lo, k), add(s.hi, k))))
		}
		return fromS(mkS(p, nil, bi(int64(s.lo.BitLen())), bi(int64(n))), ITy{64, true})
	case "LeadingZeros64", "LeadingZeros":
		l := toS(it.bitsSym("Len64", s), ITy{64, true})
		return fromS(ssub(constS(bi(64)), l), ITy{64, true})
	case "TrailingZeros64", "TrailingZeros":
		// sum over i of [s mod 2^i == 0], i=1..64
		p := zeroPoly
		for i := 1; i <= 64; i++ {
			r := smodc(s, pow2(i))
			p = padd(p, ind(cEQ(r.p, r.lo, r.hi)))
		}
		return fromS(mkS(p, nil, b0, bi(64)), ITy{64, true})
	}
	giveUp("symbolic bits." + name)
	return V{}
}

func (it *Interp) mathSym(name string, f *SFloat) V {
	switch name {
	case "Floor", "Round", "Trunc", "Ceil":
		g := f
		if name == "Round" {
			g = fadd(f, constF(0.5), false)
			if f.hi.Sign() <= 0 {
				giveUp("Round of negative symbolic")
			}
		}
		if g.lo.Sign() < 0 || name == "Ceil" {
			giveUp("symbolic math." + name)
		}
		s, ok := floatToInt(g)
		if !ok {
			giveUp("symbolic math." + name)
		}
		return fromF(floatFromInt(s))
	}
	// increasing functions: enclosed by the values at the bounds
	if g := map[string]func(float64) float64{"Exp": math.Exp, "Exp2": math.Exp2, "Log": math.Log, "Log2": math.Log2, "Sqrt": math.Sqrt}[name]; g != nil {
		x0, _ := f.lo.Float64()
		x1, _ := f.hi.Float64()
		y0, y1 := g(math.Nextafter(x0, math.Inf(-1))), g(math.Nextafter(x1, math.Inf(1)))
		if name == "Sqrt" && x0 == 0 {
			y0 = 0
		}
		if f64OK(y0) && f64OK(y1) {
			lo, hi := ratF(y0), ratF(y1)
			w := rmul(rmax(rabs(lo), rabs(hi)), new(big.Rat).SetFrac(b1, pow2(40)))
			hi = radd(hi, w)
			if lo = rsub(lo, w); lo.Sign() < 0 && y0 >= 0 {
				lo = new(big.Rat)
			}
			mid := rmul(radd(lo, hi), big.NewRat(1, 2))
			return fromF(&SFloat{num: constPoly(new(big.Int).Set(mid.Num())), den: new(big.Int).Set(mid.Denom()), eps: rmul(rsub(hi, lo), big.NewRat(1, 2)),
				lo: lo, hi: hi, ev: func(e *evalCtx) float64 { return g(f.val(e)) }, k: fkey("fn", name, f.k)})
		}
	}
	giveUp("symbolic math." + name)
	return V{}
}

// ---------------------------------------------------------------- math/big

var bigIntTI *TInfo

func (it *Interp) getBig(p V) *SInt {
	o, ok := p.p.(*Obj)
	if !ok || o == nil {
		it.gopanic("nil *big.Int dereference")
	}
	return toBig(o.cells[p.c])
}
func (it *Interp) setBig(p V, s *SInt) V {
	o, ok := p.p.(*Obj)
	if !ok || o == nil {
		it.gopanic("nil *big.Int receiver")
	}
	if c, ok := s.isConst(); ok && len(s.p.t) > 0 {
		if _, isC := s.p.isConst(); !isC {
			s = constS(c)
		}
	}
	it.store(o, int(p.c), V{p: s})
	return p
}
func (it *Interp) newBig(s *SInt) V {
	o := &Obj{cells: []V{{p: s}}, pat: []cellTy{{k: kBig}}, label: "big"}
	return V{p: o}
}

func cmpS(a, b *SInt) *SInt {
	c1 := sGE(a, b)
	c2 := sGE(ssub(a, constS(b1)), b)
	p := paddc(padd(ind(c1), ind(c2)), bm1)
	lo, hi := bm1, b1
	if c1 == cTrue {
		lo = b0
	}
	if c2 == cFalse {
		hi = b0
	}
	return mkS(p, nil, lo, hi)
}

func absS(a *SInt) *SInt {
	if a.lo.Sign() >= 0 {
		return a
	}
	n := ssub(constS(b0), a)
	if a.hi.Sign() <= 0 {
		return n
	}
	return iteS(sGE(a, constS(b0)), a, n)
}

// quoS: truncated division by a constant
func quoRemS(a *SInt, c *big.Int) (q, r *SInt) {
	ac := new(big.Int).Abs(c)
	if a.lo.Sign() >= 0 {
		q, r = sdivc(a, ac), smodc(a, ac)
	} else {
		n := ssub(constS(b0), a)
		if a.hi.Sign() <= 0 {
			q, r = ssub(constS(b0), sdivc(n, ac)), ssub(constS(b0), smodc(n, ac))
		} else {
			cd := sGE(a, constS(b0))
			m := new(big.Int).Set(ac)
			q = iteS(cd, clampS(sdivc(a, ac), b0, nil), clampS(ssub(constS(b0), sdivc(n, ac)), nil, b0))
			r = iteS(cd, smodc(a, m), ssub(constS(b0), smodc(n, m)))
		}
	}
	if c.Sign() < 0 {
		q = ssub(constS(b0), q)
	}
	return
}

func bigExterns() {
	B := "(*math/big.Int)."
	e := externs
	e["math/big.NewInt"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.newBig(toS(a[0], ITy{64, true}))
	}
	e[B+"SetUint64"] = func(it *Interp, fn *ssa.Function, a []V) V { return it.setBig(a[0], toS(a[1], u64T)) }
	e[B+"SetInt64"] = func(it *Interp, fn *ssa.Function, a []V) V { return it.setBig(a[0], toS(a[1], ITy{64, true})) }
	e[B+"Set"] = func(it *Interp, fn *ssa.Function, a []V) V { return it.setBig(a[0], it.getBig(a[1])) }
	e[B+"SetString"] = func(it *Interp, fn *ssa.Function, a []V) V {
		if ss, ok := a[1].p.(*symStr); ok && (a[2].c == 0 || a[2].c == 10) {
			return tup(it.setBig(a[0], ss.s), V{c: 1})
		}
		x, ok := new(big.Int).SetString(asStr(a[1]), int(int64(a[2].c)))
		if !ok {
			return tup(V{}, V{})
		}
		return tup(it.setBig(a[0], constS(x)), V{c: 1})
	}
	bin := func(f func(x, y *SInt) *SInt) extFn {
		return func(it *Interp, fn *ssa.Function, a []V) V {
			return it.setBig(a[0], f(it.getBig(a[1]), it.getBig(a[2])))
		}
	}
	e[B+"Add"] = bin(sadd)
	e[B+"Sub"] = bin(ssub)
	e[B+"Mul"] = bin(smul)
	divc := func(it *Interp, s *SInt) *big.Int {
		c, ok := s.isConst()
		if !ok {
			giveUp("big division by symbolic")
		}
		if c.Sign() == 0 {
			it.gopanic("division by zero")
		}
		return c
	}
	e[B+"Quo"] = func(it *Interp, fn *ssa.Function, a []V) V {
		q, _ := quoRemS(it.getBig(a[1]), divc(it, it.getBig(a[2])))
		return it.setBig(a[0], q)
	}
	e[B+"Rem"] = func(it *Interp, fn *ssa.Function, a []V) V {
		_, r := quoRemS(it.getBig(a[1]), divc(it, it.getBig(a[2])))
		return it.setBig(a[0], r)
	}
	e[B+"QuoRem"] = func(it *Interp, fn *ssa.Function, a []V) V {
		q, r := quoRemS(it.getBig(a[1]), divc(it, it.getBig(a[2])))
		it.setBig(a[3], r)
		it.setBig(a[0], q)
		return tup(a[0], a[3])
	}
	eu := func(x *SInt, c *big.Int) (q, r *SInt) {
		if c.Sign() > 0 {
			return sdivc(x, c), smodc(x, c)
		}
		ac := neg(c)
		return ssub(constS(b0), sdivc(x, ac)), smodc(x, ac)
	}
	e[B+"Div"] = func(it *Interp, fn *ssa.Function, a []V) V {
		q, _ := eu(it.getBig(a[1]), divc(it, it.getBig(a[2])))
		return it.setBig(a[0], q)
	}
	e[B+"Mod"] = func(it *Interp, fn *ssa.Function, a []V) V {
		_, r := eu(it.getBig(a[1]), divc(it, it.getBig(a[2])))
		return it.setBig(a[0], r)
	}
	e[B+"DivMod"] = func(it *Interp, fn *ssa.Function, a []V) V {
		q, r := eu(it.getBig(a[1]), divc(it, it.getBig(a[2])))
		it.setBig(a[3], r)
		it.setBig(a[0], q)
		return tup(a[0], a[3])
	}
	e[B+"Neg"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.setBig(a[0], ssub(constS(b0), it.getBig(a[1])))
	}
	e[B+"Abs"] = func(it *Interp, fn *ssa.Function, a []V) V { return it.setBig(a[0], absS(it.getBig(a[1]))) }
	e[B+"Cmp"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return fromS(cmpS(it.getBig(a[0]), it.getBig(a[1])), ITy{64, true})
	}
	e[B+"CmpAbs"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return fromS(cmpS(absS(it.getBig(a[0])), absS(it.getBig(a[1]))), ITy{64, true})
	}
	e[B+"Sign"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return fromS(cmpS(it.getBig(a[0]), constS(b0)), ITy{64, true})
	}
	e[B+"Uint64"] = func(it *Interp, fn *ssa.Function, a []V) V {
		// low 64 bits of |x|
		return fromS(wrap(absS(it.getBig(a[0])), u64T), u64T)
	}
	e[B+"Int64"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return fromS(wrap(it.getBig(a[0]), ITy{64, true}), ITy{64, true})
	}
	rng := func(lo, hi *big.Int) extFn {
		return func(it *Interp, fn *ssa.Function, a []V) V {
			x := it.getBig(a[0])
			return fromC(cAnd(sGE(x, constS(lo)), sGE(constS(hi), x)))
		}
	}
	l, h := u64T.rng()
	e[B+"IsUint64"] = rng(l, h)
	l, h = ITy{64, true}.rng()
	e[B+"IsInt64"] = rng(l, h)
	e[B+"Lsh"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.setBig(a[0], smul(it.getBig(a[1]), constS(pow2(int(it.concrete(a[2], u64T))))))
	}
	e[B+"Rsh"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.setBig(a[0], sdivc(it.getBig(a[1]), pow2(int(it.concrete(a[2], u64T)))))
	}
	cc := func(it *Interp, v V) *big.Int {
		c, ok := it.getBig(v).isConst()
		if !ok {
			giveUp("symbolic big.Int operand of an unsupported operation")
		}
		return c
	}
	e[B+"Exp"] = func(it *Interp, fn *ssa.Function, a []V) V {
		var m *big.Int
		if a[3].p != nil {
			m = cc(it, a[3])
		}
		x := it.getBig(a[1])
		if c, ok := x.isConst(); ok {
			return it.setBig(a[0], constS(new(big.Int).Exp(c, cc(it, a[2]), m)))
		}
		n := cc(it, a[2])
		if n.Sign() < 0 || n.BitLen() > 8 || m == nil {
			giveUp("symbolic big.Exp")
		}
		r := constS(b1)
		for i := n.BitLen() - 1; i >= 0; i-- {
			r = smodc(smul(r, r), m)
			if n.Bit(i) == 1 {
				r = smodc(smul(r, x), m)
			}
		}
		return it.setBig(a[0], r)
	}
	e[B+"ModInverse"] = func(it *Interp, fn *ssa.Function, a []V) V {
		r := new(big.Int).ModInverse(cc(it, a[1]), cc(it, a[2]))
		if r == nil {
			return V{}
		}
		return it.setBig(a[0], constS(r))
	}
	e[B+"ProbablyPrime"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return fromC(it.h.primeOracle(it, it.getBig(a[0])))
	}
	e[B+"BitLen"] = func(it *Interp, fn *ssa.Function, a []V) V {
		x := it.getBig(a[0])
		if c, ok := x.isConst(); ok {
			return V{c: uint64(c.BitLen())}
		}
		return it.bitsSym("Len64", absS(x))
	}
	e[B+"Bit"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return fromS(bitOf(it.getBig(a[0]), int(it.concrete(a[1], u64T))), u64T)
	}
	e[B+"SetBit"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.setBig(a[0], constS(new(big.Int).SetBit(cc(it, a[1]), int(a[2].c), uint(a[3].c))))
	}
	e[B+"Sqrt"] = func(it *Interp, fn *ssa.Function, a []V) V { return it.setBig(a[0], constS(new(big.Int).Sqrt(cc(it, a[1])))) }
	e[B+"GCD"] = func(it *Interp, fn *ssa.Function, a []V) V {
		var x, y *big.Int
		if a[1].p != nil {
			x = new(big.Int)
		}
		if a[2].p != nil {
			y = new(big.Int)
		}
		g := new(big.Int).GCD(x, y, cc(it, a[3]), cc(it, a[4]))
		if x != nil {
			it.setBig(a[1], constS(x))
		}
		if y != nil {
			it.setBig(a[2], constS(y))
		}
		return it.setBig(a[0], constS(g))
	}
	str := func(it *Interp, fn *ssa.Function, a []V) V {
		if c, ok := it.getBig(a[0]).isConst(); ok {
			return V{p: c.String()}
		}
		return V{p: &symStr{it.getBig(a[0])}}
	}
	e[B+"String"] = str
	e[B+"Bytes"] = func(it *Interp, fn *ssa.Function, a []V) V {
		b := cc(it, a[0]).Bytes()
		o := newObj(tinfo(types.Typ[types.Uint8]), len(b), "bytes")
		for i := range b {
			o.cells[i] = V{c: uint64(b[i])}
		}
		return V{p: &Slice{o, 0, len(b), len(b), 1}}
	}
	e[B+"SetBytes"] = func(it *Interp, fn *ssa.Function, a []V) V {
		s := it.sliceOf(a[1])
		r := constS(b0)
		for i := 0; i < s.len; i++ {
			r = sadd(smul(r, constS(bi(256))), toS(s.o.cells[s.off+i], ITy{8, false}))
		}
		return it.setBig(a[0], r)
	}
	e[B+"And"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.setBig(a[0], it.bitop(andTok, it.getBig(a[1]), it.getBig(a[2]), ITy{4096, false}))
	}
	e[B+"TrailingZeroBits"] = func(it *Interp, fn *ssa.Function, a []V) V { return V{c: uint64(cc(it, a[0]).TrailingZeroBits())} }
	_ = fmt.Sprint
}

// symStr is the decimal text of a symbolic integer.
type symStr struct{ s *SInt }
