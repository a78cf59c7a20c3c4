package main

// Values and memory of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
)

type V struct {
	c uint64
	p any
}

type ckind uint8

const (
	kInt ckind = iota
	kBool
	kFloat
	kComplex
	kPtr
	kOther
	kBig
)

type cellTy struct {
	k  ckind
	it ITy
}

type Obj struct {
	id    int
	cells []V
	pat   []cellTy // cell kinds, repeated
	label string
}

func (o *Obj) ty(i int) cellTy {
	if len(o.pat) == 0 {
		return cellTy{k: kOther}
	}
	return o.pat[i%len(o.pat)]
}

type Slice struct {
	o             *Obj
	off, len, cap int // off in cells, len/cap in elements
	es            int
}

type Agg struct{ f []V }
type Tuple struct{ f []V }
type Iface struct {
	t types.Type
	v V
}
type Closure struct {
	fn   any // *ssa.Function or *ssa.Builtin
	free []V
}
type Cplx struct{ re, im V }
type MapObj struct {
	m    map[any]V
	keys map[any]V
	ord  []any
}

type TInfo struct {
	t      types.Type
	cells  int
	pat    []cellTy
	offs   []int // struct field offsets
	elem   *TInfo
	fields []*TInfo
	n      int // array length
	agg    bool
	kind   cellTy
	zero   []V
}

var tinfoCache = map[types.Type]*TInfo{}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func tinfo(t types.Type) *TInfo {
	if ti, ok := tinfoCache[t]; ok {
		return ti
	}
	if a, ok := t.(*types.Alias); ok {
		ti := tinfo(types.Unalias(a))
		tinfoCache[t] = ti
		return ti
	}
	ti := &TInfo{t: t}
	tinfoCache[t] = ti
	if isNamed(t, "math/big", "Int") {
		ti.cells, ti.kind = 1, cellTy{k: kBig}
		ti.pat = []cellTy{ti.kind}
		ti.zero = []V{{}}
		return ti
	}
	if isNamed(t, "math/big", "Float") || isNamed(t, "math/big", "Rat") {
		ti.cells, ti.kind = 1, cellTy{k: kOther}
		ti.pat = []cellTy{ti.kind}
		ti.zero = []V{{}}
		return ti
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti.cells = 1
		ti.kind = basicKind(u)
		ti.pat = []cellTy{ti.kind}
	case *types.Struct:
		ti.agg = true
		for i := 0; i < u.NumFields(); i++ {
			f := tinfo(u.Field(i).Type())
			ti.offs = append(ti.offs, ti.cells)
			ti.fields = append(ti.fields, f)
			ti.cells += f.cells
			ti.pat = append(ti.pat, f.pat...)
		}
		ti.kind = cellTy{k: kOther}
	case *types.Array:
		ti.agg = true
		e := tinfo(u.Elem())
		ti.elem = e
		ti.n = int(u.Len())
		ti.cells = e.cells * ti.n
		for i := 0; i < ti.n; i++ {
			ti.pat = append(ti.pat, e.pat...)
		}
		ti.kind = cellTy{k: kOther}
	case *types.Pointer:
		ti.cells = 1
		ti.kind = cellTy{k: kPtr}
		ti.pat = []cellTy{ti.kind}
	case *types.Tuple:
		ti.cells = 1
		ti.kind = cellTy{k: kOther}
		ti.pat = []cellTy{ti.kind}
	default:
		ti.cells = 1
		ti.kind = cellTy{k: kOther}
		ti.pat = []cellTy{ti.kind}
	}
	ti.zero = make([]V, ti.cells)
	return ti
}

func basicKind(u *types.Basic) cellTy {
	switch u.Kind() {
	case types.Bool, types.UntypedBool:
		return cellTy{k: kBool}
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return cellTy{kInt, ITy{64, true}}
	case types.Int8:
		return cellTy{kInt, ITy{8, true}}
	case types.Int16:
		return cellTy{kInt, ITy{16, true}}
	case types.Int32:
		return cellTy{kInt, ITy{32, true}}
	case types.Uint, types.Uint64, types.Uintptr:
		return cellTy{kInt, ITy{64, false}}
	case types.Uint8:
		return cellTy{kInt, ITy{8, false}}
	case types.Uint16:
		return cellTy{kInt, ITy{16, false}}
	case types.Uint32:
		return cellTy{kInt, ITy{32, false}}
	case types.Float64, types.Float32, types.UntypedFloat:
		return cellTy{k: kFloat}
	case types.Complex128, types.Complex64, types.UntypedComplex:
		return cellTy{k: kComplex}
	case types.UnsafePointer:
		return cellTy{k: kPtr}
	}
	return cellTy{k: kOther}
}

var objN int

func newObj(ti *TInfo, n int, label string) *Obj {
	objN++
	return &Obj{id: objN, cells: make([]V, ti.cells*n), pat: ti.pat, label: label}
}

func zeroV(ti *TInfo) V {
	if ti.agg {
		return V{p: &Agg{make([]V, ti.cells)}}
	}
	return V{}
}

// scalar helpers
func asStr(v V) string {
	if v.p == nil {
		return ""
	}
	s, ok := v.p.(string)
	if !ok {
		giveUp("symbolic string")
	}
	return s
}

func toS(v V, t ITy) *SInt {
	if v.p == nil {
		if t.signed {
			return constS(bi(int64(v.c)))
		}
		return constS(bu(v.c))
	}
	s, ok := v.p.(*SInt)
	if !ok {
		giveUp(fmt.Sprintf("expected integer, got %T", v.p))
	}
	return s
}
func fromS(s *SInt, t ITy) V {
	if c, ok := s.isConst(); ok {
		return concInt(c, t)
	}
	return V{p: s}
}
func concInt(c *big.Int, t ITy) V {
	if c.IsInt64() {
		return V{c: uint64(c.Int64())}
	}
	return V{c: c.Uint64()}
}
func toBig(v V) *SInt {
	if v.p == nil {
		return constS(b0)
	}
	return v.p.(*SInt)
}
func toC(v V) *Cond {
	if v.p == nil {
		return cBool(v.c != 0)
	}
	c, ok := v.p.(*Cond)
	if !ok {
		giveUp(fmt.Sprintf("expected bool, got %T", v.p))
	}
	return c
}
func fromC(c *Cond) V {
	if c.kind == CConst {
		if c.b {
			return V{c: 1}
		}
		return V{}
	}
	return V{p: c}
}
func toF(v V) *SFloat {
	if v.p == nil {
		f := math.Float64frombits(v.c)
		if !f64OK(f) {
			giveUp("NaN/Inf mixed with symbolic float")
		}
		return constF(f)
	}
	s, ok := v.p.(*SFloat)
	if !ok {
		giveUp("arithmetic on a float given by its bits")
	}
	return s
}
func concF(f float64) V { return V{c: math.Float64bits(f)} }
func vF(v V) (float64, bool) {
	if v.p != nil {
		return 0, false
	}
	return math.Float64frombits(v.c), true
}
func fromF(s *SFloat) V {
	if s.eps.Sign() == 0 {
		if c, ok := s.num.isConst(); ok {
			f, exact := new(big.Rat).SetFrac(c, s.den).Float64()
			if exact && (f != 0) {
				return concF(f)
			}
			if c.Sign() == 0 {
				return concF(0)
			}
		}
	}
	return V{p: s}
}
func cplx(v V) *Cplx {
	if v.p == nil {
		return &Cplx{}
	}
	return v.p.(*Cplx)
}

// vIdentical reports whether two values are certainly the same.
func vIdentical(a, b V) bool {
	if a.c != b.c {
		return false
	}
	if a.p == nil && b.p == nil {
		return true
	}
	switch x := a.p.(type) {
	case *SInt:
		y, ok := b.p.(*SInt)
		return ok && (x == y || peq(x.p, y.p))
	case *Cplx:
		y, ok := b.p.(*Cplx)
		return ok && vIdentical(x.re, y.re) && vIdentical(x.im, y.im)
	case *Slice:
		y, ok := b.p.(*Slice)
		return ok && *x == *y
	case *Iface:
		y, ok := b.p.(*Iface)
		return ok && (x == y || (types.Identical(x.t, y.t) && vIdentical(x.v, y.v)))
	case *Agg:
		y, ok := b.p.(*Agg)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !vIdentical(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *Tuple:
		y, ok := b.p.(*Tuple)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !vIdentical(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.p.(*Closure)
		if !ok || x.fn != y.fn || len(x.free) != len(y.free) {
			return false
		}
		for i := range x.free {
			if !vIdentical(x.free[i], y.free[i]) {
				return false
			}
		}
		return true
	case nil:
		return false
	}
	if _, ok := b.p.(*SInt); ok {
		return false
	}
	return a.p == b.p
}

type errUnmergeable struct{ why string }

// mergeV returns ite(c,a,b).
func mergeV(c *Cond, a, b V, k cellTy) (V, bool) {
	if vIdentical(a, b) {
		return a, true
	}
	switch k.k {
	case kInt:
		return fromS(iteS(c, toS(a, k.it), toS(b, k.it)), k.it), true
	case kBig:
		return V{p: iteS(c, toBig(a), toBig(b))}, true
	case kBool:
		return fromC(cIte(c, toC(a), toC(b))), true
	case kFloat:
		for _, x := range []V{a, b} {
			if f, ok := vF(x); ok && !f64OK(f) {
				return V{}, false
			}
		}
		return V{p: iteF(c, toF(a), toF(b))}, true
	case kComplex:
		x, y := cplx(a), cplx(b)
		re, ok1 := mergeV(c, x.re, y.re, cellTy{k: kFloat})
		im, ok2 := mergeV(c, x.im, y.im, cellTy{k: kFloat})
		return V{p: &Cplx{re, im}}, ok1 && ok2
	}
	return V{}, false
}

func mergeVT(c *Cond, a, b V, ti *TInfo) (V, bool) {
	if vIdentical(a, b) {
		return a, true
	}
	if ti.agg {
		x, y := a.p.(*Agg), b.p.(*Agg)
		out := make([]V, len(x.f))
		for i := range x.f {
			v, ok := mergeV(c, x.f[i], y.f[i], ti.pat[i])
			if !ok {
				return V{}, false
			}
			out[i] = v
		}
		return V{p: &Agg{out}}, true
	}
	if tt, ok := ti.t.(*types.Tuple); ok {
		x, y := a.p.(*Tuple), b.p.(*Tuple)
		out := make([]V, len(x.f))
		for i := range x.f {
			v, ok := mergeVT(c, x.f[i], y.f[i], tinfo(tt.At(i).Type()))
			if !ok {
				return V{}, false
			}
			out[i] = v
		}
		return V{p: &Tuple{out}}, true
	}
	return mergeV(c, a, b, ti.kind)
}
