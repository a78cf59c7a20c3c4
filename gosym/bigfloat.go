package main

// math/big.Float: concrete values use math/big itself; symbolic values are
// either an exact integer or a 53-bit value with float64 semantics.

import (
	"math"
	"math/big"

	"go/token"

	"golang.org/x/tools/go/ssa"
)

type symBF struct {
	i *SInt   // exact integer, of unlimited precision
	f *SFloat // 53-bit value
}

func (it *Interp) getBF(p V) (*big.Float, *symBF) {
	o, ok := p.p.(*Obj)
	if !ok || o == nil {
		it.gopanic("nil *big.Float dereference")
	}
	switch x := o.cells[p.c].p.(type) {
	case *big.Float:
		return x, nil
	case *symBF:
		return nil, x
	}
	return new(big.Float), nil
}

func (it *Interp) setBF(p V, f *big.Float, s *symBF) V {
	o, ok := p.p.(*Obj)
	if !ok || o == nil {
		it.gopanic("nil *big.Float receiver")
	}
	if s != nil {
		it.store(o, int(p.c), V{p: s})
	} else {
		it.store(o, int(p.c), V{p: f})
	}
	return p
}

func (it *Interp) newBF() V {
	return V{p: &Obj{cells: []V{{}}, pat: []cellTy{{k: kOther}}, label: "bigfloat"}}
}

// sym53 views an operand as a symbolic float64.
func (it *Interp) sym53(f *big.Float, s *symBF) *SFloat {
	if s == nil {
		x, acc := f.Float64()
		if acc != big.Exact {
			giveUp("big.Float: symbolic operation with a wide constant")
		}
		return constF(x)
	}
	if s.f == nil {
		giveUp("big.Float: symbolic wide integer operand")
	}
	return s.f
}

func bigFloatExterns() {
	F := "(*math/big.Float)."
	e := externs
	conc := func(v V) uint64 {
		if v.p != nil {
			giveUp("big.Float: symbolic argument")
		}
		return v.c
	}
	cp := func(f *big.Float) *big.Float { return new(big.Float).Copy(f) }
	e["math/big.NewFloat"] = func(it *Interp, fn *ssa.Function, a []V) V {
		p := it.newBF()
		if a[0].p != nil {
			return it.setBF(p, nil, &symBF{f: toF(a[0])})
		}
		return it.setBF(p, big.NewFloat(math.Float64frombits(a[0].c)), nil)
	}
	set := func(name string, g func(z *big.Float, c uint64)) {
		e[F+name] = func(it *Interp, fn *ssa.Function, a []V) V {
			z, _ := it.getBF(a[0])
			if z == nil {
				giveUp("big.Float." + name + " on a symbolic receiver")
			}
			z = cp(z)
			g(z, conc(a[1]))
			return it.setBF(a[0], z, nil)
		}
	}
	set("SetPrec", func(z *big.Float, c uint64) { z.SetPrec(uint(c)) })
	set("SetMode", func(z *big.Float, c uint64) { z.SetMode(big.RoundingMode(c)) })
	set("SetUint64", func(z *big.Float, c uint64) { z.SetUint64(c) })
	set("SetInt64", func(z *big.Float, c uint64) { z.SetInt64(int64(c)) })
	e[F+"SetFloat64"] = func(it *Interp, fn *ssa.Function, a []V) V {
		z, _ := it.getBF(a[0])
		if a[1].p != nil {
			if z != nil && z.Prec() != 0 && z.Prec() != 53 {
				giveUp("big.Float.SetFloat64 of a symbolic value at another precision")
			}
			return it.setBF(a[0], nil, &symBF{f: toF(a[1])})
		}
		if z == nil {
			z = new(big.Float).SetPrec(53)
		}
		return it.setBF(a[0], cp(z).SetFloat64(math.Float64frombits(a[1].c)), nil)
	}
	e[F+"SetInt"] = func(it *Interp, fn *ssa.Function, a []V) V {
		z, _ := it.getBF(a[0])
		x := it.getBig(a[1])
		if c, ok := x.isConst(); ok {
			if z == nil {
				giveUp("big.Float.SetInt on a symbolic receiver")
			}
			return it.setBF(a[0], cp(z).SetInt(c), nil)
		}
		if z != nil && z.Prec() != 0 {
			giveUp("big.Float.SetInt of a symbolic value at a fixed precision")
		}
		return it.setBF(a[0], nil, &symBF{i: x})
	}
	e[F+"SetString"] = func(it *Interp, fn *ssa.Function, a []V) V {
		z, _ := it.getBF(a[0])
		if z == nil {
			giveUp("big.Float.SetString on a symbolic receiver")
		}
		r, ok := cp(z).SetString(asStr(a[1]))
		if !ok {
			return tup(V{}, V{})
		}
		return tup(it.setBF(a[0], r, nil), V{c: 1})
	}
	for _, n := range []string{"Set", "Copy"} {
		n := n
		e[F+n] = func(it *Interp, fn *ssa.Function, a []V) V {
			z, _ := it.getBF(a[0])
			x, s := it.getBF(a[1])
			if s != nil {
				if n == "Set" && z != nil && z.Prec() != 0 && (s.f == nil || z.Prec() < 53) {
					giveUp("big.Float.Set of a symbolic value at another precision")
				}
				return it.setBF(a[0], nil, s)
			}
			if n == "Copy" || z == nil {
				return it.setBF(a[0], cp(x), nil)
			}
			return it.setBF(a[0], cp(z).Set(x), nil)
		}
	}
	un := func(name string, g func(z, x *big.Float), h func(f *SFloat) *SFloat, i func(x *SInt) *SInt) {
		e[F+name] = func(it *Interp, fn *ssa.Function, a []V) V {
			z, _ := it.getBF(a[0])
			x, s := it.getBF(a[1])
			if s != nil {
				if s.i != nil && i != nil {
					return it.setBF(a[0], nil, &symBF{i: i(s.i)})
				}
				if s.f == nil || h == nil {
					giveUp("big.Float." + name + " of a symbolic value")
				}
				return it.setBF(a[0], nil, &symBF{f: h(s.f)})
			}
			if z == nil {
				z = new(big.Float)
			}
			z = cp(z)
			g(z, x)
			return it.setBF(a[0], z, nil)
		}
	}
	un("Neg", func(z, x *big.Float) { z.Neg(x) }, fneg, func(x *SInt) *SInt { return ssub(constS(b0), x) })
	un("Abs", func(z, x *big.Float) { z.Abs(x) }, nil, absS)
	un("Sqrt", func(z, x *big.Float) { z.Sqrt(x) }, nil, nil)
	bin := func(name string, g func(z, x, y *big.Float), h func(it *Interp, x, y *SFloat) *SFloat) {
		e[F+name] = func(it *Interp, fn *ssa.Function, a []V) V {
			z, zs := it.getBF(a[0])
			x, s := it.getBF(a[1])
			y, t := it.getBF(a[2])
			if s == nil && t == nil {
				if z == nil {
					giveUp("big.Float." + name + " on a symbolic receiver")
				}
				z = cp(z)
				func() {
					defer func() {
						if r := recover(); r != nil {
							it.gopanic("big.Float." + name)
						}
					}()
					g(z, x, y)
				}()
				return it.setBF(a[0], z, nil)
			}
			if z != nil && z.Prec() != 53 && !(z.Prec() == 0 && (x == nil || x.Prec() <= 53) && (y == nil || y.Prec() <= 53)) {
				giveUp("big.Float." + name + " at another precision")
			}
			if zs != nil && zs.f == nil {
				giveUp("big.Float." + name + " on a wide symbolic receiver")
			}
			if h == nil {
				giveUp("big.Float." + name + " of symbolic values")
			}
			return it.setBF(a[0], nil, &symBF{f: h(it, it.sym53(x, s), it.sym53(y, t))})
		}
	}
	bin("Add", func(z, x, y *big.Float) { z.Add(x, y) }, func(it *Interp, x, y *SFloat) *SFloat { return fadd(x, y, false) })
	bin("Sub", func(z, x, y *big.Float) { z.Sub(x, y) }, func(it *Interp, x, y *SFloat) *SFloat { return fadd(x, y, true) })
	bin("Mul", func(z, x, y *big.Float) { z.Mul(x, y) }, func(it *Interp, x, y *SFloat) *SFloat { return fmul(x, y) })
	bin("Quo", func(z, x, y *big.Float) { z.Quo(x, y) }, nil)
	e[F+"Float64"] = func(it *Interp, fn *ssa.Function, a []V) V {
		x, s := it.getBF(a[0])
		if s == nil {
			f, acc := x.Float64()
			return tup(concF(f), V{c: uint64(int64(acc))})
		}
		if s.f != nil {
			return tup(fromF(s.f), V{})
		}
		return tup(fromF(floatFromInt(s.i)), V{}) // the accuracy is not modelled
	}
	e[F+"Uint64"] = func(it *Interp, fn *ssa.Function, a []V) V {
		x, _ := it.getBF(a[0])
		if x == nil {
			giveUp("big.Float.Uint64 of a symbolic value")
		}
		r, acc := x.Uint64()
		return tup(V{c: r}, V{c: uint64(int64(acc))})
	}
	e[F+"Int64"] = func(it *Interp, fn *ssa.Function, a []V) V {
		x, _ := it.getBF(a[0])
		if x == nil {
			giveUp("big.Float.Int64 of a symbolic value")
		}
		r, acc := x.Int64()
		return tup(V{c: uint64(r)}, V{c: uint64(int64(acc))})
	}
	e[F+"Int"] = func(it *Interp, fn *ssa.Function, a []V) V {
		x, s := it.getBF(a[0])
		z := a[1]
		if z.p == nil {
			z = it.newBig(constS(b0))
		}
		if s == nil {
			r, acc := x.Int(nil)
			if r == nil {
				return tup(V{}, V{c: uint64(int64(acc))})
			}
			return tup(it.setBig(z, constS(r)), V{c: uint64(int64(acc))})
		}
		if s.i != nil {
			return tup(it.setBig(z, s.i), V{})
		}
		return tup(it.setBig(z, it.f2big(s.f)), V{})
	}
	e[F+"Cmp"] = func(it *Interp, fn *ssa.Function, a []V) V {
		x, s := it.getBF(a[0])
		y, t := it.getBF(a[1])
		if s == nil && t == nil {
			return V{c: uint64(int64(x.Cmp(y)))}
		}
		p, q := it.sym53(x, s), it.sym53(y, t)
		ge, le := fcmpCond(token.GEQ, p, q), fcmpCond(token.GEQ, q, p)
		return fromS(mkS(psub(ind(ge), ind(le)), nil, bm1, b1), ITy{64, true})
	}
	e[F+"Sign"] = func(it *Interp, fn *ssa.Function, a []V) V {
		x, s := it.getBF(a[0])
		if s == nil {
			return V{c: uint64(int64(x.Sign()))}
		}
		if s.i != nil {
			return fromS(cmpS(s.i, constS(b0)), ITy{64, true})
		}
		ge, le := fcmpCond(token.GEQ, s.f, constF(0)), fcmpCond(token.GEQ, constF(0), s.f)
		return fromS(mkS(psub(ind(ge), ind(le)), nil, bm1, b1), ITy{64, true})
	}
	info := func(name string, g func(x *big.Float) uint64) {
		e[F+name] = func(it *Interp, fn *ssa.Function, a []V) V {
			x, s := it.getBF(a[0])
			if s != nil {
				if name == "Prec" && s.f != nil {
					return V{c: 53}
				}
				giveUp("big.Float." + name + " of a symbolic value")
			}
			return V{c: g(x)}
		}
	}
	info("Prec", func(x *big.Float) uint64 { return uint64(x.Prec()) })
	info("MinPrec", func(x *big.Float) uint64 { return uint64(x.MinPrec()) })
	info("Mode", func(x *big.Float) uint64 { return uint64(x.Mode()) })
	info("IsInt", func(x *big.Float) uint64 {
		if x.IsInt() {
			return 1
		}
		return 0
	})
	str := func(it *Interp, fn *ssa.Function, a []V) V {
		x, s := it.getBF(a[0])
		if s != nil {
			return V{p: "?"}
		}
		if len(a) == 3 {
			return V{p: x.Text(byte(conc(a[1])), int(int64(conc(a[2]))))}
		}
		return V{p: x.String()}
	}
	e[F+"String"], e[F+"Text"] = str, str
}
