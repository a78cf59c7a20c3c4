package main

import (
	"fmt"
	"math/big"
	"os"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "fast-ksw/zzvsym."

func (h *Harness) newVar(name string, lo, hi *big.Int) *SInt {
	h.cnt[name]++
	if n := h.cnt[name]; n > 1 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	a := newVar(name, lo, hi)
	h.vars[name] = a
	h.varOrd = append(h.varOrd, name)
	return mkS(atomPoly(a), nil, lo, hi)
}

func symExterns() {
	e := externs
	i64 := ITy{64, true}
	e[symPkg+"init"] = func(it *Interp, fn *ssa.Function, a []V) V { return V{} }
	e[symPkg+"U64"] = func(it *Interp, fn *ssa.Function, a []V) V {
		lo, hi := bu(a[1].c), bu(a[2].c)
		if lo.Cmp(hi) > 0 {
			panic(errCut{"empty range"})
		}
		return fromS(it.h.newVar(asStr(a[0]), lo, hi), u64T)
	}
	e[symPkg+"I64"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return fromS(it.h.newVar(asStr(a[0]), bi(int64(a[1].c)), bi(int64(a[2].c))), i64)
	}
	e[symPkg+"Byte"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return fromS(it.h.newVar(asStr(a[0]), b0, bi(255)), ITy{8, false})
	}
	e[symPkg+"Bool"] = func(it *Interp, fn *ssa.Function, a []V) V {
		s := it.h.newVar(asStr(a[0]), b0, b1)
		return fromC(cGE(paddc(s.p, bm1), bm1, b0))
	}
	e[symPkg+"Big"] = func(it *Interp, fn *ssa.Function, a []V) V {
		lo, ok1 := it.getBig(a[1]).isConst()
		hi, ok2 := it.getBig(a[2]).isConst()
		if !ok1 || !ok2 {
			giveUp("symbolic range")
		}
		return it.newBig(it.h.newVar(asStr(a[0]), lo, hi))
	}
	e[symPkg+"F64"] = func(it *Interp, fn *ssa.Function, a []V) V {
		s := it.h.newVar(asStr(a[0]), bi(int64(a[1].c)), bi(int64(a[2].c)))
		return fromF(fmulPow2(floatFromInt(s), 1/float64(int64(a[3].c))))
	}
	e[symPkg+"Assume"] = func(it *Interp, fn *ssa.Function, a []V) V {
		c := toC(a[0])
		if c == cTrue {
			return V{}
		}
		if c == cFalse {
			panic(errCut{"assumption"})
		}
		assumeCond(c)
		return V{}
	}
	e[symPkg+"Assert"] = func(it *Interp, fn *ssa.Function, a []V) V {
		it.h.prove(toC(a[0]), asStr(a[1]), "assert", "")
		return V{}
	}
	e[symPkg+"Cong"] = func(it *Interp, fn *ssa.Function, a []V) V {
		m, ok := it.getBig(a[2]).isConst()
		if !ok {
			giveUp("Cong with a symbolic modulus")
		}
		return fromC(mkCong(it.getBig(a[0]), it.getBig(a[1]), m))
	}
	e[symPkg+"Symbolic"] = func(it *Interp, fn *ssa.Function, a []V) V { return V{c: 1} }
	e[symPkg+"Thorough"] = func(it *Interp, fn *ssa.Function, a []V) V { return fromC(cBool(it.h.tier == "thorough")) }
	e[symPkg+"Choose"] = func(it *Interp, fn *ssa.Function, a []V) V {
		name := asStr(a[0])
		it.h.cnt[name]++
		if n := it.h.cnt[name]; n > 1 {
			name = fmt.Sprintf("%s#%d", name, n)
		}
		n := int(a[1].c)
		av := newVar("choose:"+name, b0, bi(int64(n-1)))
		k := it.concrete(fromS(mkS(atomPoly(av), nil, b0, bi(int64(n-1))), i64), i64)
		it.h.forks[name] = int(k)
		return V{c: uint64(k)}
	}
	e[symPkg+"Reached"] = func(it *Interp, fn *ssa.Function, a []V) V {
		it.h.res.Reached[asStr(a[0])]++
		return V{}
	}
	e[symPkg+"Panics"] = func(it *Interp, fn *ssa.Function, a []V) V {
		h := it.h
		h.expectPanic++
		p := false
		d, sl := it.depth, len(it.stack)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(*goPanic); ok {
						p = true
						it.depth, it.stack = d, it.stack[:sl]
						return
					}
					panic(r)
				}
			}()
			it.callV(a[0], nil, nil)
		}()
		h.expectPanic--
		return fromC(cBool(p))
	}
	e[symPkg+"Observe"] = func(it *Interp, fn *ssa.Function, a []V) V {
		it.h.obs = append(it.h.obs, it.getBig(a[0]).p)
		return V{}
	}
	e[symPkg+"ObserveU"] = func(it *Interp, fn *ssa.Function, a []V) V {
		it.h.obs = append(it.h.obs, toS(a[0], u64T).p)
		return V{}
	}
	e[symPkg+"Dump"] = func(it *Interp, fn *ssa.Function, a []V) V {
		fmt.Fprintln(os.Stderr, "DUMP", asStr(a[0]), toS(a[1], u64T))
		return V{}
	}
}

// mkCong: a = b modulo m.
func mkCong(a, b *SInt, m *big.Int) *Cond {
	d := psub(a.p, b.p)
	P := pmodc(d, m)
	if len(P.t) == 0 {
		return cTrue
	}
	if x := expandM(P, m); x != nil {
		P = x
		if len(P.t) == 0 {
			return cTrue
		}
	}
	if _, ok := P.isConst(); ok {
		return cFalse
	}
	bal := func(p *Poly) *Poly {
		out := make([]Term, len(p.t))
		h := new(big.Int).Rsh(m, 1)
		for i, t := range p.t {
			c := t.c
			if c.Cmp(h) > 0 {
				c = sub(c, m)
			}
			out[i] = Term{t.m, c}
		}
		return &Poly{t: out}
	}
	try := func(p *Poly) *Cond {
		lo, hi := p.bounds()
		if lo.Cmp(neg(m)) > 0 && hi.Cmp(m) < 0 {
			return cEQ(p, lo, hi)
		}
		return nil
	}
	if c := try(bal(P)); c != nil {
		return c
	}
	// scale so that one coefficient becomes 1
	n := 0
	for _, t := range P.t {
		if t.m == oneMono {
			continue
		}
		if n++; n > 12 {
			break
		}
		inv := new(big.Int).ModInverse(t.c, m)
		if inv == nil {
			continue
		}
		if c := try(bal(pmodc(pscale(P, inv), m))); c != nil {
			return c
		}
	}
	q := bal(P)
	lo, hi := q.bounds()
	r := remPoly(q, m, lo, hi, false)
	return cEQ(r, b0, sub(m, b1))
}
