package main

// Storage sharing: typed reachability in the interpreter's memory.

import (
	"crypto/sha256"
	"encoding/binary"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type cellPos struct {
	o *Obj
	i int
}

type reach struct {
	it   *Interp
	cell map[cellPos]bool
	maps map[*MapObj]bool
	seen map[reachKey]bool
}

type reachKey struct {
	o *Obj
	i int
	t types.Type
}

func (r *reach) region(o *Obj, off int, t types.Type) {
	k := reachKey{o, off, t}
	if o == nil || r.seen[k] {
		return
	}
	r.seen[k] = true
	ti := tinfo(t)
	for i := 0; i < ti.cells && off+i < len(o.cells); i++ {
		r.cell[cellPos{o, off + i}] = true
	}
	r.cells(t, ti, func(i int) V {
		if off+i < len(o.cells) {
			return o.cells[off+i]
		}
		return V{}
	})
}

// cells visits a value of type t whose i-th cell is get(i).
func (r *reach) cells(t types.Type, ti *TInfo, get func(int) V) {
	if isNamed(t, "math/big", "Int") || isNamed(t, "math/big", "Float") {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			off := ti.offs[i]
			r.cells(u.Field(i).Type(), ti.fields[i], func(k int) V { return get(off + k) })
		}
	case *types.Array:
		for i := 0; i < ti.n; i++ {
			off := i * ti.elem.cells
			r.cells(u.Elem(), ti.elem, func(k int) V { return get(off + k) })
		}
	case *types.Pointer:
		v := get(0)
		if o, ok := v.p.(*Obj); ok {
			r.region(o, int(v.c), u.Elem())
		}
	case *types.Slice:
		if s, ok := get(0).p.(*Slice); ok && s.o != nil {
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b != nil {
				for i := 0; i < s.cap*s.es && s.off+i < len(s.o.cells); i++ {
					r.cell[cellPos{s.o, s.off + i}] = true
				}
				return
			}
			for i := 0; i < s.cap; i++ {
				r.region(s.o, s.off+i*s.es, u.Elem())
			}
		}
	case *types.Interface:
		if i, ok := get(0).p.(*Iface); ok {
			it := tinfo(i.t)
			r.cells(i.t, it, func(k int) V {
				if it.agg {
					return i.v.p.(*Agg).f[k]
				}
				return i.v
			})
		}
	case *types.Map:
		if m, ok := get(0).p.(*MapObj); ok && !r.maps[m] {
			r.maps[m] = true
			for _, k := range m.ord {
				v := m.m[k]
				ei := tinfo(u.Elem())
				r.cells(u.Elem(), ei, func(i int) V {
					if ei.agg {
						return v.p.(*Agg).f[i]
					}
					return v
				})
			}
		}
	}
}

func (it *Interp) reachable(v V) *reach {
	r := &reach{it: it, cell: map[cellPos]bool{}, maps: map[*MapObj]bool{}, seen: map[reachKey]bool{}}
	if i, ok := v.p.(*Iface); ok {
		ti := tinfo(i.t)
		r.cells(i.t, ti, func(k int) V {
			if ti.agg {
				return i.v.p.(*Agg).f[k]
			}
			return i.v
		})
	}
	return r
}

func shareExterns() {
	e := externs
	const B2 = "golang.org/x/crypto/blake2b."
	e[B2+"NewXOF"] = func(it *Interp, fn *ssa.Function, a []V) V {
		t := fn.Pkg.Pkg.Scope().Lookup("xof").Type()
		o := newObj(tinfo(t), 1, "xof")
		it.store(o, 0, V{p: &xofState{key: string(it.concBytes(a[1]))}})
		return tup(V{p: &Iface{types.NewPointer(t), V{p: o}}}, V{})
	}
	e["(*"+B2+"xof).Read"] = func(it *Interp, fn *ssa.Function, a []V) V {
		o := a[0].p.(*Obj)
		x, ok := o.cells[0].p.(*xofState)
		if !ok {
			giveUp("XOF state")
		}
		s := it.sliceOf(a[1])
		y := *x
		for i, b := range y.read(s.len) {
			it.store(s.o, s.off+i, V{c: uint64(b)})
		}
		y.pos += s.len
		it.store(o, 0, V{p: &y})
		return tup(V{c: uint64(s.len)}, V{})
	}
	e[symPkg+"Disjoint"] = func(it *Interp, fn *ssa.Function, a []V) V {
		x, y := it.reachable(a[0]), it.reachable(a[1])
		for c := range x.cell {
			if y.cell[c] {
				return fromC(cFalse)
			}
		}
		for m := range x.maps {
			if y.maps[m] {
				return fromC(cFalse)
			}
		}
		return fromC(cTrue)
	}
	e[symPkg+"Intact"] = func(it *Interp, fn *ssa.Function, a []V) V {
		x, y := it.reachable(a[0]), it.reachable(a[1])
		var sh []cellPos
		for c := range x.cell {
			if y.cell[c] {
				sh = append(sh, c)
			}
		}
		sort.Slice(sh, func(i, j int) bool {
			if sh[i].o.id != sh[j].o.id {
				return sh[i].o.id < sh[j].o.id
			}
			return sh[i].i < sh[j].i
		})
		old := make([]V, len(sh))
		for i, c := range sh {
			old[i] = c.o.cells[c.i]
		}
		lens := map[*MapObj]int{}
		for m := range x.maps {
			if y.maps[m] {
				lens[m] = len(m.ord)
			}
		}
		it.callV(a[2], nil, nil)
		res := cTrue
		for m, n := range lens {
			if len(m.ord) != n {
				return fromC(cFalse)
			}
		}
		for i, c := range sh {
			u, v := old[i], c.o.cells[c.i]
			if u == v {
				continue
			}
			ty := c.o.ty(c.i)
			if _, isX := u.p.(*xofState); isX {
				return fromC(cFalse)
			}
			if ty.k != kInt {
				su, ok1 := u.p.(*Slice)
				sv, ok2 := v.p.(*Slice)
				if ok1 && ok2 && *su == *sv {
					continue
				}
				return fromC(cFalse)
			}
			d := ssub(toS(u, ty.it), toS(v, ty.it))
			res = cAnd(res, cEQ(d.p, d.lo, d.hi))
		}
		return fromC(res)
	}
}

// blake2b XOF: a deterministic byte stream per key (its values are never asserted).
type xofState struct {
	key string
	pos int
	blk [32]byte
}

func (x *xofState) read(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		p := x.pos + i
		var ctr [8]byte
		binary.BigEndian.PutUint64(ctr[:], uint64(p/32))
		if p%32 == 0 || i == 0 {
			x.blk = sha256.Sum256(append([]byte(x.key), ctr[:]...))
		}
		b[i] = x.blk[p%32]
	}
	return b
}
