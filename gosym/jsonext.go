package main

// encoding/json as an exchange of structured values. A marshalled value is a
// short concrete token standing for a tree that keeps the symbolic leaves; text
// that is not a token is parsed as JSON. Methods of the encoded types run as code.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type jnode struct {
	kind  byte // 'o' object, 'a' array, 'i' integer, 'f' float, 's' string, 'b' bool, 'n' null
	names []string
	kids  []*jnode
	v     V
	ty    ITy
	empty bool
}

const jtok = `"ZZJSON`

func (it *Interp) jsonTok(n *jnode) V {
	it.jtab = append(it.jtab, n)
	return bytesV([]byte(fmt.Sprintf(`%s%06d"`, jtok, len(it.jtab)-1)))
}

func bytesV(b []byte) V {
	o := &Obj{cells: make([]V, len(b)), pat: []cellTy{{kInt, ITy{8, false}}}, label: "bytes"}
	for i, x := range b {
		o.cells[i] = V{c: uint64(x)}
	}
	return V{p: &Slice{o: o, len: len(b), cap: len(b), es: 1}}
}

func (it *Interp) concBytes(v V) []byte {
	s := it.sliceOf(v)
	b := make([]byte, s.len)
	for i := range b {
		c := s.o.cells[s.off+i]
		if c.p != nil {
			giveUp("JSON text with symbolic bytes")
		}
		b[i] = byte(c.c)
	}
	return b
}

func (it *Interp) jsonMethod(t types.Type, name string) *ssa.Function {
	sel := it.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return it.prog.MethodValue(sel)
}

func hasErr(v V) bool { i, _ := v.p.(*Iface); return i != nil }

// jsonEnc builds the tree of a value; ptr is non-nil when the value is addressable.
func (it *Interp) jsonEnc(t types.Type, v V, addr *V) (*jnode, V) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if v.p == nil {
			return &jnode{kind: 'n', empty: true}, V{}
		}
		if m := it.jsonMethod(t, "MarshalJSON"); m != nil {
			return it.jsonCall(m, v)
		}
		return it.jsonEnc(p.Elem(), it.loadPtr(v, tinfo(p.Elem())), &v)
	}
	if m := it.jsonMethod(t, "MarshalJSON"); m != nil {
		return it.jsonCall(m, v)
	}
	if addr != nil {
		if m := it.jsonMethod(types.NewPointer(t), "MarshalJSON"); m != nil {
			return it.jsonCall(m, *addr)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &jnode{kind: 'b', v: v, empty: v.p == nil && v.c == 0}, V{}
		case u.Info()&types.IsInteger != 0:
			return &jnode{kind: 'i', v: v, ty: basicKind(u).it, empty: v.p == nil && v.c == 0}, V{}
		case u.Info()&types.IsFloat != 0:
			if f, ok := v.p.(*SFloat); ok {
				return &jnode{kind: 'f', v: V{p: f}}, V{}
			}
			if v.p != nil {
				giveUp("JSON of this float")
			}
			if f := math.Float64frombits(v.c); math.IsNaN(f) || math.IsInf(f, 0) {
				return nil, errV("json: unsupported value")
			}
			return &jnode{kind: 'f', v: v, empty: v.c == 0}, V{}
		case u.Info()&types.IsString != 0:
			return &jnode{kind: 's', v: V{p: asStr(v)}, empty: asStr(v) == ""}, V{}
		}
	case *types.Slice:
		if v.p == nil {
			return &jnode{kind: 'n', empty: true}, V{}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			giveUp("JSON of a byte slice")
		}
		s := it.sliceOf(v)
		n := &jnode{kind: 'a', empty: s.len == 0}
		ei := tinfo(u.Elem())
		for i := 0; i < s.len; i++ {
			a := V{c: uint64(s.off + i*s.es), p: s.o}
			k, e := it.jsonEnc(u.Elem(), it.loadPtr(a, ei), &a)
			if hasErr(e) {
				return nil, e
			}
			n.kids = append(n.kids, k)
		}
		return n, V{}
	case *types.Struct:
		n := &jnode{kind: 'o'}
		ti := tinfo(t)
		ag := v.p.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Embedded() {
				giveUp("JSON of an embedded field")
			}
			if !f.Exported() {
				continue
			}
			name, opt := f.Name(), ""
			if tag := reflect.StructTag(u.Tag(i)).Get("json"); tag != "" {
				q := strings.SplitN(tag, ",", 2)
				if q[0] == "-" {
					continue
				}
				if q[0] != "" {
					name = q[0]
				}
				if len(q) > 1 {
					opt = q[1]
				}
			}
			if opt != "" && opt != "omitempty" {
				giveUp("JSON option " + opt)
			}
			fi := ti.fields[i]
			var fv V
			if fi.agg {
				fv = V{p: &Agg{append([]V{}, ag.f[ti.offs[i]:ti.offs[i]+fi.cells]...)}}
			} else {
				fv = ag.f[ti.offs[i]]
			}
			var fa *V
			if addr != nil {
				fa = &V{c: addr.c + uint64(ti.offs[i]), p: addr.p}
			}
			k, e := it.jsonEnc(f.Type(), fv, fa)
			if hasErr(e) {
				return nil, e
			}
			if opt == "omitempty" {
				if k.v.p != nil && k.kind != 's' {
					giveUp("omitempty of a symbolic value")
				}
				if k.empty {
					continue
				}
			}
			n.names = append(n.names, name)
			n.kids = append(n.kids, k)
		}
		return n, V{}
	}
	giveUp("JSON encoding of " + t.String())
	return nil, V{}
}

func (it *Interp) jsonCall(m *ssa.Function, recv V) (*jnode, V) {
	r := it.call(m, []V{recv}, nil).p.(*Tuple)
	if hasErr(r.f[1]) {
		return nil, r.f[1]
	}
	n, err := it.jsonParse(it.concBytes(r.f[0]))
	if err != nil {
		return nil, errV("json: error calling MarshalJSON")
	}
	return n, V{}
}

func (it *Interp) jsonParse(b []byte) (*jnode, error) {
	b = bytes.TrimSpace(b)
	if !json.Valid(b) {
		return nil, fmt.Errorf("invalid JSON")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return it.jsonVal(d)
}

func (it *Interp) jsonVal(d *json.Decoder) (*jnode, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case nil:
		return &jnode{kind: 'n'}, nil
	case bool:
		v := V{}
		if x {
			v.c = 1
		}
		return &jnode{kind: 'b', v: v}, nil
	case string:
		if strings.HasPrefix(x, jtok[1:]) {
			if i, e := strconv.Atoi(x[len(jtok)-1:]); e == nil && i < len(it.jtab) {
				return it.jtab[i], nil
			}
		}
		return &jnode{kind: 's', v: V{p: x}}, nil
	case json.Number:
		return &jnode{kind: '#', v: V{p: string(x)}}, nil
	case json.Delim:
		n := &jnode{kind: 'a'}
		if x == '{' {
			n.kind = 'o'
		}
		for d.More() {
			if n.kind == 'o' {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				n.names = append(n.names, k.(string))
			}
			c, err := it.jsonVal(d)
			if err != nil {
				return nil, err
			}
			n.kids = append(n.kids, c)
		}
		_, err := d.Token()
		return n, err
	}
	return nil, fmt.Errorf("JSON token")
}

// jsonDec stores a tree through a pointer to type t; it returns an error text.
func (it *Interp) jsonDec(n *jnode, t types.Type, ptr V) V {
	ti := tinfo(t)
	bad := func() V { return errV("json: cannot unmarshal") }
	if m := it.jsonMethod(types.NewPointer(t), "UnmarshalJSON"); m != nil {
		if n.kind == 'n' {
			if _, isP := t.Underlying().(*types.Pointer); isP {
				it.storePtr(ptr, zeroV(ti), ti)
				return V{}
			}
		}
		return it.call(m, []V{ptr, it.jsonTok(n)}, nil)
	}
	if n.kind == 'n' {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			it.storePtr(ptr, zeroV(ti), ti)
		}
		return V{}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		cur := it.loadPtr(ptr, ti)
		if cur.p == nil {
			cur = V{p: newObj(tinfo(u.Elem()), 1, "json")}
			it.storePtr(ptr, cur, ti)
		}
		return it.jsonDec(n, u.Elem(), cur)
	case *types.Basic:
		k := ti.kind
		switch {
		case k.k == kBool && n.kind == 'b', u.Info()&types.IsString != 0 && n.kind == 's':
			it.storePtr(ptr, n.v, ti)
			return V{}
		case k.k == kInt && n.kind == 'i':
			s := toS(n.v, n.ty)
			lo, hi := k.it.rng()
			if s.lo.Cmp(lo) < 0 || s.hi.Cmp(hi) > 0 {
				giveUp("JSON integer range")
			}
			it.storePtr(ptr, fromS(s, k.it), ti)
			return V{}
		case k.k == kInt && n.kind == '#':
			x, ok := new(big.Int).SetString(n.v.p.(string), 10)
			if !ok {
				return bad()
			}
			lo, hi := k.it.rng()
			if x.Cmp(lo) < 0 || x.Cmp(hi) > 0 {
				return bad()
			}
			it.storePtr(ptr, fromS(constS(x), k.it), ti)
			return V{}
		case k.k == kFloat && n.kind == 'f':
			it.storePtr(ptr, n.v, ti)
			return V{}
		case k.k == kFloat && n.kind == '#':
			f, err := strconv.ParseFloat(n.v.p.(string), 64)
			if err != nil {
				return bad()
			}
			it.storePtr(ptr, V{c: math.Float64bits(f)}, ti)
			return V{}
		case (k.k == kFloat && n.kind == 'i') || (k.k == kInt && n.kind == 'f'):
			giveUp("JSON number kinds differ")
		}
		return bad()
	case *types.Slice:
		if n.kind != 'a' {
			return bad()
		}
		ei := tinfo(u.Elem())
		o := newObj(ei, len(n.kids), "json")
		for i, k := range n.kids {
			if e := it.jsonDec(k, u.Elem(), V{c: uint64(i * ei.cells), p: o}); hasErr(e) {
				return e
			}
		}
		it.storePtr(ptr, V{p: &Slice{o: o, len: len(n.kids), cap: len(n.kids), es: ei.cells}}, ti)
		return V{}
	case *types.Struct:
		if n.kind != 'o' {
			return bad()
		}
		var first V
		for j, name := range n.names {
			fi := -1
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if !f.Exported() || f.Embedded() {
					continue
				}
				fn := f.Name()
				if tag := strings.SplitN(reflect.StructTag(u.Tag(i)).Get("json"), ",", 2)[0]; tag != "" {
					if tag == "-" {
						continue
					}
					fn = tag
				}
				if fn == name {
					fi = i
					break
				}
				if fi < 0 && strings.EqualFold(fn, name) {
					fi = i
				}
			}
			if fi < 0 {
				continue
			}
			e := it.jsonDec(n.kids[j], u.Field(fi).Type(), V{c: ptr.c + uint64(ti.offs[fi]), p: ptr.p})
			if hasErr(e) && !hasErr(first) {
				first = e
			}
		}
		return first
	}
	giveUp("JSON decoding into " + t.String())
	return V{}
}

func init() {
	e := externs
	e["encoding/json.Marshal"] = func(it *Interp, fn *ssa.Function, a []V) V {
		i, _ := a[0].p.(*Iface)
		if i == nil {
			return tup(bytesV([]byte("null")), V{})
		}
		n, err := it.jsonEnc(i.t, i.v, nil)
		if hasErr(err) {
			return tup(V{}, err)
		}
		return tup(it.jsonTok(n), V{})
	}
	e["encoding/json.Unmarshal"] = func(it *Interp, fn *ssa.Function, a []V) V {
		b := it.concBytes(a[0])
		n, err := it.jsonParse(b)
		if err != nil {
			return errV("json: " + err.Error())
		}
		i, _ := a[1].p.(*Iface)
		if i == nil || i.v.p == nil {
			return errV("json: InvalidUnmarshalError")
		}
		p, ok := i.t.Underlying().(*types.Pointer)
		if !ok {
			return errV("json: InvalidUnmarshalError")
		}
		return it.jsonDec(n, p.Elem(), i.v)
	}
	e["encoding/json.Valid"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return fromC(cBool(json.Valid(it.concBytes(a[0]))))
	}
}
