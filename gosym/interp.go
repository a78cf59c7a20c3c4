package main

// go/ssa interpreter with symbolic scalars, path merging and forking.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type errGiveUp struct{ why string }

func giveUp(why string) { panic(errGiveUp{why}) }

type goPanic struct {
	msg  string
	val  V
	where string
}
type errCut struct{ why string } // path abandoned (infeasible or beyond a bound)
type errFork struct {            // restart with branch n forked
	n int
	c *Cond
}
type errStop struct{} // harness ended early (violation found)

type opnd struct {
	kind uint8 // 0 reg 1 const
	idx  int
	v    V
}
type cinstr struct {
	ins ssa.Instruction
	dst int
	ops []opnd
	ti  *TInfo // of the result
}
type cblock struct {
	b     *ssa.BasicBlock
	ins   []cinstr
	phis  []cinstr
	succs []*cblock
	preds []*cblock
	idx   int
	ipdom *cblock // nil = function exit
	noexit bool
	mergeRegs []int // registers to merge at the join
}
type cfunc struct {
	fn     *ssa.Function
	blocks []*cblock
	nregs  int
	regOf  map[ssa.Value]int
	rtis   []*TInfo // register types
	name   string
	retTI  *TInfo
	recov  *cblock
}

type jent struct {
	o   *Obj
	off int
	old V
}

type Interp struct {
	jtab    []*jnode
	prog    *ssa.Program
	funcs   map[*ssa.Function]*cfunc
	globals map[*ssa.Global]*Obj
	initd   map[*ssa.Package]bool
	journal []jent
	jOn     int
	steps   int64
	maxSteps int64
	depth   int
	brN     int
	decis   []decision
	decPos  int
	encl    []int // enclosing merged branch numbers
	enclC   []*Cond
	covered map[string]int
	stack   []string
	h       *Harness
	unroll  int
	nest    map[*cblock]int
	cuts    map[string]int
	mapWrites int
	assumeN int
}

type decision struct {
	n   int
	dec bool
}

func (it *Interp) compile(fn *ssa.Function) *cfunc {
	if cf, ok := it.funcs[fn]; ok {
		return cf
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	cf := &cfunc{fn: fn, regOf: map[ssa.Value]int{}, name: fn.String()}
	it.funcs[fn] = cf
	if fn.Signature.Results().Len() == 1 {
		cf.retTI = tinfo(fn.Signature.Results().At(0).Type())
	} else {
		cf.retTI = tinfo(fn.Signature.Results())
	}
	reg := func(v ssa.Value) int {
		if r, ok := cf.regOf[v]; ok {
			return r
		}
		r := cf.nregs
		cf.nregs++
		cf.regOf[v] = r
		cf.rtis = append(cf.rtis, tinfo(v.Type()))
		return r
	}
	for _, p := range fn.Params {
		reg(p)
	}
	for _, p := range fn.FreeVars {
		reg(p)
	}
	cf.blocks = make([]*cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cf.blocks[i] = &cblock{b: b, idx: i}
	}
	for i, b := range fn.Blocks {
		cb := cf.blocks[i]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, cf.blocks[s.Index])
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, cf.blocks[s.Index])
		}
		for _, ins := range b.Instrs {
			ci := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = reg(v)
				ci.ti = tinfo(v.Type())
			}
			var rands []*ssa.Value
			for _, op := range ins.Operands(rands) {
				if *op == nil {
					ci.ops = append(ci.ops, opnd{kind: 1})
					continue
				}
				ci.ops = append(ci.ops, it.operand(*op, reg))
			}
			if _, ok := ins.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
			} else if _, ok := ins.(*ssa.DebugRef); ok {
			} else {
				cb.ins = append(cb.ins, ci)
			}
		}
	}
	for _, b := range cf.blocks {
		b.lateLoads()
	}
	if fn.Recover != nil {
		cf.recov = cf.blocks[fn.Recover.Index]
	}
	cf.postdom()
	return cf
}

// lateLoads moves the loads of variables listed in a return statement behind
// its calls, the order of the Go compiler ("return v, f(&v)").
func (b *cblock) lateLoads() {
	if len(b.ins) == 0 {
		return
	}
	ret, ok := b.ins[len(b.ins)-1].ins.(*ssa.Return)
	if !ok || len(ret.Results) < 2 {
		return
	}
	last := -1
	for i, c := range b.ins {
		if _, ok := c.ins.(*ssa.Call); ok {
			last = i
		}
	}
	for i := 0; i < last; i++ {
		u, ok := b.ins[i].ins.(*ssa.UnOp)
		if !ok || u.Op != token.MUL || u.Referrers() == nil || len(*u.Referrers()) != 1 || (*u.Referrers())[0] != ssa.Instruction(ret) {
			continue
		}
		if _, ok := u.X.(*ssa.Alloc); !ok {
			continue
		}
		c := b.ins[i]
		copy(b.ins[i:last], b.ins[i+1:last+1])
		b.ins[last] = c
		i--
		last--
	}
}

func (it *Interp) operand(v ssa.Value, reg func(ssa.Value) int) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{kind: 1, v: constV(x)}
	case *ssa.Function:
		return opnd{kind: 1, v: V{p: &Closure{fn: x}}}
	case *ssa.Builtin:
		return opnd{kind: 1, v: V{p: &Closure{fn: x}}}
	case *ssa.Global:
		return opnd{kind: 1, v: V{p: it.global(x)}}
	}
	return opnd{kind: 0, idx: reg(v)}
}

func (it *Interp) global(g *ssa.Global) *Obj {
	if o, ok := it.globals[g]; ok {
		return o
	}
	o := newObj(tinfo(g.Type().(*types.Pointer).Elem()), 1, g.String())
	it.globals[g] = o
	return o
}

func constV(c *ssa.Const) V {
	ti := tinfo(c.Type())
	if c.Value == nil {
		return zeroV(ti)
	}
	switch ti.kind.k {
	case kBool:
		return fromC(cBool(constant.BoolVal(c.Value)))
	case kInt:
		v := constant.ToInt(c.Value)
		if x, ok := constant.Int64Val(v); ok {
			return V{c: uint64(x)}
		}
		if x, ok := constant.Uint64Val(v); ok {
			return V{c: x}
		}
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		return concF(f)
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return V{p: &Cplx{concF(re), concF(im)}}
	}
	if c.Value.Kind() == constant.String {
		return V{p: constant.StringVal(c.Value)}
	}
	// interface-typed or other constants
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return V{p: constant.StringVal(c.Value)}
	}
	giveUp("constant of type " + c.Type().String())
	return V{}
}

// postdom computes immediate post-dominators; blocks that cannot reach a
// return are ignored.
func (cf *cfunc) postdom() {
	n := len(cf.blocks)
	exits := map[int]bool{}
	canExit := make([]bool, n)
	for i, b := range cf.blocks {
		if len(b.ins) > 0 {
			if _, ok := b.ins[len(b.ins)-1].ins.(*ssa.Return); ok {
				exits[i] = true
				canExit[i] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i, b := range cf.blocks {
			if canExit[i] {
				continue
			}
			for _, s := range b.succs {
				if canExit[s.idx] {
					canExit[i] = true
					ch = true
				}
			}
		}
	}
	// pdom sets as bitsets
	w := (n + 63) / 64
	full := make([]uint64, w)
	for i := 0; i < n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	pd := make([][]uint64, n)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
		if exits[i] {
			pd[i] = make([]uint64, w)
			pd[i][i/64] |= 1 << (i % 64)
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if exits[i] || !canExit[i] {
				continue
			}
			nw := append([]uint64(nil), full...)
			for _, s := range cf.blocks[i].succs {
				if !canExit[s.idx] {
					continue
				}
				for k := range nw {
					nw[k] &= pd[s.idx][k]
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	count := func(x []uint64) int {
		c := 0
		for _, y := range x {
			for ; y != 0; y &= y - 1 {
				c++
			}
		}
		return c
	}
	for i, b := range cf.blocks {
		if !canExit[i] {
			b.noexit = true
			continue
		}
		best, bc := -1, -1
		for j := 0; j < n; j++ {
			if j != i && pd[i][j/64]&(1<<(j%64)) != 0 {
				// immediate: the one with the largest pdom set
				if c := count(pd[j]); c > bc {
					best, bc = j, c
				}
			}
		}
		if best >= 0 {
			b.ipdom = cf.blocks[best]
		}
	}
	// registers to merge: defined in blocks that dominate the join and lie on a
	// cycle with the branch
	for _, b := range cf.blocks {
		if len(b.succs) < 2 || b.ipdom == nil {
			continue
		}
		reach := map[*cblock]bool{}
		var dfs func(*cblock)
		dfs = func(x *cblock) {
			if x == b.ipdom || reach[x] {
				return
			}
			reach[x] = true
			for _, s := range x.succs {
				dfs(s)
			}
		}
		for _, s := range b.succs {
			dfs(s)
		}
		for x := range reach {
			if x.b.Dominates(b.ipdom.b) {
				for _, ci := range x.phis {
					b.mergeRegs = append(b.mergeRegs, ci.dst)
				}
				for _, ci := range x.ins {
					if ci.dst >= 0 {
						b.mergeRegs = append(b.mergeRegs, ci.dst)
					}
				}
			}
		}
		sort.Ints(b.mergeRegs)
	}
}

type frame struct {
	it     *Interp
	cf     *cfunc
	regs   []V
	defers []deferred
}
type deferred struct {
	fn   V
	args []V
	call *ssa.CallCommon
}

type outKind uint8

const (
	oStop outKind = iota
	oReturn
	oDead // panic or cut
)

type outcome struct {
	k    outKind
	pred *cblock
	ret  V
	phis []V
	at   *cblock
}

func (it *Interp) call(fn *ssa.Function, args, free []V) V {
	if h := lookupExternal(fn); h != nil {
		return h(it, fn, args)
	}
	cf := it.compile(fn)
	if len(cf.blocks) == 0 {
		giveUp("no body: " + fn.String())
	}
	it.covered[cf.name]++
	it.depth++
	if it.depth > 400 {
		// a candidate only: the native replay tells whether the stack really overflows
		it.gopanic("call depth (possible unbounded recursion) in %s", fn.String())
	}
	it.stack = append(it.stack, cf.name)
	defer func(n int) {
		it.depth--
		if len(it.stack) >= n {
			it.stack = it.stack[:n]
		}
	}(len(it.stack) - 1)
	fr := &frame{it: it, cf: cf, regs: make([]V, cf.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], free)
	out := fr.run(cf.blocks[0], nil, nil, nil)
	return out.ret
}

func (fr *frame) get(o opnd) V {
	if o.kind == 0 {
		return fr.regs[o.idx]
	}
	return o.v
}

func (it *Interp) gopanic(format string, a ...any) {
	panic(&goPanic{msg: fmt.Sprintf(format, a...), where: it.where()})
}
func (it *Interp) where() string {
	n := len(it.stack)
	if n > 4 {
		return strings.Join(it.stack[n-4:], " > ")
	}
	return strings.Join(it.stack, " > ")
}

// run executes from block b (entered from pred) until stop is reached or the
// function returns. phis, when non-nil, gives the values of b's phis.
func (fr *frame) run(b, pred, stop *cblock, phis []V) outcome {
	it := fr.it
	first := true
	for {
		if b == stop && !first {
			return outcome{k: oStop, pred: pred, at: b, phis: fr.phiVals(b, pred)}
		}
		if b == stop && first && phis == nil && pred != nil {
			return outcome{k: oStop, pred: pred, at: b, phis: fr.phiVals(b, pred)}
		}
		first = false
		if phis == nil && len(b.phis) > 0 {
			phis = fr.phiVals(b, pred)
		}
		for i, ci := range b.phis {
			fr.regs[ci.dst] = phis[i]
		}
		phis = nil
		it.steps += int64(len(b.ins))
		if it.steps > it.maxSteps {
			giveUp("step budget exceeded in " + fr.cf.name)
		}
		var next *cblock
		for i := range b.ins {
			ci := &b.ins[i]
			switch ins := ci.ins.(type) {
			case *ssa.Jump:
				next = b.succs[0]
			case *ssa.If:
				c := toC(fr.get(ci.ops[0]))
				if c.kind == CConst {
					if c.b {
						next = b.succs[0]
					} else {
						next = b.succs[1]
					}
					break
				}
				o := fr.branch(b, c)
				switch o.k {
				case oReturn:
					return o
				case oStop:
					if o.at == stop {
						return o
					}
					b, pred, phis = o.at, o.pred, o.phis
					if phis == nil {
						phis = []V{}
					}
				}
				goto nextBlock
			case *ssa.Return:
				fr.runDefers()
				switch len(ins.Results) {
				case 0:
					return outcome{k: oReturn}
				case 1:
					return outcome{k: oReturn, ret: fr.get(ci.ops[0])}
				}
				t := &Tuple{}
				for _, o := range ci.ops {
					t.f = append(t.f, fr.get(o))
				}
				return outcome{k: oReturn, ret: V{p: t}}
			case *ssa.Panic:
				v := fr.get(ci.ops[0])
				panic(&goPanic{msg: "panic: " + it.panicText(v), val: v, where: it.where()})
			default:
				fr.exec(ci)
			}
		}
		pred, b = b, next
	nextBlock:
	}
}

func (it *Interp) panicText(v V) string {
	if i, ok := v.p.(*Iface); ok {
		if s, ok := i.v.p.(string); ok {
			return s
		}
		if e, ok := i.v.p.(*Obj); ok && len(e.cells) > 0 {
			if s, ok := e.cells[0].p.(string); ok {
				return s
			}
		}
		return i.t.String()
	}
	return "?"
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.it.callV(d.fn, d.args, d.call)
	}
}

func (fr *frame) phiVals(b, pred *cblock) []V {
	if len(b.phis) == 0 {
		return nil
	}
	k := -1
	for i, p := range b.preds {
		if p == pred {
			k = i
			break
		}
	}
	out := make([]V, len(b.phis))
	for i := range b.phis {
		out[i] = fr.get(b.phis[i].ops[k])
	}
	return out
}

// branch handles a symbolic two-way branch at the end of b.
func (fr *frame) branch(b *cblock, c *Cond) outcome {
	it := fr.it
	// decide by facts
	if t := quickTruth(c); t >= 0 {
		return fr.run1(b, b.succs[1-t])
	}
	n := it.brN
	it.brN++
	if it.decPos < len(it.decis) && it.decis[it.decPos].n == n {
		d := it.decis[it.decPos].dec
		it.decPos++
		if d {
			assumeCond(c)
			it.checkFeasible()
			return fr.run1(b, b.succs[0])
		}
		assumeCond(cNot(c))
		it.checkFeasible()
		return fr.run1(b, b.succs[1])
	}
	if it.nest[b] > it.unroll {
		// bound on symbolic loop nesting
		it.cuts[fr.cf.name]++
		panic(errCut{"loop bound"})
	}
	it.nest[b]++
	it.encl = append(it.encl, n)
	it.enclC = append(it.enclC, c)
	defer func(k int) {
		it.nest[b]--
		it.encl = it.encl[:k]
		it.enclC = it.enclC[:k]
	}(len(it.encl) - 1)

	join := b.ipdom
	nd := len(fr.defers)
	base := append([]V(nil), fr.regs...)
	oT, memT := fr.arm(b, b.succs[0], join, c)
	regsT := fr.regs
	fr.regs = append([]V(nil), base...)
	oF, memF := fr.arm(b, b.succs[1], join, cNot(c))
	regsF := fr.regs
	if len(fr.defers) != nd {
		it.forkNow(n, c, "defer in arm")
	}
	switch {
	case oT.k == oDead && oF.k == oDead:
		panic(errCut{"both arms dead"})
	case oT.k == oDead:
		it.replay(memF)
		fr.regs = regsF
		assumeCond(cNot(c))
		return oF
	case oF.k == oDead:
		it.replay(memT)
		fr.regs = regsT
		assumeCond(c)
		return oT
	}
	if oT.k != oF.k {
		it.forkNow(n, c, "different exits")
	}
	// merge memory
	for ref, vT := range memT.cells {
		old := memT.old[ref]
		vF, ok := memF.cells[ref]
		if !ok {
			vF = old
		}
		m, ok := mergeV(c, vT, vF, ref.o.ty(ref.off))
		if !ok {
			it.forkNow(n, c, "memory cell of "+ref.o.label)
		}
		it.store(ref.o, ref.off, m)
	}
	for ref, vF := range memF.cells {
		if _, ok := memT.cells[ref]; ok {
			continue
		}
		m, ok := mergeV(c, memF.old[ref], vF, ref.o.ty(ref.off))
		if !ok {
			it.forkNow(n, c, "memory cell of "+ref.o.label)
		}
		it.store(ref.o, ref.off, m)
	}
	if oT.k == oReturn {
		if fr.cf.fn.Signature.Results().Len() == 0 {
			return oT
		}
		v, ok := mergeVT(c, oT.ret, oF.ret, fr.cf.retTI)
		if !ok {
			it.forkNow(n, c, "return value of "+fr.cf.name)
		}
		return outcome{k: oReturn, ret: v}
	}
	fr.regs = base
	for _, r := range b.mergeRegs {
		v, ok := mergeVT(c, regsT[r], regsF[r], fr.cf.rtis[r])
		if !ok {
			it.forkNow(n, c, "register in "+fr.cf.name)
		}
		fr.regs[r] = v
	}
	res := outcome{k: oStop, at: join, pred: oT.pred}
	res.phis = make([]V, len(join.phis))
	for i := range join.phis {
		v, ok := mergeVT(c, oT.phis[i], oF.phis[i], join.phis[i].ti)
		if !ok {
			it.forkNow(n, c, "phi in "+fr.cf.name)
		}
		res.phis[i] = v
	}
	return res
}

func (fr *frame) run1(b, succ *cblock) outcome {
	return outcome{k: oStop, at: succ, pred: b, phis: fr.phiValsNN(succ, b)}
}
func (fr *frame) phiValsNN(b, pred *cblock) []V {
	p := fr.phiVals(b, pred)
	if p == nil {
		p = []V{}
	}
	return p
}

// quickTruth: 1 true, 0 false, -1 unknown under the current facts
func quickTruth(c *Cond) int {
	switch c.kind {
	case CConst:
		if c.b {
			return 1
		}
		return 0
	case CGE:
		if len(c.p.t) > 2000 {
			return -1
		}
		lo, hi := c.p.bounds()
		lo, hi = factBounds(c.p, lo, hi)
		if lo.Sign() >= 0 {
			return 1
		}
		if hi.Sign() < 0 {
			return 0
		}
	case CEQ:
		if len(c.p.t) > 2000 {
			return -1
		}
		lo, hi := c.p.bounds()
		lo, hi = factBounds(c.p, lo, hi)
		if lo.Sign() > 0 || hi.Sign() < 0 {
			return 0
		}
		if lo.Sign() == 0 && hi.Sign() == 0 {
			return 1
		}
	case CNot:
		if t := quickTruth(c.x); t >= 0 {
			return 1 - t
		}
	case CAnd:
		a, b := quickTruth(c.x), quickTruth(c.y)
		if a == 0 || b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	}
	for _, p := range pcond {
		if p == c {
			return 1
		}
		if p == c.not {
			return 0
		}
	}
	return -1
}

func (it *Interp) forkNow(n int, c *Cond, why string) {
	// fork the outermost enclosing merged branch
	if len(it.encl) > 0 && it.encl[0] != n {
		panic(errFork{it.encl[0], it.enclC[0]})
	}
	panic(errFork{n, c})
}

type cellRef struct {
	o   *Obj
	off int
}
type memDelta struct {
	cells map[cellRef]V
	old   map[cellRef]V
}

// arm runs one side of a branch, then undoes its memory effects.
func (fr *frame) arm(b, succ, join *cblock, c *Cond) (out outcome, md memDelta) {
	it := fr.it
	mark := len(it.journal)
	it.jOn++
	armN++
	nf, np := len(factLog), len(pcond)
	pcond = append(pcond, c)
	pushFacts(c)
	depth, sl := it.depth, len(it.stack)
	mw := it.mapWrites
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case *goPanic:
					it.h.onPanic(it, e)
					out = outcome{k: oDead}
				case errCut:
					out = outcome{k: oDead}
				default:
					panic(r)
				}
				it.depth, it.stack = depth, it.stack[:sl]
			}
		}()
		out = fr.run(succ, b, join, nil)
	}()
	if it.mapWrites != mw && out.k != oDead {
		it.forkNow(it.encl[len(it.encl)-1], c, "map write in arm")
	}
	popFacts(nf)
	pcond = pcond[:np]
	armN--
	it.jOn--
	md.cells = map[cellRef]V{}
	md.old = map[cellRef]V{}
	for i := len(it.journal) - 1; i >= mark; i-- {
		j := it.journal[i]
		r := cellRef{j.o, j.off}
		if _, ok := md.cells[r]; !ok {
			md.cells[r] = j.o.cells[j.off]
		}
		md.old[r] = j.old
	}
	for i := len(it.journal) - 1; i >= mark; i-- {
		j := it.journal[i]
		j.o.cells[j.off] = j.old
	}
	it.journal = it.journal[:mark]
	return
}

func (it *Interp) replay(md memDelta) {
	for r, v := range md.cells {
		it.store(r.o, r.off, v)
	}
}

func (it *Interp) store(o *Obj, off int, v V) {
	if it.jOn > 0 {
		it.journal = append(it.journal, jent{o, off, o.cells[off]})
	}
	o.cells[off] = v
}

func (it *Interp) checkFeasible() {
	if len(pcond) == 0 {
		return
	}
	// cheap: skip; infeasible paths are pruned by the solver
	r, _ := smtCheck(pcond, false, 4000, 6, 5e9, false)
	if r == rUnsat {
		panic(errCut{"infeasible path"})
	}
}

// ---------------------------------------------------------------- memory

func (it *Interp) loadPtr(p V, ti *TInfo) V {
	o, ok := p.p.(*Obj)
	if !ok || o == nil {
		if p.p == nil {
			it.gopanic("nil pointer dereference")
		}
		giveUp(fmt.Sprintf("load through %T", p.p))
	}
	off := int(p.c)
	if off < 0 || off+ti.cells > len(o.cells) {
		it.gopanic("out-of-object access (%s: %d+%d of %d)", o.label, off, ti.cells, len(o.cells))
	}
	if ti.agg {
		f := make([]V, ti.cells)
		copy(f, o.cells[off:off+ti.cells])
		return V{p: &Agg{f}}
	}
	return o.cells[off]
}

func (it *Interp) storePtr(p V, v V, ti *TInfo) {
	o, ok := p.p.(*Obj)
	if !ok || o == nil {
		if p.p == nil {
			it.gopanic("nil pointer dereference")
		}
		giveUp(fmt.Sprintf("store through %T", p.p))
	}
	off := int(p.c)
	if off < 0 || off+ti.cells > len(o.cells) {
		it.gopanic("out-of-object access (%s: %d+%d of %d)", o.label, off, ti.cells, len(o.cells))
	}
	if ti.agg {
		for i, x := range v.p.(*Agg).f {
			it.store(o, off+i, x)
		}
		return
	}
	it.store(o, off, v)
}

// concInt64 forces an integer value to be concrete, forking over its range.
func (it *Interp) concrete(v V, t ITy) int64 {
	if v.p == nil {
		return int64(v.c)
	}
	s, ok := v.p.(*SInt)
	if !ok {
		giveUp("index of unexpected kind")
	}
	lo, hi := factBounds(s.p, s.lo, s.hi)
	if len(s.p.t) < 100 {
		l, h := s.p.bounds()
		lo, hi = bmax(lo, l), bmin(hi, h)
	}
	if sub(hi, lo).Cmp(bi(70)) > 0 {
		giveUp("symbolic size/index with a wide range " + s.String())
	}
	for k := new(big.Int).Set(lo); k.Cmp(hi) < 0; k = add(k, b1) {
		c := cEQ(paddc(s.p, neg(k)), sub(lo, k), sub(hi, k))
		if c.kind == CConst {
			if c.b {
				return k.Int64()
			}
			continue
		}
		if it.choose(c) {
			return k.Int64()
		}
	}
	return hi.Int64()
}

// choose forks on a condition.
func (it *Interp) choose(c *Cond) bool {
	if t := quickTruth(c); t >= 0 {
		return t == 1
	}
	n := it.brN
	it.brN++
	if it.decPos < len(it.decis) && it.decis[it.decPos].n == n {
		d := it.decis[it.decPos].dec
		it.decPos++
		if d {
			assumeCond(c)
		} else {
			assumeCond(cNot(c))
		}
		it.checkFeasible()
		return d
	}
	it.forkNow(n, c, "choose")
	return false
}

func (it *Interp) sliceOf(v V) *Slice {
	if v.p == nil {
		return &Slice{}
	}
	s, ok := v.p.(*Slice)
	if !ok {
		giveUp(fmt.Sprintf("expected slice, got %T", v.p))
	}
	return s
}

// ---------------------------------------------------------------- instructions

func (fr *frame) exec(ci *cinstr) {
	it := fr.it
	var r V
	switch ins := ci.ins.(type) {
	case *ssa.UnOp:
		r = fr.unop(ci, ins)
	case *ssa.BinOp:
		r = it.binop(ins.Op, fr.get(ci.ops[0]), fr.get(ci.ops[1]), ins.X.Type(), ins.Y.Type())
	case *ssa.Store:
		it.storePtr(fr.get(ci.ops[0]), fr.get(ci.ops[1]), tinfo(ins.Val.Type()))
		return
	case *ssa.IndexAddr:
		r = fr.indexAddr(ci, ins)
	case *ssa.FieldAddr:
		p := fr.get(ci.ops[0])
		if p.p == nil {
			it.gopanic("nil pointer dereference (field)")
		}
		st := tinfo(ins.X.Type().Underlying().(*types.Pointer).Elem())
		r = V{c: p.c + uint64(st.offs[ins.Field]), p: p.p}
	case *ssa.Field:
		a := fr.get(ci.ops[0]).p.(*Agg)
		st := tinfo(ins.X.Type())
		off := st.offs[ins.Field]
		ft := st.fields[ins.Field]
		if ft.agg {
			r = V{p: &Agg{a.f[off : off+ft.cells : off+ft.cells]}}
		} else {
			r = a.f[off]
		}
	case *ssa.Index:
		x := fr.get(ci.ops[0])
		iv := fr.get(ci.ops[1])
		if a, ok := x.p.(*Agg); ok {
			at := tinfo(ins.X.Type())
			i := int(it.concrete(iv, u64T))
			if i < 0 || i >= at.n {
				it.gopanic("index out of range [%d] with length %d", i, at.n)
			}
			e := at.elem
			if e.agg {
				r = V{p: &Agg{a.f[i*e.cells : (i+1)*e.cells]}}
			} else {
				r = a.f[i]
			}
		} else {
			s := asStr(x)
			i := int(it.concrete(iv, u64T))
			if i < 0 || i >= len(s) {
				it.gopanic("string index out of range")
			}
			r = V{c: uint64(s[i])}
		}
	case *ssa.Call:
		r = fr.callCommon(&ins.Call, ci)
	case *ssa.Alloc:
		r = V{p: newObj(tinfo(ins.Type().Underlying().(*types.Pointer).Elem()), 1, ins.Comment)}
	case *ssa.MakeSlice:
		n := int(it.concrete(fr.get(ci.ops[0]), ITy{64, true}))
		c := int(it.concrete(fr.get(ci.ops[1]), ITy{64, true}))
		e := tinfo(ins.Type().Underlying().(*types.Slice).Elem())
		if n < 0 || c < n {
			it.gopanic("makeslice: len out of range")
		}
		if c > 1<<24 {
			giveUp("allocation too large")
		}
		r = V{p: &Slice{newObj(e, c, "make"), 0, n, c, e.cells}}
	case *ssa.Slice:
		r = fr.slice(ci, ins)
	case *ssa.Convert:
		r = it.convert(fr.get(ci.ops[0]), ins.X.Type(), ins.Type())
	case *ssa.ChangeType:
		r = fr.get(ci.ops[0])
	case *ssa.MultiConvert:
		r = it.convert(fr.get(ci.ops[0]), ins.X.Type(), ins.Type())
	case *ssa.MakeInterface:
		r = V{p: &Iface{ins.X.Type(), fr.get(ci.ops[0])}}
	case *ssa.ChangeInterface:
		r = fr.get(ci.ops[0])
	case *ssa.TypeAssert:
		r = it.typeAssert(ins, fr.get(ci.ops[0]))
	case *ssa.Extract:
		r = fr.get(ci.ops[0]).p.(*Tuple).f[ins.Index]
	case *ssa.MakeClosure:
		cl := &Closure{fn: ins.Fn.(*ssa.Function)}
		for _, o := range ci.ops[1:] {
			cl.free = append(cl.free, fr.get(o))
		}
		r = V{p: cl}
	case *ssa.MakeMap:
		r = V{p: &MapObj{m: map[any]V{}, keys: map[any]V{}}}
	case *ssa.MapUpdate:
		m, ok := fr.get(ci.ops[0]).p.(*MapObj)
		if !ok {
			it.gopanic("assignment to entry in nil map")
		}
		kt := ins.Map.Type().Underlying().(*types.Map).Key()
		m.set(it.mapKeyIn(m, fr.get(ci.ops[1]), kt), fr.get(ci.ops[1]), fr.get(ci.ops[2]))
		it.mapWrites++
		return
	case *ssa.Lookup:
		r = fr.lookup(ci, ins)
	case *ssa.Range:
		x := fr.get(ci.ops[0])
		switch m := x.p.(type) {
		case *MapObj:
			mi := &mapIter{}
			for _, k := range m.ord {
				mi.ks = append(mi.ks, k)
			}
			mi.m = m
			sort.SliceStable(mi.ks, func(i, j int) bool { return fmt.Sprint(mi.ks[i]) < fmt.Sprint(mi.ks[j]) })
			r = V{p: mi}
		case nil:
			if _, ok := ins.X.Type().Underlying().(*types.Map); ok {
				r = V{p: &mapIter{}}
			} else {
				r = V{p: &strIter{}}
			}
		case string:
			r = V{p: &strIter{s: m}}
		default:
			giveUp("range over unsupported")
		}
	case *ssa.Next:
		switch m := fr.get(ci.ops[0]).p.(type) {
		case *mapIter:
			for {
				if m.i >= len(m.ks) {
					r = V{p: &Tuple{[]V{{}, {}, {}}}}
					break
				}
				k := m.ks[m.i]
				m.i++
				if v, ok := m.m.m[k]; ok {
					r = V{p: &Tuple{[]V{{c: 1}, m.m.keys[k], v}}}
					break
				}
			}
		case *strIter:
			if m.i >= len(m.s) {
				r = V{p: &Tuple{[]V{{}, {}, {}}}}
			} else {
				for j, c := range m.s[m.i:] {
					_ = j
					r = V{p: &Tuple{[]V{{c: 1}, {c: uint64(m.i)}, {c: uint64(c)}}}}
					m.i += len(string(c))
					break
				}
			}
		}
	case *ssa.Defer:
		d := deferred{call: &ins.Call}
		if ins.Call.IsInvoke() {
			giveUp("defer of interface method")
		}
		d.fn = fr.get(ci.ops[0])
		for _, o := range ci.ops[1:] {
			d.args = append(d.args, fr.get(o))
		}
		fr.defers = append(fr.defers, d)
		return
	case *ssa.RunDefers:
		fr.runDefers()
		return
	case *ssa.SliceToArrayPointer:
		s := it.sliceOf(fr.get(ci.ops[0]))
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			it.gopanic("cannot convert slice to array pointer")
		}
		r = V{c: uint64(s.off), p: s.o}
	default:
		giveUp(fmt.Sprintf("instruction %T", ci.ins))
	}
	if ci.dst >= 0 {
		fr.regs[ci.dst] = r
	}
}

type mapIter struct {
	m  *MapObj
	ks []any
	i  int
}
type strIter struct {
	s string
	i int
}

func (m *MapObj) set(k any, kv, v V) {
	if _, ok := m.m[k]; !ok {
		m.ord = append(m.ord, k)
	}
	m.m[k] = v
	m.keys[k] = kv
}
func (m *MapObj) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		delete(m.keys, k)
		for i, x := range m.ord {
			if x == k {
				m.ord = append(append([]any(nil), m.ord[:i]...), m.ord[i+1:]...)
				break
			}
		}
	}
}

type symKey struct{ s *SInt }

// mapKeyIn is mapKey for a given map: a symbolic integer key is compared with
// the keys present (forking where the comparison is open).
func (it *Interp) mapKeyIn(m *MapObj, v V, t types.Type) any {
	ti := tinfo(t)
	if ti.kind.k == kInt && m != nil {
		sym := v.p != nil
		if !sym {
			for _, k := range m.ord {
				if _, ok := k.(*symKey); ok {
					sym = true
				}
			}
		}
		if sym {
			a := toS(v, ti.kind.it)
			for _, k := range m.ord {
				c := sEQ(a, toS(m.keys[k], ti.kind.it))
				if c.kind == CConst {
					if c.b {
						return k
					}
					continue
				}
				if it.choose(c) {
					return k
				}
			}
			if v.p != nil {
				return &symKey{a}
			}
		}
	}
	return it.mapKey(v, t)
}

func (it *Interp) mapKey(v V, t types.Type) any {
	ti := tinfo(t)
	switch ti.kind.k {
	case kInt, kBool:
		if v.p != nil {
			return uint64(it.concrete(v, ti.kind.it))
		}
		return v.c
	case kPtr:
		return [2]any{v.p, v.c}
	}
	if a, ok := v.p.(*Agg); ok {
		s := ""
		for _, f := range a.f {
			if st, ok := f.p.(string); ok {
				s += "s" + st + ";"
			} else if f.p != nil {
				giveUp("symbolic map key")
			} else {
				s += fmt.Sprint(f.c) + ";"
			}
		}
		return s
	}
	if i, ok := v.p.(*Iface); ok {
		return [2]any{i.t.String(), it.mapKey(i.v, i.t)}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return asStr(v)
	}
	giveUp("map key type " + t.String())
	return nil
}

func (fr *frame) lookup(ci *cinstr, ins *ssa.Lookup) V {
	it := fr.it
	x := fr.get(ci.ops[0])
	mt, ok := ins.X.Type().Underlying().(*types.Map)
	if !ok {
		s := asStr(x)
		i := int(it.concrete(fr.get(ci.ops[1]), u64T))
		if i < 0 || i >= len(s) {
			it.gopanic("string index out of range")
		}
		return V{c: uint64(s[i])}
	}
	var v V
	found := false
	if m, ok := x.p.(*MapObj); ok {
		v, found = m.m[it.mapKeyIn(m, fr.get(ci.ops[1]), mt.Key())]
	}
	if !found {
		v = zeroV(tinfo(mt.Elem()))
	}
	if ins.CommaOk {
		return V{p: &Tuple{[]V{v, fromC(cBool(found))}}}
	}
	return v
}

func (fr *frame) unop(ci *cinstr, ins *ssa.UnOp) V {
	it := fr.it
	x := fr.get(ci.ops[0])
	switch ins.Op {
	case token.MUL:
		if st, ok := x.p.(*symPtr); ok {
			return it.loadSym(st, ci.ti)
		}
		return it.loadPtr(x, ci.ti)
	case token.NOT:
		return fromC(cNot(toC(x)))
	case token.SUB:
		switch ci.ti.kind.k {
		case kInt:
			t := ci.ti.kind.it
			if x.p == nil {
				return V{c: truncInt(-x.c, t)}
			}
			return fromS(wrap(ssub(constS(b0), toS(x, t)), t), t)
		case kFloat:
			if f, ok := vF(x); ok {
				return concF(-f)
			}
			return fromF(fneg(toF(x)))
		case kComplex:
			c := cplx(x)
			return V{p: &Cplx{it.fop(token.SUB, V{c: math.Float64bits(math.Copysign(0, -1))}, c.re), it.fop(token.SUB, V{c: math.Float64bits(math.Copysign(0, -1))}, c.im)}}
		}
	case token.XOR:
		t := ci.ti.kind.it
		if x.p == nil {
			return V{c: truncInt(^x.c, t)}
		}
		// ^x = -x-1 (signed) ; max - x (unsigned)
		s := toS(x, t)
		if t.signed {
			return fromS(ssub(constS(bm1), s), t)
		}
		_, hi := t.rng()
		return fromS(ssub(constS(hi), s), t)
	}
	giveUp("unop " + ins.String())
	return V{}
}

// symPtr is an element pointer with a symbolic index (read-only use).
type symPtr struct {
	o    *Obj
	off  int
	n    int
	es   int
	idx  *SInt
}

func (it *Interp) loadSym(p *symPtr, ti *TInfo) V {
	if ti.agg {
		giveUp("symbolic index into composite elements")
	}
	lo := int(p.idx.lo.Int64())
	hi := int(p.idx.hi.Int64())
	if r, ok := p.affine(ti, lo, hi); ok {
		return r
	}
	res := p.o.cells[p.off+lo*p.es]
	for k := lo + 1; k <= hi; k++ {
		c := cGE(paddc(p.idx.p, bi(int64(-k))), sub(p.idx.lo, bi(int64(k))), sub(p.idx.hi, bi(int64(k))))
		v := p.o.cells[p.off+k*p.es]
		m, ok := it.stepMerge(c, v, res, p.o.cells[p.off+(k-1)*p.es], ti)
		if !ok {
			giveUp("symbolic index into unmergeable elements")
		}
		res = m
	}
	return res
}

// affine is the lookup in a table of constants as a line through the first two
// entries plus one step at every entry off the line.
func (p *symPtr) affine(ti *TInfo, lo, hi int) (V, bool) {
	if ti.kind.k != kInt || hi <= lo || hi-lo > 64 {
		return V{}, false
	}
	var x []*big.Int
	mn, mx := (*big.Int)(nil), (*big.Int)(nil)
	for k := lo; k <= hi; k++ {
		v := p.o.cells[p.off+k*p.es]
		if v.p != nil {
			return V{}, false
		}
		s := toS(v, ti.kind.it)
		c := s.lo
		x = append(x, c)
		if mn == nil || c.Cmp(mn) < 0 {
			mn = c
		}
		if mx == nil || c.Cmp(mx) > 0 {
			mx = c
		}
	}
	d1 := sub(x[1], x[0])
	idx := alias(p.idx)
	r := paddc(pscale(paddc(idx.p, bi(int64(-lo))), d1), x[0])
	for k := lo + 2; k <= hi; k++ {
		d := sub(sub(x[k-lo], x[k-lo-1]), d1)
		if d.Sign() != 0 {
			c := cGE(paddc(p.idx.p, bi(int64(-k))), sub(p.idx.lo, bi(int64(k))), sub(p.idx.hi, bi(int64(k))))
			r = padd(r, pscale(ind(c), d))
		}
	}
	return fromS(mkS(r, nil, mn, mx), ti.kind.it), true
}

// stepMerge: res + [idx>=k]*(v_k - v_{k-1})
func (it *Interp) stepMerge(c *Cond, v, res, prev V, ti *TInfo) (V, bool) {
	if ti.kind.k != kInt {
		return mergeV(c, v, res, ti.kind)
	}
	t := ti.kind.it
	a, b, r := toS(v, t), toS(prev, t), toS(res, t)
	d := psub(a.p, b.p)
	p := padd(r.p, pmul(ind(c), d))
	return fromS(mkS(p, nil, bmin(a.lo, r.lo), bmax(a.hi, r.hi)), t), true
}

func (fr *frame) indexAddr(ci *cinstr, ins *ssa.IndexAddr) V {
	it := fr.it
	x := fr.get(ci.ops[0])
	iv := fr.get(ci.ops[1])
	var o *Obj
	var off, n, es int
	switch u := ins.X.Type().Underlying().(type) {
	case *types.Slice:
		s := it.sliceOf(x)
		o, off, n, es = s.o, s.off, s.len, s.es
	case *types.Pointer:
		at := tinfo(u.Elem())
		n, es = at.n, at.elem.cells
		if x.p == nil {
			it.gopanic("nil pointer dereference (array)")
		}
		var ok bool
		o, ok = x.p.(*Obj)
		if !ok {
			giveUp(fmt.Sprintf("index through %T", x.p))
		}
		off = int(x.c)
	}
	if iv.p != nil {
		s := iv.p.(*SInt)
		lo, hi := factBounds(s.p, s.lo, s.hi)
		if lo.Sign() < 0 || hi.Cmp(bi(int64(n))) >= 0 {
			// tighten with the solver
			if l, h, ok := lpBounds(s.p, 6000, func(l, h *big.Int) bool { return l.Sign() >= 0 && h.Cmp(bi(int64(n))) < 0 }); ok {
				lo, hi = bmax(lo, l), bmin(hi, h)
			}
		}
		if lo.Sign() < 0 || hi.Cmp(bi(int64(n))) >= 0 {
			inr := cAnd(cGE(s.p, lo, hi), cGE(psub(constPoly(bi(int64(n-1))), s.p), sub(bi(int64(n-1)), hi), sub(bi(int64(n-1)), lo)))
			if inr.kind != CConst || !inr.b {
				it.h.obligation(it, inr, "index out of range", &goPanic{msg: "index out of range (symbolic)", where: it.where()})
				lo, hi = bmax(lo, b0), bmin(hi, bi(int64(n-1)))
				if inr.kind == CConst {
					panic(errCut{"index"})
				}
				assumeCond(inr)
			}
		}
		if lo.Cmp(hi) == 0 {
			return V{c: uint64(off + int(lo.Int64())*es), p: o}
		}
		onlyRead := true
		if refs := ins.Referrers(); refs != nil {
			for _, r := range *refs {
				if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
					onlyRead = false
				}
			}
		}
		if onlyRead && sub(hi, lo).Cmp(bi(600)) < 0 && es == 1 {
			k := o.ty(off + int(lo.Int64()))
			if k.k == kInt || k.k == kBool || k.k == kFloat {
				return V{p: &symPtr{o: o, off: off, n: n, es: es, idx: &SInt{p: s.p, raw: s.raw, lo: lo, hi: hi}}}
			}
		}
		i := int(it.concrete(V{p: &SInt{p: s.p, lo: lo, hi: hi}}, u64T))
		return V{c: uint64(off + i*es), p: o}
	}
	i := int64(iv.c)
	if i < 0 || i >= int64(n) {
		it.gopanic("index out of range [%d] with length %d", i, n)
	}
	return V{c: uint64(off + int(i)*es), p: o}
}

func (fr *frame) slice(ci *cinstr, ins *ssa.Slice) V {
	it := fr.it
	x := fr.get(ci.ops[0])
	bnd := func(k int, v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		return int(it.concrete(fr.get(ci.ops[k]), ITy{64, true}))
	}
	switch u := ins.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := asStr(x)
		lo := bnd(1, ins.Low, 0)
		hi := bnd(2, ins.High, len(s))
		if lo < 0 || hi < lo || hi > len(s) {
			it.gopanic("slice bounds out of range")
		}
		return V{p: s[lo:hi]}
	case *types.Slice:
		s := it.sliceOf(x)
		lo := bnd(1, ins.Low, 0)
		hi := bnd(2, ins.High, s.len)
		mx := bnd(3, ins.Max, s.cap)
		if lo < 0 || hi < lo || mx < hi || mx > s.cap {
			it.gopanic("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, s.cap)
		}
		if s.o == nil {
			return V{}
		}
		return V{p: &Slice{s.o, s.off + lo*s.es, hi - lo, mx - lo, s.es}}
	case *types.Pointer:
		at := tinfo(u.Elem())
		if x.p == nil {
			it.gopanic("nil pointer dereference (slice)")
		}
		o := x.p.(*Obj)
		lo := bnd(1, ins.Low, 0)
		hi := bnd(2, ins.High, at.n)
		mx := bnd(3, ins.Max, at.n)
		if lo < 0 || hi < lo || mx < hi || mx > at.n {
			it.gopanic("slice bounds out of range")
		}
		return V{p: &Slice{o, int(x.c) + lo*at.elem.cells, hi - lo, mx - lo, at.elem.cells}}
	}
	giveUp("slice " + ins.String())
	return V{}
}

func (it *Interp) typeAssert(ins *ssa.TypeAssert, x V) V {
	i, _ := x.p.(*Iface)
	ok := false
	var v V
	if i != nil {
		if it2, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(i.t, it2)
			v = x
		} else {
			ok = types.Identical(i.t, ins.AssertedType)
			v = i.v
		}
	}
	if !ok {
		v = zeroV(tinfo(ins.AssertedType))
		if !ins.CommaOk {
			it.gopanic("interface conversion failed: %v", ins.AssertedType)
		}
	}
	if ins.CommaOk {
		return V{p: &Tuple{[]V{v, fromC(cBool(ok))}}}
	}
	return v
}

func (fr *frame) callCommon(c *ssa.CallCommon, ci *cinstr) V {
	it := fr.it
	if c.IsInvoke() {
		recv := fr.get(ci.ops[0])
		i, _ := recv.p.(*Iface)
		if i == nil {
			it.gopanic("nil interface method call %s", c.Method.Name())
		}
		fn := it.prog.LookupMethod(i.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			giveUp("method lookup " + c.Method.Name())
		}
		args := make([]V, 0, len(ci.ops))
		args = append(args, i.v)
		for _, o := range ci.ops[1:] {
			args = append(args, fr.get(o))
		}
		return it.call(fn, args, nil)
	}
	args := make([]V, len(ci.ops)-1)
	for k, o := range ci.ops[1:] {
		args[k] = fr.get(o)
	}
	return it.callV(fr.get(ci.ops[0]), args, c)
}

func (it *Interp) callV(f V, args []V, c *ssa.CallCommon) V {
	cl, ok := f.p.(*Closure)
	if !ok {
		if f.p == nil {
			it.gopanic("call of nil function")
		}
		giveUp("call of unknown value")
	}
	switch fn := cl.fn.(type) {
	case *ssa.Function:
		return it.call(fn, args, cl.free)
	case *ssa.Builtin:
		return it.builtin(fn, args, c)
	case func(*Interp, []V) V:
		return fn(it, args)
	}
	giveUp("call")
	return V{}
}

func (it *Interp) builtin(fn *ssa.Builtin, args []V, c *ssa.CallCommon) V {
	switch fn.Name() {
	case "len":
		switch x := args[0].p.(type) {
		case nil:
			return V{}
		case *Slice:
			return V{c: uint64(x.len)}
		case string:
			return V{c: uint64(len(x))}
		case *MapObj:
			return V{c: uint64(len(x.m))}
		}
	case "cap":
		return V{c: uint64(it.sliceOf(args[0]).cap)}
	case "append":
		a := it.sliceOf(args[0])
		st := c.Args[0].Type().Underlying().(*types.Slice)
		e := tinfo(st.Elem())
		var b *Slice
		if s, ok := args[1].p.(string); ok {
			o := newObj(e, len(s), "str")
			for i := range o.cells {
				o.cells[i] = V{c: uint64(s[i])}
			}
			b = &Slice{o, 0, len(s), len(s), 1}
		} else {
			b = it.sliceOf(args[1])
		}
		if b.len == 0 {
			return args[0]
		}
		n := a.len + b.len
		res := &Slice{es: e.cells, len: n}
		if n <= a.cap {
			res.o, res.off, res.cap = a.o, a.off, a.cap
		} else {
			nc := n
			if 2*a.cap > nc {
				nc = 2 * a.cap
			}
			res.o, res.cap = newObj(e, nc, "append"), nc
			if a.len > 0 {
				copy(res.o.cells, a.o.cells[a.off:a.off+a.len*e.cells])
			}
		}
		src := append([]V(nil), b.o.cells[b.off:b.off+b.len*e.cells]...)
		base := res.off + a.len*e.cells
		for i, v := range src {
			it.store(res.o, base+i, v)
		}
		return V{p: res}
	case "copy":
		d := it.sliceOf(args[0])
		var src []V
		n := d.len
		if s, ok := args[1].p.(string); ok {
			if len(s) < n {
				n = len(s)
			}
			for i := 0; i < n; i++ {
				src = append(src, V{c: uint64(s[i])})
			}
		} else {
			b := it.sliceOf(args[1])
			if b.len < n {
				n = b.len
			}
			if n > 0 {
				src = append(src, b.o.cells[b.off:b.off+n*b.es]...)
			}
		}
		for i, v := range src {
			it.store(d.o, d.off+i, v)
		}
		return V{c: uint64(n)}
	case "delete":
		if m, ok := args[0].p.(*MapObj); ok {
			m.del(it.mapKeyIn(m, args[1], c.Args[0].Type().Underlying().(*types.Map).Key()))
			it.mapWrites++
		}
		return V{}
	case "real":
		return cplx(args[0]).re
	case "imag":
		return cplx(args[0]).im
	case "complex":
		return V{p: &Cplx{args[0], args[1]}}
	case "print", "println":
		return V{}
	case "recover":
		return V{}
	case "min", "max":
		r := args[0]
		ti := tinfo(c.Args[0].Type())
		for _, a := range args[1:] {
			op := token.LSS
			if fn.Name() == "max" {
				op = token.GTR
			}
			cd := toC(it.binop(op, a, r, c.Args[0].Type(), c.Args[0].Type()))
			m, ok := mergeV(cd, a, r, ti.kind)
			if cd.kind == CConst {
				ok = true
				if cd.b {
					m = a
				} else {
					m = r
				}
			}
			if !ok {
				giveUp("min/max")
			}
			r = m
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			it.gopanic("nil pointer dereference (method value)")
		}
		return args[0]
	case "clear":
		if m, ok := args[0].p.(*MapObj); ok {
			m.m, m.keys, m.ord = map[any]V{}, map[any]V{}, nil
			it.mapWrites++
			return V{}
		}
		s := it.sliceOf(args[0])
		for i := 0; i < s.len*s.es; i++ {
			it.store(s.o, s.off+i, V{})
		}
		return V{}
	case "Add":
		// unsafe.Add
		giveUp("unsafe.Add")
	}
	giveUp("builtin " + fn.Name())
	return V{}
}

var traceOn = os.Getenv("GOSYM_TRACE") != ""
