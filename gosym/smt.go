package main

// SMT back end: one long-lived z3 process, queries as text.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	bin  string
	args []string
}

type Stats struct {
	Queries, LPQueries, CacheHits  int
	Unsat, Sat, Unknown            int
	SolverTime                     time.Duration
	ProvedNF, ProvedSMT, Undecided int
	Violated                       int
}

var stats Stats
var solver *Solver

func z3bin() string {
	for _, b := range []string{"/usr/local/bin/z3-new", "/usr/bin/z3"} {
		if _, err := os.Stat(b); err == nil {
			return b
		}
	}
	return "z3"
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "solver:", err)
		os.Exit(2)
	}
}
func (s *Solver) stop() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// ask sends text followed by an echo sentinel and returns the lines printed.
func (s *Solver) ask(text string, timeout time.Duration) (lines []string, ok bool) {
	if s.cmd == nil {
		s.start()
	}
	t0 := time.Now()
	defer func() { stats.SolverTime += time.Since(t0) }()
	var fired int32
	cmd := s.cmd
	tm := time.AfterFunc(timeout, func() { atomic.StoreInt32(&fired, 1); cmd.Process.Kill() })
	defer tm.Stop()
	if debugSMT {
		os.WriteFile("/tmp/gosym_last.smt2", []byte(text), 0644)
	}
	_, err := io.WriteString(s.in, text+"\n(echo \"@@done\")\n")
	for err == nil {
		var l string
		l, err = s.out.ReadString('\n')
		l = strings.TrimRight(l, "\n")
		if l == "@@done" || l == "\"@@done\"" {
			return lines, true
		}
		if l != "" {
			lines = append(lines, l)
		}
	}
	s.stop()
	return lines, false
}

var debugSMT = os.Getenv("GOSYM_SMT") != ""

// ---------------------------------------------------------------- emission

type emitter struct {
	real   bool // LP mode
	nia    bool
	names  map[*Mono]string
	aname  map[*Atom]string
	decls  strings.Builder
	defs   strings.Builder
	queue  []*Atom
	qdepth map[*Atom]int
	budget int
	maxDep int
	cut    int // definitions left out
	condNm map[*Cond]string
	vars   []*Atom
	vnames []string
	elim   map[*Mono]string
	thr    map[*Atom]map[string]string
}

func newEmitter(real, nia bool, budget, maxDep int) *emitter {
	return &emitter{real: real, nia: nia, names: map[*Mono]string{}, aname: map[*Atom]string{},
		qdepth: map[*Atom]int{}, budget: budget, maxDep: maxDep, condNm: map[*Cond]string{}}
}

func num(c *big.Int) string {
	if c.Sign() < 0 {
		return "(- " + new(big.Int).Neg(c).String() + ")"
	}
	return c.String()
}

func (e *emitter) sort() string {
	if e.real {
		return "Real"
	}
	return "Int"
}

func (e *emitter) atom(a *Atom, dep int) string {
	if n, ok := e.aname[a]; ok {
		return n
	}
	n := fmt.Sprintf("a%d", len(e.aname))
	e.aname[a] = n
	fmt.Fprintf(&e.decls, "(declare-const %s %s)(assert (<= %s %s %s))\n", n, e.sort(), num(a.lo), n, num(a.hi))
	e.queue = append(e.queue, a)
	e.qdepth[a] = dep
	e.vars = append(e.vars, a)
	e.vnames = append(e.vnames, n)
	return n
}

func (e *emitter) mono(m *Mono, dep int) string {
	if n, ok := e.names[m]; ok {
		return n
	}
	if len(m.atoms) == 1 {
		n := e.atom(m.atoms[0], dep)
		e.names[m] = n
		return n
	}
	n := fmt.Sprintf("m%d", len(e.names))
	e.names[m] = n
	lo, hi := m.bounds()
	fmt.Fprintf(&e.decls, "(declare-const %s %s)(assert (<= %s %s %s))\n", n, e.sort(), num(lo), n, num(hi))
	if e.real {
		return n
	}
	if e.nia {
		var sb strings.Builder
		for _, a := range m.atoms {
			sb.WriteString(" " + e.atom(a, dep))
		}
		fmt.Fprintf(&e.defs, "(assert (= %s (*%s)))\n", n, sb.String())
		return n
	}
	// linearise one indicator
	for i, a := range m.atoms {
		if a.kind == AInd {
			rest := append(append([]*Atom(nil), m.atoms[:i]...), m.atoms[i+1:]...)
			r := e.mono(internMono(rest), dep)
			in := e.atom(a, dep)
			fmt.Fprintf(&e.defs, "(assert (= %s (ite (= %s 1) %s 0)))\n", n, in, r)
			break
		}
	}
	return n
}

func (e *emitter) poly(p *Poly, dep int) string {
	if len(p.t) == 0 {
		return "0"
	}
	e.budget -= len(p.t)
	var sb strings.Builder
	if len(p.t) > 1 {
		sb.WriteString("(+")
	}
	for _, t := range p.t {
		if len(p.t) > 1 {
			sb.WriteString(" ")
		}
		if t.m == oneMono {
			sb.WriteString(num(t.c))
			continue
		}
		n := e.mono(t.m, dep)
		if t.c.IsInt64() && t.c.Int64() == 1 {
			sb.WriteString(n)
		} else {
			sb.WriteString("(* " + num(t.c) + " " + n + ")")
		}
	}
	if len(p.t) > 1 {
		sb.WriteString(")")
	}
	return sb.String()
}

func (e *emitter) cond(c *Cond, dep int) string {
	switch c.kind {
	case CConst:
		if c.b {
			return "true"
		}
		return "false"
	case CGE:
		return "(>= " + e.poly(c.p, dep) + " 0)"
	case CEQ:
		return "(= " + e.poly(c.p, dep) + " 0)"
	case CNot:
		return "(not " + e.cond(c.x, dep) + ")"
	case CAnd, COr:
		if n, ok := e.condNm[c]; ok {
			return n
		}
		op := "and"
		if c.kind == COr {
			op = "or"
		}
		x := e.cond(c.x, dep)
		y := e.cond(c.y, dep)
		n := fmt.Sprintf("c%d", len(e.condNm))
		e.condNm[c] = n
		fmt.Fprintf(&e.defs, "(declare-const %s Bool)(assert (= %s (%s %s %s)))\n", n, n, op, x, y)
		return n
	}
	if c.kind == CFlt {
		if n, ok := e.condNm[c]; ok {
			return n
		}
		n := fmt.Sprintf("c%d", len(e.condNm))
		e.condNm[c] = n
		p := e.poly(c.fl.num, dep)
		r := new(big.Rat).Mul(c.fl.eps, new(big.Rat).SetInt(c.fl.den))
		up := add(new(big.Int).Quo(r.Num(), r.Denom()), b1)
		fmt.Fprintf(&e.defs, "(declare-const %s Bool)(assert (=> %s (>= %s (- %s))))(assert (=> (not %s) (<= %s %s)))\n", n, n, p, num(up), n, p, num(up))
		return n
	}
	return "true"
}

// threshold relates the indicator of "x >= k" to the atom x in the linear
// relaxation; with all thresholds of x present, x is their sum.
func (e *emitter) threshold(a *Atom, d int) {
	c := a.cond
	if c.kind != CGE || len(c.p.t) > 2 || d >= e.maxDep {
		return
	}
	k := new(big.Int)
	var x *Atom
	for _, t := range c.p.t {
		switch {
		case t.m == oneMono:
			k = neg(t.c)
		case len(t.m.atoms) == 1 && t.c.IsInt64() && t.c.Int64() == 1:
			x = t.m.atoms[0]
		default:
			return
		}
	}
	if x == nil || sub(x.hi, x.lo).Cmp(bi(64)) > 0 || k.Cmp(x.lo) <= 0 || k.Cmp(x.hi) > 0 {
		return
	}
	n, i := e.atom(x, d), e.aname[a]
	// i = 1 => x >= k ; i = 0 => x <= k-1
	fmt.Fprintf(&e.defs, "(assert (>= (- %s %s) (* %s %s)))(assert (<= %s (+ %s (* %s %s))))\n", n, num(x.lo), num(sub(k, x.lo)), i,
		n, num(sub(k, b1)), num(add(sub(x.hi, k), b1)), i)
	if e.thr == nil {
		e.thr = map[*Atom]map[string]string{}
	}
	if e.thr[x] == nil {
		e.thr[x] = map[string]string{}
	}
	e.thr[x][k.String()] = i
	if w := sub(x.hi, x.lo); w.Int64() == int64(len(e.thr[x])) {
		s := "(+ 0"
		ys := []string{}
		for _, y := range e.thr[x] {
			ys = append(ys, y)
		}
		sort.Strings(ys)
		for _, y := range ys {
			s += " " + y
		}
		fmt.Fprintf(&e.defs, "(assert (= (- %s %s) %s)))\n", n, num(x.lo), s)
	}
}

// drain emits the definitions of the atoms reached so far.
func (e *emitter) drain() {
	for i := 0; i < len(e.queue); i++ {
		a := e.queue[i]
		d := e.qdepth[a]
		switch a.kind {
		case ADiv:
			if d >= e.maxDep || len(a.P.t) > e.budget {
				e.cut++
				continue
			}
			n := e.aname[a]
			p := e.poly(a.P, d+1)
			fmt.Fprintf(&e.defs, "(assert (<= (* %s %s) %s))(assert (<= %s (+ (* %s %s) %s)))\n", num(a.m), n, p, p, num(a.m), n, num(sub(a.m, b1)))
		case ADef:
			if d+4 > e.maxDep || len(a.P.t) > e.budget {
				e.cut++
				continue
			}
			fmt.Fprintf(&e.defs, "(assert (= %s %s))\n", e.aname[a], e.poly(a.P, d+1))
		case AInd:
			if e.real {
				e.threshold(a, d)
				continue
			}
			if d >= e.maxDep {
				e.cut++
				continue
			}
			fmt.Fprintf(&e.defs, "(assert (= (= %s 1) %s))\n", e.aname[a], e.cond(a.cond, d+1))
		case AFloor:
			n := e.aname[a]
			f := a.fl
			// den*v <= num + den*eps ; den*v >= num - den*eps - den
			p := e.poly(f.num, d+1)
			en := new(big.Rat).Mul(f.eps, new(big.Rat).SetInt(f.den))
			up := new(big.Int).Quo(en.Num(), en.Denom())
			up.Add(up, b1)
			if a.split {
				if !e.real {
					fmt.Fprintf(&e.defs, "(assert (or (= %s 0) (<= (* %s %s) (+ %s %s))))", n, num(f.den), n, p, num(up))
				}
				fmt.Fprintf(&e.defs, "(assert (>= (+ (* %s %s) %s %s) %s))\n", num(f.den), n, num(f.den), num(up), p)
				continue
			}
			fmt.Fprintf(&e.defs, "(assert (<= (* %s %s) (+ %s %s)))(assert (>= (+ (* %s %s) %s %s) %s))\n", num(f.den), n, p, num(up), num(f.den), n, num(f.den), num(up), p)
		}
	}
}

// ---------------------------------------------------------------- LP bounds

type lpRes struct {
	lo, hi *big.Int
	ok     bool
}

var lpCache = map[string]lpRes{}

// lpBounds returns integer bounds of P derived by the solver from the
// definitions of the atoms it reaches (linear relaxation over the reals).
func lpBounds(P *Poly, budget int, good func(lo, hi *big.Int) bool) (lo, hi *big.Int, ok bool) {
	c := P.constTerm()
	D := P.dropConst()
	if len(D.t) == 0 {
		return c, c, true
	}
	if l, h := elimBounds(D, func(l, h *big.Int) bool { return good(add(l, c), add(h, c)) }); l != nil {
		lo, hi, ok = add(l, c), add(h, c), true
		if good(lo, hi) {
			return
		}
	}
	for _, n := range []int{8, 64} {
		if l, h := sampleRange(D, n); l != nil && !good(add(l, c), add(h, c)) {
			return
		}
	}
	if os.Getenv("GOSYM_LP") != "" {
		l0, h0, t0, q0 := lo, hi, time.Now(), stats.LPQueries
		defer func() {
			fmt.Fprintln(os.Stderr, "LP", len(D.t), "terms; elim", l0, h0, "lp", lo, hi, "good", ok && good(lo, hi), "queries", stats.LPQueries-q0, time.Since(t0), curWhere(), D)
		}()
	}
	where := whereKey()
	for i, dep := range []int{2, 5, 12} {
		// a place where this kind of question has never been answered
		t := &lpTrack[where][i]
		if budget <= 3000 && t.good == 0 && t.bad >= 10 {
			continue
		}
		e := newEmitter(true, false, budget, dep)
		obj := e.poly(D, 0)
		e.drain()
		r := lpSolve(obj, e.decls.String()+e.defs.String(), []int{2000, 4000, 8000}[i])
		if r.ok {
			l, h := add(r.lo, c), add(r.hi, c)
			if lo != nil {
				l, h = bmax(l, lo), bmin(h, hi)
			}
			lo, hi, ok = l, h, true
			if good(l, h) {
				t.good++
				break
			}
		}
		t.bad++
		if e.cut == 0 {
			break
		}
	}
	return
}

type lpCount struct{ good, bad int }

// lpTrack counts, per place in the code and depth, how often the solver's
// bounds decided the question.
var lpTrack = map[string]*[3]lpCount{}

// whereKey names the place where the code under test is.
func whereKey() string {
	w := curWhere()
	if i := strings.LastIndex(w, " > "); i >= 0 {
		if j := strings.LastIndex(w[:i], " > "); j >= 0 {
			w = w[j+3:]
		}
	}
	if lpTrack[w] == nil {
		lpTrack[w] = &[3]lpCount{}
	}
	return w
}

func lpSolve(obj, body string, ms int) lpRes {
	key := obj + "\n" + body
	r, hit := lpCache[key]
	if hit {
		stats.CacheHits++
		return r
	}
	stats.LPQueries++
	stats.Queries++
	var sb strings.Builder
	fmt.Fprintf(&sb, "(reset)(set-option :opt.priority box)(set-option :timeout %d)\n", ms)
	sb.WriteString(body)
	fmt.Fprintf(&sb, "(declare-const obj Real)(assert (= obj %s))(minimize obj)(maximize obj)(check-sat)(get-objectives)", obj)
	t0 := time.Now()
	lines, fine := solver.ask(sb.String(), time.Duration(ms+3000)*time.Millisecond)
	if d := time.Since(t0); d > 2*time.Second && os.Getenv("GOSYM_DEBUG") != "" {
		f := fmt.Sprintf("/tmp/slow-%d.smt2", stats.LPQueries)
		os.WriteFile(f, []byte(sb.String()), 0644)
		fmt.Fprintln(os.Stderr, "SLOW LP", d, f, curWhere())
	}
	if fine {
		txt := strings.Join(lines, " ")
		if strings.HasPrefix(txt, "sat") && !strings.Contains(txt, "(error") {
			vals := parseObjectives(txt[3:])
			if len(vals) == 2 && vals[0] != nil && vals[1] != nil {
				// lower: ceil(min), upper: floor(max)
				a := vals[0]
				l := floorDiv(add(a.Num(), sub(a.Denom(), b1)), a.Denom())
				h := floorDiv(vals[1].Num(), vals[1].Denom())
				r = lpRes{l, h, true}
			}
		}
	}
	lpCache[key] = r
	return r
}

// sampleRange evaluates D on a few admissible inputs: bounds that no input set
// can satisfy are not worth asking the solver for.
func sampleRange(D *Poly, n int) (lo, hi *big.Int) {
	if curHarness == nil {
		return nil, nil
	}
next:
	for _, e := range curHarness.contexts(n) {
		for _, p := range pcond {
			if !e.cond(p) {
				continue next
			}
		}
		for _, t := range D.t {
			for _, a := range t.m.atoms {
				x := e.atom(a)
				if x.Cmp(a.lo) < 0 || x.Cmp(a.hi) > 0 {
					continue next
				}
			}
		}
		x := e.poly(D)
		if lo == nil {
			lo, hi = x, x
		} else {
			lo, hi = bmin(lo, x), bmax(hi, x)
		}
	}
	return
}

var curHarness *Harness

// elimBounds bounds D by replacing division atoms, newest first, by their
// definition a = (P - r)/m with 0 <= r < m, and bounding what remains.
func elimBounds(D *Poly, good func(lo, hi *big.Int) bool) (lo, hi *big.Int) {
	if len(D.t) > 400 {
		return nil, nil
	}
	c := map[*Mono]*big.Rat{}
	for _, t := range D.t {
		c[t.m] = new(big.Rat).SetInt(t.c)
	}
	slo, shi := new(big.Rat), new(big.Rat)
	for n := 0; n < 24; n++ {
		// bounds of the current form
		l, h := new(big.Rat).Set(slo), new(big.Rat).Set(shi)
		var pick *Mono
		for m, k := range c {
			a, b := m.bounds()
			x, y := new(big.Rat).SetInt(a), new(big.Rat).SetInt(b)
			x.Mul(x, k)
			y.Mul(y, k)
			if k.Sign() < 0 {
				x, y = y, x
			}
			l.Add(l, x)
			h.Add(h, y)
			if len(m.atoms) == 1 {
				at := m.atoms[0]
				if at.kind == ADiv && sub(at.hi, at.lo).Cmp(b2) > 0 && len(at.P.t) < 200 && (pick == nil || at.id > pick.atoms[0].id) {
					pick = m
				}
			}
		}
		x := floorDiv(add(l.Num(), sub(l.Denom(), b1)), l.Denom())
		y := floorDiv(h.Num(), h.Denom())
		if lo == nil {
			lo, hi = x, y
		} else {
			lo, hi = bmax(lo, x), bmin(hi, y)
		}
		if good(lo, hi) || pick == nil || len(c) > 600 {
			return
		}
		at := pick.atoms[0]
		k := new(big.Rat).Quo(c[pick], new(big.Rat).SetInt(at.m))
		delete(c, pick)
		for _, t := range at.P.t {
			v := new(big.Rat).Mul(k, new(big.Rat).SetInt(t.c))
			if t.m == oneMono {
				slo.Add(slo, v)
				shi.Add(shi, v)
				continue
			}
			if o := c[t.m]; o != nil {
				v.Add(v, o)
			}
			if v.Sign() == 0 {
				delete(c, t.m)
			} else {
				c[t.m] = v
			}
		}
		r := new(big.Rat).Mul(k, new(big.Rat).SetInt(sub(at.m, b1)))
		if k.Sign() > 0 {
			slo.Sub(slo, r)
		} else {
			shi.Sub(shi, r)
		}
	}
	return
}

// parseObjectives reads "(objectives (obj v) (obj v))"
func parseObjectives(s string) []*big.Rat {
	x, _ := parseSexp(s, 0)
	l, ok := x.([]any)
	if !ok || len(l) < 1 {
		return nil
	}
	var out []*big.Rat
	for _, it := range l[1:] {
		p, ok := it.([]any)
		if !ok || len(p) != 2 {
			return nil
		}
		out = append(out, sexpRat(p[1]))
	}
	return out
}

func parseSexp(s string, i int) (any, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') {
		i++
	}
	if i >= len(s) {
		return nil, i
	}
	if s[i] == '(' {
		i++
		l := []any{}
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') {
				i++
			}
			if i >= len(s) {
				return l, i
			}
			if s[i] == ')' {
				return l, i + 1
			}
			var x any
			x, i = parseSexp(s, i)
			l = append(l, x)
		}
	}
	j := i
	for j < len(s) && s[j] != ' ' && s[j] != ')' && s[j] != '(' && s[j] != '\n' {
		j++
	}
	return s[i:j], j
}

func sexpRat(x any) *big.Rat {
	switch v := x.(type) {
	case string:
		r, ok := new(big.Rat).SetString(v)
		if !ok {
			return nil
		}
		return r
	case []any:
		if len(v) == 2 && v[0] == "-" {
			r := sexpRat(v[1])
			if r == nil {
				return nil
			}
			return r.Neg(r)
		}
		if len(v) == 3 && v[0] == "/" {
			a, b := sexpRat(v[1]), sexpRat(v[2])
			if a == nil || b == nil || b.Sign() == 0 {
				return nil
			}
			return a.Quo(a, b)
		}
	}
	return nil
}

// ---------------------------------------------------------------- wrap lemma

type est struct {
	c      map[*Mono]*big.Rat
	lo, hi *big.Rat // slack
}

var estMemo = map[*Atom]*est{}

func estimatePoly(P *Poly) *est {
	r := &est{c: map[*Mono]*big.Rat{}, lo: new(big.Rat), hi: new(big.Rat)}
	for _, t := range P.t {
		c := new(big.Rat).SetInt(t.c)
		if len(t.m.atoms) == 1 && t.m.atoms[0].kind == ADiv && len(t.m.atoms[0].P.t) <= 40 {
			d := estimateDiv(t.m.atoms[0])
			for m, k := range d.c {
				addRat(r.c, m, new(big.Rat).Mul(k, c))
			}
			a, b := new(big.Rat).Mul(d.lo, c), new(big.Rat).Mul(d.hi, c)
			if c.Sign() < 0 {
				a, b = b, a
			}
			r.lo.Add(r.lo, a)
			r.hi.Add(r.hi, b)
			continue
		}
		addRat(r.c, t.m, c)
	}
	return r
}
func addRat(m map[*Mono]*big.Rat, k *Mono, v *big.Rat) {
	if o, ok := m[k]; ok {
		m[k] = new(big.Rat).Add(o, v)
	} else {
		m[k] = v
	}
}
func estimateDiv(a *Atom) *est {
	if e, ok := estMemo[a]; ok {
		return e
	}
	p := estimatePoly(a.P)
	im := new(big.Rat).SetFrac(b1, a.m)
	r := &est{c: map[*Mono]*big.Rat{}}
	for m, k := range p.c {
		r.c[m] = new(big.Rat).Mul(k, im)
	}
	r.lo = new(big.Rat).Mul(p.lo, im)
	r.lo.Sub(r.lo, new(big.Rat).SetFrac(sub(a.m, b1), a.m))
	r.hi = new(big.Rat).Mul(p.hi, im)
	estMemo[a] = r
	return r
}

var lpWrapFail = map[string]bool{}

// lpWrap tries to find a representative of a (mod 2^64) that the solver shows
// to lie in the machine range.
func lpWrap(a *SInt, t ITy) *SInt {
	raw := a.rawp()
	if len(raw.t) > 48 {
		return nil
	}
	m := pow2(t.w)
	e := estimatePoly(raw)
	cand := raw
	half := big.NewRat(1, 2)
	span := new(big.Rat)
	limit := new(big.Rat).SetInt(pow2(t.w + 1))
	// slack must be small
	span.Sub(e.hi, e.lo)
	if span.Cmp(limit) > 0 {
		return nil
	}
	for mo, g := range e.c {
		// k = round(g / 2^w)
		x := new(big.Rat).Quo(g, new(big.Rat).SetInt(m))
		x.Add(x, half)
		k := floorDiv(x.Num(), x.Denom())
		if k.Sign() != 0 && mo != oneMono {
			cand = psub(cand, &Poly{t: []Term{{mo, mul(k, m)}}})
			g = new(big.Rat).Sub(g, new(big.Rat).SetInt(mul(k, m)))
		}
		if mo == oneMono {
			continue
		}
		l, h := mo.bounds()
		w := new(big.Rat).SetInt(sub(h, l))
		w.Mul(w, new(big.Rat).Abs(g))
		span.Add(span, w)
		if span.Cmp(limit) > 0 {
			return nil
		}
	}
	lo, hi, ok := lpBounds(cand, 3000, func(l, h *big.Int) bool { return floorDiv(l, m).Cmp(floorDiv(h, m)) == 0 })
	if !ok {
		return nil
	}
	if inArm() > 0 {
		lo, hi = factBounds(cand, lo, hi)
	}
	q1, q2 := floorDiv(lo, m), floorDiv(hi, m)
	if q1.Cmp(q2) != 0 {
		return nil
	}
	off := mul(q1, m)
	cand = paddc(cand, neg(off))
	return mkS(cand, nil, sub(lo, off), sub(hi, off))
}

// ---------------------------------------------------------------- queries

type satRes int

const (
	rUnsat satRes = iota
	rSat
	rUnknown
)

var smtCache = map[string]satRes{}

// smtCheck decides satisfiability of the conjunction. With wantModel it returns
// the values of the variable atoms.
func smtCheck(cs []*Cond, nia bool, budget, depth int, timeout time.Duration, wantModel bool) (satRes, map[*Atom]*big.Int) {
	e := newEmitter(false, nia, budget, depth)
	var goal strings.Builder
	for _, c := range cs {
		fmt.Fprintf(&goal, "(assert %s)\n", e.cond(c, 0))
	}
	e.drain()
	var sb strings.Builder
	fmt.Fprintf(&sb, "(reset)(set-option :timeout %d)\n", timeout.Milliseconds())
	sb.WriteString(e.decls.String())
	sb.WriteString(e.defs.String())
	sb.WriteString(goal.String())
	key := sb.String()
	if !wantModel {
		if r, ok := smtCache[key]; ok {
			stats.CacheHits++
			return r, nil
		}
	}
	sb.WriteString("(check-sat)")
	stats.Queries++
	lines, ok := solver.ask(sb.String(), timeout+5*time.Second)
	res := rUnknown
	if ok && len(lines) > 0 {
		bad := false
		for _, l := range lines {
			if strings.Contains(l, "(error") {
				bad = true
				if debugSMT {
					fmt.Fprintln(os.Stderr, l)
				}
			}
		}
		if !bad {
			switch lines[len(lines)-1] {
			case "unsat":
				res = rUnsat
			case "sat":
				res = rSat
			}
		}
	}
	switch res {
	case rUnsat:
		stats.Unsat++
	case rSat:
		stats.Sat++
	default:
		stats.Unknown++
	}
	if !wantModel {
		smtCache[key] = res
	}
	if res == rSat && wantModel {
		model := map[*Atom]*big.Int{}
		var q strings.Builder
		q.WriteString("(get-value (")
		n := 0
		for i, a := range e.vars {
			if a.kind == AVar {
				q.WriteString(e.vnames[i] + " ")
				n++
			}
		}
		q.WriteString("))")
		if n > 0 {
			ls, ok := solver.ask(q.String(), 10*time.Second)
			if ok {
				x, _ := parseSexp(strings.Join(ls, " "), 0)
				if l, ok := x.([]any); ok {
					vals := map[string]*big.Int{}
					for _, it := range l {
						if p, ok := it.([]any); ok && len(p) == 2 {
							nm, _ := p[0].(string)
							if r := sexpRat(p[1]); r != nil && r.IsInt() {
								vals[nm] = r.Num()
							}
						}
					}
					for i, a := range e.vars {
						if a.kind == AVar {
							if v, ok := vals[e.vnames[i]]; ok {
								model[a] = v
							}
						}
					}
				}
			}
		}
		return res, model
	}
	return res, nil
}

var curWhere = func() string { return "" }
