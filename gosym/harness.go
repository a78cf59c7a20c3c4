package main

// Harness execution: obligations, path worklist, witnesses, native replay.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblStat struct {
	NF, SMT, Undecided, Violated int
}

type Violation struct {
	Harness string            `json:"harness"`
	ID      string            `json:"id"`
	Kind    string            `json:"kind"`
	Msg     string            `json:"msg"`
	Vars    map[string]string `json:"vars"`
	Forks   map[string]int    `json:"forks"`
	Tier    string            `json:"tier"`
	Native  string            `json:"native"`
	IDs     []string          `json:"ids"` // ids that failed natively
	File    string            `json:"file"`
}

type Result struct {
	Harness     string
	Paths       int
	CutPaths    int
	Steps       int64
	Obls        map[string]*OblStat
	Viol        []*Violation
	Covered     map[string]int
	Reached     map[string]int
	Cuts        map[string]int
	Err         string
	Notes       []string
	Stats       Stats
	Atoms       int
	Vars        int
	Validated   int // native runs agreeing with the symbolic run
	Mismatch    []string
	WallS       float64
	UndecSample []string
	Complete    bool
	Branches    int
}

type Harness struct {
	name, prop, tier string
	fn               *ssa.Function
	it               *Interp
	res              *Result
	replayBin        string
	tmp              string
	known            func(id string) bool
	deadline         time.Time
	seed             int64

	// per path
	vars     map[string]*Atom
	varOrd   []string
	cnt      map[string]int
	forks    map[string]int
	ctxs     []*evalCtx
	obs      []*Poly
	asserts  map[string]int
	pathViol bool

	expectPanic int
	stop        bool
	tried       map[string]int // unproved assertions per id
	undecSeen   int
	badCand     map[string]int // candidates that did not reproduce, per id
}

func (h *Harness) obl(id string) *OblStat {
	o := h.res.Obls[id]
	if o == nil {
		o = &OblStat{}
		h.res.Obls[id] = o
	}
	return o
}

func (h *Harness) onPanic(it *Interp, p *goPanic) {
	if h.expectPanic > 0 {
		it.forkNow(it.encl[len(it.encl)-1], it.enclC[len(it.enclC)-1], "panic in arm")
	}
	h.prove(cFalse, "panic", "panic", p.msg+" at "+p.where)
}

func (h *Harness) obligation(it *Interp, c *Cond, id string, p *goPanic) {
	if h.expectPanic > 0 {
		if it.choose(c) {
			return
		}
		panic(p)
	}
	h.prove(c, "panic", "panic", p.msg+" at "+p.where)
}

func (h *Harness) primeOracle(it *Interp, n *SInt) *Cond {
	if c, ok := n.isConst(); ok {
		return cBool(c.ProbablyPrime(20))
	}
	// a multiple of a constant d > 1 that exceeds d is composite
	d := new(big.Int)
	for _, t := range n.p.t {
		d.GCD(nil, nil, d, new(big.Int).Abs(t.c))
	}
	if d.Cmp(b1) > 0 && n.lo.Cmp(d) > 0 {
		return cFalse
	}
	giveUp("primality of a symbolic number")
	return nil
}

// prove discharges "path condition implies c".
func (h *Harness) prove(c *Cond, id, kind, msg string) {
	o := h.obl(id)
	if c.kind == CAnd {
		h.prove(c.x, id, kind, msg)
		h.prove(c.y, id, kind, msg)
		return
	}
	h.asserts[id]++
	if t := quickTruth(c); t == 1 {
		o.NF++
		stats.ProvedNF++
		return
	}
	if o.Violated > 0 {
		return
	}
	if time.Now().After(h.deadline) {
		o.Undecided++
		stats.Undecided++
		return
	}
	neg := cNot(c)
	if c.kind != CConst {
		// linear relaxation
		if lp := lpDecide(c); lp == 1 {
			o.SMT++
			stats.ProvedSMT++
			return
		}
	}
	cs := append(h.relevant(c), neg)
	limit := 6
	if h.tier == "thorough" {
		limit = 24
	}
	small := condTerms(c) < 6000
	tryWitness := func(m map[*Atom]*big.Int) bool {
		if m == nil {
			return false
		}
		e := newEval(m, func(a *Atom) *big.Int { return a.lo })
		return h.witness(e, c, id, kind, msg)
	}
	n := h.tried[id]
	if small && n < 4*limit {
		r, m := smtCheck(cs, false, 4000, 3, 3*time.Second, true)
		if r == rUnsat {
			o.SMT++
			stats.ProvedSMT++
			return
		}
		if r == rSat && tryWitness(m) {
			return
		}
	}
	if h.searchWitness(c, id, kind, msg, 12) {
		return
	}
	h.tried[id]++
	if n < limit {
		type att struct {
			nia    bool
			budget int
			depth  int
			to     time.Duration
		}
		atts := []att{{false, 30000, 10, 15 * time.Second}, {true, 6000, 8, 15 * time.Second}}
		if h.tier == "thorough" {
			atts = append(atts, att{false, 120000, 20, 90 * time.Second}, att{true, 60000, 20, 90 * time.Second})
		}
		for _, a := range atts {
			r, m := smtCheck(cs, a.nia, a.budget, a.depth, a.to, true)
			if r == rUnsat {
				o.SMT++
				h.tried[id]-- // only failures count
				stats.ProvedSMT++
				return
			}
			if r == rSat && tryWitness(m) {
				return
			}
		}
		if h.searchWitness(c, id, kind, msg, 60) {
			return
		}
	}
	o.Undecided++
	stats.Undecided++
	if len(h.res.UndecSample) < 12 {
		d := c.debug()
		if len(d) > 400 {
			d = d[:400]
		}
		if os.Getenv("GOSYM_DEBUG") != "" {
			d += debugDefs(c)
		}
		h.res.UndecSample = append(h.res.UndecSample, id+": "+msg+" "+d)
	}
}

func (c *Cond) debug() string {
	switch c.kind {
	case CConst:
		return fmt.Sprint(c.b)
	case CGE:
		return c.p.String() + " >= 0"
	case CEQ:
		return c.p.String() + " == 0"
	case CNot:
		return "!(" + c.x.debug() + ")"
	case CAnd:
		return "(" + c.x.debug() + " && " + c.y.debug() + ")"
	case CFlt:
		return "float cmp " + c.p.String()
	}
	return "?"
}

func condTerms(c *Cond) int {
	switch c.kind {
	case CGE, CEQ, CFlt:
		return len(c.p.t)
	case CNot:
		return condTerms(c.x)
	case CAnd, COr:
		return condTerms(c.x) + condTerms(c.y)
	}
	return 0
}

// relevant selects the path conditions worth giving to the solver.
func (h *Harness) relevant(c *Cond) []*Cond {
	var out []*Cond
	tot := 0
	for i := len(pcond) - 1; i >= 0; i-- {
		n := condTerms(pcond[i])
		if n > 400 || tot+n > 4000 {
			continue
		}
		tot += n
		out = append(out, pcond[i])
	}
	return out
}

// lpDecide: 1 proved, -1 unknown
func lpDecide(c *Cond) int {
	switch c.kind {
	case CGE:
		if len(c.p.t) > 3000 {
			return -1
		}
		lo, _, ok := lpBounds(c.p, 8000, func(l, h *big.Int) bool { return l.Sign() >= 0 })
		if ok && lo.Sign() >= 0 {
			return 1
		}
	case CNot:
		switch c.x.kind {
		case CGE:
			if len(c.x.p.t) > 3000 {
				return -1
			}
			_, hi, ok := lpBounds(c.x.p, 8000, func(l, h *big.Int) bool { return h.Sign() < 0 })
			if ok && hi.Sign() < 0 {
				return 1
			}
		case CEQ:
			if len(c.x.p.t) > 3000 {
				return -1
			}
			lo, hi, ok := lpBounds(c.x.p, 8000, func(l, h *big.Int) bool { return h.Sign() < 0 || l.Sign() > 0 })
			if ok && (hi.Sign() < 0 || lo.Sign() > 0) {
				return 1
			}
		}
	}
	return -1
}

func (h *Harness) contexts(n int) []*evalCtx {
	for len(h.ctxs) < n {
		i := len(h.ctxs)
		rnd := rand.New(rand.NewSource(h.seed*1000003 + int64(i)*7919 + 17))
		def := func(a *Atom) *big.Int {
			w := sub(a.hi, a.lo)
			uni := func() *big.Int {
				return add(a.lo, new(big.Int).Rand(rnd, add(w, b1)))
			}
			switch {
			case i == 0:
				return a.hi
			case i == 1:
				return a.lo
			case i%4 == 2:
				return uni()
			case i%4 == 3:
				if rnd.Intn(2) == 0 {
					return a.lo
				}
				return a.hi
			case i%4 == 0:
				d := bi(int64(rnd.Intn(4)))
				d = bmin(d, w)
				switch rnd.Intn(4) {
				case 0:
					return add(a.lo, d)
				case 1:
					return sub(a.hi, d)
				case 2:
					x := uni()
					return x
				}
				if a.lo.Sign() <= 0 && a.hi.Sign() >= 0 {
					return bmin(bmax(sub(d, b1), a.lo), a.hi)
				}
				return add(a.lo, d)
			}
			// random magnitude
			k := rnd.Intn(w.BitLen() + 1)
			x := new(big.Int).Rand(rnd, pow2(k))
			x = bmin(x, w)
			if rnd.Intn(2) == 0 {
				return add(a.lo, x)
			}
			return sub(a.hi, x)
		}
		h.ctxs = append(h.ctxs, newEval(map[*Atom]*big.Int{}, def))
	}
	return h.ctxs[:n]
}

func (h *Harness) searchWitness(c *Cond, id, kind, msg string, n int) bool {
	for _, e := range h.contexts(n) {
		if h.witness(e, c, id, kind, msg) {
			return true
		}
		if h.stop {
			return true
		}
	}
	return false
}

func (h *Harness) witness(e *evalCtx, c *Cond, id, kind, msg string) bool {
	for _, p := range pcond {
		if !e.cond(p) {
			return false
		}
	}
	if e.cond(c) || h.badCand[id] > 4 {
		return false
	}
	v := &Violation{Harness: h.name, ID: id, Kind: kind, Msg: msg, Vars: map[string]string{}, Forks: map[string]int{}, Tier: h.tier}
	for _, n := range h.varOrd {
		v.Vars[n] = e.atom(h.vars[n]).String()
	}
	for k, x := range h.forks {
		v.Forks[k] = x
	}
	code, out := h.native(v, false)
	v.Native = out
	if len(v.Native) > 600 {
		v.Native = v.Native[:600]
	}
	if code != 3 && code != 4 {
		h.res.Mismatch = append(h.res.Mismatch, fmt.Sprintf("%s: candidate not reproduced (exit %d): %s %s", id, code, msg, firstLine(out)))
		if h.badCand == nil {
			h.badCand = map[string]int{}
		}
		h.badCand[id]++
		if len(h.res.Mismatch) > 30 {
			h.stop = true
			panic(errStop{})
		}
		return false
	}
	seen := map[string]bool{}
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "ZZVFAIL ") {
			seen[strings.TrimPrefix(l, "ZZVFAIL ")] = true
		}
		if strings.HasPrefix(l, "ZZVPANIC") {
			seen["panic"] = true
		}
	}
	for k := range seen {
		v.IDs = append(v.IDs, k)
	}
	sort.Strings(v.IDs)
	h.obl(id).Violated++
	stats.Violated++
	h.pathViol = true
	h.res.Viol = append(h.res.Viol, v)
	unk := false
	for _, k := range v.IDs {
		if !h.known(k) {
			unk = true
		}
	}
	if unk {
		h.stop = true
		panic(errStop{})
	}
	return true
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (h *Harness) native(v *Violation, obs bool) (int, string) {
	if h.replayBin == "" {
		return -1, "no replay binary"
	}
	// the parent builds it in the background
	for i := 0; i < 1200; i++ {
		if _, err := os.Stat(h.replayBin); err == nil {
			break
		}
		if _, err := os.Stat(h.replayBin + ".failed"); err == nil {
			return -1, "replay build failed"
		}
		time.Sleep(100 * time.Millisecond)
	}
	f := filepath.Join(h.tmp, fmt.Sprintf("asg-%s-%d.json", h.name, rand.Int63()))
	b, _ := json.Marshal(v)
	os.WriteFile(f, b, 0644)
	defer os.Remove(f)
	cmd := exec.Command("timeout", "60", h.replayBin)
	cmd.Env = append(os.Environ(), "ZZV_ASSIGN="+f, "ZZV_HARNESS="+h.name)
	if obs {
		cmd.Env = append(cmd.Env, "ZZV_OBS=1")
	}
	out, err := cmd.CombinedOutput()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
			if code == 2 { // fatal error (stack overflow)
				code = 4
				out = append([]byte("ZZVPANIC fatal\n"), out...)
			}
		}
	}
	return code, string(out)
}

// validate compares one symbolic path with the native program on a concrete
// assignment satisfying the path condition.
func (h *Harness) validate() {
	if h.replayBin == "" || h.pathViol || len(h.obs) == 0 && len(h.asserts) == 0 {
		return
	}
	for _, e := range h.contexts(6) {
		ok := true
		for _, p := range pcond {
			if !e.cond(p) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		v := &Violation{Harness: h.name, Vars: map[string]string{}, Forks: h.forks, Tier: h.tier}
		for _, n := range h.varOrd {
			v.Vars[n] = e.atom(h.vars[n]).String()
		}
		code, out := h.native(v, true)
		if code != 0 {
			if code == 3 || code == 4 {
				// the native program fails although the engine saw no violation
				known := true
				for _, l := range strings.Split(out, "\n") {
					if strings.HasPrefix(l, "ZZVFAIL ") && !h.known(strings.TrimPrefix(l, "ZZVFAIL ")) {
						known = false
					}
					if strings.HasPrefix(l, "ZZVPANIC") && !h.known("panic") {
						known = false
					}
				}
				if known {
					continue
				}
			}
			h.res.Mismatch = append(h.res.Mismatch, fmt.Sprintf("validation: native exit %d: %s", code, firstLine(out)))
			return
		}
		var nobs []string
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "ZZVOBS ") {
				nobs = append(nobs, strings.TrimPrefix(l, "ZZVOBS "))
			}
		}
		if len(nobs) != len(h.obs) {
			h.res.Mismatch = append(h.res.Mismatch, fmt.Sprintf("validation: %d observations, engine %d", len(nobs), len(h.obs)))
			return
		}
		for i, p := range h.obs {
			if x := e.poly(p).String(); x != nobs[i] {
				h.res.Mismatch = append(h.res.Mismatch, fmt.Sprintf("validation: observation %d: native %s, engine %s", i, nobs[i], x))
				return
			}
		}
		h.res.Validated++
		return
	}
}

// run explores all paths.
func (h *Harness) run(initPkgs func(*Interp)) {
	type path []decision
	work := []path{nil}
	maxPaths := 600
	if h.tier == "thorough" {
		maxPaths = 4000
	}
	h.res.Complete = true
	nval := 0
	for len(work) > 0 {
		if h.stop {
			return
		}
		if time.Now().After(h.deadline) {
			h.res.Complete = false
			h.res.Notes = append(h.res.Notes, fmt.Sprintf("time limit: %d paths unexplored", len(work)))
			return
		}
		if h.res.Paths+h.res.CutPaths > maxPaths {
			h.res.Complete = false
			h.res.Notes = append(h.res.Notes, fmt.Sprintf("path limit: %d paths unexplored", len(work)))
			return
		}
		p := work[len(work)-1]
		work = work[:len(work)-1]
		fk, ok := h.runPath(p, initPkgs)
		if fk != nil {
			var base path
			for _, d := range p {
				if d.n < fk.n {
					base = append(base, d)
				}
			}
			a := append(append(path{}, base...), decision{fk.n, false})
			b := append(append(path{}, base...), decision{fk.n, true})
			work = append(work, a, b)
			continue
		}
		if ok {
			h.res.Paths++
			if nval < 2 || (nval < 10 && h.tier == "thorough") {
				nval++
				h.validate()
			}
		} else {
			h.res.CutPaths++
		}
	}
}

func (h *Harness) runPath(p []decision, initPkgs func(*Interp)) (fk *errFork, ok bool) {
	it := h.it
	resetTerms()
	resetConds()
	resetFacts()
	estMemo = map[*Atom]*est{}
	lpWrapFail = map[string]bool{}
	fkeys = map[string]int{}
	boundsVer++
	it.journal, it.jOn, it.depth, it.brN, it.decPos, it.mapWrites = nil, 0, 0, 0, 0, 0
	it.encl, it.enclC, it.stack = nil, nil, nil
	it.nest = map[*cblock]int{}
	it.steps = 0
	it.decis = p
	for _, g := range it.globals {
		for i := range g.cells {
			g.cells[i] = V{}
		}
	}
	h.vars, h.varOrd, h.cnt, h.forks, h.ctxs, h.obs, h.asserts = map[string]*Atom{}, nil, map[string]int{}, map[string]int{}, nil, nil, map[string]int{}
	h.pathViol = false
	h.expectPanic = 0
	defer func() {
		h.res.Steps += it.steps
		h.res.Branches += it.brN
		if len(atoms) > h.res.Atoms {
			h.res.Atoms = len(atoms)
		}
		if len(h.varOrd) > h.res.Vars {
			h.res.Vars = len(h.varOrd)
		}
		if r := recover(); r != nil {
			switch e := r.(type) {
			case errFork:
				fk = &e
			case errStop:
			case errCut:
				if e.why == "loop bound" {
					h.res.Complete = false
				}
			case errGiveUp:
				h.res.Complete = false
				h.note("not encodable: " + e.why + " in " + it.where())
			case *goPanic:
				// top-level panic on this path
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, s := r.(errStop); !s {
								panic(r)
							}
						}
					}()
					h.prove(cFalse, "panic", "panic", e.msg+" at "+e.where)
				}()
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					panic(r)
				}
				h.res.Complete = false
				h.note(fmt.Sprintf("engine error: %v in %s", r, it.where()))
			}
		}
	}()
	initPkgs(it)
	it.steps = 0
	it.call(h.fn, nil, nil)
	ok = true
	return
}

func (h *Harness) note(s string) {
	for _, n := range h.res.Notes {
		if n == s {
			return
		}
	}
	if len(h.res.Notes) < 40 {
		h.res.Notes = append(h.res.Notes, s)
	}
}

func debugDefs(c *Cond) string {
	var as []*Atom
	seen := map[*Atom]bool{}
	var scanP func(p *Poly)
	scanP = func(p *Poly) {
		if len(p.t) > 40 {
			return
		}
		for _, t := range p.t {
			for _, a := range t.m.atoms {
				if !seen[a] {
					seen[a] = true
					as = append(as, a)
				}
			}
		}
	}
	var scan func(c *Cond)
	scan = func(c *Cond) {
		if c == nil {
			return
		}
		if c.p != nil {
			scanP(c.p)
		}
		scan(c.x)
		if c.kind != CNot {
			scan(c.y)
		}
	}
	scan(c)
	s := ""
	for i := 0; i < len(as) && i < 40; i++ {
		a := as[i]
		switch a.kind {
		case ADiv:
			s += fmt.Sprintf("\n        %s = floor((%s)/%s) in [%s,%s]", a, a.P, a.m, a.lo, a.hi)
			scanP(a.P)
		case ADef:
			s += fmt.Sprintf("\n        %s = %s in [%s,%s]", a, a.P, a.lo, a.hi)
			scanP(a.P)
		case AInd:
			s += fmt.Sprintf("\n        %s = [%s]", a, a.cond.debug())
			scan(a.cond)
		}
	}
	return s
}
