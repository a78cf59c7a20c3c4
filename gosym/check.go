package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type overlayFile struct {
	Replace map[string]string
}

func readOverlay(f string) map[string][]byte {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var o overlayFile
	json.Unmarshal(b, &o)
	m := map[string][]byte{}
	for k, v := range o.Replace {
		c, err := os.ReadFile(v)
		if err == nil {
			m[k] = c
		}
	}
	return m
}

type workspace struct {
	repo, verif, prop, tmp, pkg string
	harness                     []string
	drop                        map[string]bool // harness files left out
	hookNotes                   []string
}

func (w *workspace) build() error {
	ov := overlayFile{Replace: map[string]string{}}
	addDir := func(src, dst string) error {
		es, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") && !w.drop[filepath.Join(dst, e.Name())] {
				ov.Replace[filepath.Join(dst, e.Name())] = filepath.Join(src, e.Name())
			}
		}
		return nil
	}
	lp := strings.ToLower(w.prop)
	hdir := filepath.Join(w.verif, "harness", lp)
	if err := addDir(filepath.Join(w.verif, "harness", "zzvsym"), filepath.Join(w.repo, "zzvsym")); err != nil {
		return err
	}
	if err := addDir(hdir, filepath.Join(w.repo, "zzverif", lp)); err != nil {
		return err
	}
	// helper libraries, with the ones they import, only if imported
	need := map[string]bool{}
	var scan func(dir string)
	scan = func(dir string) {
		ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, m := range ms {
			f, err := parser.ParseFile(token.NewFileSet(), m, nil, parser.ImportsOnly)
			if err != nil {
				continue
			}
			for _, im := range f.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				if strings.HasPrefix(p, "fast-ksw/zzverif/") {
					n := strings.TrimPrefix(p, "fast-ksw/zzverif/")
					if !need[n] {
						need[n] = true
						scan(filepath.Join(w.verif, "harness", n))
					}
				}
			}
		}
	}
	scan(hdir)
	for n := range need {
		if err := addDir(filepath.Join(w.verif, "harness", n), filepath.Join(w.repo, "zzverif", n)); err != nil {
			return err
		}
	}
	w.pkg = "./zzverif/" + lp
	// harness list
	w.harness = nil
	var names []string
	for k, v := range ov.Replace {
		if filepath.Dir(k) != filepath.Join(w.repo, "zzverif", lp) {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), v, nil, 0)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && (strings.HasPrefix(fd.Name.Name, "ZZ_") || strings.HasPrefix(fd.Name.Name, "ZZT_")) {
				names = append(names, fd.Name.Name)
			}
		}
	}
	sort.Strings(names)
	w.harness = names
	// replay main
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"fast-ksw/zzvsym\"\n\th \"fast-ksw/zzverif/%s\"\n)\n\nfunc main() {\n\tzzvsym.Main(map[string]func(){\n", lp)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	mf := filepath.Join(w.tmp, "zzvmain.go")
	os.WriteFile(mf, []byte(sb.String()), 0644)
	ov.Replace[filepath.Join(w.repo, "zzvmain", "main.go")] = mf
	w.hookNotes = nil
	if err := w.hooks(ov.Replace, need); err != nil {
		return err
	}
	b, _ := json.MarshalIndent(ov, "", " ")
	os.WriteFile(filepath.Join(w.tmp, "overlay.json"), b, 0644)
	// module files: copies, so that nothing outside is written
	gm, err := os.ReadFile(filepath.Join(w.repo, "go.mod"))
	if err != nil {
		return err
	}
	os.WriteFile(filepath.Join(w.tmp, "go.mod"), gm, 0644)
	gs, _ := os.ReadFile(filepath.Join(w.verif, "gomod", "fast-ksw.sum"))
	os.WriteFile(filepath.Join(w.tmp, "go.sum"), gs, 0644)
	return nil
}

// hooks rewrites the samplers named in harness/<lib>/HOOKS so that a harness
// can substitute the randomness: lines "file recv.method var".
func (w *workspace) hooks(rep map[string]string, need map[string]bool) error {
	edits := map[string][][3]string{}
	dirs := []string{strings.ToLower(w.prop)}
	for n := range need {
		dirs = append(dirs, n)
	}
	for _, d := range dirs {
		b, err := os.ReadFile(filepath.Join(w.verif, "harness", d, "HOOKS"))
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) == 3 && !strings.HasPrefix(l, "#") {
				edits[f[0]] = append(edits[f[0]], [3]string{f[1], f[2], ""})
			}
		}
	}
	for dir, es := range edits {
		// dir is a package directory of the repository
		files, _ := filepath.Glob(filepath.Join(w.repo, dir, "*.go"))
		var decls strings.Builder
		pkgName := ""
		done := map[string]bool{}
		imports := map[string]bool{}
		for _, fn := range files {
			if strings.HasSuffix(fn, "_test.go") {
				continue
			}
			src, err := os.ReadFile(fn)
			if err != nil {
				return err
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
			if err != nil {
				continue
			}
			pkgName = f.Name.Name
			type ins struct {
				off  int
				text string
			}
			var inss []ins
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				nm := fd.Name.Name
				if fd.Recv != nil {
					t := fd.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					if id, ok := t.(*ast.Ident); ok {
						nm = id.Name + "." + nm
					}
				}
				for _, e := range es {
					if e[0] != nm || done[nm] {
						continue
					}
					done[nm] = true
					text := func(n ast.Node) string { return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset]) }
					var ps, as []string
					unnamed := 0
					addF := func(fl *ast.Field) {
						ty := text(fl.Type)
						for _, n := range fl.Names {
							ps = append(ps, ty)
							as = append(as, n.Name)
						}
						if len(fl.Names) == 0 {
							unnamed++
						}
					}
					if fd.Recv != nil {
						addF(fd.Recv.List[0])
					}
					for _, p := range fd.Type.Params.List {
						addF(p)
					}
					if unnamed > 0 {
						w.hookNotes = append(w.hookNotes, "cannot hook "+nm)
						continue
					}
					rs := ""
					ret := ""
					if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
						var rt []string
						for _, r := range fd.Type.Results.List {
							k := len(r.Names)
							if k == 0 {
								k = 1
							}
							for ; k > 0; k-- {
								rt = append(rt, text(r.Type))
							}
						}
						rs = " (" + strings.Join(rt, ", ") + ")"
						ret = "return " + e[1] + "(" + strings.Join(as, ", ") + ")"
					} else {
						ret = e[1] + "(" + strings.Join(as, ", ") + "); return"
					}
					off := fset.Position(fd.Body.Lbrace).Offset + 1
					inss = append(inss, ins{off, " if " + e[1] + " != nil { " + ret + " }; "})
					fmt.Fprintf(&decls, "var %s func(%s)%s\n", e[1], strings.Join(ps, ", "), rs)
					for _, im := range f.Imports {
						p, _ := strconv.Unquote(im.Path.Value)
						b := filepath.Base(p)
						if im.Name != nil {
							b = im.Name.Name
						}
						if regexp.MustCompile(`\b`+b+`\.`).MatchString(strings.Join(ps, " ") + rs) {
							if im.Name != nil {
								imports[im.Name.Name+" "+im.Path.Value] = true
							} else {
								imports[im.Path.Value] = true
							}
						}
					}
				}
			}
			if len(inss) == 0 {
				continue
			}
			sort.Slice(inss, func(i, j int) bool { return inss[i].off > inss[j].off })
			out := string(src)
			for _, in := range inss {
				out = out[:in.off] + in.text + out[in.off:]
			}
			tf := filepath.Join(w.tmp, strings.ReplaceAll(dir, "/", "_")+"_"+filepath.Base(fn))
			os.WriteFile(tf, []byte(out), 0644)
			rep[fn] = tf
		}
		for _, e := range es {
			if !done[e[0]] {
				w.hookNotes = append(w.hookNotes, "no function "+e[0]+" to hook")
				fmt.Fprintf(&decls, "// missing %s\n", e[0])
			}
		}
		hdr := "package " + pkgName + "\n\n"
		for im := range imports {
			hdr += "import " + im + "\n"
		}
		tf := filepath.Join(w.tmp, strings.ReplaceAll(dir, "/", "_")+"_zzhooks.go")
		os.WriteFile(tf, []byte(hdr+decls.String()), 0644)
		rep[filepath.Join(w.repo, dir, "zz_hooks.go")] = tf
	}
	return nil
}

func (w *workspace) goBuildReplay(bin string) error {
	cmd := exec.Command("go", "build", "-gcflags=fast-ksw/...=-d=checkptr", "-gcflags=fast-ksw/zzvsym=", "-mod=mod", "-modfile="+filepath.Join(w.tmp, "go.mod"), "-overlay", filepath.Join(w.tmp, "overlay.json"), "-o", bin+".tmp", "./zzvmain")
	cmd.Dir = w.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=")
	out, err := cmd.CombinedOutput()
	if err != nil {
		os.WriteFile(bin+".failed", out, 0644)
		return fmt.Errorf("%v: %s", err, out)
	}
	return os.Rename(bin+".tmp", bin)
}

type knownFinding struct {
	fixed        bool
	prop, harn   string
	id, descr    string
}

func readKnown(f string) []knownFinding {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "open:") {
			continue
		}
		k := knownFinding{}
		rest := strings.TrimSpace(strings.TrimPrefix(l, "open:"))
		if i := strings.Index(rest, "::"); i >= 0 {
			k.descr = strings.TrimSpace(rest[i+2:])
			rest = rest[:i]
		}
		for _, f := range strings.Fields(rest) {
			switch {
			case strings.HasPrefix(f, "property="):
				k.prop = f[9:]
			case strings.HasPrefix(f, "harness="):
				k.harn = f[8:]
			case strings.HasPrefix(f, "id="):
				k.id = f[3:]
			}
		}
		out = append(out, k)
	}
	return out
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "", "")
	only := fs.String("only", "", "run only harnesses matching this regexp")
	workers := fs.Int("workers", 7, "")
	secs := fs.Int("secs", 0, "")
	all := fs.Bool("all", false, "go on after a violation")
	keep := fs.Bool("keep", false, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	t0 := time.Now()
	total := 600
	if *tier == "thorough" {
		total = 7200
	}
	if *secs > 0 {
		total = *secs
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println("cannot create a scratch directory:", err)
		os.Exit(0)
	}
	if !*keep {
		defer os.RemoveAll(tmp)
	} else {
		fmt.Println("scratch:", tmp)
	}
	w := &workspace{repo: *repo, verif: *verif, prop: *prop, tmp: tmp, drop: map[string]bool{}}
	var results []*Result
	var notes []string
	known := readKnown(filepath.Join(*verif, "KNOWN_FINDINGS.txt"))
	self, _ := os.Executable()
	re := regexp.MustCompile(*only)
	for round := 0; round < 4; round++ {
		if err := w.build(); err != nil {
			notes = append(notes, "workspace: "+err.Error())
			break
		}
		bin := filepath.Join(tmp, fmt.Sprintf("replay%d", round))
		go w.goBuildReplay(bin)
		var todo []string
		for _, n := range w.harness {
			if strings.HasPrefix(n, "ZZT_") && *tier != "thorough" {
				continue
			}
			if !re.MatchString(n) {
				continue
			}
			todo = append(todo, n)
		}
		results = make([]*Result, len(todo))
		ch := make(chan int)
		var wg sync.WaitGroup
		var mu sync.Mutex
		found := false
		running := map[int]*exec.Cmd{}
		for i := 0; i < *workers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := range ch {
					n := todo[k]
					rem := total - int(time.Since(t0).Seconds())
					mu.Lock()
					f := found
					mu.Unlock()
					if rem < 10 || f {
						r := &Result{Harness: n, Err: "not started: time limit"}
						if f {
							r.Err = "not started: violation found"
						}
						results[k] = r
						continue
					}
					var kn []string
					for _, x := range known {
						if x.prop == *prop && x.harn == n {
							kn = append(kn, x.id)
						}
					}
					out := filepath.Join(tmp, "res-"+n+".json")
					cmd := exec.Command(self, "run", "-repo", *repo, "-tmp", tmp, "-pkg", w.pkg, "-harness", n, "-prop", *prop, "-tier", *tier,
						"-seed", fmt.Sprint(seed), "-secs", fmt.Sprint(rem), "-out", out, "-replay", bin, "-known", strings.Join(kn, ","))
					cmd.Env = append(os.Environ(), "GOMAXPROCS=3")
					var buf bytes.Buffer
					cmd.Stdout, cmd.Stderr = &buf, &buf
					err := cmd.Start()
					if err == nil {
						mu.Lock()
						running[k] = cmd
						mu.Unlock()
						err = cmd.Wait()
						mu.Lock()
						delete(running, k)
						mu.Unlock()
					}
					msg := buf.Bytes()
					if *verbose && len(msg) > 0 {
						fmt.Println(n, "stderr:", string(msg))
					}
					r := &Result{Harness: n}
					if b, e2 := os.ReadFile(out); e2 == nil {
						json.Unmarshal(b, r)
					} else {
						s := string(msg)
						if len(s) > 500 {
							s = s[:500]
						}
						mu.Lock()
						f := found
						mu.Unlock()
						if f {
							r.Err = "stopped: violation found"
						} else {
							r.Err = fmt.Sprintf("no result (%v): %s", err, s)
						}
					}
					results[k] = r
					if *verbose {
						fmt.Println(summary(r))
					}
					for _, v := range r.Viol {
						for _, id := range v.IDs {
							if !isKnown(known, *prop, n, id) && !*all {
								mu.Lock()
								found = true
								for _, c := range running {
									c.Process.Kill()
								}
								mu.Unlock()
							}
						}
					}
				}
			}()
		}
		for k := range todo {
			ch <- k
		}
		close(ch)
		wg.Wait()
		// drop harness files that no longer compile against the tree
		bad := map[string]bool{}
		for _, r := range results {
			if r != nil && strings.HasPrefix(r.Err, "load:") {
				for _, m := range regexp.MustCompile(regexp.QuoteMeta(filepath.Join(*repo, "zzverif"))+`/[\w/]+\.go`).FindAllString(r.Err, -1) {
					bad[m] = true
				}
			}
		}
		if len(bad) == 0 {
			break
		}
		again := false
		for b := range bad {
			if !w.drop[b] {
				again = true
			}
			w.drop[b] = true
			notes = append(notes, "left out (does not compile against the tree): "+b)
		}
		if !again {
			break
		}
	}
	notes = append(notes, w.hookNotes...)
	os.Exit(report(w, results, notes, known, *tier, seed, t0, *verbose))
}

func isKnown(known []knownFinding, prop, harness, id string) bool {
	for _, k := range known {
		if k.prop == prop && k.harn == harness && (k.id == id) {
			return true
		}
	}
	return false
}

func summary(r *Result) string {
	nf, sm, un, vi := 0, 0, 0, 0
	for _, o := range r.Obls {
		nf += o.NF
		sm += o.SMT
		un += o.Undecided
		vi += o.Violated
	}
	s := fmt.Sprintf("%-28s paths=%d cut=%d steps=%d nf=%d smt=%d undec=%d viol=%d queries=%d t=%.1fs solver=%.1fs valid=%d", r.Harness, r.Paths, r.CutPaths, r.Steps, nf, sm, un, vi, r.Stats.Queries, r.WallS, r.Stats.SolverTime.Seconds(), r.Validated)
	if r.Err != "" {
		s += " ERR " + r.Err
	}
	for _, n := range r.Notes {
		s += "\n     note: " + n
	}
	for _, n := range r.Mismatch {
		s += "\n     mismatch: " + n
	}
	for _, n := range r.UndecSample {
		s += "\n     undecided: " + n
	}
	for k, o := range r.Obls {
		if o.Undecided+o.Violated > 0 {
			s += fmt.Sprintf("\n     obl %s: %+v", k, *o)
		}
	}
	return s
}

func report(w *workspace, results []*Result, notes []string, known []knownFinding, tier string, seed int64, t0 time.Time, verbose bool) int {
	evd := filepath.Join(w.verif, "evidence")
	os.MkdirAll(filepath.Join(evd, "replay"), 0755)
	code := 0
	type hsum struct {
		Harness     string         `json:"harness"`
		Paths       int            `json:"paths"`
		Discharged  map[string]int `json:"discharged"`
		Undecided   map[string]int `json:"undecided,omitempty"`
		Inputs      int            `json:"symbolic_inputs"`
		Validated   int            `json:"native_cross_checks"`
		Complete    bool           `json:"all_paths_within_bounds"`
		Notes       []string       `json:"notes,omitempty"`
		UndecSample []string       `json:"undecided_samples,omitempty"`
		WallS       float64        `json:"wall_s"`
	}
	var hs []hsum
	covered := map[string]bool{}
	var ob, dis, nf, und, paths, valid, branches int
	var steps int64
	var tot Stats
	var viols []*Violation
	kf := map[string]bool{}
	var samples []any
	for _, r := range results {
		if r == nil {
			continue
		}
		h := hsum{Harness: r.Harness, Paths: r.Paths, Discharged: map[string]int{}, Undecided: map[string]int{}, Inputs: r.Vars, Validated: r.Validated, Complete: r.Complete, Notes: r.Notes, WallS: r.WallS, UndecSample: r.UndecSample}
		if r.Err != "" {
			h.Notes = append(h.Notes, r.Err)
			h.Complete = false
		}
		h.Notes = append(h.Notes, r.Mismatch...)
		n := 0
		for id, o := range r.Obls {
			ob += o.NF + o.SMT + o.Undecided + o.Violated
			dis += o.NF + o.SMT
			nf += o.NF
			und += o.Undecided
			n += o.NF + o.SMT
			h.Discharged[id] = o.NF + o.SMT
			if o.Undecided > 0 {
				h.Undecided[id] = o.Undecided
			}
		}
		if n == 0 && r.Err == "" {
			h.Notes = append(h.Notes, "vacuous: no obligation discharged")
		}
		for c := range r.Covered {
			covered[c] = true
		}
		paths += r.Paths
		valid += r.Validated
		steps += r.Steps
		branches += r.Branches
		tot.Queries += r.Stats.Queries
		tot.LPQueries += r.Stats.LPQueries
		tot.CacheHits += r.Stats.CacheHits
		tot.Unsat += r.Stats.Unsat
		tot.Sat += r.Stats.Sat
		tot.Unknown += r.Stats.Unknown
		tot.SolverTime += r.Stats.SolverTime
		for _, v := range r.Viol {
			for _, id := range v.IDs {
				if isKnown(known, w.prop, r.Harness, id) {
					kf[r.Harness+" "+id] = true
				}
			}
			viols = append(viols, v)
		}
		hs = append(hs, h)
	}
	for _, k := range known {
		if k.prop == w.prop && kf[k.harn+" "+k.id] {
			fmt.Printf("KNOWN-FINDING: property=%s %s (harness %s, assertion %s)\n", w.prop, k.descr, k.harn, k.id)
		}
	}
	nv := 0
	for i, v := range viols {
		unk := ""
		for _, id := range v.IDs {
			if !isKnown(known, w.prop, v.Harness, id) {
				unk = id
			}
		}
		if unk == "" {
			continue
		}
		nv++
		f := filepath.Join(evd, "replay", fmt.Sprintf("%s-%s-%d.json", w.prop, v.Harness, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", w.prop, f)
		fmt.Printf("  harness %s, assertion %s (%s %s); reproduced natively: %s\n", v.Harness, unk, v.Kind, v.Msg, firstLine(v.Native))
		code = 1
	}
	var fns []string
	for c := range covered {
		fns = append(fns, c)
	}
	sort.Strings(fns)
	for _, h := range hs {
		if len(samples) < 3 {
			samples = append(samples, map[string]any{"harness": h.Harness, "paths": h.Paths, "discharged": h.Discharged, "symbolic_inputs": h.Inputs})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no harness could be run")
	}
	cov := map[string]any{
		"states": paths, "transitions": steps, "traces_validated_against_impl": valid, "samples": samples,
		"states_meaning": "symbolic paths completed; transitions: SSA blocks' instructions executed symbolically",
		"harnesses":      hs, "functions_encoded": fns, "obligations": ob, "discharged": dis, "discharged_by_normal_form": nf, "undecided": und,
		"symbolic_branches": branches,
		"solver": map[string]any{"queries": tot.Queries, "lp_queries": tot.LPQueries, "cache_hits": tot.CacheHits, "unsat": tot.Unsat, "sat": tot.Sat, "unknown": tot.Unknown, "time_s": tot.SolverTime.Seconds(), "binary": z3bin()},
		"notes":  notes, "bounds": boundsText(w),
	}
	ev := map[string]any{"property": w.prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{"the SSA semantics of the engine (cross-checked natively on traces_validated_against_impl runs)", "polynomial normaliser and z3", "bounds stated in coverage.bounds"},
		"wall_s":      time.Since(t0).Seconds(), "violations": nv}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evd, w.prop+".json"), b, 0644)
	fmt.Printf("%s %s: %d obligations, %d discharged (%d by normal form), %d undecided, %d violations; %d paths, %d queries, %d cross-checks, %.1fs\n", w.prop, tier, ob, dis, nf, und, nv, paths, tot.Queries, valid, time.Since(t0).Seconds())
	for _, n := range notes {
		fmt.Println("  note:", n)
	}
	for _, h := range hs {
		for _, n := range h.Notes {
			if !verbose {
				fmt.Printf("  %s: %s\n", h.Harness, n)
			}
		}
	}
	return code
}

// boundsText collects the "Bounds:" comments of the harness files.
func boundsText(w *workspace) []string {
	var out []string
	ms, _ := filepath.Glob(filepath.Join(w.verif, "harness", strings.ToLower(w.prop), "*.go"))
	for _, m := range ms {
		b, _ := os.ReadFile(m)
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l), "//"))
			if strings.HasPrefix(l, "Bounds:") {
				out = append(out, strings.TrimSpace(strings.TrimPrefix(l, "Bounds:")))
			}
		}
	}
	return out
}

// cmdReplay re-runs a stored counterexample natively.
func cmdReplay(args []string) {
	if len(args) < 1 {
		return
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return
	}
	var v Violation
	json.Unmarshal(b, &v)
	prop := strings.SplitN(filepath.Base(args[0]), "-", 2)[0]
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	w := &workspace{repo: "/repo", verif: "/verif", prop: prop, tmp: tmp, drop: map[string]bool{}}
	if err := w.build(); err != nil {
		fmt.Println(err)
		return
	}
	bin := filepath.Join(tmp, "replay")
	if err := w.goBuildReplay(bin); err != nil {
		fmt.Println(err)
		return
	}
	cmd := exec.Command(bin)
	cmd.Env = append(os.Environ(), "ZZV_ASSIGN="+args[0], "ZZV_HARNESS="+v.Harness)
	out, err := cmd.CombinedOutput()
	fmt.Print(string(out))
	fmt.Println("exit:", err)
}
