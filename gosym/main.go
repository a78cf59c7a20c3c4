package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|run|replay ...")
		os.Exit(0)
	}
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "run":
		cmdRun(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	}
}

var initAllow = map[string]bool{"io": true, "bytes": true, "strings": true, "sort": true, "strconv": true, "encoding/binary": true,
	"math/bits": true, "bufio": true, "unicode/utf8": true}

func loadProgram(tmp, repo, pkg string, ov map[string][]byte) (*ssa.Program, *ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov,
		BuildFlags: []string{"-mod=mod", "-modfile=" + filepath.Join(tmp, "go.mod")},
		Env:        append(os.Environ(), "GOFLAGS=")}
	ps, err := packages.Load(cfg, pkg)
	if err != nil {
		return nil, nil, err
	}
	if len(ps) != 1 {
		return nil, nil, fmt.Errorf("no package")
	}
	var es []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(es) < 8 {
				es = append(es, e.Error())
			}
		}
	})
	if len(es) > 0 {
		return nil, nil, fmt.Errorf("%s", strings.Join(es, "; "))
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), "fast-ksw") {
			p.Build()
		}
	}
	return prog, sp[0], nil
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	tmp := fs.String("tmp", "", "")
	pkg := fs.String("pkg", "", "")
	name := fs.String("harness", "", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	secs := fs.Int("secs", 300, "")
	out := fs.String("out", "", "")
	bin := fs.String("replay", "", "")
	known := fs.String("known", "", "")
	fs.Parse(args)
	t0 := time.Now()
	debug.SetGCPercent(200)
	go func() { // memory watchdog
		var ms runtime.MemStats
		for {
			time.Sleep(2 * time.Second)
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 4<<30 {
				fmt.Fprintln(os.Stderr, "memory limit")
				os.Exit(7)
			}
		}
	}()
	res := &Result{Harness: *name, Obls: map[string]*OblStat{}, Covered: map[string]int{}, Reached: map[string]int{}, Cuts: map[string]int{}}
	finish := func() {
		res.WallS = time.Since(t0).Seconds()
		res.Stats = stats
		b, _ := json.MarshalIndent(res, "", " ")
		if *out != "" {
			os.WriteFile(*out+".part", b, 0644)
			os.Rename(*out+".part", *out)
		} else {
			fmt.Println(string(b))
		}
		if solver != nil {
			solver.stop()
		}
	}
	ov := readOverlay(filepath.Join(*tmp, "overlay.json"))
	prog, pk, err := loadProgram(*tmp, *repo, *pkg, ov)
	if err != nil {
		res.Err = "load: " + err.Error()
		finish()
		return
	}
	fn := pk.Func(*name)
	if fn == nil {
		res.Err = "no such harness"
		finish()
		return
	}
	solver = &Solver{bin: z3bin()}
	if ep := prog.ImportedPackage("errors"); ep != nil {
		errType = types.NewPointer(ep.Type("errorString").Type())
	}
	it := &Interp{prog: prog, funcs: map[*ssa.Function]*cfunc{}, globals: map[*ssa.Global]*Obj{}, covered: map[string]int{}, maxSteps: 400e6, unroll: 80, cuts: res.Cuts}
	kn := map[string]bool{}
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			kn[k] = true
		}
	}
	h := &Harness{name: *name, prop: *prop, tier: *tier, fn: fn, it: it, res: res, replayBin: *bin, tmp: *tmp,
		known: func(id string) bool { return kn[id] || kn["*"] }, deadline: t0.Add(time.Duration(*secs) * time.Second), seed: *seed, tried: map[string]int{}}
	it.h = h
	curWhere = it.where
	curHarness = h
	go func() { // hard stop: report what we have
		time.Sleep(time.Duration(*secs)*time.Second + 40*time.Second)
		fmt.Fprintln(os.Stderr, "hard time limit in", it.where())
		os.Exit(8)
	}()
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		go func() {
			for i := 0; ; i++ {
				w, _ := os.Create(fmt.Sprintf("%s.%s.%d", f, *name, i))
				pprof.StartCPUProfile(w)
				time.Sleep(20 * time.Second)
				pprof.StopCPUProfile()
				w.Close()
				fmt.Fprintln(os.Stderr, "AT", it.where(), "LP", stats.LPQueries, "Q", stats.Queries, "solver", stats.SolverTime, "atoms", len(atoms))
			}
		}()
	}
	initFn := pk.Func("init")
	h.run(func(it *Interp) {
		main := it.covered
		it.covered = map[string]int{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if p, ok := r.(*goPanic); ok {
						giveUp("package initialisation: " + p.msg + " at " + p.where)
					}
					panic(r)
				}
			}()
			it.call(initFn, nil, nil)
		}()
		it.covered = main
	})
	for k, n := range it.covered {
		if strings.Contains(k, "fast-ksw/") && !strings.Contains(k, "zzv") && !strings.HasSuffix(k, ".init") {
			res.Covered[strings.ReplaceAll(k, "fast-ksw/", "")] += n
		}
	}
	finish()
}
