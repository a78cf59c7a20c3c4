// Package zzvsym is the native side of the verification intrinsics. The
// symbolic engine intercepts every exported function; the bodies here are used
// when a counterexample is replayed on the real code.
package zzvsym

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"strconv"
)

type asg struct {
	Vars  map[string]string `json:"vars"`
	Forks map[string]int    `json:"forks"`
	Tier  string            `json:"tier"`
}

var (
	cur    asg
	count  = map[string]int{}
	loaded bool
	// Fails counts failed assertions of this run.
	Fails   int
	asserts = map[string]int{}
	obs     []string
)

func load() {
	if loaded {
		return
	}
	loaded = true
	f := os.Getenv("ZZV_ASSIGN")
	if f == "" {
		return
	}
	b, err := ioutil.ReadFile(f)
	if err == nil {
		err = json.Unmarshal(b, &cur)
	}
	if err != nil {
		fmt.Println("ZZVERR", err)
		os.Exit(9)
	}
}

func key(name string) string {
	count[name]++
	if n := count[name]; n > 1 {
		return name + "#" + strconv.Itoa(n)
	}
	return name
}

type skip struct{}

func get(name string, lo, hi *big.Int) *big.Int {
	load()
	s, ok := cur.Vars[key(name)]
	if !ok {
		return new(big.Int).Set(lo)
	}
	x, ok := new(big.Int).SetString(s, 10)
	if !ok || x.Cmp(lo) < 0 || x.Cmp(hi) > 0 {
		fmt.Println("ZZVSKIP out of range", name)
		if Fails > 0 {
			os.Exit(3)
		}
		os.Exit(5)
	}
	return x
}

// U64 returns an arbitrary integer in [lo,hi].
func U64(name string, lo, hi uint64) uint64 {
	return get(name, new(big.Int).SetUint64(lo), new(big.Int).SetUint64(hi)).Uint64()
}

// I64 returns an arbitrary integer in [lo,hi].
func I64(name string, lo, hi int64) int64 {
	return get(name, big.NewInt(lo), big.NewInt(hi)).Int64()
}

// Big returns an arbitrary integer in [lo,hi].
func Big(name string, lo, hi *big.Int) *big.Int { return get(name, lo, hi) }

// Byte returns an arbitrary byte.
func Byte(name string) byte { return byte(U64(name, 0, 255)) }

// Bool returns an arbitrary boolean.
func Bool(name string) bool { return U64(name, 0, 1) == 1 }

// F64 returns k/den for an arbitrary integer k in [lo,hi]; den is a power of two.
func F64(name string, lo, hi, den int64) float64 {
	return float64(I64(name, lo, hi)) / float64(den)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("ZZVSKIP assumption")
		if Fails > 0 { // failed before the values that are not part of the witness
			os.Exit(3)
		}
		os.Exit(5)
	}
}

// Assert states the property.
func Assert(c bool, id string) {
	asserts[id]++
	if !c {
		Fails++
		fmt.Println("ZZVFAIL", id)
	}
}

// Cong reports a = b modulo m.
func Cong(a, b, m *big.Int) bool {
	d := new(big.Int).Sub(a, b)
	return d.Mod(d, m).Sign() == 0
}

// Symbolic is true inside the engine.
func Symbolic() bool { return false }

// Thorough reports the tier.
func Thorough() bool { load(); return cur.Tier == "thorough" }

// Choose returns an arbitrary integer in [0,n), one path each.
func Choose(name string, n int) int {
	load()
	return cur.Forks[key(name)]
}

// Reached marks a point that must be reachable.
func Reached(id string) {}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return
}

// Observe records a value for the cross-check of engine and native run.
func Observe(x *big.Int) { obs = append(obs, x.String()) }

// ObserveU records a value for the cross-check of engine and native run.
func ObserveU(x uint64) { obs = append(obs, strconv.FormatUint(x, 10)) }

// Main runs one harness natively.
func Main(hs map[string]func()) {
	h := hs[os.Getenv("ZZV_HARNESS")]
	if h == nil {
		fmt.Println("ZZVERR no such harness")
		os.Exit(9)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Println("ZZVPANIC", r)
				if os.Getenv("ZZV_STACK") != "" {
					panic(r)
				}
				os.Exit(4)
			}
		}()
		h()
	}()
	if os.Getenv("ZZV_OBS") != "" {
		for _, o := range obs {
			fmt.Println("ZZVOBS", o)
		}
		for k, n := range asserts {
			fmt.Println("ZZVASSERT", n, k)
		}
	}
	if Fails > 0 {
		os.Exit(3)
	}
}

// Dump prints a value (debugging).
func Dump(id string, x uint64) {}
