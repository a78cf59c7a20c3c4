// Package c11: generation of NTT primes.
// Bounds: the answers of the primality test are arbitrary for the first candidates (5 to 9 of them, 9 to 13 in the thorough tier, all of them where candidates run out) and positive afterwards; root orders 2^5, 2^9 and 2^17 and near-exhausting ones, sizes of 6 to 61 bits, 1 to 4 primes; the starting point of the next and previous prime is an arbitrary word of up to 61 bits congruent to one; composites: every multiple of a prime below 50, plus a list of pseudoprimes.
package c11

import (
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math"
	"math/bits"
)

type answer struct {
	x  uint64
	ok bool
}

// oracle answers for candidates: arbitrary at first, the same answer for the same number.
type oracle struct {
	asked []answer
	free  int
}

func (o *oracle) install() {
	ring.ZZIsPrime = func(x uint64) bool {
		if x < 2 {
			return false
		}
		for _, a := range o.asked {
			if a.x == x {
				return a.ok
			}
		}
		ok := true
		if len(o.asked) < o.free {
			ok = zzvsym.Bool("prime")
		}
		o.asked = append(o.asked, answer{x, ok})
		return ok
	}
}

func (o *oracle) said(x uint64, ok bool) bool {
	for _, a := range o.asked {
		if a.x == x && a.ok == ok {
			return true
		}
	}
	return false
}

// rejects tells that x is no acceptable candidate; a number never asked for is one (the oracle would have said yes).
func (o *oracle) rejects(x uint64) bool { return x < 2 || o.said(x, false) }

func free(quick, thorough int) int {
	if zzvsym.Thorough() {
		return thorough
	}
	return quick
}

func run(f func() []uint64) (p []uint64, panicked bool) {
	panicked = zzvsym.Panics(func() { p = f() })
	return
}

// list checks a generated list: accepted, distinct, congruent to one, at most 61 bits.
func (o *oracle) list(p []uint64, n int, root uint64, id string) {
	zzvsym.Assert(len(p) == n, id+": number of primes")
	for i, x := range p {
		zzvsym.Assert(o.said(x, true), id+": a number the primality test did not accept")
		zzvsym.Assert(x%root == 1, id+": not congruent to one")
		zzvsym.Assert(bits.Len64(x) <= 61, id+": more than 61 bits")
		for _, y := range p[:i] {
			zzvsym.Assert(x != y, id+": repeated prime")
		}
	}
}

func has(p []uint64, x uint64) bool {
	for _, y := range p {
		if y == x {
			return true
		}
	}
	return false
}

type cfg struct{ logQ, logRoot, n int }

func around() []cfg {
	return []cfg{{30, 5, 1}, {30, 5, 2}, {45, 17, 3}, {55, 9, 4}, {60, 57, 2}, {60, 58, 3}, {9, 9, 2}, {12, 9, 3}, {6, 5, 3}}
}

// closest: no acceptable candidate closer to the power of two than the farthest returned one is left out.
func (o *oracle) closest(p []uint64, c cfg, id string) {
	far := uint64(0)
	pow := uint64(1) << c.logQ
	dist := func(x uint64) uint64 {
		if x > pow {
			return x - 1 - pow
		}
		return pow + 1 - x
	}
	for _, x := range p {
		if d := dist(x); d > far {
			far = d
		}
	}
	root := uint64(1) << c.logRoot
	zzvsym.Assert(far <= root*uint64(o.free+c.n), id+": distance")
	for k := root; k < far; k += root {
		if up := pow + 1 + k; bits.Len64(up) <= 61 {
			zzvsym.Assert(has(p, up) || o.rejects(up), id+": skipped a closer prime")
		}
		if k <= pow {
			down := pow + 1 - k
			zzvsym.Assert(has(p, down) || o.rejects(down), id+": skipped a closer prime")
		}
	}
}

func ZZ_Around() {
	c := around()[zzvsym.Choose("c", len(around()))]
	o := &oracle{free: free(7, 12)}
	o.install()
	entry := zzvsym.Choose("c", 2)
	root := uint64(1) << c.logRoot
	p, bad := run(func() []uint64 {
		if entry == 0 {
			return ring.GenerateNTTPrimes(c.logQ, int(root), c.n)
		}
		return ring.GenerateNTTPrimesQ(c.logQ, int(root), c.n)
	})
	if bad {
		// every candidate was rejected or is in the list being built
		n := 0
		for x := uint64(1); bits.Len64(x) <= 61; x += root {
			if x < 2 || x == uint64(1)<<c.logQ+1 {
				continue
			}
			if !o.said(x, false) {
				n++
			}
			if n >= c.n {
				break
			}
		}
		zzvsym.Assert(n < c.n, "GenerateNTTPrimes: gave up though there are enough primes")
		return
	}
	o.list(p, c.n, root, "GenerateNTTPrimes")
	o.closest(p, c, "GenerateNTTPrimes")
	zzvsym.Reached("around")
}

func ZZ_Below() {
	cs := []cfg{{61, 5, 1}, {61, 17, 3}, {61, 58, 3}, {30, 9, 4}, {45, 42, 3}, {12, 9, 2}, {9, 9, 1}}
	c := cs[zzvsym.Choose("c", len(cs))]
	o := &oracle{free: free(9, 13)}
	o.install()
	root := uint64(1) << c.logRoot
	p, bad := run(func() []uint64 {
		if c.logQ == 61 {
			return ring.GenerateNTTPrimes(c.logQ, int(root), c.n)
		}
		return ring.GenerateNTTPrimesP(c.logQ, int(root), c.n)
	})
	pow := uint64(1) << c.logQ
	if bad {
		n := 0
		for x := pow + 1; x > root; {
			x -= root
			if !o.rejects(x) {
				n++
			}
			if n >= c.n {
				break
			}
		}
		zzvsym.Assert(n < c.n, "GenerateNTTPrimes (below): gave up though there are enough primes")
		return
	}
	o.list(p, c.n, root, "GenerateNTTPrimes (below)")
	low := pow
	for _, x := range p {
		zzvsym.Assert(x < pow, "GenerateNTTPrimes (below): not below the power of two")
		if x < low {
			low = x
		}
	}
	zzvsym.Assert(pow-low < root*uint64(o.free+c.n), "GenerateNTTPrimes (below): distance")
	for x := pow + 1 - root; x > low; x -= root {
		zzvsym.Assert(has(p, x) || o.rejects(x), "GenerateNTTPrimes (below): skipped a larger prime")
	}
}

// start is an arbitrary number congruent to one modulo the root order.
func start(root uint64, lo, hi uint64) uint64 {
	return zzvsym.U64("q", lo/root, hi/root)*root + 1
}

func ZZ_Next() {
	logs := []int{5, 17, 40}
	root := uint64(1) << logs[zzvsym.Choose("c", len(logs))]
	ranges := [][2]uint64{{0, 1 << 60}, {1 << 60, 1<<61 - 1}, {1<<61 - 3*root, 1<<61 - 1}}
	rg := ranges[zzvsym.Choose("c", 3)]
	q := start(root, rg[0], rg[1])
	o := &oracle{free: free(5, 9)}
	o.install()
	x, err := ring.NextNTTPrime(q, int(root))
	k := uint64(0)
	if err == nil {
		zzvsym.Assert(x > q, "NextNTTPrime: not above q")
		zzvsym.Assert(bits.Len64(x) <= 61, "NextNTTPrime: more than 61 bits")
		zzvsym.Assert(x%root == 1, "NextNTTPrime: not congruent to one")
		zzvsym.Assert(o.said(x, true), "NextNTTPrime: a number the primality test did not accept")
		for k = 1; q+k*root < x; k++ {
			zzvsym.Assert(o.said(q+k*root, false), "NextNTTPrime: skipped a prime")
		}
		return
	}
	for k = 1; bits.Len64(q+k*root) <= 61; k++ {
		zzvsym.Assert(o.said(q+k*root, false), "NextNTTPrime: gave up before a prime")
		if !o.said(q+k*root, false) {
			break
		}
	}
}

func ZZ_Previous() {
	logs := []int{5, 17, 40}
	root := uint64(1) << logs[zzvsym.Choose("c", len(logs))]
	ranges := [][2]uint64{{0, 3 * root}, {4 * root, 1 << 59}, {1 << 59, 1<<61 - 1}}
	rg := ranges[zzvsym.Choose("c", 3)]
	q := start(root, rg[0], rg[1])
	o := &oracle{free: free(5, 9)}
	o.install()
	x, err := ring.PreviousNTTPrime(q, int(root))
	k := uint64(0)
	if err == nil {
		zzvsym.Assert(x < q, "PreviousNTTPrime: not below q")
		zzvsym.Assert(x%root == 1, "PreviousNTTPrime: not congruent to one")
		zzvsym.Assert(o.said(x, true), "PreviousNTTPrime: a number the primality test did not accept")
		for k = 1; q-k*root > x; k++ {
			zzvsym.Assert(o.said(q-k*root, false), "PreviousNTTPrime: skipped a prime")
		}
		return
	}
	for k = 1; q > k*root+1; k++ {
		zzvsym.Assert(o.said(q-k*root, false), "PreviousNTTPrime: gave up before a prime")
		if !o.said(q-k*root, false) {
			break
		}
	}
}

// ZZ_Chain: a moduli chain has pairwise distinct primes of the requested sizes.
func ZZ_Chain() {
	cs := [][2][]int{{{30, 30, 20}, {30}}, {{61 - 1, 55}, {61, 61}}, {{20, 21, 20}, nil}, {{40}, {40, 40, 40}}, {{33, 33, 33, 33}, nil}, {{33, 20, 33}, {20, 33, 33, 20}}}
	c := cs[zzvsym.Choose("c", len(cs))]
	o := &oracle{free: free(7, 12)}
	o.install()
	q, p, err := rlwe.GenModuli(4, c[0], c[1])
	zzvsym.Assert(err == nil, "GenModuli: error")
	if err != nil {
		return
	}
	zzvsym.Assert(len(q) == len(c[0]) && len(p) == len(c[1]), "GenModuli: number of moduli")
	o.list(append(append([]uint64{}, q...), p...), len(c[0])+len(c[1]), 32, "GenModuli")
	for i, x := range append(append([]uint64{}, q...), p...) {
		l := append(append([]int{}, c[0]...), c[1]...)[i]
		d := uint64(o.free+8) * 32
		zzvsym.Assert(x < 1<<uint(l)+d && x > 1<<uint(l)-d, "GenModuli: size")
	}
}

// ZZ_IsPrime: the primality test itself rejects composites.
func ZZ_IsPrime() {
	ring.ZZIsPrime = nil
	for _, d := range []uint64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47} {
		x := zzvsym.U64("k", 2, math.MaxUint64/d) * d
		zzvsym.Assert(!ring.IsPrime(x), "IsPrime: accepts a multiple of "+zz.Itoa(int(d)))
	}
	// pseudoprimes to several bases, Carmichael numbers, squares of primes, products of two large primes
	for _, x := range []uint64{0, 1, 561, 1105, 1729, 2047, 3277, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151, 1152921504606846975, 0x100000001 * 3, 4295098369, 18446744030759878681, 1152921504606846883 * 3} {
		zzvsym.Assert(!ring.IsPrime(x), "IsPrime: accepts a composite number")
	}
	for _, x := range []uint64{2, 3, 5, 97, 193, 12289, zz.Q61, zz.Q30, zz.Q15, zz.P61, 18446744073709551557} {
		zzvsym.Assert(ring.IsPrime(x), "IsPrime: rejects a prime")
	}
}
