// Package c25: integer and slice helpers.
// Bounds: slices of up to 4 (thorough: 5) elements for equality, membership, distinctness and maximum, up to 9 for rotations; every 64-bit element, every rotation amount, every bit length.
package c25

import (
	"fast-ksw/ring"
	"fast-ksw/utils"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math"
)

func top() int {
	if zzvsym.Thorough() {
		return 5
	}
	return 4
}

func words(name string, n int) []uint64 {
	s := make([]uint64, n)
	for i := range s {
		s[i] = zzvsym.U64(name, 0, math.MaxUint64)
	}
	return s
}

func ints(name string, n int) []int64 {
	s := make([]int64, n)
	for i := range s {
		s[i] = zzvsym.I64(name, math.MinInt64, math.MaxInt64)
	}
	return s
}

func ZZ_EqualUint64() {
	for n := 0; n <= top(); n++ {
		for m := 0; m <= top(); m++ {
			a, b := words("a", n), words("b", m)
			want := n == m
			for i := 0; i < n && i < m; i++ {
				want = want && a[i] == b[i]
			}
			zzvsym.Assert(utils.EqualSliceUint64(a, b) == want, "EqualSliceUint64 of lengths "+zz.Itoa(n)+" and "+zz.Itoa(m))
		}
	}
	zzvsym.Assert(utils.EqualSliceUint64(nil, []uint64{}), "EqualSliceUint64 of empty slices")
}

func ZZ_EqualInt64() {
	for n := 0; n <= top(); n++ {
		for m := 0; m <= top(); m++ {
			a, b := ints("a", n), ints("b", m)
			want := n == m
			for i := 0; i < n && i < m; i++ {
				want = want && a[i] == b[i]
			}
			zzvsym.Assert(utils.EqualSliceInt64(a, b) == want, "EqualSliceInt64 of lengths "+zz.Itoa(n)+" and "+zz.Itoa(m))
		}
	}
}

func ZZ_EqualUint8() {
	for n := 0; n <= top(); n++ {
		for m := 0; m <= top(); m++ {
			a, b := make([]uint8, n), make([]uint8, m)
			for i := range a {
				a[i] = zzvsym.Byte("a")
			}
			for i := range b {
				b[i] = zzvsym.Byte("b")
			}
			want := n == m
			for i := 0; i < n && i < m; i++ {
				want = want && a[i] == b[i]
			}
			zzvsym.Assert(utils.EqualSliceUint8(a, b) == want, "EqualSliceUint8 of lengths "+zz.Itoa(n)+" and "+zz.Itoa(m))
		}
	}
}

func ZZ_IsIn() {
	for n := 0; n <= top(); n++ {
		x, s := zzvsym.U64("x", 0, math.MaxUint64), words("s", n)
		want := false
		for i := range s {
			want = want || s[i] == x
		}
		zzvsym.Assert(utils.IsInSliceUint64(x, s) == want, "IsInSliceUint64")
		y := zzvsym.I64("y", math.MinInt64, math.MaxInt64)
		t := make([]int, n)
		want = false
		for i := range t {
			t[i] = int(zzvsym.I64("t", math.MinInt64, math.MaxInt64))
			want = want || t[i] == int(y)
		}
		zzvsym.Assert(utils.IsInSliceInt(int(y), t) == want, "IsInSliceInt")
	}
}

func ZZ_AllDistinct() {
	for n := 0; n <= top(); n++ {
		s := words("s", n)
		want := true
		for i := range s {
			for j := 0; j < i; j++ {
				want = want && s[i] != s[j]
			}
		}
		zzvsym.Assert(utils.AllDistinct(s) == want, "AllDistinct")
	}
}

func ZZ_MinMax() {
	a, b := zzvsym.U64("a", 0, math.MaxUint64), zzvsym.U64("b", 0, math.MaxUint64)
	m, M := utils.MinUint64(a, b), utils.MaxUint64(a, b)
	zzvsym.Assert(m <= a && m <= b && (m == a || m == b), "MinUint64")
	zzvsym.Assert(M >= a && M >= b && (M == a || M == b), "MaxUint64")
	x, y := int(zzvsym.I64("x", math.MinInt64, math.MaxInt64)), int(zzvsym.I64("y", math.MinInt64, math.MaxInt64))
	i, I, r := utils.MinInt(x, y), utils.MaxInt(x, y), ring.Min(x, y)
	zzvsym.Assert(i <= x && i <= y && (i == x || i == y), "MinInt")
	zzvsym.Assert(I >= x && I >= y && (I == x || I == y), "MaxInt")
	zzvsym.Assert(r <= x && r <= y && (r == x || r == y), "ring.Min")
	f, g := zzvsym.F64("f", -1000000, 1000000, 8), zzvsym.F64("g", -1000000, 1000000, 8)
	F := utils.MaxFloat64(f, g)
	zzvsym.Assert(F >= f && F >= g && (F == f || F == g), "MaxFloat64")
	for n := 0; n <= top(); n++ {
		s := words("s", n)
		v := utils.MaxSliceUint64(s)
		in := n == 0 && v == 0
		for i := range s {
			zzvsym.Assert(v >= s[i], "MaxSliceUint64: bound")
			in = in || v == s[i]
		}
		zzvsym.Assert(in, "MaxSliceUint64: member")
	}
}

func bitsOf(name string, n int) (x uint64, b []uint64) {
	b = make([]uint64, n)
	for i := range b {
		b[i] = zzvsym.U64(name, 0, 1)
		x += b[i] << uint(i)
	}
	return
}

func ZZ_BitReverse() {
	for n := 1; n <= 64; n++ {
		x, b := bitsOf("b", n)
		var want uint64
		for i := range b {
			want += b[i] << uint(n-1-i)
		}
		zzvsym.Assert(utils.BitReverse64(x, uint64(n)) == want, "BitReverse64 of "+zz.Itoa(n)+" bits")
	}
}

func ZZ_HammingWeight() {
	x, b := bitsOf("b", 64)
	var want uint64
	for i := range b {
		want += b[i]
	}
	zzvsym.Assert(utils.HammingWeight64(x) == want, "HammingWeight64")
}

func mod(k int64, n int) int {
	r := int(k % int64(n))
	if r < 0 {
		r += n
	}
	return r
}

// rot checks every rotation helper on n elements.
func rot(n int) {
	k := zzvsym.I64("k", math.MinInt64, math.MaxInt64)
	s, t := words("s", n), ints("t", n)
	f, c := make([]float64, n), make([]complex128, n)
	for i := 0; i < n; i++ {
		f[i] = float64(i) + 0.5
		c[i] = complex(float64(i), -float64(i))
	}
	s0, t0 := append([]uint64{}, s...), append([]int64{}, t...)
	h := n / 2
	a, a2 := utils.RotateUint64Slice(s, int(k)), utils.RotateSlice(s, int(k)).([]uint64)
	b, b2 := utils.RotateInt64Slice(t, int(k)), utils.RotateSlice(t, int(k)).([]int64)
	g, g2 := utils.RotateFloat64Slice(f, int(k)), utils.RotateSlice(f, int(k)).([]float64)
	d, d2 := utils.RotateComplex128Slice(c, int(k)), utils.RotateSlice(c, int(k)).([]complex128)
	zzvsym.Assert(len(a) == n && len(b) == n && len(g) == n && len(d) == n && len(a2) == n && len(b2) == n && len(g2) == n && len(d2) == n, "rotation: length")
	r := 0
	if n > 0 {
		r = mod(k, n)
	}
	for i := 0; i < n; i++ {
		j := (i + r) % n
		zzvsym.Assert(a[i] == s0[j] && a2[i] == s0[j], "RotateUint64Slice")
		zzvsym.Assert(b[i] == t0[j] && b2[i] == t0[j], "RotateInt64Slice")
		zzvsym.Assert(g[i] == float64(j)+0.5 && g2[i] == float64(j)+0.5, "RotateFloat64Slice")
		zzvsym.Assert(d[i] == complex(float64(j), -float64(j)) && d2[i] == d[i], "RotateComplex128Slice")
		zzvsym.Assert(s[i] == s0[i] && t[i] == t0[i], "rotation: operand changed")
		zzvsym.ObserveU(a[i])
	}
	if n%2 == 0 {
		u := utils.RotateUint64Slots(s, int(k))
		zzvsym.Assert(len(u) == n, "RotateUint64Slots: length")
		if h > 0 {
			r = mod(k, h)
		}
		for i := 0; i < h; i++ {
			j := (i + r) % h
			zzvsym.Assert(u[i] == s0[j] && u[h+i] == s0[h+j], "RotateUint64Slots")
		}
	}
}

func ZZ_Rotate0() { rot(0) }
func ZZ_Rotate1() { rot(1) }
func ZZ_Rotate2() { rot(2) }
func ZZ_Rotate3() { rot(3) }
func ZZ_Rotate6() { rot(6) }
func ZZ_Rotate9() { rot(9) }

// the power of two of a Montgomery-style product
func ZZ_Powers() {
	for _, q := range []uint64{zz.Q61, zz.Q30, zz.Q8} {
		p := ring.BRedParams(q)
		for _, e := range []uint64{0, 1, 2, 5, q - 2} {
			if e == q-2 && q != zz.Q8 {
				continue
			}
			x := zzvsym.U64("x", 0, q-1)
			w := uint64(1)
			for i := uint64(0); i < e; i++ {
				w = ring.BRed(w, x, q, p)
			}
			zzvsym.Assert(ring.ModExp(x, e, q) == w, "ModExp")
		}
	}
}
