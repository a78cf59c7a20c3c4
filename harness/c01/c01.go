// Package c01: word-level modular reductions.
// Bounds: moduli of the list mods() (5 to 61 bits, including the extreme 61-bit ones); every 64-bit operand in the stated domain; exponents as listed.
package c01

import (
	"fast-ksw/ring"
	"fast-ksw/zzvsym"
	"math/big"
	"strconv"
)

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

// mods: odd moduli; the first ones are prime.
func mods() []uint64 {
	m := []uint64{3, 5, 17, 97, 12289, 65537, 0x7fff801, 0x3fffffffef8001, 0x1fffffffffe00001, 2305843009213693951, 2305843009213693949, 1152921504606846977}
	if zzvsym.Thorough() {
		for b := uint(3); b <= 61; b++ {
			m = append(m, (uint64(1)<<b)-1, (uint64(1)<<(b-1))+1, (uint64(1)<<b)-(uint64(1)<<(b/2))+1)
		}
	}
	return m
}

func u(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

func reduced(r uint64, want *big.Int, q uint64, id string) {
	m := " q=" + strconv.FormatUint(q, 10)
	_ = m
	zzvsym.Assert(r < q, id+" below modulus")
	zzvsym.Assert(zzvsym.Cong(u(r), want, u(q)), id+" residue")
	zzvsym.ObserveU(r)
}

func lazy(r uint64, want *big.Int, q uint64, id string) {
	zzvsym.Assert(r < 2*q, id+" below twice the modulus")
	zzvsym.Assert(zzvsym.Cong(u(r), want, u(q)), id+" residue")
	zzvsym.ObserveU(r)
}

func ZZ_MForm() {
	for _, q := range mods() {
		bp := ring.BRedParams(q)
		a := zzvsym.U64("a", 0, 1<<64-1)
		want := new(big.Int).Mul(u(a), two64)
		reduced(ring.MForm(a, q, bp), want, q, "MForm")
		lazy(ring.MFormConstant(a, q, bp), want, q, "MFormConstant")
	}
}

func ZZ_InvMForm() {
	for _, q := range mods() {
		qinv := ring.MRedParams(q)
		zzvsym.Assert(q*qinv == 1, "MRedParams inverse")
		a := zzvsym.U64("a", 0, 1<<64-1)
		inv := new(big.Int).ModInverse(two64, u(q))
		want := new(big.Int).Mul(u(a), inv)
		r := ring.InvMForm(a, q, qinv)
		zzvsym.Assert(r < q, "InvMForm below modulus")
		zzvsym.Assert(zzvsym.Cong(u(r), want, u(q)), "InvMForm residue")
		lazy(ring.InvMFormConstant(a, q, qinv), want, q, "InvMFormConstant")
	}
}

func ZZ_MRed() {
	for _, q := range mods() {
		qinv := ring.MRedParams(q)
		x := zzvsym.U64("x", 0, 1<<64-1)
		y := zzvsym.U64("y", 0, q-1)
		inv := new(big.Int).ModInverse(two64, u(q))
		want := new(big.Int).Mul(u(x), u(y))
		want.Mul(want, inv)
		reduced(ring.MRed(x, y, q, qinv), want, q, "MRed")
		lazy(ring.MRedConstant(x, y, q, qinv), want, q, "MRedConstant")
	}
}

func ZZ_BRedAdd() {
	for _, q := range mods() {
		bp := ring.BRedParams(q)
		a := zzvsym.U64("a", 0, 1<<64-1)
		reduced(ring.BRedAdd(a, q, bp), u(a), q, "BRedAdd")
		lazy(ring.BRedAddConstant(a, q, bp), u(a), q, "BRedAddConstant")
	}
}

func ZZ_BRed() {
	for _, q := range mods() {
		bp := ring.BRedParams(q)
		x := zzvsym.U64("x", 0, 1<<64-1)
		y := zzvsym.U64("y", 0, 1<<64-1)
		want := new(big.Int).Mul(u(x), u(y))
		reduced(ring.BRed(x, y, q, bp), want, q, "BRed")
		lazy(ring.BRedConstant(x, y, q, bp), want, q, "BRedConstant")
	}
}

func ZZ_CRed() {
	for _, q := range mods() {
		a := zzvsym.U64("a", 0, 2*q-1)
		reduced(ring.CRed(a, q), u(a), q, "CRed")
	}
}

func ZZ_ModExp() {
	for _, q := range []uint64{17, 12289, 65537, 0x3fffffffef8001, 0x1fffffffffe00001} {
		for _, e := range []uint64{0, 1, 2, 3, 5, 8, 13} {
			x := zzvsym.U64("x", 0, q-1)
			want := big.NewInt(1)
			for i := uint64(0); i < e; i++ {
				want.Mul(want, u(x))
				want.Mod(want, u(q))
			}
			reduced(ring.ModExp(x, e, q), want, q, "ModExp")
			bp := ring.BRedParams(q)
			qinv := ring.MRedParams(q)
			xm := ring.MForm(x, q, bp)
			r := ring.ModexpMontgomery(xm, int(e), q, qinv, bp)
			want = new(big.Int).Mul(want, two64)
			reduced(r, want, q, "ModexpMontgomery")
		}
	}
}
