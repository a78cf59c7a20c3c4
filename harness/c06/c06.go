// Package c06: RNS basis extension, division by a basis, gadget decomposition.
// Bounds: N=16; source bases of 1 to 4 (thorough: 6) moduli and target bases of 1 to 3 (thorough: 5), of 61 to 15 bits, every level pair of the listed bases; every represented integer.
package c06

import (
	"fast-ksw/ring"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math/big"
)

func modUp(q, p []uint64, id string) {
	n := 16
	rq, rp := zz.Ring(n, q, ring.Standard), zz.Ring(n, p, ring.Standard)
	be := ring.NewBasisExtender(rq, rp)
	for lq := 0; lq < len(q); lq++ {
		lp := lq % len(p)
		for exact := 0; exact < 2; exact++ {
			a := rq.NewPoly()
			var x []*zz.RNS
			for j := 0; j < n; j++ {
				y := zz.AnyRNS("y", q[:lq+1])
				if exact == 1 {
					y.Inner()
				}
				for i := range y.Res {
					a.Coeffs[i][j] = y.Res[i]
				}
				x = append(x, y)
			}
			a0 := zz.Rows(a)
			b := zz.PolyMax("b", rp, len(p)-1, 0)
			b0 := zz.Rows(b)
			be.ModUpQtoP(lq, lp, a, b)
			zz.Same(a, a0, id+": operand changed")
			zz.SameFrom(b, b0, lp+1, id+": row above the level changed")
			for j := 0; j < n; j++ {
				zz.Near(zz.Column(b, j, lp+1), x[j].X, x[j].Prod, p[:lp+1], exact == 1, id)
			}
			zzvsym.ObserveU(b.Coeffs[0][1])
		}
	}
}

func modUpP(q, p []uint64, id string) {
	n := 16
	rq, rp := zz.Ring(n, q, ring.Standard), zz.Ring(n, p, ring.Standard)
	be := ring.NewBasisExtender(rq, rp)
	for lp := 0; lp < len(p); lp++ {
		for lq := 0; lq < len(q); lq += len(q) {
			a := rp.NewPoly()
			var x []*zz.RNS
			for j := 0; j < n; j++ {
				x = append(x, put(a, j, p[:lp+1]))
			}
			b := zz.PolyMax("b", rq, len(q)-1, 0)
			b0 := zz.Rows(b)
			be.ModUpPtoQ(lp, lq, a, b)
			zz.SameFrom(b, b0, lq+1, id+": row above the level changed")
			for j := 0; j < n; j++ {
				zz.Near(zz.Column(b, j, lq+1), x[j].X, x[j].Prod, q[:lq+1], false, id)
			}
		}
	}
}

// put makes coefficient j of p an arbitrary integer below the product of q.
func put(p *ring.Poly, j int, q []uint64) *zz.RNS {
	y := zz.AnyRNS("y", q)
	for i := range y.Res {
		p.Coeffs[i][j] = y.Res[i]
	}
	return y
}

// down divides an integer over the basis keep||drop by the product of drop.
type down struct {
	id      string
	ntt     bool
	inplace bool
	f       func(be *ring.BasisExtender, lk, ld int, keep, drop, out *ring.Poly)
	swap    bool // the dropped basis is Q
}

func (d down) run(q, p []uint64, lq, lp int) {
	n := 16
	rq, rp := zz.Ring(n, q, ring.Standard), zz.Ring(n, p, ring.Standard)
	be := ring.NewBasisExtender(rq, rp)
	rk, rd, lk, ld := rq, rp, lq, lp
	if d.swap {
		rk, rd, lk, ld = rp, rq, lp, lq
	}
	keep, drop := rk.NewPoly(), rd.NewPoly()
	km, dm := rk.Modulus[:lk+1], rd.Modulus[:ld+1]
	var want []*big.Int
	for j := 0; j < n; j++ {
		u := put(drop, j, dm)
		t := zzvsym.Big("t", big.NewInt(0), new(big.Int).Sub(zz.Prod(km), zz.One))
		z := new(big.Int).Mul(u.Prod, t)
		z.Add(z, u.X)
		for i, qi := range km {
			keep.Coeffs[i][j] = new(big.Int).Mod(z, zz.U(qi)).Uint64()
		}
		want = append(want, t)
	}
	if d.ntt {
		rk.NTTLvl(lk, keep, keep)
		rd.NTTLvl(ld, drop, drop)
	}
	k0, d0 := zz.Rows(keep), zz.Rows(drop)
	out := keep
	if !d.inplace {
		out = zz.PolyMax("out", rk, len(rk.Modulus)-1, 0)
	}
	o0 := zz.Rows(out)
	d.f(be, lk, ld, keep, drop, out)
	if !d.inplace {
		zz.Same(keep, k0, d.id+": operand changed")
	}
	zz.Same(drop, d0, d.id+": operand changed")
	zz.SameFrom(out, o0, lk+1, d.id+": row above the level changed")
	for i, qi := range km {
		for j := 0; j < n; j++ {
			zzvsym.Assert(out.Coeffs[i][j] < qi, d.id+": range")
		}
	}
	if d.ntt {
		rk.InvNTTLvl(lk, out, out)
	}
	for j := 0; j < n; j++ {
		zz.Near(zz.Column(out, j, lk+1), want[j], zz.One, km, false, d.id)
	}
	zzvsym.ObserveU(out.Coeffs[0][3])
}

var qToQ = down{id: "ModDownQPtoQ", f: func(be *ring.BasisExtender, lk, ld int, k, d, o *ring.Poly) { be.ModDownQPtoQ(lk, ld, k, d, o) }}
var qToQNTT = down{id: "ModDownQPtoQNTT", ntt: true, f: func(be *ring.BasisExtender, lk, ld int, k, d, o *ring.Poly) { be.ModDownQPtoQNTT(lk, ld, k, d, o) }}
var qToP = down{id: "ModDownQPtoP", swap: true, f: func(be *ring.BasisExtender, lk, ld int, k, d, o *ring.Poly) { be.ModDownQPtoP(ld, lk, d, k, o) }}

func (d down) all(q, p []uint64) {
	for lq := 0; lq < len(q); lq++ {
		for lp := 0; lp < len(p); lp++ {
			d.inplace = (lq+lp)%2 == 1
			d.run(q, p, lq, lp)
		}
	}
}

var (
	big1 = []uint64{zz.Q60, zz.P60, zz.R60, zz.S60}
	big2 = []uint64{zz.Q61, zz.P61, zz.R61}
	mix1 = []uint64{zz.Q55, zz.Q30, zz.Q61}
	mix2 = []uint64{zz.P30, zz.P61}
)

func ZZ_ModDown()       { qToQ.all(big1[:3], big2[:2]) }
func ZZ_ModDownMix()    { qToQ.all(mix1, mix2) }
func ZZ_ModDownNTT()    { qToQNTT.all(big1[:2], big2[:2]) }
func ZZ_ModDownNTTMix() { qToQNTT.all(mix1, mix2[:1]) }
func ZZ_ModDownP()      { qToP.all(big1[:3], big2[:2]) }
func ZZ_ModDownPMix()   { qToP.all(mix1[:2], mix2) }
func ZZT_ModDown()      { qToQ.all(big1, big2) }
func ZZT_ModDownNTT()   { qToQNTT.all(big1, big2) }
func ZZT_ModDownP()     { qToP.all(big1, big2) }

func ZZ_ModUp1() { modUp([]uint64{zz.Q60}, []uint64{zz.P60, zz.Q30}, "ModUpQtoP") }
func ZZ_ModUp2() { modUp(big1, []uint64{zz.Q61, zz.P61, zz.Q55}, "ModUpQtoP") }
func ZZ_ModUp3() { modUp([]uint64{zz.Q61, zz.Q36, zz.Q15}, []uint64{zz.P30, zz.P61}, "ModUpQtoP") }
func ZZ_ModUpP() { modUpP(mix1, big2, "ModUpPtoQ") }
func ZZT_ModUp() {
	modUp([]uint64{zz.Q60, zz.P60, zz.R60, zz.S60, zz.Q55, zz.P55}, []uint64{zz.Q61, zz.P61, zz.R55, zz.Q30, zz.Q15}, "ModUpQtoP")
}

// decompose checks every digit of a polynomial over q with digits as large as levelP+1 moduli.
func decompose(q, p []uint64, lq, lp int, id string) {
	n := 16
	rq, rp := zz.Ring(n, q, ring.Standard), zz.Ring(n, p, ring.Standard)
	dec := ring.NewDecomposer(rq, rp)
	alpha := lp + 1
	digits := (lq + alpha) / alpha
	for beta := 0; beta < digits; beta++ {
		lo, hi := beta*alpha, (beta+1)*alpha
		if hi > lq+1 {
			hi = lq + 1
		}
		a := zz.Poly("rest", rq, len(q)-1)
		var x []*zz.RNS
		for j := 0; j < n; j++ {
			y := zz.AnyRNS("y", q[lo:hi])
			for i := range y.Res {
				a.Coeffs[lo+i][j] = y.Res[i]
			}
			x = append(x, y)
		}
		a0 := zz.Rows(a)
		bq, bp := zz.PolyMax("bq", rq, len(q)-1, 0), zz.PolyMax("bp", rp, len(p)-1, 0)
		bq0, bp0 := zz.Rows(bq), zz.Rows(bp)
		dec.DecomposeAndSplit(lq, lp, alpha, beta, a, bq, bp)
		zz.Same(a, a0, id+": operand changed")
		zz.SameFrom(bq, bq0, lq+1, id+": row above the level changed")
		zz.SameFrom(bp, bp0, lp+1, id+": row above the level changed")
		for j := 0; j < n; j++ {
			var got, mod []uint64
			for i := 0; i <= lq; i++ {
				if i >= lo && i < hi {
					// the digit's own moduli
					zzvsym.Assert(zzvsym.Cong(zz.U(bq.Coeffs[i][j]), zz.U(a0[i][j]), zz.U(q[i])), id+": residue of the digit")
				} else {
					got, mod = append(got, bq.Coeffs[i][j]), append(mod, q[i])
				}
			}
			for i := 0; i <= lp; i++ {
				got, mod = append(got, bp.Coeffs[i][j]), append(mod, p[i])
			}
			zz.Near(got, x[j].X, x[j].Prod, mod, hi-lo == 1, id)
		}
		zzvsym.ObserveU(bq.Coeffs[0][3])
		zzvsym.ObserveU(bp.Coeffs[0][7])
	}
}

func ZZ_Decompose1() {
	for lq := 0; lq < 4; lq++ {
		decompose(big1, big2[:1], lq, 0, "DecomposeAndSplit")
	}
}

func ZZ_Decompose2() {
	for lq := 0; lq < 4; lq++ {
		decompose(big1, big2[:2], lq, 1, "DecomposeAndSplit")
	}
	decompose(append([]uint64{zz.Q36}, mix1...), mix2, 3, 1, "DecomposeAndSplit")
}

func ZZ_Decompose3() {
	for lq := 1; lq < 5; lq += 2 {
		decompose(append(append([]uint64{}, big1...), zz.Q55), big2, lq, 2, "DecomposeAndSplit")
	}
	// fewer special primes than available
	decompose(big1, big2, 3, 1, "DecomposeAndSplit")
	decompose(big1, big2, 2, 0, "DecomposeAndSplit")
}

func ZZT_Decompose() {
	q := append(append([]uint64{}, big1...), zz.Q55, zz.Q30, zz.Q36)
	for lq := 0; lq < len(q); lq++ {
		for lp := 0; lp < 3; lp++ {
			decompose(q, big2, lq, lp, "DecomposeAndSplit")
		}
	}
}
