// Package c23: switching the ring degree and the ring type.
// Bounds: degrees 16, 32, 64 (128 in the thorough tier) and every ratio between them, one to three moduli of 61, 30 and 20 bits, ciphertexts of degree 0 to 2, every coefficient symbolic, receivers with arbitrary previous contents.
package c23

import (
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
)

var q = []uint64{zz.Q61, zz.Q30, zz.Q20}

func degrees() []int {
	if zzvsym.Thorough() {
		return []int{16, 32, 64, 128}
	}
	return []int{16, 32, 64}
}

var types = []ring.Type{ring.Standard, ring.ConjugateInvariant}

// is asserts that p holds the coefficients w.
func is(p *ring.Poly, w [][]uint64, id string) {
	for i := range w {
		zzvsym.Assert(len(p.Coeffs[i]) == len(w[i]), id+": degree")
		for j := range w[i] {
			zzvsym.Assert(p.Coeffs[i][j] == w[i][j], id)
		}
	}
}

// spread is a(X^gap).
func spread(a [][]uint64, gap int) [][]uint64 {
	out := make([][]uint64, len(a))
	for i := range a {
		out[i] = make([]uint64, len(a[i])*gap)
		for j := range a[i] {
			out[i][j*gap] = a[i][j]
		}
	}
	return out
}

func take(a [][]uint64, gap int) [][]uint64 {
	out := make([][]uint64, len(a))
	for i := range a {
		for j := 0; j < len(a[i]); j += gap {
			out[i] = append(out[i], a[i][j])
		}
	}
	return out
}

// ZZ_MapNTT: the transform of a(X^gap) from the transform of a.
func ZZ_MapNTT() {
	for _, t := range types {
		for _, n := range degrees() {
			for _, m := range degrees() {
				if m < n || t == ring.ConjugateInvariant && m != n {
					continue
				}
				for level := 0; level < 3; level++ {
					s, l := zz.Ring(n, q[:level+1], t), zz.Ring(m, q[:level+1], t)
					a := zz.Poly("a", s, level)
					x := zz.Rows(a)
					s.NTTLvl(level, a, a)
					y := zz.Rows(a)
					b := zz.PolyMax("b", l, level, 0)
					ring.MapSmallDimensionToLargerDimensionNTT(a, b)
					zz.Same(a, y, "MapSmallDimensionToLargerDimensionNTT: operand changed")
					l.InvNTTLvl(level, b, b)
					is(b, spread(x, m/n), "MapSmallDimensionToLargerDimensionNTT")
				}
			}
		}
	}
}

// ct returns a ciphertext with arbitrary reduced (or, k = 0, arbitrary) coefficients.
func ct(name string, deg int, r *ring.Ring, level int, k uint64) *rlwe.Ciphertext {
	c := new(rlwe.Ciphertext)
	for d := 0; d <= deg; d++ {
		c.Value = append(c.Value, zz.PolyMax(name, r, level, k))
	}
	return c
}

// ZZ_SwitchCoefficients: coefficient-domain switching, both ways.
func ZZ_SwitchCoefficients() {
	for _, n := range degrees() {
		for _, m := range degrees() {
			for deg := 0; deg <= 2; deg++ {
				for lo := 0; lo < 2; lo++ {
					li := 1
					s, l := zz.Ring(n, q, ring.Standard), zz.Ring(m, q, ring.Standard)
					in, out := ct("in", deg, s, li, 1), ct("out", deg, l, lo, 0)
					var x [][][]uint64
					for _, v := range in.Value {
						x = append(x, zz.Rows(v))
					}
					rlwe.SwitchCiphertextRingDegree(in, out)
					for d := range in.Value {
						zz.Same(in.Value[d], x[d], "SwitchCiphertextRingDegree: operand changed")
						w := x[d][:lo+1]
						if n > m {
							w = take(w, n/m)
						} else {
							w = spread(w, m/n)
						}
						is(out.Value[d], w, "SwitchCiphertextRingDegree")
					}
				}
			}
		}
	}
}

// ZZ_SwitchNTT: switching in the transformed domain, both ways.
func ZZ_SwitchNTT() {
	for _, n := range degrees() {
		for _, m := range degrees() {
			for deg := 0; deg <= 2; deg += 2 {
				for level := 0; level < 2; level++ {
					s, l := zz.Ring(n, q, ring.Standard), zz.Ring(m, q, ring.Standard)
					li := level
					if n > m {
						li = 1
					}
					in, out := ct("in", deg, s, li, 1), ct("out", deg, l, level, 0)
					var x, y [][][]uint64
					for _, v := range in.Value {
						x = append(x, zz.Rows(v))
						s.NTTLvl(li, v, v)
						y = append(y, zz.Rows(v))
					}
					if n > m {
						rlwe.SwitchCiphertextRingDegreeNTT(in, l, s, out)
					} else {
						rlwe.SwitchCiphertextRingDegreeNTT(in, s, l, out)
					}
					for d := range in.Value {
						zz.Same(in.Value[d], y[d], "SwitchCiphertextRingDegreeNTT: operand changed")
						w := x[d][:level+1]
						if n > m {
							w = take(w, n/m)
						} else {
							w = spread(w, m/n)
						}
						l.InvNTTLvl(level, out.Value[d], out.Value[d])
						is(out.Value[d], w, "SwitchCiphertextRingDegreeNTT")
					}
				}
			}
		}
	}
}

// full asserts that p (2n coefficients) is a_0 + sum a_i (X^i + X^-i).
func full(p *ring.Poly, a [][]uint64, id string) {
	for i := range a {
		n := len(a[i])
		for j := 0; j < n; j++ {
			zzvsym.Assert(p.Coeffs[i][j] == a[i][j], id)
		}
		zzvsym.Assert(p.Coeffs[i][n] == 0, id)
		for j := 1; j < n; j++ {
			zz.Reduced(p.Coeffs[i][2*n-j], zz.U(0).Neg(zz.U(a[i][j])), q[i], id)
		}
	}
}

// rings returns the conjugate invariant ring of degree n and the standard one of degree 2n, derived from each other or built apart.
func rings(n, k int) (ci, st *ring.Ring) {
	var err error
	switch k {
	case 0:
		return zz.Ring(n, q, ring.ConjugateInvariant), zz.Ring(2*n, q, ring.Standard)
	case 1:
		ci = zz.Ring(n, q, ring.ConjugateInvariant)
		st, err = ci.StandardRing()
	default:
		st = zz.Ring(2*n, q, ring.Standard)
		ci, err = st.ConjugateInvariantRing()
	}
	if err != nil {
		panic(err)
	}
	return
}

func ZZ_Unfold() {
	for _, n := range degrees() {
		for k := 0; k < 3; k++ {
			if k > 0 && n > 32 {
				continue
			}
			for level := 0; level < 3; level++ {
				ci, st := rings(n, k)
				a := zz.Poly("a", ci, level)
				x := zz.Rows(a)
				ci.NTTLvl(level, a, a)
				y := zz.Rows(a)
				b := zz.PolyMax("b", st, 2, 0)
				z := zz.Rows(b)
				st.UnfoldConjugateInvariantToStandard(level, a, b)
				zz.Same(a, y, "UnfoldConjugateInvariantToStandard: operand changed")
				zz.SameFrom(b, z, level+1, "UnfoldConjugateInvariantToStandard: row beyond the level changed")
				st.InvNTTLvl(level, b, b)
				full(b, x, "UnfoldConjugateInvariantToStandard")
			}
		}
	}
}

// Folding adds the image under X -> X^-1: coefficient i becomes a_i - a_(2n-i), the constant one 2*a_0.
func ZZ_Fold() {
	for _, n := range degrees() {
		for k := 0; k < 3; k++ {
			if k > 0 && n > 32 {
				continue
			}
			for level := 0; level < 3; level++ {
				ci, st := rings(n, k)
				a := zz.Poly("a", st, level)
				x := zz.Rows(a)
				st.NTTLvl(level, a, a)
				y := zz.Rows(a)
				b := zz.PolyMax("b", ci, 2, 0)
				z := zz.Rows(b)
				ci.FoldStandardToConjugateInvariant(level, a, st.PermuteNTTIndex(uint64(4*n-1)), b)
				zz.Same(a, y, "FoldStandardToConjugateInvariant: operand changed")
				zz.SameFrom(b, z, level+1, "FoldStandardToConjugateInvariant: row beyond the level changed")
				ci.InvNTTLvl(level, b, b)
				for i := 0; i <= level; i++ {
					for j := 0; j < n; j++ {
						w := zz.U(x[i][j])
						if j == 0 {
							w.Add(w, w)
						} else {
							w.Sub(w, zz.U(x[i][2*n-j]))
						}
						zz.Reduced(b.Coeffs[i][j], w, q[i], "FoldStandardToConjugateInvariant")
					}
				}
			}
		}
	}
}

// ZZ_RoundTrip: folding an unfolded polynomial doubles it, unfolding a folded one gives a(X)+a(1/X).
func ZZ_RoundTrip() {
	for _, n := range degrees() {
		level := 2
		ci, st := rings(n, 0)
		a, b, c := zz.Poly("a", ci, level), st.NewPoly(), ci.NewPoly()
		st.UnfoldConjugateInvariantToStandard(level, a, b)
		ci.FoldStandardToConjugateInvariant(level, b, st.PermuteNTTIndex(uint64(4*n-1)), c)
		for i := range q {
			for j := 0; j < n; j++ {
				w := zz.U(a.Coeffs[i][j])
				zz.Reduced(c.Coeffs[i][j], w.Add(w, w), q[i], "fold after unfold")
			}
		}
	}
}

// ZZ_Pad: the embedding of the compressed form into the ring of twice the degree, both domains.
func ZZ_Pad() {
	for _, n := range degrees() {
		for _, ntt := range []bool{false, true} {
			for la := 0; la < 3; la++ {
				for lb := 0; lb < 3; lb++ {
					if n > 16 && ntt && (la != lb || la == 2) {
						continue
					}
					ci, st := rings(n, 0)
					level := la
					if lb < la {
						level = lb
					}
					a, b := zz.Poly("a", ci, la), zz.PolyMax("b", st, lb, 0)
					x, z := zz.Rows(a), zz.Rows(b)
					if ntt {
						ci.NTTLvl(la, a, a)
					}
					a.IsNTT, b.IsNTT = ntt, !ntt
					y := zz.Rows(a)
					ring.PadDefaultRingToConjuateInvariant(a, st, b)
					zz.Same(a, y, "PadDefaultRingToConjuateInvariant: operand changed")
					zzvsym.Assert(b.IsNTT == ntt && a.IsNTT == ntt, "PadDefaultRingToConjuateInvariant: domain")
					zz.SameFrom(b, z, level+1, "PadDefaultRingToConjuateInvariant: row beyond the level changed")
					if ntt {
						st.InvNTTLvl(level, b, b)
					}
					full(b, x[:level+1], "PadDefaultRingToConjuateInvariant")
				}
			}
		}
	}
}
