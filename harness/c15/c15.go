// Package c15: key generation.
// Bounds: ring degree 16 (and 32 for keys between degrees), standard and conjugate-invariant rings, two to four moduli and one to three special primes (with and without a last partial digit); arbitrary secrets, masks and errors (below 20 in absolute value with fixed sign patterns); the listed Galois elements.
package c15

import (
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math/big"
)

// plainRow undoes the Montgomery form of an NTT row and checks its range.
func plainRow(c []uint64, m uint64, id string) pol {
	out := make(pol, len(c))
	inv := zz.InvR(m)
	for j := range c {
		zzvsym.Assert(c[j] < m, id+": range")
		out[j] = new(big.Int).Mul(zz.U(c[j]), inv)
	}
	return out
}

func cong(got, want pol, q uint64, id string) {
	zzvsym.Assert(len(got) == len(want), id+": degree")
	for j := range got {
		zzvsym.Assert(zzvsym.Cong(got[j], want[j], zz.U(q)), id)
	}
}

// keyRows checks a secret key against integer coefficients.
func keyRows(params rlwe.Parameters, sk *rlwe.SecretKey, v []*big.Int, id string) {
	r := params.RingQ()
	zzvsym.Assert(len(sk.Value.Q.Coeffs) == params.QCount(), id+": rows")
	for i, m := range r.Modulus {
		cong(plainRow(sk.Value.Q.Coeffs[i], m, id), rowNTT(r, i, v), m, id+": secret")
	}
	if params.PCount() == 0 {
		return
	}
	zzvsym.Assert(len(sk.Value.P.Coeffs) == params.PCount(), id+": rows")
	for i, m := range params.RingP().Modulus {
		cong(plainRow(sk.Value.P.Coeffs[i], m, id), rowNTT(params.RingP(), i, v), m, id+": secret")
	}
}

var chains = [][2][]uint64{
	{{zz.Q61, zz.Q30}, nil},
	{{zz.Q60, zz.Q15}, {zz.P61}},
	{{zz.Q30, zz.Q61, zz.Q15}, {zz.P30, zz.P61}},
}

func types(f func(t ring.Type)) {
	f(ring.Standard)
	f(ring.ConjugateInvariant)
}

func ZZ_SecretKey() {
	types(func(t ring.Type) {
		for _, c := range chains {
			params := params(4, c[0], c[1], t)
			kg := rlwe.NewKeyGenerator(params)
			h := hook(params)
			keyRows(params, kg.GenSecretKey(), h.tern[0], "GenSecretKey")
			keyRows(params, kg.GenSecretKeyWithDistrib(0.3), h.tern[1], "GenSecretKeyWithDistrib")
			keyRows(params, kg.GenSecretKeyWithHammingWeight(5), h.tern[2], "GenSecretKeyWithHammingWeight")
			keyRows(params, kg.GenSecretKeyGaussian(), h.errs[0], "GenSecretKeyGaussian")
			off()
		}
	})
}

// publicKey checks b + a*s = e.
func publicKey(params rlwe.Parameters, pk *rlwe.PublicKey, q, p []pol, e []*big.Int, id string) {
	rows := func(r *ring.Ring, b, a *ring.Poly, s []pol) {
		zzvsym.Assert(len(b.Coeffs) == len(r.Modulus) && len(a.Coeffs) == len(r.Modulus), id+": rows")
		for i, m := range r.Modulus {
			for j := range b.Coeffs[i] {
				zzvsym.Assert(b.Coeffs[i][j] < m && a.Coeffs[i][j] < m, id+": range")
			}
			cong(row(r, i, b.Coeffs[i], true).add(row(r, i, a.Coeffs[i], true).mul(s[i])), rowNTT(r, i, e), m, id+": b + a*s = e")
		}
	}
	rows(params.RingQ(), pk.Value[0].Q, pk.Value[1].Q, q)
	if params.PCount() > 0 {
		rows(params.RingP(), pk.Value[0].P, pk.Value[1].P, p)
	}
}

func ZZ_PublicKey() {
	types(func(t ring.Type) {
		for _, c := range chains {
			params := params(4, c[0], c[1], t)
			kg := rlwe.NewKeyGenerator(params)
			s := anySecret(params)
			h := hook(params)
			pk := kg.GenPublicKey(s.key)
			s.same("GenPublicKey")
			publicKey(params, pk, s.q, s.p, h.errs[0], "GenPublicKey")
			sk, pk := kg.GenKeyPair()
			keyRows(params, sk, h.tern[0], "GenKeyPair")
			var q, p []pol
			for i := range params.RingQ().Modulus {
				q = append(q, rowNTT(params.RingQ(), i, h.tern[0]))
			}
			for i := 0; i < params.PCount(); i++ {
				p = append(p, rowNTT(params.RingP(), i, h.tern[0]))
			}
			publicKey(params, pk, q, p, h.errs[1], "GenKeyPair")
			off()
		}
	})
}

// gadget checks every row of a key: b_i + a_i*out = e_i + P*in on the moduli of digit i, b_i + a_i*out = e_i elsewhere.
func gadget(params rlwe.Parameters, swk *rlwe.SwitchingKey, levelQ, levelP int, in, outQ, outP []pol, e [][]*big.Int, id string) {
	rq, rp := params.RingQ(), params.RingP()
	digits := (levelQ + levelP + 1) / (levelP + 1)
	zzvsym.Assert(len(swk.Value) == digits, id+": digits")
	zzvsym.Assert(len(e) == digits, id+": one error per digit")
	P := zz.Prod(rp.Modulus[:levelP+1])
	for d := range swk.Value {
		b, a := swk.Value[d][0], swk.Value[d][1]
		zzvsym.Assert(len(b.Q.Coeffs) == levelQ+1 && len(a.Q.Coeffs) == levelQ+1 && len(b.P.Coeffs) == levelP+1 && len(a.P.Coeffs) == levelP+1, id+": levels")
		for i := 0; i <= levelQ; i++ {
			m := rq.Modulus[i]
			want := rowNTT(rq, i, e[d])
			if i/(levelP+1) == d {
				for j := range want {
					want[j] = new(big.Int).Add(want[j], new(big.Int).Mul(P, in[i][j]))
				}
			}
			cong(plainRow(b.Q.Coeffs[i], m, id).add(plainRow(a.Q.Coeffs[i], m, id).mul(outQ[i])), want, m, id+": gadget row (Q)")
		}
		for i := 0; i <= levelP; i++ {
			m := rp.Modulus[i]
			cong(plainRow(b.P.Coeffs[i], m, id).add(plainRow(a.P.Coeffs[i], m, id).mul(outP[i])), rowNTT(rp, i, e[d]), m, id+": gadget row (P)")
		}
	}
}

var gchains = [][2][]uint64{
	{{zz.Q60, zz.Q15}, {zz.P61}},
	{{zz.Q30, zz.Q61, zz.Q15}, {zz.P30, zz.P61}},
	{{zz.Q30, zz.Q61, zz.Q15, zz.Q55}, {zz.P30, zz.P55}},
}

var small3 = [][2][]uint64{{{zz.Q30, zz.Q61, zz.Q15}, {zz.P30, zz.P61}}}

// each runs f on a fresh key generator with every sampler hooked.
func each(t ring.Type, f func(params rlwe.Parameters, kg rlwe.KeyGenerator, h *samples)) {
	cs := gchains
	if !zzvsym.Thorough() && t == ring.ConjugateInvariant {
		cs = small3
	}
	for _, c := range cs {
		params := params(4, c[0], c[1], t)
		kg := rlwe.NewKeyGenerator(params)
		h := hook(params)
		f(params, kg, h)
		off()
	}
}

func (h *samples) take() [][]*big.Int {
	e := h.errs
	h.errs = nil
	return e
}

func ZZ_SwitchingKey() {
	types(func(t ring.Type) {
		each(t, func(params rlwe.Parameters, kg rlwe.KeyGenerator, h *samples) {
			in, out := anySecret(params), anySecret(params)
			swk := kg.GenSwitchingKey(in.key, out.key)
			in.same("GenSwitchingKey")
			out.same("GenSwitchingKey")
			gadget(params, swk, params.QCount()-1, params.PCount()-1, in.q, out.q, out.p, h.take(), "GenSwitchingKey")
			// a second key after the first
			swk = kg.GenSwitchingKey(out.key, in.key)
			gadget(params, swk, params.QCount()-1, params.PCount()-1, out.q, in.q, in.p, h.take(), "GenSwitchingKey")
		})
	})
}

func ZZ_RelinearizationKey() {
	types(func(t ring.Type) {
		each(t, func(params rlwe.Parameters, kg rlwe.KeyGenerator, h *samples) {
			s := anySecret(params)
			max := 1 + params.QCount()%2
			evk := kg.GenRelinearizationKey(s.key, max)
			s.same("GenRelinearizationKey")
			zzvsym.Assert(len(evk.Keys) == max, "GenRelinearizationKey: keys")
			e := h.take()
			k := len(e) / max
			power := s.q
			for d := range evk.Keys {
				next := make([]pol, len(power))
				for i := range power {
					next[i] = power[i].mul(s.q[i])
				}
				power = next
				gadget(params, evk.Keys[d], params.QCount()-1, params.PCount()-1, power, s.q, s.p, e[d*k:(d+1)*k], "GenRelinearizationKey")
			}
		})
	})
}

// power is g^k modulo m, for any k.
func power(g uint64, k int, m uint64) uint64 {
	// the order of g divides m
	x := new(big.Int).Exp(zz.U(g), big.NewInt(int64((k%int(m)+int(m))%int(m))), zz.U(m))
	return x.Uint64()
}

// automorphism maps the NTT rows of s by X -> X^g.
func automorphism(r *ring.Ring, t ring.Type, s []pol, g uint64) []pol {
	out := make([]pol, len(s))
	nth := int(r.NthRoot)
	// evaluation point of every entry, found by transforming X
	for i := range s {
		out[i] = make(pol, r.N)
		x := make([]uint64, r.N)
		x[1] = 1
		r.NTTSingle(i, x, x)
		m := r.Modulus[i]
		// at a point w the image is s(w^g)
		at := map[uint64]int{}
		for j, w := range x {
			at[w] = j
		}
		for j, w := range x {
			y := pow(t, w, g, m, nth)
			k, ok := at[y]
			if !ok {
				panic("point not found")
			}
			out[i][j] = s[i][k]
		}
	}
	return out
}

// pow gives the point of X -> X^g. In the conjugate-invariant ring the points are w + 1/w.
func pow(t ring.Type, w, g, m uint64, nth int) uint64 {
	M := zz.U(m)
	if t == ring.Standard {
		return new(big.Int).Exp(zz.U(w), zz.U(g), M).Uint64()
	}
	// Chebyshev recursion: c_0 = 2, c_1 = w, c_{k+1} = w*c_k - c_{k-1}
	a, b := big.NewInt(2), zz.U(w)
	for k := uint64(1); k < g; k++ {
		c := new(big.Int).Mul(zz.U(w), b)
		c.Sub(c, a)
		a, b = b, c.Mod(c, M)
	}
	return b.Uint64()
}

// rotation checks a key that carries s under the inverse of g.
func rotation(params rlwe.Parameters, t ring.Type, swk *rlwe.SwitchingKey, s *secret, g uint64, e [][]*big.Int, id string) {
	nth := params.RingQ().NthRoot
	inv := new(big.Int).ModInverse(zz.U(g), zz.U(nth)).Uint64()
	gadget(params, swk, params.QCount()-1, params.PCount()-1, s.q, automorphism(params.RingQ(), t, s.q, inv), automorphism(params.RingP(), t, s.p, inv), e, id)
}

func ZZ_RotationKeys() {
	types(func(t ring.Type) {
		each(t, func(params rlwe.Parameters, kg rlwe.KeyGenerator, h *samples) {
			s := anySecret(params)
			nth := params.RingQ().NthRoot
			for _, k := range []int{0, 1, -1, 3, 7, 8, -5, 100} {
				g := power(5, k, nth)
				rotation(params, t, kg.GenSwitchingKeyForRotationBy(k, s.key), s, g, h.take(), "GenSwitchingKeyForRotationBy")
				rotation(params, t, kg.GenSwitchingKeyForGalois(g, s.key), s, g, h.take(), "GenSwitchingKeyForGalois")
			}
			if t == ring.Standard {
				rotation(params, t, kg.GenSwitchingKeyForRowRotation(s.key), s, nth-1, h.take(), "GenSwitchingKeyForRowRotation")
				rotation(params, t, kg.GenSwitchingKeyForGalois(nth-5, s.key), s, nth-5, h.take(), "GenSwitchingKeyForGalois")
			}
			s.same("GenSwitchingKeyForGalois")
		})
	})
}

func ZZ_RotationSets() {
	types(func(t ring.Type) {
		each(t, func(params rlwe.Parameters, kg rlwe.KeyGenerator, h *samples) {
			s := anySecret(params)
			nth := params.RingQ().NthRoot
			set := func(rks *rlwe.RotationKeySet, gs []uint64, id string) {
				e := h.take()
				zzvsym.Assert(len(rks.Keys) == len(gs), id+": number of keys")
				k := len(e) / len(gs)
				for i, g := range gs {
					swk, ok := rks.GetRotationKey(g)
					zzvsym.Assert(ok, id+": Galois element")
					if ok {
						rotation(params, t, swk, s, g, e[i*k:(i+1)*k], id)
					}
				}
			}
			ks := []int{1, -3, 8}
			gs := []uint64{power(5, 1, nth), power(5, -3, nth), power(5, 8, nth)}
			set(kg.GenRotationKeys(gs, s.key), gs, "GenRotationKeys")
			if t == ring.Standard {
				set(kg.GenRotationKeysForRotations(ks, true, s.key), append(gs, nth-1), "GenRotationKeysForRotations")
				set(kg.GenRotationKeysForInnerSum(s.key), []uint64{5, 25, power(5, 4, nth), nth - 1}, "GenRotationKeysForInnerSum")
			} else {
				set(kg.GenRotationKeysForRotations(ks, false, s.key), gs, "GenRotationKeysForRotations")
				set(kg.GenRotationKeysForInnerSum(s.key), []uint64{5, 25, power(5, 4, nth), power(5, 8, nth)}, "GenRotationKeysForInnerSum")
			}
		})
	})
}

// smallSecret is a secret given by its integer coefficients, over the given moduli.
func smallSecret(n int, q, p []uint64, v []*big.Int) *rlwe.SecretKey {
	rows := func(m []uint64) *ring.Poly {
		r := zz.Ring(n, m, ring.Standard)
		x := ring.NewPoly(n, len(m))
		for i := range m {
			for j, c := range rowNTT(r, i, v) {
				w := new(big.Int).Mul(c, zz.Two64)
				x.Coeffs[i][j] = w.Mod(w, zz.U(m[i])).Uint64()
			}
		}
		return x
	}
	return &rlwe.SecretKey{Value: rlwe.PolyQP{Q: rows(q), P: rows(p)}}
}

func plainRows(r *ring.Ring, v []*big.Int) (out []pol) {
	for i := range r.Modulus {
		out = append(out, rowNTT(r, i, v))
	}
	return
}

// embed is v(X^k).
func embed(v []*big.Int, k int) []*big.Int {
	out := make([]*big.Int, len(v)*k)
	for j := range out {
		out[j] = new(big.Int)
	}
	for j := range v {
		out[j*k] = v[j]
	}
	return out
}

// ZZ_Degrees: keys between ring degrees 16 and 32 and between levels.
func ZZ_Degrees() {
	q, p := []uint64{zz.Q60, zz.Q30, zz.Q15}, []uint64{zz.P61, zz.P30}
	params := params(5, q, p, ring.Standard)
	kg := rlwe.NewKeyGenerator(params)
	h := hook(params)
	defer off()
	rq, rp := params.RingQ(), params.RingP()
	id := "GenSwitchingKey (between degrees)"
	// small to large
	a, b := small("s", 1, 0, 16), small("s", 1, 1, 32)
	swk := kg.GenSwitchingKey(smallSecret(16, q, p, a), smallSecret(32, q, p, b))
	gadget(params, swk, 2, 1, plainRows(rq, embed(a, 2)), plainRows(rq, b), plainRows(rp, b), h.take(), id)
	// large to small
	swk = kg.GenSwitchingKey(smallSecret(32, q, p, b), smallSecret(16, q, p, a))
	gadget(params, swk, 2, 1, plainRows(rq, b), plainRows(rq, embed(a, 2)), plainRows(rp, embed(a, 2)), h.take(), id)
	// input of a lower level
	id = "GenSwitchingKey (between levels)"
	for l := 1; l < 3; l++ {
		c := small("s", 1, l, 32)
		swk = kg.GenSwitchingKey(smallSecret(32, q[:l], p, c), smallSecret(32, q, p, b))
		gadget(params, swk, 2, 1, plainRows(rq, c), plainRows(rq, b), plainRows(rp, b), h.take(), id)
		swk = kg.GenSwitchingKey(smallSecret(16, q[:l], p, a), smallSecret(32, q, p, b))
		gadget(params, swk, 2, 1, plainRows(rq, embed(a, 2)), plainRows(rq, b), plainRows(rp, b), h.take(), id)
		// output of a lower level, or with fewer special primes
		swk = kg.GenSwitchingKey(smallSecret(32, q, p, c), smallSecret(32, q[:l], p, b))
		gadget(params, swk, l-1, 1, plainRows(rq, c), plainRows(rq, b), plainRows(rp, b), h.take(), id)
		swk = kg.GenSwitchingKey(smallSecret(32, q, p, c), smallSecret(32, q[:l], p[:1], b))
		gadget(params, swk, l-1, 0, plainRows(rq, c), plainRows(rq, b), plainRows(rp, b), h.take(), id)
	}
}

// ZZ_FewerPrimes: an output key with fewer special primes than the parameters.
func ZZ_FewerPrimes() {
	q, p := []uint64{zz.Q60, zz.Q30, zz.Q15, zz.Q45}, []uint64{zz.P61, zz.P30, zz.R61}
	params := params(4, q, p, ring.Standard)
	kg := rlwe.NewKeyGenerator(params)
	h := hook(params)
	defer off()
	rq, rp := params.RingQ(), params.RingP()
	a, b := small("s", 1, 0, 16), small("s", 1, 1, 16)
	for l := 0; l < 4; l++ {
		for lp := 0; lp < 3; lp++ {
			swk := kg.GenSwitchingKey(smallSecret(16, q, p, a), smallSecret(16, q[:l+1], p[:lp+1], b))
			gadget(params, swk, l, lp, plainRows(rq, a), plainRows(rq, b), plainRows(rp, b), h.take(), "GenSwitchingKey (fewer special primes)")
		}
	}
}

// ZZ_RingSwap: keys between the standard and the conjugate-invariant ring.
func ZZ_RingSwap() {
	q, p := []uint64{zz.Q60, zz.Q30, zz.Q15}, []uint64{zz.P61, zz.P30}
	params := params(5, q, p, ring.Standard)
	ci := rparams(4, q, p)
	kg := rlwe.NewKeyGenerator(params)
	h := hook(params)
	defer off()
	rq, rp := params.RingQ(), params.RingP()
	std := anySecret(params)
	// the conjugate-invariant secret sum c_j (X^j + X^-j)
	c := small("s", 1, 2, 16)
	sk := rlwe.NewSecretKey(ci)
	fill := func(r *ring.Ring, x *ring.Poly) {
		for i, m := range r.Modulus {
			for j, v := range rowNTT(r, i, c) {
				w := new(big.Int).Mul(v, zz.Two64)
				x.Coeffs[i][j] = w.Mod(w, zz.U(m)).Uint64()
			}
		}
	}
	fill(ci.RingQ(), sk.Value.Q)
	fill(ci.RingP(), sk.Value.P)
	w := make([]*big.Int, 32)
	for j := range w {
		w[j] = new(big.Int)
	}
	w[0] = c[0]
	for j := 1; j < 16; j++ {
		w[j] = c[j]
		w[32-j] = new(big.Int).Neg(c[j])
	}
	to, from := kg.GenSwitchingKeysForRingSwap(std.key, sk)
	e := h.take()
	k := len(e) / 2
	// the order in which the two keys are generated is free
	gadget(params, from, 2, 1, plainRows(rq, w), std.q, std.p, e[:k], "GenSwitchingKeysForRingSwap (from conjugate invariant)")
	gadget(params, to, 2, 1, std.q, plainRows(rq, w), plainRows(rp, w), e[k:], "GenSwitchingKeysForRingSwap (to conjugate invariant)")
}

func rparams(logN int, q, p []uint64) rlwe.Parameters {
	return params(logN, q, p, ring.ConjugateInvariant)
}

// ZZ_Fast: the key generator of the accelerated scheme gives keys of the same kind.
func ZZ_Fast() {
	fp := frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: 4, Q: []uint64{zz.Q30, zz.P30, zz.R30}, P: []uint64{zz.S30, zz.Q36}, T: []uint64{zz.Q60, zz.P60}, H: 8, Sigma: 3.2, Gamma: 1})
	kg := frlwe.NewKeyGenerator(fp)
	params := fp.Parameters
	h := hook(params)
	defer off()
	sk := kg.GenSecretKey()
	keyRows(params, sk, h.tern[0], "frlwe.GenSecretKey")
	pk := kg.GenPublicKey(sk)
	publicKey(params, pk, plainRows(params.RingQ(), h.tern[0]), plainRows(params.RingP(), h.tern[0]), h.errs[0], "frlwe.GenPublicKey")
}
