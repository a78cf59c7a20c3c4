// Package c14: encryption and decryption.
// Bounds: ring degree 16, one to three moduli of 61 to 15 bits, none to two special primes, every level and domain of the operands (listed combinations); arbitrary secrets, plaintexts, ciphertexts and samples (errors below 20 in absolute value with fixed sign patterns); ciphertexts of degree 0 to 8; with special primes the public key or the ternary sample is partly fixed (see the functions).
package c14

import (
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math/big"
)

// equalNTT asserts that row i of p is reduced and congruent to want (NTT domain).
func equalNTT(r *ring.Ring, i int, p *ring.Poly, want pol, id string) {
	for j := range p.Coeffs[i] {
		zzvsym.Assert(p.Coeffs[i][j] < r.Modulus[i], id+": range")
	}
	got := row(r, i, p.Coeffs[i], p.IsNTT)
	for j := range got {
		zzvsym.Assert(zzvsym.Cong(got[j], want[j], zz.U(r.Modulus[i])), id+": value")
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func plain(params rlwe.Parameters, level int, ntt bool) *rlwe.Plaintext {
	p := zz.Poly("m", params.RingQ(), level)
	p.IsNTT = ntt
	return &rlwe.Plaintext{Value: p}
}

func cipher(params rlwe.Parameters, degree, level int, ntt bool) *rlwe.Ciphertext {
	ct := &rlwe.Ciphertext{}
	for i := 0; i <= degree; i++ {
		p := zz.Poly("c", params.RingQ(), level)
		p.IsNTT = ntt
		ct.Value = append(ct.Value, p)
	}
	return ct
}

func decrypt(q []uint64, degree, lc, lp int, ctNTT, ptNTT bool) {
	id := "Decrypt"
	params := params(q, nil)
	r := params.RingQ()
	s := anySecret(params)
	ct := cipher(params, degree, lc, ctNTT)
	pt := plain(params, lp, ptNTT)
	var want []pol
	level := min(lc, lp)
	for i := 0; i <= level; i++ {
		var x pol
		for k := degree; k >= 0; k-- {
			c := row(r, i, ct.Value[k].Coeffs[i], ctNTT)
			if x == nil {
				x = c
			} else {
				x = x.mul(s.q[i]).add(c)
			}
		}
		want = append(want, x)
	}
	var old [][][]uint64
	for _, v := range ct.Value {
		old = append(old, zz.Rows(v))
	}
	rlwe.NewDecryptor(params, s.key).Decrypt(ct, pt)
	for k, v := range ct.Value {
		zz.Same(v, old[k], id+": ciphertext changed")
	}
	zzvsym.Assert(pt.Level() == level, id+": level")
	zzvsym.Assert(pt.Value.IsNTT == ptNTT, id+": domain")
	for i := 0; i <= level; i++ {
		equalNTT(r, i, pt.Value, want[i], id)
	}
}

func bools(k int) (bool, bool) { return k&1 == 1, k&2 == 2 }

func ZZ_Decrypt() {
	q := []uint64{zz.Q61, zz.Q30, zz.Q15}
	for k := 0; k < 4; k++ {
		a, b := bools(k)
		for d := 0; d < 3; d++ {
			decrypt(q, d, 2-(k+d)%3, (k*2+d)%3, a, b)
			decrypt(q, d, 2, 2, a, b)
		}
	}
}

// ZZ_DecryptHigh: degrees around the place where the accumulator is reduced.
func ZZ_DecryptHigh() {
	for _, d := range []int{3, 6, 7, 8} {
		for k := 0; k < 2; k++ {
			decrypt([]uint64{zz.Q61}, d, 0, 0, k == 1, true)
		}
	}
	decrypt([]uint64{zz.Q55}, 3, 0, 0, true, false)
}

func ZZT_DecryptHigh() {
	for _, q := range []uint64{zz.Q61, zz.Q30} {
		for _, d := range []int{4, 5, 7, 8, 9, 15, 16} {
			for k := 0; k < 2; k++ {
				decrypt([]uint64{q}, d, 0, 0, k == 1, true)
			}
		}
		decrypt([]uint64{q}, 7, 0, 0, true, false)
	}
}

// phase is c0 + c1*s in the NTT domain of modulus i.
func phase(r *ring.Ring, i int, ct *rlwe.Ciphertext, s *secret) pol {
	c0 := row(r, i, ct.Value[0].Coeffs[i], ct.Value[0].IsNTT)
	c1 := row(r, i, ct.Value[1].Coeffs[i], ct.Value[1].IsNTT)
	return c1.mul(s.q[i]).add(c0)
}

func shape(r *ring.Ring, ct *rlwe.Ciphertext, level int, ntt bool, id string) {
	for _, v := range ct.Value[:2] {
		zzvsym.Assert(v.IsNTT == ntt, id+": domain")
		zzvsym.Assert(len(v.Coeffs) == level+1, id+": level")
		for i := range v.Coeffs {
			for _, c := range v.Coeffs[i] {
				zzvsym.Assert(c < r.Modulus[i], id+": range")
			}
		}
	}
}

func cong(got, want pol, q uint64, id string) {
	for j := range got {
		zzvsym.Assert(zzvsym.Cong(got[j], want[j], zz.U(q)), id)
	}
}

// secretKey encrypts with a secret key.
func secretKey(q, p []uint64, lc, lp int, ctNTT, ptNTT, crp bool) {
	id := "Encrypt (secret key)"
	params := params(q, p)
	r := params.RingQ()
	s := anySecret(params)
	enc := rlwe.NewEncryptor(params, s.key)
	h := hook(params)
	defer off()
	pt, ct := plain(params, lp, ptNTT), cipher(params, 1, lc, ctNTT)
	m0 := zz.Rows(pt.Value)
	level := min(lc, lp)
	var a *ring.Poly
	if crp {
		id = "EncryptFromCRP"
		a = zz.Poly("crp", r, level)
		a0 := zz.Rows(a)
		enc.EncryptFromCRP(pt, a, ct)
		zz.Same(a, a0, id+": reference polynomial changed")
	} else {
		enc.Encrypt(pt, ct)
		zzvsym.Assert(len(h.unif) == 1, id+": one uniform sample")
		a = h.unif[0]
	}
	zz.Same(pt.Value, m0, id+": plaintext changed")
	zzvsym.Assert(pt.Value.IsNTT == ptNTT, id+": plaintext domain changed")
	shape(r, ct, level, ctNTT, id)
	zzvsym.Assert(len(h.errs) == 1, id+": one error")
	for i := 0; i <= level; i++ {
		m := row(r, i, pt.Value.Coeffs[i], ptNTT)
		cong(phase(r, i, ct, s), m.add(rowNTT(r, i, h.errs[0])), q[i], id+": phase")
		cong(row(r, i, ct.Value[1].Coeffs[i], ctNTT), row(r, i, a.Coeffs[i], true), q[i], id+": mask")
	}
}

func ZZ_SecretKey() {
	q := []uint64{zz.Q61, zz.Q30, zz.Q15}
	for k := 0; k < 8; k++ {
		a, b := bools(k)
		secretKey(q, nil, 2, 2, a, b, k >= 4)
		secretKey(q, nil, 2-k%2, k%2, a, b, k >= 4)
		secretKey([]uint64{zz.P30, zz.Q15}, []uint64{zz.P61}, k%2, 1, a, b, k >= 4)
	}
}

// anyPublic is a key (b, a) with b + a*s = err.
func anyPublic(params rlwe.Parameters, s *secret, e []*big.Int) *rlwe.PublicKey {
	pk := rlwe.NewPublicKey(params)
	fill := func(r *ring.Ring, s []pol, b, a *ring.Poly) {
		for i, m := range r.Modulus {
			x := rowNTT(r, i, e)
			for j := 0; j < n; j++ {
				a.Coeffs[i][j] = zzvsym.U64("a", 0, m-1)
				w := new(big.Int).Sub(x[j], new(big.Int).Mul(zz.U(a.Coeffs[i][j]), s[i][j]))
				b.Coeffs[i][j] = w.Mod(w, zz.U(m)).Uint64()
			}
		}
	}
	fill(params.RingQ(), s.q, pk.Value[0].Q, pk.Value[1].Q)
	return pk
}

// publicKey encrypts with a public key, without special primes.
func publicKey(q []uint64, lc, lp int, ctNTT, ptNTT bool) {
	id := "Encrypt (public key)"
	params := params(q, nil)
	r := params.RingQ()
	s := anySecret(params)
	e := small("pke", 19, 5)
	enc := rlwe.NewEncryptor(params, anyPublic(params, s, e))
	h := hook(params)
	defer off()
	pt, ct := plain(params, lp, ptNTT), cipher(params, 1, lc, ctNTT)
	m0 := zz.Rows(pt.Value)
	level := min(lc, lp)
	enc.Encrypt(pt, ct)
	zz.Same(pt.Value, m0, id+": plaintext changed")
	zzvsym.Assert(pt.Value.IsNTT == ptNTT, id+": plaintext domain changed")
	shape(r, ct, level, ctNTT, id)
	zzvsym.Assert(len(h.errs) == 2 && len(h.tern) == 1, id+": two errors, one ternary sample")
	// the order in which the two errors are drawn is free
	x, y := 0, 1
	if ctNTT {
		x, y = 1, 0
	}
	for i := 0; i <= level; i++ {
		m := row(r, i, pt.Value.Coeffs[i], ptNTT)
		want := m.add(rowNTT(r, i, h.tern[0]).mul(rowNTT(r, i, e))).add(rowNTT(r, i, h.errs[x])).add(rowNTT(r, i, h.errs[y]).mul(s.q[i]))
		cong(phase(r, i, ct, s), want, q[i], id+": phase")
	}
}

func ZZ_PublicKey() {
	q := []uint64{zz.Q61, zz.Q30, zz.Q15}
	for k := 0; k < 4; k++ {
		a, b := bools(k)
		publicKey(q[k%2:], 1, 1, a, b)
		publicKey(q, 2-k%2, k%2, a, b)
		publicKey(q[1:], k%2, 1, a, b)
	}
}

// monomial is sign*X^k.
func monomial(k int, sign int64) []*big.Int {
	v := make([]*big.Int, n)
	for j := range v {
		v[j] = new(big.Int)
	}
	v[k].SetInt64(sign)
	return v
}

// byMonomial encrypts with special primes when the ternary sample is a signed monomial and the public key is arbitrary:
// each coefficient of u*pk + e is an arbitrary integer below the product of the moduli and the first special prime.
func byMonomial(q, p []uint64, lc, lp int, ctNTT, ptNTT bool, k int, sign int64) {
	id := "Encrypt (public key, special primes)"
	params := params(q, p)
	r, rp := params.RingQ(), params.RingP()
	pk := rlwe.NewPublicKey(params)
	level := min(lc, lp)
	var g, e [2][]*big.Int
	for c := 0; c < 2; c++ {
		e[c] = small("e", 19, c)
		// sum[j] = p0*t + w is coefficient j of u*pk + e
		for j := 0; j < n; j++ {
			w := zz.U(zzvsym.U64("w", 0, p[0]-1))
			t := zzvsym.Big("t", big.NewInt(0), new(big.Int).Sub(zz.Prod(q), zz.One))
			g[c] = append(g[c], t)
			z := new(big.Int).Mul(zz.U(p[0]), t)
			z.Add(z, w)
			z.Sub(z, e[c][j])
			// coefficient j of sign*X^k*pk is +-pk[j-k]
			src, neg := j-k, sign < 0
			if src < 0 {
				src, neg = src+n, !neg
			}
			if neg {
				z.Neg(z)
			}
			for i, m := range q {
				pk.Value[c].Q.Coeffs[i][src] = new(big.Int).Mod(z, zz.U(m)).Uint64()
			}
			pk.Value[c].P.Coeffs[0][src] = new(big.Int).Mod(z, zz.U(p[0])).Uint64()
		}
		r.NTT(pk.Value[c].Q, pk.Value[c].Q)
		rp.NTTLvl(0, pk.Value[c].P, pk.Value[c].P)
	}
	enc := rlwe.NewEncryptor(params, pk)
	h := hook(params)
	defer off()
	h.ternary = func(int) []*big.Int { return monomial(k, sign) }
	h.gaussian = func(c int) []*big.Int { return e[c%2] }
	pt, ct := plain(params, lp, ptNTT), cipher(params, 1, lc, ctNTT)
	m0 := zz.Rows(pt.Value)
	enc.Encrypt(pt, ct)
	zz.Same(pt.Value, m0, id+": plaintext changed")
	shape(r, ct, level, ctNTT, id)
	zzvsym.Assert(len(h.errs) == 2 && len(h.tern) == 1, id+": two errors, one ternary sample")
	for c := 0; c < 2; c++ {
		rows := make([][]uint64, level+1)
		for i := range rows {
			rows[i] = append([]uint64(nil), ct.Value[c].Coeffs[i]...)
			if ctNTT {
				r.InvNTTSingle(i, rows[i], rows[i])
			}
			m := append([]uint64(nil), pt.Value.Coeffs[i]...)
			if ptNTT {
				r.InvNTTSingle(i, m, m)
			}
			for j := 0; c == 0 && j < n; j++ {
				x := new(big.Int).Sub(zz.U(rows[i][j]), zz.U(m[j]))
				rows[i][j] = x.Mod(x, zz.U(q[i])).Uint64()
			}
		}
		for j := 0; j < n; j++ {
			var got []uint64
			for i := range rows {
				got = append(got, rows[i][j])
			}
			// the quotient is exact as long as double precision separates the residues
			zz.Near(got, g[c][j], zz.One, q[:level+1], p[0]>>52 == 0, id+": the quotient by the special prime")
		}
	}
}

func ZZ_PublicKeyP() {
	q := []uint64{zz.Q60, zz.Q30, zz.Q15}
	for k := 0; k < 4; k++ {
		a, b := bools(k)
		byMonomial(q, []uint64{zz.P61}, 2, 2, a, b, 0, 1)
	}
	for k := 0; k < 4; k++ {
		a, b := bools(k)
		byMonomial(q, []uint64{zz.P45}, 2, 2, a, b, 2*k+1, 1)
	}
	byMonomial(q, []uint64{zz.P61, zz.P30}, 1, 2, true, true, 5, -1)
	byMonomial(q, []uint64{zz.P30}, 2, 0, false, false, 15, 1)
}

func ZZT_PublicKeyP() {
	q := []uint64{zz.Q60, zz.Q30, zz.Q15}
	for k := 0; k < 4; k++ {
		a, b := bools(k)
		byMonomial(q[:2], []uint64{zz.P45}, 1, 1, a, b, 3+k, -1)
		byMonomial(q, []uint64{zz.P61, zz.P30}, 1, 2, a, b, 1+k, 1)
	}
}
