package c14

import (
	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math"
	"math/big"
)

// ZZ_Ckks: the wrappers of the approximate scheme keep the scale and use the level of the plaintext.
func ZZ_Ckks() {
	q := []uint64{zz.Q60, zz.Q15}
	rp := params(q, nil)
	params, err := ckks.NewParameters(rp, 3, 1024)
	if err != nil {
		panic(err)
	}
	r := params.RingQ()
	s := anySecret(rp)
	enc, dec := ckks.NewEncryptor(params, s.key), ckks.NewDecryptor(params, s.key)
	h := hook(rp)
	defer off()
	for level := 0; level < 2; level++ {
		for e := 0; e < 4; e++ {
			id := []string{"ckks.Encrypt", "ckks.EncryptNew", "ckks.EncryptFromCRP", "ckks.EncryptFromCRPNew"}[e]
			scale := zzvsym.F64("scale", 1, 1<<50, 1)
			pt := &ckks.Plaintext{Plaintext: plain(rp, level, e > 0), Scale: scale}
			crp := zz.Poly("crp", r, level)
			var ct *ckks.Ciphertext
			h.errs = nil
			switch e {
			case 0:
				ct = ckks.NewCiphertext(params, 1, 1, 5)
				enc.Encrypt(pt, ct)
			case 1:
				ct = enc.EncryptNew(pt)
			case 2:
				ct = ckks.NewCiphertext(params, 1, 1-level, 5)
				enc.EncryptFromCRP(pt, crp, ct)
			case 3:
				ct = enc.EncryptFromCRPNew(pt, crp)
			}
			zzvsym.Assert(ct.Scale == scale && pt.Scale == scale, id+": scale")
			l := level
			if e == 2 {
				l = min(level, 1-level)
			}
			shape(r, ct.Ciphertext, l, true, id)
			for i := 0; i <= l; i++ {
				m := row(r, i, pt.Value.Coeffs[i], e > 0)
				cong(phase(r, i, ct.Ciphertext, s), m.add(rowNTT(r, i, h.errs[0])), q[i], id+": phase")
			}
			var out *ckks.Plaintext
			if e%2 == 0 {
				id = "ckks.DecryptNew"
				out = dec.DecryptNew(ct)
			} else {
				id = "ckks.Decrypt"
				out = ckks.NewPlaintext(params, 1, 7)
				out.Value.IsNTT = e == 1
				dec.Decrypt(ct, out)
			}
			zzvsym.Assert(out.Scale == scale, id+": scale")
			zzvsym.Assert(out.Level() == l, id+": level")
			for i := 0; i <= l; i++ {
				equalNTT(r, i, out.Value, phase(r, i, ct.Ciphertext, s), id)
			}
		}
	}
}

// ZZ_Messages: decrypting messages one after the other, the first at a lower level.
func ZZ_Messages() {
	params := fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: 4, Q: []uint64{zz.Q30, zz.P30, zz.R30}, P: []uint64{zz.P61}, T: []uint64{zz.Q60, zz.P60}, LogSlots: 3, DefaultScale: 1 << 20, H: 8, Sigma: 3.2, Gamma: 1})
	r := params.RingQ()
	dec := fckks.NewDecryptor(params, rlwe.NewSecretKey(params.Parameters.Parameters))
	for _, level := range []int{0, 2, 1, 2} {
		// every slot holds c/scale
		c := new(big.Int).Rsh(zz.Prod(r.Modulus[:level+1]), 3)
		ct := ckks.NewCiphertext(params.Parameters, 1, level, 1<<20)
		for i := 0; i <= level; i++ {
			ct.Value[0].Coeffs[i][0] = new(big.Int).Mod(c, zz.U(r.Modulus[i])).Uint64()
		}
		r.NTTLvl(level, ct.Value[0], ct.Value[0])
		msg := dec.DecryptToMsgNew(ct)
		want, _ := new(big.Float).SetInt(c).Float64()
		want /= 1 << 20
		for _, v := range msg.Value {
			zzvsym.Assert(math.Abs(real(v)-want) <= want*1e-9 && math.Abs(imag(v)) <= want*1e-9, "DecryptToMsg")
		}
	}
}
