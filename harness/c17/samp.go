package c17

import (
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math/big"
)

// samples records what the samplers returned.
type samples struct {
	q, p     *ring.Ring
	errs     [][]*big.Int // Gaussian
	tern     [][]*big.Int
	unif     []*ring.Poly
	ternary  func(k int) []*big.Int // overrides the ternary samples
	gaussian func(k int) []*big.Int
	uniform  func(k int, r *ring.Ring, level int) *ring.Poly
}

// small returns arbitrary integers below bound in absolute value; their signs follow a pattern.
func small(name string, bound uint64, k, n int) []*big.Int {
	v := make([]*big.Int, n)
	for j := range v {
		if (j*5+k*3)%7 < 3 {
			v[j] = new(big.Int).Neg(zz.U(zzvsym.U64(name, 1, bound)))
		} else {
			v[j] = zz.U(zzvsym.U64(name, 0, bound))
		}
	}
	return v
}

// put writes (or adds) integers of known sign.
func put(r *ring.Ring, p *ring.Poly, level int, v []*big.Int, add bool) {
	for i := 0; i <= level; i++ {
		for j := range v {
			c := new(big.Int).Mod(v[j], zz.U(r.Modulus[i]))
			if add {
				c.Add(c, zz.U(p.Coeffs[i][j]))
				c.Mod(c, zz.U(r.Modulus[i]))
			}
			p.Coeffs[i][j] = c.Uint64()
		}
	}
}

func off() {
	ring.ZZGRead, ring.ZZGReadLvl, ring.ZZGAddLvl = nil, nil, nil
	ring.ZZTRead, ring.ZZTReadLvl = nil, nil
	ring.ZZURead, ring.ZZUReadLvl = nil, nil
}

// hook makes every sampler return arbitrary polynomials.
func hook(params rlwe.Parameters) *samples {
	s := &samples{q: params.RingQ(), p: params.RingP()}
	if s.p != nil && len(s.q.Modulus) == len(s.p.Modulus) {
		panic("the two bases need different sizes")
	}
	s.gaussian = func(k int) []*big.Int { return small("e", 19, k, s.q.N) }
	s.ternary = func(k int) []*big.Int { return small("u", 1, k, s.q.N) }
	s.uniform = func(k int, r *ring.Ring, level int) *ring.Poly { return zz.Poly("a", r, level) }
	gauss := func(level int, p *ring.Poly, add bool) {
		v := s.gaussian(len(s.errs))
		s.errs = append(s.errs, v)
		put(s.q, p, level, v, add)
	}
	tern := func(level int, p *ring.Poly) {
		v := s.ternary(len(s.tern))
		s.tern = append(s.tern, v)
		put(s.q, p, level, v, false)
	}
	unif := func(u *ring.UniformSampler, level int, p *ring.Poly) {
		a, b := ring.ZZURead, ring.ZZUReadLvl
		ring.ZZURead, ring.ZZUReadLvl = nil, nil
		rows := len(u.ReadNew().Coeffs)
		ring.ZZURead, ring.ZZUReadLvl = a, b
		r := s.q
		if rows != len(s.q.Modulus) {
			r = s.p
		}
		v := s.uniform(len(s.unif), r, level)
		for i := range v.Coeffs {
			copy(p.Coeffs[i], v.Coeffs[i])
		}
		s.unif = append(s.unif, v)
	}
	ring.ZZGRead = func(_ *ring.GaussianSampler, p *ring.Poly) { gauss(len(s.q.Modulus)-1, p, false) }
	ring.ZZGReadLvl = func(_ *ring.GaussianSampler, l int, p *ring.Poly) { gauss(l, p, false) }
	ring.ZZGAddLvl = func(_ *ring.GaussianSampler, l int, p *ring.Poly) { gauss(l, p, true) }
	ring.ZZTRead = func(_ *ring.TernarySampler, p *ring.Poly) { tern(len(s.q.Modulus)-1, p) }
	ring.ZZTReadLvl = func(_ *ring.TernarySampler, l int, p *ring.Poly) { tern(l, p) }
	ring.ZZURead = func(u *ring.UniformSampler, p *ring.Poly) { unif(u, len(p.Coeffs)-1, p) }
	ring.ZZUReadLvl = func(u *ring.UniformSampler, l int, p *ring.Poly) { unif(u, l, p) }
	return s
}

// pol is a polynomial with integer coefficients modulo one prime, in the NTT domain.
type pol []*big.Int

// rowNTT transforms integers to the NTT domain of modulus i.
func rowNTT(r *ring.Ring, i int, v []*big.Int) pol {
	c := make([]uint64, r.N)
	for j := range v {
		c[j] = new(big.Int).Mod(v[j], zz.U(r.Modulus[i])).Uint64()
	}
	return row(r, i, c, false)
}

// row is a row in the NTT domain.
func row(r *ring.Ring, i int, c []uint64, ntt bool) pol {
	d := append([]uint64(nil), c...)
	if !ntt {
		r.NTTSingle(i, d, d)
	}
	out := make(pol, r.N)
	for j := range out {
		out[j] = zz.U(d[j])
	}
	return out
}

func (a pol) mul(b pol) pol {
	out := make(pol, len(a))
	for j := range out {
		out[j] = new(big.Int).Mul(a[j], b[j])
	}
	return out
}

func (a pol) add(b pol) pol {
	out := make(pol, len(a))
	for j := range out {
		out[j] = new(big.Int).Add(a[j], b[j])
	}
	return out
}

