// Package c20: rescaling, setting the scale and dropping levels.
// Bounds: ring degree 16, both ring types, chains of three and four moduli of 60, 45, 36 and 30 bits in two orders; every component coefficient, degrees 0 to 2, every level, fresh and in-place receivers; chosen scales and minimum scales that drop 0 to all but one of the moduli, and ones that would drop them all.
package c20

import (
	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/zzverif/zz"
	"fast-ksw/zzvsym"
	"math"
	"math/big"
)

type env struct {
	p  ckks.Parameters
	ev ckks.Evaluator
	r  *ring.Ring
	q  []uint64
}

type rescaler interface {
	RescaleNew(ct0 *ckks.Ciphertext, threshold float64) (*ckks.Ciphertext, error)
}

func newEnv(t ring.Type, q []uint64) *env {
	rp, err := rlwe.NewParameters(4, q, []uint64{zz.P30}, 8, 3.2, t)
	if err != nil {
		panic(err)
	}
	p, err := ckks.NewParameters(rp, 3, 1<<20)
	if err != nil {
		panic(err)
	}
	return &env{p, ckks.NewEvaluator(p, rlwe.EvaluationKey{}), p.RingQ(), q}
}

var chains = [][]uint64{{zz.Q60, zz.Q36, zz.Q45, zz.Q30}, {zz.Q30, zz.Q45, zz.Q60}, {zz.Q36, zz.P36, zz.Q45}}

// ct returns a ciphertext at a level, every coefficient k^-1 (modulo the
// moduli) times an arbitrary integer, and the integers divided by the last nb
// moduli one after the other, to the nearest integers.
func (e *env) ct(deg, level, nb int, scale float64, k *big.Int) (*ckks.Ciphertext, [][]*big.Int) {
	c := ckks.NewCiphertext(e.p, deg, level, scale)
	var want [][]*big.Int
	for _, p := range c.Value {
		var row []*big.Int
		for j := 0; j < e.r.N; j++ {
			keep := level + 1 - nb
			z := zzvsym.Big("t", big.NewInt(0), new(big.Int).Sub(zz.Prod(e.q[:keep]), zz.One))
			for i := keep; i <= level; i++ {
				m := zz.U(e.q[i])
				z = new(big.Int).Mul(z, m)
				z.Add(z, zz.U(zzvsym.U64("u", 0, e.q[i]-1)))
				z.Sub(z, new(big.Int).Rsh(m, 1))
			}
			for i, q := range e.q[:level+1] {
				inv := new(big.Int).ModInverse(k, zz.U(q))
				x := new(big.Int).Mul(z, inv)
				p.Coeffs[i][j] = x.Mod(x, zz.U(q)).Uint64()
			}
			w := z
			for i := level; i >= keep; i-- {
				m := zz.U(e.q[i])
				w = new(big.Int).Add(w, new(big.Int).Rsh(m, 1))
				w.Div(w, m)
			}
			row = append(row, w)
		}
		want = append(want, row)
		e.r.NTTLvl(level, p, p)
		p.IsNTT = true
	}
	return c, want
}

func same(got, want float64) bool { return math.Abs(got-want) <= want/(1<<45) }

func (e *env) check(c *ckks.Ciphertext, deg, level int, scale float64, want [][]*big.Int, id string) {
	zzvsym.Assert(c.Degree() == deg, id+": degree")
	zzvsym.Assert(c.Level() == level, id+": level")
	zzvsym.Assert(same(c.Scale, scale), id+": scale")
	for u, p := range c.Value {
		zzvsym.Assert(len(p.Coeffs) == level+1, id+": level")
		zzvsym.Assert(p.IsNTT, id+": domain")
		for i := range p.Coeffs {
			for j := range p.Coeffs[i] {
				zzvsym.Assert(p.Coeffs[i][j] < e.q[i], id+": range")
			}
		}
		x := e.r.NewPolyLvl(level)
		e.r.InvNTTLvl(level, p, x)
		for i := 0; i <= level; i++ {
			for j := range x.Coeffs[i] {
				zz.Reduced(x.Coeffs[i][j], want[u][j], e.q[i], id)
			}
		}
	}
	zzvsym.ObserveU(c.Value[deg].Coeffs[level][5])
}

// Receivers.
const (
	inPlace  = iota
	alloc    // the allocating variant
	equal    // of the operand's level
	exact    // of the result's level
	above    // of the largest level, used before
	nReceive = 5
)

// rescale divides at a level with a scale of the dropped moduli times s and a
// minimum that makes nb divisions the right number.
func (e *env) rescale(deg, level, nb int, scale, min float64, recv int) {
	id := "Rescale of level " + zz.Itoa(level) + " by " + zz.Itoa(nb)
	c, want := e.ct(deg, level, nb, scale, zz.One)
	var rows [][][]uint64
	for _, p := range c.Value {
		rows = append(rows, zz.Rows(p))
	}
	o := c
	switch recv {
	case equal:
		o = ckks.NewCiphertext(e.p, deg, level, 3)
	case exact:
		o = ckks.NewCiphertext(e.p, deg, level-nb, 3)
	case above:
		o, _ = e.ct(deg, len(e.q)-1, 0, 3, zz.One)
	}
	var err error
	if recv == alloc {
		id = "RescaleNew of level " + zz.Itoa(level) + " by " + zz.Itoa(nb)
		o, err = e.ev.(rescaler).RescaleNew(c, min)
	} else {
		err = e.ev.Rescale(c, min, o)
	}
	zzvsym.Assert(err == nil, id+": error")
	if recv != inPlace {
		zzvsym.Assert(c.Level() == level && c.Scale == scale, id+": operand changed")
		for u, p := range c.Value {
			zz.Same(p, rows[u], id+": operand changed")
		}
	}
	for i := 0; i < nb; i++ {
		scale /= float64(e.q[level-i])
	}
	e.check(o, deg, level-nb, scale, want, id)
}

// number is the largest number of divisions that keeps the scale at least
// half the minimum and leaves one modulus.
func (e *env) number(level int, scale, min float64) int {
	n := 0
	for n < level && scale/float64(e.q[level-n]) >= min/2 {
		scale /= float64(e.q[level-n])
		n++
	}
	return n
}

func (e *env) all(k int) {
	for level := len(e.q) - 1; level > 0; level-- {
		scale := 1024.0
		for nb := 0; nb <= level+1; nb++ {
			// scale is 1024 times the last nb moduli (all of them and one more time the first at the end)
			for n, min := range []float64{1024, 2047, 513, 2050} {
				m := e.number(level, scale, min)
				if n < 3 && nb <= level {
					zzvsym.Assert(m == nb, "number of divisions") // of the harness itself
				}
				if n > 0 && !zzvsym.Thorough() && (nb+level+n+k)%3 != 0 {
					continue
				}
				e.rescale(k%3, level, m, scale, min, k%nReceive)
				k++
			}
			if nb <= level {
				scale *= float64(e.q[level-nb])
			}
		}
		e.rescale(1, level, level, scale*float64(1<<40), 1, k%nReceive)
		e.rescale(1, level, level, scale*float64(1<<40), 1, (k+1)%nReceive)
	}
}

func ZZ_Rescale() {
	newEnv(ring.Standard, chains[zzvsym.Choose("chain", 3)]).all(zzvsym.Choose("first", 2))
}

func ZZT_RescaleAll() {
	newEnv(ring.Standard, chains[zzvsym.Choose("chain", 3)]).all(2 + zzvsym.Choose("first", 13))
}

func ZZ_RescaleInvariant() {
	newEnv(ring.ConjugateInvariant, chains[2]).all(1)
}

// ZZ_Errors: requests that cannot be met are refused.
func ZZ_Errors() {
	e := newEnv(ring.Standard, chains[2])
	for deg := 1; deg <= 2; deg++ {
		c, _ := e.ct(deg, 0, 0, 1024, zz.One)
		o := ckks.NewCiphertext(e.p, deg, 0, 3)
		zzvsym.Assert(e.ev.Rescale(c, 1, o) != nil, "Rescale at level 0")
		zzvsym.Assert(e.ev.Rescale(c, 1024, c) != nil, "Rescale at level 0")
		_, err := e.ev.(rescaler).RescaleNew(c, 1)
		zzvsym.Assert(err != nil, "RescaleNew at level 0")
		c, want := e.ct(deg, 2, 0, 1<<60, zz.One)
		zzvsym.Assert(e.ev.Rescale(c, 0, c) != nil, "Rescale to a minimum of 0")
		zzvsym.Assert(e.ev.Rescale(c, -1, c) != nil, "Rescale to a negative minimum")
		o = ckks.NewCiphertext(e.p, 3-deg, 2, 3)
		zzvsym.Assert(e.ev.Rescale(c, 1, o) != nil, "Rescale to another degree")
		e.check(c, deg, 2, 1<<60, want, "refused Rescale")
		c.Scale = 0
		zzvsym.Assert(e.ev.Rescale(c, 1, c) != nil, "Rescale of scale 0")
	}
}

// ZZ_SetScale multiplies by the ratio of the scales, rounded after a division
// by the last modulus if it is not an integer.
func ZZ_SetScale() {
	c := chains[zzvsym.Choose("chain", 3)]
	for _, t := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
		e := newEnv(t, c)
		n := 0
		for level := len(e.q) - 1; level > 0; level-- {
			for _, s := range [][2]float64{{1024, 1024}, {1024, 3072}, {1024, 1 << 20}, {1024, 1536}, {1024, 768}, {1024, 2560}, {1 << 14, 100*(1<<14) + 1}, {1 << 60, 3 << 50}, {1 << 20, 1<<40 + 1}, {1 << 80, 3 << 62}} {
				ratio := s[1] / s[0]
				k := big.NewInt(1)
				nb := 0
				id := "SetScale"
				if ratio == math.Trunc(ratio) {
					k.SetInt64(int64(ratio))
				} else {
					nb = 1
					// the nearest integer of the floating-point product
					f := ratio * float64(e.q[level])
					if f < 1<<52 {
						k.SetInt64(int64(f + 0.5))
					} else {
						big.NewFloat(f).Int(k)
					}
				}
				if !zzvsym.Thorough() && n%2 == 1 && level < len(e.q)-1 {
					n++
					continue
				}
				ct, want := e.ct(1+n%2, level, nb, s[0], k)
				n++
				e.ev.SetScale(ct, s[1])
				zzvsym.Assert(ct.Scale == s[1], id+": scale")
				e.check(ct, ct.Degree(), level-nb, s[1], want, id)
			}
		}
	}
}

func ZZ_DropLevel() {
	for _, t := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
		e := newEnv(t, chains[0])
		for level := 0; level < len(e.q); level++ {
			for n := 0; n <= level; n++ {
				deg := (level + n) % 3
				c, want := e.ct(deg, level, 0, 77, zz.One)
				o := e.ev.DropLevelNew(c, n)
				e.check(c, deg, level, 77, want, "DropLevelNew")
				e.check(o, deg, level-n, 77, want, "DropLevelNew")
				e.ev.DropLevel(c, n)
				e.check(c, deg, level-n, 77, want, "DropLevel")
			}
		}
	}
}
