package main

import (
	"fmt"
	"math/big"

	"vref"
)

// Nonce is one random value of a proof: the scalar if it can be computed from
// the witness, and its multiple of H.
type Nonce struct {
	Name string
	K    *big.Int
	HP   vref.Pt
}

// nonces computes the random values behind a proof from its witness.
func nonces(in *Inst, pr RefProof) (l []Nonce) {
	p, g, w := in.E.P, in.E.P.Grp, in.Wit
	k := func(name string, x *big.Int) {
		x = p.Mod(x)
		l = append(l, Nonce{name, x, g.Mul(p.H, x)})
	}
	pt := func(name string, q vref.Pt) { l = append(l, Nonce{name, nil, q}) }
	sub := func(s, c, x *big.Int) *big.Int { return new(big.Int).Sub(s, new(big.Int).Mul(c, x)) }
	switch q := pr.(type) {
	case *vref.GSPFS:
		k("u", sub(q.S, q.C, new(big.Int).Neg(w[0])))
	case *vref.Equiv:
		k("u", sub(q.S, q.C, w[0]))
	case *vref.Cons:
		k("u1", sub(q.S1, q.C, w[0]))
		k("u2", sub(q.S2, q.C, w[1]))
	case *vref.Disj:
		if in.Right {
			k("u1", sub(q.S2, q.C2, w[0]))
			k("u2", q.S1)
			k("u3", q.C1)
		} else {
			k("u1", sub(q.S1, q.C1, w[0]))
			k("u2", q.S2)
			k("u3", q.C2)
		}
	case *vref.ABC:
		v, sk := w[0], w[1]
		if in.Kind == kIneq {
			v, sk = new(big.Int).Sub(w[0], w[1]), w[2]
		}
		v = p.Mod(v)
		isk := new(big.Int).ModInverse(p.Mod(sk), g.Order())
		u1 := p.Mod(sub(q.J, q.Chal, v))
		k("u1", u1)
		k("u2", sub(q.K, q.Chal, isk))
		pt("u3", p.Sub(q.T2, g.Mul(q.B, u1)))
		if v.Sign() != 0 {
			pt("ub", p.Sub(q.B, g.Mul(p.G, new(big.Int).ModInverse(v, g.Order()))))
			pt("uc", p.Sub(q.C, p.G))
			pt("disj.u1", q.D.T2)
			k("disj.u2", q.D.S1)
			k("disj.u3", q.D.C1)
		} else {
			pt("ub", q.B)
			pt("uc", q.C)
			k("disj.u1", sub(q.D.S1, q.D.C1, sk))
			k("disj.u2", q.D.S2)
			k("disj.u3", q.D.C2)
		}
	case *vref.Range:
		for i, t := range q.Tup {
			if i >= len(p.Pow) {
				break
			}
			if w[0].Bit(i) == 0 {
				pt(fmt.Sprintf("k[%d]", i), q.RPoint(p, i))
				pt(fmt.Sprintf("j[%d]", i), p.Sub(g.Mul(p.H, t.S), g.Mul(t.C, q.E)))
			} else {
				v := p.Sub(t.C, p.Pow[i])
				pt(fmt.Sprintf("k[%d]", i), p.Sub(g.Mul(p.H, t.S), g.Mul(v, q.E)))
				pt(fmt.Sprintf("v[%d]", i), v)
			}
		}
	}
	return
}
