package main

import (
	"fmt"
	"math/big"

	"github.com/mit-dci/zksigma"

	"vref"
)

func init() {
	register(&Check{ID: "C06", Level: "exploration",
		Rule:  "true statements with secret, randomness, key, side or a point changed one at a time (shifted, negated, multiplied by the curve's cube root of unity, exchanged, replaced), invalid sides, equal values modulo the order, out-of-range values; every witness of statements in a group of 107 elements; whether the witness fits is decided by the reference. Non-trivial: a distinct wrong witness whose refusal (or whose unverifiable proof) was observed",
		Run:   runC06,
		Floor: map[string]int64{"wrong gspfs": 1000, "wrong equivalence": 1000, "wrong consistency": 1000, "wrong disjunctive": 1000, "wrong abc": 500, "wrong inequality": 300, "wrong range": 50, "uncheckable abc": 300, "uncheckable inequality": 200, "invalid sides": 100}})
}

// holds tells whether the witness fits the statement, as far as the prover can
// check it.
func (in *Inst) holds(sd zksigma.Side) (fits, checkable bool) {
	p, g, s, w := in.E.P, in.E.P.Grp, in.Stmt, in.Wit
	switch in.Kind {
	case kGSPFS:
		return g.Mul(s[0], w[0]).Eq(s[1]), true
	case kEquiv:
		return g.Mul(s[0], w[0]).Eq(s[1]) && g.Mul(s[2], w[0]).Eq(s[3]), true
	case kCons:
		return p.Commit(w[0], w[1]).Eq(s[0]) && g.Mul(s[2], w[1]).Eq(s[1]), true
	case kDisj:
		switch sd {
		case zksigma.Left:
			return g.Mul(s[0], w[0]).Eq(s[1]), true
		case zksigma.Right:
			return g.Mul(s[2], w[0]).Eq(s[3]), true
		}
		return false, true
	case kABC, kIneq:
		v, sk := w[0], w[1]
		cm, tok := s[0], s[1]
		if in.Kind == kIneq {
			v, sk = new(big.Int).Sub(w[0], w[1]), w[2]
			cm, tok = p.Sub(s[0], s[1]), p.Sub(s[2], s[3])
			sd = zksigma.Right
		}
		z := p.Mod(v).Sign() == 0
		if p.Mod(sk).Sign() == 0 || z && sd != zksigma.Left || !z && sd != zksigma.Right {
			return false, true
		}
		if z { // the either/or prover checks sk*CM = Tok
			return g.Mul(cm, sk).Eq(tok), true
		}
		// tok = sk * (cm - vG)
		return g.Mul(p.Sub(cm, g.Mul(p.G, v)), sk).Eq(tok), false
	case kRange:
		return w[0].Sign() >= 0 && w[0].BitLen() <= 40, true
	}
	panic(in.Kind)
}

// refuse offers a statement and witness to the prover.
func refuse(c *C, in *Inst, sd zksigma.Side, name string) {
	fits, checkable := in.holds(sd)
	if fits {
		c.Count("still right", 1)
		return
	}
	var s []zksigma.ECPoint
	for _, p := range in.Stmt {
		s = append(s, lp(p))
	}
	q, blind, err := libProve(in.Kind, in.E.L, s, in.Wit, sd)
	c.Distinct(in.String(), int(sd))
	if checkable {
		c.Count("wrong "+in.Kind, 1)
		if err == nil {
			c.Violation("accepted", "%s: the prover accepts a wrong witness: %v", name, in)
		}
	} else {
		c.Count("uncheckable "+in.Kind, 1)
	}
	vs := in.Stmt
	if in.Kind == kGSPFS || in.Kind == kIneq {
		vs = in.VStmt()
	}
	if in.Kind == kRange {
		if blind == nil {
			blind = one()
		}
		vs = []vref.Pt{in.E.P.Commit(in.Wit[0], blind)}
	}
	func() {
		defer func() {
			// verifying what came with an error may be malformed
			if r := recover(); r != nil && err == nil {
				panic(r)
			}
		}()
		if ok, _ := libVerify(in.E.L, q, vs); ok {
			c.Violation("verifies", "%s: the prover made a proof that verifies from a wrong witness (error %v): %v", name, err, in)
		}
	}()
}

func runC06(w *W) {
	scal := append([]struct {
		name string
		f    func(c *C, e *Env, x *big.Int) *big.Int
	}{}, intMuts...)
	add := func(n string, f func(c *C, e *Env, x *big.Int) *big.Int) {
		scal = append(scal, struct {
			name string
			f    func(c *C, e *Env, x *big.Int) *big.Int
		}{n, f})
	}
	add("times lambda", func(c *C, e *Env, x *big.Int) *big.Int { return e.P.Mod(new(big.Int).Mul(x, lambda)) })
	add("times lambda squared", func(c *C, e *Env, x *big.Int) *big.Int {
		return e.P.Mod(new(big.Int).Mul(x, new(big.Int).Mul(lambda, lambda)))
	})
	add("inverted", func(c *C, e *Env, x *big.Int) *big.Int {
		if r := new(big.Int).ModInverse(x, e.P.Grp.Order()); r != nil {
			return r
		}
		return one()
	})
	add("any", func(c *C, e *Env, x *big.Int) *big.Int { return c.Int(e.P.Grp.Order()) })
	add("any small", func(c *C, e *Env, x *big.Int) *big.Int { return big.NewInt(int64(c.R.IntN(5) - 2)) })
	// every witness there is, on a small group
	for _, k := range []string{kGSPFS, kEquiv, kCons, kDisj} {
		for i := 0; i < w.Scale(24, 300); i++ {
			w.Case(fmt.Sprintf("toy/%s/%d", k, i), func(c *C) {
				e := toys()[0]
				in := newInst(c, e, k)
				if i%2 == 1 {
					in, _ = poolInst(c, e, k)
				}
				var s []zksigma.ECPoint
				for _, p := range in.Stmt {
					s = append(s, lp(p))
				}
				for x := int64(0); x < 107; x++ {
					wit := append([]*big.Int{}, in.Wit...)
					wit[c.R.IntN(len(wit))] = big.NewInt(x)
					try := *in
					try.Wit = wit
					fits, _ := try.holds(side(in.Right))
					_, _, err := libProve(k, e.L, s, wit, side(in.Right))
					c.Check((err == nil) == fits, "accepted", "the witness fits: %v, the prover: %v: %v", fits, err, &try)
					c.Count("witnesses on a small group", 1)
				}
			})
		}
	}
	for _, k := range sigmaKinds {
		for i := 0; i < w.Scale(160, 3000); i++ {
			w.Case(fmt.Sprintf("%s/%d", k, i), func(c *C) {
				e := c.Env()
				if i%16 == 15 {
					e = wide()[i/16%len(wide())]
					c.Count("on "+e.Name, 1)
				}
				var in *Inst
				if i%3 == 0 {
					in = newInst(c, e, k)
				} else {
					in = plainInst(c, e, k)
				}
				sd := side(in.Right)
				try := func(name string, f func(x *Inst)) {
					x := *in
					x.Stmt = append([]vref.Pt{}, in.Stmt...)
					x.Wit = append([]*big.Int{}, in.Wit...)
					f(&x)
					refuse(c, &x, sd, name)
				}
				for a := range in.Wit {
					m := scal[i%len(scal)]
					try(fmt.Sprintf("secret %d %s", a, m.name), func(x *Inst) { x.Wit[a] = m.f(c, e, x.Wit[a]) })
					m = pick(c, scal)
					try(fmt.Sprintf("secret %d %s", a, m.name), func(x *Inst) { x.Wit[a] = m.f(c, e, x.Wit[a]) })
					for b := a + 1; b < len(in.Wit); b++ {
						try(fmt.Sprintf("secrets %d and %d exchanged", a, b), func(x *Inst) { x.Wit[a], x.Wit[b] = x.Wit[b], x.Wit[a] })
						try(fmt.Sprintf("secrets %d and %d shifted", a, b), func(x *Inst) {
							x.Wit[a], x.Wit[b] = new(big.Int).Add(x.Wit[a], one()), new(big.Int).Sub(x.Wit[b], one())
						})
					}
				}
				for a := range in.Stmt {
					for _, m := range ptMuts {
						try(fmt.Sprintf("point %d %s", a, m.name), func(x *Inst) { x.Stmt[a] = m.f(c, e, x.Stmt[a]) })
					}
					for b := a + 1; b < len(in.Stmt); b++ {
						try(fmt.Sprintf("points %d and %d exchanged", a, b), func(x *Inst) { x.Stmt[a], x.Stmt[b] = x.Stmt[b], x.Stmt[a] })
						try(fmt.Sprintf("points %d and %d shifted by opposite amounts", a, b), func(x *Inst) {
							x.Stmt[a], x.Stmt[b] = e.P.Grp.Add(x.Stmt[a], e.P.H), e.P.Sub(x.Stmt[b], e.P.H)
						})
						try(fmt.Sprintf("points %d and %d negated", a, b), func(x *Inst) {
							x.Stmt[a], x.Stmt[b] = e.P.Grp.Neg(x.Stmt[a]), e.P.Grp.Neg(x.Stmt[b])
						})
						try(fmt.Sprintf("points %d and %d the same", a, b), func(x *Inst) { x.Stmt[a] = x.Stmt[b] })
					}
				}
				if k == kDisj || k == kABC {
					for _, s := range []int{int(sd) ^ 1, 2, 3, -1, -2, 256, 257, 1 << 32, 1<<32 + 1} {
						c.Count("invalid sides", 1)
						refuse(c, in, zksigma.Side(s), fmt.Sprintf("side %d", s))
					}
				}
				if k == kIneq {
					n := e.P.Grp.Order()
					for _, d := range []*big.Int{new(big.Int), n, new(big.Int).Neg(n), new(big.Int).Lsh(n, 70)} {
						x := *in
						x.Wit = []*big.Int{in.Wit[0], new(big.Int).Add(in.Wit[0], d), in.Wit[2]}
						refuse(c, &x, sd, "equal values")
						// and with the commitments to match
						r := c.Uni(n)
						y := x
						y.Stmt = append([]vref.Pt{}, in.Stmt...)
						y.Stmt[1] = e.P.Commit(x.Wit[1], r)
						y.Stmt[3] = e.P.Grp.Mul(e.P.H, e.P.MulAdd(new(big.Int), r, in.Wit[2]))
						refuse(c, &y, sd, "equal values, commitments to match")
					}
				}
				if i < 2 {
					c.Sample("%v", in)
				}
			})
		}
	}
	// points and secrets that coincide, vanish or are opposite
	for _, k := range sigmaKinds {
		for i := 0; i < w.Scale(200, 4000); i++ {
			w.Case(fmt.Sprintf("coincident/%s/%d", k, i), func(c *C) {
				for j := 0; j < 10; j++ {
					in, _ := poolInst(c, c.Env(), k)
					refuse(c, in, side(in.Right), "coincident points and secrets")
					c.Count("coincident points and secrets", 1)
				}
			})
		}
	}
	for i := 0; i < w.Scale(120, 2000); i++ {
		w.Case(fmt.Sprintf("range/%d", i), func(c *C) {
			v := c.Int(vref.N)
			if i < 40 {
				v = new(big.Int).Lsh(one(), uint(40+i))
			} else if i < 60 {
				v = big.NewInt(int64(39 - i))
			} else if i < 80 {
				v = new(big.Int).Neg(two(uint(i - 59)))
			}
			refuse(c, &Inst{E: c.Env(), Kind: kRange, Wit: []*big.Int{v}}, 0, "range")
		})
	}
	// both parties' tokens: the right randomness under another key, and the like
	for i := 0; i < w.Scale(60, 1000); i++ {
		w.Case(fmt.Sprintf("otherkey/%d", i), func(c *C) {
			e := c.Env()
			p, g, n := e.P, e.P.Grp, e.P.Grp.Order()
			sk1, sk2, v, r := c.Uni(n), c.Uni(n), c.Int(n), c.Int(n)
			pk1, pk2 := g.Mul(p.H, sk1), g.Mul(p.H, sk2)
			in := &Inst{E: e, Kind: kCons, Stmt: []vref.Pt{p.Commit(v, r), g.Mul(pk2, r), pk1}, Wit: []*big.Int{v, r}}
			refuse(c, in, 0, "token under another key")
			// randomness off in the commitment only, or in the token only
			r2 := new(big.Int).Add(r, one())
			in.Stmt = []vref.Pt{p.Commit(v, r2), g.Mul(pk1, r), pk1}
			refuse(c, in, 0, "commitment with other randomness")
			in.Stmt = []vref.Pt{p.Commit(v, r), g.Mul(pk1, r2), pk1}
			refuse(c, in, 0, "token with other randomness")
			in.Stmt = []vref.Pt{p.Commit(v, r2), g.Mul(pk1, r2), pk1}
			refuse(c, in, 0, "both with other randomness")
			in.Stmt = []vref.Pt{p.Commit(new(big.Int).Add(v, one()), r), g.Mul(pk1, r), pk1}
			refuse(c, in, 0, "commitment to another value")
			in.Stmt = []vref.Pt{p.Commit(new(big.Int).Neg(v), r), g.Mul(pk1, r), pk1}
			refuse(c, in, 0, "commitment to the opposite value")
			in.Stmt = []vref.Pt{p.Commit(v, new(big.Int).Neg(r)), g.Mul(pk1, r), pk1}
			refuse(c, in, 0, "commitment with the opposite randomness")
			in.Stmt = []vref.Pt{p.Commit(r, v), g.Mul(pk1, r), pk1}
			refuse(c, in, 0, "value and randomness exchanged")
			// one of the two relations
			x, y := c.Uni(n), c.Uni(n)
			eq := &Inst{E: e, Kind: kEquiv, Stmt: []vref.Pt{p.G, g.Mul(p.G, x), p.H, g.Mul(p.H, y)}, Wit: []*big.Int{x}}
			refuse(c, eq, 0, "only the first relation")
			eq.Wit = []*big.Int{y}
			refuse(c, eq, 0, "only the second relation")
			for _, m := range []*big.Int{new(big.Int).Neg(x), new(big.Int).Mul(x, lambda), new(big.Int).Add(x, one())} {
				eq := &Inst{E: e, Kind: kEquiv, Stmt: []vref.Pt{p.G, g.Mul(p.G, x), p.H, g.Mul(p.H, m)}, Wit: []*big.Int{x}}
				refuse(c, eq, 0, "second relation with a related secret")
				eq = &Inst{E: e, Kind: kEquiv, Stmt: []vref.Pt{p.G, g.Mul(p.G, m), p.H, g.Mul(p.H, x)}, Wit: []*big.Int{x}}
				refuse(c, eq, 0, "first relation with a related secret")
			}
			// the other side's witness
			dj := &Inst{E: e, Kind: kDisj, Stmt: []vref.Pt{p.G, g.Mul(p.G, x), p.H, g.Mul(p.H, y)}, Wit: []*big.Int{x}}
			refuse(c, dj, zksigma.Right, "witness of the left side for the right")
			dj.Wit = []*big.Int{y}
			refuse(c, dj, zksigma.Left, "witness of the right side for the left")
		})
	}
}
