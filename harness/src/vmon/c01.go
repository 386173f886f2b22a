package main

import (
	"fmt"
	"math/big"

	"vref"
)

func init() {
	register(&Check{ID: "C01", Level: "exploration",
		Rule: "true statements with their witness, per proof kind: values, keys and randomness over special residues, every bit length, negative and beyond the order; bases over generators, identity, short coordinates; ten parameter sets on five curves of 224 to 521 bits and two on groups of 107 and 9941 elements; challenges and responses two bytes short; nonces short, 0 or special in every role. Non-trivial: the prover was called on a distinct (statement, witness) and its proof judged by the library's verifier",
		Run:  runC01,
		Floor: map[string]int64{"on toy 107": 10000, "on toy 9941": 10000, "zero Challenge": 50, "zero HiddenValue": 20, "zero C1": 10, "zero disj.C1": 10, "proved gspfs": 1000, "proved equivalence": 1000, "proved consistency": 1000, "proved disjunctive": 1000,
			"proved abc": 1000, "proved inequality": 1000, "parameters other than the default": 1000, "identity in statement": 300, "short coordinates in proof": 100, "on P-384": 80, "on P-521": 80}})
}

// complete proves in and checks that the proof verifies.
func complete(c *C, in *Inst) interface{} {
	p, err := in.Prove()
	c.Distinct(in.String())
	if err != nil {
		c.Violation("refused", "the prover refused a true statement: %v: %v", err, in)
		return nil
	}
	ok, err := libVerify(in.E.L, p, in.VStmt())
	if !ok || err != nil {
		c.Violation("rejected", "an honest proof does not verify: %v %v: %v proof %x", ok, err, in, libBytes(p))
		return nil
	}
	c.Count("proved "+in.Kind, 1)
	if !in.E.Std {
		c.Count("parameters other than the default", 1)
	}
	for _, q := range in.Stmt {
		if q.IsID() {
			c.Count("identity in statement", 1)
			break
		}
	}
	return p
}

func countShort(c *C, in *Inst, p interface{}) {
	if p == nil {
		return
	}
	r, err := refParse(in.Kind, libBytes(p))
	if err != nil {
		return
	}
	for _, m := range members(r) {
		if m.Pt != nil && (m.Pt.X.BitLen() <= 248 || m.Pt.Y.BitLen() <= 248) {
			c.Count("short coordinates in proof", 1)
			return
		}
	}
}

func runC01(w *W) {
	n := w.Scale(9000, 120000)
	for i := 0; i < n; i++ {
		for _, k := range sigmaKinds {
			w.Case(fmt.Sprintf("%s/%d", k, i), func(c *C) {
				e := c.Env()
				in := newInst(c, e, k)
				if i%4 == 1 {
					c.UsePool(shortNonces(), 2)
				} else if i%4 == 2 {
					c.UsePool(specials(), 2)
				}
				p := complete(c, in)
				countShort(c, in, p)
				if i < 2 {
					c.Sample("%v", in)
				}
			})
		}
	}
	// points and secrets that coincide, vanish or are opposite
	for i := 0; i < w.Scale(1200, 20000); i++ {
		for _, k := range sigmaKinds {
			w.Case(fmt.Sprintf("coincident/%s/%d", k, i), func(c *C) {
				e := c.Env()
				for j := 0; j < 4; j++ {
					in, xs := poolInst(c, e, k)
					if fits, _ := in.holds(side(in.Right)); !fits {
						continue
					}
					if i%2 == 1 {
						c.UsePool(xs, 2)
					}
					complete(c, in)
					c.Count("coincident points and secrets", 1)
				}
			})
		}
	}
	// every residue of the special list as the witness of every kind
	for i, s := range specials() {
		for _, k := range sigmaKinds {
			w.Case(fmt.Sprintf("special/%s/%d", k, i), func(c *C) {
				complete(c, specialInst(c, std(), k, s))
				c.Count("special residues", 1)
			})
		}
	}
	// other widths
	for i := 0; i < w.Scale(120, 2000); i++ {
		for _, k := range sigmaKinds {
			w.Case(fmt.Sprintf("wide/%s/%d", k, i), func(c *C) {
				e := wide()[i%len(wide())]
				in := newInst(c, e, k)
				if i%3 == 1 {
					var xs []*big.Int
					in, xs = poolInst(c, e, k)
					if fits, _ := in.holds(side(in.Right)); !fits {
						return
					}
					c.UsePool(xs, 3)
				}
				complete(c, in)
				c.Count("on "+e.Name, 1)
			})
		}
	}
	// small groups: every coincidence of scalars, challenges and points
	for i := 0; i < w.Scale(400, 6000); i++ {
		for _, k := range sigmaKinds {
			w.Case(fmt.Sprintf("toy/%s/%d", k, i), func(c *C) {
				e := toys()[i%len(toys())]
				for j := 0; j < 30; j++ {
					in := newInst(c, e, k)
					if j%2 == 1 {
						in, _ = poolInst(c, e, k)
						if fits, _ := in.holds(side(in.Right)); !fits {
							continue
						}
					}
					p := complete(c, in)
					if p == nil {
						return
					}
					c.Count("on "+e.Name, 1)
					if r, err := refParse(k, libBytes(p)); err == nil {
						for _, m := range members(r) {
							if m.Int != nil && (*m.Int).Sign() == 0 {
								c.Count("zero "+m.Name, 1)
							}
						}
					}
				}
			})
		}
	}
	// challenges and responses that are two bytes short
	for _, k := range sigmaKinds {
		for _, s := range rareSeeds[k] {
			w.Case(fmt.Sprintf("rare/%s/%d", k, s), func(c *C) {
				in, n := rareInst(k, s)
				useScript(n)
				p := complete(c, in)
				if r, err := refParse(k, libBytes(p)); p != nil && err == nil {
					c.Count("short challenges and responses", len(rareMembers(r)))
				}
			})
		}
	}
	// many proofs of one statement and of related ones, one after the other
	for i := 0; i < w.Scale(24, 200); i++ {
		w.Case(fmt.Sprintf("history/%d", i), func(c *C) {
			e := std()
			var ins []*Inst
			for j := 0; j < 60; j++ {
				c.Step(j)
				if len(ins) > 0 && c.R.IntN(3) > 0 {
					in := *pick(c, ins)
					complete(c, &in)
					continue
				}
				in := newInst(c, e, pick(c, sigmaKinds))
				ins = append(ins, in)
				complete(c, in)
			}
			c.Count("history steps", 60)
		})
	}
}

// specialInst uses s as value and as randomness and key where it can.
func specialInst(c *C, e *Env, kind string, s *big.Int) *Inst {
	in := newInst(c, e, kind)
	g := e.P.Grp
	z := new(big.Int)
	switch kind {
	case kGSPFS:
		in.Stmt = []vref.Pt{e.P.G, g.Mul(e.P.G, s)}
		in.Wit = []*big.Int{s}
	case kEquiv:
		in.Stmt = []vref.Pt{e.P.G, g.Mul(e.P.G, s), e.P.H, g.Mul(e.P.H, s)}
		in.Wit = []*big.Int{s}
	case kCons:
		pk := g.Mul(e.P.H, c.Uni(e.P.Grp.Order()))
		v, r := s, c.Int(e.P.Grp.Order())
		if c.Flip() {
			v, r = r, v
		}
		in.Stmt = []vref.Pt{e.P.Commit(v, r), g.Mul(pk, r), pk}
		in.Wit = []*big.Int{v, r}
	case kDisj:
		o, _ := c.Point(e)
		in.Wit = []*big.Int{s}
		if in.Right {
			in.Stmt = []vref.Pt{e.P.G, o, e.P.H, g.Mul(e.P.H, s)}
		} else {
			in.Stmt = []vref.Pt{e.P.G, g.Mul(e.P.G, s), e.P.H, o}
		}
	case kABC:
		sk, r := c.NonZero(e.P.Grp.Order()), c.Int(e.P.Grp.Order())
		in.Right = s.Sign() != 0
		in.Stmt = []vref.Pt{e.P.Commit(s, r), g.Mul(e.P.H, e.P.MulAdd(z, sk, r))}
		in.Wit = []*big.Int{s, sk}
	case kIneq:
		sk := c.NonZero(e.P.Grp.Order())
		if s.Sign() != 0 && c.Flip() {
			sk = s
		}
		a, b := s, c.Int(e.P.Grp.Order())
		if c.Flip() {
			a, b = b, a
		}
		if e.P.Mod(new(big.Int).Sub(a, b)).Sign() == 0 {
			a = new(big.Int).Add(a, one())
		}
		ra, rb := c.Int(e.P.Grp.Order()), c.Int(e.P.Grp.Order())
		in.Stmt = []vref.Pt{e.P.Commit(a, ra), e.P.Commit(b, rb), g.Mul(e.P.H, e.P.MulAdd(z, sk, ra)), g.Mul(e.P.H, e.P.MulAdd(z, sk, rb))}
		in.Wit = []*big.Int{a, b, sk}
	}
	return in
}
