package main

import (
	"fmt"
	"math/big"
	"strings"

	"vref"
)

func init() {
	register(&Check{ID: "C03", Level: "exploration",
		Rule: "per kind, every single tweak of an honest transcript: each challenge item dropped, doubled, negated, halved, each pair swapped; each commitment, statement point, secret and proof member changed before or after hashing; partial challenges that do not add up; simulated transcripts; statements solved for after the fact; pairs of tweaks at random; transcripts over statements, secrets, nonces and challenges that coincide, vanish or are opposite, or have short coordinates; responses and challenges with multiples of the order added; the tweaks also in groups of 107 and 9941 elements; in the group of 107, random transcripts searched for in which all conditions but one hold, the statement, commitments and sums coinciding in every way. The reference decides which are valid. Non-trivial: a distinct transcript that the reference refuses and the library judged",
		Run: func(w *W) {
			runForge(w, []string{kGSPFS, kEquiv, kCons, kDisj}, w.Scale(5, 80))
			adaptive(w)
			runScan(w, []string{kGSPFS, kEquiv, kCons, kDisj}, w.Scale(32, 400), 250, false)
		},
		Floor: map[string]int64{"invalid gspfs": 400, "invalid equivalence": 800, "invalid consistency": 800, "invalid disjunctive": 1000, "special transcripts": 10000, "unreduced transcripts": 2000, "valid": 50, "adaptive forgeries": 200, "short transcripts": 2000, "scanned gspfs": 5000, "scanned equivalence": 5000, "scanned consistency": 5000, "scanned disjunctive": 5000, "transcripts on toy 107": 4000, "transcripts on toy 9941": 4000}})
	register(&Check{ID: "C04", Level: "exploration",
		Rule: "as C03 for ABC and inequality proofs, in the outer proof and the embedded disjunctive one; plus cheating provers for false values and proofs assembled from parts of valid ones; in the group of 107, random proofs in which all conditions but one hold. Non-trivial: a distinct proof that the reference refuses and the library judged",
		Run: func(w *W) {
			runForge(w, []string{kABC, kIneq}, w.Scale(3, 40))
			runABCCheats(w)
			runScan(w, []string{kABC}, w.Scale(64, 600), 100, false)
		},
		Floor: map[string]int64{"invalid abc": 1000, "invalid inequality": 1000, "special transcripts": 6000, "unreduced transcripts": 1000, "valid": 20, "cheating provers": 200, "short transcripts": 700, "scanned abc": 4000, "transcripts on toy 107": 1200, "transcripts on toy 9941": 1200}})
}

func decide(c *C, in *Inst, name string, p RefProof, s []vref.Pt) {
	lib, ref := judge(c, in, name, p, s)
	if ref {
		c.Count("valid", 1)
		return
	}
	c.Count("invalid "+in.Kind, 1)
	c.Distinct(in.Kind, p.Bytes(), fmt.Sprint(s))
	if lib {
		c.Violation("forged", "%s (%s): accepted although invalid: %s; proof %x statement %x", in.Kind, in.E.Name, name, p.Bytes(), s)
	}
}

func runForge(w *W, kinds []string, rounds int) {
	special := 80
	if kinds[0] == kABC {
		special = 250
	}
	for _, k := range kinds {
		tw := tweaks(k)
		var fold []*tweak // challenges that miss repeated or long items
		for _, t := range tw {
			if strings.Contains(t.name, "challenge of ") {
				fold = append(fold, t)
			}
		}
		for r := 0; r < rounds; r++ {
			for i, t := range tw {
				w.Case(fmt.Sprintf("%s/%d/%d", k, r, i), func(c *C) {
					e := std()
					if r%2 == 1 {
						e = pick(c, envs())
					}
					in := plainInst(c, e, k)
					if k == kABC {
						// both sides
						for in.Right != ((r+i)%2 == 0) {
							in = plainInst(c, e, k)
						}
					}
					p, s := t.prove(c, in)
					decide(c, in, t.name, p, s)
					if r%2 == 0 {
						unreduced(c, e, p)
						decide(c, in, t.name+", not reduced", p, s)
						c.Count("unreduced transcripts", 1)
					}
					if r == 0 && i%50 == 0 {
						c.Sample("%s: %s", k, t.name)
					}
				})
			}
		}
		for i := 0; i < rounds*200; i++ {
			w.Case(fmt.Sprintf("%s/pair/%d", k, i), func(c *C) {
				in := plainInst(c, c.Env(), k)
				a, b := pick(c, tw), pick(c, tw)
				t := *a
				if t.stmt == nil {
					t.stmt = b.stmt
				}
				if t.dt == nil {
					t.dt = b.dt
				}
				if t.hash == nil && a.inner == b.inner {
					t.hash = b.hash
				}
				if t.split == nil {
					t.split = b.split
				}
				if t.sum == nil {
					t.sum = b.sum
				}
				if t.wit == nil {
					t.wit = b.wit
				}
				if t.post == nil {
					t.post = b.post
				}
				p, s := t.prove(c, in)
				decide(c, in, a.name+" and "+b.name, p, s)
				unreduced(c, in.E, p)
				decide(c, in, a.name+" and "+b.name+", not reduced", p, s)
				c.Count("unreduced transcripts", 1)
			})
		}
		// statements, secrets, nonces and made-up challenges that coincide or vanish
		for i := 0; i < rounds*special; i++ {
			w.Case(fmt.Sprintf("%s/special/%d", k, i), func(c *C) {
				e := std()
				if i%2 == 1 {
					e = c.Env()
				}
				for j := 0; j < 10; j++ {
					in, xs := poolInst(c, e, k)
					t := &tweak{}
					if c.R.IntN(3) == 0 {
						q := *pick(c, tw)
						if c.Flip() {
							q = *pick(c, fold)
						}
						t = &q
					}
					t.rnd = func() *big.Int {
						if c.Flip() {
							return c.Uni(e.P.Grp.Order())
						}
						return pick(c, xs)
					}
					if t.dt == nil && c.R.IntN(3) == 0 { // one equation fails
						m := pick(c, ptMuts)
						t.inner = (k == kABC || k == kIneq) && c.Flip()
						t.hash, t.split, t.sum = nil, nil, nil
						t.name += " T " + m.name
						t.dt = func(c *C, e *Env, ts []vref.Pt) {
							i := c.R.IntN(len(ts))
							ts[i] = m.f(c, e, ts[i])
						}
					}
					p, s := t.prove(c, in)
					if i%4 == 3 {
						unreduced(c, e, p)
					}
					decide(c, in, "special values "+t.name, p, s)
					c.Count("special transcripts", 1)
				}
			})
		}
		// other widths
		if k != kABC && k != kIneq { // those go through bytes, which hold 32-byte coordinates
			for i := 0; i < rounds*60; i++ {
				w.Case(fmt.Sprintf("%s/wide/%d", k, i), func(c *C) {
					e := wide()[i%len(wide())]
					in := plainInst(c, e, k)
					if i%2 == 1 {
						in, _ = poolInst(c, e, k)
					}
					t := pick(c, tw)
					if c.R.IntN(3) == 0 {
						t = pick(c, fold)
					}
					p, s := t.prove(c, in)
					decide(c, in, t.name, p, s)
					c.Count("transcripts on "+e.Name, 1)
					if i < len(wide()) {
						in := plainInst(c, e, k)
						p, s := (&tweak{}).prove(c, in)
						if lib, ref := judge(c, in, "honest", p, s); !lib || !ref {
							c.Violation("control", "%s: honest transcript: library %v, reference %v", k, lib, ref)
						}
					}
				})
			}
		}
		// small groups: transcripts whose scalars and challenges coincide by chance
		for i := 0; i < rounds*40; i++ {
			w.Case(fmt.Sprintf("%s/toy/%d", k, i), func(c *C) {
				e := toys()[i%len(toys())]
				for j := 0; j < 20; j++ {
					in := newInst(c, e, k)
					if j%2 == 1 {
						in, _ = poolInst(c, e, k)
					}
					t := pick(c, tw)
					if c.R.IntN(8) == 0 {
						t = &tweak{}
					}
					p, s := t.prove(c, in)
					decide(c, in, t.name, p, s)
					c.Count("transcripts on "+e.Name, 1)
				}
			})
		}
		// short coordinates
		for i := 0; i < rounds*24; i++ {
			w.Case(fmt.Sprintf("%s/short/%d", k, i), func(c *C) {
				e := std()
				if i%4 == 3 {
					e = c.Env()
				}
				for j := 0; j < 8; j++ {
					in := shortInst(c, e, k)
					t := *pick(c, fold)
					if j == 0 {
						t = *pick(c, tw)
					}
					if c.Flip() {
						t.rnd = func() *big.Int { return new(big.Int).Mod(pick(c, shortNonces()), e.P.Grp.Order()) }
					}
					p, s := t.prove(c, in)
					decide(c, in, "short coordinates, "+t.name, p, s)
					c.Count("short transcripts", 1)
				}
			})
		}
		// the honest transcript is accepted by both, or the above shows nothing
		for i := 0; i < 60; i++ {
			w.Case(fmt.Sprintf("%s/control/%d", k, i), func(c *C) {
				for j := 0; j < 4; j++ {
					in := plainInst(c, c.Env(), k)
					if j > 1 {
						in = shortInst(c, c.Env(), k)
					}
					p, s := (&tweak{}).prove(c, in)
					lib, ref := judge(c, in, "honest", p, s)
					if !lib || !ref {
						c.Violation("control", "%s: honest transcript: library %v, reference %v", k, lib, ref)
					}
					c.Count("valid", 1)
				}
			})
		}
	}
}

// adaptive forgeries: if the challenge left out a statement point, a cheater
// could choose that point last, so that the equations hold without a witness.
func adaptive(w *W) {
	for i := 0; i < w.Scale(60, 2000); i++ {
		w.Case(fmt.Sprintf("adaptive/%d", i), func(c *C) {
			e := c.Env()
			p, g := e.P, e.P.Grp
			n := g.Order()
			u := func() *big.Int { return c.Uni(n) }
			inv := func(x *big.Int) *big.Int { return new(big.Int).ModInverse(x, n) }
			pt := func() vref.Pt { return g.Mul(p.G, u()) }
			try := func(kind, name string, pr RefProof, s ...vref.Pt) {
				c.Count("adaptive forgeries", 1)
				decide(c, &Inst{E: e, Kind: kind}, name, pr, s)
			}
			// GSPFS: base solved for; A solved for
			a, t, s := pt(), pt(), u()
			ch := p.Chal(a, t)
			try(kGSPFS, "base chosen after the challenge", &vref.GSPFS{Base: g.Mul(p.Sub(t, g.Mul(a, ch)), inv(s)), T: t, S: s, C: ch}, a)
			ch = p.Chal(p.G, t)
			try(kGSPFS, "A chosen after the challenge", &vref.GSPFS{Base: p.G, T: t, S: s, C: ch}, g.Mul(p.Sub(t, g.Mul(p.G, s)), inv(ch)))
			ch = p.Chal(p.G, a)
			try(kGSPFS, "commitment chosen after the challenge", &vref.GSPFS{Base: p.G, T: g.Add(g.Mul(p.G, s), g.Mul(a, ch)), S: s, C: ch}, a)
			// equivalence
			b1, b2, t1, t2 := p.G, p.H, pt(), pt()
			r1, r2 := pt(), pt()
			ch = p.Chal(b1, b2, r2, t1, t2)
			try(kEquiv, "R1 chosen last", &vref.Equiv{UG: t1, UH: p.Sub(g.Mul(b2, s), g.Mul(r2, ch)), C: ch, S: s}, b1, g.Mul(p.Sub(g.Mul(b1, s), t1), inv(ch)), b2, r2)
			k := u()
			x := u()
			rr1 := g.Mul(b1, x)
			t1 = g.Mul(b1, k)
			ch = p.Chal(b1, rr1, b2, t1, t2)
			sx := p.MulAdd(k, ch, x)
			try(kEquiv, "R2 chosen last", &vref.Equiv{UG: t1, UH: t2, C: ch, S: sx}, b1, rr1, b2, g.Mul(p.Sub(g.Mul(b2, sx), t2), inv(ch)))
			ch = p.Chal(b1, rr1, r2, t1, t2)
			sx = p.MulAdd(k, ch, x)
			try(kEquiv, "base 2 chosen last", &vref.Equiv{UG: t1, UH: t2, C: ch, S: sx}, b1, rr1, g.Mul(g.Add(t2, g.Mul(r2, ch)), inv(sx)), r2)
			ch = p.Chal(b1, rr1, b2, r2, t1)
			sx = p.MulAdd(k, ch, x)
			try(kEquiv, "UH chosen last", &vref.Equiv{UG: t1, UH: p.Sub(g.Mul(b2, sx), g.Mul(r2, ch)), C: ch, S: sx}, b1, rr1, b2, r2)
			// consistency: token, commitment, key chosen last
			pk, s1, s2 := g.Mul(p.H, u()), u(), u()
			t1, t2 = pt(), pt()
			tok, cm := pt(), pt()
			ch = p.Chal(p.G, p.H, cm, pk, t1, t2)
			cmc := g.Mul(p.Sub(p.Commit(s1, s2), t1), inv(ch))
			try(kCons, "commitment and token chosen last", &vref.Cons{T1: t1, T2: t2, C: ch, S1: s1, S2: s2}, cmc, g.Mul(p.Sub(g.Mul(pk, s2), t2), inv(ch)), pk)
			ch = p.Chal(p.G, p.H, cm, tok, pk)
			try(kCons, "commitments T chosen last", &vref.Cons{T1: p.Sub(p.Commit(s1, s2), g.Mul(cm, ch)), T2: p.Sub(g.Mul(pk, s2), g.Mul(tok, ch)), C: ch, S1: s1, S2: s2}, cm, tok, pk)
			v, r, k1, k2 := u(), u(), u(), u()
			cm = p.Commit(v, r)
			t1 = p.Commit(k1, k2)
			ch = p.Chal(p.G, p.H, cm, pk, t1, t2)
			s1, s2 = p.MulAdd(k1, ch, v), p.MulAdd(k2, ch, r)
			try(kCons, "token chosen last", &vref.Cons{T1: t1, T2: t2, C: ch, S1: s1, S2: s2}, cm, g.Mul(p.Sub(g.Mul(pk, s2), t2), inv(ch)), pk)
			ch = p.Chal(p.G, p.H, cm, tok, t1, t2)
			s1, s2 = p.MulAdd(k1, ch, v), p.MulAdd(k2, ch, r)
			try(kCons, "key chosen last", &vref.Cons{T1: t1, T2: t2, C: ch, S1: s1, S2: s2}, cm, tok, g.Mul(g.Add(t2, g.Mul(tok, ch)), inv(s2)))
			ch = p.Chal(p.G, p.H, cm, tok, pk, t1)
			s1, s2 = p.MulAdd(k1, ch, v), p.MulAdd(k2, ch, r)
			try(kCons, "T2 chosen last", &vref.Cons{T1: t1, T2: p.Sub(g.Mul(pk, s2), g.Mul(tok, ch)), C: ch, S1: s1, S2: s2}, cm, tok, pk)
			ch = p.Chal(p.G, p.H, cm, tok, pk, t2)
			tok2 := g.Mul(pk, r)
			t2 = g.Mul(pk, k2)
			cm2 := pt()
			ch = p.Chal(p.G, p.H, cm2, tok2, pk, t2)
			s1, s2 = u(), p.MulAdd(k2, ch, r)
			try(kCons, "T1 chosen last", &vref.Cons{T1: p.Sub(p.Commit(s1, s2), g.Mul(cm2, ch)), T2: t2, C: ch, S1: s1, S2: s2}, cm2, tok2, pk)
			// disjunctive without either witness
			c1, s1, s2 := u(), u(), u()
			r1, r2 = pt(), pt()
			ch = p.Chal(b1, r1, b2, r2)
			c2 := p.Mod(new(big.Int).Sub(ch, c1))
			try(kDisj, "T1, T2 chosen last", &vref.Disj{T1: p.Sub(g.Mul(b1, s1), g.Mul(r1, c1)), T2: p.Sub(g.Mul(b2, s2), g.Mul(r2, c2)), C: ch, C1: c1, C2: c2, S1: s1, S2: s2}, b1, r1, b2, r2)
			c2 = u()
			tt1, tt2 := p.Sub(g.Mul(b1, s1), g.Mul(r1, c1)), p.Sub(g.Mul(b2, s2), g.Mul(r2, c2))
			ch = p.Chal(b1, r1, b2, r2, tt1, tt2)
			try(kDisj, "both sides simulated", &vref.Disj{T1: tt1, T2: tt2, C: ch, C1: c1, C2: c2, S1: s1, S2: s2}, b1, r1, b2, r2)
			ch = p.Chal(b1, r1, b2, r2, tt1)
			c2 = p.Mod(new(big.Int).Sub(ch, c1))
			try(kDisj, "T2 chosen last", &vref.Disj{T1: tt1, T2: p.Sub(g.Mul(b2, s2), g.Mul(r2, c2)), C: ch, C1: c1, C2: c2, S1: s1, S2: s2}, b1, r1, b2, r2)
			ch = p.Chal(b1, r1, b2, r2, tt2)
			c2 = u()
			c1 = p.Mod(new(big.Int).Sub(ch, c2))
			try(kDisj, "T1 chosen last", &vref.Disj{T1: p.Sub(g.Mul(b1, s1), g.Mul(r1, c1)), T2: p.Sub(g.Mul(b2, s2), g.Mul(r2, c2)), C: ch, C1: c1, C2: c2, S1: s1, S2: s2}, b1, r1, b2, r2)
			// results solved for
			tt1, tt2 = pt(), pt()
			ch = p.Chal(b1, b2, r2, tt1, tt2)
			c2 = u()
			c1 = p.Mod(new(big.Int).Sub(ch, c2))
			try(kDisj, "R1 chosen last", &vref.Disj{T1: tt1, T2: p.Sub(g.Mul(b2, s2), g.Mul(r2, c2)), C: ch, C1: c1, C2: c2, S1: s1, S2: s2}, b1, g.Mul(p.Sub(g.Mul(b1, s1), tt1), inv(c1)), b2, r2)
		})
	}
}

// runABCCheats: provers for false claims that get everything right but what they
// cannot.
func runABCCheats(w *W) {
	for i := 0; i < w.Scale(160, 3000); i++ {
		w.Case(fmt.Sprintf("cheat/%d", i), func(c *C) {
			e := c.Env()
			p, g := e.P, e.P.Grp
			n := g.Order()
			u := func() *big.Int { return c.Uni(n) }
			v, r, sk := u(), u(), u()
			cm := p.Commit(v, r)
			tok := g.Mul(p.H, p.MulAdd(new(big.Int), sk, r))
			z := new(big.Int)
			cm0 := p.Commit(z, r)
			mk := func() *vref.ABCNonces {
				return &vref.ABCNonces{U1: u(), U2: u(), U3: u(), Ub: u(), Uc: u(), D1: u(), D2: u(), D3: u()}
			}
			try := func(name string, a *vref.ABC, cm vref.Pt) {
				c.Count("cheating provers", 1)
				decide(c, &Inst{E: e, Kind: kABC}, name, a, []vref.Pt{cm, tok})
				decide(c, &Inst{E: e, Kind: kIneq}, name, a, []vref.Pt{cm, tok})
			}
			// v != 0 claimed to be 0, and the reverse
			try("left for a nonzero value", p.ProveABC(cm, tok, z, sk, false, mk()), cm)
			try("right for zero, with value 1", p.ProveABC(cm0, tok, one(), sk, true, mk()), cm0)
			try("right with another value", p.ProveABC(cm, tok, new(big.Int).Add(v, one()), sk, true, mk()), cm)
			try("right with the opposite value", p.ProveABC(cm, tok, new(big.Int).Neg(v), sk, true, mk()), cm)
			try("right with another key", p.ProveABC(cm, tok, v, new(big.Int).Add(sk, one()), true, mk()), cm)
			// product commitments to something else than 1, with the matching either/or proof
			for _, k := range []int64{0, 2, -1, 3} {
				nn := mk()
				a := &vref.ABC{CTok: vref.ID()}
				vv := v
				base := cm
				if c.Flip() {
					vv, base = z, cm0
				}
				iv := new(big.Int)
				if vv.Sign() != 0 {
					iv.ModInverse(vv, n)
				}
				a.B = p.Commit(new(big.Int).Mul(big.NewInt(k), iv), nn.Ub)
				a.C = p.Commit(big.NewInt(k), nn.Uc)
				// either/or for C - kG instead of C - G
				a.D = p.ProveDisj(base, tok, p.H, p.Sub(a.C, g.Mul(p.G, big.NewInt(k))), nn.Uc, true, nn.D1, nn.D2, nn.D3)
				a.T1 = g.Add(g.Mul(p.G, nn.U1), g.Mul(tok, nn.U2))
				a.T2 = g.Add(g.Mul(a.B, nn.U1), g.Mul(p.H, nn.U3))
				a.Finish(p, base, tok, vv, sk, nn)
				try(fmt.Sprintf("product %d with its own either/or", k), a, base)
				// either/or about the token the wrong way round
				b := *a
				b.D = p.ProveDisj(tok, base, p.H, p.Sub(a.C, p.G), nn.Uc, true, nn.D1, nn.D2, nn.D3)
				try("either/or with base and result exchanged", &b, base)
				b.D = p.ProveDisj(p.G, g.Mul(p.G, sk), p.H, p.Sub(a.C, p.G), sk, false, nn.D1, nn.D2, nn.D3)
				try("either/or about something else", &b, base)
			}
			// C = 1 and B arbitrary
			nn := mk()
			a := p.ProveABC(cm, tok, v, sk, true, nn)
			a.B = p.Commit(u(), nn.Ub)
			a.T2 = g.Add(g.Mul(a.B, nn.U1), g.Mul(p.H, nn.U3))
			a.Finish(p, cm, tok, v, sk, nn)
			try("inverse commitment to something else", a, cm)
			// parts of another valid proof for the same statement
			x, y := p.ProveABC(cm, tok, v, sk, true, mk()), p.ProveABC(cm, tok, v, sk, true, mk())
			m := *x
			m.D = y.D
			try("either/or of another proof", &m, cm)
			m = *x
			m.C, m.D = y.C, y.D
			try("product and either/or of another proof", &m, cm)
			m = *x
			m.B, m.T2, m.L = y.B, y.T2, y.L
			try("inverse part of another proof", &m, cm)
			m = *x
			m.T1, m.J, m.K = y.T1, y.J, y.K
			try("value part of another proof", &m, cm)
			m = *x
			m.D = &vref.Disj{T1: vref.ID(), T2: vref.ID(), C: z, C1: z, C2: z, S1: z, S2: z}
			try("empty either/or", &m, cm)
		})
	}
	// equal values declared different: the ABC proof of v = 0 is not an inequality proof
	for i := 0; i < w.Scale(8, 64); i++ {
		w.Case(fmt.Sprintf("equal/%d", i), func(c *C) {
			e := c.Env()
			p, g := e.P, e.P.Grp
			n := g.Order()
			v, ra, rb, sk := c.Uni(n), c.Uni(n), c.Uni(n), c.Uni(n)
			cm := p.Sub(p.Commit(v, ra), p.Commit(v, rb))
			tok := g.Mul(p.H, p.MulAdd(new(big.Int), sk, new(big.Int).Sub(ra, rb)))
			in := &Inst{E: e, Kind: kABC, Stmt: []vref.Pt{cm, tok}, Wit: []*big.Int{new(big.Int), sk}}
			q, err := in.Prove()
			if err != nil {
				return
			}
			ineq, err := libParse(kIneq, libBytes(q))
			if err != nil {
				return
			}
			ok, _ := libVerify(e.L, ineq, []vref.Pt{cm, tok})
			c.Count("zero proofs offered as inequality", 1)
			if ok {
				c.Violation("ineq-left", "an inequality proof for two commitments to the same value is accepted: it is the ABC proof that their difference is 0")
			}
		})
	}
}
