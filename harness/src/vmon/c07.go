package main

import (
	"fmt"
	"math/big"

	"vref"
)

func init() {
	register(&Check{ID: "C07", Level: "exploration",
		Rule:  "proofs made by the library, first seen to verify; then every statement point replaced, negated, shifted or exchanged, every proof member changed or exchanged with that of another proof (same secret, same statement, other statement, other kind), and verification under other generators and curves. Multiples of the order added to responses are not counted as changes. Non-trivial: a distinct change of proof, statement or parameters that verification was seen to refuse",
		Run:   runC07,
		Floor: map[string]int64{"originals verified": 300, "statement changes": 4000, "member changes": 4000, "member exchanges": 1500, "replays on other statements": 400, "other generators": 100, "other kinds": 200, "token replaced in abc": 20}})
}

func sameMember(e *Env, a, b RefProof) bool {
	x, y := members(a), members(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].Pt != nil && !x[i].Pt.Eq(*y[i].Pt) {
			return false
		}
		if x[i].Int != nil {
			p, q := *x[i].Int, *y[i].Int
			if x[i].Mod {
				p, q = e.P.Mod(p), e.P.Mod(q)
			}
			if p.Cmp(q) != 0 {
				return false
			}
		}
	}
	return true
}

func sameStmt(a, b []vref.Pt) bool {
	for i := range a {
		if !a[i].Eq(b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

func runC07(w *W) {
	made := func(c *C, in *Inst) (RefProof, []vref.Pt, bool) {
		q, err := in.Prove()
		if err != nil {
			c.Count("prover failed", 1)
			return nil, nil, false
		}
		s := append([]vref.Pt{}, in.VStmt()...)
		ok, _ := libVerify(in.E.L, q, s)
		r, err := refParse(in.Kind, libBytes(q))
		if !ok || err != nil {
			c.Count("not verified", 1)
			return nil, nil, false
		}
		c.Count("originals verified", 1)
		return r, s, true
	}
	offer := func(c *C, e *Env, kind, name string, orig, p RefProof, os, s []vref.Pt, key string) {
		if sameMember(e, orig, p) && sameStmt(os, s) {
			c.Count("no change", 1)
			return
		}
		q, err := toLib(kind, p)
		if err != nil {
			return
		}
		ok, err := libVerify(e.L, q, s)
		c.Check(ok == (err == nil), "answer", "%s: %s: Verify returned %v with error %v", kind, name, ok, err)
		c.Distinct(kind, p.Bytes(), fmt.Sprint(s))
		if ok {
			c.Violation(key, "%s (%s): %s: still accepted; proof %x statement %x", kind, e.Name, name, p.Bytes(), s)
		}
	}
	for _, k := range allKinds {
		rounds := w.Scale(48, 900)
		if k == kRange {
			rounds = w.Scale(16, 200)
		}
		for i := 0; i < rounds; i++ {
			w.Case(fmt.Sprintf("%s/%d", k, i), func(c *C) {
				e := c.Env()
				if i%8 == 7 && k != kRange && k != kABC && k != kIneq {
					e = wide()[i/8%len(wide())]
					c.Count("originals on "+e.Name, 1)
				}
				inst := func(e *Env) *Inst {
					if k == kRange {
						return newInst(c, e, k)
					}
					return plainInst(c, e, k)
				}
				in := inst(e)
				r, s, ok := made(c, in)
				if !ok {
					return
				}
				if i < 2 {
					c.Sample("%v", in)
				}
				with := func(f func(s []vref.Pt)) []vref.Pt {
					t := append([]vref.Pt{}, s...)
					f(t)
					return t
				}
				n := 0
				for a := range s {
					for _, m := range ptMuts {
						c.Count("statement changes", 1)
						offer(c, e, k, fmt.Sprintf("statement point %d %s", a, m.name), r, r, s, with(func(t []vref.Pt) { t[a] = m.f(c, e, t[a]) }), "statement")
						c.Step(n * 16)
						n++
					}
					for b := a + 1; b < len(s); b++ {
						c.Count("statement changes", 4)
						offer(c, e, k, "statement points exchanged", r, r, s, with(func(t []vref.Pt) { t[a], t[b] = t[b], t[a] }), "statement")
						offer(c, e, k, "statement points both negated", r, r, s, with(func(t []vref.Pt) { t[a], t[b] = e.P.Grp.Neg(t[a]), e.P.Grp.Neg(t[b]) }), "statement")
						offer(c, e, k, "statement points both doubled", r, r, s, with(func(t []vref.Pt) { t[a], t[b] = e.P.Grp.Add(t[a], t[a]), e.P.Grp.Add(t[b], t[b]) }), "statement")
						offer(c, e, k, "statement points shifted by opposite amounts", r, r, s, with(func(t []vref.Pt) { t[a], t[b] = e.P.Grp.Add(t[a], e.P.H), e.P.Sub(t[b], e.P.H) }), "statement")
					}
				}
				if len(s) == 4 {
					offer(c, e, k, "halves exchanged", r, r, s, with(func(t []vref.Pt) { t[0], t[1], t[2], t[3] = t[2], t[3], t[0], t[1] }), "statement")
				}
				// members
				tok := func(name string) string {
					if name == "CToken" {
						c.Count("token replaced in abc", 1)
						return "ctoken"
					}
					return "member"
				}
				ms := members(r)
				for a := range ms {
					if k == kRange && a >= 2 && (a+i)%9 != 0 {
						continue // C05 has them all
					}
					c.Step(n * 16)
					n++
					if ms[a].Pt != nil {
						for _, m := range ptMuts {
							x := clone(k, r)
							y := members(x)[a].Pt
							*y = m.f(c, e, *y)
							c.Count("member changes", 1)
							offer(c, e, k, ms[a].Name+" "+m.name, r, x, s, s, tok(ms[a].Name))
						}
					} else {
						for _, m := range intMuts {
							x := clone(k, r)
							y := members(x)[a].Int
							*y = m.f(c, e, *y)
							c.Count("member changes", 1)
							offer(c, e, k, ms[a].Name+" "+m.name, r, x, s, s, tok(ms[a].Name))
						}
					}
					for b := a + 1; b < len(ms) && k != kRange; b++ {
						x := clone(k, r)
						y := members(x)
						if y[a].Pt != nil && y[b].Pt != nil && y[a].Name != "CToken" && y[b].Name != "CToken" {
							*y[a].Pt, *y[b].Pt = *y[b].Pt, *y[a].Pt
						} else if y[a].Int != nil && y[b].Int != nil {
							*y[a].Int, *y[b].Int = *y[b].Int, *y[a].Int
						} else {
							continue
						}
						c.Count("member exchanges", 1)
						offer(c, e, k, ms[a].Name+" and "+ms[b].Name+" exchanged", r, x, s, s, "member")
					}
				}
				// all responses shifted together, for equations that only see differences
				for d := 0; d < 2; d++ {
					x := clone(k, r)
					for j, m := range members(x) {
						if m.Int != nil && m.Mod {
							v := one()
							if d == 1 && j%2 == 1 {
								v = big.NewInt(-1)
							}
							*m.Int = e.P.Mod(v.Add(v, *m.Int))
						}
					}
					offer(c, e, k, "all responses shifted", r, x, s, s, "member")
				}
				// another proof of the same statement, and of another one
				if k != kRange {
					same := *in
					if r2, _, ok := made(c, &same); ok {
						for a := range ms {
							if ms[a].Name == "CToken" {
								continue
							}
							x := clone(k, r)
							y, z := members(x), members(r2)
							if y[a].Pt != nil {
								*y[a].Pt = *z[a].Pt
							} else {
								*y[a].Int = *z[a].Int
							}
							c.Count("member exchanges", 1)
							offer(c, e, k, ms[a].Name+" of another proof of the same statement", r, x, s, s, "member")
						}
					}
				}
				other := inst(e)
				if r3, s3, ok := made(c, other); ok && !sameStmt(s, s3) {
					c.Count("replays on other statements", 2)
					offer(c, e, k, "proof of another statement", r, r3, s, s, "replay")
					offer(c, e, k, "proof for another statement", r3, r, s3, s3, "replay")
					// statements put together from both
					for a := range s {
						if s[a].Eq(s3[a]) {
							continue
						}
						c.Count("replays on other statements", 1)
						offer(c, e, k, "statement with a point of another", r, r, s, with(func(t []vref.Pt) { t[a] = s3[a] }), "replay")
					}
				}
				// other generators
				if k == kCons || k == kABC || k == kIneq || k == kRange {
					for _, o := range envs() {
						if o.P.Grp == e.P.Grp && !(o.P.G.Eq(e.P.G) && o.P.H.Eq(e.P.H)) {
							q, err := toLib(k, r)
							if err != nil {
								continue
							}
							c.Count("other generators", 1)
							if ok, _ := libVerify(o.L, q, s); ok {
								c.Violation("generators", "%s proof for %s verifies with %s: %v", k, e.Name, o.Name, in)
							}
						}
					}
				}
				// read as another kind
				for _, k2 := range allKinds {
					if k2 == k || (k == kABC || k == kIneq) && (k2 == kABC || k2 == kIneq) {
						continue
					}
					q, err := libParse(k2, r.Bytes())
					if err != nil {
						c.Count("other kinds", 1)
						continue
					}
					for j := 0; j < 3; j++ {
						c.Count("other kinds", 1)
						t := append([]vref.Pt{}, s...)
						for len(t) < 4 {
							t = append(t, pick(c, []vref.Pt{e.P.G, e.P.H, s[0], s[len(s)-1]}))
						}
						if j > 0 {
							c.R.Shuffle(len(t), func(a, b int) { t[a], t[b] = t[b], t[a] })
						}
						if ok, _ := libVerify(e.L, q, t); ok {
							c.Violation("kind", "%s proof verifies as %s: %v", k, k2, in)
						}
					}
				}
			})
		}
	}
	// an inequality proof is for an ordered pair; equal points in the statement
	for i := 0; i < w.Scale(40, 600); i++ {
		w.Case(fmt.Sprintf("ineq-order/%d", i), func(c *C) {
			e := c.Env()
			in := plainInst(c, e, kIneq)
			r, s, ok := made(c, in)
			if !ok {
				return
			}
			t := []vref.Pt{e.P.Grp.Neg(s[0]), e.P.Grp.Neg(s[1])}
			c.Count("replays on other statements", 1)
			offer(c, e, kIneq, "b - a instead of a - b", r, r, s, t, "replay")
		})
	}
}
