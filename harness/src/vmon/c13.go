package main

import (
	"fmt"
	"math/big"
	"reflect"

	"github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"

	"vref"
)

func init() {
	register(&Check{ID: "C13", Level: "exploration",
		Rule:  "all pairs of about sixty special points (identity, generators, opposite and equal points, equal y with another x, short coordinates) of nine parameter sets through Add, Sub and Equal; special points times special scalars of any size and sign through Mult; random points and scalars; programs of up to 60 operations over shared registers, aliased operands included, run twice and mixed with other parameter sets; all pairs of points and scalars of a group of 107 elements. Compared with the independent group implementation. Non-trivial: a distinct operation with operands",
		Run:   runC13,
		Floor: map[string]int64{"sums": 20000, "differences": 20000, "comparisons": 20000, "products": 6000, "negations": 300, "program steps": 3000, "results at infinity": 500, "doublings": 200, "points of small groups": 100}})
}

type ops struct {
	c *C
	e *Env
}

func (o ops) same(got zksigma.ECPoint, want vref.Pt, what string, args ...interface{}) {
	if got.X == nil || got.Y == nil || !rp(got).Eq(want) {
		o.c.Violation("result", "%s: %s of %v is (%x,%x), not (%x,%x)", o.e.Name, what, fmt.Sprintf("%x", args), got.X, got.Y, want.X, want.Y)
	}
	if want.IsID() {
		o.c.Count("results at infinity", 1)
	}
}

func (o ops) pair(p, q vref.Pt) {
	o.c.Distinct(o.e.Name, p, q)
	o.same(o.e.L.Add(lp(p), lp(q)), o.e.P.Grp.Add(p, q), "sum", p, q)
	o.same(o.e.L.Sub(lp(p), lp(q)), o.e.P.Sub(p, q), "difference", p, q)
	if eq := lp(p).Equal(lp(q)); eq != p.Eq(q) {
		o.c.Violation("equal", "%s: Equal(%x,%x) is %v", o.e.Name, p, q, eq)
	}
	o.c.Count("sums", 1)
	o.c.Count("differences", 1)
	o.c.Count("comparisons", 1)
	if p.Eq(q) {
		o.c.Count("doublings", 1)
	}
}

func (o ops) mult(p vref.Pt, s *big.Int) {
	o.c.Distinct(o.e.Name, "mul", p, s)
	o.same(o.e.L.Mult(lp(p), cp(s)), o.e.P.Grp.Mul(p, s), "multiple", p, s)
	o.c.Count("products", 1)
}

func (o ops) neg(p vref.Pt) {
	o.same(o.e.L.Neg(lp(p)), o.e.P.Grp.Neg(p), "negative", p)
	o.c.Count("negations", 1)
}

// specialPts of a parameter set.
func specialPts(c *C, e *Env) (l []vref.Pt) {
	g := e.P.Grp
	add := func(p vref.Pt) { l = append(l, p, g.Neg(p)) }
	l = append(l, vref.ID())
	add(e.P.G)
	add(e.P.H)
	for _, k := range []int64{2, 3, 4, 7, 255, 256, 65537} {
		add(g.Mul(e.P.G, big.NewInt(k)))
	}
	add(g.Mul(e.P.H, big.NewInt(2)))
	add(g.Add(e.P.G, e.P.H))
	add(e.P.Sub(e.P.G, e.P.H))
	half := new(big.Int).Rsh(new(big.Int).Add(g.Order(), one()), 1) // 1/2
	add(g.Mul(e.P.G, half))
	add(e.P.Pow[40])
	if _, ok := g.(vref.Secp); ok {
		for _, p := range []vref.Pt{e.P.G, e.P.H} {
			add(phi(p))
			add(phi(phi(p)))
		}
		add(vref.H)
		add(vref.MulG(hexInt(pick(c, shortG))))
		add(vref.MulH(hexInt(pick(c, shortH))))
		// x = 1 is on the curve, so are some other small ones
		for x := int64(1); x < 9; x++ {
			if y := vref.SqrtY(big.NewInt(x)); y != nil {
				add(vref.Pt{X: big.NewInt(x), Y: y})
			}
		}
		for x := int64(1); x < 12; x++ {
			v := new(big.Int).Sub(vref.P, big.NewInt(x))
			if y := vref.SqrtY(v); y != nil {
				add(vref.Pt{X: v, Y: y})
			}
		}
	}
	add(g.Mul(e.P.G, c.Uni(g.Order())))
	add(g.Mul(e.P.H, c.Uni(g.Order())))
	return
}

func runC13(w *W) {
	reuse(w, 0, w.Scale(4, 40), 40, "Mult", "Mult by generator", "Add", "Sub", "Neg", "Equal")
	for _, e := range append(append([]*Env{}, envs()...), wide()[:3]...) {
		for part := 0; part < 8; part++ {
			w.Case(fmt.Sprintf("pairs/%s/%d", e.Name, part), func(c *C) {
				l := specialPts(c, e)
				for a, p := range l {
					if a%8 != part {
						continue
					}
					for _, q := range l {
						ops{c, e}.pair(p, q)
					}
					ops{c, e}.neg(p)
				}
				c.Sample("%s: %d special points with each other", e.Name, len(l))
			})
		}
		for part := 0; part < 8; part++ {
			w.Case(fmt.Sprintf("scalars/%s/%d", e.Name, part), func(c *C) {
				l := specialPts(c, e)
				n := e.P.Grp.Order()
				for a, s := range specials() {
					if a%8 != part {
						continue
					}
					c.Step(a)
					ops{c, e}.mult(e.P.G, s)
					ops{c, e}.mult(e.P.H, s)
					s = cp(s)
					switch c.R.IntN(5) {
					case 0:
						s.Neg(s)
					case 1:
						s.Add(s, n)
					case 2:
						s.Sub(s, n)
					case 3:
						s.Add(s, new(big.Int).Lsh(n, uint(c.R.IntN(400))))
					}
					ops{c, e}.mult(pick(c, l), s)
					ops{c, e}.mult(e.P.G, s)
					ops{c, e}.mult(e.P.H, s)
				}
				for _, p := range l {
					for _, k := range []int64{0, 1, 2, 3, -1, -2} {
						if (int(k)+8+part)%3 == 0 {
							ops{c, e}.mult(p, big.NewInt(k))
							ops{c, e}.mult(p, new(big.Int).Add(n, big.NewInt(k)))
						}
					}
				}
			})
		}
	}
	// small groups: every pair, every scalar
	for part := 0; part < 107; part++ {
		w.Case(fmt.Sprintf("all of 107/%d", part), func(c *C) {
			e := toys()[0]
			p := e.P.Grp.Mul(e.P.G, big.NewInt(int64(part)))
			for k := int64(-120); k < 240; k++ {
				ops{c, e}.mult(p, big.NewInt(k))
				if k >= 0 && k < 107 {
					ops{c, e}.pair(p, e.P.Grp.Mul(e.P.G, big.NewInt(k)))
				}
			}
			ops{c, e}.neg(p)
			e = toys()[1]
			for k := 0; k < 100; k++ {
				p, _ := c.Point(e)
				q, _ := c.Point(e)
				ops{c, e}.pair(p, q)
				ops{c, e}.mult(p, c.Int(e.P.Grp.Order()))
			}
			c.Count("points of small groups", 1)
		})
	}
	for i := 0; i < w.Scale(400, 20000); i++ {
		w.Case(fmt.Sprintf("random/%d", i), func(c *C) {
			e := c.Env()
			if i%16 == 15 {
				e = wide()[i/16%len(wide())]
			}
			for j := 0; j < 10; j++ {
				p, _ := c.Point(e)
				q, _ := c.Point(e)
				switch c.R.IntN(6) {
				case 0:
					q = p
				case 1:
					q = e.P.Grp.Neg(p)
				case 2:
					q = e.P.Grp.Add(p, p)
				}
				ops{c, e}.pair(p, q)
				ops{c, e}.mult(p, c.Int(e.P.Grp.Order()))
				ops{c, e}.neg(q)
			}
		})
	}
	// Equal on values that are no points
	w.Case("equal", func(c *C) {
		var vs []*big.Int
		for _, v := range []int64{0, 1, -1, 2, 1 << 62} {
			vs = append(vs, big.NewInt(v))
		}
		for _, s := range []string{"10000000000000000", "10000000000000001", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"} {
			vs = append(vs, hexInt(s), new(big.Int).Neg(hexInt(s)))
		}
		for _, a := range vs {
			for _, b := range vs {
				for _, x := range vs {
					for _, y := range vs {
						want := a.Cmp(x) == 0 && b.Cmp(y) == 0
						got := zksigma.ECPoint{X: cp(a), Y: cp(b)}.Equal(zksigma.ECPoint{X: cp(x), Y: cp(y)})
						c.Check(got == want, "equal", "Equal((%x,%x),(%x,%x)) is %v", a, b, x, y, got)
						c.Count("comparisons", 1)
					}
				}
			}
		}
	})
	// programs
	for i := 0; i < w.Scale(120, 6000); i++ {
		w.Case(fmt.Sprintf("program/%d", i), func(c *C) {
			e := c.Env()
			other := pick(c, envs())
			n := e.P.Grp.Order()
			type step struct {
				op, a, b int
				s        *big.Int
			}
			const regs = 6
			var init []vref.Pt
			for j := 0; j < regs; j++ {
				p, _ := c.Point(e)
				init = append(init, p)
			}
			var prog []step
			for j := 0; j < 60; j++ {
				prog = append(prog, step{c.R.IntN(4), c.R.IntN(regs + 3), c.R.IntN(regs + 3), c.Int(n)})
			}
			exec := func(noise bool) (log []zksigma.ECPoint, want []vref.Pt) {
				l := make([]zksigma.ECPoint, regs+3)
				r := make([]vref.Pt, regs+3)
				for j := range init {
					l[j], r[j] = lp(init[j]), init[j]
				}
				// the caller's own copies of shared values, by reference
				l[regs], r[regs] = e.L.G, e.P.G
				l[regs+1], r[regs+1] = e.L.H, e.P.H
				l[regs+2], r[regs+2] = zksigma.Zero, vref.ID()
				for j, s := range prog {
					if noise && j%3 == 0 {
						other.L.Mult(other.L.H, s.s)
						other.L.Add(other.L.G, other.L.H)
						if j%2 == 0 {
							btcec.S256().ScalarMult(vref.G.X, vref.G.Y, s.s.Bytes())
						}
					}
					var a zksigma.ECPoint
					var b vref.Pt
					switch s.op {
					case 0:
						a, b = e.L.Add(l[s.a], l[s.b]), e.P.Grp.Add(r[s.a], r[s.b])
					case 1:
						a, b = e.L.Sub(l[s.a], l[s.b]), e.P.Sub(r[s.a], r[s.b])
					case 2:
						a, b = e.L.Neg(l[s.a]), e.P.Grp.Neg(r[s.a])
					case 3:
						a, b = e.L.Mult(l[s.a], s.s), e.P.Grp.Mul(r[s.a], s.s)
					}
					ops{c, e}.same(a, b, fmt.Sprintf("step %d (operation %d)", j, s.op), r[s.a], r[s.b], s.s)
					d := j % regs
					l[d], r[d] = a, b
					log, want = append(log, a), append(want, b)
					c.Count("program steps", 1)
				}
				return
			}
			la, wa := exec(false)
			lb, _ := exec(true)
			for j := range la {
				if !rp(la[j]).Eq(wa[j]) {
					c.Violation("changed", "%s: the result of step %d changed later, to (%x,%x) from (%x,%x)", e.Name, j, la[j].X, la[j].Y, wa[j].X, wa[j].Y)
				}
				if !reflect.DeepEqual(la[j].X.Bytes(), lb[j].X.Bytes()) || !reflect.DeepEqual(la[j].Y.Bytes(), lb[j].Y.Bytes()) {
					c.Violation("history", "%s: step %d gives another result in a second run", e.Name, j)
				}
			}
			if !zksigma.Zero.Equal(zksigma.ECPoint{X: new(big.Int), Y: new(big.Int)}) {
				c.Violation("zero", "the identity changed")
			}
			c.Distinct(wa[len(wa)-1], i)
		})
	}
}
