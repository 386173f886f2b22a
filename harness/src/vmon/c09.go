package main

import (
	"fmt"
	"math"
	"math/big"

	"vref"
)

func init() {
	register(&Check{ID: "C09", Level: "exploration",
		Rule:  "many proofs of disjunctions where the prover knows both sides, of zero and nonzero values, and of range values with all bit patterns, from a good randomness source; per side (per bit): every bit, the size, sign, order and parity of every member and the pairwise relations of members, against the uniform distribution and against the other side; repetitions and small linear relations at once. Alarm at 7 standard deviations. Non-trivial: a distinct proof whose members were counted",
		Run:   runC09,
		Floor: map[string]int64{"disjunctive left": 4000, "disjunctive right": 4000, "abc left": 1500, "abc right": 1500, "range entries 0": 8000, "range entries 1": 8000, "statistics compared": 10000}})
}

// sideStats are binary statistics of one side: name -> how often true.
type sideStats struct {
	n    map[string]int
	hits map[string]int
}

func newSide() *sideStats { return &sideStats{map[string]int{}, map[string]int{}} }

func (s *sideStats) note(name string, v bool) {
	s.n[name]++
	if v {
		s.hits[name]++
	}
}

// hiding counts everything about a tuple of integers and points.
type hiding struct {
	seen  map[string]bool
	small map[string]bool
}

func newHiding() *hiding { return &hiding{seen: map[string]bool{}, small: map[string]bool{}} }

type hInt struct {
	name string
	v    *big.Int
}
type hPt struct {
	name string
	p    vref.Pt
}

// fair statistics have names that begin with "=": probability one half.
func (h *hiding) observe(c *C, e *Env, what string, s *sideStats, is []hInt, ps []hPt, deep bool) {
	n := e.P.Grp.Order()
	half := new(big.Int).Rsh(n, 1)
	for i, x := range is {
		if x.v.Sign() < 0 || x.v.Cmp(n) >= 0 {
			c.Violation("size", "%s: %s is not in [0, order): %v", what, x.name, x.v)
			continue
		}
		for b := 0; b < 256; b++ {
			s.note(fmt.Sprintf("=bit %d of %s", b, x.name), x.v.Bit(b) == 1)
		}
		s.note("="+x.name+" above half the order", x.v.Cmp(half) > 0)
		s.note(x.name+" shorter than 32 bytes", x.v.BitLen() <= 248)
		s.note(x.name+" shorter than 31.5 bytes", x.v.BitLen() <= 252)
		key := x.name + string(x.v.Bytes())
		if h.seen[key] {
			c.Violation("repeated", "%s: %s repeated: %v", what, x.name, x.v)
		}
		h.seen[key] = true
		for j := i + 1; j < len(is) && deep; j++ {
			y := is[j]
			s.note("="+x.name+" < "+y.name, x.v.Cmp(y.v) < 0)
			for b := 0; b < 8; b++ {
				s.note(fmt.Sprintf("=bit %d of %s and %s differ", b, x.name, y.name), x.v.Bit(b) != y.v.Bit(b))
				s.note(fmt.Sprintf("=bit %d of %s and %s differ", 255-b, x.name, y.name), x.v.Bit(255-b) != y.v.Bit(255-b))
			}
			for _, d := range []*big.Int{
				new(big.Int).Sub(x.v, y.v), new(big.Int).Add(x.v, y.v),
				new(big.Int).Sub(x.v, new(big.Int).Lsh(y.v, 1)), new(big.Int).Sub(new(big.Int).Lsh(x.v, 1), y.v),
			} {
				d.Mod(d, n)
				if d.Cmp(half) > 0 {
					d.Sub(n, d)
				}
				if d.BitLen() < 64 {
					c.Violation("related", "%s: %s and %s are related: %v, %v", what, x.name, y.name, x.v, y.v)
				}
			}
		}
	}
	for i, x := range ps {
		s.note("=parity of "+x.name, x.p.Y.Bit(0) == 1)
		s.note(x.name+" shorter than 32 bytes", x.p.X.BitLen() <= 248)
		s.note(x.name+" is the identity", x.p.IsID())
		key := x.name + string(x.p.X.Bytes())
		if h.seen[key] {
			c.Violation("repeated", "%s: %s repeated: %v", what, x.name, x.p)
		}
		h.seen[key] = true
		for j := i + 1; j < len(ps) && deep; j++ {
			y := ps[j]
			s.note("=x of "+x.name+" < x of "+y.name, x.p.X.Cmp(y.p.X) < 0)
			s.note("=parity of "+x.name+" and "+y.name+" differ", x.p.Y.Bit(0) != y.p.Y.Bit(0))
			for _, q := range []vref.Pt{e.P.Sub(x.p, y.p), e.P.Grp.Add(x.p, y.p)} {
				if h.isSmall(e, q) {
					c.Violation("related", "%s: %s and %s differ by or add up to a small multiple of a generator", what, x.name, y.name)
				}
			}
		}
		if deep && h.isSmall(e, x.p) {
			c.Violation("related", "%s: %s is a small multiple of a generator", what, x.name)
		}
	}
}

func (h *hiding) isSmall(e *Env, p vref.Pt) bool {
	if len(h.small) == 0 {
		for _, g := range []vref.Pt{e.P.G, e.P.H} {
			q := vref.ID()
			for i := 0; i < 64; i++ {
				h.small[string(q.X.Bytes())] = true
				q = e.P.Grp.Add(q, g)
			}
		}
		for _, q := range e.P.Pow {
			h.small[string(q.X.Bytes())] = true
		}
	}
	return h.small[string(p.X.Bytes())]
}

// compare raises an alarm when a statistic is off or differs between the sides.
func compare(c *C, what string, a, b *sideStats, an, bn string) {
	const lim = 7.0
	for k, n := range a.n {
		m := b.n[k]
		if n < 60 || m < 60 {
			continue
		}
		c.Count("statistics compared", 1)
		ha, hb := float64(a.hits[k]), float64(b.hits[k])
		if k[0] == '=' {
			for _, x := range []struct {
				h, n float64
				side string
			}{{ha, float64(n), an}, {hb, float64(m), bn}} {
				if z := math.Abs(x.h-x.n/2) / (math.Sqrt(x.n) / 2); z > lim {
					c.Violation("biased", "%s, %s: %s in %v of %v: %.1f standard deviations from one half", what, x.side, k[1:], x.h, x.n, z)
				}
			}
			continue
		}
		p := (ha + hb) / float64(n+m)
		sd := math.Sqrt(p * (1 - p) * (1/float64(n) + 1/float64(m)))
		// rare events are not normally distributed: a slack of a few of them
		if d := math.Abs(ha/float64(n) - hb/float64(m)); d > lim*sd+9/float64(min(n, m)) {
			c.Violation("differs", "%s: %s in %v of %d for %s, but %v of %d for %s", what, k, ha, n, an, hb, m, bn)
		}
	}
}

func disjMembers(pre string, q *vref.Disj) ([]hInt, []hPt) {
	return []hInt{{pre + "C", q.C}, {pre + "C1", q.C1}, {pre + "C2", q.C2}, {pre + "S1", q.S1}, {pre + "S2", q.S2}},
		[]hPt{{pre + "T1", q.T1}, {pre + "T2", q.T2}}
}

func runC09(w *W) {
	// disjunctions
	w.Each("disjunctive", func(c *C) {
		h := newHiding()
		var st [2]*sideStats
		st[0], st[1] = newSide(), newSide()
		e := std()
		n := e.P.Grp.Order()
		x, y := c.Uni(n), c.Uni(n)
		in := &Inst{E: e, Kind: kDisj, Stmt: []vref.Pt{e.P.G, vref.MulG(x), e.P.H, vref.MulH(y)}}
		for i := 0; i < w.Scale(1500, 40000); i++ {
			c.Step(i)
			if i%50 == 0 { // other statements, small secrets too
				x, y = c.Scalar(n), c.Scalar(n)
				if i%100 == 0 {
					x, y = big.NewInt(int64(2+c.R.IntN(3))), big.NewInt(int64(2+c.R.IntN(3)))
				}
				in.Stmt = []vref.Pt{e.P.G, vref.MulG(x), e.P.H, vref.MulH(y)}
			}
			for s := 0; s < 2; s++ {
				in.Right = s == 1
				in.Wit = []*big.Int{[]*big.Int{x, y}[s]}
				q, err := in.Prove()
				if err != nil {
					continue
				}
				r, err := refParse(kDisj, libBytes(q))
				if err != nil {
					continue
				}
				is, ps := disjMembers("", r.(*vref.Disj))
				h.observe(c, e, "disjunctive", st[s], is, ps, true)
				c.Count("disjunctive "+[]string{"left", "right"}[s], 1)
				if i%4 == 0 {
					c.Distinct(r.Bytes())
				}
			}
		}
		compare(c, "disjunctive", st[0], st[1], "left", "right")
		c.Sample("%d proofs per side, %d statistics", st[0].n["=bit 0 of C1"], len(st[0].n))
	})
	w.Each("abc", func(c *C) {
		h := newHiding()
		var st [2]*sideStats
		st[0], st[1] = newSide(), newSide()
		e := std()
		n := e.P.Grp.Order()
		for i := 0; i < w.Scale(500, 15000); i++ {
			c.Step(i)
			sk, ra := c.Uni(n), c.Uni(n)
			if i%3 == 0 {
				sk = big.NewInt(int64(3 + c.R.IntN(50)))
			}
			for s := 0; s < 2; s++ {
				v := new(big.Int)
				if s == 1 {
					v = c.Uni(n)
					if i%2 == 0 {
						v = big.NewInt(int64(1 + c.R.IntN(50)))
					}
				}
				in := &Inst{E: e, Kind: kABC, Right: s == 1, Wit: []*big.Int{v, sk},
					Stmt: []vref.Pt{e.P.Commit(v, ra), vref.MulH(e.P.MulAdd(new(big.Int), sk, ra))}}
				q, err := in.Prove()
				if err != nil {
					continue
				}
				r, err := refParse(kABC, libBytes(q))
				if err != nil {
					continue
				}
				a := r.(*vref.ABC)
				is, ps := disjMembers("disj.", a.D)
				is = append(is, hInt{"Challenge", a.Chal}, hInt{"j", a.J}, hInt{"k", a.K}, hInt{"l", a.L})
				ps = append(ps, hPt{"B", a.B}, hPt{"C", a.C}, hPt{"T1", a.T1}, hPt{"T2", a.T2}, hPt{"CToken", a.CTok})
				h.observe(c, e, "abc", st[s], is, ps, true)
				c.Count("abc "+[]string{"left", "right"}[s], 1)
				if i%4 == 0 {
					c.Distinct(r.Bytes())
				}
			}
		}
		compare(c, "abc", st[0], st[1], "zero", "nonzero")
	})
	w.Each("range", func(c *C) {
		h := newHiding()
		var st, per [2]*sideStats
		for s := range st {
			st[s], per[s] = newSide(), newSide()
		}
		e := std()
		vals := []*big.Int{}
		for i := 0; i < w.Scale(64, 1500); i++ {
			v := c.RangeValue()
			switch i % 4 {
			case 1:
				v = new(big.Int)
			case 3:
				v = new(big.Int).Sub(new(big.Int).Lsh(one(), 40), one())
			}
			vals = append(vals, v)
		}
		whole := [2]*sideStats{newSide(), newSide()}
		for i, v := range vals {
			c.Step(i)
			in := &Inst{E: e, Kind: kRange, Wit: []*big.Int{v}}
			q, err := in.Prove()
			if err != nil {
				continue
			}
			r, err := refParse(kRange, libBytes(q))
			if err != nil {
				continue
			}
			c.Distinct(r.Bytes())
			rr := r.(*vref.Range)
			if v.Sign() == 0 || v.BitLen() == 40 && v.TrailingZeroBits() == 0 && new(big.Int).Add(v, one()).BitLen() == 41 {
				s := whole[min(v.Sign(), 1)]
				h.observe(c, e, "range", s, []hInt{{"E", rr.E}}, []hPt{{"aggregate", rr.Agg}}, false)
				s.note("=length is odd", len(libBytes(q))%2 == 1)
				s.note("short serialization", len(libBytes(q)) < 40+67*41-4)
			}
			for k, t := range rr.Tup {
				if k >= 40 {
					break
				}
				b := int(v.Bit(k))
				h.observe(c, e, "range entry", st[b], []hInt{{"S", t.S}}, []hPt{{"C", t.C}}, false)
				per[b].note(fmt.Sprintf("=S[%d] above half the order", k), t.S.Bit(255) == 1)
				per[b].note(fmt.Sprintf("=parity of C[%d]", k), t.C.Y.Bit(0) == 1)
				c.Count(fmt.Sprintf("range entries %d", b), 1)
				if h.isSmall(e, t.C) || h.isSmall(e, e.P.Sub(t.C, e.P.Pow[k])) {
					c.Violation("related", "value %v: entry %d is a small multiple of a generator", v, k)
				}
				// neighbours
				if k > 0 {
					o := rr.Tup[k-1]
					st[b].note("=C after smaller C", o.C.X.Cmp(t.C.X) < 0)
					st[b].note("=S after smaller S", o.S.Cmp(t.S) < 0)
					for _, d := range []vref.Pt{e.P.Sub(t.C, o.C), e.P.Grp.Add(t.C, o.C)} {
						if h.isSmall(e, d) {
							c.Violation("related", "value %v: entries %d and %d are related", v, k-1, k)
						}
					}
					for _, d := range []*big.Int{new(big.Int).Sub(t.S, o.S), new(big.Int).Add(t.S, o.S)} {
						if d.Mod(d, e.P.Grp.Order()).BitLen() < 64 {
							c.Violation("related", "value %v: responses %d and %d are related", v, k-1, k)
						}
					}
				}
				// the opening must not be readable: S is no response to the bit alone
				for _, bad := range []vref.Pt{t.C, e.P.Sub(t.C, e.P.Pow[k]), e.P.Grp.Mul(t.C, rr.E), e.P.Grp.Mul(e.P.Sub(t.C, e.P.Pow[k]), rr.E)} {
					if i%8 == 0 && h.isSmall(e, e.P.Sub(vref.MulH(t.S), bad)) {
						c.Violation("opened", "value %v: the response of entry %d opens its commitment", v, k)
					}
				}
			}
		}
		compare(c, "range entries", st[0], st[1], "0 bits", "1 bits")
		compare(c, "range entries", per[0], per[1], "0 bits", "1 bits")
		compare(c, "range proofs", whole[0], whole[1], "0", "2^40-1")
	})
}
