package main

import (
	"fmt"
	"math/big"

	"vref"
)

// In a group of 107 elements a proof can be found for any statement, by trying
// until the challenge comes out. So transcripts are drawn at random in which all
// conditions hold but the chosen one, which holds only by chance, and every
// coincidence of points, scalars and sums comes up.

// scanConds are the conditions of each kind.
var scanConds = map[string][]string{
	kGSPFS: {"hash", "first"},
	kEquiv: {"hash", "first", "second"},
	kCons:  {"hash", "first", "second"},
	kDisj:  {"hash", "first", "second", "sum"},
	kABC:   {"hash", "first", "second", "inner hash", "inner first", "inner second", "inner sum"},
	kRange: {"hash", "aggregate", "commitment", "aggregate and commitment"},
}

type scanner struct {
	c    *C
	e    *Env
	n    *big.Int
	sc   []*big.Int
	base []vref.Pt
}

func newScanner(c *C) *scanner {
	e := toys()[0]
	p, n := e.P, e.P.Grp.Order()
	s := &scanner{c: c, e: e, n: n}
	x, y := c.Uni(n), c.Uni(n)
	s.sc = []*big.Int{new(big.Int), new(big.Int), one(), new(big.Int).Sub(n, one()), x, p.Mod(new(big.Int).Neg(x)), y}
	for _, k := range s.sc {
		s.base = append(s.base, p.Grp.Mul(p.G, k), p.Grp.Mul(p.H, k))
	}
	return s
}

func (s *scanner) num() *big.Int {
	if s.c.R.IntN(5) == 0 {
		return new(big.Int).Set(pick(s.c, s.sc))
	}
	return s.c.Uni(s.n)
}

func (s *scanner) pt() vref.Pt {
	if s.c.R.IntN(4) == 0 {
		return pick(s.c, s.base).Copy()
	}
	return s.e.P.Grp.Mul(s.e.P.G, s.c.Uni(s.n))
}

// until tries f, which returns the challenge by the hash and the one in the proof,
// until they agree.
func (s *scanner) until(drop bool, f func() (hash, c *big.Int)) bool {
	for i := 0; i < 2500; i++ {
		h, c := f()
		if drop || h.Cmp(c) == 0 {
			return true
		}
	}
	return false
}

// eq solves s*b = t + c*r for t.
func (s *scanner) eq(drop bool, x *big.Int, b vref.Pt, c *big.Int, r vref.Pt) vref.Pt {
	if drop {
		return s.pt()
	}
	return s.e.P.Sub(s.e.P.Grp.Mul(b, x), s.e.P.Grp.Mul(r, c))
}

func (s *scanner) disj(pre, drop string, b1, r1, b2, r2 vref.Pt) *vref.Disj {
	d := &vref.Disj{}
	p := s.e.P
	ok := s.until(drop == pre+"hash", func() (*big.Int, *big.Int) {
		d.C1, d.C2, d.S1, d.S2 = s.num(), s.num(), s.num(), s.num()
		d.T1 = s.eq(drop == pre+"first", d.S1, b1, d.C1, r1)
		d.T2 = s.eq(drop == pre+"second", d.S2, b2, d.C2, r2)
		d.C = p.Mod(new(big.Int).Add(d.C1, d.C2))
		h := p.Chal(b1, r1, b2, r2, d.T1, d.T2)
		if drop == pre+"sum" {
			d.C = h
		}
		return h, d.C
	})
	if !ok {
		return nil
	}
	return d
}

// proof is a transcript for a statement as the verifier takes it.
func (s *scanner) proof(kind, drop string) (RefProof, []vref.Pt) {
	p, g := s.e.P, s.e.P.Grp
	switch kind {
	case kGSPFS:
		a, r := s.pt(), &vref.GSPFS{Base: s.pt()}
		if s.until(drop == "hash", func() (*big.Int, *big.Int) {
			r.S, r.C = s.num(), s.num()
			r.T = s.eq(drop == "first", r.S, r.Base, p.Mod(new(big.Int).Neg(r.C)), a)
			return p.Chal(r.Base, a, r.T), r.C
		}) {
			return r, []vref.Pt{a}
		}
	case kEquiv:
		st := []vref.Pt{s.pt(), s.pt(), s.pt(), s.pt()}
		r := &vref.Equiv{}
		if s.until(drop == "hash", func() (*big.Int, *big.Int) {
			r.S, r.C = s.num(), s.num()
			r.UG = s.eq(drop == "first", r.S, st[0], r.C, st[1])
			r.UH = s.eq(drop == "second", r.S, st[2], r.C, st[3])
			return p.Chal(st[0], st[1], st[2], st[3], r.UG, r.UH), r.C
		}) {
			return r, st
		}
	case kCons:
		st := []vref.Pt{s.pt(), s.pt(), s.pt()}
		r := &vref.Cons{}
		if s.until(drop == "hash", func() (*big.Int, *big.Int) {
			r.S1, r.S2, r.C = s.num(), s.num(), s.num()
			r.T1 = s.eq(drop == "first", one(), p.Commit(r.S1, r.S2), r.C, st[0])
			r.T2 = s.eq(drop == "second", r.S2, st[2], r.C, st[1])
			return p.Chal(p.G, p.H, st[0], st[1], st[2], r.T1, r.T2), r.C
		}) {
			return r, st
		}
	case kDisj:
		st := []vref.Pt{s.pt(), s.pt(), s.pt(), s.pt()}
		if d := s.disj("", drop, st[0], st[1], st[2], st[3]); d != nil {
			return d, st
		}
	case kABC:
		cm, tok := s.pt(), s.pt()
		a := &vref.ABC{B: s.pt(), C: s.pt(), CTok: s.pt()}
		if a.D = s.disj("inner ", drop, cm, tok, p.H, p.Sub(a.C, p.G)); a.D == nil {
			return nil, nil
		}
		if s.until(drop == "hash", func() (*big.Int, *big.Int) {
			a.J, a.K, a.L, a.Chal = s.num(), s.num(), s.num(), s.num()
			a.T1 = s.eq(drop == "first", one(), g.Add(g.Mul(p.G, a.J), g.Mul(tok, a.K)), a.Chal, cm)
			a.T2 = s.eq(drop == "second", one(), g.Add(g.Mul(a.B, a.J), g.Mul(p.H, a.L)), a.Chal, a.C)
			return p.Chal(p.G, p.H, cm, tok, a.B, a.C, a.T1, a.T2), a.Chal
		}) {
			return a, []vref.Pt{cm, tok}
		}
	case kRange:
		n := 1 + s.c.R.IntN(4)
		if s.c.R.IntN(12) == 0 {
			n = 1 + s.c.R.IntN(40)
		}
		r := &vref.Range{Tup: make([]vref.Tup, n)}
		sum := vref.ID()
		for i := range r.Tup {
			q := s.pt()
			switch s.c.R.IntN(10) {
			case 0:
				q = p.Pow[i]
			case 1:
				q = g.Neg(p.Pow[i])
			case 2:
				q = g.Neg(sum)
			case 3:
				q = sum
			case 4:
				q = r.Tup[max(i-1, 0)].C
				if i == 0 {
					q = p.G
				}
			}
			r.Tup[i].C = q.Copy()
			sum = g.Add(sum, q)
		}
		if !s.until(drop == "hash", func() (*big.Int, *big.Int) {
			r.E = s.num()
			rs := make([]vref.Pt, n)
			for i := range r.Tup {
				r.Tup[i].S = s.num()
				rs[i] = r.RPoint(p, i)
			}
			return p.Mod(vref.RangeE(rs)), r.E
		}) {
			return nil, nil
		}
		r.Agg = sum
		comm := sum
		other := func() vref.Pt {
			switch s.c.R.IntN(4) {
			case 0:
				return s.pt()
			case 1: // without one of them
				return p.Sub(sum, pick(s.c, r.Tup).C)
			case 2: // with one of them twice
				return g.Add(sum, pick(s.c, r.Tup).C)
			}
			return pick(s.c, wrongSums(s.e, r)).p
		}
		switch drop {
		case "aggregate":
			r.Agg = other()
		case "commitment":
			comm = other()
		case "aggregate and commitment":
			r.Agg = other()
			comm = r.Agg
		}
		return r, []vref.Pt{comm}
	}
	return nil, nil
}

// runScan judges n transcripts per case, m cases of each kind.
func runScan(w *W, kinds []string, m, n int, exact bool) {
	for _, k := range kinds {
		for i := 0; i < m; i++ {
			w.Case(fmt.Sprintf("scan/%s/%d", k, i), func(c *C) {
				conds := scanConds[k]
				if exact { // valid ones as well
					conds = append([]string{""}, conds...)
				}
				for j := 0; j < n; j++ {
					s := newScanner(c)
					drop := conds[(i+j)%len(conds)]
					p, st := s.proof(k, drop)
					if p == nil {
						c.Count("no transcript found", 1)
						continue
					}
					if s.c.R.IntN(4) == 0 {
						scanUnreduced(c, s.e, k, p)
					}
					in := &Inst{E: s.e, Kind: k, Stmt: st}
					lib, ref := judge(c, in, drop, p, st)
					c.Count("transcripts that need not satisfy "+k+" "+drop, 1)
					if drop == "" {
						c.Count("valid scanned", 1)
					}
					if lib && !ref {
						c.Violation("forged", "%s (%s): accepted although invalid: all conditions but %q; proof %x statement %x", k, s.e.Name, drop, p.Bytes(), st)
					}
					if exact && ref && !lib {
						c.Violation("refused", "%s (%s): refused although valid: proof %x statement %x", k, s.e.Name, p.Bytes(), st)
					}
					if !ref {
						c.Count("scanned "+k, 1)
						c.Distinct(k, p.Bytes(), fmt.Sprint(st))
					}
				}
			})
		}
	}
}

// scanUnreduced lifts responses and partial challenges.
func scanUnreduced(c *C, e *Env, kind string, p RefProof) {
	lift := func(xs ...**big.Int) {
		for _, x := range xs {
			if c.Flip() {
				*x = c.lift(*x, e.P.Grp.Order())
			}
		}
	}
	switch q := p.(type) {
	case *vref.GSPFS:
		lift(&q.S)
	case *vref.Equiv:
		lift(&q.S)
	case *vref.Cons:
		lift(&q.S1, &q.S2)
	case *vref.Disj:
		lift(&q.S1, &q.S2, &q.C1, &q.C2)
	case *vref.ABC:
		lift(&q.J, &q.K, &q.L, &q.D.S1, &q.D.S2, &q.D.C1, &q.D.C2)
	case *vref.Range:
		for i := range q.Tup {
			lift(&q.Tup[i].S)
		}
	}
}
