package main

import (
	"fmt"
	"math/big"

	"vref"
)

func init() {
	register(&Check{ID: "C05", Level: "exploration",
		Rule:  "valid range proofs (the library's and the reference's), then every entry changed, negated, replaced, swapped, dropped, repeated or moved, with aggregate and commitment left alone or readjusted in every combination so that one condition at a time fails; changed challenge, aggregate, commitment; cheating provers: other powers of two per entry, bits other than 0 and 1, challenges over some or reordered R points, too many entries; commitments that coincide, cancel or vanish, summed up with something left out; proofs of every number of entries from 1 to 64; responses that are not reduced; in the group of 107, random proofs in which all conditions but one hold. The reference decides which are valid. Non-trivial: a distinct proof and commitment that the reference refuses and the library judged",
		Run:   runC05,
		Floor: map[string]int64{"invalid range": 2500, "accepted before the change": 300, "cheating provers": 300, "lengths": 40, "scanned range": 1000, "sums with something left out": 200, "only the ring equation fails": 300, "only the aggregate differs": 30, "only the commitment differs": 30}})
}

// rangeBase is a valid range proof with its commitment.
func rangeBase(c *C, e *Env, lib bool) (*vref.Range, vref.Pt, *big.Int) {
	v := c.RangeValue()
	in := &Inst{E: e, Kind: kRange, Wit: []*big.Int{v}}
	if lib {
		q, err := in.Prove()
		if err == nil {
			r, err := refParse(kRange, libBytes(q))
			if err == nil {
				return r.(*vref.Range), in.Stmt[0], v
			}
		}
		c.Count("prover failed", 1)
	}
	r := randRef(c, e, kRange, in).(*vref.Range)
	return r, in.Stmt[0], v
}

func rclone(r *vref.Range) *vref.Range {
	q := &vref.Range{Agg: r.Agg.Copy(), E: cp(r.E), Tup: make([]vref.Tup, len(r.Tup))}
	for i, t := range r.Tup {
		q.Tup[i] = vref.Tup{C: t.C.Copy(), S: cp(t.S)}
	}
	return q
}

// decideRange compares the library's answer with the reference's and names the
// conditions that fail.
func decideRange(c *C, e *Env, name string, r *vref.Range, comm vref.Pt) {
	ref := r.Verify(e.P, comm)
	q, err := libParse(kRange, r.Bytes())
	if err != nil {
		c.Violation("decode", "%s: well-formed proof is not decoded: %v", name, err)
		return
	}
	ok, err := libVerify(e.L, q, []vref.Pt{comm})
	c.Check(ok == (err == nil), "answer", "%s: Verify returned %v with error %v", name, ok, err)
	if ref {
		c.Count("still valid", 1)
		return
	}
	c.Count("invalid range", 1)
	if len(r.Tup) <= len(e.P.Pow) {
		s := r.Sum(e.P)
		a, m := s.Eq(r.Agg), s.Eq(comm)
		switch {
		case a && m:
			c.Count("only the ring equation fails", 1)
		case m:
			c.Count("the aggregate differs", 1)
		case a:
			c.Count("the commitment differs", 1)
		}
	}
	c.Distinct(r.Bytes(), comm)
	if ok {
		c.Violation("forged", "%s: %s: accepted although invalid; proof %x commitment %x", e.Name, name, r.Bytes(), comm)
	}
}

// adjust makes aggregate and/or commitment fit the entries again.
func adjust(e *Env, r *vref.Range, comm vref.Pt, how int) (vref.Pt, string) {
	s := r.Sum(e.P)
	switch how & 3 {
	case 1:
		r.Agg = s
		return comm, ", aggregate readjusted"
	case 2:
		return s, ", commitment readjusted"
	case 3:
		r.Agg = s
		return s, ", aggregate and commitment readjusted"
	}
	return comm, ""
}

// knownH are parameter sets in which the discrete logarithm of H is known, with it.
func knownH() ([]*Env, []*big.Int) {
	return []*Env{envs()[1], toys()[0], toys()[1]}, []*big.Int{big.NewInt(7919), big.NewInt(71), big.NewInt(71)}
}

// chosenC is a valid proof of 2^bits-1 whose commitments are target(i) times G. That
// takes the logarithm h of H.
func chosenC(c *C, e *Env, h *big.Int, bits int, target func(i int) *big.Int) *vref.Range {
	p, n := e.P, e.P.Grp.Order()
	v := new(big.Int).Sub(two(uint(bits)), one())
	ih := new(big.Int).ModInverse(h, n)
	var q []*big.Int
	for i := 0; i < bits; i++ {
		d := new(big.Int).Sub(target(i), two(uint(i)))
		q = append(q, c.Uni(n), p.MulAdd(new(big.Int), ih, d))
	}
	r, _, _ := p.ProveRangeWith(v, bits, func() *big.Int {
		if len(q) == 0 {
			return c.Uni(n)
		}
		x := q[0]
		q = q[1:]
		return x
	}, func(rs []vref.Pt) *big.Int { return p.Mod(vref.RangeE(rs)) })
	return r
}

// chosenTargets are logarithms that coincide, vanish or cancel.
func chosenTargets(c *C, e *Env) (string, func(i int) *big.Int) {
	n := e.P.Grp.Order()
	x, y := c.Uni(n), c.Uni(n)
	neg := new(big.Int).Sub(n, x)
	at := c.R.IntN(40)
	switch c.R.IntN(7) {
	case 0:
		return "all the same", func(int) *big.Int { return x }
	case 1:
		return "alternately opposite", func(i int) *big.Int { return []*big.Int{x, neg}[i%2] }
	case 2:
		return "alternately one of two", func(i int) *big.Int { return []*big.Int{x, y}[i%2] }
	case 3:
		return "pairs", func(i int) *big.Int { return e.P.Mod(new(big.Int).Mul(x, big.NewInt(int64(i/2)))) }
	case 4:
		return "all the identity", func(int) *big.Int { return new(big.Int) }
	case 5:
		l := []*big.Int{x, y, neg, new(big.Int), one()}
		return "a few", func(int) *big.Int { return pick(c, l) }
	}
	return "one like the next", func(i int) *big.Int {
		if i == at || i == at+1 {
			return x
		}
		return c.Uni(n)
	}
}

// wrongSums are sums of the commitments in which something is left out.
func wrongSums(e *Env, r *vref.Range) (l []struct {
	name string
	p    vref.Pt
}) {
	add := func(name string, use func(i int) bool) {
		s := vref.ID()
		for i, t := range r.Tup {
			if use(i) {
				s = e.P.Grp.Add(s, t.C)
			}
		}
		l = append(l, struct {
			name string
			p    vref.Pt
		}{name, s})
	}
	count := func(i int, f func(a, b vref.Pt) bool) (n int) {
		for j, t := range r.Tup {
			if j != i && f(r.Tup[i].C, t.C) {
				n++
			}
		}
		return
	}
	eq := func(a, b vref.Pt) bool { return a.Eq(b) }
	add("those like the one before", func(i int) bool { return i == 0 || !r.Tup[i].C.Eq(r.Tup[i-1].C) })
	add("those like the next", func(i int) bool { return i+1 == len(r.Tup) || !r.Tup[i].C.Eq(r.Tup[i+1].C) })
	add("repeated ones", func(i int) bool {
		for _, t := range r.Tup[:i] {
			if t.C.Eq(r.Tup[i].C) {
				return false
			}
		}
		return true
	})
	add("all that occur twice", func(i int) bool { return count(i, eq) == 0 })
	add("those that have an opposite before", func(i int) bool { return i == 0 || !r.Tup[i].C.Eq(e.P.Grp.Neg(r.Tup[i-1].C)) })
	add("those with a short coordinate", func(i int) bool { return len(ptBytes(r.Tup[i].C)) >= 64 })
	add("the ones from 40 on", func(i int) bool { return i < 40 })
	// a sum that starts again when it reaches the identity or the next point
	s := vref.ID()
	for i, t := range r.Tup {
		if i > 0 && s.Eq(t.C) {
			continue
		}
		s = e.P.Grp.Add(s, t.C)
	}
	l = append(l, struct {
		name string
		p    vref.Pt
	}{"those like the sum so far", s})
	return
}

func runC05(w *W) {
	runScan(w, []string{kRange}, w.Scale(24, 300), 80, false)
	entry := []struct {
		name string
		f    func(c *C, e *Env, r *vref.Range, i int)
	}{
		{"C+G", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i].C = e.P.Grp.Add(r.Tup[i].C, e.P.G) }},
		{"C-G", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i].C = e.P.Sub(r.Tup[i].C, e.P.G) }},
		{"C+H", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i].C = e.P.Grp.Add(r.Tup[i].C, e.P.H) }},
		{"C+2^i G", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i].C = e.P.Grp.Add(r.Tup[i].C, e.P.Pow[i]) }},
		{"C-2^i G", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i].C = e.P.Sub(r.Tup[i].C, e.P.Pow[i]) }},
		{"-C", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i].C = e.P.Grp.Neg(r.Tup[i].C) }},
		{"2C", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i].C = e.P.Grp.Add(r.Tup[i].C, r.Tup[i].C) }},
		{"C identity", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i].C = vref.ID() }},
		{"C 2^i G", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i].C = e.P.Pow[i] }},
		{"C random", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i].C = e.P.Grp.Mul(e.P.G, c.Uni(e.P.Grp.Order())) }},
		{"S+1", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i].S = new(big.Int).Add(r.Tup[i].S, one()) }},
		{"-S", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i].S = new(big.Int).Neg(r.Tup[i].S) }},
		{"S zero", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i].S = new(big.Int) }},
		{"S bit flipped", func(c *C, e *Env, r *vref.Range, i int) {
			k := c.R.IntN(256)
			r.Tup[i].S = new(big.Int).SetBit(r.Tup[i].S, k, r.Tup[i].S.Bit(k)^1)
		}},
		{"identity and zero", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i] = vref.Tup{C: vref.ID(), S: new(big.Int)} }},
		{"swapped with another", func(c *C, e *Env, r *vref.Range, i int) {
			j := (i + 1 + c.R.IntN(len(r.Tup)-1)) % len(r.Tup)
			r.Tup[i], r.Tup[j] = r.Tup[j], r.Tup[i]
		}},
		{"commitments swapped with another", func(c *C, e *Env, r *vref.Range, i int) {
			j := (i + 1 + c.R.IntN(len(r.Tup)-1)) % len(r.Tup)
			r.Tup[i].C, r.Tup[j].C = r.Tup[j].C, r.Tup[i].C
		}},
		{"responses swapped with another", func(c *C, e *Env, r *vref.Range, i int) {
			j := (i + 1 + c.R.IntN(len(r.Tup)-1)) % len(r.Tup)
			r.Tup[i].S, r.Tup[j].S = r.Tup[j].S, r.Tup[i].S
		}},
		{"replaced with another", func(c *C, e *Env, r *vref.Range, i int) { r.Tup[i] = r.Tup[(i+1+c.R.IntN(len(r.Tup)-1))%len(r.Tup)] }},
		{"dropped", func(c *C, e *Env, r *vref.Range, i int) { r.Tup = append(r.Tup[:i:i], r.Tup[i+1:]...) }},
		{"and all behind it dropped", func(c *C, e *Env, r *vref.Range, i int) { r.Tup = r.Tup[:i] }},
		{"repeated", func(c *C, e *Env, r *vref.Range, i int) {
			r.Tup = append(append(append([]vref.Tup{}, r.Tup[:i+1]...), r.Tup[i]), r.Tup[i+1:]...)
		}},
		{"repeated at the end", func(c *C, e *Env, r *vref.Range, i int) { r.Tup = append(r.Tup, r.Tup[i]) }},
		{"empty one inserted", func(c *C, e *Env, r *vref.Range, i int) {
			r.Tup = append(append(append([]vref.Tup{}, r.Tup[:i]...), vref.Tup{C: vref.ID(), S: new(big.Int)}), r.Tup[i:]...)
		}},
		{"moved to the end", func(c *C, e *Env, r *vref.Range, i int) {
			t := r.Tup[i]
			r.Tup = append(append(r.Tup[:i:i], r.Tup[i+1:]...), t)
		}},
		{"and another shifted by opposite amounts", func(c *C, e *Env, r *vref.Range, i int) {
			j := (i + 1 + c.R.IntN(len(r.Tup)-1)) % len(r.Tup)
			d := e.P.Commit(big.NewInt(int64(c.R.IntN(9)-4)), c.Uni(e.P.Grp.Order()))
			r.Tup[i].C, r.Tup[j].C = e.P.Grp.Add(r.Tup[i].C, d), e.P.Sub(r.Tup[j].C, d)
		}},
		{"of another proof", func(c *C, e *Env, r *vref.Range, i int) {
			o, _, _ := rangeBase(c, e, false)
			r.Tup[i] = o.Tup[i%len(o.Tup)]
		}},
	}
	rounds := w.Scale(1, 12)
	for rd := 0; rd < rounds; rd++ {
		for i := 0; i < 40; i++ {
			w.Case(fmt.Sprintf("entry/%d/%d", rd, i), func(c *C) {
				// the library's proof, half of the time the reference's
				e := std()
				if (rd+i)%4 == 3 {
					e = pick(c, envs())
				}
				r, comm, v := rangeBase(c, e, (rd+i)%2 == 0)
				q, err := libParse(kRange, r.Bytes())
				if err != nil {
					return
				}
				if ok, _ := libVerify(e.L, q, []vref.Pt{comm}); !ok {
					c.Count("not accepted before the change", 1)
				} else {
					c.Count("accepted before the change", len(entry))
				}
				c.Sample("value %v, entry %d", v, i)
				for k, m := range entry {
					c.Step(k * 16)
					for how := 0; how < 4; how++ {
						if how != 0 && how != 3 && (i+k+how)%3 != 0 {
							continue
						}
						x := rclone(r)
						m.f(c, e, x, i)
						cm, n := adjust(e, x, comm, how)
						decideRange(c, e, fmt.Sprintf("entry %d %s%s", i, m.name, n), x, cm)
					}
				}
			})
		}
	}
	whole := func(c *C, e *Env, r *vref.Range, comm vref.Pt, v *big.Int) {
		n := e.P.Grp.Order()
		for _, m := range ptMuts {
			x := rclone(r)
			x.Agg = m.f(c, e, x.Agg)
			c.Count("only the aggregate differs", 1)
			decideRange(c, e, "aggregate "+m.name, x, comm)
			c.Count("only the commitment differs", 1)
			decideRange(c, e, "commitment "+m.name, r, m.f(c, e, comm))
			x = rclone(r)
			x.Agg = m.f(c, e, x.Agg)
			decideRange(c, e, "aggregate and commitment "+m.name, x, x.Agg)
		}
		for _, m := range intMuts {
			x := rclone(r)
			x.E = m.f(c, e, x.E)
			if x.E.Cmp(r.E) != 0 {
				decideRange(c, e, "challenge "+m.name, x, comm)
			}
		}
		// the commitment of a neighbouring value under the same blinding
		for k := uint(0); k < 40; k += 3 {
			decideRange(c, e, "commitment to another value", r, e.P.Grp.Add(comm, e.P.Pow[k]))
		}
		x := rclone(r)
		for i, j := 0, len(x.Tup)-1; i < j; i, j = i+1, j-1 {
			x.Tup[i], x.Tup[j] = x.Tup[j], x.Tup[i]
		}
		decideRange(c, e, "entries in reverse order", x, comm)
		x = rclone(r)
		x.Tup = append(x.Tup, x.Tup...)
		cm, _ := adjust(e, x, comm, 3)
		decideRange(c, e, "all entries twice", x, cm)
		decideRange(c, e, "no entries", &vref.Range{Agg: comm, E: r.E}, comm)
		decideRange(c, e, "no entries, hash of nothing", &vref.Range{Agg: comm, E: e.P.Mod(vref.RangeE(nil))}, comm)
		x = rclone(r)
		for i := range x.Tup {
			x.Tup[i].C = e.P.Grp.Neg(x.Tup[i].C)
			x.Tup[i].S = e.P.Mod(new(big.Int).Neg(x.Tup[i].S))
		}
		cm, _ = adjust(e, x, comm, 3)
		decideRange(c, e, "everything negated", x, cm)
		// made for one H, checked with another
		for _, o := range envs() {
			if o.P.Grp == e.P.Grp && o != e {
				decideRange(c, o, "proof for other generators", r, comm)
			}
		}
		_ = n
	}
	for i := 0; i < w.Scale(12, 160); i++ {
		w.Case(fmt.Sprintf("whole/%d", i), func(c *C) {
			e := c.Env()
			r, comm, v := rangeBase(c, e, i%2 == 0)
			whole(c, e, r, comm, v)
		})
	}
	// cheating provers
	cheat := func(c *C, e *Env, name string, p *vref.Params, v *big.Int, bits int, hash func([]vref.Pt) *big.Int) {
		if hash == nil {
			hash = func(rs []vref.Pt) *big.Int { return p.Mod(vref.RangeE(rs)) }
		}
		r, _, _ := p.ProveRangeWith(v, bits, func() *big.Int { return c.Uni(p.Grp.Order()) }, hash)
		c.Count("cheating provers", 1)
		decideRange(c, e, name, r, r.Agg)
		// the same with responses that are not reduced
		x := rclone(r)
		which := c.R.IntN(4) // all, some, or the ones that cheat
		for i := range x.Tup {
			if which == 0 || which == 1 && c.R.IntN(8) == 0 || which > 1 && (i >= len(e.P.Pow) || !p.Pow[i].Eq(e.P.Pow[i])) {
				x.Tup[i].S = c.lift(x.Tup[i].S, p.Grp.Order())
			}
		}
		decideRange(c, e, name+", responses not reduced", x, x.Agg)
	}
	// any number of entries
	for i := 0; i < w.Scale(1, 12); i++ {
		for k := 1; k <= 64; k++ {
			w.Case(fmt.Sprintf("length/%d/%d", i, k), func(c *C) {
				e := std()
				if c.R.IntN(4) == 0 {
					e = pick(c, envs())
				}
				g := e.P.Grp
				v := new(big.Int).And(c.Uni(g.Order()), new(big.Int).Sub(new(big.Int).Lsh(one(), uint(k)), one()))
				r, _, _ := e.P.ProveRangeWith(v, k, func() *big.Int { return c.Uni(g.Order()) }, func(rs []vref.Pt) *big.Int { return e.P.Mod(vref.RangeE(rs)) })
				c.Count("lengths", 1)
				for j := 0; j < 3; j++ {
					m := ptMuts[(i+k+j)%len(ptMuts)]
					decideRange(c, e, fmt.Sprintf("%d entries, commitment %s", k, m.name), r, m.f(c, e, r.Agg))
					x := rclone(r)
					x.Agg = m.f(c, e, x.Agg)
					decideRange(c, e, fmt.Sprintf("%d entries, aggregate %s", k, m.name), x, r.Agg)
					decideRange(c, e, fmt.Sprintf("%d entries, aggregate and commitment %s", k, m.name), x, x.Agg)
				}
				for j := 0; j < 3; j++ {
					m := pick(c, entry)
					if k < 2 {
						break
					}
					x := rclone(r)
					m.f(c, e, x, c.R.IntN(k))
					cm, n := adjust(e, x, r.Agg, c.R.IntN(4))
					decideRange(c, e, fmt.Sprintf("of %d entries one %s%s", k, m.name, n), x, cm)
				}
				// entries that count for the power of an earlier one
				for _, m := range []int{8, 16, 32, 39, 40, 41, 63} {
					if k <= m {
						break
					}
					p := *e.P
					p.Pow = append([]vref.Pt{}, p.Pow...)
					how := c.R.IntN(4)
					for t := m; t < 64; t++ {
						p.Pow[t] = []vref.Pt{e.P.Pow[t%m], e.P.Pow[m-1], e.P.Pow[t-1], vref.ID()}[how]
					}
					cheat(c, e, fmt.Sprintf("%d entries, from %d on powers of earlier ones (%d)", k, m, how), &p, new(big.Int).SetBit(v, m+c.R.IntN(k-m), 1), k, nil)
				}
				// entries that count for another power
				for j := 0; j < 4; j++ {
					p := *e.P
					p.Pow = append([]vref.Pt{}, p.Pow...)
					a, b := c.R.IntN(k), c.R.IntN(64)
					if j == 0 {
						a = k - 1
					}
					vv := new(big.Int).SetBit(v, a, 1)
					if c.Flip() {
						for t := a; t < 64; t++ {
							p.Pow[t] = e.P.Pow[a]
						}
						vv.SetBit(vv, k-1, 1)
					} else {
						p.Pow[a] = e.P.Pow[b]
					}
					cheat(c, e, fmt.Sprintf("%d entries, from %d on other powers", k, a), &p, vv, k, nil)
				}
			})
		}
	}
	for i := 0; i < w.Scale(6, 100); i++ {
		for k := 0; k < 40; k++ {
			w.Case(fmt.Sprintf("cheat/%d/%d", i, k), func(c *C) {
				e := std()
				if i%3 == 2 {
					e = pick(c, envs())
				}
				v := c.RangeValue()
				pow := func(f func(l []vref.Pt)) *vref.Params {
					p := *e.P
					p.Pow = append([]vref.Pt{}, p.Pow...)
					f(p.Pow)
					return &p
				}
				g := e.P.Grp
				n := g.Order()
				vk := new(big.Int).SetBit(v, k, 1)
				switch i % 6 {
				case 0:
					for _, m := range []int64{2, -1, 3} {
						cheat(c, e, fmt.Sprintf("bit %d is %d", k, m), pow(func(l []vref.Pt) { l[k] = g.Mul(l[k], big.NewInt(m)) }), vk, 40, nil)
					}
				case 1:
					cheat(c, e, fmt.Sprintf("bit %d is minus the sum of the others", k), pow(func(l []vref.Pt) { l[k] = g.Mul(e.P.G, new(big.Int).Sub(n, big.NewInt(5))) }), vk, 40, nil)
					cheat(c, e, fmt.Sprintf("bit %d counts for another", k), pow(func(l []vref.Pt) { l[k] = e.P.Pow[(k+1+c.R.IntN(39))%64] }), vk, 40, nil)
				case 2:
					cheat(c, e, fmt.Sprintf("bit %d with power 0", k), pow(func(l []vref.Pt) { l[k] = vref.ID() }), vk, 40, nil)
					cheat(c, e, "all powers shifted", pow(func(l []vref.Pt) {
						for j := 0; j < 40; j++ {
							l[j] = e.P.Pow[(j+k+1)%64]
						}
					}), vk, 40, nil)
				case 3:
					h := func(f func(rs []vref.Pt) []vref.Pt) func([]vref.Pt) *big.Int {
						return func(rs []vref.Pt) *big.Int { return e.P.Mod(vref.RangeE(f(append([]vref.Pt{}, rs...)))) }
					}
					cheat(c, e, fmt.Sprintf("challenge without R %d", k), e.P, v, 40, h(func(rs []vref.Pt) []vref.Pt { return append(rs[:k:k], rs[k+1:]...) }))
					cheat(c, e, fmt.Sprintf("challenge of R up to %d", k), e.P, v, 40, h(func(rs []vref.Pt) []vref.Pt { return rs[:k] }))
					cheat(c, e, fmt.Sprintf("challenge with R %d negated", k), e.P, v, 40, h(func(rs []vref.Pt) []vref.Pt { rs[k] = g.Neg(rs[k]); return rs }))
					cheat(c, e, fmt.Sprintf("challenge with R %d moved", k), e.P, v, 40, h(func(rs []vref.Pt) []vref.Pt {
						j := (k + 1) % 40
						rs[k], rs[j] = rs[j], rs[k]
						return rs
					}))
					cheat(c, e, "arbitrary challenge", e.P, v, 40, func([]vref.Pt) *big.Int { return c.Uni(n) })
				case 4:
					cheat(c, e, "wrong H", func() *vref.Params { p := *e.P; p.H = g.Add(p.H, p.G); return &p }(), v, 40, nil)
					cheat(c, e, "H and G exchanged", func() *vref.Params {
						p := *e.P
						p.G, p.H = p.H, p.G
						p.Pow = nil
						b := p.G
						for j := 0; j < 64; j++ {
							p.Pow = append(p.Pow, b)
							b = g.Add(b, b)
						}
						return &p
					}(), v, 40, nil)
				case 5:
					// more entries than powers of two
					p := pow(func(l []vref.Pt) {})
					b := g.Add(p.Pow[63], p.Pow[63])
					for j := 0; j < 8; j++ {
						p.Pow = append(p.Pow, b)
						b = g.Add(b, b)
					}
					if k < 8 {
						cheat(c, e, fmt.Sprintf("%d entries", 65+k), p, v, 65+k, nil)
						for _, m := range []int{1, 40, 64} {
							for j := 64; j < 72; j++ {
								p.Pow[j] = e.P.Pow[j%m]
							}
							cheat(c, e, fmt.Sprintf("%d entries, the powers repeated", 65+k), p, v, 65+k, nil)
						}
					}
					// every bit of the entry's neighbours, too
					cheat(c, e, fmt.Sprintf("entries %d and next exchanged", k), pow(func(l []vref.Pt) { l[k], l[k+1] = l[k+1], l[k] }), vk, 40, nil)
				}
			})
		}
	}
	// commitments that coincide, cancel or vanish: by choice where the logarithm of H
	// is known, by chance in small groups
	for i := 0; i < w.Scale(60, 1200); i++ {
		w.Case(fmt.Sprintf("coinciding/%d", i), func(c *C) {
			es, hs := knownH()
			e, h := es[i%3], hs[i%3]
			for j := 0; j < 4; j++ {
				k := 1 + c.R.IntN(64)
				if j == 0 {
					k = 40
				}
				name, f := chosenTargets(c, e)
				r := chosenC(c, e, h, k, f)
				if j == 3 {
					name = "any"
					r, _, _ = e.P.ProveRangeWith(c.Uni(two(uint(k))), k, func() *big.Int { return c.Uni(e.P.Grp.Order()) }, func(rs []vref.Pt) *big.Int { return e.P.Mod(vref.RangeE(rs)) })
				}
				c.Check(r.Verify(e.P, r.Agg), "control", "%s: the independent verifier refuses the proof with commitments %s", e.Name, name)
				for _, s := range wrongSums(e, r) {
					if s.p.Eq(r.Agg) {
						continue
					}
					c.Count("sums with something left out", 1)
					x := rclone(r)
					x.Agg = s.p
					decideRange(c, e, fmt.Sprintf("%d entries, commitments %s, aggregate and commitment without %s", k, name, s.name), x, s.p)
					decideRange(c, e, fmt.Sprintf("%d entries, commitments %s, commitment without %s", k, name, s.name), r, s.p)
					decideRange(c, e, fmt.Sprintf("%d entries, commitments %s, aggregate without %s", k, name, s.name), x, r.Agg)
				}
				if k < 2 {
					continue
				}
				for l := 0; l < 4; l++ {
					m := pick(c, entry)
					x := rclone(r)
					m.f(c, e, x, c.R.IntN(k))
					cm, n := adjust(e, x, r.Agg, c.R.IntN(4))
					decideRange(c, e, fmt.Sprintf("of %d entries with commitments %s one %s%s", k, name, m.name, n), x, cm)
				}
			}
		})
	}
}
