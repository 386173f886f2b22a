package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	"vref"
)

// A transcript is made like the honest prover's, except for one tweak. The
// reference decides whether the result is a valid proof.
type tweak struct {
	name string
	// the statement is changed before proving
	stmt func(c *C, e *Env, s []vref.Pt)
	// the commitments T are changed before hashing
	dt func(c *C, e *Env, t []vref.Pt)
	// the challenge is computed differently
	hash func(e *Env, items []vref.Pt) *big.Int
	// partial challenges do not add up (disjunctive)
	split func(c *C, e *Env, ck *big.Int) *big.Int
	sum   func(e *Env, ch *big.Int) *big.Int // what the partial challenges add up to
	// applied to the finished proof and statement
	post func(c *C, e *Env, kind string, p RefProof, s []vref.Pt)
	// where it applies for abc: outer part or embedded disjunctive proof
	inner bool
	// the prover's secret is off
	wit func(c *C, e *Env, w []*big.Int)
	// the prover's nonces and made-up challenges, if not uniform
	rnd func() *big.Int
}

func (t *tweak) chal(e *Env, inner bool, items ...vref.Pt) *big.Int {
	if t.hash != nil && t.inner == inner {
		return t.hash(e, items)
	}
	return e.P.Chal(items...)
}

func (t *tweak) ts(c *C, e *Env, inner bool, ts ...vref.Pt) []vref.Pt {
	if t.dt != nil && t.inner == inner {
		t.dt(c, e, ts)
	}
	return ts
}

func (t *tweak) nonce(c *C, e *Env) *big.Int {
	if t.rnd != nil {
		return t.rnd()
	}
	return c.Uni(e.P.Grp.Order())
}

// poolInst is a statement whose points and secrets come from a small pool, so
// that they coincide, vanish or are opposite, true or (mostly) not.
func poolInst(c *C, e *Env, kind string) (*Inst, []*big.Int) {
	p, g, n := e.P, e.P.Grp, e.P.Grp.Order()
	x, y := c.Uni(n), c.Uni(n)
	a := g.Mul(p.G, c.Uni(n))
	b := g.Mul(p.H, c.Uni(n))
	xs := []*big.Int{x, x, y, new(big.Int), one(), new(big.Int).Sub(n, one()), new(big.Int).Sub(n, x), big.NewInt(2)}
	bases := []vref.Pt{p.G, p.H, a, b, g.Mul(a, x), g.Neg(a), vref.ID()}
	pool := append([]vref.Pt{}, bases...)
	for i := 0; i < 4; i++ {
		pool = append(pool, g.Mul(bases[i], x), g.Mul(bases[i], y), p.Commit(x, y))
	}
	in := &Inst{E: e, Kind: kind, Right: c.Flip()}
	w := pick(c, xs)
	res := func(b vref.Pt) vref.Pt { // the result that belongs to the base, or not
		if c.R.IntN(3) > 0 {
			return g.Mul(b, w)
		}
		return pick(c, pool)
	}
	pt := func() vref.Pt { return pick(c, bases) }
	switch kind {
	case kGSPFS:
		b := pt()
		in.Stmt, in.Wit = []vref.Pt{b, res(b)}, []*big.Int{w}
	case kEquiv, kDisj:
		b1, b2 := pt(), pt()
		in.Stmt, in.Wit = []vref.Pt{b1, res(b1), b2, res(b2)}, []*big.Int{w}
	case kCons:
		v, pk := pick(c, xs), pt()
		cm := p.Commit(v, w)
		if c.R.IntN(3) == 0 {
			cm = pick(c, pool)
		}
		in.Stmt, in.Wit = []vref.Pt{cm, res(pk), pk}, []*big.Int{v, w}
	case kABC:
		v, r := pick(c, xs), pick(c, xs)
		switch c.R.IntN(6) {
		case 0: // everything vanishes
			v, r = new(big.Int), new(big.Int)
		case 1:
			v = new(big.Int)
		}
		in.Stmt, in.Wit = []vref.Pt{p.Commit(v, r), res(g.Mul(p.H, r))}, []*big.Int{v, w}
		if c.R.IntN(4) == 0 {
			in.Stmt[0] = pick(c, pool)
		}
	case kIneq:
		v, r, v2, r2 := pick(c, xs), pick(c, xs), pick(c, xs), pick(c, xs)
		switch c.R.IntN(6) {
		case 0:
			v2, r2 = v, r
		case 1:
			v2 = v
		}
		in.Stmt = []vref.Pt{p.Commit(v, r), p.Commit(v2, r2), res(g.Mul(p.H, r)), res(g.Mul(p.H, r2))}
		in.Wit = []*big.Int{v, v2, w}
		in.Right = c.R.IntN(3) > 0
	}
	return in, xs
}

// shortInst is a true statement with points of short coordinates.
func shortInst(c *C, e *Env, kind string) *Inst {
	in := plainInst(c, e, kind)
	p, g := e.P, e.P.Grp
	if _, ok := g.(vref.Secp); !ok {
		return in
	}
	sg := func() *big.Int { return hexInt(pick(c, shortG)) }
	sh := func() *big.Int { return hexInt(pick(c, shortH)) }
	base := func() vref.Pt {
		if c.Flip() {
			return g.Mul(p.G, sg())
		}
		return g.Mul(vref.H, sh())
	}
	z := new(big.Int)
	switch kind {
	case kGSPFS:
		b, x := p.G, sg()
		if c.Flip() {
			b, x = base(), in.Wit[0]
		}
		in.Stmt, in.Wit = []vref.Pt{b, g.Mul(b, x)}, []*big.Int{x}
	case kEquiv, kDisj:
		b1, b2, x := p.G, vref.H, sg()
		switch c.R.IntN(3) {
		case 0:
			x = sh()
		case 1:
			b1, b2 = base(), base()
		}
		in.Stmt, in.Wit = []vref.Pt{b1, g.Mul(b1, x), b2, g.Mul(b2, x)}, []*big.Int{x}
		if kind == kDisj {
			k := 1
			if !in.Right {
				k = 3
			}
			in.Stmt[k] = base()
		}
	case kCons:
		v, r, pk := sg(), sh(), base()
		switch c.R.IntN(3) {
		case 0:
			r = new(big.Int)
		case 1:
			v = new(big.Int)
		}
		in.Stmt, in.Wit = []vref.Pt{p.Commit(v, r), g.Mul(pk, r), pk}, []*big.Int{v, r}
	case kABC:
		v, r, sk := sg(), z, in.Wit[1]
		if !in.Right {
			v, r = z, sh()
		} else if c.Flip() {
			v, r, sk = in.Wit[0], sh(), one()
		}
		in.Stmt, in.Wit = []vref.Pt{p.Commit(v, r), g.Mul(p.H, p.MulAdd(z, sk, r))}, []*big.Int{v, sk}
	}
	return in
}

// unreduced adds multiples of the order to some integers of a proof.
func unreduced(c *C, e *Env, p RefProof) {
	for _, m := range members(p) {
		if m.Int != nil && c.Flip() {
			*m.Int = c.lift(*m.Int, e.P.Grp.Order())
		}
	}
}

func (t *tweak) prove(c *C, in *Inst) (RefProof, []vref.Pt) {
	e, p, g := in.E, in.E.P, in.E.P.Grp
	u := func() *big.Int { return t.nonce(c, e) }
	s := append([]vref.Pt{}, in.Stmt...)
	w := append([]*big.Int{}, in.Wit...)
	if t.stmt != nil {
		t.stmt(c, e, s)
	}
	if t.wit != nil {
		t.wit(c, e, w)
	}
	var r RefProof
	vs := s
	switch in.Kind {
	case kGSPFS:
		k := u()
		ts := t.ts(c, e, false, g.Mul(s[0], k))
		ch := t.chal(e, false, s[0], s[1], ts[0])
		r = &vref.GSPFS{Base: s[0], T: ts[0], S: p.MulAdd(k, ch, new(big.Int).Neg(w[0])), C: ch}
		vs = s[1:]
	case kEquiv:
		k := u()
		ts := t.ts(c, e, false, g.Mul(s[0], k), g.Mul(s[2], k))
		ch := t.chal(e, false, s[0], s[1], s[2], s[3], ts[0], ts[1])
		r = &vref.Equiv{UG: ts[0], UH: ts[1], C: ch, S: p.MulAdd(k, ch, w[0])}
	case kCons:
		k1, k2 := u(), u()
		ts := t.ts(c, e, false, p.Commit(k1, k2), g.Mul(s[2], k2))
		ch := t.chal(e, false, p.G, p.H, s[0], s[1], s[2], ts[0], ts[1])
		r = &vref.Cons{T1: ts[0], T2: ts[1], C: ch, S1: p.MulAdd(k1, ch, w[0]), S2: p.MulAdd(k2, ch, w[1])}
	case kDisj:
		r = t.disj(c, e, false, s[0], s[1], s[2], s[3], w[0], in.Right)
	case kABC, kIneq:
		v, sk := w[0], w[1]
		if in.Kind == kIneq {
			v, sk = new(big.Int).Sub(w[0], w[1]), w[2]
			vs = []vref.Pt{p.Sub(s[0], s[1]), p.Sub(s[2], s[3])}
		}
		v = p.Mod(v)
		cm, tok := vs[0], vs[1]
		n := &vref.ABCNonces{U1: u(), U2: u(), U3: u(), Ub: u(), Uc: u()}
		a := &vref.ABC{CTok: g.Mul(g.Mul(p.H, sk), n.Uc)}
		if in.Right {
			iv := new(big.Int)
			if v.Sign() != 0 {
				iv.ModInverse(v, g.Order())
			}
			a.B, a.C = p.Commit(iv, n.Ub), p.Commit(one(), n.Uc)
		} else {
			a.B, a.C = p.Commit(new(big.Int), n.Ub), p.Commit(new(big.Int), n.Uc)
		}
		x := sk
		if in.Right {
			x = n.Uc
		}
		a.D = t.disj(c, e, true, cm, tok, p.H, p.Sub(a.C, p.G), x, in.Right)
		ts := t.ts(c, e, false, g.Add(g.Mul(p.G, n.U1), g.Mul(tok, n.U2)), g.Add(g.Mul(a.B, n.U1), g.Mul(p.H, n.U3)))
		a.T1, a.T2 = ts[0], ts[1]
		a.Chal = t.chal(e, false, p.G, p.H, cm, tok, a.B, a.C, a.T1, a.T2)
		if p.Mod(sk).Sign() == 0 {
			sk = one()
		}
		a.Respond(p, v, sk, n)
		r = a
	}
	vs = append([]vref.Pt{}, vs...)
	if t.post != nil {
		t.post(c, e, in.Kind, r, vs)
	}
	return r, vs
}

func (t *tweak) disj(c *C, e *Env, inner bool, b1, r1, b2, r2 vref.Pt, x *big.Int, right bool) *vref.Disj {
	p, g := e.P, e.P.Grp
	u1, u2, u3 := t.nonce(c, e), t.nonce(c, e), t.nonce(c, e)
	kb, ob, or := b1, b2, r2
	if right {
		kb, ob, or = b2, b1, r1
	}
	tk := g.Mul(kb, u1)
	to := p.Sub(g.Mul(ob, u2), g.Mul(or, u3))
	t1, t2 := tk, to
	if right {
		t1, t2 = to, tk
	}
	ts := t.ts(c, e, inner, t1, t2)
	ch := t.chal(e, inner, b1, r1, b2, r2, ts[0], ts[1])
	ck := p.Mod(new(big.Int).Sub(ch, u3))
	if t.split != nil && t.inner == inner {
		ck = t.split(c, e, ck)
	}
	if t.sum != nil && t.inner == inner {
		ck = p.Mod(new(big.Int).Sub(t.sum(e, ch), u3))
	}
	sk := p.MulAdd(u1, ck, x)
	if right {
		return &vref.Disj{T1: ts[0], T2: ts[1], C: ch, C1: u3, C2: ck, S1: u2, S2: sk}
	}
	return &vref.Disj{T1: ts[0], T2: ts[1], C: ch, C1: ck, C2: u3, S1: sk, S2: u2}
}

func hashBytes(e *Env, bs ...[]byte) *big.Int {
	h := sha256.New()
	for _, b := range bs {
		h.Write(b)
	}
	return e.P.Mod(new(big.Int).SetBytes(h.Sum(nil)))
}

func ptBytes(q vref.Pt) []byte { return append(q.X.Bytes(), q.Y.Bytes()...) }

func nItems(kind string, inner bool) (items, ts, stmt int) {
	if inner {
		return 6, 2, 2
	}
	switch kind {
	case kGSPFS:
		return 3, 1, 2
	case kEquiv, kDisj:
		return 6, 2, 4
	case kCons:
		return 7, 2, 3
	case kABC:
		return 8, 2, 2
	case kIneq:
		return 8, 2, 4
	}
	panic(kind)
}

// ptMuts are ways to change a point.
var ptMuts = []struct {
	name string
	f    func(c *C, e *Env, p vref.Pt) vref.Pt
}{
	{"negated", func(c *C, e *Env, p vref.Pt) vref.Pt { return e.P.Grp.Neg(p) }},
	{"+G", func(c *C, e *Env, p vref.Pt) vref.Pt { return e.P.Grp.Add(p, e.P.G) }},
	{"-G", func(c *C, e *Env, p vref.Pt) vref.Pt { return e.P.Sub(p, e.P.G) }},
	{"+H", func(c *C, e *Env, p vref.Pt) vref.Pt { return e.P.Grp.Add(p, e.P.H) }},
	{"doubled", func(c *C, e *Env, p vref.Pt) vref.Pt { return e.P.Grp.Add(p, p) }},
	{"identity", func(c *C, e *Env, p vref.Pt) vref.Pt { return vref.ID() }},
	{"random", func(c *C, e *Env, p vref.Pt) vref.Pt { return e.P.Grp.Mul(e.P.G, c.Uni(e.P.Grp.Order())) }},
	{"phi", func(c *C, e *Env, p vref.Pt) vref.Pt {
		if _, ok := e.P.Grp.(vref.Secp); ok && !p.IsID() {
			return phi(p)
		}
		return e.P.Grp.Add(p, e.P.H)
	}},
}

// intMuts are ways to change an integer.
var intMuts = []struct {
	name string
	f    func(c *C, e *Env, x *big.Int) *big.Int
}{
	{"+1", func(c *C, e *Env, x *big.Int) *big.Int { return new(big.Int).Add(x, one()) }},
	{"-1", func(c *C, e *Env, x *big.Int) *big.Int { return new(big.Int).Sub(x, one()) }},
	{"negated", func(c *C, e *Env, x *big.Int) *big.Int { return new(big.Int).Neg(x) }},
	{"N-x", func(c *C, e *Env, x *big.Int) *big.Int { return new(big.Int).Sub(e.P.Grp.Order(), x) }},
	{"zero", func(c *C, e *Env, x *big.Int) *big.Int { return new(big.Int) }},
	{"doubled", func(c *C, e *Env, x *big.Int) *big.Int { return new(big.Int).Lsh(x, 1) }},
	{"random", func(c *C, e *Env, x *big.Int) *big.Int { return c.Uni(e.P.Grp.Order()) }},
	{"bit flipped", func(c *C, e *Env, x *big.Int) *big.Int {
		i := c.R.IntN(256)
		return new(big.Int).SetBit(x, i, x.Bit(i)^1)
	}},
	{"+2^256", func(c *C, e *Env, x *big.Int) *big.Int { return new(big.Int).Add(x, new(big.Int).Lsh(one(), 256)) }},
	{"low half", func(c *C, e *Env, x *big.Int) *big.Int {
		return new(big.Int).And(x, new(big.Int).Sub(new(big.Int).Lsh(one(), 128), one()))
	}},
	{"+N", func(c *C, e *Env, x *big.Int) *big.Int { return new(big.Int).Add(x, e.P.Grp.Order()) }},
}

// tweaks lists every single tweak of a kind.
func tweaks(kind string) (l []*tweak) {
	for _, inner := range []bool{false, true} {
		if inner && kind != kABC && kind != kIneq {
			continue
		}
		pre := ""
		if inner {
			pre = "inner "
		}
		items, ts, _ := nItems(kind, inner)
		h := func(name string, f func(e *Env, it []vref.Pt) *big.Int) {
			l = append(l, &tweak{name: pre + "challenge " + name, hash: f, inner: inner})
		}
		for k := 0; k < items; k++ {
			h(fmt.Sprintf("without item %d", k), func(e *Env, it []vref.Pt) *big.Int {
				return e.P.Chal(append(append([]vref.Pt{}, it[:k]...), it[k+1:]...)...)
			})
			h(fmt.Sprintf("with item %d twice", k), func(e *Env, it []vref.Pt) *big.Int {
				return e.P.Chal(append(append([]vref.Pt{}, it[:k+1]...), it[k:]...)...)
			})
			h(fmt.Sprintf("with item %d negated", k), func(e *Env, it []vref.Pt) *big.Int {
				x := append([]vref.Pt{}, it...)
				x[k] = e.P.Grp.Neg(x[k])
				return e.P.Chal(x...)
			})
			h(fmt.Sprintf("with only x of item %d", k), func(e *Env, it []vref.Pt) *big.Int {
				x := append([]vref.Pt{}, it...)
				x[k] = vref.Pt{X: x[k].X, Y: new(big.Int)}
				return e.P.Chal(x...)
			})
			for m := k + 1; m < items; m++ {
				h(fmt.Sprintf("with items %d and %d swapped", k, m), func(e *Env, it []vref.Pt) *big.Int {
					x := append([]vref.Pt{}, it...)
					x[k], x[m] = x[m], x[k]
					return e.P.Chal(x...)
				})
			}
		}
		h("of nothing", func(e *Env, it []vref.Pt) *big.Int { return e.P.Chal() })
		h("zero", func(e *Env, it []vref.Pt) *big.Int { return new(big.Int) })
		h("one", func(e *Env, it []vref.Pt) *big.Int { return one() })
		h("plus one", func(e *Env, it []vref.Pt) *big.Int { return e.P.Mod(new(big.Int).Add(e.P.Chal(it...), one())) })
		h("negated", func(e *Env, it []vref.Pt) *big.Int { return e.P.Mod(new(big.Int).Neg(e.P.Chal(it...))) })
		h("truncated", func(e *Env, it []vref.Pt) *big.Int { return new(big.Int).Rsh(e.P.Chal(it...), 128) })
		h("plus the order", func(e *Env, it []vref.Pt) *big.Int { return new(big.Int).Add(e.P.Chal(it...), e.P.Grp.Order()) })
		h("of hash of hash", func(e *Env, it []vref.Pt) *big.Int { return hashBytes(e, e.P.Chal(it...).Bytes()) })
		h("of x only", func(e *Env, it []vref.Pt) *big.Int {
			var b [][]byte
			for _, q := range it {
				b = append(b, q.X.Bytes())
			}
			return hashBytes(e, b...)
		})
		h("of items that differ from the one before", func(e *Env, it []vref.Pt) *big.Int {
			var b [][]byte
			for i, q := range it {
				if i == 0 || !q.Eq(it[i-1]) {
					b = append(b, ptBytes(q))
				}
			}
			return hashBytes(e, b...)
		})
		h("of items without the third of a row", func(e *Env, it []vref.Pt) *big.Int {
			var b [][]byte
			for i, q := range it {
				if i < 2 || !q.Eq(it[i-1]) || !q.Eq(it[i-2]) {
					b = append(b, ptBytes(q))
				}
			}
			return hashBytes(e, b...)
		})
		h("of distinct items", func(e *Env, it []vref.Pt) *big.Int {
			var b [][]byte
		next:
			for i, q := range it {
				for _, o := range it[:i] {
					if o.Eq(q) {
						continue next
					}
				}
				b = append(b, ptBytes(q))
			}
			return hashBytes(e, b...)
		})
		h("of items without any repeated", func(e *Env, it []vref.Pt) *big.Int {
			var b [][]byte
		next:
			for i, q := range it {
				for j, o := range it {
					if i != j && o.Eq(q) {
						continue next
					}
				}
				b = append(b, ptBytes(q))
			}
			return hashBytes(e, b...)
		})
		h("of items cut to 64 bytes", func(e *Env, it []vref.Pt) *big.Int {
			var b [][]byte
			for _, q := range it {
				x := ptBytes(q)
				b = append(b, x[:min(len(x), 64)])
			}
			return hashBytes(e, b...)
		})
		h("of items cut to 32 bytes", func(e *Env, it []vref.Pt) *big.Int {
			var b [][]byte
			for _, q := range it {
				x := ptBytes(q)
				b = append(b, x[:min(len(x), 32)])
			}
			return hashBytes(e, b...)
		})
		h("of the first 256 bytes", func(e *Env, it []vref.Pt) *big.Int {
			var b []byte
			for _, q := range it {
				b = append(b, ptBytes(q)...)
			}
			return hashBytes(e, b[:min(len(b), 256)])
		})
		short := func(name string, f func(b []byte) []byte) {
			h("of short items "+name, func(e *Env, it []vref.Pt) *big.Int {
				n := 2 * ((e.P.Grp.Field().BitLen() + 7) / 8)
				var b [][]byte
				for _, q := range it {
					x := ptBytes(q)
					if len(x) > 0 && len(x) < n {
						x = f(x)
					}
					b = append(b, x)
				}
				return hashBytes(e, b...)
			})
		}
		short("without their last byte", func(b []byte) []byte { return b[:len(b)-1] })
		short("without their first byte", func(b []byte) []byte { return b[1:] })
		short("left out", func(b []byte) []byte { return nil })
		short("with a zero in front", func(b []byte) []byte { return append([]byte{0}, b...) })
		short("with a zero behind", func(b []byte) []byte { return append(b, 0) })
		short("cut to 32 bytes", func(b []byte) []byte { return b[:min(len(b), 32)] })
		h("of points in fixed width", func(e *Env, it []vref.Pt) *big.Int {
			n := (e.P.Grp.Field().BitLen() + 7) / 8
			var b [][]byte
			for _, q := range it {
				b = append(b, q.X.FillBytes(make([]byte, n)), q.Y.FillBytes(make([]byte, n)))
			}
			return hashBytes(e, b...)
		})
		h("of the first half", func(e *Env, it []vref.Pt) *big.Int { return e.P.Chal(it[:len(it)/2]...) })
		h("of the second half", func(e *Env, it []vref.Pt) *big.Int { return e.P.Chal(it[len(it)/2:]...) })
		for k := 0; k < ts; k++ {
			for _, m := range ptMuts {
				l = append(l, &tweak{name: fmt.Sprintf("%sT%d %s before hashing", pre, k+1, m.name), inner: inner,
					dt: func(c *C, e *Env, t []vref.Pt) { t[k] = m.f(c, e, t[k]) }})
			}
		}
		if ts == 2 {
			l = append(l, &tweak{name: pre + "T1, T2 changed by opposite amounts", inner: inner, dt: func(c *C, e *Env, t []vref.Pt) {
				d := e.P.Grp.Mul(e.P.G, c.Uni(e.P.Grp.Order()))
				t[0], t[1] = e.P.Grp.Add(t[0], d), e.P.Sub(t[1], d)
			}}, &tweak{name: pre + "T1, T2 swapped before hashing", inner: inner, dt: func(c *C, e *Env, t []vref.Pt) { t[0], t[1] = t[1], t[0] }},
				&tweak{name: pre + "T1, T2 negated before hashing", inner: inner, dt: func(c *C, e *Env, t []vref.Pt) { t[0], t[1] = e.P.Grp.Neg(t[0]), e.P.Grp.Neg(t[1]) }},
				&tweak{name: pre + "T1, T2 random before hashing", inner: inner, dt: func(c *C, e *Env, t []vref.Pt) {
					t[0], t[1] = e.P.Grp.Mul(e.P.G, c.Uni(e.P.Grp.Order())), e.P.Grp.Mul(e.P.G, c.Uni(e.P.Grp.Order()))
				}})
		}
		if kind == kDisj || inner {
			for _, m := range intMuts {
				if m.name == "+N" {
					continue
				}
				l = append(l, &tweak{name: pre + "partial challenges do not add up: " + m.name, inner: inner,
					split: func(c *C, e *Env, x *big.Int) *big.Int { return m.f(c, e, x) }})
			}
			for _, k := range []int64{0, 1, -1, 2} {
				l = append(l, &tweak{name: fmt.Sprintf("%spartial challenges add up to %d", pre, k), inner: inner,
					sum: func(e *Env, ch *big.Int) *big.Int { return big.NewInt(k) }})
				if k != 1 {
					l = append(l, &tweak{name: fmt.Sprintf("%spartial challenges add up to %d times the challenge", pre, k), inner: inner,
						sum: func(e *Env, ch *big.Int) *big.Int { return new(big.Int).Mul(ch, big.NewInt(k)) }})
				}
			}
		}
	}
	_, _, ns := nItems(kind, false)
	for k := 0; k < ns; k++ {
		for _, m := range ptMuts {
			l = append(l, &tweak{name: fmt.Sprintf("statement point %d %s, proved all the same", k, m.name),
				stmt: func(c *C, e *Env, s []vref.Pt) { s[k] = m.f(c, e, s[k]) }})
		}
		for j := k + 1; j < ns; j++ {
			l = append(l, &tweak{name: fmt.Sprintf("statement points %d, %d swapped, proved all the same", k, j),
				stmt: func(c *C, e *Env, s []vref.Pt) { s[k], s[j] = s[j], s[k] }})
		}
	}
	nw := map[string]int{kGSPFS: 1, kEquiv: 1, kCons: 2, kDisj: 1, kABC: 2, kIneq: 3}[kind]
	for k := 0; k < nw; k++ {
		for _, m := range intMuts {
			if m.name == "+N" {
				continue
			}
			l = append(l, &tweak{name: fmt.Sprintf("secret %d %s", k, m.name),
				wit: func(c *C, e *Env, w []*big.Int) { w[k] = m.f(c, e, w[k]) }})
		}
	}
	l = append(l, postTweaks(kind)...)
	return
}

func postTweaks(kind string) (l []*tweak) {
	nm := map[string]int{kGSPFS: 4, kEquiv: 4, kCons: 5, kDisj: 7, kABC: 16, kIneq: 16}[kind]
	for k := 0; k < nm; k++ {
		for _, m := range ptMuts {
			l = append(l, &tweak{name: fmt.Sprintf("member %d %s", k, m.name), post: func(c *C, e *Env, kind string, p RefProof, s []vref.Pt) {
				if mb := members(p)[k]; mb.Pt != nil {
					*mb.Pt = m.f(c, e, *mb.Pt)
				}
			}})
		}
		for _, m := range intMuts {
			l = append(l, &tweak{name: fmt.Sprintf("member %d %s", k, m.name), post: func(c *C, e *Env, kind string, p RefProof, s []vref.Pt) {
				if mb := members(p)[k]; mb.Int != nil {
					*mb.Int = m.f(c, e, *mb.Int)
				}
			}})
		}
		for j := k + 1; j < nm; j++ {
			l = append(l, &tweak{name: fmt.Sprintf("members %d and %d swapped", k, j), post: func(c *C, e *Env, kind string, p RefProof, s []vref.Pt) {
				a, b := members(p)[k], members(p)[j]
				if a.Pt != nil && b.Pt != nil {
					*a.Pt, *b.Pt = *b.Pt, *a.Pt
				} else if a.Int != nil && b.Int != nil {
					*a.Int, *b.Int = *b.Int, *a.Int
				}
			}})
		}
	}
	nv := map[string]int{kGSPFS: 1, kEquiv: 4, kCons: 3, kDisj: 4, kABC: 2, kIneq: 2}[kind]
	for k := 0; k < nv; k++ {
		for _, m := range ptMuts {
			l = append(l, &tweak{name: fmt.Sprintf("verified with statement point %d %s", k, m.name), post: func(c *C, e *Env, kind string, p RefProof, s []vref.Pt) {
				s[k] = m.f(c, e, s[k])
			}})
		}
		for j := k + 1; j < nv; j++ {
			l = append(l, &tweak{name: fmt.Sprintf("verified with statement points %d and %d swapped", k, j), post: func(c *C, e *Env, kind string, p RefProof, s []vref.Pt) {
				s[k], s[j] = s[j], s[k]
			}})
		}
	}
	// everything negated or all responses negated: an equation checked up to sign
	l = append(l, &tweak{name: "all points negated", post: func(c *C, e *Env, kind string, p RefProof, s []vref.Pt) {
		for _, m := range members(p) {
			if m.Pt != nil {
				*m.Pt = e.P.Grp.Neg(*m.Pt)
			}
		}
	}}, &tweak{name: "all responses negated", post: func(c *C, e *Env, kind string, p RefProof, s []vref.Pt) {
		for _, m := range members(p) {
			if m.Int != nil && m.Mod {
				*m.Int = e.P.Mod(new(big.Int).Neg(*m.Int))
			}
		}
	}}, &tweak{name: "all integers negated", post: func(c *C, e *Env, kind string, p RefProof, s []vref.Pt) {
		for _, m := range members(p) {
			if m.Int != nil {
				*m.Int = e.P.Mod(new(big.Int).Neg(*m.Int))
			}
		}
	}}, &tweak{name: "all points of the identity", post: func(c *C, e *Env, kind string, p RefProof, s []vref.Pt) {
		for _, m := range members(p) {
			if m.Pt != nil {
				*m.Pt = vref.ID()
			}
		}
	}}, &tweak{name: "all zero", post: func(c *C, e *Env, kind string, p RefProof, s []vref.Pt) {
		for _, m := range members(p) {
			if m.Pt != nil {
				*m.Pt = vref.ID()
			} else {
				*m.Int = new(big.Int)
			}
		}
	}}, &tweak{name: "random members", post: func(c *C, e *Env, kind string, p RefProof, s []vref.Pt) {
		for _, m := range members(p) {
			if m.Pt != nil {
				*m.Pt = e.P.Grp.Mul(e.P.G, c.Uni(e.P.Grp.Order()))
			} else {
				*m.Int = c.Uni(e.P.Grp.Order())
			}
		}
	}})
	// whole simulated transcripts: equations hold for an arbitrary challenge
	l = append(l, &tweak{name: "simulated transcript", post: simulate})
	return
}

// simulate overwrites the proof with one that satisfies all equations for random
// challenges, but whose challenges are not the hash.
func simulate(c *C, e *Env, kind string, pr RefProof, s []vref.Pt) {
	p, g := e.P, e.P.Grp
	u := func() *big.Int { return c.Uni(g.Order()) }
	dj := func(q *vref.Disj, b1, r1, b2, r2 vref.Pt) {
		q.C1, q.C2, q.S1, q.S2 = u(), u(), u(), u()
		q.C = p.Mod(new(big.Int).Add(q.C1, q.C2))
		q.T1 = p.Sub(g.Mul(b1, q.S1), g.Mul(r1, q.C1))
		q.T2 = p.Sub(g.Mul(b2, q.S2), g.Mul(r2, q.C2))
	}
	switch q := pr.(type) {
	case *vref.GSPFS:
		q.C, q.S = u(), u()
		q.T = g.Add(g.Mul(q.Base, q.S), g.Mul(s[0], q.C))
	case *vref.Equiv:
		q.C, q.S = u(), u()
		q.UG = p.Sub(g.Mul(s[0], q.S), g.Mul(s[1], q.C))
		q.UH = p.Sub(g.Mul(s[2], q.S), g.Mul(s[3], q.C))
	case *vref.Cons:
		q.C, q.S1, q.S2 = u(), u(), u()
		q.T1 = p.Sub(p.Commit(q.S1, q.S2), g.Mul(s[0], q.C))
		q.T2 = p.Sub(g.Mul(s[2], q.S2), g.Mul(s[1], q.C))
	case *vref.Disj:
		dj(q, s[0], s[1], s[2], s[3])
	case *vref.ABC:
		if c.Flip() { // outer only
			q.Chal, q.J, q.K, q.L = u(), u(), u(), u()
			q.T1 = p.Sub(g.Add(g.Mul(p.G, q.J), g.Mul(s[1], q.K)), g.Mul(s[0], q.Chal))
			q.T2 = p.Sub(g.Add(g.Mul(q.B, q.J), g.Mul(p.H, q.L)), g.Mul(q.C, q.Chal))
		} else {
			dj(q.D, s[0], s[1], p.H, p.Sub(q.C, p.G))
		}
	}
}

// judge lets library and reference decide about a transcript.
func judge(c *C, in *Inst, name string, p RefProof, s []vref.Pt) (lib, ref bool) {
	ref = refVerify(in.E.P, p, s)
	q, err := toLib(in.Kind, p)
	if err != nil {
		c.Violation("decode", "%s: %s: well-formed proof is not decoded: %v", in.Kind, name, err)
		return false, ref
	}
	ok, err := libVerify(in.E.L, q, s)
	if ok != (err == nil) {
		c.Violation("answer", "%s: %s: Verify returned %v with error %v", in.Kind, name, ok, err)
	}
	return ok, ref
}

// plainInst is a true statement with uniform secrets and no degenerate points,
// so that tweaks do change something.
func plainInst(c *C, e *Env, kind string) *Inst {
	g, n, p := e.P.Grp, e.P.Grp.Order(), e.P
	nz := func() *big.Int { return new(big.Int).Add(c.big(new(big.Int).Sub(n, one())), one()) }
	in := &Inst{E: e, Kind: kind}
	pt := func() vref.Pt { return g.Mul(p.G, nz()) }
	z := new(big.Int)
	switch kind {
	case kGSPFS:
		x := nz()
		in.Stmt = []vref.Pt{p.G, g.Mul(p.G, x)}
		if c.Flip() {
			b := pt()
			in.Stmt = []vref.Pt{b, g.Mul(b, x)}
		}
		in.Wit = []*big.Int{x}
	case kEquiv:
		x, b1, b2 := nz(), pt(), pt()
		if c.Flip() {
			b1, b2 = p.G, p.H
		}
		in.Stmt = []vref.Pt{b1, g.Mul(b1, x), b2, g.Mul(b2, x)}
		in.Wit = []*big.Int{x}
	case kCons:
		v, r, pk := nz(), nz(), g.Mul(p.H, nz())
		in.Stmt = []vref.Pt{p.Commit(v, r), g.Mul(pk, r), pk}
		in.Wit = []*big.Int{v, r}
	case kDisj:
		x, b1, b2, o := nz(), pt(), pt(), pt()
		if c.Flip() {
			b1, b2 = p.G, p.H
		}
		in.Right = c.Flip()
		if in.Right {
			in.Stmt = []vref.Pt{b1, o, b2, g.Mul(b2, x)}
		} else {
			in.Stmt = []vref.Pt{b1, g.Mul(b1, x), b2, o}
		}
		in.Wit = []*big.Int{x}
	case kABC:
		v, r, sk := nz(), nz(), nz()
		in.Right = true
		if c.Flip() {
			v, in.Right = z, false
		}
		in.Stmt = []vref.Pt{p.Commit(v, r), g.Mul(p.H, p.MulAdd(z, sk, r))}
		in.Wit = []*big.Int{v, sk}
	case kIneq:
		a, b, ra, rb, sk := nz(), nz(), nz(), nz(), nz()
		in.Right = true
		in.Stmt = []vref.Pt{p.Commit(a, ra), p.Commit(b, rb), g.Mul(p.H, p.MulAdd(z, sk, ra)), g.Mul(p.H, p.MulAdd(z, sk, rb))}
		in.Wit = []*big.Int{a, b, sk}
	}
	return in
}
