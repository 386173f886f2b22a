package main

import (
	"bytes"
	crand "crypto/rand"
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/rand/v2"
	"sync"

	"github.com/mit-dci/zksigma"

	"vref"
)

func init() {
	register(&Check{ID: "C23", Level: "exploration",
		Rule:  "library and independent implementation prove to each other, through bytes and through members, for all kinds, parameter sets and special statements, witnesses and random values; the random values behind a library proof are computed back (or found among the bytes drawn), the independent prover proves with the same ones, and the bytes are compared; proofs that are right but for a challenge hashed in another way (other order, items left out, doubled, padded, prefixed, unreduced, other hash) get the same verdict from both; groups of 107 and 9941 elements, challenges and responses two bytes short; in the group of 107, random proofs valid or invalid in one condition get the same verdict. Non-trivial: a distinct proof judged by both or compared bit for bit",
		Run:   runC23,
		Floor: map[string]int64{"library proofs judged": 3000, "independent proofs judged": 3000, "independent range proofs judged": 60, "rebuilt gspfs": 500, "rebuilt equivalence": 500, "rebuilt consistency": 500, "rebuilt disjunctive": 500, "other challenges": 5000, "hashes": 2000, "coinciding commitments": 60, "short coordinates": 300, "valid scanned": 400, "proofs on toy 107": 700, "proofs on toy 9941": 700, "short challenges and responses": 40}})
}

// tape keeps what the library draws.
type tape struct {
	mu   sync.Mutex
	src  interface{ Read([]byte) (int, error) }
	vals []*big.Int
}

func (t *tape) Read(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n, err := t.src.Read(b)
	t.vals = append(t.vals, new(big.Int).SetBytes(b[:n]))
	return n, err
}

// rebuild proves again with the random values of a library proof. It returns nil
// if they cannot be found.
func rebuild(in *Inst, r RefProof, t *tape) RefProof {
	p, g, w := in.E.P, in.E.P.Grp, in.Wit
	m := map[string]*big.Int{}
	drawn := map[string]*big.Int{}
	for _, x := range nonces(in, r) {
		if x.K != nil {
			m[x.Name] = x.K
			continue
		}
		if len(drawn) == 0 {
			for _, v := range t.vals {
				if v.Cmp(g.Order()) < 0 {
					drawn[hr(g.Mul(p.H, v))] = v
				}
			}
		}
		v, ok := drawn[hr(x.HP)]
		if !ok {
			return nil
		}
		m[x.Name] = v
	}
	s := in.Stmt
	switch in.Kind {
	case kGSPFS:
		return p.ProveGSPFS(s[0], s[1], w[0], m["u"])
	case kEquiv:
		return p.ProveEquiv(s[0], s[1], s[2], s[3], w[0], m["u"])
	case kCons:
		return p.ProveCons(s[0], s[1], s[2], w[0], w[1], m["u1"], m["u2"])
	case kDisj:
		return p.ProveDisj(s[0], s[1], s[2], s[3], w[0], in.Right, m["u1"], m["u2"], m["u3"])
	case kABC, kIneq:
		v, sk := w[0], w[len(w)-1]
		if in.Kind == kIneq {
			v = new(big.Int).Sub(w[0], w[1])
		}
		st := in.VStmt()
		return p.ProveABC(st[0], st[1], v, sk, in.Right, &vref.ABCNonces{U1: m["u1"], U2: m["u2"], U3: m["u3"], Ub: m["ub"], Uc: m["uc"], D1: m["disj.u1"], D2: m["disj.u2"], D3: m["disj.u3"]})
	case kRange:
		var q []*big.Int
		for i := 0; i < 40; i++ {
			q = append(q, m[fmt.Sprintf("k[%d]", i)])
			if w[0].Bit(i) == 1 {
				q = append(q, m[fmt.Sprintf("v[%d]", i)])
			}
		}
		for i := 0; i < 40; i++ {
			if w[0].Bit(i) == 0 {
				q = append(q, m[fmt.Sprintf("j[%d]", i)])
			}
		}
		pr, sum, _ := p.ProveRange(w[0], 40, func() *big.Int { v := q[0]; q = q[1:]; return v })
		if p.Mod(sum).Cmp(p.Mod(w[1])) != 0 {
			return nil
		}
		return pr
	}
	panic(in.Kind)
}

func hasShort(e *Env, l []vref.Pt, r RefProof) bool {
	for _, m := range members(r) {
		if m.Pt != nil {
			l = append(l, *m.Pt)
		}
	}
	n := e.P.Grp.Field().BitLen() - 8
	for _, q := range l {
		if !q.IsID() && (q.X.BitLen() <= n || q.Y.BitLen() <= n) {
			return true
		}
	}
	return false
}

// fromLib judges a library proof.
func fromLib(c *C, in *Inst, pool []*big.Int) {
	var seed [32]byte
	c.src.Read(seed[:])
	t := &tape{src: rand.NewChaCha8(seed)}
	if len(pool) > 0 {
		t.src = c.UsePool(pool, 2)
	}
	crand.Reader = t
	q, err := in.Prove()
	if !c.Check(err == nil, "refused", "%s: %v", in, err) {
		return
	}
	b := libBytes(q)
	r, err := refParse(in.Kind, b)
	if !c.Check(err == nil, "format", "%s: the independent decoder refuses the library's bytes %x: %v", in, clipb(b), err) {
		return
	}
	c.Check(bytes.Equal(r.Bytes(), b), "format", "%s: the library's bytes are %x, the same members are encoded as %x", in, clipb(b), clipb(r.Bytes()))
	if err := exported(q, r); err != nil {
		c.Violation("format", "%s: members and bytes disagree: %v", in, err)
	}
	s := in.VStmt()
	c.Check(refVerify(in.E.P, r, s), "rejected", "%s: the independent verifier refuses the library's proof %x", in, clipb(b))
	c.Count("library proofs judged", 1)
	if hasShort(in.E, s, r) {
		c.Count("short coordinates", 1)
	}
	c.Distinct(b)
	o := rebuild(in, r, t)
	if o == nil {
		c.Count("random values not found "+in.Kind, 1)
		return
	}
	c.Count("rebuilt "+in.Kind, 1)
	if !bytes.Equal(o.Bytes(), b) {
		d := ""
		x, y := members(r), members(o)
		for i := range x {
			if i < len(y) && (x[i].Pt != nil && !x[i].Pt.Eq(*y[i].Pt) || x[i].Int != nil && (*x[i].Int).Cmp(*y[i].Int) != 0) {
				d += " " + x[i].Name
			}
		}
		c.Violation("differs", "%s: with the same random values the library's proof is %x, the independent one %x; different:%s", in, clipb(b), clipb(o.Bytes()), d)
	}
}

// fromRef has the library judge an independent proof.
func fromRef(c *C, in *Inst, r RefProof) {
	s := in.VStmt()
	e := in.E
	want := refVerify(e.P, r, s)
	b := r.Bytes()
	for i := 0; i < 2 && (i == 0 || e.Serial()); i++ {
		var q interface{}
		var err error
		if i == 0 {
			q, err = toLib(in.Kind, r)
		} else {
			q, err = libParse(in.Kind, b)
		}
		if !c.Check(err == nil, "format", "%s: the library refuses the bytes %x: %v", in, clipb(b), err) {
			return
		}
		ok, err := libVerify(e.L, q, s)
		c.Check(ok == want, "verdict", "%s: proof %x (way %d): the independent verdict is %v, the library's %v (%v)", in, clipb(b), i, want, ok, err)
		g := libBytes(q)
		c.Check(bytes.Equal(g, b), "format", "%s: the library encodes %x as %x", in, clipb(b), clipb(g))
	}
	c.Distinct(b)
}

// special random values for the independent prover
func poolRef(c *C, in *Inst) RefProof {
	e := in.E
	n := e.P.Grp.Order()
	pl := shortNonces()
	if c.Flip() {
		pl = specials()
	}
	u := func() *big.Int {
		if c.Flip() {
			return new(big.Int).Mod(pick(c, pl), n)
		}
		return c.Uni(n)
	}
	w, s := in.Wit, in.Stmt
	nz := func() *vref.ABCNonces {
		return &vref.ABCNonces{U1: u(), U2: u(), U3: u(), Ub: u(), Uc: u(), D1: u(), D2: u(), D3: u()}
	}
	switch in.Kind {
	case kGSPFS:
		return e.P.ProveGSPFS(s[0], s[1], w[0], u())
	case kEquiv:
		return e.P.ProveEquiv(s[0], s[1], s[2], s[3], w[0], u())
	case kCons:
		return e.P.ProveCons(s[0], s[1], s[2], w[0], w[1], u(), u())
	case kDisj:
		return e.P.ProveDisj(s[0], s[1], s[2], s[3], w[0], in.Right, u(), u(), u())
	case kABC:
		return e.P.ProveABC(s[0], s[1], w[0], w[1], in.Right, nz())
	case kIneq:
		v := in.VStmt()
		return e.P.ProveABC(v[0], v[1], new(big.Int).Sub(w[0], w[1]), w[2], true, nz())
	}
	return randRef(c, e, in.Kind, in)
}

// otherHash is the challenge hashed in another way.
func otherHash(c *C, p *vref.Params, how int) (string, func([]vref.Pt) *big.Int) {
	pos := c.R.IntN(1 << 20)
	raw := func(b []byte) *big.Int {
		h := sha256.Sum256(b)
		return new(big.Int).SetBytes(h[:])
	}
	flat := func(l []vref.Pt) (b []byte) {
		for _, q := range l {
			b = append(append(b, q.X.Bytes()...), q.Y.Bytes()...)
		}
		return
	}
	each := func(f func(q vref.Pt) []byte) func([]vref.Pt) *big.Int {
		return func(l []vref.Pt) *big.Int {
			var b []byte
			for _, q := range l {
				b = append(b, f(q)...)
			}
			return p.Mod(raw(b))
		}
	}
	list := func(f func(l []vref.Pt) []vref.Pt) func([]vref.Pt) *big.Int {
		return func(l []vref.Pt) *big.Int { return p.Mod(raw(flat(f(append([]vref.Pt{}, l...))))) }
	}
	switch how {
	case 0:
		return "two items exchanged", list(func(l []vref.Pt) []vref.Pt {
			i := pos % (len(l) - 1)
			l[i], l[i+1] = l[i+1], l[i]
			return l
		})
	case 1:
		return "an item left out", list(func(l []vref.Pt) []vref.Pt {
			i := pos % len(l)
			return append(l[:i], l[i+1:]...)
		})
	case 2:
		return "an item doubled", list(func(l []vref.Pt) []vref.Pt { return append(l, l[pos%len(l)]) })
	case 3:
		return "reversed", list(func(l []vref.Pt) []vref.Pt {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
			return l
		})
	case 4:
		return "padded coordinates", each(func(q vref.Pt) []byte {
			n := (p.Grp.Field().BitLen() + 7) / 8
			return append(q.X.FillBytes(make([]byte, n)), q.Y.FillBytes(make([]byte, n))...)
		})
	case 5:
		return "x only", each(func(q vref.Pt) []byte { return q.X.Bytes() })
	case 6:
		return "a format byte before each point", each(func(q vref.Pt) []byte { return append([]byte{4}, flat([]vref.Pt{q})...) })
	case 7:
		return "lengths before each coordinate", each(vref.EncPt)
	case 8:
		return "y before x", each(func(q vref.Pt) []byte { return append(q.Y.Bytes(), q.X.Bytes()...) })
	case 9:
		return "hashed twice", func(l []vref.Pt) *big.Int {
			h := sha256.Sum256(flat(l))
			return p.Mod(raw(h[:]))
		}
	case 10:
		return "the generators in front", list(func(l []vref.Pt) []vref.Pt { return append([]vref.Pt{p.G, p.H}, l...) })
	case 11:
		return "the order added", func(l []vref.Pt) *big.Int { return new(big.Int).Add(p.Mod(raw(flat(l))), p.Grp.Order()) }
	case 12:
		return "half of the hash", func(l []vref.Pt) *big.Int {
			h := sha256.Sum256(flat(l))
			return p.Mod(new(big.Int).SetBytes(h[:16]))
		}
	case 13:
		return "little endian", func(l []vref.Pt) *big.Int {
			h := sha256.Sum256(flat(l))
			for i := 0; i < 16; i++ {
				h[i], h[31-i] = h[31-i], h[i]
			}
			return p.Mod(new(big.Int).SetBytes(h[:]))
		}
	case 14:
		return "one of the points negated", list(func(l []vref.Pt) []vref.Pt {
			i := pos % len(l)
			l[i] = p.Grp.Neg(l[i])
			return l
		})
	case 15:
		return "off by one", func(l []vref.Pt) *big.Int { return p.Mod(new(big.Int).Add(raw(flat(l)), one())) }
	case 16:
		return "SHA-224", func(l []vref.Pt) *big.Int {
			h := sha256.Sum224(flat(l))
			return p.Mod(new(big.Int).SetBytes(h[:]))
		}
	}
	return "as documented", list(func(l []vref.Pt) []vref.Pt { return l })
}

const otherHashes = 18

func other(c *C, in *Inst, how int) {
	e := *in.E
	p := *in.E.P
	e.P = &p
	name, f := otherHash(c, in.E.P, how)
	var r RefProof
	if in.Kind == kRange {
		if how == 7 || how == 10 {
			return
		}
		g, sum, _ := p.ProveRangeWith(in.Wit[0], 40, func() *big.Int { return c.Uni(p.Grp.Order()) }, f)
		in.Wit = []*big.Int{in.Wit[0], sum}
		in.Stmt = []vref.Pt{g.Agg}
		r = g
	} else {
		p.Hash = f
		if a := randRef(c, &e, in.Kind, in); in.Kind == kABC || in.Kind == kIneq {
			// the inner proof as documented, half of the time
			r = a
			if q, ok := a.(*vref.ABC); ok && c.Flip() {
				v, sk, w := in.Wit[0], in.Wit[len(in.Wit)-1], q
				if in.Kind == kIneq {
					v = new(big.Int).Sub(in.Wit[0], in.Wit[1])
				}
				n := &vref.ABCNonces{}
				for _, u := range []**big.Int{&n.U1, &n.U2, &n.U3, &n.Ub, &n.Uc, &n.D1, &n.D2, &n.D3} {
					*u = c.Uni(p.Grp.Order())
				}
				s := in.VStmt()
				w = in.E.P.ProveABC(s[0], s[1], v, sk, in.Right, n)
				w.Chal = p.Mod(f([]vref.Pt{p.G, p.H, s[0], s[1], w.B, w.C, w.T1, w.T2}))
				w.Respond(in.E.P, p.Mod(v), sk, n)
				r = w
			}
		} else {
			r = a
		}
	}
	c.Count("other challenges", 1)
	c.Count("challenge "+name, 1)
	fromRef(c, in, r)
}

func runC23(w *W) {
	// one curve first in each process, then the others
	for i := 0; i < 16; i++ {
		w.Case(fmt.Sprintf("first/%d", i), func(c *C) {
			es := append(append([]*Env{}, toys()...), envs()...)
			first := []int{0, 1, 2, 6, 7, 3}[i%6]
			es[0], es[first] = es[first], es[0]
			for _, e := range es[:8] {
				for _, k := range allKinds {
					if k == kRange && e.P.Grp.Field().BitLen() < 100 {
						continue // a hash is zero once in a while
					}
					fromLib(c, newInst(c, e, k), nil)
					in := newInst(c, e, k)
					fromRef(c, in, poolRef(c, in))
				}
			}
			c.Count("one curve after the other", 1)
		})
	}
	runScan(w, []string{kGSPFS, kEquiv, kCons, kDisj, kABC, kRange}, w.Scale(8, 100), 60, true)
	for i := 0; i < w.Scale(900, 12000); i++ {
		for _, k := range sigmaKinds {
			w.Case(fmt.Sprintf("%s/%d", k, i), func(c *C) {
				in := newInst(c, c.Env(), k)
				var pool []*big.Int
				switch i % 3 {
				case 1:
					pool = shortNonces()
				case 2:
					pool = specials()
				}
				if i < 2 {
					c.Sample("%s", in)
				}
				fromLib(c, in, pool)
				in = newInst(c, c.Env(), k)
				r := poolRef(c, in)
				if hasShort(in.E, in.VStmt(), r) {
					c.Count("short coordinates", 1)
				}
				c.Count("independent proofs judged", 1)
				fromRef(c, in, r)
				in, xs := poolInst(c, c.Env(), k)
				t := &tweak{rnd: func() *big.Int {
					if c.Flip() {
						return c.Uni(in.E.P.Grp.Order())
					}
					return pick(c, xs)
				}}
				r, vs := t.prove(c, in)
				c.Count("transcripts with coincident values", 1)
				if refVerify(in.E.P, r, vs) {
					c.Count("valid transcripts with coincident values", 1)
				}
				fromRef(c, in, r)
				for j := 0; j < 2; j++ {
					in := newInst(c, c.Env(), k)
					if j == 0 {
						in = plainInst(c, c.Env(), k)
					}
					other(c, in, (2*i+j)%otherHashes)
				}
			})
		}
	}
	for i := 0; i < w.Scale(90, 1500); i++ {
		w.Case(fmt.Sprintf("range/%d", i), func(c *C) {
			e := std()
			if i%3 == 2 {
				e = pick(c, envs())
			}
			var pool []*big.Int
			if i%2 == 1 {
				pool = shortNonces()
			}
			fromLib(c, newInst(c, e, kRange), pool)
			in := newInst(c, e, kRange)
			c.Count("independent range proofs judged", 1)
			fromRef(c, in, randRef(c, e, kRange, in))
			other(c, newInst(c, e, kRange), i%otherHashes)
		})
	}
	// other widths
	for i := 0; i < w.Scale(40, 600); i++ {
		for _, k := range allKinds {
			if k == kRange && i >= w.Scale(12, 200) {
				continue
			}
			w.Case(fmt.Sprintf("wide/%s/%d", k, i), func(c *C) {
				e := wide()[i%len(wide())]
				fromLib(c, newInst(c, e, k), nil)
				c.Count("proofs on "+e.Name, 1)
				if e.Serial() || k != kABC && k != kIneq && k != kRange {
					in := newInst(c, e, k)
					fromRef(c, in, randRef(c, e, k, in))
					other(c, newInst(c, e, k), i%otherHashes)
				}
			})
		}
	}
	// small groups
	for i := 0; i < w.Scale(80, 1200); i++ {
		for _, k := range sigmaKinds {
			w.Case(fmt.Sprintf("toy/%s/%d", k, i), func(c *C) {
				e := toys()[i%len(toys())]
				for j := 0; j < 6; j++ {
					fromLib(c, newInst(c, e, k), nil)
					in := newInst(c, e, k)
					fromRef(c, in, randRef(c, e, k, in))
					in, xs := poolInst(c, e, k)
					t := &tweak{rnd: func() *big.Int { return pick(c, xs) }}
					r, vs := t.prove(c, in)
					if len(vs) > 0 {
						fromRef(c, in, r)
					}
					other(c, newInst(c, e, k), (i+j)%otherHashes)
					c.Count("proofs on "+e.Name, 1)
				}
			})
		}
	}
	// range proofs whose commitments coincide, cancel or vanish, by choice or by
	// chance
	for i := 0; i < w.Scale(60, 900); i++ {
		w.Case(fmt.Sprintf("coinciding/%d", i), func(c *C) {
			es, hs := knownH()
			e, h := es[i%3], hs[i%3]
			k := 1 + c.R.IntN(64)
			_, f := chosenTargets(c, e)
			r := chosenC(c, e, h, k, f)
			fromRef(c, &Inst{E: e, Kind: kRange, Stmt: []vref.Pt{r.Agg}}, r)
			r, _, _ = e.P.ProveRangeWith(c.Uni(two(uint(k))), k, func() *big.Int { return c.Uni(e.P.Grp.Order()) }, func(rs []vref.Pt) *big.Int { return e.P.Mod(vref.RangeE(rs)) })
			fromRef(c, &Inst{E: e, Kind: kRange, Stmt: []vref.Pt{r.Agg}}, r)
			c.Count("coinciding commitments", 2)
		})
	}
	// challenges and responses that are two bytes short
	for _, k := range sigmaKinds {
		for _, s := range rareSeeds[k] {
			w.Case(fmt.Sprintf("rare/%s/%d", k, s), func(c *C) {
				in, n := rareInst(k, s)
				r := rareProof(in, n)
				c.Count("short challenges and responses", len(rareMembers(r)))
				fromRef(c, in, r)
			})
		}
	}
	for i := 0; i < w.Scale(40, 400); i++ {
		w.Case(fmt.Sprintf("hash/%d", i), func(c *C) {
			for j := 0; j < 60; j++ {
				e := c.Env()
				var l [][]byte
				var all []byte
				for k := c.R.IntN(8); k > 0; k-- {
					b := c.Bytes(c.R.IntN(100))
					if c.Flip() {
						p, _ := c.Point(e)
						b = append(p.X.Bytes(), p.Y.Bytes()...)
						c.Check(bytes.Equal(lp(p).Bytes(), b), "bytes", "the bytes of %s are %x", hr(p), lp(p).Bytes())
					}
					l = append(l, b)
					all = append(all, b...)
				}
				h := sha256.Sum256(all)
				want := e.P.Mod(new(big.Int).SetBytes(h[:]))
				g := zksigma.GenerateChallenge(e.L, l...)
				c.Check(g != nil && g.Cmp(want) == 0, "hash", "%s: the challenge of %x is %x, expected %x", e.Name, l, g, want)
				c.Count("hashes", 1)
				c.Distinct(all, e.Name)
			}
		})
	}
}
