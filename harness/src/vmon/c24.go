package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/mit-dci/zksigma"

	"vref"
)

func init() {
	register(&Check{ID: "C24", Level: "exploration",
		Rule:  "random ledgers: several owners, deposits, payments (columns that sum to zero), entries taken from range proofs, zero, negative, huge and cancelled entries, cancelled with Sub, Neg or a negative entry, entries that make the tokens or the values of an owner cancel; running sums are kept by the library, and audits add up random subsets in random order and grouping, through bytes or not. A shadow ledger of integers decides every audit: opening, consistency, exact total by equivalence proof, zero or not by ABC proof, inequality of two sums, range. Each is asked again with a wrong total, an entry missing, doubled or of another owner, and other keys, of the library's prover and of a forger. Non-trivial: a distinct audit decided",
		Run:   runC24,
		Floor: map[string]int64{"entries": 1500, "payments": 100, "cancelled entries": 100, "audits": 1500, "totals proved": 1000, "consistency proved": 1000, "wrong totals refused": 1500, "missing or foreign entries refused": 1000, "other keys refused": 800, "zero totals": 100, "negative totals": 50, "empty sums": 20, "range entries": 60, "zero proofs": 50, "inequalities": 100, "cancelling entries": 100, "forged totals": 2000, "forged consistency": 1000}})
}

type owner struct {
	sk  *big.Int
	pk  vref.Pt
	lpk zksigma.ECPoint
}

type entry struct {
	who   int
	v, r  *big.Int
	cm    zksigma.ECPoint
	tok   zksigma.ECPoint
	minus bool // stands for its opposite
	rng   *zksigma.RangeProof
	rcm   zksigma.ECPoint
}

type ledger struct {
	c    *C
	e    *Env
	own  []owner
	ents []*entry
	// running sums of the library and of the shadow
	runC, runT []zksigma.ECPoint
	runV, runR []*big.Int
}

func (l *ledger) post(x *entry) {
	z := l.e.L
	l.ents = append(l.ents, x)
	i := x.who
	if x.minus {
		l.runC[i], l.runT[i] = z.Sub(l.runC[i], x.cm), z.Sub(l.runT[i], x.tok)
		l.runV[i].Sub(l.runV[i], x.v)
		l.runR[i].Sub(l.runR[i], x.r)
	} else {
		l.runC[i], l.runT[i] = z.Add(l.runC[i], x.cm), z.Add(l.runT[i], x.tok)
		l.runV[i].Add(l.runV[i], x.v)
		l.runR[i].Add(l.runR[i], x.r)
	}
	l.c.Count("entries", 1)
}

func (l *ledger) mk(who int, v, r *big.Int) *entry {
	x := &entry{who: who, v: v, r: r}
	if r == nil {
		cm, rr, err := zksigma.PedCommit(l.e.L, cp(v))
		if err != nil {
			l.c.Violation("commit", "PedCommit of %v: %v", v, err)
			rr = new(big.Int)
		}
		x.cm, x.r = cm, rr
	} else {
		x.cm = zksigma.PedCommitR(l.e.L, cp(v), cp(r))
	}
	x.tok = zksigma.CommitR(l.e.L, l.own[who].lpk, cp(x.r))
	return x
}

func (l *ledger) value() *big.Int {
	c := l.c
	switch c.R.IntN(9) {
	case 0:
		return new(big.Int)
	case 1:
		return new(big.Int).Neg(c.RangeValue())
	case 2:
		return c.Int(l.e.P.Grp.Order())
	case 3:
		return big.NewInt(int64(c.R.IntN(5) - 2))
	case 4:
		return new(big.Int).Mul(l.e.P.Grp.Order(), big.NewInt(int64(c.R.IntN(5)-2)))
	}
	return c.RangeValue()
}

func (l *ledger) blind() *big.Int {
	c := l.c
	switch c.R.IntN(6) {
	case 0:
		return c.Int(l.e.P.Grp.Order())
	case 1:
		return big.NewInt(int64(c.R.IntN(4)))
	case 2:
		return nil
	}
	return c.Uni(l.e.P.Grp.Order())
}

func (l *ledger) step() {
	c := l.c
	switch c.R.IntN(11) {
	case 10: // an entry after which the tokens, the values or the commitments of the owner cancel
		i := c.R.IntN(len(l.own))
		v, r := l.value(), l.blind()
		switch c.R.IntN(3) {
		case 0:
			r = new(big.Int).Neg(l.runR[i])
		case 1:
			v = new(big.Int).Neg(l.runV[i])
		case 2:
			v, r = new(big.Int).Neg(l.runV[i]), new(big.Int).Neg(l.runR[i])
		}
		l.post(l.mk(i, v, r))
		c.Count("cancelling entries", 1)
	case 0, 1, 2, 3: // deposit
		l.post(l.mk(c.R.IntN(len(l.own)), l.value(), l.blind()))
	case 4, 5: // a payment: values and randomness of all columns sum to zero
		v, r := new(big.Int), new(big.Int)
		var xs []*entry
		for i := range l.own {
			var a, b *big.Int
			if i == len(l.own)-1 {
				a, b = new(big.Int).Neg(v), new(big.Int).Neg(r)
			} else if a, b = l.value(), c.Int(l.e.P.Grp.Order()); c.R.IntN(3) == 0 {
				a = new(big.Int)
			}
			v.Add(v, a)
			r.Add(r, b)
			xs = append(xs, l.mk(i, a, b))
		}
		sum := zksigma.Zero
		for _, i := range c.R.Perm(len(xs)) {
			sum = l.e.L.Add(sum, xs[i].cm)
		}
		c.Check(rp(sum).IsID(), "balance", "%s: the commitments of a payment that sums to zero sum to %s: %s", l.e.Name, hx(sum), show(xs))
		c.Check(sum.Equal(zksigma.Zero), "balance", "%s: the sum of a payment is not equal to Zero", l.e.Name)
		for _, x := range xs {
			l.post(x)
		}
		c.Count("payments", 1)
	case 6: // an entry whose commitment comes with a range proof
		v := c.RangeValue()
		if c.R.IntN(3) > 0 {
			l.post(l.mk(c.R.IntN(len(l.own)), v, l.blind()))
			return
		}
		p, r, err := zksigma.NewRangeProof(l.e.L, cp(v))
		if !c.Check(err == nil, "range", "%s: no range proof of %v: %v", l.e.Name, v, err) {
			return
		}
		x := l.mk(c.R.IntN(len(l.own)), v, r)
		x.rng = p
		c.Check(rp(p.ProofAggregate).Eq(rp(x.cm)), "range", "%s: the range proof of %v is for another commitment", l.e.Name, v)
		ok, err := p.Verify(l.e.L, x.cm)
		c.Check(ok, "range", "%s: the range proof of %v does not verify for the entry: %v", l.e.Name, v, err)
		l.post(x)
		c.Count("range entries", 1)
	case 7, 8: // cancel an earlier entry
		if len(l.ents) == 0 {
			return
		}
		o := pick(c, l.ents)
		x := *o
		x.rng = nil
		switch c.R.IntN(3) {
		case 0:
			x.minus = !o.minus
		case 1:
			x.cm, x.tok = l.e.L.Neg(o.cm), l.e.L.Neg(o.tok)
			x.v, x.r = new(big.Int).Neg(o.v), new(big.Int).Neg(o.r)
		case 2:
			y := l.mk(o.who, new(big.Int).Neg(o.v), new(big.Int).Neg(o.r))
			y.minus = o.minus
			x = *y
		}
		l.post(&x)
		c.Count("cancelled entries", 1)
	case 9: // only randomness
		l.post(l.mk(c.R.IntN(len(l.own)), new(big.Int), l.blind()))
	}
}

func show(xs []*entry) (s string) {
	for i, x := range xs {
		if i == 6 {
			return s + fmt.Sprintf("… (%d)", len(xs))
		}
		s += fmt.Sprintf("[%d v=%x r=%x -%v]", x.who, x.v, x.r, x.minus)
	}
	return
}

// add sums entries in random order and grouping.
func (l *ledger) add(xs []*entry) (cm, tok zksigma.ECPoint) {
	z, c := l.e.L, l.c
	if len(xs) == 0 {
		return zksigma.ECPoint{X: new(big.Int), Y: new(big.Int)}, zksigma.Zero
	}
	// parts carry a sign that may be put off
	type part struct {
		a, b zksigma.ECPoint
		neg  bool
	}
	var ps []part
	for _, i := range c.R.Perm(len(xs)) {
		ps = append(ps, part{xs[i].cm, xs[i].tok, xs[i].minus})
	}
	for len(ps) > 1 {
		i := c.R.IntN(len(ps) - 1)
		j := i + 1
		if c.R.IntN(3) == 0 {
			i = 0
			j = len(ps) - 1
		}
		p, q := ps[i], ps[j]
		var s part
		switch {
		case p.neg == q.neg:
			s = part{z.Add(p.a, q.a), z.Add(p.b, q.b), p.neg}
		case c.Flip():
			s = part{z.Sub(p.a, q.a), z.Sub(p.b, q.b), p.neg}
		default:
			s = part{z.Sub(q.a, p.a), z.Sub(q.b, p.b), q.neg}
		}
		ps[i] = s
		ps = append(ps[:j], ps[j+1:]...)
	}
	p := ps[0]
	if p.neg {
		if c.Flip() {
			p.a, p.b = z.Neg(p.a), z.Neg(p.b)
		} else {
			p.a, p.b = z.Sub(zksigma.Zero, p.a), z.Sub(zksigma.Zero, p.b)
		}
	}
	return p.a, p.b
}

func sums(xs []*entry) (v, r *big.Int) {
	v, r = new(big.Int), new(big.Int)
	for _, x := range xs {
		if x.minus {
			v.Sub(v, x.v)
			r.Sub(r, x.r)
		} else {
			v.Add(v, x.v)
			r.Add(r, x.r)
		}
	}
	return
}

// travel sends a point through its encoding, or not.
func (l *ledger) travel(p zksigma.ECPoint) zksigma.ECPoint {
	if !l.e.Serial() || l.c.Flip() {
		return p
	}
	var b bytes.Buffer
	if err := zksigma.WriteECPoint(&b, p); err != nil {
		l.c.Violation("travel", "writing %s: %v", hx(p), err)
		return p
	}
	q, err := zksigma.ReadECPoint(&b)
	if err != nil || !rp(q).Eq(rp(p)) {
		l.c.Violation("travel", "%s is read back as %v %v", hx(p), q, err)
		return p
	}
	return q
}

func travelProof[T any](l *ledger, kind string, p T) T {
	if !l.e.Serial() || l.c.Flip() {
		return p
	}
	q, err := libParse(kind, libBytes(p))
	if err != nil {
		l.c.Violation("travel", "a %s proof is not read back: %v", kind, err)
		return p
	}
	return q.(T)
}

// total is the equivalence proof that the sum of commitments cm with tokens tok
// holds total: (cm - total G) to tok is like H to pk.
func (l *ledger) total(cm, tok zksigma.ECPoint, total *big.Int, pk zksigma.ECPoint, sk *big.Int) (accepted bool, why string) {
	z := l.e.L
	base := z.Sub(cm, z.Mult(z.G, total))
	if l.c.R.IntN(3) == 0 { // the other way round
		p, err := zksigma.NewEquivalenceProof(z, z.H, pk, base, tok, sk)
		if err != nil {
			return false, "prover: " + err.Error()
		}
		p = travelProof(l, kEquiv, p)
		ok, err := p.Verify(z, z.H, pk, l.travel(base), l.travel(tok))
		return ok, fmt.Sprint(err)
	}
	p, err := zksigma.NewEquivalenceProof(z, base, tok, z.H, pk, sk)
	if err != nil {
		return false, "prover: " + err.Error()
	}
	p = travelProof(l, kEquiv, p)
	ok, err := p.Verify(z, l.travel(base), l.travel(tok), z.H, pk)
	if ok {
		// the auditor computes the statement alone
		b2 := z.Add(cm, z.Neg(z.Mult(z.G, new(big.Int).Mod(total, l.e.P.Grp.Order()))))
		ok2, err2 := p.Verify(z, b2, tok, z.H, pk)
		l.c.Check(ok2, "auditor", "%s: total %x proved for base %s, refused for the same computed as %s: %v", l.e.Name, total, hx(base), hx(b2), err2)
	}
	return ok, fmt.Sprint(err)
}

// forge makes proofs of a false total without the library's prover, which would
// refuse: with the key given, with none, and with the commitments of the proof
// chosen so that one of the two equations holds.
func (l *ledger) forge(cm, tok vref.Pt, total *big.Int, pk vref.Pt, sk *big.Int) (bool, string) {
	p, c, n := l.e.P, l.c, l.e.P.Grp.Order()
	base := p.Sub(cm, p.Grp.Mul(p.G, total))
	s := []vref.Pt{base, tok, p.H, pk}
	if c.Flip() {
		s = []vref.Pt{p.H, pk, base, tok}
	}
	x := pick(c, []*big.Int{sk, sk, sk, new(big.Int), c.Uni(n), p.Mod(new(big.Int).Neg(sk))})
	u := pick(c, []*big.Int{c.Uni(n), c.Uni(n), new(big.Int)})
	q, err := toLib(kEquiv, p.ProveEquiv(s[0], s[1], s[2], s[3], x, u))
	if err != nil {
		return false, err.Error()
	}
	ok, err := libVerify(l.e.L, q, s)
	c.Count("forged totals", 1)
	return ok, fmt.Sprintf("forged with %x, %x: %v", x, u, err)
}

// forgeCons does the same for a claim of consistency.
func (l *ledger) forgeCons(cm, tok, pk vref.Pt, v, r *big.Int) (bool, string) {
	p, c, n := l.e.P, l.c, l.e.P.Grp.Order()
	q, err := toLib(kCons, p.ProveCons(cm, tok, pk, p.Mod(v), p.Mod(r), c.Uni(n), pick(c, []*big.Int{c.Uni(n), new(big.Int)})))
	if err != nil {
		return false, err.Error()
	}
	ok, err := libVerify(l.e.L, q, []vref.Pt{cm, tok, pk})
	c.Count("forged consistency", 1)
	return ok, fmt.Sprint(err)
}

func (l *ledger) consistent(cm, tok, pk zksigma.ECPoint, v, r *big.Int) (bool, string) {
	p, err := zksigma.NewConsistencyProof(l.e.L, cm, tok, pk, v, r)
	if err != nil {
		return false, "prover: " + err.Error()
	}
	p = travelProof(l, kCons, p)
	ok, err := p.Verify(l.e.L, l.travel(cm), l.travel(tok), pk)
	return ok, fmt.Sprint(err)
}

func (l *ledger) audit(i int) {
	c, e, z := l.c, l.e, l.e.L
	n := e.P.Grp.Order()
	o := l.own[i]
	var mine, rest []*entry
	whole := c.R.IntN(3) > 0
	part := 1 + c.R.IntN(4)
	for _, x := range l.ents {
		if x.who == i && (whole || c.R.IntN(4) < part) {
			mine = append(mine, x)
		} else {
			rest = append(rest, x)
		}
	}
	v, r := sums(mine)
	cm, tok := l.add(mine)
	if whole {
		c.Check(rp(cm).Eq(rp(l.runC[i])) && rp(tok).Eq(rp(l.runT[i])), "running", "%s: the running sums of owner %d are %s and %s, added up again %s and %s: %s", e.Name, i, hx(l.runC[i]), hx(l.runT[i]), hx(cm), hx(tok), show(mine))
		if c.Flip() {
			cm, tok = l.runC[i], l.runT[i]
		}
	}
	if len(mine) == 0 {
		c.Count("empty sums", 1)
	}
	c.Count("audits", 1)
	c.Distinct(e.Name, v, r, o.sk)
	what := func() string {
		return fmt.Sprintf("%s: owner %d (key %x), %d entries %s, total %x, randomness %x", e.Name, i, o.sk, len(mine), show(mine), v, r)
	}
	want, wtok := e.P.Commit(v, r), e.P.Grp.Mul(o.pk, r)
	c.Check(rp(cm).Eq(want), "sum", "%s: the sum of commitments is %s, not %s", what(), hx(cm), hr(want))
	c.Check(rp(tok).Eq(wtok), "sum", "%s: the sum of tokens is %s, not %s", what(), hx(tok), hr(wtok))
	c.Check(zksigma.Open(z, v, r, cm), "open", "%s: the sum does not open", what())
	c.Check(zksigma.VerifyR(z, tok, o.lpk, r), "open", "%s: the sum of tokens does not check", what())
	zero := new(big.Int).Mod(v, n).Sign() == 0
	if zero {
		c.Count("zero totals", 1)
	}
	if v.Sign() < 0 {
		c.Count("negative totals", 1)
	}
	ok, why := l.total(cm, tok, v, o.lpk, o.sk)
	if c.Check(ok, "total", "%s: the total is not proved: %s", what(), why) {
		c.Count("totals proved", 1)
	}
	ok, why = l.consistent(cm, tok, o.lpk, v, r)
	if c.Check(ok, "consistency", "%s: the sums do not prove consistent: %s", what(), why) {
		c.Count("consistency proved", 1)
	}
	if c.R.IntN(3) == 0 {
		sd := zksigma.Right
		if zero {
			sd = zksigma.Left
		}
		p, err := zksigma.NewABCProof(z, cm, tok, cp(v), cp(o.sk), sd)
		if c.Check(err == nil, "zero", "%s: no ABC proof: %v", what(), err) {
			p = travelProof(l, kABC, p)
			ok, err := p.Verify(z, cm, tok)
			c.Check(ok, "zero", "%s: the ABC proof does not verify: %v", what(), err)
			c.Count("zero proofs", 1)
			if !zero {
				// the other claim is refused
				q, err := zksigma.NewABCProof(z, cm, tok, new(big.Int), cp(o.sk), zksigma.Left)
				if err == nil {
					ok, _ := q.Verify(z, cm, tok)
					c.Check(!ok, "zero", "%s: an ABC proof that the total is zero verifies", what())
				}
			}
		}
	}
	// wrong totals; the truth is decided by the shadow
	truth := func(cm, tok vref.Pt, t *big.Int, pk vref.Pt, sk *big.Int) bool {
		b := e.P.Sub(cm, e.P.Grp.Mul(e.P.G, t))
		return e.P.Grp.Mul(b, sk).Eq(tok) && e.P.Grp.Mul(e.P.H, sk).Eq(pk)
	}
	refuse := func(counter string, cm, tok zksigma.ECPoint, t *big.Int, pk zksigma.ECPoint, sk *big.Int, how string) {
		w := truth(rp(cm), rp(tok), t, rp(pk), sk)
		ok, why := l.total(cm, tok, t, pk, sk)
		c.Check(ok == w, "audit", "%s: %s: claimed total %x: %v (%s), expected %v", what(), how, t, ok, why, w)
		if !w {
			c.Count(counter, 1)
			ok, why := l.forge(rp(cm), rp(tok), t, rp(pk), sk)
			c.Check(!ok, "audit", "%s: %s: claimed total %x accepted: %s", what(), how, t, why)
		}
	}
	d := pick(c, []*big.Int{one(), big.NewInt(-1), c.Scalar(n), two(uint(c.R.IntN(256))), two(40), big.NewInt(256), n, r})
	refuse("wrong totals refused", cm, tok, new(big.Int).Add(v, d), o.lpk, o.sk, "wrong total")
	refuse("wrong totals refused", cm, tok, new(big.Int).Neg(v), o.lpk, o.sk, "opposite total")
	refuse("wrong totals refused", cm, tok, new(big.Int).Add(v, one()), o.lpk, o.sk, "total off by one")
	for _, dv := range []int64{1, -1} {
		w := new(big.Int).Add(v, big.NewInt(dv))
		c.Check(!zksigma.Open(z, w, r, cm), "open", "%s: the sum opens to %x", what(), w)
		ok, _ := l.consistent(cm, tok, o.lpk, w, r)
		c.Check(!ok, "consistency", "%s: consistency is proved for the value %x", what(), w)
		ok, _ = l.forgeCons(rp(cm), rp(tok), o.pk, w, r)
		c.Check(!ok, "consistency", "%s: consistency is proved for the value %x, without the library's prover", what(), w)
	}
	// entries missing, doubled, foreign, or with the wrong sign
	if len(mine) > 0 {
		k := c.R.IntN(len(mine))
		x := mine[k]
		less := append(append([]*entry{}, mine[:k]...), mine[k+1:]...)
		c1, t1 := l.add(less)
		refuse("missing or foreign entries refused", c1, tok, v, o.lpk, o.sk, "a commitment is missing")
		refuse("missing or foreign entries refused", cm, t1, v, o.lpk, o.sk, "a token is missing")
		refuse("missing or foreign entries refused", c1, t1, v, o.lpk, o.sk, "an entry is missing")
		c2, t2 := z.Add(cm, x.cm), z.Add(tok, x.tok)
		if x.minus {
			c2, t2 = z.Sub(cm, x.cm), z.Sub(tok, x.tok)
		}
		refuse("missing or foreign entries refused", c2, t2, v, o.lpk, o.sk, "an entry is counted twice")
		refuse("missing or foreign entries refused", z.Neg(cm), tok, v, o.lpk, o.sk, "commitments negated")
		refuse("missing or foreign entries refused", cm, z.Neg(tok), v, o.lpk, o.sk, "tokens negated")
		ok, _ := l.consistent(c1, tok, o.lpk, v, r)
		w := rp(c1).Eq(want)
		c.Check(ok == w, "consistency", "%s: consistency with a missing commitment: %v", what(), ok)
		if wt := rp(t1).Eq(wtok); !wt {
			ok, _ := l.forgeCons(rp(cm), rp(t1), o.pk, v, r)
			c.Check(!ok, "consistency", "%s: consistency with a missing token is proved", what())
		}
		if !w {
			ok, _ := l.forgeCons(rp(c1), rp(tok), o.pk, v, r)
			c.Check(!ok, "consistency", "%s: consistency with a missing commitment is proved", what())
		}
	}
	if len(rest) > 0 {
		x := pick(c, rest)
		c1, t1 := z.Add(cm, x.cm), z.Add(tok, x.tok)
		t := new(big.Int).Add(v, x.v)
		refuse("missing or foreign entries refused", c1, t1, t, o.lpk, o.sk, "a foreign entry")
		refuse("missing or foreign entries refused", c1, tok, t, o.lpk, o.sk, "a foreign commitment")
	}
	// other keys
	j := c.R.IntN(len(l.own))
	p := l.own[j]
	refuse("other keys refused", cm, tok, v, p.lpk, p.sk, "another owner")
	refuse("other keys refused", cm, tok, v, o.lpk, p.sk, "another owner's secret")
	refuse("other keys refused", cm, tok, v, p.lpk, o.sk, "another owner's public key")
	refuse("other keys refused", cm, tok, v, o.lpk, new(big.Int).Add(o.sk, one()), "a key off by one")
	if j != i {
		ok, _ := l.consistent(cm, tok, p.lpk, v, r)
		w := e.P.Grp.Mul(p.pk, r).Eq(rp(tok))
		c.Check(ok == w, "consistency", "%s: consistency under owner %d's key: %v", what(), j, ok)
	}
}

// compare proves that two sums of one owner differ, if they do.
func (l *ledger) compare(i int) {
	c, e, z := l.c, l.e, l.e.L
	o := l.own[i]
	var a, b []*entry
	for _, x := range l.ents {
		if x.who == i {
			if c.Flip() {
				a = append(a, x)
			}
			if c.Flip() {
				b = append(b, x)
			}
		}
	}
	va, _ := sums(a)
	vb, _ := sums(b)
	ca, ta := l.add(a)
	cb, tb := l.add(b)
	differ := e.P.Mod(new(big.Int).Sub(va, vb)).Sign() != 0
	p, err := zksigma.NewInequalityProof(z, ca, cb, ta, tb, va, vb, cp(o.sk))
	c.Count("inequalities", 1)
	if !differ {
		if err == nil {
			ok, _ := p.Verify(z, z.Sub(ca, cb), z.Sub(ta, tb))
			c.Check(!ok, "inequality", "%s: equal totals %x and %x of owner %d are proved to differ", e.Name, va, vb, i)
		}
		return
	}
	if !c.Check(err == nil, "inequality", "%s: totals %x and %x of owner %d: no inequality proof: %v; %s; %s", e.Name, va, vb, i, err, show(a), show(b)) {
		return
	}
	p = travelProof(l, kIneq, p)
	ok, err := p.Verify(z, z.Sub(ca, cb), z.Sub(ta, tb))
	c.Check(ok, "inequality", "%s: the inequality proof for totals %x and %x of owner %d does not verify: %v; %s; %s", e.Name, va, vb, i, err, show(a), show(b))
	c.Distinct(e.Name, "inequality", va, vb)
}

func runC24(w *W) {
	for i := 0; i < w.Scale(120, 2400); i++ {
		w.Case(fmt.Sprintf("ledger/%d", i), func(c *C) {
			e := std()
			if i%4 == 3 {
				e = pick(c, envs())
			}
			if i%20 == 10 {
				e = wide()[i/20%len(wide())]
			}
			n := e.P.Grp.Order()
			l := &ledger{c: c, e: e}
			for k := 2 + c.R.IntN(3); k > 0; k-- {
				o := owner{sk: c.NonZero(n)}
				if c.R.IntN(3) == 0 {
					pk, sk := zksigma.KeyGen(e.L.C, e.L.H)
					o.sk = sk
					c.Check(rp(pk).Eq(e.P.Grp.Mul(e.P.H, sk)), "key", "%s: the public key of %x is %s", e.Name, sk, hx(pk))
				}
				o.pk = e.P.Grp.Mul(e.P.H, o.sk)
				o.lpk = lp(o.pk)
				l.own = append(l.own, o)
				l.runC = append(l.runC, zksigma.Zero)
				l.runT = append(l.runT, zksigma.ECPoint{X: new(big.Int), Y: new(big.Int)})
				l.runV = append(l.runV, new(big.Int))
				l.runR = append(l.runR, new(big.Int))
			}
			if i%3 == 1 {
				c.UsePool(specials(), 3)
			}
			steps := 20 + c.R.IntN(40)
			for s := 0; s < steps; s++ {
				l.step()
				c.Step(s)
				if c.R.IntN(3) == 0 || s == 0 {
					l.audit(c.R.IntN(len(l.own)))
				}
				if c.R.IntN(16) == 0 {
					l.compare(c.R.IntN(len(l.own)))
				}
			}
			for k := range l.own {
				l.audit(k)
			}
			// cancel everything: the ledger is empty again
			if i%2 == 0 {
				for _, o := range append([]*entry{}, l.ents...) {
					x := *o
					x.minus = !o.minus
					l.post(&x)
				}
				for k := range l.own {
					c.Check(rp(l.runC[k]).IsID() && rp(l.runT[k]).IsID(), "cancel", "%s: after cancelling all entries of owner %d the sums are %s and %s", e.Name, k, hx(l.runC[k]), hx(l.runT[k]))
					l.audit(k)
				}
			}
			if i < 3 {
				c.Sample("%s: %d owners, %d entries: %s", e.Name, len(l.own), len(l.ents), show(l.ents))
			}
		})
	}
}
