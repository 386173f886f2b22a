package main

import (
	"crypto/elliptic"
	crand "crypto/rand"
	"fmt"
	"math/big"

	"github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"

	"vref"
)

func init() {
	register(&Check{ID: "C14", Level: "exploration",
		Rule:  "commitments, tokens, openings and key pairs for special and random values, randomness and keys of any size and sign on six parameter sets, compared with the independent group implementation; every opening and token check also with values shifted by one, by the order, negated, swapped; sums of commitments; generated keys and blinding factors checked for freshness, range and bias; the default parameters and their table; groups of 107 and 9941 elements. Non-trivial: a distinct value and randomness committed to or opened",
		Run:   runC14,
		Floor: map[string]int64{"commitments": 6000, "openings accepted": 6000, "openings refused": 10000, "tokens": 2000, "token checks refused": 2000, "key pairs": 1500, "homomorphic sums": 600, "blinding factors": 1500, "table entries": 64}})
}

// commitOne decides everything about one value and randomness.
func commitOne(c *C, e *Env, v, r *big.Int) zksigma.ECPoint {
	n := e.P.Grp.Order()
	want := e.P.Commit(e.P.Mod(v), e.P.Mod(r))
	cm := zksigma.PedCommitR(e.L, cp(v), cp(r))
	c.Check(rp(cm).Eq(want), "commit", "%s: the commitment to %x with %x is (%x,%x), not (%x,%x)", e.Name, v, r, cm.X, cm.Y, want.X, want.Y)
	c.Count("commitments", 1)
	c.Distinct(e.Name, v, r)
	try := func(v2, r2 *big.Int, p vref.Pt) {
		w := e.P.Commit(e.P.Mod(v2), e.P.Mod(r2)).Eq(p)
		g := zksigma.Open(e.L, cp(v2), cp(r2), lp(p))
		if c.Check(g == w, "open", "%s: opening (%x,%x) with %x, %x gives %v", e.Name, p.X, p.Y, v2, r2, g); w {
			c.Count("openings accepted", 1)
		} else {
			c.Count("openings refused", 1)
		}
	}
	try(v, r, want)
	add := func(a *big.Int, d int64) *big.Int { return new(big.Int).Add(a, big.NewInt(d)) }
	k := new(big.Int).Mul(n, big.NewInt(int64(c.R.IntN(5)-2)))
	try(new(big.Int).Add(v, k), new(big.Int).Sub(r, k), want)
	switch c.R.IntN(8) {
	case 0:
		try(add(v, 1), r, want)
		try(v, add(r, -1), want)
	case 1:
		try(new(big.Int).Neg(v), r, want)
		try(v, new(big.Int).Neg(r), want)
	case 2:
		try(r, v, want)
		try(v, r, e.P.Grp.Neg(want))
	case 3:
		try(add(v, 1), add(r, -1), want)
		try(v, r, vref.ID())
	case 4:
		try(v, r, e.P.Grp.Add(want, e.P.G))
		try(v, r, e.P.Grp.Add(want, e.P.H))
	case 5:
		try(c.Int(n), r, want)
		try(v, c.Int(n), want)
	case 6:
		try(v, r, vref.Pt{X: want.X, Y: add(want.Y, 1)})
		try(v, r, vref.Pt{X: add(want.X, 1), Y: want.Y})
	case 7:
		try(new(big.Int).SetBit(v, c.R.IntN(256), 1-v.Bit(c.R.IntN(256))), r, want)
		try(v, new(big.Int).Xor(r, new(big.Int).Lsh(one(), uint(c.R.IntN(256)))), want)
	}
	return cm
}

func tokenOne(c *C, e *Env, pk vref.Pt, r *big.Int) {
	want := e.P.Grp.Mul(pk, r)
	tk := zksigma.CommitR(e.L, lp(pk), cp(r))
	c.Check(rp(tk).Eq(want), "token", "%s: the token of %x under (%x,%x) is (%x,%x), not (%x,%x)", e.Name, r, pk.X, pk.Y, tk.X, tk.Y, want.X, want.Y)
	c.Count("tokens", 1)
	c.Distinct(e.Name, pk, r)
	try := func(t, k vref.Pt, r *big.Int) {
		w := e.P.Grp.Mul(k, r).Eq(t)
		g := zksigma.VerifyR(e.L, lp(t), lp(k), cp(r))
		c.Check(g == w, "verify", "%s: token (%x,%x) of %x under (%x,%x): %v", e.Name, t.X, t.Y, r, k.X, k.Y, g)
		if !w {
			c.Count("token checks refused", 1)
		}
	}
	n := e.P.Grp.Order()
	try(want, pk, r)
	try(want, pk, new(big.Int).Add(r, n))
	try(want, pk, new(big.Int).Add(r, one()))
	try(want, e.P.Grp.Neg(pk), r)
	try(want, pk, new(big.Int).Neg(r))
	try(e.P.Grp.Neg(want), pk, r)
	try(vref.ID(), pk, r)
	try(pk, want, r)
	p, _ := c.Point(e)
	try(want, p, r)
	try(p, pk, r)
	try(vref.Pt{X: want.X, Y: new(big.Int).Add(want.Y, one())}, pk, r)
	try(vref.Pt{X: new(big.Int).Add(want.X, one()), Y: want.Y}, pk, r)
}

func runC14(w *W) {
	reuse(w, 0, w.Scale(4, 40), 40, "PedCommitR", "Open", "CommitR", "VerifyR")
	w.Case("default", func(c *C) {
		L := zksigma.TestCurve
		c.Check(rp(L.G).Eq(vref.G), "default", "G is (%x,%x)", L.G.X, L.G.Y)
		c.Check(rp(L.H).Eq(vref.H), "default", "H is (%x,%x), not (%x,%x)", L.H.X, L.H.Y, vref.H.X, vref.H.Y)
		c.Check(L.C == elliptic.Curve(btcec.S256()), "default", "the curve is not S256")
		c.Check(len(L.HPoints) == 64, "default", "%d powers of two", len(L.HPoints))
		for i, p := range L.HPoints {
			want := vref.MulG(new(big.Int).Lsh(one(), uint(i)))
			c.Check(rp(p).Eq(want), "default", "2^%d: (%x,%x)", i, p.X, p.Y)
			c.Count("table entries", 1)
		}
		c.Check(zksigma.BigZero.Sign() == 0 && rp(zksigma.Zero).IsID(), "default", "Zero is (%v,%v)", zksigma.Zero.X, zksigma.Zero.Y)
		c.Check(zksigma.Left == 0 && zksigma.Right == 1, "default", "sides")
		c.Sample("H = (%x,%x)", L.H.X, L.H.Y)
	})
	for part := 0; part < 16; part++ {
		w.Case(fmt.Sprintf("specials/%d", part), func(c *C) {
			e := std()
			n := e.P.Grp.Order()
			for i, s := range specials() {
				if i%16 != part {
					continue
				}
				c.Step(i)
				if i%5 == 0 {
					e = pick(c, envs())
					n = e.P.Grp.Order()
				} else {
					e = std()
					n = vref.N
				}
				commitOne(c, e, s, c.Int(n))
				commitOne(c, e, c.Int(n), s)
				commitOne(c, e, s, s)
				commitOne(c, e, new(big.Int).Neg(s), new(big.Int).Add(s, n))
				p, _ := c.Point(e)
				tokenOne(c, e, p, s)
			}
		})
	}
	for i := 0; i < w.Scale(160, 8000); i++ {
		w.Case(fmt.Sprintf("random/%d", i), func(c *C) {
			e := c.Env()
			if i%16 == 15 {
				e = wide()[i/16%len(wide())]
				c.Count("on "+e.Name, 1)
			} else if i%16 == 14 {
				e = toys()[i/16%len(toys())]
				c.Count("on "+e.Name, 1)
			}
			n := e.P.Grp.Order()
			for j := 0; j < 12; j++ {
				v, r := c.Int(n), c.Int(n)
				commitOne(c, e, v, r)
				p, _ := c.Point(e)
				tokenOne(c, e, p, c.Int(n))
			}
			// sums
			for j := 0; j < 4; j++ {
				v1, r1, v2, r2 := c.Int(n), c.Int(n), c.Int(n), c.Int(n)
				switch c.R.IntN(4) {
				case 0:
					v2, r2 = new(big.Int).Neg(v1), new(big.Int).Neg(r1)
				case 1:
					v2, r2 = cp(v1), cp(r1)
				}
				a, b := zksigma.PedCommitR(e.L, v1, r1), zksigma.PedCommitR(e.L, v2, r2)
				sv, sr := new(big.Int).Add(v1, v2), new(big.Int).Add(r1, r2)
				c.Check(zksigma.Open(e.L, sv, sr, e.L.Add(a, b)), "sum", "%s: the sum of the commitments to %x,%x and %x,%x does not open", e.Name, v1, r1, v2, r2)
				c.Check(zksigma.Open(e.L, new(big.Int).Sub(v1, v2), new(big.Int).Sub(r1, r2), e.L.Sub(a, b)), "sum", "%s: the difference of the commitments to %x,%x and %x,%x does not open", e.Name, v1, r1, v2, r2)
				k := c.Int(n)
				c.Check(zksigma.Open(e.L, new(big.Int).Mul(v1, k), new(big.Int).Mul(r1, k), e.L.Mult(a, k)), "sum", "%s: %x times the commitment to %x,%x does not open", e.Name, k, v1, r1)
				c.Count("homomorphic sums", 1)
			}
		})
	}
	// keys and blinding factors
	seen := map[string]bool{}
	bits := map[string]*bitStats{}
	w.Each("keys", func(c *C) {
		note := func(e *Env, what string, k *big.Int) {
			c.Check(k.Sign() >= 0 && k.Cmp(e.P.Grp.Order()) < 0, "range", "%s: %s %x is not below the order", e.Name, what, k)
			c.Check(!seen[k.String()], "fresh", "%s: %s %x was drawn before", e.Name, what, k)
			seen[k.String()] = true
			if _, ok := e.P.Grp.(vref.Secp); ok {
				if bits[what] == nil {
					bits[what] = &bitStats{}
				}
				bits[what].add(k)
			}
		}
		for j := 0; j < w.Scale(300, 6000); j++ {
			c.Step(j)
			e := c.Env()
			if j%32 == 31 {
				e = wide()[j/32%len(wide())]
			}
			base := c.NZPoint(e)
			if c.Flip() {
				base = e.P.H
			}
			pk, sk := zksigma.KeyGen(e.L.C, lp(base))
			c.Check(rp(pk).Eq(e.P.Grp.Mul(base, sk)), "key", "%s: the public key of %x over (%x,%x) is (%x,%x)", e.Name, sk, base.X, base.Y, pk.X, pk.Y)
			note(e, "secret key", sk)
			c.Count("key pairs", 1)
			v := c.Int(e.P.Grp.Order())
			cm, r, err := zksigma.PedCommit(e.L, v)
			if c.Check(err == nil && r != nil, "commit", "PedCommit: %v", err) {
				c.Check(rp(cm).Eq(e.P.Commit(e.P.Mod(v), r)), "commit", "%s: PedCommit of %x with %x is (%x,%x)", e.Name, v, r, cm.X, cm.Y)
				note(e, "blinding factor", r)
				c.Count("blinding factors", 1)
			}
			c.Distinct(sk, r)
		}
		for what, b := range bits {
			bit, sigma := b.worst()
			c.Check(sigma < 7, "bias", "bit %d of the %ss is off by %.1f standard deviations", bit, what, sigma)
		}
	})
	// draws between the order of the group and that of the field are not scalars
	w.Case("past the order", func(c *C) {
		for _, e := range envs() {
			n, p := e.P.Grp.Order(), e.L.C.Params().P
			if n.BitLen() != 256 || p.Cmp(n) <= 0 {
				continue
			}
			d := new(big.Int).Sub(p, n)
			for j := 0; j < 40; j++ {
				v := new(big.Int).Add(n, c.big(d))
				switch j {
				case 0:
					v = n
				case 1:
					v = new(big.Int).Sub(p, one())
				case 2:
					v = new(big.Int).Add(n, one())
				case 3:
					v = p
				case 4:
					v = max256
				}
				c.UsePool([]*big.Int{v}, 2)
				_, sk := zksigma.KeyGen(e.L.C, e.L.H)
				_, r, err := zksigma.PedCommit(e.L, big.NewInt(5))
				c.Check(sk.Cmp(n) < 0 && sk.Sign() >= 0, "range", "%s: secret key %x is not below the order when the source gives %x", e.Name, sk, v)
				c.Check(err == nil && r.Cmp(n) < 0 && r.Sign() >= 0, "range", "%s: blinding factor %x is not below the order when the source gives %x", e.Name, r, v)
				c.Count("draws past the order", 1)
			}
		}
	})
	// values at the ends of the randomness source
	for _, fill := range []byte{0, 0xff, 0x80, 1} {
		w.Case(fmt.Sprintf("fill/%02x", fill), func(c *C) {
			for _, e := range append(append([]*Env{}, envs()...), wide()...) {
				src := &onceReader{fill: fill, n: 1, r: crand.Reader}
				old := crand.Reader
				crand.Reader = src
				pk, sk := zksigma.KeyGen(e.L.C, e.L.H)
				src.n = 1
				cm, r, err := zksigma.PedCommit(e.L, big.NewInt(5))
				crand.Reader = old
				c.Check(rp(pk).Eq(e.P.Grp.Mul(e.P.H, sk)), "key", "%s: key for a source of %02x", e.Name, fill)
				c.Check(err == nil && rp(cm).Eq(e.P.Commit(big.NewInt(5), r)), "commit", "%s: commitment for a source of %02x", e.Name, fill)
				c.Count("key pairs", 1)
			}
		})
	}
}

// onceReader fills its first n reads with one byte.
type onceReader struct {
	fill byte
	n    int
	r    interface{ Read([]byte) (int, error) }
}

func (o *onceReader) Read(b []byte) (int, error) {
	if o.n > 0 {
		o.n--
		for i := range b {
			b[i] = o.fill
		}
		return len(b), nil
	}
	return o.r.Read(b)
}
