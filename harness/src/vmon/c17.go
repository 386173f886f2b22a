package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"sync"

	"github.com/mit-dci/zksigma/btcec"

	"vref"
)

func init() {
	register(&Check{ID: "C17", Level: "exploration",
		Rule:  "signatures by special and random keys of hashes of all lengths and contents, some with short results, compared with an independent RFC 6979 implementation; verification of altered, negated, out-of-range, swapped and constructed (r, s) pairs, among them ones with the nonce point's x beyond the order or the point at infinity, compared with the ECDSA equation; compact signatures made, recovered, and recovered from arbitrary headers and values. Non-trivial: a distinct key, hash and signature decided",
		Run:   runC17,
		Floor: map[string]int64{"signatures": 2500, "accepted": 3000, "refused": 15000, "high s accepted": 1000, "x beyond the order accepted": 200, "nonce point at infinity refused": 100, "compact signatures": 700, "recovered": 1500, "not recovered": 1500, "recovered with x beyond the order": 100, "short signatures": 9}})
}

func privKey(d *big.Int) *btcec.PrivateKey {
	k, _ := btcec.PrivKeyFromBytes(btcec.S256(), d.Bytes())
	return k
}

func pubKey(p vref.Pt) *btcec.PublicKey {
	return &btcec.PublicKey{Curve: btcec.S256(), X: cp(p.X), Y: cp(p.Y)}
}

// hash is a hash of any length.
func (c *C) hash() []byte {
	switch c.R.IntN(8) {
	case 0:
		return c.Bytes(c.R.IntN(80))
	case 1:
		return bytes.Repeat([]byte{pick(c, []byte{0, 0xff, 1, 0x80})}, c.R.IntN(40))
	case 2:
		return new(big.Int).Add(vref.N, big.NewInt(int64(c.R.IntN(5)-2))).Bytes()
	case 3:
		return append(new(big.Int).Add(vref.N, big.NewInt(int64(c.R.IntN(3)-1))).Bytes(), c.Bytes(c.R.IntN(4))...)
	case 4:
		var b [32]byte
		c.Scalar(vref.N).FillBytes(b[:])
		return b[:]
	}
	return c.Bytes(32)
}

type sigMon struct{ c *C }

// decide compares the verdict on one signature.
func (m sigMon) decide(q vref.Pt, h []byte, r, s *big.Int, what string) bool {
	if len(h) == 0 {
		// the standard library's Verify refuses an empty hash
		return false
	}
	want := vref.VerifyECDSA(q, h, r, s)
	got := (&btcec.Signature{R: cp(r), S: cp(s)}).Verify(bytes.Clone(h), pubKey(q))
	m.c.Check(got == want, "verify", "%s: the signature (%x, %x) of %x is %v for the key (%x,%x)", what, r, s, h, got, q.X, q.Y)
	if want {
		m.c.Count("accepted", 1)
	} else {
		m.c.Count("refused", 1)
	}
	m.c.Distinct(q, h, r, s)
	return want
}

func (m sigMon) variants(q vref.Pt, h []byte, r, s *big.Int) {
	c := m.c
	ns := new(big.Int).Sub(vref.N, s)
	if m.decide(q, h, r, ns, "other s") {
		c.Count("high s accepted", 1)
	}
	i := func(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, big.NewInt(d)) }
	m.decide(q, h, r, i(s, 1), "s+1")
	m.decide(q, h, i(r, -1), s, "r-1")
	m.decide(q, h, new(big.Int).Add(r, vref.N), s, "r+N")
	m.decide(q, h, r, new(big.Int).Add(s, vref.N), "s+N")
	m.decide(q, h, new(big.Int).Neg(r), s, "-r")
	m.decide(q, h, r, new(big.Int).Neg(s), "-s")
	m.decide(q, h, new(big.Int).Sub(vref.N, r), s, "N-r")
	m.decide(q, h, s, r, "swapped")
	m.decide(vref.Secp{}.Neg(q), h, r, s, "opposite key")
	m.decide(phi(q), h, r, s, "key with another x")
	switch c.R.IntN(4) {
	case 0:
		m.decide(q, h, new(big.Int), s, "r=0")
		m.decide(q, h, r, new(big.Int), "s=0")
		m.decide(q, h, new(big.Int), new(big.Int), "0, 0")
	case 1:
		m.decide(q, h, vref.N, s, "r=N")
		m.decide(q, h, r, vref.N, "s=N")
		m.decide(q, h, vref.P, s, "r=P")
	case 2:
		m.decide(q, h, new(big.Int).Xor(r, two(uint(c.R.IntN(256)))), s, "bit of r")
		m.decide(q, h, r, new(big.Int).Xor(s, two(uint(c.R.IntN(256)))), "bit of s")
		o := c.NZPoint(std())
		m.decide(o, h, r, s, "another key")
	case 3:
		m.decide(q, append([]byte{0}, h...), r, s, "hash shifted")
		m.decide(q, append(bytes.Clone(h), 0), r, s, "hash extended")
		if len(h) > 0 {
			x := bytes.Clone(h)
			x[c.R.IntN(len(x))] ^= 1 << uint(c.R.IntN(8))
			m.decide(q, x, r, s, "bit of the hash")
			m.decide(q, h[:len(h)-1], r, s, "hash cut")
		}
		m.decide(q, c.Bytes(32), r, s, "another hash")
	}
}

func (m sigMon) sign(d *big.Int, h []byte) {
	c := m.c
	k := privKey(d)
	sg, err := k.Sign(bytes.Clone(h))
	c.Count("signatures", 1)
	r, s := vref.SignECDSA(d, h)
	if r.Sign() == 0 || s.Sign() == 0 {
		return
	}
	if !c.Check(err == nil && sg != nil, "sign", "signing %x with %x: %v", h, d, err) {
		return
	}
	c.Check(sg.R.Cmp(r) == 0 && sg.S.Cmp(s) == 0, "sign", "the signature of %x by %x is (%x, %x), not (%x, %x)", h, d, sg.R, sg.S, r, s)
	c.Check(sg.S.Cmp(new(big.Int).Rsh(vref.N, 1)) <= 0, "low", "s is %x", sg.S)
	q := vref.MulG(d)
	c.Check(k.PubKey().X.Cmp(q.X) == 0 && k.PubKey().Y.Cmp(q.Y) == 0, "key", "the public key of %x is (%x,%x)", d, k.PubKey().X, k.PubKey().Y)
	c.Check(len(h) == 0 || sg.Verify(h, k.PubKey()), "verify", "the signature of %x by %x does not verify", h, d)
	m.decide(q, h, sg.R, sg.S, "own signature")
	again, err := privKey(d).Sign(bytes.Clone(h))
	c.Check(err == nil && again.IsEqual(sg), "deterministic", "signing %x with %x again gives another signature", h, d)
	c.Check(!sg.IsEqual(&btcec.Signature{R: sg.S, S: sg.R}) || sg.R.Cmp(sg.S) == 0, "isequal", "IsEqual")
	for _, x := range []*btcec.Signature{{R: sg.R, S: new(big.Int).Neg(sg.S)}, {R: new(big.Int).Neg(sg.R), S: sg.S}, {R: sg.R, S: new(big.Int).Sub(vref.N, sg.S)},
		{R: new(big.Int).Sub(vref.N, sg.R), S: sg.S}, {R: sg.R, S: new(big.Int).Add(sg.S, two(256))}, {R: new(big.Int).Add(sg.R, two(256)), S: sg.S},
		{R: sg.R, S: new(big.Int).Xor(sg.S, two(uint(c.R.IntN(256))))}, {R: new(big.Int).Xor(sg.R, two(uint(c.R.IntN(256)))), S: sg.S}} {
		c.Check(!sg.IsEqual(x) && !x.IsEqual(sg), "isequal", "(%x, %x) is said to equal (%x, %x)", sg.R, sg.S, x.R, x.S)
	}
	m.variants(q, h, sg.R, sg.S)
	c.Distinct(d, h)
}

func (m sigMon) compact(d *big.Int, h []byte, compressed bool) {
	c := m.c
	k := privKey(d)
	b, err := btcec.SignCompact(btcec.S256(), k, bytes.Clone(h), compressed)
	if !c.Check(err == nil && len(b) == 65, "compact", "SignCompact of %x by %x: %x, %v", h, d, b, err) {
		return
	}
	c.Count("compact signatures", 1)
	r, s := vref.SignECDSA(d, h)
	c.Check(new(big.Int).SetBytes(b[1:33]).Cmp(r) == 0 && new(big.Int).SetBytes(b[33:]).Cmp(s) == 0, "compact", "SignCompact of %x by %x: %x", h, d, b)
	q := vref.MulG(d)
	pk, comp, err := btcec.RecoverCompact(btcec.S256(), b, h)
	c.Check(err == nil && pk != nil && rp2(pk).Eq(q) && comp == compressed, "recover", "the compact signature %x of %x by %x (compressed: %v) recovers %v, %v, %v", b, h, d, compressed, pk, comp, err)
	c.Check(b[0] >= 27 && b[0] <= 34 && (b[0]-27 >= 4) == compressed, "compact", "header %d", b[0])
	for i := 0; i < 6; i++ {
		x := bytes.Clone(b)
		switch i {
		case 0:
			x[0] ^= 1
		case 1:
			x[0] ^= 4
		case 2:
			x[1+c.R.IntN(64)] ^= 1 << uint(c.R.IntN(8))
		case 3:
			x[0] = byte(c.R.IntN(256))
		case 4:
			x = x[:c.R.IntN(65)]
		case 5:
			x = append(x, 0)
		}
		m.recover(x, h)
	}
}

func rp2(p *btcec.PublicKey) vref.Pt { return vref.Pt{X: p.X, Y: p.Y} }

// recover decides what a compact signature recovers to.
func (m sigMon) recover(b, h []byte) {
	c := m.c
	pk, comp, err := btcec.RecoverCompact(btcec.S256(), bytes.Clone(b), bytes.Clone(h))
	var q vref.Pt
	ok := false
	if len(b) == 65 && b[0] >= 27 && b[0] <= 34 {
		q, ok = vref.RecoverECDSA(h, new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:]), int(b[0]-27)&3)
	}
	if !ok {
		c.Check(err != nil && pk == nil, "recover", "the compact signature %x of %x recovers %v", b, h, pk)
		c.Count("not recovered", 1)
		return
	}
	c.Check(err == nil && pk != nil && rp2(pk).Eq(q) && comp == (b[0]-27 >= 4), "recover", "the compact signature %x of %x recovers %v, %v, %v, not (%x,%x)", b, h, pk, comp, err, q.X, q.Y)
	r, s := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
	c.Check(vref.VerifyECDSA(q, h, r, s), "reference", "recovered key does not verify")
	m.decide(q, h, r, s, "recovered")
	c.Count("recovered", 1)
	if (b[0]-27)&2 != 0 {
		c.Count("recovered with x beyond the order", 1)
	}
}

var bigXOnce sync.Once
var bigX []vref.Pt

// beyond are points with x in [N, P).
func beyond() []vref.Pt {
	bigXOnce.Do(func() {
		for i := int64(0); len(bigX) < 60; i++ {
			x := new(big.Int).Add(vref.N, big.NewInt(i))
			if i > 40 { // spread over the interval
				x.Sub(vref.P, big.NewInt(i-40))
			}
			if y := vref.SqrtY(x); y != nil {
				bigX = append(bigX, vref.Pt{X: x, Y: y}, vref.Secp{}.Neg(vref.Pt{X: x, Y: y}))
			}
		}
	})
	return bigX
}

func runC17(w *W) {
	reuse(w, 1, w.Scale(4, 40), 40, "Sign", "SignCompact", "Verify")
	for part := 0; part < 16; part++ {
		w.Case(fmt.Sprintf("keys/%d", part), func(c *C) {
			for i, d := range specials() {
				if i%16 != part || d.Sign() == 0 {
					continue
				}
				c.Step(i)
				sigMon{c}.sign(d, c.hash())
				if i%3 == 0 {
					sigMon{c}.compact(d, c.hash(), c.Flip())
				}
			}
		})
	}
	for i := 0; i < w.Scale(120, 6000); i++ {
		w.Case(fmt.Sprintf("random/%d", i), func(c *C) {
			for j := 0; j < 12; j++ {
				d, h := c.NonZero(vref.N), c.hash()
				sigMon{c}.sign(d, h)
				if j%3 == 0 {
					sigMon{c}.compact(d, h, c.Flip())
				}
			}
			c.Sample("12 random keys and hashes of any length")
		})
	}
	// short numbers
	w.Case("short", func(c *C) {
		d := big.NewInt(rareKey)
		for _, i := range rareMsgs {
			h := sha256.Sum256([]byte(fmt.Sprint("message ", i)))
			r, s := vref.SignECDSA(d, h[:])
			if r.BitLen() <= 248 && s.BitLen() <= 248 || r.BitLen() <= 240 || s.BitLen() <= 240 {
				c.Count("short signatures", 1)
			}
			sigMon{c}.sign(d, h[:])
			sigMon{c}.compact(d, h[:], c.Flip())
		}
	})
	// all hash lengths
	w.Case("lengths", func(c *C) {
		for n := 0; n <= 70; n++ {
			d := c.NonZero(vref.N)
			h := c.Bytes(n)
			sigMon{c}.sign(d, h)
			sigMon{c}.compact(d, h, n%2 == 0)
		}
	})
	// constructed signatures
	for i := 0; i < w.Scale(60, 3000); i++ {
		w.Case(fmt.Sprintf("constructed/%d", i), func(c *C) {
			g := vref.Secp{}
			for j := 0; j < 12; j++ {
				h := c.hash()
				e := vref.Bits2Int(h)
				// choose the nonce point, then the key
				R := pick(c, beyond())
				if j%3 == 0 {
					R, _ = c.Point(std())
				}
				r := new(big.Int).Mod(R.X, vref.N)
				if r.Sign() == 0 || R.IsID() {
					continue
				}
				s := c.NonZero(vref.N)
				q := g.Mul(g.Add(g.Mul(R, s), g.Neg(vref.MulG(e))), new(big.Int).ModInverse(r, vref.N))
				if q.IsID() {
					continue
				}
				if (sigMon{c}).decide(q, h, r, s, "constructed") && R.X.Cmp(vref.N) >= 0 {
					c.Count("x beyond the order accepted", 1)
				}
				sigMon{c}.decide(q, h, R.X, s, "constructed, r not reduced")
				sigMon{c}.variants(q, h, r, s)
				var b [65]byte
				r.FillBytes(b[1:33])
				s.FillBytes(b[33:])
				for id := byte(27); id < 37; id++ {
					b[0] = id
					sigMon{c}.recover(b[:], h)
				}
				// nonce point at infinity: e*G + r*Q = 0
				if em := new(big.Int).Mod(e, vref.N); em.Sign() != 0 {
					r = c.NonZero(vref.N)
					d := new(big.Int).Mul(em, new(big.Int).ModInverse(r, vref.N))
					d.Neg(d).Mod(d, vref.N)
					sigMon{c}.decide(vref.MulG(d), h, r, c.NonZero(vref.N), "nonce point at infinity")
					c.Count("nonce point at infinity refused", 1)
					// recovers to infinity: s*R = e*G
					k := c.NonZero(vref.N)
					R := vref.MulG(k)
					s := new(big.Int).Mul(em, new(big.Int).ModInverse(k, vref.N))
					s.Mod(s, vref.N)
					new(big.Int).Mod(R.X, vref.N).FillBytes(b[1:33])
					s.FillBytes(b[33:])
					for id := byte(27); id < 31; id++ {
						b[0] = id
						sigMon{c}.recover(b[:], h)
					}
				}
				// a key whose e*G and r*Q are equal, so that the sum doubles
				if em := new(big.Int).Mod(e, vref.N); em.Sign() != 0 {
					// R = 2 e/s G, r = x(R), Q = e/r G
					s = c.NonZero(vref.N)
					t := new(big.Int).Mul(em, new(big.Int).ModInverse(s, vref.N))
					R := vref.MulG(t.Lsh(t, 1))
					r := new(big.Int).Mod(R.X, vref.N)
					if r.Sign() != 0 {
						d := new(big.Int).Mul(em, new(big.Int).ModInverse(r, vref.N))
						c.Check(sigMon{c}.decide(vref.MulG(d), h, r, s, "doubling") || len(h) == 0, "reference", "doubling case")
					}
				}
			}
		})
	}
	for i := 0; i < w.Scale(40, 2000); i++ {
		w.Case(fmt.Sprintf("arbitrary/%d", i), func(c *C) {
			for j := 0; j < 30; j++ {
				b := c.Bytes(65)
				b[0] = byte(26 + c.R.IntN(11))
				if c.R.IntN(3) == 0 {
					c.Scalar(vref.N).FillBytes(b[1:33])
				}
				if c.R.IntN(4) == 0 {
					c.Scalar(vref.N).FillBytes(b[33:])
				}
				if c.R.IntN(6) == 0 {
					new(big.Int).Add(vref.N, big.NewInt(int64(c.R.IntN(3)-1))).FillBytes(b[33:])
				}
				if c.R.IntN(6) == 0 {
					new(big.Int).Add(vref.N, big.NewInt(int64(c.R.IntN(3)-1))).FillBytes(b[1:33])
				}
				sigMon{c}.recover(b, c.hash())
				q := c.NZPoint(std())
				sigMon{c}.decide(q, c.hash(), c.Int(vref.N), c.Int(vref.N), "arbitrary")
			}
			for n := 0; n < 140; n++ {
				sigMon{c}.recover(c.Bytes(n), c.hash())
			}
			for hd := 0; hd < 256; hd++ {
				d := c.NonZero(vref.N)
				h := c.Bytes(32)
				r, s := vref.SignECDSA(d, h)
				var b [65]byte
				b[0] = byte(hd)
				r.FillBytes(b[1:33])
				s.FillBytes(b[33:])
				if i < 4 {
					sigMon{c}.recover(b[:], h)
				}
			}
		})
	}
}
