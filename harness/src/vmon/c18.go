package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"

	"github.com/mit-dci/zksigma/btcec"

	"vref"
)

func init() {
	register(&Check{ID: "C18", Level: "exploration",
		Rule:  "keys with special and short coordinates in all formats and signatures with special r and s written and read back; public keys with every header, length, swapped parity, coordinates at and beyond the prime, off the curve; signatures assembled from r and s encodings of all sizes, signs and paddings, every single byte of a valid one set to every value, every truncation and extension, and random strings. Every verdict and value compared with independent parsers. Non-trivial: a distinct byte string decided",
		Run:   runC18,
		Floor: map[string]int64{"public keys written": 2500, "public keys accepted": 10000, "public keys refused": 20000, "private keys": 1000, "signatures written": 2000, "strict accepted": 2000, "strict refused": 50000, "lax accepted": 4000, "lax refused": 40000, "lax only": 500}})
}

// refPub parses a public key.
func refPub(b []byte) (vref.Pt, bool) {
	switch {
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		x := new(big.Int).SetBytes(b[1:])
		if x.Cmp(vref.P) >= 0 {
			return vref.Pt{}, false
		}
		y := vref.SqrtY(x)
		if y == nil {
			return vref.Pt{}, false
		}
		if y.Bit(0) != uint(b[0]&1) {
			y.Sub(vref.P, y)
		}
		return vref.Pt{X: x, Y: y}, true
	case len(b) == 65 && (b[0] == 4 || b[0] == 6 || b[0] == 7):
		p := vref.Pt{X: new(big.Int).SetBytes(b[1:33]), Y: new(big.Int).SetBytes(b[33:])}
		if b[0] != 4 && p.Y.Bit(0) != uint(b[0]&1) {
			return vref.Pt{}, false
		}
		return p, vref.Secp{}.OnCurve(p)
	}
	return vref.Pt{}, false
}

// refSig parses a signature.
func refSig(b []byte, strict bool) (r, s *big.Int, err error) {
	bad := errors.New("bad")
	if len(b) < 2 || b[0] != 0x30 || len(b) < 2+int(b[1]) {
		return nil, nil, bad
	}
	b = b[2 : 2+int(b[1])]
	var v [2]*big.Int
	for i := range v {
		if len(b) < 3 || b[0] != 2 || b[1] == 0 || len(b) < 2+int(b[1]) {
			return nil, nil, bad
		}
		x := b[2 : 2+int(b[1])]
		b = b[2+len(x):]
		if strict && (x[0] >= 0x80 || len(x) > 1 && x[0] == 0 && x[1] < 0x80) {
			return nil, nil, bad
		}
		v[i] = new(big.Int).SetBytes(x)
		if v[i].Sign() == 0 || v[i].Cmp(vref.N) >= 0 {
			return nil, nil, bad
		}
	}
	if len(b) != 0 {
		return nil, nil, bad
	}
	return v[0], v[1], nil
}

func c18pub(c *C, b []byte) {
	want, ok := refPub(b)
	in := bytes.Clone(b)
	k, err := btcec.ParsePubKey(in, btcec.S256())
	c.Check((err == nil) == ok && (k != nil) == ok, "pubkey", "parsing the public key %x gives %v, %v", b, k, err)
	if ok && k != nil {
		c.Check(rp2(k).Eq(want), "pubkey", "parsing the public key %x gives (%x,%x), not (%x,%x)", b, k.X, k.Y, want.X, want.Y)
		c.Count("public keys accepted", 1)
		c.Check(btcec.IsCompressedPubKey(b) == (len(b) == 33), "compressed", "IsCompressedPubKey(%x) is %v", b, btcec.IsCompressedPubKey(b))
		switch len(b) {
		case 33:
			c.Check(bytes.Equal(k.SerializeCompressed(), b), "write", "%x is written as %x", b, k.SerializeCompressed())
		default:
			g := k.SerializeUncompressed()
			if b[0] != 4 {
				g = k.SerializeHybrid()
			}
			c.Check(bytes.Equal(g, b), "write", "%x is written as %x", b, g)
		}
		c.Check(bytes.Equal(in, b), "changed", "parsing changes the input")
	} else if !ok {
		c.Count("public keys refused", 1)
		w := len(b) == 33 && (b[0] == 2 || b[0] == 3)
		c.Check(btcec.IsCompressedPubKey(b) == w, "compressed", "IsCompressedPubKey(%x) is %v", b, btcec.IsCompressedPubKey(b))
	}
	c.Distinct(b)
}

func pad32(v *big.Int) []byte {
	b := make([]byte, 32)
	if v.BitLen() > 256 {
		v = new(big.Int).And(v, max256)
	}
	return v.FillBytes(b)
}

func c18key(c *C, p vref.Pt) {
	k := pubKey(p)
	x, y := pad32(p.X), pad32(p.Y)
	par := byte(p.Y.Bit(0))
	un := append(append([]byte{4}, x...), y...)
	co := append([]byte{2 + par}, x...)
	hy := append(append([]byte{6 + par}, x...), y...)
	c.Check(bytes.Equal(k.SerializeUncompressed(), un) && bytes.Equal(k.SerializeCompressed(), co) && bytes.Equal(k.SerializeHybrid(), hy), "write",
		"(%x,%x) is written as %x, %x, %x", p.X, p.Y, k.SerializeUncompressed(), k.SerializeCompressed(), k.SerializeHybrid())
	c.Count("public keys written", 1)
	for _, b := range [][]byte{un, co, hy} {
		c18pub(c, b)
		if q, err := btcec.ParsePubKey(b, btcec.S256()); err == nil {
			c.Check(q.IsEqual(k) && k.IsEqual(q), "isequal", "the key read is not equal to the one written")
			neg := pubKey(vref.Secp{}.Neg(p))
			c.Check(!neg.IsEqual(q) && !q.IsEqual(neg) && !q.IsEqual(pubKey(phi(p))), "isequal", "opposite keys are equal")
		}
		for h := 0; h < 10; h++ {
			t := bytes.Clone(b)
			t[0] = byte(h)
			c18pub(c, t)
		}
		t := bytes.Clone(b)
		t[0] ^= 1 << uint(c.R.IntN(8))
		c18pub(c, t)
		t = bytes.Clone(b)
		t[1+c.R.IntN(len(t)-1)] ^= 1 << uint(c.R.IntN(8))
		c18pub(c, t)
		t = bytes.Clone(b)
		t[len(t)-1] ^= 1
		c18pub(c, t)
		c18pub(c, b[:c.R.IntN(len(b))])
		c18pub(c, append(bytes.Clone(b), c.Bytes(1+c.R.IntN(33))...))
	}
	// unreduced coordinates
	if v := new(big.Int).Add(p.X, vref.P); v.BitLen() <= 256 {
		for h := byte(0); h < 8; h++ {
			c18pub(c, append(append([]byte{h}, pad32(v)...), y...))
			c18pub(c, append([]byte{h}, pad32(v)...))
		}
	}
	if v := new(big.Int).Add(p.Y, vref.P); v.BitLen() <= 256 {
		for h := byte(4); h < 8; h++ {
			c18pub(c, append(append([]byte{h}, x...), pad32(v)...))
		}
	}
	// the other y
	for h := byte(4); h < 8; h++ {
		c18pub(c, append(append([]byte{h}, x...), pad32(new(big.Int).Sub(vref.P, p.Y))...))
		c18pub(c, append(append([]byte{h}, y...), x...))
	}
}

func c18sig(c *C, b []byte) {
	var got [2]bool
	for i, strict := range []bool{false, true} {
		r, s, werr := refSig(b, strict)
		in := bytes.Clone(b)
		var g *btcec.Signature
		var err error
		name := "lax"
		if strict {
			name = "strict"
			g, err = btcec.ParseDERSignature(in, btcec.S256())
		} else {
			g, err = btcec.ParseSignature(in, btcec.S256())
		}
		ok := werr == nil
		got[i] = ok
		c.Check((err == nil) == ok && (g != nil) == ok, "signature", "%s parsing of %x gives %v, %v", name, b, g, err)
		if ok && g != nil {
			c.Check(g.R.Cmp(r) == 0 && g.S.Cmp(s) == 0, "signature", "%s parsing of %x gives %x, %x", name, b, g.R, g.S)
			c.Check(bytes.Equal(in, b), "changed", "parsing changes the input")
			if strict && new(big.Int).Lsh(s, 1).Cmp(vref.N) < 0 {
				c.Check(bytes.Equal(g.Serialize(), b[:2+int(b[1])]), "write", "%x is written as %x", b, g.Serialize())
			}
		}
		if ok {
			c.Count(name+" accepted", 1)
		} else {
			c.Count(name+" refused", 1)
		}
	}
	if got[0] && !got[1] {
		c.Count("lax only", 1)
	}
	c.Distinct(b)
}

// refInt is the DER content of an integer.
func refInt(v *big.Int) []byte {
	b := v.Bytes()
	if len(b) == 0 || b[0] >= 0x80 {
		b = append([]byte{0}, b...)
	}
	return b
}

func asm(r, s []byte) []byte {
	b := []byte{0x30, byte(4 + len(r) + len(s)), 2, byte(len(r))}
	b = append(b, r...)
	b = append(b, 2, byte(len(s)))
	return append(b, s...)
}

// c18write decides the serialization of a signature.
func c18write(c *C, r, s *big.Int) []byte {
	low := cp(s)
	if new(big.Int).Lsh(low, 1).Cmp(vref.N) > 0 {
		low.Sub(vref.N, low)
	}
	want := asm(refInt(r), refInt(low))
	sg := &btcec.Signature{R: cp(r), S: cp(s)}
	got := sg.Serialize()
	c.Check(bytes.Equal(got, want), "write", "(%x, %x) is written as %x, not %x", r, s, got, want)
	c.Check(sg.S.Cmp(s) == 0 && sg.R.Cmp(r) == 0, "changed", "writing changes the signature")
	c.Count("signatures written", 1)
	c18sig(c, got)
	c18sig(c, asm(refInt(r), refInt(s)))
	return want
}

func (c *C) sigInt() []byte {
	v := c.Scalar(vref.N)
	b := refInt(v)
	switch c.R.IntN(12) {
	case 0:
		b = append([]byte{0}, b...)
	case 1:
		b = append(make([]byte, c.R.IntN(100)), b...)
	case 2:
		b = v.Bytes() // may look negative
	case 3:
		b = refInt(new(big.Int).Add(vref.N, big.NewInt(int64(c.R.IntN(3)-1))))
	case 4:
		b = bytes.Repeat([]byte{0xff}, c.R.IntN(40))
	case 5:
		b = make([]byte, c.R.IntN(4))
	case 6:
		b = append([]byte{0}, bytes.Repeat([]byte{0xff}, 32)...)
	case 7:
		b = refInt(new(big.Int).Add(v, vref.N))
	}
	return b
}

func runC18(w *W) {
	reuse(w, 1, w.Scale(4, 40), 40, "Serialize signature", "Parse signature", "Serialize key", "Parse keys", "IsEqual")
	for part := 0; part < 16; part++ {
		w.Case(fmt.Sprintf("keys/%d", part), func(c *C) {
			for i, d := range specials() {
				if i%16 != part || d.Sign() == 0 {
					continue
				}
				c.Step(i)
				c18key(c, vref.MulG(d))
				// private keys
				k, pk := btcec.PrivKeyFromBytes(btcec.S256(), d.Bytes())
				k2, pk2 := btcec.PrivKeyFromBytes(btcec.S256(), pad32(d))
				c.Check(bytes.Equal(k.Serialize(), pad32(d)) && bytes.Equal(k2.Serialize(), pad32(d)), "private", "%x is written as %x", d, k.Serialize())
				c.Check(k.D.Cmp(d) == 0 && k2.D.Cmp(d) == 0, "private", "%x is read as %x", d, k.D)
				q := vref.MulG(d)
				c.Check(rp2(pk).Eq(q) && rp2(pk2).Eq(q) && rp2(k.PubKey()).Eq(q), "private", "the public key of %x is (%x,%x)", d, pk.X, pk.Y)
				c.Check(k.ToECDSA().D.Cmp(d) == 0 && pk.ToECDSA().X.Cmp(q.X) == 0, "private", "ToECDSA")
				c.Count("private keys", 1)
				// any number of bytes
				b := append(c.Bytes(c.R.IntN(40)), pad32(d)...)
				if c.Flip() {
					b = c.Bytes(1 + c.R.IntN(90))
				}
				x := new(big.Int).SetBytes(b)
				_, pk = btcec.PrivKeyFromBytes(btcec.S256(), b)
				c.Check(rp2(pk).Eq(vref.MulG(new(big.Int).Mod(x, vref.N))), "private", "the public key of %x is (%x,%x)", b, pk.X, pk.Y)
				c.Count("private keys of any length", 1)
				if i%3 == 0 {
					p := vref.MulH(d)
					c18key(c, p)
				}
			}
		})
	}
	for i := 0; i < w.Scale(40, 2000); i++ {
		w.Case(fmt.Sprintf("points/%d", i), func(c *C) {
			for j := 0; j < 20; j++ {
				c18key(c, c.NZPoint(std()))
				// x at random: half of them have no point
				x := c.fieldX()
				for h := byte(0); h < 8; h++ {
					c18pub(c, append([]byte{h}, pad32(x)...))
					c18pub(c, append(append([]byte{h}, pad32(x)...), pad32(c.fieldX())...))
				}
				c18pub(c, c.Bytes(c.R.IntN(80)))
			}
		})
	}
	w.Case("small", func(c *C) {
		for x := int64(0); x < 64; x++ {
			for _, v := range []*big.Int{big.NewInt(x), new(big.Int).Sub(vref.P, big.NewInt(x)), new(big.Int).Add(vref.P, big.NewInt(x))} {
				for h := 0; h < 256; h++ {
					c18pub(c, append([]byte{byte(h)}, pad32(v)...))
				}
				if y := vref.SqrtY(v); y != nil {
					c18key(c, vref.Pt{X: new(big.Int).Mod(v, vref.P), Y: y})
				}
			}
		}
		for n := 0; n < 140; n++ {
			for h := byte(0); h < 9; h++ {
				b := make([]byte, n)
				if n > 0 {
					b[0] = h
				}
				c18pub(c, b)
				if n > 0 {
					c.src.Read(b[1:])
				}
				c18pub(c, b)
			}
		}
		for h := 0; h < 256; h++ {
			b := pubKey(vref.G).SerializeUncompressed()
			b[0] = byte(h)
			c18pub(c, b)
		}
		c.Sample("x from 0 to 63, around the prime, with all headers")
	})
	for i := 0; i < w.Scale(80, 4000); i++ {
		w.Case(fmt.Sprintf("signatures/%d", i), func(c *C) {
			for j := 0; j < 40; j++ {
				b := c18write(c, c.NonZero(vref.N), c.NonZero(vref.N))
				for k := 0; k < 30; k++ {
					t := asm(c.sigInt(), c.sigInt())
					c18sig(c, t)
					if k%3 == 0 {
						t = bytes.Clone(b)
					}
					for m := 0; m <= c.R.IntN(2); m++ {
						switch c.R.IntN(6) {
						case 0:
							t[c.R.IntN(len(t))] = byte(c.R.IntN(256))
						case 1:
							t = t[:c.R.IntN(len(t))]
						case 2:
							t = append(t, c.Bytes(c.R.IntN(4))...)
						case 3:
							t[1] += byte(c.R.IntN(5)) - 2
						case 4:
							if len(t) > 4 {
								t[3] += byte(c.R.IntN(5)) - 2
							}
						case 5:
							if len(t) > 6 && 5+int(t[3]) < len(t) {
								t[5+int(t[3])] += byte(c.R.IntN(5)) - 2
							}
						}
						if len(t) < 2 {
							t = []byte{0x30, 6}
						}
						c18sig(c, t)
					}
				}
				c18sig(c, c.Bytes(c.R.IntN(90)))
			}
		})
	}
	w.Case("special signatures", func(c *C) {
		sp := specials()
		for i, r := range sp {
			s := sp[(i*7+3)%len(sp)]
			if r.Sign() != 0 && s.Sign() != 0 {
				c18write(c, r, s)
			}
		}
		half := new(big.Int).Rsh(vref.N, 1)
		for d := int64(-3); d <= 3; d++ {
			c18write(c, big.NewInt(5), new(big.Int).Add(half, big.NewInt(d)))
			c18write(c, big.NewInt(d&1), big.NewInt(d>>1&1)) // zero has one byte, too
			for e := int64(-3); e <= 3; e++ {
				c18sig(c, asm(refInt(new(big.Int).Add(vref.N, big.NewInt(d))), refInt(new(big.Int).Add(vref.N, big.NewInt(e)))))
				c18sig(c, asm(refInt(new(big.Int).Abs(big.NewInt(d))), refInt(new(big.Int).Abs(big.NewInt(e)))))
			}
		}
		// one-byte and short integers
		for r := 0; r < 256; r++ {
			c18sig(c, asm([]byte{byte(r)}, []byte{1}))
			c18sig(c, asm([]byte{1}, []byte{byte(r)}))
			c18sig(c, asm([]byte{0, byte(r)}, []byte{0, byte(r)}))
			c18sig(c, asm([]byte{0}, []byte{byte(r)}))
		}
	})
	for part := 0; part < 8; part++ {
		w.Case(fmt.Sprintf("bytes/%d", part), func(c *C) {
			r, s := c.Uni(vref.N), c.Uni(vref.N)
			if part%2 == 0 {
				r, s = c.NonZero(vref.N), c.NonZero(vref.N)
			}
			b := asm(refInt(r), refInt(s))
			for p := range b {
				for v := 0; v < 256; v++ {
					t := bytes.Clone(b)
					t[p] = byte(v)
					c18sig(c, t)
				}
				c18sig(c, b[:p])
			}
			for n := 0; n < 300; n += 7 {
				c18sig(c, append(bytes.Clone(b), make([]byte, n)...))
			}
			// long paddings, also with a stated length of 128 and more
			for n := 0; n < 120; n += 3 {
				c18sig(c, asm(append(make([]byte, n), refInt(r)...), refInt(s)))
				c18sig(c, asm(append(make([]byte, n), refInt(r)...), append(make([]byte, 60), refInt(s)...)))
			}
		})
	}
}

// fieldX is a 256-bit integer, sometimes at or beyond the prime.
func (c *C) fieldX() *big.Int {
	switch c.R.IntN(4) {
	case 0:
		return new(big.Int).Add(vref.P, c.big(new(big.Int).Sub(two(256), vref.P)))
	case 1:
		return new(big.Int).Sub(vref.P, c.big(two(40)))
	}
	return c.big(two(256))
}
