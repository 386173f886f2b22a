package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/mit-dci/zksigma/btcec"

	"vref"
)

func init() {
	register(&Check{ID: "C15", Level: "exploration",
		Rule:  "every entry of both tables (each byte at each position); the three multiplications with all special scalars, i+j*lambda for |i|,|j| up to 40, the order plus 0 to 600 and multiples of it, all lengths from 0 to 70 bytes with and without leading zeros, runs, sparse and random strings; sums and doublings of special and random pairs; on-curve test for points, near misses, foreign and unreduced coordinates; NAF of all one- and two-byte strings and of random ones. Compared with the independent group implementation. Non-trivial: a distinct operand",
		Run:   runC15,
		Floor: map[string]int64{"table entries": 16384, "multiplications": 20000, "base multiplications": 30000, "naf": 65000, "sums": 5000, "doublings": 500, "on-curve tests": 3000, "scalars not below the order": 1500}})
}

type curveMon struct{ c *C }

func (m curveMon) base(k []byte) {
	kk := new(big.Int).SetBytes(k)
	if kk.Cmp(vref.N) >= 0 {
		m.c.Count("scalars not below the order", 1)
	}
	cur := btcec.S256()
	x, y := cur.ScalarBaseMult(bytes.Clone(k))
	w := vref.MulG(kk)
	m.c.Check(x.Cmp(w.X) == 0 && y.Cmp(w.Y) == 0, "base", "%x*G is (%x,%x), not (%x,%x)", k, x, y, w.X, w.Y)
	x, y = cur.ScalarBaseMultH(bytes.Clone(k))
	w = vref.MulH(kk)
	m.c.Check(x.Cmp(w.X) == 0 && y.Cmp(w.Y) == 0, "baseH", "%x*H is (%x,%x), not (%x,%x)", k, x, y, w.X, w.Y)
	m.c.Count("base multiplications", 2)
	m.c.Distinct(k, len(k))
}

func (m curveMon) mult(p vref.Pt, k []byte) {
	x, y := btcec.S256().ScalarMult(cp(p.X), cp(p.Y), bytes.Clone(k))
	w := vref.Secp{}.Mul(p, new(big.Int).SetBytes(k))
	m.c.Check(x.Cmp(w.X) == 0 && y.Cmp(w.Y) == 0, "mult", "%x*(%x,%x) is (%x,%x), not (%x,%x)", k, p.X, p.Y, x, y, w.X, w.Y)
	m.c.Count("multiplications", 1)
	m.c.Distinct(k, p)
}

func (m curveMon) all(p vref.Pt, k []byte) {
	m.base(k)
	m.mult(p, k)
}

func (m curveMon) pair(p, q vref.Pt) {
	cur := btcec.S256()
	x, y := cur.Add(cp(p.X), cp(p.Y), cp(q.X), cp(q.Y))
	w := vref.Secp{}.Add(p, q)
	m.c.Check(x.Cmp(w.X) == 0 && y.Cmp(w.Y) == 0, "add", "(%x,%x)+(%x,%x) is (%x,%x), not (%x,%x)", p.X, p.Y, q.X, q.Y, x, y, w.X, w.Y)
	m.c.Count("sums", 1)
	m.c.Distinct(p, q)
}

func (m curveMon) dbl(p vref.Pt) {
	x, y := btcec.S256().Double(cp(p.X), cp(p.Y))
	w := vref.Secp{}.Add(p, p)
	m.c.Check(x.Cmp(w.X) == 0 && y.Cmp(w.Y) == 0, "double", "2(%x,%x) is (%x,%x), not (%x,%x)", p.X, p.Y, x, y, w.X, w.Y)
	m.c.Count("doublings", 1)
}

func (m curveMon) on(p vref.Pt) {
	g, w := btcec.S256().IsOnCurve(cp(p.X), cp(p.Y)), vref.Secp{}.OnCurve(p)
	m.c.Check(g == w, "oncurve", "IsOnCurve(%x,%x) is %v", p.X, p.Y, g)
	m.c.Count("on-curve tests", 1)
}

func (m curveMon) naf(k []byte) {
	pos, neg := btcec.NAF(bytes.Clone(k))
	a, b := new(big.Int).SetBytes(pos), new(big.Int).SetBytes(neg)
	if d := new(big.Int).Sub(a, b); d.Cmp(new(big.Int).SetBytes(k)) != 0 {
		m.c.Violation("naf", "NAF of %x is %x, %x, whose difference is %x", k, pos, neg, d)
	}
	// digits of both sets: none in common, no two adjacent
	u := new(big.Int).Or(a, b)
	if new(big.Int).And(a, b).Sign() != 0 || new(big.Int).And(u, new(big.Int).Lsh(u, 1)).Sign() != 0 {
		m.c.Violation("naf", "NAF of %x is %x, %x, with adjacent digits", k, pos, neg)
	}
	if len(pos) != len(neg) {
		m.c.Violation("naf", "NAF of %x has lengths %d and %d", k, len(pos), len(neg))
	}
	m.c.Count("naf", 1)
}

func runC15(w *W) {
	reuse(w, 2, w.Scale(4, 40), 40)
	w.Case("constants", func(c *C) {
		cur := btcec.S256()
		pr := cur.Params()
		c.Check(pr.P.Cmp(vref.P) == 0 && pr.N.Cmp(vref.N) == 0 && pr.B.Cmp(big.NewInt(7)) == 0 && pr.Gx.Cmp(vref.G.X) == 0 && pr.Gy.Cmp(vref.G.Y) == 0 && pr.BitSize == 256,
			"constants", "parameters %v", pr)
		c.Check(cur.H == 1, "constants", "cofactor %d", cur.H)
		q := new(big.Int).Rsh(new(big.Int).Add(vref.P, one()), 2)
		c.Check(cur.QPlus1Div4().Cmp(q) == 0, "constants", "(q+1)/4 is %x", cur.QPlus1Div4())
		c.Check(btcec.S256() == cur, "constants", "S256 gives different curves")
	})
	for pos := 0; pos < 32; pos++ {
		w.Case(fmt.Sprintf("table/%d", pos), func(c *C) {
			for b := 0; b < 256; b++ {
				k := make([]byte, 32)
				k[pos] = byte(b)
				curveMon{c}.base(k)
				// without leading zeros, the same entry
				curveMon{c}.base(k[pos:])
				c.Count("table entries", 2)
			}
			c.Sample("byte %d of the scalar: all 256 values, both generators", pos)
		})
	}
	for part := 0; part < 16; part++ {
		w.Case(fmt.Sprintf("specials/%d", part), func(c *C) {
			pts := specialPts(c, std())
			for i, s := range specials() {
				if i%16 != part {
					continue
				}
				c.Step(i)
				k := s.Bytes()
				curveMon{c}.all(pick(c, pts), k)
				curveMon{c}.mult(vref.G, k)
				pad := append(make([]byte, c.R.IntN(40)), k...)
				curveMon{c}.all(pick(c, pts), pad)
				big := new(big.Int).Add(s, new(big.Int).Mul(vref.N, c.big(new(big.Int).Lsh(one(), uint(c.R.IntN(200))))))
				curveMon{c}.all(pick(c, pts), big.Bytes())
			}
		})
		w.Case(fmt.Sprintf("order/%d", part), func(c *C) {
			pts := specialPts(c, std())
			for i := int64(part); i <= 600; i += 16 {
				k := new(big.Int).Add(vref.N, big.NewInt(i))
				curveMon{c}.all(pick(c, pts), k.Bytes())
				curveMon{c}.all(pick(c, pts), new(big.Int).Sub(new(big.Int).Lsh(one(), 256), big.NewInt(1+i)).Bytes())
				k.Add(k, new(big.Int).Mul(vref.N, big.NewInt(int64(1+c.R.IntN(300)))))
				curveMon{c}.all(pick(c, pts), k.Bytes())
				k.Sub(vref.N, big.NewInt(i))
				curveMon{c}.all(pick(c, pts), k.Bytes())
				// partial sums that meet the next entry again: k = N + d*256^i
				j := uint(c.R.IntN(16))
				for _, d := range []int64{i, i + 1, -i} {
					k.Add(vref.N, new(big.Int).Lsh(big.NewInt(d), 8*j))
					if k.BitLen() <= 256 {
						curveMon{c}.all(pick(c, pts), k.Bytes())
					}
				}
				c.Step(int(i))
			}
		})
	}
	// every byte of the order plus twice itself: the additions in base
	// multiplication then meet equal and opposite points
	w.Case("meet", func(c *C) {
		nb := vref.N.Bytes()
		for pos := 31; pos >= 16; pos-- {
			for d := 0; d < 256; d++ {
				// k = N + x*256^(31-pos) for x that makes the tail equal to the head
				k := new(big.Int).Add(vref.N, new(big.Int).Lsh(big.NewInt(int64(2*d)), uint(8*(31-pos))))
				if k.BitLen() > 256 {
					continue
				}
				curveMon{c}.base(k.Bytes())
			}
			_ = nb
		}
	})
	lim := int64(w.Scale(40, 160))
	for i := -lim; i <= lim; i++ {
		w.Case(fmt.Sprintf("lambda/%d", i), func(c *C) {
			pts := specialPts(c, std())
			for j := -lim; j <= lim; j++ {
				k := new(big.Int).Mul(lambda, big.NewInt(i))
				k.Add(k, big.NewInt(j)).Mod(k, vref.N)
				p := pts[1+c.R.IntN(len(pts)-1)]
				if j&1 == 0 {
					p = vref.G
				}
				curveMon{c}.mult(p, k.Bytes())
				c.Step(int(j + lim))
			}
		})
	}
	// split scalars: a + b*lambda for structured halves
	for i := 0; i < w.Scale(64, 3000); i++ {
		w.Case(fmt.Sprintf("halves/%d", i), func(c *C) {
			for j := 0; j < 40; j++ {
				h := func() *big.Int {
					var x *big.Int
					switch c.R.IntN(5) {
					case 0:
						x = new(big.Int).Lsh(one(), uint(c.R.IntN(129)))
					case 1:
						x = new(big.Int).Sub(new(big.Int).Lsh(one(), uint(c.R.IntN(129))), one())
					case 2:
						x = c.big(new(big.Int).Lsh(one(), uint(1+c.R.IntN(128))))
					case 3:
						x = new(big.Int).SetBytes(bytes.Repeat([]byte{pick(c, []byte{0x55, 0xaa, 0x0f, 0xf0, 0xff, 0x80, 0x01, 0x7f})}, c.R.IntN(17)))
					default:
						x = big.NewInt(int64(c.R.IntN(4)))
					}
					if c.Flip() {
						x.Neg(x)
					}
					return x
				}
				k := new(big.Int).Mul(h(), lambda)
				k.Add(k, h()).Mod(k, vref.N)
				p, _ := c.Point(std())
				curveMon{c}.mult(p, k.Bytes())
			}
		})
	}
	w.Case("lengths", func(c *C) {
		pts := specialPts(c, std())
		for n := 0; n <= 70; n++ {
			for _, k := range [][]byte{make([]byte, n), bytes.Repeat([]byte{0xff}, n), c.Bytes(n), append(make([]byte, n), c.Bytes(32)...), append(make([]byte, n), vref.N.Bytes()...)} {
				curveMon{c}.all(pick(c, pts), k)
				curveMon{c}.all(vref.G, k)
			}
		}
		for _, n := range []int{100, 255, 256, 1000, 5000} {
			curveMon{c}.all(pick(c, pts), c.Bytes(n))
		}
	})
	for i := 0; i < w.Scale(200, 20000); i++ {
		w.Case(fmt.Sprintf("random/%d", i), func(c *C) {
			for j := 0; j < 20; j++ {
				p, _ := c.Point(std())
				q, _ := c.Point(std())
				var k []byte
				switch c.R.IntN(4) {
				case 0:
					k = c.Bytes(32)
				case 1:
					k = c.Scalar(vref.N).Bytes()
				case 2:
					k = c.Bytes(c.R.IntN(66))
				case 3:
					k = c.Bytes(32)
					for m := 0; m < 16; m++ {
						k[c.R.IntN(32)] = pick(c, []byte{0, 0xff})
					}
				}
				curveMon{c}.all(p, k)
				curveMon{c}.naf(k)
				switch c.R.IntN(5) {
				case 0:
					q = p
				case 1:
					q = vref.Secp{}.Neg(p)
				case 2:
					q = phi(p)
				}
				curveMon{c}.pair(p, q)
				curveMon{c}.dbl(p)
				curveMon{c}.on(p)
				x := c.big(vref.P)
				curveMon{c}.on(vref.Pt{X: x, Y: c.big(vref.P)})
				if y := vref.SqrtY(x); y != nil {
					curveMon{c}.on(vref.Pt{X: x, Y: y})
					curveMon{c}.on(vref.Pt{X: x, Y: new(big.Int).Sub(vref.P, y)})
					curveMon{c}.on(vref.Pt{X: x, Y: new(big.Int).Xor(y, new(big.Int).Lsh(one(), uint(c.R.IntN(256))))})
					curveMon{c}.on(vref.Pt{X: new(big.Int).Xor(x, new(big.Int).Lsh(one(), uint(c.R.IntN(256)))), Y: y})
					curveMon{c}.dbl(vref.Pt{X: x, Y: y})
					curveMon{c}.pair(vref.Pt{X: x, Y: y}, q)
				}
				if !p.IsID() {
					// the same residues, unreduced or with other values in between
					curveMon{c}.on(vref.Pt{X: new(big.Int).Add(p.X, vref.P), Y: p.Y})
					curveMon{c}.on(vref.Pt{X: p.X, Y: new(big.Int).Add(p.Y, vref.P)})
					curveMon{c}.on(vref.Pt{X: p.X, Y: new(big.Int).Neg(p.Y)})
					curveMon{c}.on(vref.Pt{X: new(big.Int).Add(p.X, new(big.Int).Lsh(one(), 256)), Y: p.Y})
					curveMon{c}.on(vref.Pt{X: p.X, Y: new(big.Int).Add(p.Y, one())})
					curveMon{c}.on(vref.Pt{X: p.Y, Y: p.X})
				}
			}
		})
	}
	w.Case("pairs", func(c *C) {
		l := specialPts(c, std())
		for _, p := range l {
			for _, q := range l {
				curveMon{c}.pair(p, q)
			}
			curveMon{c}.dbl(p)
			if !p.IsID() {
				curveMon{c}.on(p)
			}
		}
		curveMon{c}.on(vref.ID())
		for x := int64(0); x < 40; x++ {
			for y := int64(0); y < 40; y++ {
				curveMon{c}.on(vref.Pt{X: big.NewInt(x), Y: big.NewInt(y)})
			}
			if y := vref.SqrtY(big.NewInt(x)); y != nil {
				curveMon{c}.on(vref.Pt{X: big.NewInt(x), Y: y})
				curveMon{c}.dbl(vref.Pt{X: big.NewInt(x), Y: y})
			}
		}
	})
	for part := 0; part < 16; part++ {
		w.Case(fmt.Sprintf("naf/%d", part), func(c *C) {
			if part == 0 {
				curveMon{c}.naf(nil)
				for i := 0; i < 256; i++ {
					curveMon{c}.naf([]byte{byte(i)})
				}
			}
			for i := part << 12; i < (part+1)<<12; i++ {
				curveMon{c}.naf([]byte{byte(i >> 8), byte(i)})
			}
			for i := 0; i < w.Scale(1000, 100000); i++ {
				k := c.Bytes(c.R.IntN(40))
				if i%20 == 0 {
					k = c.Bytes(c.R.IntN(1100))
				}
				for m := 0; m < c.R.IntN(30) && len(k) > 0; m++ {
					k[c.R.IntN(len(k))] = pick(c, []byte{0, 0xff, 0x80, 1, 0xaa, 0x55})
				}
				curveMon{c}.naf(k)
			}
		})
	}
}
