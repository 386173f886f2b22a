//go:build c16

package main

import (
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/mit-dci/zksigma/btcec"

	"vref"
)

func init() {
	register(&Check{ID: "C16", Level: "exploration",
		Rule:  "a register machine of field values runs random programs of all operations (aliased operands included) that respect the magnitude limits, next to integers modulo the prime; every result is normalized, compared and converted in a copy, and every operand must keep its value. Operands are special: every word 0, full or in between, values around 0, the prime and 2^256, sums that are a small number modulo the prime in every magnitude, factors with a chosen product. Non-trivial: a distinct operand or program result",
		Run:   runC16,
		Floor: map[string]int64{"operations": 400000, "normalizations": 400000, "multiplications": 60000, "squarings": 20000, "inversions": 1000, "magnitude above 8 normalized": 10000, "magnitude above 32 normalized": 2000, "operands of magnitude 8 multiplied": 1000, "comparisons": 20000, "results below 2^33": 5000, "aliased operands": 5000}})
}

// freg is a field value with its shadow.
type freg struct {
	f    btcec.VField
	v    *big.Int // residue
	m    int      // magnitude
	norm bool
	raw  bool // only ever made from bytes and sums: words at most m times full
}

type fmon struct {
	c *C
	n int64
}

// words makes a 256-bit integer from ten extreme or random words.
func (c *C) words() *big.Int {
	r := new(big.Int)
	for i := 9; i >= 0; i-- {
		bits := uint(26)
		if i == 9 {
			bits = 22
		}
		full := uint64(1)<<bits - 1
		var w uint64
		switch c.R.IntN(6) {
		case 0:
			w = 0
		case 1, 2:
			w = full
		case 3:
			w = full - uint64(c.R.IntN(4))
		case 4:
			w = uint64(1) << uint(c.R.IntN(int(bits)))
		case 5:
			w = c.R.Uint64() & full
		}
		r.Lsh(r, bits)
		r.Or(r, new(big.Int).SetUint64(w))
	}
	return r
}

// fieldInt is a 256-bit integer, at or above the prime now and then.
func (c *C) fieldInt() *big.Int {
	switch c.R.IntN(9) {
	case 0:
		return c.big(two(256))
	case 1:
		return big.NewInt(int64(c.R.IntN(5)))
	case 2: // around the prime
		d := c.big(two(uint(1 + c.R.IntN(34))))
		r := new(big.Int).Sub(vref.P, d)
		if c.Flip() {
			r.Add(vref.P, d)
		}
		if r.Cmp(max256) > 0 {
			r.Set(max256)
		}
		return r
	case 3:
		return new(big.Int).Sub(max256, big.NewInt(int64(c.R.IntN(3))))
	case 4: // around a power of two
		r := new(big.Int).Add(two(uint(c.R.IntN(256))), big.NewInt(int64(c.R.IntN(5)-2)))
		return r.And(r.Abs(r), max256)
	case 5: // around a word border
		r := new(big.Int).Add(two(uint(26*c.R.IntN(10))), big.NewInt(int64(c.R.IntN(3)-1)))
		return r.And(r.Abs(r), max256)
	}
	return c.words()
}

func (m *fmon) load(r *freg, v *big.Int) {
	var b [32]byte
	v.FillBytes(b[:])
	done := false
	switch m.c.R.IntN(4) {
	case 0:
		done = r.f.SetByteSlice(b[:])
	case 1:
		done = r.f.SetByteSlice(v.Bytes())
	case 2:
		done = r.f.SetBytes(&b)
	}
	if !done {
		s := hex.EncodeToString(b[:])
		if m.c.Flip() {
			s = fmt.Sprintf("%x", v)
		}
		r.f.SetHex(s)
	}
	r.v = new(big.Int).Mod(v, vref.P)
	r.m, r.norm, r.raw = 1, v.Cmp(vref.P) < 0, true
}

// see decides the value of r in a copy.
func (m *fmon) see(r *freg, what string, args ...interface{}) {
	m.n++
	if m.n%256 == 0 {
		m.c.Step(0)
	}
	var t btcec.VField
	t.Set(&r.f)
	t.Normalize()
	m.is(&t, r.v, what, args)
	m.c.Count("normalizations", 1)
	if r.m > 8 {
		m.c.Count("magnitude above 8 normalized", 1)
	}
	if r.m > 32 {
		m.c.Count("magnitude above 32 normalized", 1)
	}
	if r.v.BitLen() <= 33 {
		m.c.Count("results below 2^33", 1)
	}
	if r.norm {
		m.is(&r.f, r.v, what+", not normalized again", args)
	}
}

// is decides a normalized value.
func (m *fmon) is(f *btcec.VField, v *big.Int, what string, args []interface{}) {
	var want [32]byte
	v.FillBytes(want[:])
	var got [32]byte
	if !f.PutBytes(&got) {
		b, _ := hex.DecodeString(f.String())
		copy(got[:], b)
	}
	if got != want {
		m.c.Violation("value", "%s %v: %x, not %x", what, fmt.Sprintf("%x", args), got, want)
	}
	if f.IsZero() != (v.Sign() == 0) {
		m.c.Violation("iszero", "%s %v: IsZero of %x is %v", what, fmt.Sprintf("%x", args), v, f.IsZero())
	}
	if f.IsOdd() != (v.Bit(0) == 1) {
		m.c.Violation("isodd", "%s %v: IsOdd of %x is %v", what, fmt.Sprintf("%x", args), v, f.IsOdd())
	}
	if m.n%16 == 0 {
		if b, ok := f.Bytes(); ok && *b != want {
			m.c.Violation("bytes", "%s: Bytes of %x is %x", what, v, *b)
		}
		if s := f.String(); s != hex.EncodeToString(want[:]) {
			m.c.Violation("string", "%s: String of %x is %s", what, v, s)
		}
		var o btcec.VField
		d := new(big.Int).Set(v)
		if m.n%32 == 0 {
			// another value, one bit away
			d.Xor(d, two(uint(m.c.R.IntN(256))))
			if d.Cmp(vref.P) >= 0 {
				d.Set(v)
			}
		}
		o.SetHex(fmt.Sprintf("%064x", d))
		if f.Equals(&o) != (d.Cmp(v) == 0) || o.Equals(f) != (d.Cmp(v) == 0) {
			m.c.Violation("equals", "Equals of %x and %x is %v", v, d, f.Equals(&o))
		}
		m.c.Count("comparisons", 1)
	}
}

func mod(v *big.Int) *big.Int { return v.Mod(v, vref.P) }

const fregs = 5

// program runs a random program.
func (m *fmon) program(steps int) {
	c := m.c
	var rs [fregs]freg
	for i := range rs {
		m.load(&rs[i], c.fieldInt())
	}
	for s := 0; s < steps; s++ {
		a, b, d := &rs[c.R.IntN(fregs)], &rs[c.R.IntN(fregs)], &rs[c.R.IntN(fregs)]
		if a == b || a == d || b == d {
			c.Count("aliased operands", 1)
		}
		// values before, for the operands that must stay
		var keep [fregs]btcec.VField
		for i := range rs {
			keep[i].Set(&rs[i].f)
		}
		av, bv := new(big.Int).Set(a.v), new(big.Int).Set(b.v)
		lim := func(x *freg) int { // room in the words
			if x.raw {
				return 63
			}
			return 32
		}
		what := ""
		changed := d
		switch c.R.IntN(16) {
		case 0:
			what = "set"
			m.load(d, c.fieldInt())
		case 1:
			what = "normalize"
			d.f.Normalize()
			d.m, d.norm, d.raw = 1, true, true
		case 2, 3:
			if a.m+b.m > min(lim(a), lim(b)) {
				continue
			}
			what = "add2"
			mm, raw := a.m+b.m, a.raw && b.raw
			d.f.Add2(&a.f, &b.f)
			d.v = mod(new(big.Int).Add(av, bv))
			d.m, d.norm, d.raw = mm, false, raw
		case 4:
			if a.m+d.m > min(lim(a), lim(d)) {
				continue
			}
			what = "add"
			mm, raw := a.m+d.m, a.raw && d.raw
			dv := new(big.Int).Set(d.v)
			d.f.Add(&a.f)
			d.v = mod(new(big.Int).Add(dv, av))
			d.m, d.norm, d.raw = mm, false, raw
		case 5:
			if d.m+1 > lim(d) {
				continue
			}
			what = "addint"
			n := uint(c.R.IntN(1 << 26))
			if c.Flip() {
				n = uint(pick(c, []int{0, 1, 2, 7, 977, 1<<26 - 1, 1<<26 - 2, 1 << 25}))
			}
			d.f.AddInt(n)
			d.v = mod(new(big.Int).Add(d.v, big.NewInt(int64(n))))
			d.m++
			d.norm = false
		case 6:
			if d.m > lim(d) {
				continue
			}
			k := 1 + c.R.IntN(lim(d)/d.m)
			if c.R.IntN(3) == 0 {
				k = lim(d) / d.m
			}
			what = "mulint"
			d.f.MulInt(uint(k))
			d.v = mod(new(big.Int).Mul(d.v, big.NewInt(int64(k))))
			d.m *= k
			d.norm = false
		case 7:
			if d.m+1 > lim(d) {
				continue
			}
			what = "negate"
			d.f.Negate(uint32(d.m))
			d.v = mod(new(big.Int).Neg(d.v))
			d.m++
			d.norm, d.raw = false, false
		case 8:
			if a.m+1 > lim(a) {
				continue
			}
			what = "negateval"
			mm := a.m + 1
			if !d.f.NegateVal(&a.f, uint32(a.m)) {
				continue
			}
			d.v = mod(new(big.Int).Neg(av))
			d.m, d.norm, d.raw = mm, false, false
		case 9, 10:
			if a.m > 8 || b.m > 8 {
				continue
			}
			if a.m == 8 || b.m == 8 {
				c.Count("operands of magnitude 8 multiplied", 1)
			}
			what = "mul2"
			if !d.f.Mul2(&a.f, &b.f) {
				continue
			}
			d.v = mod(new(big.Int).Mul(av, bv))
			d.m, d.norm, d.raw = 1, false, false
			c.Count("multiplications", 1)
		case 11:
			if a.m > 8 || d.m > 8 {
				continue
			}
			what = "mul"
			dv := new(big.Int).Set(d.v)
			d.f.Mul(&a.f)
			d.v = mod(new(big.Int).Mul(dv, av))
			d.m, d.norm, d.raw = 1, false, false
			c.Count("multiplications", 1)
		case 12:
			if d.m > 8 {
				continue
			}
			what = "square"
			d.f.Square()
			d.v = mod(new(big.Int).Mul(d.v, d.v))
			d.m, d.norm, d.raw = 1, false, false
			c.Count("squarings", 1)
		case 13:
			if a.m > 8 {
				continue
			}
			what = "squareval"
			if !d.f.SquareVal(&a.f) {
				continue
			}
			d.v = mod(new(big.Int).Mul(av, av))
			d.m, d.norm, d.raw = 1, false, false
			c.Count("squarings", 1)
		case 14:
			if d.m > 8 || c.R.IntN(6) != 0 {
				continue
			}
			what = "inverse"
			d.f.Inverse()
			if d.v.Sign() == 0 {
				d.v = new(big.Int)
			} else {
				d.v = new(big.Int).ModInverse(d.v, vref.P)
			}
			d.m, d.norm, d.raw = 1, false, false
			c.Count("inversions", 1)
		case 15:
			what = "copy"
			d.f.Set(&a.f)
			d.v, d.m, d.norm, d.raw = av, a.m, a.norm, a.raw
		}
		c.Count("operations", 1)
		m.see(changed, what, av, bv)
		for i := range rs {
			if &rs[i] != changed && !keep[i].Equals(&rs[i].f) {
				c.Violation("operand", "%s changes an operand", what)
			}
		}
	}
	c.Distinct(rs[0].v, rs[1].v, rs[2].v)
}

func runC16(w *W) {
	for i := 0; i < w.Scale(6000, 200000); i++ {
		w.Case(fmt.Sprintf("program/%d", i), func(c *C) {
			m := &fmon{c: c}
			for j := 0; j < 20; j++ {
				m.program(60)
			}
		})
	}
	// sums that are a chosen small number modulo the prime
	for i := 0; i < w.Scale(1200, 40000); i++ {
		w.Case(fmt.Sprintf("sums/%d", i), func(c *C) {
			m := &fmon{c: c}
			for j := 0; j < 150; j++ {
				k := 2 + c.R.IntN(62)
				var acc, t freg
				m.load(&acc, c.fieldInt())
				for acc.m < k-1 {
					m.load(&t, c.fieldInt())
					if c.R.IntN(4) == 0 && k-1-acc.m > 2 {
						x := 1 + c.R.IntN(k-1-acc.m)
						t.f.MulInt(uint(x))
						t.m, t.v, t.norm = x, mod(new(big.Int).Mul(t.v, big.NewInt(int64(x)))), false
					}
					acc.f.Add(&t.f)
					acc.v = mod(new(big.Int).Add(acc.v, t.v))
					acc.m += t.m
				}
				d := c.big(two(uint(1 + c.R.IntN(40))))
				if c.Flip() {
					d = big.NewInt(int64(c.R.IntN(3)))
				}
				if c.R.IntN(3) == 0 {
					d.Neg(d)
				}
				last := mod(new(big.Int).Sub(d, acc.v))
				if up := new(big.Int).Add(last, vref.P); up.Cmp(max256) <= 0 && c.Flip() {
					last = up
				}
				m.load(&t, last)
				acc.f.Add(&t.f)
				acc.v = mod(d)
				acc.m++
				acc.norm = false
				c.Count("operations", k)
				m.see(&acc, "sum", last, d)
				c.Distinct(last, k)
			}
		})
	}
	// factors with a chosen product, in magnitudes up to 8
	for i := 0; i < w.Scale(1200, 40000); i++ {
		w.Case(fmt.Sprintf("products/%d", i), func(c *C) {
			m := &fmon{c: c}
			for j := 0; j < 100; j++ {
				av := c.fieldInt()
				if new(big.Int).Mod(av, vref.P).Sign() == 0 {
					continue
				}
				d := c.big(two(uint(1 + c.R.IntN(36))))
				if c.Flip() {
					d.Neg(d)
				}
				inv := new(big.Int).ModInverse(av, vref.P)
				bv := mod(new(big.Int).Mul(d, inv))
				var a, b freg
				m.load(&a, av)
				m.load(&b, bv)
				ka, kb := 1+c.R.IntN(8), 1+c.R.IntN(8)
				a.f.MulInt(uint(ka))
				b.f.MulInt(uint(kb))
				pv := mod(new(big.Int).Mul(d, big.NewInt(int64(ka*kb))))
				a.f.Mul(&b.f)
				a.v, a.m, a.norm = pv, 1, false
				m.see(&a, "product", av, bv, ka, kb)
				c.Count("multiplications", 1)
				// full words
				xv, yv := c.words(), c.words()
				m.load(&a, xv)
				m.load(&b, yv)
				a.f.MulInt(uint(ka))
				b.f.MulInt(uint(kb))
				a.f.Mul(&b.f)
				a.v, a.m, a.norm = mod(new(big.Int).Mul(new(big.Int).Mul(xv, yv), big.NewInt(int64(ka*kb)))), 1, false
				m.see(&a, "product of full words", xv, yv, ka, kb)
				m.load(&b, yv)
				b.f.MulInt(uint(kb))
				b.f.Square()
				b.v, b.m, b.norm = mod(new(big.Int).Mul(new(big.Int).Mul(yv, yv), big.NewInt(int64(kb*kb)))), 1, false
				m.see(&b, "square of full words", yv, kb)
				c.Count("multiplications", 1)
				c.Count("squarings", 1)
				c.Count("operations", 3)
				// and without normalizing, straight into the next product
				b.f.Mul(&a.f)
				b.v = mod(new(big.Int).Mul(a.v, b.v))
				m.see(&b, "product of products", xv, yv, ka, kb)
				c.Distinct(av, bv)
			}
		})
	}
	w.Case("set", func(c *C) {
		m := &fmon{c: c}
		for _, n := range []uint{0, 1, 2, 977, 1<<26 - 1, 1 << 26, 1<<26 + 1, 1 << 31, 1<<32 - 1} {
			var r freg
			r.f.SetInt(n)
			r.v, r.m, r.norm = new(big.Int).SetUint64(uint64(n)), 63, n < 1<<26
			m.see(&r, "setint", n)
			r.f.Zero()
			r.v = new(big.Int)
			m.see(&r, "zero")
		}
		for i := 0; i <= 40; i++ {
			for _, b := range [][]byte{make([]byte, i), c.Bytes(i), append(make([]byte, i), 1)} {
				t := b
				if len(t) > 32 {
					t = t[:32]
				}
				want := new(big.Int).SetBytes(t)
				var r freg
				r.v, r.m = mod(want), 2
				if r.f.SetByteSlice(append([]byte{}, b...)) {
					m.see(&r, "setbyteslice", b)
				}
				r.f.SetInt(5)
				r.f.SetHex(hex.EncodeToString(b))
				m.see(&r, "sethex", b)
			}
		}
		for i := 1; i <= 64; i++ {
			for j := 0; j < 20; j++ {
				s := ""
				for len(s) < i {
					s += string("0123456789abcdefABCDEF"[c.R.IntN(22)])
				}
				want, _ := new(big.Int).SetString(s, 16)
				var r freg
				r.f.SetHex(s)
				r.v, r.m = mod(want), 1
				m.see(&r, "sethex", s)
			}
		}
		c.Sample("hex strings of all lengths up to 64")
	})
	// all values within a few of 0, the prime, 2^256 and all word borders, and
	// all pairs of them
	w.Case("borders", func(c *C) {
		m := &fmon{c: c}
		var l []*big.Int
		add := func(b *big.Int) {
			for d := int64(-2); d <= 2; d++ {
				v := new(big.Int).Add(b, big.NewInt(d))
				if v.Sign() >= 0 && v.Cmp(max256) <= 0 {
					l = append(l, v)
				}
			}
		}
		add(new(big.Int))
		add(vref.P)
		add(two(256))
		add(new(big.Int).Rsh(vref.P, 1))
		add(two(32))
		add(big.NewInt(1<<32 + 977))
		for i := uint(1); i < 10; i++ {
			add(two(26 * i))
			add(new(big.Int).Sub(two(256), two(26*i)))
		}
		for i, x := range l {
			c.Step(i)
			var r freg
			m.load(&r, x)
			r.norm = false
			m.see(&r, "load", x)
			r.f.Inverse()
			if r.v.Sign() != 0 {
				r.v = new(big.Int).ModInverse(r.v, vref.P)
			}
			m.see(&r, "inverse", x)
			c.Count("inversions", 1)
			for _, y := range l {
				var a, b freg
				m.load(&a, x)
				m.load(&b, y)
				a.f.Mul(&b.f)
				a.v, a.norm = mod(new(big.Int).Mul(x, y)), false
				m.see(&a, "product", x, y)
				m.load(&a, x)
				b.f.Negate(1)
				a.f.Add(&b.f)
				a.v, a.m, a.norm = mod(new(big.Int).Sub(x, y)), 3, false
				m.see(&a, "difference", x, y)
				c.Count("operations", 3)
			}
		}
	})
}
