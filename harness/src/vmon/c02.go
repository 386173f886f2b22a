package main

import (
	crand "crypto/rand"
	"fmt"
	"math/big"
	"runtime"

	"github.com/mit-dci/zksigma"

	"vref"
)

func init() {
	register(&Check{ID: "C02", Level: "exploration",
		Rule:  "values: every single bit, every run of ones, the borders, every bit length at random; out-of-range: 2^40 and beyond, negative, multiples of the order; five parameter sets; 1 to 8 threads, randomness source that yields or delivers special scalars, or scalars behind short hashes. Non-trivial: a distinct (parameters, value) whose proof, blinding and aggregate were checked, or whose refusal was",
		Run:   runC02,
		Floor: map[string]int64{"in range": 800, "out of range": 300, "bits 0 proved": 10000, "bits 1 proved": 10000, "parameters other than the default": 200, "partial sums that meet the next commitment": 30}})
}

type yieldReader struct {
	r interface{ Read([]byte) (int, error) }
	n uint32
}

func (y *yieldReader) Read(b []byte) (int, error) {
	n, err := y.r.Read(b)
	for i := 0; i < len(b)%3+int(b[0]&7); i++ {
		runtime.Gosched()
	}
	return n, err
}

func rangeOK(c *C, e *Env, v *big.Int, ref bool) {
	arg := cp(v)
	p, blind, err := zksigma.NewRangeProof(e.L, arg)
	c.Distinct(e.Name, v)
	if err != nil || p == nil || blind == nil {
		c.Violation("refused", "%s: value %v in range: proof %v blinding %v error %v", e.Name, v, p != nil, blind, err)
		return
	}
	comm := e.P.Commit(v, blind)
	if !c.Check(rp(p.ProofAggregate).Eq(comm), "aggregate", "%s: value %v: the aggregate is not the commitment under the returned blinding factor %v", e.Name, v, blind) {
		return
	}
	c.Check(zksigma.Open(e.L, v, blind, p.ProofAggregate), "open", "%s: value %v: the aggregate does not open", e.Name, v)
	ok, err := p.Verify(e.L, lp(comm))
	c.Check(ok && err == nil, "rejected", "%s: value %v: honest proof does not verify: %v %v", e.Name, v, ok, err)
	r, perr := refParse(kRange, p.Bytes())
	if c.Check(perr == nil, "bytes", "%s: value %v: serialized proof is malformed: %v", e.Name, v, perr) {
		rr := r.(*vref.Range)
		c.Check(len(rr.Tup) == 40, "entries", "value %v: %d entries", v, len(rr.Tup))
		if ref {
			c.Check(rr.Verify(e.P, comm), "reference", "%s: value %v: the reference rejects the proof", e.Name, v)
			c.Count("judged by the reference", 1)
		}
	}
	c.Count("in range", 1)
	if !e.Std {
		c.Count("parameters other than the default", 1)
	}
	for i := 0; i < 40; i++ {
		c.Count(fmt.Sprintf("bits %d proved", v.Bit(i)), 1)
	}
}

func rangeBad(c *C, e *Env, v *big.Int) {
	p, _, err := zksigma.NewRangeProof(e.L, cp(v))
	c.Distinct(e.Name, v)
	c.Count("out of range", 1)
	if err == nil {
		c.Violation("accepted", "%s: the prover accepts %v, proof %v", e.Name, v, p != nil)
	} else if p != nil {
		c.Violation("proof", "%s: error and a proof for %v", e.Name, v)
	}
}

func runC02(w *W) {
	top := new(big.Int).Lsh(one(), 40)
	var in, out []*big.Int
	for i := uint(0); i <= 40; i++ {
		p := new(big.Int).Lsh(one(), i)
		in = append(in, p, new(big.Int).Sub(p, one()), new(big.Int).Add(p, one()), new(big.Int).Sub(top, p))
		if i < 40 {
			in = append(in, new(big.Int).Sub(new(big.Int).Sub(top, one()), p))
		}
	}
	for _, x := range []int64{0, 1, 2, 3, 0x5555555555, 0xaaaaaaaaaa, 0xff00ff00ff, 0x00ff00ff00, 0xffffffff, 0xffff} {
		in = append(in, big.NewInt(x))
	}
	for _, v := range in {
		if v.Sign() < 0 || v.Cmp(top) >= 0 {
			out = append(out, v)
		}
	}
	for i := int64(0); i < 40; i++ {
		out = append(out, new(big.Int).Add(top, big.NewInt(i)), big.NewInt(-1-i))
	}
	for i := uint(0); i < 300; i += 1 {
		p := new(big.Int).Lsh(one(), i)
		out = append(out, new(big.Int).Neg(p))
		if i > 40 {
			out = append(out, p, new(big.Int).Add(p, one()), new(big.Int).Sub(p, one()), new(big.Int).Add(p, big.NewInt(12345)))
		}
	}
	for i := int64(1); i < 4; i++ {
		m := new(big.Int).Mul(vref.N, big.NewInt(i))
		for j := int64(-2); j <= 2; j++ {
			out = append(out, new(big.Int).Add(m, big.NewInt(j)), new(big.Int).Sub(big.NewInt(j), m))
		}
	}
	for i, v := range in {
		if v.Sign() < 0 || v.Cmp(top) >= 0 {
			continue
		}
		w.Case(fmt.Sprintf("border/%d", i), func(c *C) {
			rangeOK(c, std(), v, i%8 == 0)
			if i < 2 {
				c.Sample("value %v", v)
			}
		})
	}
	for i, v := range out {
		w.Case(fmt.Sprintf("out/%d", i), func(c *C) { rangeBad(c, std(), v) })
		w.Case(fmt.Sprintf("outenv/%d", i), func(c *C) { rangeBad(c, pick(c, envs()), v) })
	}
	for i := 0; i < w.Scale(1400, 30000); i++ {
		w.Case(fmt.Sprintf("in/%d", i), func(c *C) {
			e := std()
			if i%3 == 0 {
				e = pick(c, envs())
			}
			switch i % 4 {
			case 1:
				c.UsePool(shortNonces(), 3)
			case 2:
				// special nonces, but not 0 (a proof with a zero nonce gives the bit away)
				c.UsePool(specials()[2:], 3)
			case 3:
				crand.Reader = &yieldReader{r: crand.Reader}
			}
			old := runtime.GOMAXPROCS(1 + c.R.IntN(8))
			rangeOK(c, e, c.RangeValue(), i%6 == 0)
			runtime.GOMAXPROCS(old)
		})
	}
	for i := 0; i < w.Scale(300, 5000); i++ {
		w.Case(fmt.Sprintf("outrand/%d", i), func(c *C) {
			v := c.big(new(big.Int).Lsh(one(), uint(41+c.R.IntN(400))))
			v.SetBit(v, 40+c.R.IntN(200), 1)
			if c.Flip() {
				v.Neg(v)
			}
			rangeBad(c, c.Env(), v)
		})
	}
	// other widths
	for i := 0; i < w.Scale(64, 1000); i++ {
		w.Case(fmt.Sprintf("wide/%d", i), func(c *C) {
			e := wide()[i%len(wide())]
			v := c.RangeValue()
			if i < 8 {
				v = new(big.Int).Sub(top, big.NewInt(int64(i/4+1)))
			}
			rangeOK(c, e, v, i%16 < 4)
			rangeBad(c, e, pick(c, out))
			c.Count("on "+e.Name, 1)
		})
	}
	// draws whose multiples of H have short hashes
	for i := 0; i < w.Scale(24, 300); i++ {
		w.Case(fmt.Sprintf("rare/%d", i), func(c *C) {
			c.UsePool(rareDraws(), 1)
			rangeOK(c, std(), c.RangeValue(), true)
		})
	}
	// commitments that are chosen so that a partial sum equals, or is opposite to, the
	// next one
	n := 0
	for bit := 2; bit < 40; bit++ {
		for k := 0; k < 2; k++ {
			es, hs := knownH()
			e, h := es[0], hs[0]
			x := new(big.Int).Mul(big.NewInt(int64(bit-1)), h)
			num := one()
			if k == 1 {
				x.Mul(big.NewInt(int64(bit+1)), h)
				num = new(big.Int).Sub(one(), two(uint(bit+1)))
			}
			x.ModInverse(x, e.P.Grp.Order())
			x.Mod(x.Mul(x, num), e.P.Grp.Order())
			v := new(big.Int).Sub(two(uint(bit+1)), one())
			n++
			if n%2 == 1 && !w.Thorough() && bit > 12 {
				continue
			}
			w.Case(fmt.Sprintf("coincide/%d/%d", bit, k), func(c *C) {
				c.UsePool([]*big.Int{x}, 1)
				rangeOK(c, e, v, bit%4 == 0)
				c.Count("partial sums that meet the next commitment", 1)
			})
		}
	}
	// consecutive small values, in one process
	w.Each("consecutive", func(c *C) {
		for i := 0; i < w.Scale(12, 200); i++ {
			c.Step(i * 16)
			rangeOK(c, std(), big.NewInt(int64(w.shard*200+i)), false)
		}
	})
}
