package main

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"sync"

	"github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"

	"vref"
)

func init() {
	register(&Check{ID: "C08", Level: "exploration",
		Rule:  "every random value behind a proof is computed back from proof and witness (as a scalar or as its multiple of H) and kept for the whole run: repetitions, repeated sums, differences or ratios, small multiples, bit statistics; bytes drawn per random value are counted; randomness streams that differ in one byte position only must give different values; every value changes with 32 bytes of the source that no other needs. Same inputs again and again, consecutive, concurrent, with bit statistics of their own; the same for statements with bases, results and secrets that coincide or vanish (no byte of a value is fixed). Non-trivial: a distinct random value recovered",
		Run:   runC08,
		Floor: map[string]int64{"gspfs proofs": 200, "equivalence proofs": 200, "consistency proofs": 200, "disjunctive proofs": 200, "abc proofs": 200, "inequality proofs": 200, "range proofs": 40, "single-byte streams": 200, "scalars for bit statistics": 3000, "response scalars checked": 10000, "concurrent proofs": 300, "commitments": 300, "keys": 300, "scalars with the same inputs": 1000, "values of special statements": 1500}})
}

// countReader counts what the library draws.
type countReader struct {
	mu    sync.Mutex
	r     interface{ Read([]byte) (int, error) }
	bytes int
}

func (r *countReader) Read(b []byte) (int, error) {
	n, err := r.r.Read(b)
	r.mu.Lock()
	r.bytes += n
	r.mu.Unlock()
	return n, err
}

// windowReader repeats the same 32 bytes except for one, which counts.
type windowReader struct {
	mu   sync.Mutex
	fill [32]byte
	pos  int
	at   int
}

func (r *windowReader) Read(b []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := range b {
		b[i] = r.fill[r.pos%32]
		if r.pos%32 == r.at {
			b[i] = byte(r.pos / 32)
		}
		r.pos++
	}
	return len(b), nil
}

// patchReader gives a stream with some bytes replaced.
type patchReader struct {
	mu    sync.Mutex
	src   *rand.ChaCha8
	pos   int
	at    int
	patch []byte
}

func (r *patchReader) Read(b []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.src.Read(b)
	for i := range b {
		if j := r.pos + i - r.at; j >= 0 && j < len(r.patch) {
			b[i] = r.patch[j]
		}
	}
	r.pos += len(b)
	return len(b), nil
}

func sameNonces(a, b []Nonce) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].HP.Eq(b[i].HP) {
			return false
		}
	}
	return true
}

// starved assigns each of n values need parts that change it, each part to one
// value only, and returns a value for which that is impossible, or -1.
func starved(use [][]int, n, need int) int {
	owner := make([]int, len(use))
	for i := range owner {
		owner[i] = -1
	}
	by := make([][]int, n)
	for p, l := range use {
		for _, v := range l {
			by[v] = append(by[v], p)
		}
	}
	var give func(v int, seen []bool) bool
	give = func(v int, seen []bool) bool {
		for _, p := range by[v] {
			if seen[p] {
				continue
			}
			seen[p] = true
			if owner[p] < 0 || give(owner[p], seen) {
				owner[p] = v
				return true
			}
		}
		return false
	}
	for v := 0; v < n; v++ {
		for i := 0; i < need; i++ {
			if !give(v, make([]bool, len(use))) {
				return v
			}
		}
	}
	return -1
}

// bitStats counts bits of scalars that should be uniform.
type bitStats struct {
	n    int
	ones [256]int
}

func (s *bitStats) add(k *big.Int) {
	s.n++
	for i := range s.ones {
		s.ones[i] += int(k.Bit(i))
	}
}

// worst returns the bit farthest from one half, in standard deviations.
func (s *bitStats) worst() (bit int, sigma float64) {
	for i, o := range s.ones {
		if d := math.Abs(float64(o)-float64(s.n)/2) / (math.Sqrt(float64(s.n)) / 2); d > sigma {
			bit, sigma = i, d
		}
	}
	return
}

// freshness watches all random values of a process.
type freshness struct {
	mu    sync.Mutex
	seen  map[string]string
	small map[string]int
	stats map[string]*bitStats
	prev  map[string][]Nonce
}

func newFreshness() *freshness {
	f := &freshness{seen: map[string]string{}, small: map[string]int{}, stats: map[string]*bitStats{}, prev: map[string][]Nonce{}}
	return f
}

func (f *freshness) smallSet(e *Env) {
	if _, ok := f.small[e.Name]; ok {
		return
	}
	f.small[e.Name] = 1
	q := vref.ID()
	for i := 0; i < 4096; i++ {
		f.small[e.Name+string(q.X.Bytes())] = i
		q = e.P.Grp.Add(q, e.P.H)
	}
}

// note records a value under a class; repeated: a violation.
func (f *freshness) note(c *C, class, what string, v []byte) {
	key := class + "|" + string(v)
	if o, ok := f.seen[key]; ok {
		c.Violation("repeated", "%s: %s is the same as %s", class, what, o)
		return
	}
	f.seen[key] = what
}

// watch checks the random values of one proof; uniform: they were drawn from a
// good source, so statistics apply.
func (f *freshness) watch(c *C, in *Inst, pr RefProof, uniform bool) []Nonce {
	l := nonces(in, pr)
	f.mu.Lock()
	defer f.mu.Unlock()
	e, p, g := in.E, in.E.P, in.E.P.Grp
	n := g.Order()
	f.smallSet(e)
	id := c.ID + " " + in.Kind + " "
	for i, x := range l {
		f.note(c, e.Name+" random values", id+x.Name, x.HP.X.Bytes())
		c.Distinct(x.HP)
		if !uniform {
			continue
		}
		if k, ok := f.small[e.Name+string(x.HP.X.Bytes())]; ok {
			c.Violation("small", "%s%s is plus or minus %d", id, x.Name, k)
		}
		if x.K != nil && n.BitLen() == 256 {
			s := f.stats[in.Kind+" "+x.Name]
			if s == nil {
				s = &bitStats{}
				f.stats[in.Kind+" "+x.Name] = s
			}
			s.add(x.K)
		}
		// relations inside the proof: with the neighbours, or with all if few
		for j := i + 1; j < len(l) && (len(l) < 10 || j <= i+2); j++ {
			y := l[j]
			role := in.Kind + " " + x.Name + " " + y.Name
			for _, q := range []struct {
				n string
				p vref.Pt
			}{{"difference", p.Sub(x.HP, y.HP)}, {"sum", g.Add(x.HP, y.HP)}} {
				if k, ok := f.small[e.Name+string(q.p.X.Bytes())]; ok {
					c.Violation("related", "%s%s and %s: %s %d", id, x.Name, y.Name, q.n, k)
				}
				f.note(c, e.Name+" "+q.n+" of "+role, id, q.p.X.Bytes())
			}
			if x.K != nil && y.K != nil && y.K.Sign() != 0 {
				r := new(big.Int).ModInverse(y.K, n)
				f.note(c, e.Name+" ratio of "+role, id, p.MulAdd(new(big.Int), r, x.K).Bytes())
			}
		}
	}
	// relations with the previous proof of the kind
	if o := f.prev[e.Name+in.Kind]; uniform && len(o) == len(l) {
		for i := range l {
			if len(l) > 10 && i%8 != 0 {
				continue
			}
			for _, q := range []vref.Pt{p.Sub(l[i].HP, o[i].HP), g.Add(l[i].HP, o[i].HP)} {
				if k, ok := f.small[e.Name+string(q.X.Bytes())]; ok {
					c.Violation("related", "%s%s and that of the previous proof: difference or sum %d", id, l[i].Name, k)
				}
				f.note(c, e.Name+" step of "+in.Kind+l[i].Name, id, q.X.Bytes())
			}
		}
	}
	if uniform {
		f.prev[e.Name+in.Kind] = l
	}
	return l
}

func canonical(c *C, in *Inst, pr RefProof) {
	n := in.E.P.Grp.Order()
	for _, m := range members(pr) {
		if m.Int != nil {
			c.Count("response scalars checked", 1)
			c.Check((*m.Int).Sign() >= 0 && (*m.Int).Cmp(n) < 0, "unreduced", "%s: %s is not in [0, order): %v", in, m.Name, *m.Int)
		}
	}
}

func runC08(w *W) {
	f := newFreshness()
	prove := func(c *C, in *Inst) RefProof {
		q, err := in.Prove()
		if err != nil {
			c.Count("prover failed", 1)
			return nil
		}
		r, err := refParse(in.Kind, libBytes(q))
		if err != nil {
			return nil
		}
		canonical(c, in, r)
		c.Count(in.Kind+" proofs", 1)
		return r
	}
	fixed := func(c *C, e *Env, k string) *Inst {
		if k == kRange {
			return newInst(c, e, k)
		}
		in := plainInst(c, e, k)
		if k == kGSPFS || k == kEquiv {
			// a secret that does not mask short random values
			x := big.NewInt(int64(1 + c.R.IntN(3)))
			in.Wit[0] = x
			for i := 0; i+1 < len(in.Stmt); i += 2 {
				in.Stmt[i+1] = e.P.Grp.Mul(in.Stmt[i], x)
			}
		}
		return in
	}
	for _, k := range allKinds {
		rounds, reps := w.Scale(120, 1500), 12
		if k == kRange {
			rounds, reps = w.Scale(64, 800), 3
		}
		for i := 0; i < rounds; i++ {
			// the same inputs again and again
			w.Case(fmt.Sprintf("%s/%d", k, i), func(c *C) {
				e := std()
				if i%3 == 2 {
					e = pick(c, envs())
				}
				in := fixed(c, e, k)
				wit := in.Wit
				for j := 0; j < reps; j++ {
					c.Step(j * 16)
					in.Wit = append([]*big.Int{}, wit[:min(len(wit), 3)]...)
					if k == kRange {
						in.Wit = in.Wit[:1]
						in.Stmt = nil
					}
					cr := &countReader{r: crand.Reader}
					crand.Reader = cr
					r := prove(c, in)
					crand.Reader = cr.r
					if r == nil {
						return
					}
					l := f.watch(c, in, r, true)
					need := len(l) * (e.P.Grp.Order().BitLen() / 8)
					c.Check(cr.bytes >= need, "drawn", "%s: %d bytes drawn for %d random values, at least %d are needed", in, cr.bytes, len(l), need)
					c.Count("random values recovered", len(l))
				}
				if i < 2 {
					c.Sample("%v: %d proofs", in, reps)
				}
			})
		}
		// streams that differ in one byte only
		for at := 0; at < 32; at++ {
			for i := 0; i < w.Scale(3, 20); i++ {
				w.Case(fmt.Sprintf("stream/%s/%d/%d", k, at, i), func(c *C) {
					e := pick(c, envs()[:4])
					in := fixed(c, e, k)
					wr := &windowReader{at: at}
					c.src.Read(wr.fill[:])
					for j := range wr.fill {
						wr.fill[j] &= 0x7f
					}
					crand.Reader = wr
					r := prove(c, in)
					if r == nil || wr.pos > 250*32 {
						return
					}
					c.Count("single-byte streams", 1)
					seen := map[string]string{}
					l := nonces(in, r)
					if k == kRange {
						in.Wit, in.Stmt = in.Wit[:1], nil
					}
					if r := prove(c, in); r != nil && wr.pos <= 250*32 {
						for _, x := range nonces(in, r) {
							x.Name += " of the next proof"
							l = append(l, x)
						}
					}
					for _, x := range l {
						key := string(x.HP.X.Bytes())
						if o, ok := seen[key]; ok {
							c.Violation("truncated", "%s: %s and %s are equal when the randomness differs only in byte %d of every 32", in, x.Name, o, at)
							return
						}
						seen[key] = x.Name
					}
				})
			}
		}
		// concurrent calls with the same inputs
		for i := 0; i < w.Scale(6, 60); i++ {
			w.Case(fmt.Sprintf("concurrent/%s/%d", k, i), func(c *C) {
				par := 24
				if k == kRange {
					par = 5
				}
				in := fixed(c, std(), k)
				var wg sync.WaitGroup
				out := make([]RefProof, par)
				ins := make([]*Inst, par)
				for j := range out {
					wg.Add(1)
					x := *in
					ins[j] = &x
					go func() {
						defer wg.Done()
						q, err := ins[j].Prove()
						if err == nil {
							out[j], _ = refParse(k, libBytes(q))
						}
					}()
				}
				wg.Wait()
				for j, r := range out {
					if r != nil {
						c.Count("concurrent proofs", 1)
						canonical(c, ins[j], r)
						f.watch(c, ins[j], r, true)
					}
				}
			})
		}
	}
	// no part of a random value is fixed by the inputs
	for _, k := range allKinds {
		for i := 0; i < w.Scale(3, 20); i++ {
			w.Case(fmt.Sprintf("repeat/%s/%d", k, i), func(c *C) {
				in := fixed(c, std(), k)
				wit := in.Wit
				st := map[string]*bitStats{}
				for j := 0; j < 120; j++ {
					c.Step(j)
					in.Wit = append([]*big.Int{}, wit[:min(len(wit), 3)]...)
					var l []Nonce
					if k == kRange {
						if i > 0 {
							return
						}
						_, b, err := zksigma.NewRangeProof(in.E.L, wit[0])
						if err != nil {
							return
						}
						l = []Nonce{{Name: "blinding", K: b}}
					} else if r := prove(c, in); r != nil {
						l = nonces(in, r)
					}
					for _, x := range l {
						if x.K == nil {
							continue
						}
						if st[x.Name] == nil {
							st[x.Name] = &bitStats{}
						}
						st[x.Name].add(x.K)
					}
				}
				for n, s := range st {
					b, sg := s.worst()
					c.Count("scalars with the same inputs", s.n)
					c.Check(sg <= 7 || s.n < 100, "fixed", "%s: bit %d of %s is set in %d of %d proofs from the same inputs", in, b, n, s.ones[b], s.n)
				}
			})
		}
	}
	// nor when statements, bases and secrets coincide or vanish: no byte of a
	// random value is the same in all proofs
	for _, k := range sigmaKinds {
		for i := 0; i < w.Scale(40, 600); i++ {
			w.Case(fmt.Sprintf("special/%s/%d", k, i), func(c *C) {
				e := std()
				var in *Inst
				var wit []*big.Int
				for try := 0; ; try++ {
					if try == 40 {
						return
					}
					if i%4 == 0 {
						in = specialInst(c, e, k, c.Scalar(vref.N))
					} else {
						in, _ = poolInst(c, e, k)
					}
					wit = append([]*big.Int{}, in.Wit[:min(len(in.Wit), 3)]...)
					if (k == kABC || k == kIneq) && e.P.Mod(wit[len(wit)-1]).Sign() == 0 {
						continue // no inverse of the key to compute with
					}
					if q, err := in.Prove(); q != nil && err == nil {
						break
					}
				}
				draws := map[string][][32]byte{}
				for j := 0; j < 16; j++ {
					c.Step(j)
					in.Wit = append([]*big.Int{}, wit...)
					r := prove(c, in)
					if r == nil {
						return
					}
					for _, x := range nonces(in, r) {
						if x.K != nil {
							var b [32]byte
							new(big.Int).Mod(x.K, vref.N).FillBytes(b[:])
							draws[x.Name] = append(draws[x.Name], b)
						}
					}
				}
				for n, l := range draws {
					if len(l) < 12 {
						continue
					}
					c.Count("values of special statements", len(l))
					for at := 0; at < 32; at++ {
						same := 0
						for _, b := range l {
							if b[at] == l[0][at] {
								same++
							}
						}
						c.Check(same < len(l), "fixed", "%s: byte %d of %s is %02x in all of %d proofs", in, at, n, l[0][at], len(l))
					}
				}
			})
		}
	}
	for i := 0; i < w.Scale(14, 60); i++ {
		w.Case(fmt.Sprintf("repeat/commit/%d", i), func(c *C) {
			e := std()
			n := vref.N
			vals := []*big.Int{new(big.Int), one(), new(big.Int).Set(n), new(big.Int).Sub(n, one()), big.NewInt(-1), new(big.Int).Lsh(one(), 40), new(big.Int).Lsh(n, 64)}
			bases := []vref.Pt{e.P.G, e.P.H, e.P.Grp.Neg(e.P.H), e.P.Grp.Neg(e.P.G), vref.ID(), e.P.Commit(one(), one())}
			v, base := c.Int(n), bases[i%len(bases)]
			if i < len(vals) {
				v = vals[i]
			} else if i%2 == 0 {
				base, _ = c.Point(e)
			}
			var a, b bitStats
			for j := 0; j < 120; j++ {
				if _, r, err := zksigma.PedCommit(e.L, v); err == nil {
					a.add(r)
				}
				_, sk := zksigma.KeyGen(e.L.C, lp(base))
				b.add(sk)
			}
			for n, s := range map[string]*bitStats{"the randomness of commitments to the same value": &a, "the keys for the same base": &b} {
				bit, sg := s.worst()
				c.Count("scalars with the same inputs", s.n)
				c.Check(sg <= 7 || s.n < 100, "fixed", "bit %d of %s is set in %d of %d", bit, n, s.ones[bit], s.n)
			}
		})
	}
	// other widths: whatever the order, the values are of its length
	for i := 0; i < w.Scale(16, 300); i++ {
		for _, k := range allKinds {
			if k == kRange && i >= w.Scale(4, 80) {
				continue
			}
			w.Case(fmt.Sprintf("wide/%s/%d", k, i), func(c *C) {
				e := wide()[i%2]
				in := fixed(c, e, k)
				cr := &countReader{r: crand.Reader}
				crand.Reader = cr
				r := prove(c, in)
				if r == nil {
					return
				}
				n := e.P.Grp.Order()
				l := f.watch(c, in, r, true)
				need := len(l) * (n.BitLen() / 8)
				c.Check(cr.bytes >= need, "drawn", "%s: %d bytes drawn for %d random values, at least %d are needed", in, cr.bytes, len(l), need)
				low := func(what string, v *big.Int) {
					c.Check(v.BitLen() > n.BitLen()-56, "short", "%s: %s is %x: %d bits, the order has %d", in, what, v, v.BitLen(), n.BitLen())
					c.Count("values of wide groups", 1)
				}
				for _, x := range l {
					if x.K != nil {
						low(x.Name, x.K)
					}
				}
				_, b, err := zksigma.PedCommit(e.L, big.NewInt(7))
				if err == nil {
					low("the randomness of a commitment", b)
				}
				_, sk := zksigma.KeyGen(e.L.C, e.L.H)
				low("a secret key", sk)
			})
		}
	}
	// every random value rests on bytes of its own: when eight bytes of the source
	// change, some values change; each must get 32 bytes that no other needs
	for _, k := range allKinds {
		for i := 0; i < w.Scale(6, 60); i++ {
			w.Case(fmt.Sprintf("influence/%s/%d", k, i), func(c *C) {
				e, step := envs()[i%5], 8
				if k == kRange {
					if i >= w.Scale(2, 10) {
						return
					}
					e, step = std(), 32
				}
				in := fixed(c, e, k)
				if k == kABC {
					for in.Right != (i%2 == 0) {
						in = fixed(c, e, k)
					}
				}
				wit, stmt := in.Wit, in.Stmt
				var seed [32]byte
				c.src.Read(seed[:])
				run := func(at int, x []byte) ([]Nonce, int) {
					in.Wit, in.Stmt = append([]*big.Int{}, wit...), stmt
					if k == kRange {
						in.Wit, in.Stmt = in.Wit[:1], nil
					}
					s := &patchReader{src: rand.NewChaCha8(seed), at: at, patch: x}
					crand.Reader = s
					r := prove(c, in)
					if r == nil {
						return nil, 0
					}
					return nonces(in, r), s.pos
				}
				base, n := run(0, nil)
				if again, m := run(0, nil); base == nil || m != n || !sameNonces(base, again) {
					c.Count("not repeatable", 1)
					return
				}
				var use [][]int // which values change with each part of the source
				for at := 0; at+step <= n; at += step {
					c.Step(at)
					l, _ := run(at, c.Bytes(step))
					if len(l) != len(base) {
						return
					}
					var ch []int
					for j := range l {
						if !l[j].HP.Eq(base[j].HP) {
							ch = append(ch, j)
						}
					}
					use = append(use, ch)
				}
				if j := starved(use, len(base), 32/step); j >= 0 {
					c.Violation("dependent", "%s: %s does not get %d bytes of the source for itself; parts of %d bytes change the values %v", in, base[j].Name, 32, step, use)
				}
				c.Count("values traced to the source", len(base))
			})
		}
	}
	// the secrets of all sizes: responses stay canonical
	for i := 0; i < w.Scale(1200, 20000); i++ {
		w.Case(fmt.Sprintf("canonical/%d", i), func(c *C) {
			in := newInst(c, c.Env(), sigmaKinds[i%len(sigmaKinds)])
			if r := prove(c, in); r != nil {
				c.Distinct(r.Bytes())
			}
		})
	}
	// draws from the order on are no scalars: taken modulo the order, the small
	// ones would come up twice as often
	for i := 0; i < w.Scale(8, 100); i++ {
		for _, k := range allKinds {
			w.Case(fmt.Sprintf("past the order/%s/%d", k, i), func(c *C) {
				e := envs()[i%2*(len(envs())-1)]
				n := e.P.Grp.Order()
				if n.BitLen() != 256 {
					e, n = std(), vref.N
				}
				in := fixed(c, e, k)
				v := new(big.Int).Add(n, c.big(new(big.Int).Sub(e.L.C.Params().P, n)))
				if i%4 == 3 {
					v = new(big.Int).Add(n, c.big(new(big.Int).Sub(max256, n)))
				}
				low := new(big.Int).Sub(v, n)
				pool := c.UsePool([]*big.Int{v}, 3)
				r := prove(c, in)
				if r == nil {
					return
				}
				c.Count("draws past the order", pool.hits)
				hp := e.P.Grp.Mul(e.P.H, low)
				for _, x := range nonces(in, r) {
					c.Check(!x.HP.Eq(hp), "folded", "%s: %s is %x when the source gives %x", in, x.Name, low, v)
				}
			})
		}
	}
	// commitments and keys
	for i := 0; i < w.Scale(40, 600); i++ {
		w.Case(fmt.Sprintf("commit/%d", i), func(c *C) {
			e := pick(c, envs()[:4])
			v := c.Int(vref.N)
			cr := &countReader{r: crand.Reader}
			crand.Reader = cr
			one := func(kind string, k *big.Int) {
				f.mu.Lock()
				f.note(c, "scalars", c.ID+" "+kind, k.Bytes())
				if f.stats[kind] == nil {
					f.stats[kind] = &bitStats{}
				}
				f.stats[kind].add(k)
				f.mu.Unlock()
				c.Check(k.Sign() >= 0 && k.Cmp(vref.N) < 0, "unreduced", "%s %v", kind, k)
			}
			for j := 0; j < 10; j++ {
				before := cr.bytes
				_, r, err := zksigma.PedCommit(e.L, v)
				if err == nil {
					c.Count("commitments", 1)
					c.Check(cr.bytes-before >= 32, "drawn", "PedCommit drew %d bytes", cr.bytes-before)
					one("PedCommit", r)
				}
				before = cr.bytes
				_, sk := zksigma.KeyGen(e.L.C, e.L.H)
				c.Count("keys", 1)
				c.Check(cr.bytes-before >= 32, "drawn", "KeyGen drew %d bytes", cr.bytes-before)
				one("KeyGen", sk)
			}
			for at := 0; at < 32; at++ {
				wr := &windowReader{at: at}
				c.src.Read(wr.fill[:])
				for j := range wr.fill {
					wr.fill[j] &= 0x7f
				}
				crand.Reader = wr
				_, a, e1 := zksigma.PedCommit(e.L, v)
				_, b, e2 := zksigma.PedCommit(e.L, v)
				if e1 == nil && e2 == nil {
					c.Check(a.Cmp(b) != 0, "truncated", "two commitments have the same randomness when the source differs in byte %d", at)
				}
				_, s1 := zksigma.KeyGen(e.L.C, e.L.H)
				_, s2 := zksigma.KeyGen(e.L.C, e.L.H)
				c.Check(s1.Cmp(s2) != 0, "truncated", "two keys are the same when the source differs in byte %d", at)
			}
		})
	}
	// btcec keys, signatures of different messages, ephemeral keys
	for i := 0; i < w.Scale(24, 300); i++ {
		w.Case(fmt.Sprintf("btcec/%d", i), func(c *C) {
			msg := c.Bytes(c.R.IntN(40))
			k, err := btcec.NewPrivateKey(btcec.S256())
			if err != nil {
				return
			}
			f.mu.Lock()
			f.note(c, "private keys", c.ID, k.D.Bytes())
			f.mu.Unlock()
			for j := 0; j < 6; j++ {
				ct, err := btcec.Encrypt(k.PubKey(), msg)
				if err != nil || len(ct) < 86 {
					continue
				}
				f.mu.Lock()
				f.note(c, "initialization vectors", c.ID, ct[:16])
				f.note(c, "ephemeral keys", c.ID, bytes.Clone(ct[16:86]))
				f.mu.Unlock()
			}
		})
	}
	w.Each("bits", func(c *C) {
		for k, s := range f.stats {
			if s.n < 40 {
				continue
			}
			b, sg := s.worst()
			c.Count("scalars for bit statistics", s.n)
			if sg > 6.3 && s.n >= 40 {
				c.Violation("biased", "%s: bit %d is set in %d of %d: %.1f standard deviations", k, b, s.ones[b], s.n, sg)
			}
		}
	})
}
