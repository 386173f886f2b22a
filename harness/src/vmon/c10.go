package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"testing/iotest"

	"github.com/mit-dci/zksigma"

	"vref"
)

func init() {
	register(&Check{ID: "C10", Level: "exploration",
		Rule:  "proofs of all kinds made by the library, and ones with arbitrary members (integers of any sign up to 1023 bytes, points with any coordinates of up to 32 bytes, any number of range entries); serialized, read, serialized again, compared member by member with the reference decoder and verified before and after; sequences of points and integers in one stream through readers that deliver any portions. Non-trivial: a distinct proof or stream that went round",
		Run:   runC10,
		Floor: map[string]int64{"proofs of the library": 600, "arbitrary proofs": 1500, "streams": 500, "values in streams": 5000, "still verify": 500, "still refused": 500, "coordinates with leading zeros": 1000, "range proofs with more than 252 entries": 6}})
}

// exactReader fails when it is read past what was written.
type exactReader struct {
	b    []byte
	over bool
}

func (r *exactReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		if len(p) > 0 {
			r.over = true
		}
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

// wild is an integer of any sign and size up to 1023 bytes.
func (c *C) wild() *big.Int {
	var x *big.Int
	if c.large {
		x = new(big.Int).SetBytes(c.Bytes(1023))
		x.SetBit(x, 8*1023-1, 1)
		return x
	}
	switch c.R.IntN(7) {
	case 0:
		return new(big.Int)
	case 1:
		x = c.big(new(big.Int).Lsh(one(), uint(1+c.R.IntN(8*1023))))
	case 2: // exact byte length, top bit set or not
		n := 1 + c.R.IntN(1023)
		if c.Flip() {
			n = pick(c, []int{1, 31, 32, 33, 126, 127, 128, 251, 252, 253, 254, 255, 256, 1022, 1023})
		}
		b := c.Bytes(n)
		b[0] |= 1
		if c.Flip() {
			b[0] |= 0x80
		}
		x = new(big.Int).SetBytes(b)
	case 3:
		x = big.NewInt(int64(c.R.IntN(300)))
	case 4:
		x = new(big.Int).Lsh(one(), uint(c.R.IntN(8*1023)))
	default:
		x = c.Int(vref.N)
	}
	if c.R.IntN(3) == 0 {
		x.Neg(x)
	}
	return x
}

// wildPt has any coordinates of up to 32 bytes.
func (c *C) wildPt() vref.Pt {
	co := func() *big.Int {
		switch c.R.IntN(4) {
		case 0:
			return new(big.Int)
		case 1:
			return new(big.Int).SetBytes(c.Bytes(c.R.IntN(33)))
		case 2:
			b := make([]byte, 32)
			copy(b[c.R.IntN(32):], c.Bytes(32))
			return new(big.Int).SetBytes(b)
		}
		return new(big.Int).SetBytes(bytes.Repeat([]byte{255}, 1+c.R.IntN(32)))
	}
	switch c.R.IntN(3) {
	case 0:
		p, _ := c.Point(std())
		return p
	case 1:
		return vref.MulG(hexInt(pick(c, shortG)))
	}
	return vref.Pt{X: co(), Y: co()}
}

func wildProof(c *C, kind string) RefProof {
	d := func() *vref.Disj {
		return &vref.Disj{T1: c.wildPt(), T2: c.wildPt(), C: c.wild(), C1: c.wild(), C2: c.wild(), S1: c.wild(), S2: c.wild()}
	}
	switch kind {
	case kGSPFS:
		return &vref.GSPFS{Base: c.wildPt(), T: c.wildPt(), S: c.wild(), C: c.wild()}
	case kEquiv:
		return &vref.Equiv{UG: c.wildPt(), UH: c.wildPt(), C: c.wild(), S: c.wild()}
	case kCons:
		return &vref.Cons{T1: c.wildPt(), T2: c.wildPt(), C: c.wild(), S1: c.wild(), S2: c.wild()}
	case kDisj:
		return d()
	case kABC, kIneq:
		return &vref.ABC{B: c.wildPt(), C: c.wildPt(), T1: c.wildPt(), T2: c.wildPt(), Chal: c.wild(), J: c.wild(), K: c.wild(), L: c.wild(), CTok: c.wildPt(), D: d()}
	}
	r := &vref.Range{Agg: c.wildPt(), E: c.wild()}
	n := pick(c, []int{0, 1, 2, 39, 40, 41, 64, 65, 127, 128, 251, 252, 253, 254, 300, 600})
	for i := 0; i < n; i++ {
		r.Tup = append(r.Tup, vref.Tup{C: c.wildPt(), S: c.wild()})
	}
	return r
}

// exported compares the exported members.
func exported(a interface{}, b RefProof) error {
	pt := func(n string, p zksigma.ECPoint, q vref.Pt) error {
		if p.X == nil || p.Y == nil || p.X.Cmp(q.X) != 0 || p.Y.Cmp(q.Y) != 0 {
			return fmt.Errorf("%s is %v, not %v", n, p, q)
		}
		return nil
	}
	in := func(n string, p, q *big.Int) error {
		if p == nil || p.Cmp(q) != 0 {
			return fmt.Errorf("%s is %v, not %v", n, p, q)
		}
		return nil
	}
	first := func(e ...error) error {
		for _, x := range e {
			if x != nil {
				return x
			}
		}
		return nil
	}
	switch p := a.(type) {
	case *zksigma.GSPFSProof:
		q := b.(*vref.GSPFS)
		return first(pt("Base", p.Base, q.Base), pt("RandCommit", p.RandCommit, q.T), in("HiddenValue", p.HiddenValue, q.S), in("Challenge", p.Challenge, q.C))
	case *zksigma.EquivalenceProof:
		q := b.(*vref.Equiv)
		return first(pt("UG", p.UG, q.UG), pt("UH", p.UH, q.UH), in("Challenge", p.Challenge, q.C), in("HiddenValue", p.HiddenValue, q.S))
	case *zksigma.ConsistencyProof:
		q := b.(*vref.Cons)
		return first(pt("T1", p.T1, q.T1), pt("T2", p.T2, q.T2), in("Challenge", p.Challenge, q.C), in("S1", p.S1, q.S1), in("S2", p.S2, q.S2))
	case *zksigma.DisjunctiveProof:
		q := b.(*vref.Disj)
		return first(pt("T1", p.T1, q.T1), pt("T2", p.T2, q.T2), in("C", p.C, q.C), in("C1", p.C1, q.C1), in("C2", p.C2, q.C2), in("S1", p.S1, q.S1), in("S2", p.S2, q.S2))
	case *zksigma.ABCProof:
		q := b.(*vref.ABC)
		return first(pt("B", p.B, q.B), pt("C", p.C, q.C), pt("T1", p.T1, q.T1), pt("T2", p.T2, q.T2), in("Challenge", p.Challenge, q.Chal), pt("CToken", p.CToken, q.CTok))
	case *zksigma.InequalityProof:
		return exported((*zksigma.ABCProof)(p), b)
	case *zksigma.RangeProof:
		q := b.(*vref.Range)
		if len(p.ProofTuples) != len(q.Tup) {
			return fmt.Errorf("%d entries, not %d", len(p.ProofTuples), len(q.Tup))
		}
		for i, t := range p.ProofTuples {
			if e := first(pt(fmt.Sprintf("entry %d C", i), t.C, q.Tup[i].C), in(fmt.Sprintf("entry %d S", i), t.S, q.Tup[i].S)); e != nil {
				return e
			}
		}
		return first(pt("ProofAggregate", p.ProofAggregate, q.Agg), in("ProofE", p.ProofE, q.E))
	}
	panic("kind")
}

// roundTrip takes a proof of the library through its bytes.
func roundTrip(c *C, e *Env, kind string, q interface{}, want RefProof, s []vref.Pt) {
	b := libBytes(q)
	ref, err := refParse(kind, b)
	if err != nil {
		c.Violation("bytes", "%s: the serialization is malformed: %v: %x", kind, err, b)
		return
	}
	c.Distinct(kind, b)
	if err := exported(q, ref); err != nil {
		c.Violation("bytes", "%s: the serialization has other members: %v", kind, err)
	}
	if want != nil {
		c.Check(bytes.Equal(b, want.Bytes()), "bytes", "%s: serialized as %x, expected %x", kind, b, want.Bytes())
	}
	for _, m := range members(ref) {
		if m.Pt != nil && m.Pt.X.BitLen() <= 248 {
			c.Count("coordinates with leading zeros", 1)
		}
	}
	in := bytes.Clone(b)
	q2, err := libParse(kind, in)
	if err != nil {
		c.Violation("read", "%s: what was written is not read: %v: %x", kind, err, b)
		return
	}
	if err := exported(q2, ref); err != nil {
		c.Violation("members", "%s: read back with other members: %v", kind, err)
	}
	for i := range in { // the proof must not live in the caller's buffer
		in[i] ^= 0xff
	}
	c.Check(bytes.Equal(libBytes(q2), b), "again", "%s: serialized again differently: %x, then %x", kind, b, libBytes(q2))
	if s != nil {
		ok1, e1 := libVerify(e.L, q, s)
		ok2, e2 := libVerify(e.L, q2, s)
		c.Check(ok1 == ok2 && (e1 == nil) == (e2 == nil), "verdict", "%s: verification gave %v %v before and %v %v after the round trip: %x", kind, ok1, e1, ok2, e2, b)
		if ok2 {
			c.Count("still verify", 1)
		} else {
			c.Count("still refused", 1)
		}
	}
}

func runC10(w *W) {
	reuse(w, 0, w.Scale(4, 40), 40, "write", "read")
	for i := 0; i < w.Scale(900, 15000); i++ {
		w.Case(fmt.Sprintf("made/%d", i), func(c *C) {
			k := allKinds[i%len(allKinds)]
			e := c.Env()
			if i%3 != 0 {
				c.UsePool(shortNonces(), 2)
			}
			in := newInst(c, e, k)
			q, err := in.Prove()
			if err != nil {
				return
			}
			c.Count("proofs of the library", 1)
			roundTrip(c, e, k, q, nil, in.VStmt())
			if i < 8 {
				c.Sample("%v", in)
			}
		})
	}
	for i := 0; i < w.Scale(2400, 40000); i++ {
		w.Case(fmt.Sprintf("wild/%d", i), func(c *C) {
			k := allKinds[i%len(allKinds)]
			if c.large = i%60 < len(allKinds); c.large {
				c.Count("proofs with members as large as can be", 1)
			}
			p := wildProof(c, k)
			if r, ok := p.(*vref.Range); ok && len(r.Tup) > 252 {
				c.Count("range proofs with more than 252 entries", 1)
			}
			if i == 6 || i == 13 {
				r := p.(*vref.Range)
				for len(r.Tup) < 65530+i {
					r.Tup = append(r.Tup, vref.Tup{C: c.wildPt(), S: big.NewInt(int64(len(r.Tup)))})
				}
			}
			q, err := toLib(k, p)
			if err != nil {
				c.Violation("read", "%s: well-formed proof is not read: %v", k, err)
				return
			}
			c.Count("arbitrary proofs", 1)
			s := []vref.Pt{c.NZPoint(std()), c.NZPoint(std()), c.NZPoint(std()), c.NZPoint(std())}
			roundTrip(c, std(), k, q, p, s)
		})
	}
	type val struct {
		p *vref.Pt
		i *big.Int
	}
	for i := 0; i < w.Scale(900, 20000); i++ {
		w.Case(fmt.Sprintf("stream/%d", i), func(c *C) {
			var l []val
			for j := 0; j < 1+c.R.IntN(30); j++ {
				if c.Flip() {
					p := c.wildPt()
					l = append(l, val{p: &p})
				} else {
					l = append(l, val{i: c.wild()})
				}
			}
			var buf bytes.Buffer
			var want []byte
			var ends []int
			for _, v := range l {
				var err error
				if v.p != nil {
					err = zksigma.WriteECPoint(&buf, lp(*v.p))
					want = append(want, vref.EncPt(*v.p)...)
				} else {
					err = zksigma.WriteBigInt(&buf, v.i)
					want = append(want, vref.EncInt(v.i)...)
				}
				if err != nil {
					c.Violation("write", "%v", err)
					return
				}
				ends = append(ends, buf.Len())
			}
			c.Check(bytes.Equal(buf.Bytes(), want), "bytes", "stream %x, expected %x", buf.Bytes(), want)
			c.Distinct(buf.Bytes())
			c.Count("streams", 1)
			for how := 0; how < 4; how++ {
				er := &exactReader{b: bytes.Clone(buf.Bytes())}
				total := buf.Len()
				var r io.Reader = er
				switch how {
				case 1:
					r = iotest.OneByteReader(er)
				case 2:
					r = iotest.HalfReader(er)
				case 3:
					r = iotest.DataErrReader(er)
				}
				for j, v := range l {
					c.Count("values in streams", 1)
					if v.p != nil {
						p, err := zksigma.ReadECPoint(r)
						if err != nil || !rp(p).Eq(*v.p) {
							c.Violation("stream", "value %d of the stream %x (reader %d): %v, %v instead of %v", j, buf.Bytes(), how, p, err, *v.p)
							return
						}
					} else {
						x, err := zksigma.ReadBigInt(r)
						if err != nil || x.Cmp(v.i) != 0 {
							c.Violation("stream", "value %d of the stream %x (reader %d): %v, %v instead of %v", j, buf.Bytes(), how, x, err, v.i)
							return
						}
					}
					if how != 3 { // that one reads ahead itself
						c.Check(total-len(er.b) == ends[j], "consumed", "value %d: %d bytes consumed instead of %d", j, total-len(er.b), ends[j])
						c.Check(!er.over, "consumed", "value %d: read past the end", j)
					}
				}
			}
		})
	}
}
