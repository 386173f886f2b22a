package main

import (
	"bytes"
	"context"
	"crypto/elliptic"
	crand "crypto/rand"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"math/rand/v2"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"

	"vref"
)

func init() {
	register(&Check{ID: "C20", Level: "exploration",
		Rule:  "built with the race detector. Many goroutines run random mixtures of every operation of the library on the same points, integers, proofs, byte strings, keys and parameters, on 2 to 16 threads, with delays injected through the randomness source, the curve interface, readers and writers; every result is compared with the sequential one or judged by the reference; the same with unusual and wrong arguments, and on objects of each call's own. Nothing in the harness orders two calls of different goroutines, so that a race is seen whether or not the calls overlap. Fresh processes whose very first calls into btcec or zksigma are concurrent. Watched: race reports, results, goroutines left, hangs. Non-trivial: a distinct pair of operations observed to overlap in time, or a distinct combination of first calls",
		Run:   runC20,
		Procs: 4,
		Env:   []string{"GORACE=halt_on_error=0 history_size=3 atexit_sleep_ms=0 exitcode=0"},
		Stall: 240 * time.Second,
		Floor: map[string]int64{"operations": 8000, "overlaps": 20000, "first-use processes": 100, "proofs made": 400, "proofs verified": 1200, "wire operations": 300, "btcec operations": 2000, "unusual calls": 3000, "calls on objects of their own": 2000}})
}

// napReader is a randomness source that gives way to other goroutines. Neither
// it nor anything else between two calls of a goroutine synchronizes with the
// other goroutines: that would hide races from the detector.
type napReader struct{}

func (napReader) Read(b []byte) (int, error) {
	nap()
	for i := 0; i < len(b); i += 8 {
		var w [8]byte
		binary.LittleEndian.PutUint64(w[:], rand.Uint64())
		copy(b[i:], w[:])
	}
	nap()
	return len(b), nil
}

func nap() {
	switch n := rand.Uint32(); n % 16 {
	case 0:
		time.Sleep(time.Microsecond * time.Duration(n>>4%50))
	case 1, 2, 3, 4, 5:
		runtime.Gosched()
	}
}

// yieldCurve gives way before and after every curve operation.
type yieldCurve struct {
	elliptic.Curve
}

func (c yieldCurve) Add(a, b, d, e *big.Int) (*big.Int, *big.Int) {
	nap()
	defer nap()
	return c.Curve.Add(a, b, d, e)
}
func (c yieldCurve) ScalarMult(x, y *big.Int, k []byte) (*big.Int, *big.Int) {
	nap()
	defer nap()
	return c.Curve.ScalarMult(x, y, k)
}
func (c yieldCurve) ScalarBaseMult(k []byte) (*big.Int, *big.Int) {
	nap()
	defer nap()
	return c.Curve.ScalarBaseMult(k)
}
func (c yieldCurve) IsOnCurve(x, y *big.Int) bool {
	nap()
	return c.Curve.IsOnCurve(x, y)
}

// op is one operation on shared values; it returns what is wrong.
type op struct {
	name, class string
	f           func(r *rand.Rand) string
}

func same(got, want interface{}) string {
	switch g := got.(type) {
	case string:
		if w, ok := want.(string); ok && g == w {
			return ""
		}
	case bool:
		if w, ok := want.(bool); ok && g == w {
			return ""
		}
	}
	if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
		return fmt.Sprintf("gives %s, sequentially %s", clip(g, 600), clip(w, 600))
	}
	return ""
}

func hx(p zksigma.ECPoint) string { return p.X.Text(16) + "," + p.Y.Text(16) }
func hr(p vref.Pt) string         { return p.X.Text(16) + "," + p.Y.Text(16) }

// proofOps are operations on a shared statement, witness and proof.
func proofOps(c *C, e *Env, z zksigma.ZKPCurveParams, kind string) (ops []op) {
	in := newInst(c, e, kind)
	pr, err := in.Prove()
	if err != nil {
		c.Violation("prove", "%s: %v", in, err)
		return nil
	}
	var ps, vs []zksigma.ECPoint
	for _, p := range in.Stmt {
		ps = append(ps, lp(p))
	}
	for _, p := range in.VStmt() {
		vs = append(vs, lp(p))
	}
	if kind == kRange {
		ps = nil
	}
	wit := in.Wit
	enc := libBytes(pr)
	bad := append([]zksigma.ECPoint{}, vs...)
	q, _ := c.Point(e)
	q = e.P.Grp.Add(q, e.P.G)
	bad[0] = lp(e.P.Grp.Add(rp(bad[0]), q))
	badok, _ := libVerifyRaw(z, pr, bad)
	// a false proof of its own
	ref, _ := refParse(kind, enc)
	m := members(ref)
	for _, x := range m {
		if x.Int != nil {
			*x.Int = new(big.Int).Add(*x.Int, one())
			break
		}
	}
	fake, _ := toLib(kind, ref)
	fakeok, _ := libVerifyRaw(z, fake, vs)
	sd := side(in.Right)
	prove := func(r *rand.Rand) string {
		p, blind, err := libProve(kind, z, ps, wit, sd)
		if err != nil {
			return "fails: " + err.Error()
		}
		st := vs
		if kind == kRange {
			st = []zksigma.ECPoint{lp(e.P.Commit(wit[0], blind))}
		}
		if ok, err := libVerifyRaw(z, p, st); !ok || err != nil {
			return fmt.Sprintf("gives a proof that does not verify: %v", err)
		}
		if r.IntN(4) == 0 {
			rf, err := refParse(kind, libBytes(p))
			if err != nil {
				return err.Error()
			}
			var s []vref.Pt
			for _, x := range st {
				s = append(s, rp(x))
			}
			if !refVerify(e.P, rf, s) {
				return "gives a proof that the reference refuses"
			}
		}
		return ""
	}
	verify := func(p interface{}, s []zksigma.ECPoint, want bool) func(r *rand.Rand) string {
		return func(r *rand.Rand) string {
			ok, err := libVerifyRaw(z, p, s)
			if ok != (err == nil) {
				return fmt.Sprint(ok, err)
			}
			return same(ok, want)
		}
	}
	ops = append(ops,
		op{"prove " + kind, "prove", prove},
		op{"verify " + kind, "verify", verify(pr, vs, true)},
		op{"verify shared again " + kind, "verify", verify(pr, vs, true)},
		op{"verify other " + kind, "verify", verify(pr, bad, badok)},
		op{"verify fake " + kind, "verify", verify(fake, vs, fakeok)},
		op{"write " + kind, "code", func(r *rand.Rand) string { return same(bytes.Equal(libBytes(pr), enc), true) }},
		op{"read " + kind, "code", func(r *rand.Rand) string {
			p, err := libParse(kind, enc)
			if err != nil {
				return err.Error()
			}
			return same(bytes.Equal(libBytes(p), enc), true)
		}},
		op{"read short " + kind, "code", func(r *rand.Rand) string {
			_, err := libParse(kind, enc[:len(enc)-1])
			return same(err != nil, true)
		}})
	return
}

func pointOps(c *C, e *Env, z zksigma.ZKPCurveParams) (ops []op) {
	for i := 0; i < 3; i++ {
		a, _ := c.Point(e)
		b, _ := c.Point(e)
		s, t := c.Int(e.P.Grp.Order()), c.Int(e.P.Grp.Order())
		la, lb := lp(a), lp(b)
		g := e.P.Grp
		add, sub, neg := hr(g.Add(a, b)), hr(e.P.Sub(a, b)), hr(g.Neg(a))
		mul, mg, mh, com := hr(g.Mul(a, s)), hr(g.Mul(e.P.G, s)), hr(g.Mul(e.P.H, s)), e.P.Commit(s, t)
		lcom := lp(com)
		t1 := new(big.Int).Add(t, one())
		eq := a.Eq(b)
		msg := c.Bytes(40)
		ch := zksigma.GenerateChallenge(z, msg, msg[:7])
		o := func(n string, f func(r *rand.Rand) string) { ops = append(ops, op{n, "point", f}) }
		o("Add", func(*rand.Rand) string { return same(hx(z.Add(la, lb)), add) })
		o("Sub", func(*rand.Rand) string { return same(hx(z.Sub(la, lb)), sub) })
		o("Neg", func(*rand.Rand) string { return same(hx(z.Neg(la)), neg) })
		o("Mult", func(*rand.Rand) string { return same(hx(z.Mult(la, s)), mul) })
		o("Mult G", func(*rand.Rand) string { return same(hx(z.Mult(z.G, s)), mg) })
		o("Mult H", func(*rand.Rand) string { return same(hx(z.Mult(z.H, s)), mh) })
		o("Equal", func(*rand.Rand) string { return same(la.Equal(lb), eq) })
		o("PedCommitR", func(*rand.Rand) string { return same(hx(zksigma.PedCommitR(z, s, t)), hr(com)) })
		o("CommitR", func(*rand.Rand) string { return same(hx(zksigma.CommitR(z, la, s)), mul) })
		o("Open", func(*rand.Rand) string {
			return same(fmt.Sprint(zksigma.Open(z, s, t, lcom), zksigma.Open(z, s, t1, lcom)), "true false")
		})
		o("VerifyR", func(*rand.Rand) string { return same(zksigma.VerifyR(z, zksigma.CommitR(z, la, s), la, s), true) })
		o("PedCommit", func(*rand.Rand) string {
			p, r, err := zksigma.PedCommit(z, s)
			if err != nil {
				return err.Error()
			}
			return same(hx(p), hr(e.P.Commit(s, r)))
		})
		o("KeyGen", func(*rand.Rand) string {
			p, k := zksigma.KeyGen(z.C, z.H)
			return same(hx(p), hr(g.Mul(e.P.H, k)))
		})
		o("GenerateChallenge", func(*rand.Rand) string { return same(zksigma.GenerateChallenge(z, msg, msg[:7]), ch) })
	}
	return
}

type yieldIO struct {
	r io.Reader
	w io.Writer
}

func (y yieldIO) Read(b []byte) (int, error) {
	nap()
	if len(b) > 1 {
		b = b[:(len(b)+1)/2]
	}
	n, err := y.r.Read(b)
	nap()
	return n, err
}
func (y yieldIO) Write(b []byte) (int, error) {
	nap()
	if len(b) > 1 {
		y.w.Write(b[:1])
		nap()
		n, err := y.w.Write(b[1:])
		return n + 1, err
	}
	n, err := y.w.Write(b)
	nap()
	return n, err
}

func wireOps(c *C) (ops []op) {
	g := vref.Secp{}
	p := lp(g.Mul(vref.G, c.NonZero(vref.N)))
	v := new(big.Int).Neg(c.NonZero(vref.N))
	data := c.Bytes(300)
	o := func(n string, f func(r *rand.Rand) string) { ops = append(ops, op{n, "wire", f}) }
	o("stream", func(r *rand.Rand) string {
		var b bytes.Buffer
		io := yieldIO{&b, &b}
		u := r.Uint64() >> uint(r.IntN(64))
		k := r.IntN(300)
		for i := 0; i < 3; i++ {
			if err := wire.WriteVarInt(io, u); err != nil {
				return err.Error()
			}
			wire.WriteVarBytes(io, data[:k])
			zksigma.WriteECPoint(io, p)
			zksigma.WriteBigInt(io, v)
		}
		for i := 0; i < 3; i++ {
			if w, err := wire.ReadVarInt(io); w != u || err != nil {
				return fmt.Sprintf("%x is read as %x, %v", u, w, err)
			}
			if w, err := wire.ReadVarBytes(io, 300, "x"); !bytes.Equal(w, data[:k]) || err != nil {
				return fmt.Sprintf("bytes are read as %x, %v", w, err)
			}
			if q, err := zksigma.ReadECPoint(io); err != nil || !q.Equal(p) {
				return fmt.Sprintf("a point is read as %s, %v", hx(q), err)
			}
			if w, err := zksigma.ReadBigInt(io); err != nil || w.Cmp(v) != 0 {
				return fmt.Sprintf("%x is read as %x, %v", v, w, err)
			}
		}
		return ""
	})
	o("varint", func(r *rand.Rand) string {
		for i := 0; i < 20; i++ {
			var b bytes.Buffer
			io := yieldIO{&b, &b}
			u := r.Uint64() >> uint(r.IntN(64))
			wire.WriteVarInt(io, u)
			if b.Len() != wire.VarIntSerializeSize(u) {
				return "size"
			}
			if w, err := wire.ReadVarInt(io); w != u || err != nil {
				return fmt.Sprintf("%x is read as %x, %v", u, w, err)
			}
			if _, err := wire.ReadVarInt(io); err == nil {
				return "reads from nothing"
			}
		}
		return ""
	})
	o("RandomUint64", func(r *rand.Rand) string {
		a, err := wire.RandomUint64()
		b, err2 := wire.RandomUint64()
		return same(a != b && err == nil && err2 == nil, true)
	})
	return
}

func btcecOps(c *C) (ops []op) {
	o := func(n string, f func(r *rand.Rand) string) { ops = append(ops, op{n, "btcec", f}) }
	cv := btcec.S256()
	for i := 0; i < 2; i++ {
		d := c.NonZero(vref.N)
		q := vref.MulG(d)
		k, p := privKey(d), pubKey(q)
		h := c.Bytes(32)
		r, s := vref.SignECDSA(d, h)
		sg := &btcec.Signature{R: r, S: s}
		der := sg.Serialize()
		comp, _ := btcec.SignCompact(cv, k, h, true)
		hy := p.SerializeHybrid()
		pt := c.Bytes(c.R.IntN(50))
		ct := refSeal(c.Uni(vref.N), q, c.Bytes(16), pkcs(pt), false)
		bad := bytes.Clone(ct)
		bad[len(bad)-40] ^= 4
		a := c.NZPoint(std())
		t := c.Scalar(vref.N).Bytes()
		dbl, mul := hr(vref.Secp{}.Add(a, a)), hr(vref.Secp{}.Mul(a, new(big.Int).SetBytes(t)))
		mg, mh := hr(vref.MulG(new(big.Int).SetBytes(t))), hr(vref.MulH(new(big.Int).SetBytes(t)))
		sum := hr(vref.Secp{}.Add(a, q))
		sec := vref.Secp{}.Mul(a, d).X
		pa := pubKey(a)
		xy := func(x, y *big.Int) string { return x.Text(16) + "," + y.Text(16) }
		o("Sign", func(*rand.Rand) string {
			g, err := k.Sign(h)
			if err != nil {
				return err.Error()
			}
			return same(xy(g.R, g.S), xy(r, s))
		})
		o("Verify", func(*rand.Rand) string { return same(sg.Verify(h, p), true) })
		o("Serialize", func(*rand.Rand) string { return same(bytes.Equal(sg.Serialize(), der), true) })
		o("ParseDER", func(*rand.Rand) string {
			g, err := btcec.ParseDERSignature(der, cv)
			return same(err == nil && g.IsEqual(sg), true)
		})
		o("SignCompact", func(*rand.Rand) string {
			b, err := btcec.SignCompact(cv, k, h, true)
			return same(err == nil && bytes.Equal(b, comp), true)
		})
		o("RecoverCompact", func(*rand.Rand) string {
			g, cm, err := btcec.RecoverCompact(cv, comp, h)
			return same(err == nil && cm && g.IsEqual(p), true)
		})
		o("ParsePubKey", func(*rand.Rand) string {
			g, err := btcec.ParsePubKey(hy, btcec.S256())
			return same(err == nil && g.IsEqual(p), true)
		})
		o("SerializeHybrid", func(*rand.Rand) string { return same(bytes.Equal(p.SerializeHybrid(), hy), true) })
		o("SerializePriv", func(*rand.Rand) string { return same(bytes.Equal(k.Serialize(), pad32(d)), true) })
		o("Encrypt", func(*rand.Rand) string {
			b, err := btcec.Encrypt(p, pt)
			if err != nil {
				return err.Error()
			}
			g, err := btcec.Decrypt(k, b)
			return same(err == nil && bytes.Equal(g, pt), true)
		})
		o("Decrypt", func(*rand.Rand) string {
			g, err := btcec.Decrypt(k, ct)
			_, err2 := btcec.Decrypt(k, bad)
			return same(err == nil && bytes.Equal(g, pt) && err2 != nil, true)
		})
		o("SharedSecret", func(*rand.Rand) string {
			return same(new(big.Int).SetBytes(btcec.GenerateSharedSecret(k, pa)), sec)
		})
		o("ScalarMult", func(*rand.Rand) string { return same(xy(cv.ScalarMult(a.X, a.Y, t)), mul) })
		o("ScalarBaseMult", func(*rand.Rand) string { return same(xy(cv.ScalarBaseMult(t)), mg) })
		o("ScalarBaseMultH", func(*rand.Rand) string { return same(xy(cv.ScalarBaseMultH(t)), mh) })
		o("curve Add", func(*rand.Rand) string { return same(xy(cv.Add(a.X, a.Y, q.X, q.Y)), sum) })
		o("Double", func(*rand.Rand) string { return same(xy(cv.Double(a.X, a.Y)), dbl) })
		o("IsOnCurve", func(*rand.Rand) string {
			return same(fmt.Sprint(cv.IsOnCurve(a.X, a.Y), cv.IsOnCurve(a.Y, a.X)), "true false")
		})
		o("NAF", func(*rand.Rand) string {
			a, b := btcec.NAF(t)
			return same(new(big.Int).Sub(new(big.Int).SetBytes(a), new(big.Int).SetBytes(b)), new(big.Int).SetBytes(t))
		})
		o("NewPrivateKey", func(*rand.Rand) string {
			k, err := btcec.NewPrivateKey(btcec.S256())
			if err != nil {
				return err.Error()
			}
			return same(xy(k.X, k.Y), hr(vref.MulG(k.D)))
		})
	}
	return
}

// ownOps are the operations of C25, every call with objects of its own.
func ownOps(c *C, e *Env, n int) (ops []op) {
	for grp := range c25groups() {
		for k, v := range c25groups()[grp] {
			for j := 0; j < n; j++ {
				en := e
				if grp != 0 {
					en = std()
				}
				x := v.gen(c, en)
				want := v.ref(en, x)
				ops = append(ops, op{"own " + v.name, "own", func(*rand.Rand) string {
					w := c25groups()[grp][k]
					return same(w.lib(&user{e: en, z: en.L}, mkObjs(x)), want)
				}})
			}
		}
	}
	return
}

// rareOps are calls with unusual or wrong arguments, on shared objects.
func rareOps(c *C, e *Env, z zksigma.ZKPCurveParams) (ops []op) {
	o := func(n string, f func() string) {
		want := f()
		ops = append(ops, op{n, "rare", func(*rand.Rand) string { return same(f(), want) }})
	}
	yes := func(b bool) string {
		if b {
			return "y"
		}
		return "n"
	}
	g, n := e.P.Grp, e.P.Grp.Order()
	// points that vanish, coincide, are opposite or off the curve
	a := c.NZPoint(e)
	pts := []vref.Pt{vref.ID(), a, g.Neg(a), e.P.G, e.P.H, g.Add(a, a)}
	var lps []zksigma.ECPoint
	for _, p := range pts {
		lps = append(lps, lp(p))
	}
	scal := []*big.Int{new(big.Int), one(), big.NewInt(-1), n, new(big.Int).Sub(n, one()), new(big.Int).Add(n, two(300)), two(128)}
	for i, p := range lps {
		for j, q := range lps {
			if (i+j)%2 == 0 || i == 0 || j == 0 || i+j == 3 {
				o("Add, Sub special", func() string { return hx(z.Add(p, q)) + " " + hx(z.Sub(p, q)) + yes(p.Equal(q)) })
			}
		}
		o("Neg special", func() string { return hx(z.Neg(p)) + string(p.Bytes()) })
		for _, s := range scal {
			if c.R.IntN(2) == 0 {
				o("Mult special", func() string { return hx(z.Mult(p, s)) + hx(zksigma.CommitR(z, p, s)) })
			}
		}
		o("write, read special", func() string {
			var b bytes.Buffer
			err := zksigma.WriteECPoint(&b, p)
			err2 := zksigma.WriteBigInt(&b, scal[i%len(scal)])
			q, err3 := zksigma.ReadECPoint(&b)
			v, err4 := zksigma.ReadBigInt(&b)
			_, err5 := zksigma.ReadECPoint(&b)
			_, err6 := zksigma.ReadBigInt(&b)
			if err3 != nil || err4 != nil {
				return "error"
			}
			return hx(q) + v.Text(16) + yes(err == nil && err2 == nil && err5 != nil && err6 != nil)
		})
	}
	for _, s := range scal {
		t := pick(c, scal)
		o("PedCommitR special", func() string {
			q := zksigma.PedCommitR(z, s, t)
			return hx(q) + yes(zksigma.Open(z, s, t, q)) + yes(zksigma.Open(z, t, s, q)) + yes(zksigma.VerifyR(z, q, lps[4], s))
		})
	}
	// provers that refuse, verifiers of statements that are off the curve
	off := zksigma.ECPoint{X: new(big.Int).Set(a.X), Y: new(big.Int).Add(a.Y, one())}
	for _, kind := range allKinds {
		in := newInst(c, e, kind)
		pr, err := in.Prove()
		if err != nil {
			continue
		}
		var ps, vs []zksigma.ECPoint
		for _, p := range in.Stmt {
			ps = append(ps, lp(p))
		}
		for _, p := range in.VStmt() {
			vs = append(vs, lp(p))
		}
		sd := side(in.Right)
		wit := append([]*big.Int{}, in.Wit...)
		try := func(name string, s []zksigma.ECPoint, w []*big.Int, sd zksigma.Side) {
			if kind == kRange && (w[0].Sign() >= 0 && w[0].BitLen() <= 40) {
				return
			}
			o("prove "+name+" "+kind, func() string {
				p, _, err := libProve(kind, z, s, w, sd)
				if err != nil {
					return "refused"
				}
				ok, _ := libVerifyRaw(z, p, vs)
				return yes(ok)
			})
		}
		w2 := append([]*big.Int{}, wit...)
		w2[0] = new(big.Int).Add(w2[0], two(77))
		try("wrong witness", ps, w2, sd)
		if kind != kRange {
			s2 := append([]zksigma.ECPoint{}, ps...)
			s2[len(s2)-1] = lps[5]
			try("wrong statement", s2, wit, sd)
			if kind == kDisj || kind == kABC {
				try("other side", ps, wit, side(!in.Right))
				try("no side", ps, wit, zksigma.Side(7))
			}
		} else {
			try("negative", ps, []*big.Int{big.NewInt(-3)}, sd)
			try("too large", ps, []*big.Int{two(40)}, sd)
		}
		for i := range vs {
			s2 := append([]zksigma.ECPoint{}, vs...)
			s2[i] = off
			s3 := append([]zksigma.ECPoint{}, vs...)
			s3[i] = lps[0]
			o("verify special "+kind, func() string {
				x, _ := libVerifyRaw(z, pr, s2)
				y, _ := libVerifyRaw(z, pr, s3)
				return yes(x) + yes(y)
			})
		}
		enc := libBytes(pr)
		var ins [][]byte
		for i := 0; i < 6; i++ {
			b := bytes.Clone(enc)
			switch i {
			case 0:
				b[0] = 0xfd
			case 1:
				b[0] = 0xff
			case 2:
				b = b[:c.R.IntN(len(b))]
			case 3:
				b[c.R.IntN(len(b))] ^= 0x10
			case 4:
				b = nil
			case 5:
				b[c.R.IntN(40)] = byte(c.R.IntN(256))
			}
			ins = append(ins, b)
		}
		o("decode hostile "+kind, func() string {
			s := ""
			for _, b := range ins {
				q, err := libParse(kind, b)
				if err != nil {
					s += "e"
					continue
				}
				ok, _ := libVerifyRaw(z, q, vs)
				s += yes(ok)
			}
			return s
		})
	}
	return
}

// rareBtcec are calls of btcec and wire with unusual or wrong arguments.
func rareBtcec(c *C) (ops []op) {
	o := func(n string, f func() string) {
		want := f()
		ops = append(ops, op{n, "rare", func(*rand.Rand) string { return same(f(), want) }})
	}
	yes := func(b bool) string {
		if b {
			return "y"
		}
		return "n"
	}
	xy := func(x, y *big.Int) string { return x.Text(16) + "," + y.Text(16) }
	cv := btcec.S256()
	d := c.NonZero(vref.N)
	q := vref.MulG(d)
	k, p := privKey(d), pubKey(q)
	h := c.Bytes(32)
	r, s := vref.SignECDSA(d, h)
	low := &btcec.Signature{R: r, S: s}
	high := &btcec.Signature{R: r, S: new(big.Int).Sub(vref.N, s)}
	o("Serialize high S", func() string { return string(high.Serialize()) })
	o("Verify high S", func() string { return yes(high.Verify(h, p)) + yes(high.IsEqual(low)) + yes(low.IsEqual(low)) })
	for _, b := range []*btcec.Signature{{R: new(big.Int), S: s}, {R: r, S: new(big.Int)}, {R: vref.N, S: s}, {R: r, S: new(big.Int).Add(s, one())}, {R: big.NewInt(3), S: big.NewInt(1)}, {R: two(255), S: two(254)}} {
		o("Verify, Serialize special", func() string { return yes(b.Verify(h, p)) + string(b.Serialize()) })
	}
	for _, n := range []int{0, 1, 20, 31, 33, 64, 100} {
		hh := c.Bytes(n)
		o("Sign other lengths", func() string {
			g, err := k.Sign(hh)
			if err != nil {
				return "error"
			}
			return xy(g.R, g.S) + yes(g.Verify(hh, p))
		})
	}
	der := low.Serialize()
	derHigh := asm(refInt(r), refInt(high.S))
	for i := 0; i < 12; i++ {
		b := bytes.Clone(der)
		switch i {
		case 0:
			b = derHigh
		case 1:
			b = append(b, 1)
		case 2:
			b = b[:8]
		case 3:
			b = nil
		case 4:
			b[0] = 0x31
		case 5:
			b[4] |= 0x80
		default:
			b[c.R.IntN(len(b))] ^= byte(1 << c.R.IntN(8))
		}
		o("parse signatures", func() string {
			t := ""
			for _, f := range []func([]byte, elliptic.Curve) (*btcec.Signature, error){btcec.ParseSignature, btcec.ParseDERSignature} {
				g, err := f(b, cv)
				if err != nil {
					t += "error "
					continue
				}
				t += xy(g.R, g.S)
			}
			return t
		})
	}
	encs := [][]byte{p.SerializeCompressed(), p.SerializeUncompressed(), p.SerializeHybrid()}
	encs = append(encs, nil, []byte{2}, encs[1][:64], append(bytes.Clone(encs[0]), 0))
	for i := 0; i < 12; i++ {
		b := bytes.Clone(encs[i%3])
		switch i / 3 {
		case 0:
			b[0] ^= 1
		case 1:
			b[0] = byte(c.R.IntN(9))
		case 2:
			b[len(b)-1] ^= 1
		case 3:
			for j := 1; j < 33; j++ {
				b[j] = 0xff
			}
		}
		encs = append(encs, b)
	}
	for _, b := range encs {
		o("parse keys", func() string {
			g, err := btcec.ParsePubKey(b, cv)
			if err != nil {
				return "error"
			}
			return xy(g.X, g.Y) + yes(g.IsEqual(p)) + string(g.SerializeCompressed()) + string(g.SerializeUncompressed()) + string(g.SerializeHybrid()) + yes(btcec.IsCompressedPubKey(b)) + yes(g.ToECDSA() != nil)
		})
	}
	for _, b := range [][]byte{pad32(d), nil, {1}, pad32(new(big.Int).Sub(vref.N, one())), d.Bytes()} {
		o("PrivKeyFromBytes", func() string {
			k, p := btcec.PrivKeyFromBytes(cv, b)
			return k.D.Text(16) + xy(p.X, p.Y) + string(k.Serialize()) + xy(k.PubKey().X, k.PubKey().Y) + yes(k.ToECDSA() != nil)
		})
	}
	comp, _ := btcec.SignCompact(cv, k, h, false)
	for i := 0; i < 8; i++ {
		b := bytes.Clone(comp)
		switch i {
		case 0:
		case 1:
			b[0] ^= 3
		case 2:
			b[0]++
		case 3:
			b = b[:64]
		case 4:
			b[0] += 4
		default:
			b[1+c.R.IntN(64)] ^= 8
		}
		o("recover", func() string {
			g, cm, err := btcec.RecoverCompact(cv, b, h)
			if err != nil {
				return "error"
			}
			return xy(g.X, g.Y) + yes(cm)
		})
	}
	o("SignCompact uncompressed", func() string {
		b, err := btcec.SignCompact(cv, k, h, false)
		return string(b) + yes(err == nil)
	})
	pt := c.Bytes(33)
	seal := func(pad []byte) []byte { return refSeal(c.Uni(vref.N), q, c.Bytes(16), pad, false) }
	cts := [][]byte{seal(pkcs(pt)), seal(pkcs(nil)), seal(bytes.Repeat([]byte{0}, 16)), seal(bytes.Repeat([]byte{17}, 16)), seal(append(bytes.Repeat([]byte{9}, 15), 3)), nil, {1, 2, 3}}
	for i := 0; i < 10; i++ {
		b := bytes.Clone(cts[0])
		switch i {
		case 0:
			b = b[:len(b)-1]
		case 1:
			b = b[:100]
		case 2:
			b[16] ^= 1
		case 3:
			b[18] ^= 1
		case 4:
			b[53] ^= 1
		case 5:
			b[30] ^= 1
		case 6:
			b = append(b, b[:16]...)
		default:
			b[c.R.IntN(len(b))] ^= 1
		}
		cts = append(cts, b)
	}
	for _, b := range cts {
		o("decrypt hostile", func() string {
			x, err := btcec.Decrypt(k, b)
			return string(x) + yes(err == nil)
		})
	}
	// the curve with unusual points and scalars
	a := c.NZPoint(std())
	id := vref.ID()
	ng := vref.Secp{}.Neg(a)
	for _, x := range []vref.Pt{a, id, ng} {
		for _, y := range []vref.Pt{a, id, ng, q} {
			o("curve Add special", func() string { return xy(cv.Add(x.X, x.Y, y.X, y.Y)) })
		}
		o("curve Double special", func() string { return xy(cv.Double(x.X, x.Y)) + yes(cv.IsOnCurve(x.X, x.Y)) })
		for _, t := range [][]byte{nil, {0}, {1}, make([]byte, 40), vref.N.Bytes(), c.Bytes(33), c.Bytes(64), bytes.Repeat([]byte{0xff}, 32)} {
			o("curve Mult special", func() string {
				u, v := btcec.NAF(t)
				return xy(cv.ScalarMult(x.X, x.Y, t)) + xy(cv.ScalarBaseMult(t)) + xy(cv.ScalarBaseMultH(t)) + string(u) + "/" + string(v)
			})
		}
	}
	o("Params", func() string {
		t := cv.Params()
		return t.N.Text(16) + t.P.Text(16) + t.Gx.Text(16) + t.Gy.Text(16) + t.B.Text(16) + cv.QPlus1Div4().Text(16)
	})
	// wire
	for _, b := range [][]byte{nil, {0xfc}, {0xfd}, {0xfd, 1}, {0xfd, 1, 0}, {0xfd, 0xfd, 0}, {0xfe, 1, 0, 0}, {0xfe, 1, 0, 0, 0}, {0xfe, 0, 0, 1, 0}, {0xff, 1, 0, 0, 0, 0, 0, 0}, {0xff, 1, 0, 0, 0, 0, 0, 0, 0}, {0xff, 0, 0, 0, 0, 1, 0, 0, 0}, {5, 1, 2, 3, 4, 5}, {5, 1, 2}, {200, 1}} {
		o("wire hostile", func() string {
			v, err := wire.ReadVarInt(bytes.NewReader(b))
			x, err2 := wire.ReadVarBytes(bytes.NewReader(b), 100, "x")
			t := fmt.Sprint(v, err, x, err2)
			_, err = zksigma.ReadECPoint(bytes.NewReader(b))
			_, err2 = zksigma.ReadBigInt(bytes.NewReader(b))
			return t + fmt.Sprint(err, err2)
		})
		o("wire failing", func() string {
			w := &limited{n: len(b)}
			err := wire.WriteVarBytes(w, h)
			err2 := wire.WriteVarInt(&limited{n: len(b) / 2}, 1<<uint(len(b)*4))
			return fmt.Sprint(err, err2)
		})
	}
	return
}

// limited is a writer that fails after n bytes.
type limited struct{ n int }

func (l *limited) Write(b []byte) (int, error) {
	if len(b) > l.n {
		n := l.n
		l.n = 0
		return n, io.ErrShortWrite
	}
	l.n -= len(b)
	return len(b), nil
}

type span struct {
	op       int
	from, to int64
}

// storm runs the operations from n goroutines.
func storm(c *C, ops []op, n, each int) {
	base := runtime.NumGoroutine()
	epoch := time.Now()
	var wg sync.WaitGroup
	logs := make([][]span, n)
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		var seed [32]byte
		c.src.Read(seed[:])
		go func(g int) {
			defer wg.Done()
			r := rand.New(rand.NewChaCha8(seed))
			<-start
			for i := 0; i < each; i++ {
				k := r.IntN(len(ops))
				if each >= len(ops) { // every one
					k = i % len(ops)
				} else if i%3 == 0 { // all the same for a while
					k = (i / 3 * 7) % len(ops)
				}
				t := int64(time.Since(epoch))
				msg := func() (s string) {
					defer func() {
						if x := recover(); x != nil {
							buf := make([]byte, 4096)
							s = fmt.Sprintf("panics: %v\n%s", x, buf[:runtime.Stack(buf, false)])
						}
					}()
					return ops[k].f(r)
				}()
				logs[g] = append(logs[g], span{k, t, int64(time.Since(epoch))})
				if msg != "" {
					c.Violation("concurrent", "%s, %d goroutines: %s", ops[k].name, n, msg)
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	settled(c, base, "a storm")
	// what overlapped what
	var all []span
	for _, l := range logs {
		all = append(all, l...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].from < all[j].from })
	over := 0
	for i, a := range all {
		for j := i + 1; j < len(all) && all[j].from < a.to; j++ {
			over++
			c.Distinct("overlap", ops[a.op].name, ops[all[j].op].name)
		}
		switch ops[a.op].class {
		case "prove":
			c.Count("proofs made", 1)
		case "verify":
			c.Count("proofs verified", 1)
		case "wire":
			c.Count("wire operations", 1)
		case "btcec":
			c.Count("btcec operations", 1)
		case "rare":
			c.Count("unusual calls", 1)
		case "own":
			c.Count("calls on objects of their own", 1)
		}
	}
	c.Count("operations", len(all))
	c.Count("overlaps", over)
}

func runC20(w *W) {
	procs := runtime.GOMAXPROCS(0)
	setup := func(c *C) {
		crand.Reader = napReader{}
		runtime.GOMAXPROCS([]int{2, 4, 8, 16}[c.R.IntN(4)])
	}
	defer runtime.GOMAXPROCS(procs)
	// every kind by itself, all goroutines on the same values
	for _, kind := range allKinds {
		for i := 0; i < w.Scale(4, 60); i++ {
			w.Case(fmt.Sprintf("kind/%s/%d", kind, i), func(c *C) {
				e := envs()[i%len(envs())]
				z := e.L
				if i%4 == 3 {
					z.C = yieldCurve{z.C}
				}
				ops := proofOps(c, e, z, kind)
				if ops == nil {
					return
				}
				setup(c)
				n := 8
				if kind == kRange {
					n = 4
				}
				storm(c, ops, n, 12)
				c.Sample("%d goroutines on one %s proof over %s", n, kind, e.Name)
			})
		}
	}
	// points, wire, btcec by themselves
	for i := 0; i < w.Scale(12, 200); i++ {
		w.Case(fmt.Sprintf("points/%d", i), func(c *C) {
			e := envs()[i%len(envs())]
			z := e.L
			if i%3 == 2 {
				z.C = yieldCurve{z.C}
			}
			ops := pointOps(c, e, z)
			setup(c)
			storm(c, ops, 8, 40)
		})
		w.Case(fmt.Sprintf("wire/%d", i), func(c *C) {
			ops := wireOps(c)
			setup(c)
			storm(c, ops, 12, 12)
		})
		w.Case(fmt.Sprintf("btcec/%d", i), func(c *C) {
			ops := btcecOps(c)
			setup(c)
			storm(c, ops, 8, 40)
		})
	}
	// unusual and wrong arguments, results of the calls before
	for i := 0; i < w.Scale(6, 120); i++ {
		w.Case(fmt.Sprintf("rare/%d", i), func(c *C) {
			e := envs()[i%len(envs())]
			ops := rareOps(c, e, e.L)
			setup(c)
			storm(c, ops, 4, len(ops))
		})
		w.Case(fmt.Sprintf("rare btcec/%d", i), func(c *C) {
			ops := rareBtcec(c)
			setup(c)
			storm(c, ops, 6, len(ops))
		})
		w.Case(fmt.Sprintf("own/%d", i), func(c *C) {
			ops := ownOps(c, envs()[i%len(envs())], 4)
			setup(c)
			storm(c, ops, 6, len(ops))
		})
	}
	// everything at once, several parameter sets
	for i := 0; i < w.Scale(8, 160); i++ {
		w.Case(fmt.Sprintf("all/%d", i), func(c *C) {
			var ops []op
			for j := 0; j < 2; j++ {
				e := envs()[(i+j*3)%len(envs())]
				z := e.L
				if j == 1 {
					z.C = yieldCurve{z.C}
				}
				ks := allKinds
				if j == 1 {
					ks = sigmaKinds
				}
				for _, k := range ks {
					ops = append(ops, proofOps(c, e, z, k)...)
				}
				ops = append(ops, pointOps(c, e, z)...)
			}
			ops = append(ops, wireOps(c)...)
			ops = append(ops, btcecOps(c)...)
			setup(c)
			storm(c, ops, 10, 30)
		})
	}
	// first use in fresh processes
	for i := 0; i < w.Scale(16, 200); i++ {
		w.Case(fmt.Sprintf("first/%d", i), func(c *C) {
			for j := 0; j < 8; j++ {
				bin := os.Getenv("VFIRST")
				if j%4 == 3 {
					bin = os.Getenv("VFIRSTZ")
				}
				firstUse(c, bin, fmt.Sprint(int64(i)*100+int64(j)+c.w.seed*100000))
			}
		})
	}
}

func firstUse(c *C, bin, arg string) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, arg)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 atexit_sleep_ms=0 exitcode=0", "GOTRACEBACK=all")
	b, err := cmd.CombinedOutput()
	s := string(b)
	c.Count("first-use processes", 1)
	for _, r := range raceReports(s) {
		c.Violation("first race", "first calls: %s", r)
	}
	if i := strings.Index(s, "MISMATCH"); i >= 0 {
		c.Violation("first result", "first calls: %s", clip(s[i:], 2000))
	}
	if err != nil {
		if strings.Contains(s, "mit-dci/zksigma") || ctx.Err() != nil {
			c.Violation("first crash", "first calls: %v: %s", err, clip(s, 3000))
		} else {
			panic(fmt.Sprintf("%s: %v: %s", bin, err, clip(s, 500)))
		}
	}
	if i := strings.Index(s, "first:"); i >= 0 {
		c.Distinct(s[i:])
	}
}
