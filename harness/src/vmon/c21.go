package main

import (
	"bytes"
	"crypto/elliptic"
	"crypto/sha256"
	"fmt"
	"math/big"
	"reflect"
	"slices"

	"github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"

	"vref"
)

func init() {
	register(&Check{ID: "C21", Level: "exploration",
		Rule:  "histories of all operations of the library on registers of integers, points, byte strings (with bytes behind their end), proofs, keys and signatures, passed without copying and with the same object in several places; successful, refused and failing calls. After every call every object ever passed or returned and the shared values (identity, generators, table, curve constants) are compared with the snapshot taken when they first appeared; verdicts are asked again later; at the end every entry of the curve's tables is exercised. Non-trivial: a distinct call with its operands",
		Run:   runC21,
		Floor: map[string]int64{"calls": 12000, "objects watched": 20000, "comparisons": 1000000, "verdicts": 3000, "verdicts asked again": 400, "table entries": 16000, "hostile inputs": 200, "long byte strings": 200}})
}

// book watches objects.
type book struct {
	c       *C
	e       *Env
	ints    []*big.Int
	pts     []zksigma.ECPoint
	bufs    [][]byte
	proofs  []bproof
	keys    []*btcec.PrivateKey
	sigs    []*btcec.Signature
	watched []watch
	seen    map[interface{}]bool
	what    string
}

type watch struct {
	name string
	from string
	now  func() string
	snap string
}

type bproof struct {
	kind   string
	p      interface{}
	stmt   []zksigma.ECPoint
	asked  int
	answer string
}

func (b *book) watch(id interface{}, name string, now func() string) {
	if id != nil {
		if b.seen[id] {
			return
		}
		b.seen[id] = true
	}
	b.watched = append(b.watched, watch{name, b.what, now, now()})
	b.c.Count("objects watched", 1)
}

func bits(v *big.Int) string {
	if v == nil {
		return "nil"
	}
	return v.Text(62)
}

func (b *book) wint(v *big.Int) {
	if v != nil {
		b.watch(v, "an integer", func() string { return bits(v) })
	}
}

func (b *book) wpt(p zksigma.ECPoint) {
	b.wint(p.X)
	b.wint(p.Y)
}

// wbuf watches a slice with all of its capacity.
func (b *book) wbuf(s []byte) {
	if cap(s) == 0 {
		return
	}
	s = s[:cap(s)]
	b.watch(&s[0], "a byte string", func() string { return string(s) })
}

// shape is everything exported of a value.
func shape(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if i, ok := v.Interface().(*big.Int); ok {
			return bits(i)
		}
		return shape(v.Elem())
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				s += shape(v.Field(i)) + ","
			}
		}
		return s + "}"
	case reflect.Slice:
		s := fmt.Sprintf("%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			s += shape(v.Index(i)) + ","
		}
		return s + "]"
	}
	return ""
}

func (b *book) wproof(p interface{}) {
	b.watch(p, fmt.Sprintf("a %T", p), func() string { return shape(reflect.ValueOf(p)) + string(libBytes(p)) })
}

func (b *book) wsig(s *btcec.Signature) {
	b.wint(s.R)
	b.wint(s.S)
	b.watch(s, "a signature", func() string { return fmt.Sprintf("%p %p", s.R, s.S) })
}
func (b *book) wpub(k *btcec.PublicKey) {
	b.wint(k.X)
	b.wint(k.Y)
	b.watch(k, "a public key", func() string { return fmt.Sprintf("%p %p", k.X, k.Y) })
}
func (b *book) wpriv(k *btcec.PrivateKey) {
	b.wint(k.D)
	b.wint(k.X)
	b.wint(k.Y)
	b.watch(k, "a private key", func() string { return fmt.Sprintf("%p %p %p", k.D, k.X, k.Y) })
}

func (b *book) wcurve(name string, c elliptic.Curve) {
	p := c.Params()
	b.watch(nil, "the parameters of "+name, func() string {
		q := c.Params()
		return fmt.Sprintf("%x %x %x %x %x %d %s %v", q.P, q.N, q.B, q.Gx, q.Gy, q.BitSize, q.Name, q == p)
	})
}

func (b *book) shared() {
	b.watch(nil, "the shared identity point", func() string { return hx(zksigma.Zero) })
	b.watch(nil, "the shared zero", func() string { return bits(zksigma.BigZero) })
	b.watch(nil, "the default parameters", func() string {
		z := zksigma.TestCurve
		return hx(z.G) + hx(z.H) + fmt.Sprint(len(z.HPoints), z.C == elliptic.Curve(btcec.S256()))
	})
	for _, e := range envs() {
		z := e.L
		b.watch(nil, "the table of powers of "+e.Name, func() string {
			h := sha256.New()
			for _, p := range z.HPoints {
				h.Write([]byte(hx(p)))
			}
			return string(h.Sum(nil))
		})
		b.watch(nil, "the generators of "+e.Name, func() string { return hx(z.G) + hx(z.H) })
		b.wcurve(e.Name, z.C)
	}
	k := btcec.S256()
	b.watch(nil, "the curve", func() string { return fmt.Sprintf("%d %x %v", k.H, k.QPlus1Div4(), k == btcec.S256()) })
}

// look compares everything with its snapshot.
func (b *book) look() {
	for i := range b.watched {
		w := &b.watched[i]
		if now := w.now(); now != w.snap {
			b.c.Violation("changed", "%s: %s, there since %q, changes from %s to %s", b.what, w.name, w.from, clip(fmt.Sprintf("%q", w.snap), 700), clip(fmt.Sprintf("%q", now), 700))
			w.snap = now
		}
	}
	b.c.Count("comparisons", len(b.watched))
}

func newBook(c *C, e *Env) *book {
	b := &book{c: c, e: e, seen: map[interface{}]bool{}, what: "start"}
	b.shared()
	n := e.P.Grp.Order()
	for i := 0; i < 10; i++ {
		v := c.Int(n)
		if i < 2 {
			v = c.Scalar(n)
		}
		b.addInt(v)
		p, _ := c.Point(e)
		b.addPt(lp(p))
		b.addBuf(c.slack(c.Bytes(c.R.IntN(60))))
	}
	b.addPt(e.L.G)
	b.addPt(e.L.H)
	b.addPt(zksigma.Zero)
	b.addPt(e.L.HPoints[c.R.IntN(40)])
	b.ints = append(b.ints, zksigma.BigZero)
	b.ints = append(b.ints, e.L.C.Params().N) // an argument that is a curve constant
	for i := 0; i < 3; i++ {
		k := privKey(c.NonZero(vref.N))
		b.keys = append(b.keys, k)
		b.wpriv(k)
	}
	return b
}

// slack puts bytes behind a slice.
func (c *C) slack(s []byte) []byte {
	k := c.R.IntN(40)
	t := append(bytes.Clone(s), c.Bytes(k)...)
	return t[:len(s)]
}

func (b *book) addInt(v *big.Int) {
	b.wint(v)
	if len(b.ints) < 40 {
		b.ints = append(b.ints, v)
	} else {
		b.ints[b.c.R.IntN(len(b.ints))] = v
	}
}
func (b *book) addPt(p zksigma.ECPoint) {
	b.wpt(p)
	if len(b.pts) < 40 {
		b.pts = append(b.pts, p)
	} else {
		b.pts[b.c.R.IntN(len(b.pts))] = p
	}
}
func (b *book) addBuf(s []byte) {
	b.wbuf(s)
	if len(b.bufs) < 30 {
		b.bufs = append(b.bufs, s)
	} else {
		b.bufs[b.c.R.IntN(len(b.bufs))] = s
	}
}

// call runs one operation, names it, and looks.
func (b *book) call(name string, f func(), parts ...interface{}) {
	b.what = name
	f()
	b.c.Count("calls", 1)
	b.c.Distinct(append([]interface{}{name, b.e.Name}, parts...)...)
	b.look()
}

// ask verifies and compares with the earlier answer.
func (b *book) ask(p *bproof) {
	z := b.e.L
	ok, err := libVerifyRaw(z, p.p, p.stmt)
	a := fmt.Sprint(ok, err)
	if p.asked > 0 {
		b.c.Check(a == p.answer, "answer", "%s: verification of the same %s gives %s, before %s", b.e.Name, p.kind, a, p.answer)
		b.c.Count("verdicts asked again", 1)
	}
	p.asked++
	p.answer = a
	b.c.Count("verdicts", 1)
}

func (b *book) step() {
	c, e, z := b.c, b.e, b.e.L
	rint := func() *big.Int { return pick(c, b.ints) }
	rpt := func() zksigma.ECPoint { return pick(c, b.pts) }
	rbuf := func() []byte { return pick(c, b.bufs) }
	n := e.P.Grp.Order()
	p, q, s, t := rpt(), rpt(), rint(), rint()
	switch c.R.IntN(10) {
	case 0: // same objects
		q = p
	case 1:
		t = s
	case 2:
		s = p.X
	case 3:
		s, t = q.Y, q.X
	}
	switch k := c.R.IntN(22); k {
	case 20:
		b.hostileStep(s)
	case 21: // long byte strings
		x := c.slack(c.Bytes([]int{252, 253, 254, 300, 1000, 65535, 65536, 66000}[c.R.IntN(8)]))
		b.wbuf(x)
		b.call("long", func() {
			var buf bytes.Buffer
			wire.WriteVarBytes(&buf, x)
			wire.WriteVarBytes(&limited{n: c.R.IntN(len(x))}, x)
			enc := buf.Bytes()
			b.wbuf(enc)
			if y, err := wire.ReadVarBytes(bytes.NewReader(enc), 1<<17, "x"); err == nil {
				b.wbuf(y)
			}
			wire.ReadVarBytes(bytes.NewReader(enc), 100, "x")
			b.addInt(zksigma.GenerateChallenge(z, x, p.Bytes()))
			if k := pick(c, b.keys); len(x) < 2000 {
				k.Sign(x)
				if ct, err := btcec.Encrypt(k.PubKey(), x); err == nil {
					b.wbuf(ct)
					btcec.Decrypt(k, ct)
				}
			}
		}, x[:40])
		b.c.Count("long byte strings", 1)
		// slow to compare
		b.watched = slices.DeleteFunc(b.watched, func(w watch) bool { return w.name == "a byte string" && len(w.snap) > 8000 })
	case 0:
		b.call("Mult", func() { b.addPt(z.Mult(p, s)) }, rp(p), s)
	case 1:
		b.call("Add", func() { b.addPt(z.Add(p, q)) }, rp(p), rp(q))
	case 2:
		b.call("Sub", func() { b.addPt(z.Sub(p, q)) }, rp(p), rp(q))
	case 3:
		b.call("Neg", func() { b.addPt(z.Neg(p)) }, rp(p))
		b.call("Equal", func() { p.Equal(q) }, rp(p), rp(q))
		b.call("Bytes", func() { b.addBuf(p.Bytes()) }, rp(p))
	case 4:
		b.call("PedCommitR", func() { b.addPt(zksigma.PedCommitR(z, s, t)) }, s, t)
		b.call("Open", func() { zksigma.Open(z, s, t, p) }, s, t, rp(p))
	case 5:
		b.call("CommitR", func() { b.addPt(zksigma.CommitR(z, p, s)) }, rp(p), s)
		b.call("VerifyR", func() { zksigma.VerifyR(z, q, p, s) }, rp(p), s)
	case 6:
		b.call("PedCommit", func() {
			cm, r, err := zksigma.PedCommit(z, s)
			if c.Check(err == nil, "error", "PedCommit: %v", err) {
				b.addPt(cm)
				b.addInt(r)
			}
		}, s)
		b.call("KeyGen", func() {
			k, x := zksigma.KeyGen(z.C, p)
			b.addPt(k)
			b.addInt(x)
		}, rp(p))
	case 7:
		x, y := rbuf(), rbuf()
		b.call("GenerateChallenge", func() { b.addInt(zksigma.GenerateChallenge(z, x, y, x)) }, x, y)
	case 8: // streams
		x := rbuf()
		if s.BitLen() > 8*1000 {
			s = one()
		}
		b.call("write and read", func() {
			var buf bytes.Buffer
			zksigma.WriteECPoint(&buf, p)
			zksigma.WriteBigInt(&buf, s)
			wire.WriteVarBytes(&buf, x)
			wire.WriteVarInt(&buf, uint64(len(x)))
			enc := c.slack(buf.Bytes())
			b.wbuf(enc)
			r := bytes.NewReader(enc)
			if p2, err := zksigma.ReadECPoint(r); err == nil {
				b.addPt(p2)
			}
			if v, err := zksigma.ReadBigInt(r); err == nil {
				b.addInt(v)
			}
			if y, err := wire.ReadVarBytes(r, 1<<16, "x"); err == nil {
				b.addBuf(y)
			}
		}, rp(p), s, x)
	case 9, 10, 11, 12: // proofs
		kind := pick(c, allKinds)
		if kind == kRange && c.R.IntN(3) != 0 {
			kind = kABC
		}
		in := newInst(c, e, kind)
		var st []zksigma.ECPoint
		for _, x := range in.Stmt {
			st = append(st, lp(x))
			b.wpt(st[len(st)-1])
		}
		for _, w := range in.Wit {
			b.wint(w)
		}
		var pr interface{}
		var err error
		b.call("prove "+kind, func() {
			var blind *big.Int
			pr, blind, err = libProve(kind, z, st, in.Wit, side(in.Right))
			if err == nil && kind == kRange {
				in.Wit = []*big.Int{in.Wit[0], blind}
				in.Stmt = []vref.Pt{e.P.Commit(in.Wit[0], blind)}
				b.addInt(blind)
			}
		}, in.String())
		if !c.Check(err == nil, "error", "%s: %v", in, err) {
			return
		}
		b.wproof(pr)
		var vs []zksigma.ECPoint
		for _, x := range in.VStmt() {
			vs = append(vs, lp(x))
			b.wpt(vs[len(vs)-1])
		}
		b.proofs = append(b.proofs, bproof{kind: kind, p: pr, stmt: vs})
		b.call("verify "+kind, func() { b.ask(&b.proofs[len(b.proofs)-1]) }, in.String())
		b.call("serialize "+kind, func() { b.addBuf(libBytes(pr)) }, in.String())
		// another statement
		bad := append([]zksigma.ECPoint{}, vs...)
		bad[c.R.IntN(len(bad))] = p
		b.proofs = append(b.proofs, bproof{kind: kind, p: pr, stmt: bad})
		b.call("verify other "+kind, func() { b.ask(&b.proofs[len(b.proofs)-1]) }, in.String(), rp(p))
		// parsed, with bytes behind
		enc := c.slack(libBytes(pr))
		b.wbuf(enc)
		b.call("parse "+kind, func() {
			p2, err := libParse(kind, enc)
			if c.Check(err == nil, "error", "parsing a %s: %v", kind, err) {
				b.wproof(p2)
				b.proofs = append(b.proofs, bproof{kind: kind, p: p2, stmt: vs})
			}
		}, enc)
		// changed
		if ref, err := refParse(kind, enc); err == nil {
			m := pick(c, members(ref))
			if m.Int != nil {
				*m.Int = c.Int(n)
			} else {
				*m.Pt = rp(p)
			}
			if fk, err := toLib(kind, ref); err == nil {
				b.wproof(fk)
				b.proofs = append(b.proofs, bproof{kind: kind, p: fk, stmt: vs})
				b.call("verify changed "+kind, func() { b.ask(&b.proofs[len(b.proofs)-1]) }, in.String(), m.Name)
			}
		}
		if len(b.proofs) > 24 {
			b.proofs = b.proofs[len(b.proofs)-24:]
		}
	case 13: // refused
		kind := pick(c, allKinds)
		in := newInst(c, e, kind)
		var st []zksigma.ECPoint
		for _, x := range in.Stmt {
			st = append(st, lp(x))
		}
		w := append([]*big.Int{}, in.Wit...)
		w[c.R.IntN(len(w))] = s
		if len(st) > 0 {
			st[c.R.IntN(len(st))] = p
		}
		for _, x := range st {
			b.wpt(x)
		}
		sd := zksigma.Side(c.R.IntN(4) - 1)
		b.call("prove wrong "+kind, func() { libProve(kind, z, st, w, sd) }, in.String(), s, rp(p))
	case 14, 15: // asked again
		if len(b.proofs) > 0 {
			pf := &b.proofs[c.R.IntN(len(b.proofs))]
			b.call("verify again "+pf.kind, func() { b.ask(pf) })
		}
	case 16, 17:
		b.keysStep(rbuf(), p, s)
	default:
		b.curveStep(p, q, rbuf())
	}
}

// hostileStep parses what is no encoding, or no good one.
func (b *book) hostileStep(s *big.Int) {
	c, z := b.c, b.e.L
	cv := btcec.S256()
	k := pick(c, b.keys)
	hurt := func(x []byte) []byte {
		x = bytes.Clone(x)
		for i := c.R.IntN(3); i >= 0 && len(x) > 0; i-- {
			switch c.R.IntN(5) {
			case 0:
				x = x[:c.R.IntN(len(x)+1)]
			case 1:
				x = append(x, c.Bytes(c.R.IntN(20))...)
			case 2:
				x[c.R.IntN(min(len(x), 6))] = byte(c.R.IntN(256))
			default:
				x[c.R.IntN(len(x))] ^= byte(1 << c.R.IntN(8))
			}
		}
		x = c.slack(x)
		b.wbuf(x)
		return x
	}
	b.c.Count("hostile inputs", 1)
	switch c.R.IntN(5) {
	case 0, 1:
		if len(b.proofs) == 0 {
			return
		}
		pf := pick(c, b.proofs)
		x := hurt(libBytes(pf.p))
		b.call("parse hostile "+pf.kind, func() {
			if p, err := libParse(pf.kind, x); err == nil {
				b.wproof(p)
				libVerifyRaw(z, p, pf.stmt)
			}
			zksigma.ReadECPoint(bytes.NewReader(x))
			zksigma.ReadBigInt(bytes.NewReader(x))
		}, x)
		// a statement off the curve
		st := append([]zksigma.ECPoint{}, pf.stmt...)
		i := c.R.IntN(len(st))
		st[i] = zksigma.ECPoint{X: cp(st[i].X), Y: new(big.Int).Add(st[i].Y, one())}
		b.wpt(st[i])
		b.call("verify off the curve "+pf.kind, func() { libVerifyRaw(z, pf.p, st) }, x, i)
	case 2:
		g, err := k.Sign(c.Bytes(32))
		if err != nil {
			return
		}
		x := hurt(g.Serialize())
		b.call("parse hostile signature", func() {
			for _, f := range []func([]byte, elliptic.Curve) (*btcec.Signature, error){btcec.ParseSignature, btcec.ParseDERSignature} {
				if g, err := f(x, cv); err == nil {
					b.wsig(g)
					g.Verify(x, k.PubKey())
				}
			}
		}, x)
		odd := &btcec.Signature{R: s, S: g.S}
		b.wsig(odd)
		b.call("verify odd signature", func() { odd.Verify(x, k.PubKey()) }, s, x)
		h := c.Bytes(32)
		if r, err := btcec.SignCompact(cv, k, h, c.Flip()); err == nil {
			r = hurt(r)
			b.call("recover hostile", func() {
				if pk, _, err := btcec.RecoverCompact(cv, r, h); err == nil {
					b.wpub(pk)
				}
			}, r)
		}
	case 3:
		x := hurt([][]byte{k.PubKey().SerializeCompressed(), k.PubKey().SerializeUncompressed(), k.PubKey().SerializeHybrid()}[c.R.IntN(3)])
		b.call("parse hostile key", func() {
			if p, err := btcec.ParsePubKey(x, cv); err == nil {
				b.wpub(p)
			}
			btcec.IsCompressedPubKey(x)
		}, x)
	case 4:
		pad := [][]byte{pkcs(c.Bytes(20)), make([]byte, 16), bytes.Repeat([]byte{17}, 32), append(bytes.Repeat([]byte{1}, 15), 5)}[c.R.IntN(4)]
		x := refSeal(c.NonZero(vref.N), vref.Pt{X: k.X, Y: k.Y}, c.Bytes(16), pad, false)
		if c.Flip() {
			x = hurt(x)
		} else {
			x = c.slack(x)
			b.wbuf(x)
		}
		b.call("decrypt hostile", func() {
			if pt, err := btcec.Decrypt(k, x); err == nil {
				b.wbuf(pt)
			}
		}, x)
	}
}

func (b *book) keysStep(x []byte, p zksigma.ECPoint, s *big.Int) {
	c := b.c
	cv := btcec.S256()
	k := pick(c, b.keys)
	h := x
	if len(h) == 0 {
		h = c.slack(c.Bytes(32))
		b.wbuf(h)
	}
	addSig := func(g *btcec.Signature) {
		b.wsig(g)
		if b.sigs = append(b.sigs, g); len(b.sigs) > 10 {
			b.sigs = b.sigs[1:]
		}
	}
	switch c.R.IntN(9) {
	case 0:
		b.call("Sign", func() {
			if g, err := k.Sign(h); err == nil {
				addSig(g)
			}
		}, k.D, h)
	case 1:
		if len(b.sigs) > 0 {
			g := pick(c, b.sigs)
			b.call("Verify", func() { g.Verify(h, k.PubKey()) }, g.R, h)
			b.call("Serialize", func() { b.addBuf(g.Serialize()) }, g.R)
			hi := &btcec.Signature{R: g.R, S: new(big.Int).Sub(vref.N, g.S)}
			b.wsig(hi)
			b.call("Serialize high", func() { b.addBuf(hi.Serialize()) }, g.R)
			d := c.slack(g.Serialize())
			b.wbuf(d)
			b.call("ParseSignature", func() {
				if g, err := btcec.ParseSignature(d, cv); err == nil {
					addSig(g)
				}
				if g, err := btcec.ParseDERSignature(d, cv); err == nil {
					addSig(g)
				}
			}, d)
			b.call("IsEqual", func() { g.IsEqual(pick(c, b.sigs)) })
		}
	case 2:
		b.call("SignCompact", func() {
			if r, err := btcec.SignCompact(cv, k, h, c.Flip()); err == nil {
				r = append(r, c.Bytes(3)...)[:len(r)]
				b.wbuf(r)
				if pk, _, err := btcec.RecoverCompact(cv, r, h); err == nil {
					b.wpub(pk)
				}
			}
		}, k.D, h)
	case 3:
		b.call("Encrypt", func() {
			if ct, err := btcec.Encrypt(k.PubKey(), x); err == nil {
				ct = c.slack(ct)
				b.wbuf(ct)
				if pt, err := btcec.Decrypt(k, ct); err == nil {
					b.addBuf(pt)
				}
				bad := c.slack(ct)
				bad[c.R.IntN(len(bad))] ^= 8
				b.wbuf(bad)
				btcec.Decrypt(k, bad)
			}
		}, k.D, x)
	case 4:
		b.call("SharedSecret", func() { b.addBuf(btcec.GenerateSharedSecret(k, pick(c, b.keys).PubKey())) }, k.D)
	case 5:
		pk := k.PubKey()
		b.wpub(pk)
		b.call("SerializePub", func() {
			for _, s := range [][]byte{pk.SerializeCompressed(), pk.SerializeUncompressed(), pk.SerializeHybrid()} {
				s = c.slack(s)
				b.wbuf(s)
				if p2, err := btcec.ParsePubKey(s, cv); err == nil {
					b.wpub(p2)
					pk.IsEqual(p2)
				}
				s = bytes.Clone(s)
				s[len(s)-1] ^= 1
				b.wbuf(s)
				btcec.ParsePubKey(s, cv)
			}
		}, k.D)
	case 6:
		d := c.slack(c.NonZero(vref.N).Bytes())
		b.wbuf(d)
		b.call("PrivKeyFromBytes", func() {
			k2, p2 := btcec.PrivKeyFromBytes(cv, d)
			b.wpriv(k2)
			b.wpub(p2)
			b.addBuf(k2.Serialize())
			b.keys[c.R.IntN(len(b.keys))] = k2
		}, d)
	case 7:
		b.call("NewPrivateKey", func() {
			if k2, err := btcec.NewPrivateKey(cv); err == nil {
				b.wpriv(k2)
			}
		})
	case 8:
		b.call("ToECDSA", func() {
			e := k.ToECDSA()
			b.wint(e.D)
			p := k.PubKey().ToECDSA()
			b.wint(p.X)
		}, k.D)
	}
}

func (b *book) curveStep(p, q zksigma.ECPoint, x []byte) {
	cv := b.e.L.C
	add := func(x, y *big.Int) { b.addPt(zksigma.ECPoint{X: x, Y: y}) }
	kc, ok := cv.(*btcec.KoblitzCurve)
	on := func(p zksigma.ECPoint) bool { return b.e.P.Grp.OnCurve(rp(p)) && !rp(p).IsID() }
	switch b.c.R.IntN(6) {
	case 0:
		if ok || on(p) && on(q) {
			b.call("curve.Add", func() { add(cv.Add(p.X, p.Y, q.X, q.Y)) }, rp(p), rp(q))
		}
	case 1:
		if ok || on(p) {
			b.call("curve.Double", func() { add(cv.Double(p.X, p.Y)) }, rp(p))
		}
	case 2:
		if ok || on(p) {
			b.call("curve.ScalarMult", func() { add(cv.ScalarMult(p.X, p.Y, x)) }, rp(p), x)
		}
	case 3:
		b.call("curve.ScalarBaseMult", func() { add(cv.ScalarBaseMult(x)) }, x)
		if ok {
			b.call("curve.ScalarBaseMultH", func() { add(kc.ScalarBaseMultH(x)) }, x)
		}
	case 4:
		b.call("curve.IsOnCurve", func() { btcec.S256().IsOnCurve(p.X, p.Y); btcec.S256().IsOnCurve(p.Y, p.X) }, rp(p))
	case 5:
		b.call("NAF", func() {
			s, t := btcec.NAF(x)
			b.addBuf(s)
			b.addBuf(t)
		}, x)
	}
}

func runC21(w *W) {
	for i := 0; i < w.Scale(96, 2400); i++ {
		w.Case(fmt.Sprintf("history/%d", i), func(c *C) {
			e := envs()[0]
			if i%3 == 2 {
				e = envs()[i%len(envs())]
			}
			b := newBook(c, e)
			for j := 0; j < w.Scale(100, 250); j++ {
				c.Step(j)
				b.step()
			}
			c.Sample("%d objects watched over the history on %s", len(b.watched), e.Name)
		})
	}
	// the tables after all of this
	w.Each("tables", func(c *C) {
		for i := 0; i < 32; i++ {
			c.Step(i)
			for v := 1; v < 256; v++ {
				k := make([]byte, 32)
				k[i] = byte(v)
				if i*255+v <= 0 || (i*256+v)%w.of != w.shard && w.only == "" {
					continue
				}
				s := new(big.Int).SetBytes(k)
				x, y := btcec.S256().ScalarBaseMult(k)
				c.Check((vref.Pt{X: x, Y: y}).Eq(vref.MulG(s)), "tables", "after the histories %x*G is wrong", k)
				x, y = btcec.S256().ScalarBaseMultH(k)
				c.Check((vref.Pt{X: x, Y: y}).Eq(vref.MulH(s)), "tables", "after the histories %x*H is wrong", k)
				c.Count("table entries", 2)
			}
		}
	})
}
