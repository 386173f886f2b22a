package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"reflect"
	"slices"
	"strings"

	"github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"

	"vref"
)

func init() {
	register(&Check{ID: "C25", Level: "exploration",
		Rule:  "the same integers, points, byte slices, keys, signatures, proofs and parameter sets passed again and again with their contents overwritten in between (one of them, all, exchanged, put back), and equal contents in other objects; byte slices, integers, points and keys that were returned are overwritten by the caller, and buffers after being parsed. Every result is compared with an independent implementation on the contents at the time of the call. Non-trivial: a distinct operation with its contents",
		Run:   runC25,
		Floor: map[string]int64{"points overwritten": 3000, "kept byte strings": 500, "calls": 15000, "calls after a change": 10000, "calls after a restore": 2500, "results overwritten": 6000, "buffers overwritten after parsing": 1500, "proofs made": 600, "verdicts true": 700, "verdicts false": 2000, "members overwritten": 400, "parameters overwritten": 150}})
}

// vals are operands by value.
type vals struct {
	p []vref.Pt
	i []*big.Int
	b [][]byte
}

func (v vals) copy() (r vals) {
	for _, p := range v.p {
		r.p = append(r.p, p.Copy())
	}
	for _, i := range v.i {
		r.i = append(r.i, cp(i))
	}
	for _, b := range v.b {
		r.b = append(r.b, bytes.Clone(b))
	}
	return
}

func (v vals) String() string {
	s := ""
	for _, p := range v.p {
		s += fmt.Sprintf("(%x,%x) ", p.X, p.Y)
	}
	return s + fmt.Sprintf("%x %x", v.i, v.b)
}

// objs are the caller's objects: they stay, their contents change.
type objs struct {
	p    []zksigma.ECPoint
	i    []*big.Int
	room [][]byte
	b    [][]byte
}

func mkObjs(v vals) *objs {
	o := &objs{}
	for range v.p {
		o.p = append(o.p, zksigma.ECPoint{X: new(big.Int), Y: new(big.Int)})
	}
	for range v.i {
		o.i = append(o.i, new(big.Int))
	}
	for range v.b {
		o.room = append(o.room, make([]byte, 512))
		o.b = append(o.b, nil)
	}
	o.set(v)
	return o
}

func (o *objs) set(v vals) {
	for k, p := range v.p {
		o.p[k].X.Set(p.X)
		o.p[k].Y.Set(p.Y)
	}
	for k, i := range v.i {
		o.i[k].Set(i)
	}
	for k, b := range v.b {
		o.b[k] = o.room[k][:copy(o.room[k], b)]
	}
}

// vop is a deterministic operation: lib and ref give a printable result.
type vop struct {
	name string
	gen  func(c *C, e *Env) vals
	lib  func(u *user, o *objs) string
	ref  func(e *Env, v vals) string
}

// pt prints a point that was computed for the caller and overwrites it, unless
// it is one of the arguments or parameters, which may be handed back as they are.
func (u *user) pt(p zksigma.ECPoint, args ...zksigma.ECPoint) string {
	s := pstr(p.X, p.Y)
	if p.X == nil || p.Y == nil || rp(p).IsID() {
		return s
	}
	same := func(x *big.Int, q zksigma.ECPoint) bool { return x.Cmp(q.X) == 0 || x.Cmp(q.Y) == 0 }
	for _, q := range append(append(args, u.z.G, u.z.H, lp(vref.G), lp(vref.H)), u.z.HPoints...) {
		if same(p.X, q) || same(p.Y, q) {
			return s
		}
	}
	u.int(p.X)
	u.int(p.Y)
	u.count("points overwritten", 1)
	return s
}

// user is the caller, who overwrites what it was given.
type user struct {
	c *C
	e *Env
	z zksigma.ZKPCurveParams
}

func (u *user) bytes(b []byte) string {
	s := fmt.Sprintf("%x", b)
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0xa5
	}
	u.count("results overwritten", 1)
	return s
}

func (u *user) count(name string, n int) {
	if u.c != nil {
		u.c.Count(name, n)
	}
}

func (u *user) int(v *big.Int) string {
	if v == nil {
		return "nil"
	}
	s := fmt.Sprintf("%x", v)
	if v.Sign() != 0 {
		w := v.Bits()
		for i := range w {
			w[i] = ^w[i]
		}
		v.SetInt64(-5)
		u.count("results overwritten", 1)
	}
	return s
}

func (u *user) xy(x, y *big.Int) func([]zksigma.ECPoint) string {
	return func(args []zksigma.ECPoint) string { return u.pt(zksigma.ECPoint{X: x, Y: y}, args...) }
}

func pstr(x, y *big.Int) string { return fmt.Sprintf("(%x,%x)", x, y) }

func rstr(p vref.Pt) string { return pstr(p.X, p.Y) }

// mixed points: any points of the group, often the same ones.
func genPts(n, ni, nb int) func(c *C, e *Env) vals {
	return func(c *C, e *Env) (v vals) {
		for k := 0; k < n; k++ {
			p, _ := c.Point(e)
			v.p = append(v.p, p.Copy())
		}
		for k := 0; k < ni; k++ {
			v.i = append(v.i, cp(c.Int(e.P.Grp.Order())))
		}
		for k := 0; k < nb; k++ {
			v.b = append(v.b, c.Bytes(c.R.IntN(70)))
		}
		return
	}
}

func c25points() []vop {
	mul := func(e *Env, p vref.Pt, s *big.Int) vref.Pt { return e.P.Grp.Mul(p, e.P.Mod(s)) }
	return []vop{
		{"Mult", genPts(1, 1, 0), func(u *user, o *objs) string { return u.pt(u.z.Mult(o.p[0], o.i[0]), o.p...) },
			func(e *Env, v vals) string { return rstr(mul(e, v.p[0], v.i[0])) }},
		{"Mult by generator", genPts(0, 1, 0), func(u *user, o *objs) string {
			r, s := u.z.Mult(u.z.G, o.i[0]), u.z.Mult(u.z.H, o.i[0])
			return u.pt(r) + u.pt(s)
		}, func(e *Env, v vals) string { return rstr(mul(e, e.P.G, v.i[0])) + rstr(mul(e, e.P.H, v.i[0])) }},
		{"Add", genPts(2, 0, 0), func(u *user, o *objs) string { return u.pt(u.z.Add(o.p[0], o.p[1]), o.p...) },
			func(e *Env, v vals) string { return rstr(e.P.Grp.Add(v.p[0], v.p[1])) }},
		{"Sub", genPts(2, 0, 0), func(u *user, o *objs) string { return u.pt(u.z.Sub(o.p[0], o.p[1]), o.p...) },
			func(e *Env, v vals) string { return rstr(e.P.Sub(v.p[0], v.p[1])) }},
		{"Neg", genPts(1, 0, 0), func(u *user, o *objs) string { r := u.z.Neg(o.p[0]); return pstr(r.X, r.Y) },
			func(e *Env, v vals) string { return rstr(e.P.Grp.Neg(v.p[0])) }},
		{"Equal", genPts(2, 0, 0), func(u *user, o *objs) string { return fmt.Sprint(o.p[0].Equal(o.p[1])) },
			func(e *Env, v vals) string { return fmt.Sprint(v.p[0].Eq(v.p[1])) }},
		{"Bytes", genPts(1, 0, 0), func(u *user, o *objs) string { return u.bytes(o.p[0].Bytes()) },
			func(e *Env, v vals) string {
				return fmt.Sprintf("%x", append(v.p[0].X.Bytes(), v.p[0].Y.Bytes()...))
			}},
		{"PedCommitR", genPts(0, 2, 0), func(u *user, o *objs) string {
			return u.pt(zksigma.PedCommitR(u.z, o.i[0], o.i[1]))
		}, func(e *Env, v vals) string { return rstr(e.P.Commit(v.i[0], v.i[1])) }},
		{"Open", func(c *C, e *Env) vals {
			v := genPts(1, 2, 0)(c, e)
			if c.Flip() {
				v.p[0] = e.P.Commit(v.i[0], v.i[1])
			}
			return v
		}, func(u *user, o *objs) string { return fmt.Sprint(zksigma.Open(u.z, o.i[0], o.i[1], o.p[0])) },
			func(e *Env, v vals) string { return fmt.Sprint(e.P.Commit(v.i[0], v.i[1]).Eq(v.p[0])) }},
		{"CommitR", genPts(1, 1, 0), func(u *user, o *objs) string { return u.pt(zksigma.CommitR(u.z, o.p[0], o.i[0]), o.p...) },
			func(e *Env, v vals) string { return rstr(mul(e, v.p[0], v.i[0])) }},
		{"VerifyR", func(c *C, e *Env) vals {
			v := genPts(2, 1, 0)(c, e)
			if c.Flip() {
				v.p[1] = mul(e, v.p[0], v.i[0])
			}
			return v
		}, func(u *user, o *objs) string { return fmt.Sprint(zksigma.VerifyR(u.z, o.p[1], o.p[0], o.i[0])) },
			func(e *Env, v vals) string { return fmt.Sprint(mul(e, v.p[0], v.i[0]).Eq(v.p[1])) }},
		{"GenerateChallenge", genPts(1, 0, 2), func(u *user, o *objs) string {
			return u.int(zksigma.GenerateChallenge(u.z, o.p[0].Bytes(), o.b[0], o.b[1]))
		}, func(e *Env, v vals) string {
			h := sha256.New()
			h.Write(v.p[0].X.Bytes())
			h.Write(v.p[0].Y.Bytes())
			h.Write(v.b[0])
			h.Write(v.b[1])
			return fmt.Sprintf("%x", e.P.Mod(new(big.Int).SetBytes(h.Sum(nil))))
		}},
		{"write", genPts(1, 1, 1), func(u *user, o *objs) string {
			var buf bytes.Buffer
			zksigma.WriteECPoint(&buf, o.p[0])
			zksigma.WriteBigInt(&buf, o.i[0])
			wire.WriteVarBytes(&buf, o.b[0])
			return u.bytes(buf.Bytes())
		}, func(e *Env, v vals) string {
			return fmt.Sprintf("%x", append(append(vref.EncPt(v.p[0]), vref.EncInt(v.i[0])...), vref.VarBytes(v.b[0])...))
		}},
		{"read", func(c *C, e *Env) vals {
			v := genPts(1, 1, 1)(c, e)
			return vals{b: [][]byte{append(append(vref.EncPt(v.p[0]), vref.EncInt(v.i[0])...), vref.VarBytes(v.b[0])...)}}
		}, func(u *user, o *objs) string {
			r := bytes.NewReader(o.b[0])
			p, err := zksigma.ReadECPoint(r)
			if err != nil {
				return err.Error()
			}
			i, err := zksigma.ReadBigInt(r)
			if err != nil {
				return err.Error()
			}
			b, err := wire.ReadVarBytes(r, 1000, "b")
			if err != nil {
				return err.Error()
			}
			for k := range o.room[0] { // the caller uses the buffer for something else
				o.room[0][k] = 0x77
			}
			u.count("buffers overwritten after parsing", 1)
			return u.pt(p) + u.int(i) + u.bytes(b)
		}, func(e *Env, v vals) string {
			d := vref.Dec{B: v.b[0]}
			return rstr(d.Pt()) + fmt.Sprintf("%x", d.Int()) + fmt.Sprintf("%x", d.VarBytes())
		}},
	}
}

// key objects that stay.
func (o *objs) priv(c *C) *btcec.PrivateKey {
	k := &btcec.PrivateKey{}
	k.Curve = btcec.S256()
	k.D, k.X, k.Y = o.i[0], o.p[0].X, o.p[0].Y
	return k
}
func (o *objs) pub(i int) *btcec.PublicKey {
	return &btcec.PublicKey{Curve: btcec.S256(), X: o.p[i].X, Y: o.p[i].Y}
}

func keyVals(c *C) vals {
	d := c.NonZero(vref.N)
	return vals{p: []vref.Pt{vref.MulG(d)}, i: []*big.Int{cp(d)}}
}

// the key objects are made once per set of operands
type keyset struct {
	priv *btcec.PrivateKey
	pubs []*btcec.PublicKey
	sig  *btcec.Signature
}

func c25keys() []vop {
	ks := map[*objs]*keyset{}
	get := func(o *objs) *keyset {
		if ks[o] == nil {
			k := &keyset{}
			if len(o.i) > 0 && len(o.p) > 0 {
				k.priv = o.priv(nil)
			}
			for i := range o.p {
				k.pubs = append(k.pubs, o.pub(i))
			}
			if len(o.i) > 2 {
				k.sig = &btcec.Signature{R: o.i[1], S: o.i[2]}
			}
			if len(ks) > 8 {
				clear(ks)
			}
			ks[o] = k
		}
		return ks[o]
	}
	sigVals := func(c *C) vals {
		v := keyVals(c)
		h := c.Bytes(32)
		r, s := vref.SignECDSA(v.i[0], h)
		v.i = append(v.i, r, s)
		v.b = [][]byte{h}
		switch c.R.IntN(4) {
		case 0:
			v.i[1] = c.NonZero(vref.N)
		case 1:
			v.i[2] = new(big.Int).Sub(vref.N, s)
		}
		return v
	}
	cv := btcec.S256()
	return []vop{
		{"Sign", func(c *C, e *Env) vals { v := keyVals(c); v.b = [][]byte{c.Bytes(32)}; return v },
			func(u *user, o *objs) string {
				g, err := get(o).priv.Sign(o.b[0])
				if err != nil {
					return err.Error()
				}
				return fmt.Sprintf("%x %x", g.R, g.S)
			},
			func(e *Env, v vals) string { r, s := vref.SignECDSA(v.i[0], v.b[0]); return fmt.Sprintf("%x %x", r, s) }},
		{"SignCompact", func(c *C, e *Env) vals { v := keyVals(c); v.b = [][]byte{c.Bytes(32)}; return v },
			func(u *user, o *objs) string {
				b, err := btcec.SignCompact(cv, get(o).priv, o.b[0], true)
				if err != nil {
					return err.Error()
				}
				s := fmt.Sprintf("%x", b[1:])
				p, _, err := btcec.RecoverCompact(cv, b, o.b[0])
				u.bytes(b)
				if err != nil {
					return err.Error()
				}
				return s + pstr(p.X, p.Y)
			},
			func(e *Env, v vals) string {
				r, s := vref.SignECDSA(v.i[0], v.b[0])
				return fmt.Sprintf("%x%x", pad32(r), pad32(s)) + rstr(v.p[0])
			}},
		{"Verify", func(c *C, e *Env) vals { return sigVals(c) },
			func(u *user, o *objs) string { k := get(o); return fmt.Sprint(k.sig.Verify(o.b[0], k.pubs[0])) },
			func(e *Env, v vals) string { return fmt.Sprint(vref.VerifyECDSA(v.p[0], v.b[0], v.i[1], v.i[2])) }},
		{"Serialize signature", func(c *C, e *Env) vals { return sigVals(c) },
			func(u *user, o *objs) string { return u.bytes(get(o).sig.Serialize()) },
			func(e *Env, v vals) string {
				s := v.i[2]
				if s.Cmp(new(big.Int).Rsh(vref.N, 1)) > 0 {
					s = new(big.Int).Sub(vref.N, s)
				}
				return fmt.Sprintf("%x", asm(refInt(v.i[1]), refInt(s)))
			}},
		{"Parse signature", func(c *C, e *Env) vals {
			v := sigVals(c)
			return vals{b: [][]byte{asm(refInt(v.i[1]), refInt(v.i[2]))}}
		},
			func(u *user, o *objs) string {
				g, err := btcec.ParseDERSignature(o.b[0], cv)
				if err != nil {
					return err.Error()
				}
				for k := range o.room[0] {
					o.room[0][k] = 0x30
				}
				u.count("buffers overwritten after parsing", 1)
				return u.int(g.R) + " " + u.int(g.S)
			},
			func(e *Env, v vals) string {
				r, s, err := refSig(v.b[0], true)
				if err != nil {
					return err.Error()
				}
				return fmt.Sprintf("%x %x", r, s)
			}},
		{"Serialize key", func(c *C, e *Env) vals { return keyVals(c) },
			func(u *user, o *objs) string {
				k := get(o)
				return u.bytes(k.pubs[0].SerializeCompressed()) + u.bytes(k.pubs[0].SerializeUncompressed()) + u.bytes(k.pubs[0].SerializeHybrid()) +
					u.bytes(k.priv.Serialize()) + u.bytes(k.priv.PubKey().SerializeCompressed())
			},
			func(e *Env, v vals) string {
				x, y, odd := pad32(v.p[0].X), pad32(v.p[0].Y), v.p[0].Y.Bit(0)
				return fmt.Sprintf("%02x%x04%x%x%02x%x%x%x%02x%x", 2+odd, x, x, y, 6+odd, x, y, pad32(v.i[0]), 2+odd, x)
			}},
		{"Parse keys", func(c *C, e *Env) vals {
			v := keyVals(c)
			b := append([]byte{2 + byte(v.p[0].Y.Bit(0))}, pad32(v.p[0].X)...)
			if c.Flip() {
				b = append(append([]byte{4}, pad32(v.p[0].X)...), pad32(v.p[0].Y)...)
			}
			return vals{b: [][]byte{b, pad32(v.i[0])}}
		},
			func(u *user, o *objs) string {
				p, err := btcec.ParsePubKey(o.b[0], cv)
				if err != nil {
					return err.Error()
				}
				k, q := btcec.PrivKeyFromBytes(cv, o.b[1])
				for j := range o.room {
					for k := range o.room[j] {
						o.room[j][k] = 0x55
					}
				}
				u.count("buffers overwritten after parsing", 2)
				s := pstr(p.X, p.Y) + pstr(q.X, q.Y)
				s += fmt.Sprintf("%x", k.D)
				k.D.SetInt64(0) // the caller erases the key
				return s
			},
			func(e *Env, v vals) string {
				p, _ := refPub(v.b[0])
				d := new(big.Int).SetBytes(v.b[1])
				return rstr(p) + rstr(vref.MulG(d)) + fmt.Sprintf("%x", d)
			}},
		{"IsEqual", func(c *C, e *Env) vals {
			v, w := keyVals(c), keyVals(c)
			v.p = append(v.p, w.p[0])
			if c.Flip() {
				v.p[1] = v.p[0].Copy()
			}
			return v
		},
			func(u *user, o *objs) string { k := get(o); return fmt.Sprint(k.pubs[0].IsEqual(k.pubs[1])) },
			func(e *Env, v vals) string { return fmt.Sprint(v.p[0].Eq(v.p[1])) }},
		{"SharedSecret", func(c *C, e *Env) vals { v, w := keyVals(c), keyVals(c); v.p = append(v.p, w.p[0]); return v },
			func(u *user, o *objs) string {
				k := get(o)
				b := btcec.GenerateSharedSecret(k.priv, k.pubs[1])
				s := fmt.Sprintf("%x", new(big.Int).SetBytes(b))
				u.bytes(b)
				return s
			},
			func(e *Env, v vals) string { return fmt.Sprintf("%x", vref.Secp{}.Mul(v.p[1], v.i[0]).X) }},
		{"Encrypt", func(c *C, e *Env) vals { v := keyVals(c); v.b = [][]byte{c.Bytes(c.R.IntN(50))}; return v },
			func(u *user, o *objs) string {
				k := get(o)
				ct, err := btcec.Encrypt(k.pubs[0], o.b[0])
				if err != nil {
					return err.Error()
				}
				pt, err := refOpen(o.i[0], ct)
				u.bytes(ct)
				return fmt.Sprintf("%x %v", pt, err)
			},
			func(e *Env, v vals) string { return fmt.Sprintf("%x <nil>", v.b[0]) }},
		{"Decrypt", func(c *C, e *Env) vals {
			v := keyVals(c)
			ct := refSeal(c.NonZero(vref.N), v.p[0], c.Bytes(16), pkcs(c.Bytes(c.R.IntN(50))), false)
			v.b = [][]byte{ct}
			return v
		},
			func(u *user, o *objs) string {
				pt, err := btcec.Decrypt(get(o).priv, o.b[0])
				if err != nil {
					return "error"
				}
				return u.bytes(pt)
			},
			func(e *Env, v vals) string {
				pt, err := refOpen(v.i[0], v.b[0])
				if err != nil {
					return "error"
				}
				return fmt.Sprintf("%x", pt)
			}},
	}
}

func c25curve() []vop {
	cv := btcec.S256()
	return []vop{
		{"curve.ScalarMult", genPts(1, 0, 1), func(u *user, o *objs) string { return u.xy(cv.ScalarMult(o.p[0].X, o.p[0].Y, o.b[0]))(o.p) },
			func(e *Env, v vals) string {
				return rstr(vref.Secp{}.Mul(v.p[0], new(big.Int).Mod(new(big.Int).SetBytes(v.b[0]), vref.N)))
			}},
		{"curve.ScalarBaseMult", genPts(0, 0, 1), func(u *user, o *objs) string {
			return u.xy(cv.ScalarBaseMult(o.b[0]))(nil) + u.xy(cv.ScalarBaseMultH(o.b[0]))(nil)
		},
			func(e *Env, v vals) string {
				k := new(big.Int).Mod(new(big.Int).SetBytes(v.b[0]), vref.N)
				return rstr(vref.MulG(k)) + rstr(vref.MulH(k))
			}},
		{"curve.Add", genPts(2, 0, 0), func(u *user, o *objs) string { return u.xy(cv.Add(o.p[0].X, o.p[0].Y, o.p[1].X, o.p[1].Y))(o.p) },
			func(e *Env, v vals) string { return rstr(vref.Secp{}.Add(v.p[0], v.p[1])) }},
		{"curve.Double", genPts(1, 0, 0), func(u *user, o *objs) string { return u.xy(cv.Double(o.p[0].X, o.p[0].Y))(o.p) },
			func(e *Env, v vals) string { return rstr(vref.Secp{}.Add(v.p[0], v.p[0])) }},
		{"curve.IsOnCurve", func(c *C, e *Env) vals {
			v := genPts(1, 0, 0)(c, e)
			v.p[0] = c.NZPoint(e).Copy()
			if c.Flip() {
				v.p[0].Y.Add(v.p[0].Y, one())
			}
			return v
		}, func(u *user, o *objs) string { return fmt.Sprint(cv.IsOnCurve(o.p[0].X, o.p[0].Y)) },
			func(e *Env, v vals) string { return fmt.Sprint(vref.Secp{}.OnCurve(v.p[0])) }},
		{"NAF", genPts(0, 0, 1), func(u *user, o *objs) string {
			p, n := btcec.NAF(o.b[0])
			v := new(big.Int).Sub(new(big.Int).SetBytes(p), new(big.Int).SetBytes(n))
			u.bytes(p)
			u.bytes(n)
			return fmt.Sprintf("%x", v)
		},
			func(e *Env, v vals) string { return fmt.Sprintf("%x", new(big.Int).SetBytes(v.b[0])) }},
	}
}

// history calls one operation on the same objects with changing contents.
func history(c *C, e *Env, op vop, paired bool, rounds int) {
	u := &user{c, e, e.L}
	v := op.gen(c, e)
	o := mkObjs(v)
	o2 := mkObjs(v) // other objects with equal contents at times
	var past []vals
	try := func(o *objs, v vals, how string) {
		want := op.ref(e, v)
		o.set(v)
		got := op.lib(u, o)
		c.Check(got == want, "stale", "%s on %s, %s: %s gives %s, not %s", op.name, e.Name, how, v, got, want)
		c.Count("calls", 1)
		c.Distinct(op.name, e.Name, v.String())
	}
	try(o, v, "first")
	c.Sample("%s on the same objects with contents from %s on", op.name, clip(v.String(), 200))
	past = append(past, v.copy())
	for r := 0; r < rounds; r++ {
		w := op.gen(c, e)
		next := v.copy()
		how := "overwritten"
		switch c.R.IntN(6) {
		case 0, 1: // everything
			next = w.copy()
		case 2, 3: // one operand; a private key goes with its public key
			var alone []func()
			for j := range v.p {
				if j > 0 || !paired {
					alone = append(alone, func() { next.p[j] = w.p[j].Copy() })
				}
			}
			for j := range v.i {
				if j > 0 || !paired {
					alone = append(alone, func() { next.i[j] = cp(w.i[j]) })
				}
			}
			for j := range v.b {
				alone = append(alone, func() { next.b[j] = bytes.Clone(w.b[j]) })
			}
			if paired {
				alone = append(alone, func() { next.p[0], next.i[0] = w.p[0].Copy(), cp(w.i[0]) })
			}
			pick(c, alone)()
		case 4: // as before
			next = pick(c, past).copy()
			how = "put back"
			c.Count("calls after a restore", 1)
		case 5: // two operands exchanged
			if len(v.p) > 1 && len(v.i) == 0 {
				next.p[0], next.p[1] = next.p[1], next.p[0]
				how = "exchanged"
			}
		}
		if c.R.IntN(5) == 0 {
			try(o2, next, "equal contents in other objects")
		}
		try(o, next, how)
		c.Count("calls after a change", 1)
		v = next
		past = append(past, next.copy())
	}
}

// ints are the exported integers of a value.
func ints(v reflect.Value) (l []*big.Int) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return
		}
		if i, ok := v.Interface().(*big.Int); ok {
			return []*big.Int{i}
		}
		return ints(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				l = append(l, ints(v.Field(i))...)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			l = append(l, ints(v.Index(i))...)
		}
	}
	return
}

// proofHistory proves and verifies with statement, witness, buffer and
// parameter objects that stay.
func proofHistory(c *C, es []*Env, kind string, rounds int) {
	type rec struct {
		e    *Env
		stmt []vref.Pt
		enc  []byte
		obj  interface{}
	}
	first := newInst(c, es[0], kind)
	st := mkObjs(vals{p: first.Stmt})
	vst := mkObjs(vals{p: first.VStmt()})
	if kind == kRange {
		vst = mkObjs(vals{p: []vref.Pt{es[0].P.G}})
	}
	wit := mkObjs(vals{i: first.Wit})
	// parameters of the caller's own
	z := zksigma.ZKPCurveParams{C: es[0].L.C, G: lp(es[0].P.G), H: lp(es[0].P.H)}
	for _, q := range es[0].P.Pow {
		z.HPoints = append(z.HPoints, lp(q))
	}
	cur := es[0]
	use := func(e *Env) {
		if e == cur {
			return
		}
		z.C = e.L.C
		z.G.X.Set(e.P.G.X)
		z.G.Y.Set(e.P.G.Y)
		z.H.X.Set(e.P.H.X)
		z.H.Y.Set(e.P.H.Y)
		for i, q := range e.P.Pow {
			if i%2 == 0 {
				z.HPoints[i].X.Set(q.X)
				z.HPoints[i].Y.Set(q.Y)
			} else {
				z.HPoints[i] = lp(q)
			}
		}
		cur = e
		c.Count("parameters overwritten", 1)
	}
	var recs []rec
	room := make([]byte, 1<<15)
	ask := func(r *rec, p interface{}, ref RefProof, e *Env, s []vref.Pt, what string) {
		use(e)
		vst.set(vals{p: s})
		want := refVerify(e.P, ref, s)
		ok, err := libVerifyRaw(z, p, vst.p)
		c.Check(ok == want && (err == nil) == ok, "verdict", "%s %s, %s: %v %v, not %v", e.Name, kind, what, ok, err, want)
		if want {
			c.Count("verdicts true", 1)
		} else {
			c.Count("verdicts false", 1)
		}
		c.Count("calls", 1)
		c.Distinct(kind, e.Name, r.enc, what)
	}
	for k := 0; k < rounds; k++ {
		e := pick(c, es)
		use(e)
		in := newInst(c, e, kind)
		if k > 0 && c.R.IntN(4) == 0 && recs[k-1].e == e && kind != kRange { // one integer of the last one, else the same
			in = newInst(c, e, kind)
		}
		st.set(vals{p: in.Stmt})
		wit.set(vals{i: in.Wit})
		p, blind, err := libProve(kind, z, st.p, wit.i, side(in.Right))
		if !c.Check(err == nil, "refused", "%s: %v", in, err) {
			return
		}
		c.Count("proofs made", 1)
		c.Count("calls", 1)
		if kind == kRange {
			in.Stmt = []vref.Pt{e.P.Commit(in.Wit[0], blind)}
			(&user{c: c}).int(blind)
		}
		enc := libBytes(p)
		copy(room, enc)
		buf := room[:len(enc)]
		enc = bytes.Clone(enc)
		q, err := libParse(kind, buf)
		if !c.Check(err == nil, "parse", "%s: %v", in, err) {
			return
		}
		for i := range buf {
			buf[i] = 0x33
		}
		c.Count("buffers overwritten after parsing", 1)
		again := libBytes(q)
		c.Check(bytes.Equal(again, enc), "parsed", "%s changes with the buffer it was parsed from", in)
		(&user{c: c}).bytes(again)
		c.Check(bytes.Equal(libBytes(q), enc), "bytes", "%s: the serialization changes with the slice returned before", in)
		ref, err := refParse(kind, enc)
		if !c.Check(err == nil, "parse", "%s is not in the documented format: %v", in, err) {
			return
		}
		recs = append(recs, rec{e, in.VStmt(), enc, q})
		r := &recs[len(recs)-1]
		ask(r, q, ref, e, r.stmt, "its own statement")
		// other statements in the same objects, and back
		for j := 0; j < 2; j++ {
			o := pick(c, recs)
			ask(r, q, ref, e, o.stmt, "the statement overwritten")
			ask(r, q, ref, pick(c, es), r.stmt, "the parameters overwritten")
			ask(r, q, ref, e, r.stmt, "the statement put back")
		}
		// members overwritten in place, and back
		if l := ints(reflect.ValueOf(q)); len(l) > 0 {
			m := l[c.R.IntN(len(l))]
			old := cp(m)
			if c.Flip() {
				m.Set(new(big.Int).Mod(new(big.Int).Add(m, one()), e.P.Grp.Order()))
			} else {
				m.Set(c.Uni(e.P.Grp.Order()))
			}
			if ref2, err := refParse(kind, libBytes(q)); err == nil {
				ask(r, q, ref2, e, r.stmt, "a member overwritten")
			}
			m.Set(old)
			c.Check(bytes.Equal(libBytes(q), enc), "bytes", "%s: put back, a proof serializes differently", in)
			ask(r, q, ref, e, r.stmt, "a member put back")
			c.Count("members overwritten", 1)
		}
		// an earlier proof object
		o := &recs[c.R.IntN(len(recs))]
		if oref, err := refParse(kind, o.enc); err == nil {
			ask(o, o.obj, oref, o.e, o.stmt, "an earlier proof")
		}
	}
}

func c25groups() [][]vop { return [][]vop{c25points(), c25keys(), c25curve()} }

// reuse runs histories of the operations of a group, all or the ones named.
func reuse(w *W, group, n, rounds int, names ...string) {
	for oi, op := range c25groups()[group] {
		if len(names) > 0 && !slices.Contains(names, op.name) {
			continue
		}
		for k := 0; k < n; k++ {
			w.Case(fmt.Sprintf("reused objects/%s/%d", op.name, k), func(c *C) {
				e := envs()[0]
				if group == 0 && k%3 != 0 {
					e = envs()[(k+oi)%len(envs())]
				}
				history(c, e, op, group == 1 && !strings.HasPrefix(op.name, "Parse"), rounds)
			})
		}
	}
}

func runC25(w *W) {
	for i := range c25groups() {
		reuse(w, i, w.Scale(10, 200), 80)
	}
	for k := 0; k < w.Scale(4, 60); k++ {
		for _, kind := range allKinds {
			w.Case(fmt.Sprintf("proofs/%s/%d", kind, k), func(c *C) {
				es := envs()[:4]
				if k%2 == 1 {
					es = []*Env{envs()[4+k/2%2]}
				}
				rounds := 30
				if kind == kRange {
					rounds = 6
				}
				proofHistory(c, es, kind, rounds)
			})
			// other curves in the same parameter set and table
			w.Case(fmt.Sprintf("proofs/%s/curves/%d", kind, k), func(c *C) {
				es := []*Env{toys()[0], std(), envs()[4], envs()[5], toys()[1]}
				rounds := 20
				if kind == kRange { // not in the small groups, where a hash is zero once in a while
					rounds, es = 8, []*Env{std(), envs()[5], envs()[4]}
				}
				proofHistory(c, es[k%2:], kind, rounds)
				c.Count("histories over several curves", 1)
			})
		}
	}
	// what was read or returned before stays as it was during later calls
	for k := 0; k < w.Scale(10, 100); k++ {
		w.Case(fmt.Sprintf("kept/%d", k), func(c *C) {
			type kept struct {
				what string
				was  []byte
				now  func() []byte
			}
			var l []kept
			keep := func(what string, now func() []byte) {
				l = append(l, kept{what, bytes.Clone(now()), now})
				c.Count("kept byte strings", 1)
			}
			e := c.Env()
			key, _ := btcec.PrivKeyFromBytes(btcec.S256(), pad32(c.NonZero(vref.N)))
			slice := func(what string, b []byte) { keep(what, func() []byte { return b }) }
			for j := 0; j < 60; j++ {
				c.Step(j)
				switch c.R.IntN(9) {
				case 0, 1:
					b, _ := wire.ReadVarBytes(bytes.NewReader(vref.VarBytes(c.Bytes(c.R.IntN(100)))), 200, "kept")
					slice("ReadVarBytes", b)
				case 2:
					p, _ := c.Point(e)
					q, err := zksigma.ReadECPoint(bytes.NewReader(vref.EncPt(p)))
					if err == nil {
						keep("ReadECPoint", func() []byte { return vref.EncPt(rp(q)) })
					}
					slice("ECPoint.Bytes", lp(p).Bytes())
				case 3:
					v, err := zksigma.ReadBigInt(bytes.NewReader(vref.EncInt(c.Int(vref.N))))
					if err == nil {
						keep("ReadBigInt", func() []byte { return vref.EncInt(v) })
					}
				case 4:
					in := newInst(c, e, pick(c, sigmaKinds))
					p, err := in.Prove()
					if err != nil {
						continue
					}
					b := libBytes(p)
					slice(in.Kind+" bytes", b)
					keep(in.Kind+" proof", func() []byte { return libBytes(p) })
					if q, err := libParse(in.Kind, bytes.Clone(b)); err == nil {
						keep("parsed "+in.Kind+" proof", func() []byte { return libBytes(q) })
					}
				case 5:
					sig, err := key.Sign(c.Bytes(32))
					if err == nil {
						slice("Serialize", sig.Serialize())
						keep("signature", func() []byte { return append(vref.EncInt(sig.R), vref.EncInt(sig.S)...) })
					}
				case 6:
					b, err := btcec.SignCompact(btcec.S256(), key, c.Bytes(32), c.Flip())
					if err == nil {
						slice("SignCompact", b)
					}
					slice("SerializeCompressed", key.PubKey().SerializeCompressed())
					slice("SerializeUncompressed", key.PubKey().SerializeUncompressed())
					slice("SerializeHybrid", key.PubKey().SerializeHybrid())
					slice("PrivateKey.Serialize", key.Serialize())
					key, _ = btcec.PrivKeyFromBytes(btcec.S256(), pad32(c.NonZero(vref.N)))
				case 7:
					ct, err := btcec.Encrypt(key.PubKey(), c.Bytes(c.R.IntN(60)))
					if err != nil {
						continue
					}
					slice("Encrypt", ct)
					if pt, err := btcec.Decrypt(key, bytes.Clone(ct)); err == nil {
						slice("Decrypt", pt)
					}
					slice("GenerateSharedSecret", btcec.GenerateSharedSecret(key, key.PubKey()))
				case 8:
					p, n := btcec.NAF(c.Bytes(c.R.IntN(40)))
					slice("NAF", p)
					slice("NAF", n)
					x, s := c.Point(e)
					if s == nil {
						s = one()
					}
					q := e.L.Mult(lp(x), s)
					keep("Mult", func() []byte { return vref.EncPt(rp(q)) })
					v := zksigma.GenerateChallenge(e.L, c.Bytes(10))
					keep("GenerateChallenge", func() []byte { return vref.EncInt(v) })
				}
				for i, x := range l {
					if j == 59 || i%7 == j%7 {
						c.Check(bytes.Equal(x.was, x.now()), "kept", "a result of %s was %x and is %x after later calls", x.what, x.was, x.now())
						c.Count("calls", 1)
					}
				}
			}
		})
	}
	for k := 0; k < w.Scale(8, 100); k++ {
		w.Case(fmt.Sprintf("commitments/%d", k), func(c *C) {
			e := c.Env()
			v, u := new(big.Int), &user{c: c}
			for j := 0; j < 40; j++ {
				c.Step(j)
				v.Set(c.Int(e.P.Grp.Order()))
				was := cp(v)
				cm, r, err := zksigma.PedCommit(e.L, v)
				if !c.Check(err == nil, "error", "PedCommit: %v", err) {
					continue
				}
				want := e.P.Commit(was, r)
				c.Check(rp(cm).Eq(want), "stale", "PedCommit of %x gives the wrong commitment", was)
				v.SetInt64(7)
				c.Check(rp(cm).Eq(want), "alias", "a commitment changes with the integer it was made of")
				u.int(r)
				c.Check(rp(cm).Eq(want), "alias", "a commitment changes with the randomness returned")
				(&user{c: c, z: e.L}).pt(cm)
				pk, sk := zksigma.KeyGen(e.L.C, e.L.H)
				c.Check(rp(pk).Eq(e.P.Grp.Mul(e.P.H, sk)), "stale", "KeyGen gives the wrong public key for %x", sk)
				(&user{c: c, z: e.L}).pt(pk)
				u.int(sk)
				c.Count("calls", 1)
				c.Distinct(want)
			}
		})
	}
}
