package vref

import (
	"crypto/elliptic"
	"crypto/sha256"
	"math/big"
	"sync"
)

// Pt is an affine point; the identity is (0, 0), as in the library.
type Pt struct{ X, Y *big.Int }

// Eq compares coordinates.
func (p Pt) Eq(q Pt) bool { return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0 }

// IsID tells whether p is the identity.
func (p Pt) IsID() bool { return p.X.Sign() == 0 && p.Y.Sign() == 0 }

// Copy returns a deep copy.
func (p Pt) Copy() Pt { return Pt{new(big.Int).Set(p.X), new(big.Int).Set(p.Y)} }

// ID is a new identity.
func ID() Pt { return Pt{new(big.Int), new(big.Int)} }

// Group is a prime-order curve group.
type Group interface {
	Mul(p Pt, k *big.Int) Pt
	Add(p, q Pt) Pt
	Neg(p Pt) Pt
	Order() *big.Int
	Field() *big.Int
	Base() Pt
	OnCurve(p Pt) bool // false for the identity
}

// Secp is secp256k1.
type Secp struct{}

// G is its base point; H the nothing-up-my-sleeve second generator.
var G, H Pt

type table [32][256]jac

var (
	tabOnce    sync.Once
	tabG, tabH *table
)

func mustHex(s string) *big.Int {
	r, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return r
}

func init() {
	G = Pt{mustHex("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"),
		mustHex("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")}
	h := sha256.Sum256(new(big.Int).Add(G.X, big.NewInt(2)).Bytes())
	x := new(big.Int).SetBytes(h[:])
	y := SqrtY(x)
	if y == nil || x.Cmp(P) >= 0 {
		panic("no point with that x")
	}
	if y.Bit(0) == 1 {
		y.Sub(P, y)
	}
	H = Pt{x, y}
}

// SqrtY returns a y with (x, y) on secp256k1, or nil.
func SqrtY(x *big.Int) *big.Int {
	t := new(big.Int).Exp(x, big.NewInt(3), P)
	t.Add(t, big.NewInt(7))
	t.Mod(t, P)
	return new(big.Int).ModSqrt(t, P)
}

func toJac(p Pt) jac {
	if p.IsID() {
		return jac{}
	}
	return jac{feFromBig(p.X), feFromBig(p.Y), fe{1}}
}

func mkTable(p Pt) *table {
	t := new(table)
	b := toJac(p)
	for i := 31; i >= 0; i-- {
		acc := jac{}
		for j := 0; j < 256; j++ {
			t[i][j] = acc
			acc = acc.add(&b)
		}
		b = acc
	}
	return t
}

func (t *table) mul(k *big.Int) jac {
	var buf [32]byte
	new(big.Int).Mod(k, N).FillBytes(buf[:])
	r := jac{}
	for i, b := range buf {
		if b != 0 {
			r = r.add(&t[i][b])
		}
	}
	return r
}

func tabs() {
	tabOnce.Do(func() {
		tabG = mkTable(G)
		tabH = mkTable(H)
	})
}

// MulG returns k*G.
func MulG(k *big.Int) Pt { tabs(); r := tabG.mul(k); return r.affine() }

// MulH returns k*H.
func MulH(k *big.Int) Pt { tabs(); r := tabH.mul(k); return r.affine() }

// Comb returns a*G + b*H.
func Comb(a, b *big.Int) Pt {
	tabs()
	p := tabG.mul(a)
	q := tabH.mul(b)
	r := p.add(&q)
	return r.affine()
}

func mulJac(p Pt, k *big.Int) jac {
	kk := new(big.Int).Mod(k, N)
	r := jac{}
	if kk.Sign() == 0 || p.IsID() {
		return r
	}
	var win [16]jac
	b := toJac(p)
	for i := 1; i < 16; i++ {
		win[i] = win[i-1].add(&b)
	}
	for i := (kk.BitLen()+3)/4 - 1; i >= 0; i-- {
		r = r.dbl()
		r = r.dbl()
		r = r.dbl()
		r = r.dbl()
		d := kk.Bit(4*i) | kk.Bit(4*i+1)<<1 | kk.Bit(4*i+2)<<2 | kk.Bit(4*i+3)<<3
		if d != 0 {
			r = r.add(&win[d])
		}
	}
	return r
}

// Mul returns k*p.
func (Secp) Mul(p Pt, k *big.Int) Pt {
	if p.Eq(G) {
		return MulG(k)
	}
	if p.Eq(H) {
		return MulH(k)
	}
	r := mulJac(p, k)
	return r.affine()
}

// Add returns p+q.
func (Secp) Add(p, q Pt) Pt {
	a, b := toJac(p), toJac(q)
	r := a.add(&b)
	return r.affine()
}

// Neg returns -p.
func (Secp) Neg(p Pt) Pt {
	if p.IsID() {
		return ID()
	}
	return Pt{new(big.Int).Set(p.X), new(big.Int).Sub(P, p.Y)}
}

// Order returns the group order.
func (Secp) Order() *big.Int { return N }

// Field returns the field prime.
func (Secp) Field() *big.Int { return P }

// Base returns G.
func (Secp) Base() Pt { return G }

// OnCurve checks the curve equation with reduced coordinates.
func (Secp) OnCurve(p Pt) bool {
	if p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(P) >= 0 || p.Y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	r := new(big.Int).Exp(p.X, big.NewInt(3), P)
	r.Add(r, big.NewInt(7))
	l.Sub(l, r)
	return l.Mod(l, P).Sign() == 0
}

// Std wraps a curve of the standard library.
type Std struct{ C elliptic.Curve }

// Mul returns k*p.
func (s Std) Mul(p Pt, k *big.Int) Pt {
	kk := new(big.Int).Mod(k, s.Order())
	if p.IsID() || kk.Sign() == 0 {
		return ID()
	}
	x, y := s.C.ScalarMult(p.X, p.Y, kk.Bytes())
	return Pt{x, y}
}

// Add returns p+q.
func (s Std) Add(p, q Pt) Pt {
	if p.IsID() {
		return q.Copy()
	}
	if q.IsID() {
		return p.Copy()
	}
	x, y := s.C.Add(p.X, p.Y, q.X, q.Y)
	return Pt{x, y}
}

// Neg returns -p.
func (s Std) Neg(p Pt) Pt {
	if p.IsID() {
		return ID()
	}
	return Pt{new(big.Int).Set(p.X), new(big.Int).Sub(s.Field(), p.Y)}
}

// Order returns the group order.
func (s Std) Order() *big.Int { return s.C.Params().N }

// Field returns the field prime.
func (s Std) Field() *big.Int { return s.C.Params().P }

// Base returns the base point.
func (s Std) Base() Pt { return Pt{s.C.Params().Gx, s.C.Params().Gy} }

// OnCurve checks the curve equation.
func (s Std) OnCurve(p Pt) bool {
	f := s.Field()
	if p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(f) >= 0 || p.Y.Cmp(f) >= 0 {
		return false
	}
	return s.C.IsOnCurve(p.X, p.Y)
}
