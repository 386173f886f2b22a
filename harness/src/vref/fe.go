// Package vref is the reference the monitors compare the library with: an
// implementation of secp256k1, the proofs, the encodings and ECDSA written from
// the definitions, sharing no code with the library under test.
package vref

import (
	"math/big"
	"math/bits"
)

// P is the field prime, N the group order.
var (
	P, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	N, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
)

// fe is a field element, four 64-bit limbs, least significant first, always
// below P.
type fe [4]uint64

const foldC = 0x1000003D1 // 2^256 mod P

var feP = fe{0xFFFFFFFEFFFFFC2F, ^uint64(0), ^uint64(0), ^uint64(0)}

func feFromBig(b *big.Int) fe {
	var r fe
	var buf [32]byte
	new(big.Int).Mod(b, P).FillBytes(buf[:])
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			r[i] |= uint64(buf[31-8*i-j]) << uint(8*j)
		}
	}
	return r
}

func (a *fe) big() *big.Int {
	var buf [32]byte
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			buf[31-8*i-j] = byte(a[i] >> uint(8*j))
		}
	}
	return new(big.Int).SetBytes(buf[:])
}

func (a *fe) isZero() bool { return a[0]|a[1]|a[2]|a[3] == 0 }

// condSub subtracts P once if a >= P or if carry is set.
func (a *fe) condSub(carry uint64) {
	var t fe
	var b uint64
	t[0], b = bits.Sub64(a[0], feP[0], 0)
	t[1], b = bits.Sub64(a[1], feP[1], b)
	t[2], b = bits.Sub64(a[2], feP[2], b)
	t[3], b = bits.Sub64(a[3], feP[3], b)
	if carry != 0 || b == 0 {
		*a = t
	}
}

func feAdd(a, b *fe) (r fe) {
	var c uint64
	r[0], c = bits.Add64(a[0], b[0], 0)
	r[1], c = bits.Add64(a[1], b[1], c)
	r[2], c = bits.Add64(a[2], b[2], c)
	r[3], c = bits.Add64(a[3], b[3], c)
	r.condSub(c)
	return
}

func feSub(a, b *fe) (r fe) {
	var w uint64
	r[0], w = bits.Sub64(a[0], b[0], 0)
	r[1], w = bits.Sub64(a[1], b[1], w)
	r[2], w = bits.Sub64(a[2], b[2], w)
	r[3], w = bits.Sub64(a[3], b[3], w)
	if w != 0 {
		var c uint64
		r[0], c = bits.Add64(r[0], feP[0], 0)
		r[1], c = bits.Add64(r[1], feP[1], c)
		r[2], c = bits.Add64(r[2], feP[2], c)
		r[3], _ = bits.Add64(r[3], feP[3], c)
	}
	return
}

func feMul(a, b *fe) (r fe) {
	var t [8]uint64
	for i := 0; i < 4; i++ {
		var carry uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[i], b[j])
			var c uint64
			lo, c = bits.Add64(lo, t[i+j], 0)
			hi += c
			lo, c = bits.Add64(lo, carry, 0)
			hi += c
			t[i+j] = lo
			carry = hi
		}
		t[i+4] = carry
	}
	// fold the high half: 2^256 = foldC
	var carry uint64
	for i := 0; i < 4; i++ {
		hi, lo := bits.Mul64(t[4+i], foldC)
		var c uint64
		lo, c = bits.Add64(lo, t[i], 0)
		hi += c
		lo, c = bits.Add64(lo, carry, 0)
		hi += c
		r[i] = lo
		carry = hi
	}
	// carry < 2^34: fold it again
	hi, lo := bits.Mul64(carry, foldC)
	var c uint64
	r[0], c = bits.Add64(r[0], lo, 0)
	r[1], c = bits.Add64(r[1], hi, c)
	r[2], c = bits.Add64(r[2], 0, c)
	r[3], c = bits.Add64(r[3], 0, c)
	r.condSub(c)
	return
}

func feInv(a *fe) fe {
	return feFromBig(new(big.Int).ModInverse(a.big(), P))
}

// jac is a point in Jacobian coordinates; z = 0 is the identity.
type jac struct{ x, y, z fe }

// aff is an affine point that is not the identity.
type aff struct{ x, y fe }

func (p *jac) dbl() (r jac) {
	if p.z.isZero() || p.y.isZero() {
		return jac{}
	}
	a := feMul(&p.x, &p.x)
	b := feMul(&p.y, &p.y)
	c := feMul(&b, &b)
	d := feAdd(&p.x, &b)
	d = feMul(&d, &d)
	d = feSub(&d, &a)
	d = feSub(&d, &c)
	d = feAdd(&d, &d)
	e := feAdd(&a, &a)
	e = feAdd(&e, &a)
	f := feMul(&e, &e)
	r.x = feSub(&f, &d)
	r.x = feSub(&r.x, &d)
	c = feAdd(&c, &c)
	c = feAdd(&c, &c)
	c = feAdd(&c, &c)
	t := feSub(&d, &r.x)
	t = feMul(&e, &t)
	r.y = feSub(&t, &c)
	t = feMul(&p.y, &p.z)
	r.z = feAdd(&t, &t)
	return
}

func (p *jac) add(q *jac) jac {
	if p.z.isZero() {
		return *q
	}
	if q.z.isZero() {
		return *p
	}
	z1z1 := feMul(&p.z, &p.z)
	z2z2 := feMul(&q.z, &q.z)
	u1 := feMul(&p.x, &z2z2)
	u2 := feMul(&q.x, &z1z1)
	s1 := feMul(&p.y, &q.z)
	s1 = feMul(&s1, &z2z2)
	s2 := feMul(&q.y, &p.z)
	s2 = feMul(&s2, &z1z1)
	h := feSub(&u2, &u1)
	rr := feSub(&s2, &s1)
	if h.isZero() {
		if rr.isZero() {
			return p.dbl()
		}
		return jac{}
	}
	var r jac
	hh := feMul(&h, &h)
	hhh := feMul(&hh, &h)
	v := feMul(&u1, &hh)
	r.x = feMul(&rr, &rr)
	r.x = feSub(&r.x, &hhh)
	r.x = feSub(&r.x, &v)
	r.x = feSub(&r.x, &v)
	t := feSub(&v, &r.x)
	t = feMul(&rr, &t)
	w := feMul(&s1, &hhh)
	r.y = feSub(&t, &w)
	t = feMul(&p.z, &q.z)
	r.z = feMul(&t, &h)
	return r
}

func (p *jac) neg() jac {
	var z fe
	return jac{p.x, feSub(&z, &p.y), p.z}
}

func (p *jac) affine() Pt {
	if p.z.isZero() {
		return Pt{new(big.Int), new(big.Int)}
	}
	zi := feInv(&p.z)
	zi2 := feMul(&zi, &zi)
	zi3 := feMul(&zi2, &zi)
	x := feMul(&p.x, &zi2)
	y := feMul(&p.y, &zi3)
	return Pt{x.big(), y.big()}
}
