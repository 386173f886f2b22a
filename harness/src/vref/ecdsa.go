package vref

import (
	"crypto/hmac"
	"crypto/sha256"
	"math/big"
)

// Bits2Int is the leftmost 256 bits of a hash as an integer.
func Bits2Int(h []byte) *big.Int {
	if len(h) > 32 {
		h = h[:32]
	}
	return new(big.Int).SetBytes(h)
}

// Nonce6979 is the nonce of RFC 6979 with HMAC-SHA-256, section 3.2.
func Nonce6979(x *big.Int, hash []byte) *big.Int {
	var seed [64]byte
	x.FillBytes(seed[:32])
	new(big.Int).Mod(Bits2Int(hash), N).FillBytes(seed[32:])
	K := make([]byte, 32)
	V := make([]byte, 32)
	for i := range V {
		V[i] = 1
	}
	hm := func(parts ...[]byte) []byte {
		m := hmac.New(sha256.New, K)
		for _, p := range parts {
			m.Write(p)
		}
		return m.Sum(nil)
	}
	K = hm(V, []byte{0}, seed[:])
	V = hm(V)
	K = hm(V, []byte{1}, seed[:])
	V = hm(V)
	for {
		V = hm(V)
		k := new(big.Int).SetBytes(V)
		if k.Sign() > 0 && k.Cmp(N) < 0 {
			return k
		}
		K = hm(V, []byte{0})
		V = hm(V)
	}
}

// SignECDSA is the RFC 6979 signature with low s.
func SignECDSA(x *big.Int, hash []byte) (r, s *big.Int) {
	k := Nonce6979(x, hash)
	r = new(big.Int).Mod(MulG(k).X, N)
	s = new(big.Int).Mul(r, x)
	s.Add(s, Bits2Int(hash))
	s.Mul(s, new(big.Int).ModInverse(k, N))
	s.Mod(s, N)
	if new(big.Int).Lsh(s, 1).Cmp(N) > 0 {
		s.Sub(N, s)
	}
	return
}

// VerifyECDSA decides the ECDSA equation for a key on the curve.
func VerifyECDSA(q Pt, hash []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(s, N)
	u1 := new(big.Int).Mul(Bits2Int(hash), w)
	u2 := new(big.Int).Mul(r, w)
	p := Secp{}.Add(MulG(u1), Secp{}.Mul(q, u2))
	if p.IsID() {
		return false
	}
	return new(big.Int).Mod(p.X, N).Cmp(r) == 0
}

// RecoverECDSA computes the key for candidate id (bit 0: R.y odd, bit 1: R.x =
// r + N) or fails.
func RecoverECDSA(hash []byte, r, s *big.Int, id int) (Pt, bool) {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 || id < 0 || id > 3 {
		return Pt{}, false
	}
	x := new(big.Int).Set(r)
	if id&2 != 0 {
		x.Add(x, N)
	}
	if x.Cmp(P) >= 0 {
		return Pt{}, false
	}
	y := SqrtY(x)
	if y == nil {
		return Pt{}, false
	}
	if y.Bit(0) != uint(id&1) {
		y.Sub(P, y)
	}
	g := Secp{}
	t := g.Add(g.Mul(Pt{x, y}, s), g.Neg(MulG(Bits2Int(hash))))
	q := g.Mul(t, new(big.Int).ModInverse(r, N))
	return q, !q.IsID()
}
