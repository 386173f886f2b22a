package vref

import (
	"errors"
	"math/big"
)

// SelfTest compares the limb arithmetic with math/big and checks the group.
func SelfTest() error {
	x := new(big.Int).Set(H.X)
	y := new(big.Int).Set(H.Y)
	edge := []*big.Int{new(big.Int), big.NewInt(1), new(big.Int).Sub(P, big.NewInt(1)), big.NewInt(foldC),
		new(big.Int).Sub(P, big.NewInt(foldC)), new(big.Int).Lsh(big.NewInt(1), 255)}
	for i := 0; i < 300; i++ {
		a, b := x, y
		if i < 36 {
			a, b = edge[i/6], edge[i%6]
		}
		fa, fb := feFromBig(a), feFromBig(b)
		m := feMul(&fa, &fb)
		s := feAdd(&fa, &fb)
		d := feSub(&fa, &fb)
		z := new(big.Int)
		if m.big().Cmp(z.Mod(z.Mul(a, b), P)) != 0 || s.big().Cmp(z.Mod(z.Add(a, b), P)) != 0 || d.big().Cmp(z.Mod(z.Sub(a, b), P)) != 0 {
			return errors.New("field")
		}
		x, y = s.big(), m.big()
		if y.Sign() == 0 {
			y.Set(H.X)
		}
	}
	// affine textbook addition against the Jacobian formulas
	s := Secp{}
	acc := G.Copy()
	for i := 2; i < 60; i++ {
		acc = affAdd(acc, G)
		k := big.NewInt(int64(i))
		j := mulJac(G, k)
		if !acc.Eq(MulG(k)) || !acc.Eq(j.affine()) || !s.OnCurve(acc) {
			return errors.New("group")
		}
	}
	if !MulG(N).IsID() || !MulH(N).IsID() || !s.OnCurve(H) {
		return errors.New("order")
	}
	k := new(big.Int).Mod(H.X, N)
	p := Comb(k, H.Y)
	a, b := mulJac(G, k), mulJac(H, H.Y)
	if !p.Eq(affAdd(a.affine(), b.affine())) {
		return errors.New("tables")
	}
	return nil
}

func affAdd(p, q Pt) Pt {
	var l *big.Int
	if p.Eq(q) {
		l = new(big.Int).Mul(p.X, p.X)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(p.Y, 1), P))
	} else {
		l = new(big.Int).Sub(q.Y, p.Y)
		dx := new(big.Int).Sub(q.X, p.X)
		l.Mul(l, dx.ModInverse(dx.Mod(dx, P), P))
	}
	l.Mod(l, P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	x.Mod(x, P)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l)
	y.Sub(y, p.Y)
	return Pt{x, y.Mod(y, P)}
}
