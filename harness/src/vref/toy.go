package vref

import (
	"crypto/elliptic"
	"math/big"
)

// Toy is the group of y^2 = x^3 - 3x + b over a small prime field, of prime order,
// kept as the table of all multiples of its base. It is also an elliptic.Curve.
type Toy struct {
	par *elliptic.CurveParams
	pts []Pt
	log map[[2]uint64]int
}

// NewToy tabulates the group; it panics unless the base has the given order.
func NewToy(name string, p, b, n, gx, gy int64) *Toy {
	t := &Toy{log: map[[2]uint64]int{}}
	t.par = &elliptic.CurveParams{P: big.NewInt(p), N: big.NewInt(n), B: big.NewInt(b), Gx: big.NewInt(gx), Gy: big.NewInt(gy), BitSize: big.NewInt(p).BitLen(), Name: name}
	inv := func(a int64) int64 { // a^(p-2)
		r, e := int64(1), p-2
		for a = (a%p + p) % p; e > 0; e >>= 1 {
			if e&1 == 1 {
				r = r * a % p
			}
			a = a * a % p
		}
		return r
	}
	put := func(x, y int64) {
		t.log[[2]uint64{uint64(x), uint64(y)}] = len(t.pts)
		t.pts = append(t.pts, Pt{big.NewInt(x), big.NewInt(y)})
	}
	put(0, 0)
	x, y := gx, gy
	for {
		if (y*y-(x*x%p*x-3*x+b))%p != 0 {
			panic("toy: off the curve")
		}
		put(x, y)
		var l int64
		if x == gx && y == gy {
			l = (3*x*x - 3) % p * inv(2*y) % p
		} else if x == gx {
			break
		} else {
			l = (y - gy) % p * inv(x-gx) % p
		}
		x3 := ((l*l-x-gx)%p + p) % p
		y, x = ((l*(x-x3)-y)%p+p)%p, x3
	}
	if int64(len(t.pts)) != n {
		panic("toy: wrong order")
	}
	return t
}

func (t *Toy) find(p Pt) int {
	if p.X.IsUint64() && p.Y.IsUint64() {
		if i, ok := t.log[[2]uint64{p.X.Uint64(), p.Y.Uint64()}]; ok {
			return i
		}
	}
	panic("toy: operation on a point off the curve")
}

func (t *Toy) at(i int) Pt { return t.pts[i%len(t.pts)].Copy() }

// Mul returns k*p.
func (t *Toy) Mul(p Pt, k *big.Int) Pt {
	m := new(big.Int).Mod(k, t.par.N)
	return t.at(t.find(p) * int(m.Int64()))
}

// Add returns p+q.
func (t *Toy) Add2(p, q Pt) Pt { return t.at(t.find(p) + t.find(q)) }

// Neg returns -p.
func (t *Toy) Neg(p Pt) Pt { return t.at(len(t.pts) - t.find(p)) }

// OnCurve2 checks the curve equation.
func (t *Toy) OnCurve2(p Pt) bool {
	if p.IsID() || !p.X.IsUint64() || !p.Y.IsUint64() {
		return false
	}
	_, ok := t.log[[2]uint64{p.X.Uint64(), p.Y.Uint64()}]
	return ok
}

// ToyGroup is the group as reference.
type ToyGroup struct{ *Toy }

// Add returns p+q.
func (t ToyGroup) Add(p, q Pt) Pt { return t.Add2(p, q) }

// OnCurve checks the curve equation.
func (t ToyGroup) OnCurve(p Pt) bool { return t.OnCurve2(p) }

// Order returns the group order.
func (t ToyGroup) Order() *big.Int { return t.par.N }

// Field returns the field prime.
func (t ToyGroup) Field() *big.Int { return t.par.P }

// Base returns the base point.
func (t ToyGroup) Base() Pt { return Pt{t.par.Gx, t.par.Gy} }

// The methods of elliptic.Curve.

func (t *Toy) Params() *elliptic.CurveParams { return t.par }

func (t *Toy) IsOnCurve(x, y *big.Int) bool { return t.OnCurve2(Pt{x, y}) }

func (t *Toy) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	p := t.Add2(Pt{x1, y1}, Pt{x2, y2})
	return p.X, p.Y
}

func (t *Toy) Double(x, y *big.Int) (*big.Int, *big.Int) {
	return t.Add(x, y, x, y)
}

func (t *Toy) ScalarMult(x, y *big.Int, k []byte) (*big.Int, *big.Int) {
	p := t.Mul(Pt{x, y}, new(big.Int).SetBytes(k))
	return p.X, p.Y
}

func (t *Toy) ScalarBaseMult(k []byte) (*big.Int, *big.Int) {
	return t.ScalarMult(t.par.Gx, t.par.Gy, k)
}

// Log returns the logarithm of p to the base.
func (t *Toy) Log(p Pt) *big.Int { return big.NewInt(int64(t.find(p))) }
