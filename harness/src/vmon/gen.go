package main

import (
	"crypto/elliptic"
	crand "crypto/rand"
	"math/big"
	"math/rand/v2"
	"sync"

	"github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"

	"vref"
)

// ---- conversions ----

func lp(p vref.Pt) zksigma.ECPoint {
	return zksigma.ECPoint{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}
}
func rp(p zksigma.ECPoint) vref.Pt { return vref.Pt{X: p.X, Y: p.Y} }

// Env is a parameter set for library and reference.
type Env struct {
	Name string
	L    zksigma.ZKPCurveParams
	P    *vref.Params
	Std  bool // the default parameters
}

func mkEnv(name string, c elliptic.Curve, g vref.Group, h vref.Pt) *Env {
	p := vref.MkParams(g, h, 64)
	e := &Env{Name: name, P: p}
	e.L = zksigma.ZKPCurveParams{C: c, G: lp(p.G), H: lp(h)}
	for _, q := range p.Pow {
		e.L.HPoints = append(e.L.HPoints, lp(q))
	}
	return e
}

var (
	envOnce sync.Once
	envStd  *Env
	envAll  []*Env
)

// envs returns the default parameters, others with the same curve and another H,
// and ones on other curves.
func envs() []*Env {
	envOnce.Do(func() {
		envStd = &Env{Name: "default", L: zksigma.TestCurve, P: vref.MkParams(vref.Secp{}, vref.H, 64), Std: true}
		envAll = append(envAll, envStd)
		envAll = append(envAll, mkEnv("secp256k1/H=7919G", btcec.S256(), vref.Secp{}, vref.MulG(big.NewInt(7919))))
		envAll = append(envAll, mkEnv("secp256k1/H=-H", btcec.S256(), vref.Secp{}, vref.Secp{}.Neg(vref.H)))
		envAll = append(envAll, mkEnv("secp256k1/H=phi(H)", btcec.S256(), vref.Secp{}, phi(vref.H)))
		p256 := vref.Std{C: elliptic.P256()}
		envAll = append(envAll, mkEnv("P-256", elliptic.P256(), p256, p256.Mul(p256.Base(), hexInt("1234567890abcdef1234567890abcdef1234567"))))
		p224 := vref.Std{C: elliptic.P224()}
		envAll = append(envAll, mkEnv("P-224", elliptic.P224(), p224, p224.Mul(p224.Base(), hexInt("fedcba9876543210fedcba9876543210"))))
	})
	return envAll
}

func std() *Env { envs(); return envStd }

var (
	wideOnce sync.Once
	envWide  []*Env
)

// wide returns parameter sets whose coordinates and scalars take more than 32
// bytes (their proofs cannot be serialized), one whose curve is of a type the
// library cannot know and one with no more powers of two than bits to prove.
func wide() []*Env {
	wideOnce.Do(func() {
		p384 := vref.Std{C: elliptic.P384()}
		envWide = append(envWide, mkEnv("P-384", elliptic.P384(), p384, p384.Mul(p384.Base(), hexInt("1234567890abcdef1234567890abcdef1234567"))))
		p521 := vref.Std{C: elliptic.P521()}
		envWide = append(envWide, mkEnv("P-521", elliptic.P521(), p521, p521.Mul(p521.Base(), hexInt("fedcba9876543210fedcba9876543210"))))
		envWide = append(envWide, mkEnv("secp256k1/wrapped", wrapped{btcec.S256()}, vref.Secp{}, vref.H))
		short := mkEnv("secp256k1/40 powers", btcec.S256(), vref.Secp{}, vref.H)
		short.L.HPoints = short.L.HPoints[:40:40]
		envWide = append(envWide, short)
	})
	return envWide
}

var (
	toyOnce sync.Once
	envToy  []*Env
)

// toys returns parameter sets on groups of 107 and 9941 elements, in which every
// coincidence of scalars, challenges and points comes up.
func toys() []*Env {
	toyOnce.Do(func() {
		for _, t := range []*vref.Toy{vref.NewToy("toy 107", 97, 6, 107, 1, 2), vref.NewToy("toy 9941", 10007, 36, 9941, 2, 4582)} {
			g := vref.ToyGroup{Toy: t}
			envToy = append(envToy, mkEnv(t.Params().Name, t, g, g.Mul(g.Base(), big.NewInt(71))))
		}
	})
	return envToy
}

type wrapped struct{ elliptic.Curve }

// Serial tells whether points fit the byte format.
func (e *Env) Serial() bool { return e.P.Grp.Field().BitLen() <= 256 }

func hexInt(s string) *big.Int {
	r, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return r
}

var (
	beta   = hexInt("7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE")
	lambda = hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")
)

// phi is the efficient endomorphism: same y, other x.
func phi(p vref.Pt) vref.Pt {
	return vref.Pt{X: new(big.Int).Mod(new(big.Int).Mul(p.X, beta), vref.P), Y: new(big.Int).Set(p.Y)}
}

// ---- integers ----

func one() *big.Int { return big.NewInt(1) }

var specialOnce sync.Once
var specialList []*big.Int

// specials are scalars in [0, N) at which implementations tend to break.
func specials() []*big.Int {
	specialOnce.Do(func() {
		add := func(x *big.Int) { specialList = append(specialList, new(big.Int).Mod(x, vref.N)) }
		for i := int64(0); i <= 17; i++ {
			add(big.NewInt(i))
			add(big.NewInt(-i))
		}
		for _, i := range []int64{255, 256, 257, 65535, 65536, 1 << 32, 1<<32 - 1, 1<<40 - 1, 1 << 40, 1<<62 + 1} {
			add(big.NewInt(i))
			add(big.NewInt(-i))
		}
		for i := uint(0); i <= 256; i++ {
			p := new(big.Int).Lsh(one(), i)
			add(p)
			add(new(big.Int).Sub(p, one()))
			add(new(big.Int).Add(p, one()))
			add(new(big.Int).Neg(p))
		}
		for i := int64(-3); i <= 3; i++ {
			for j := int64(-3); j <= 3; j++ {
				t := new(big.Int).Mul(lambda, big.NewInt(i))
				add(t.Add(t, big.NewInt(j)))
			}
		}
		half := new(big.Int).Rsh(vref.N, 1)
		for i := int64(-2); i <= 2; i++ {
			add(new(big.Int).Add(half, big.NewInt(i)))
		}
		for _, d := range []int64{2, 3, 5, 7, 255, 257} {
			add(new(big.Int).ModInverse(big.NewInt(d), vref.N))
			add(new(big.Int).Div(vref.N, big.NewInt(d)))
		}
		for _, b := range []byte{0x55, 0xaa, 0x0f, 0xf0, 0x33, 0x80, 0x01, 0x7f, 0xfe} {
			buf := make([]byte, 32)
			for i := range buf {
				buf[i] = b
			}
			add(new(big.Int).SetBytes(buf))
			add(new(big.Int).SetBytes(buf[:16]))
			add(new(big.Int).SetBytes(buf[:17]))
		}
		for _, s := range []string{"3086D221A7D46BCDE86C90E49284EB15", "E4437ED6010E88286F547FA90ABFE4C3", "114CA50F7A8E2F3F657C1108D9D44CFD8"} {
			add(hexInt(s))
			add(new(big.Int).Neg(hexInt(s)))
			add(new(big.Int).Mul(hexInt(s), lambda))
		}
		for _, s := range append(append(append([]string{}, shortG...), shortH...), rareK...) {
			add(hexInt(s))
		}
		add(new(big.Int).Sub(vref.P, vref.N))
		add(vref.P)
	})
	return specialList
}

func (c *C) big(max *big.Int) *big.Int {
	n := (max.BitLen()+7)/8 + 8
	b := make([]byte, n)
	c.src.Read(b)
	r := new(big.Int).SetBytes(b)
	return r.Mod(r, max)
}

// Uni is uniform in [0, N).
func (c *C) Uni(n *big.Int) *big.Int { return c.big(n) }

// Scalar is in [0, n), special more often than not.
func (c *C) Scalar(n *big.Int) *big.Int {
	if n.BitLen() < 64 {
		return c.smallScalar(n)
	}
	switch c.R.IntN(8) {
	case 0, 1:
		return c.big(n)
	case 2:
		return new(big.Int).Mod(pick(c, specials()), n)
	case 3: // random bit length
		return c.big(new(big.Int).Lsh(one(), uint(1+c.R.IntN(n.BitLen()-1))))
	case 4: // close to the order
		return new(big.Int).Sub(n, c.big(big.NewInt(1<<20)).Add(one(), c.big(big.NewInt(1<<uint(1+c.R.IntN(20))))))
	case 5: // runs of ones and zeros
		r := new(big.Int)
		for r.BitLen() < n.BitLen()-1 {
			k := uint(1 + c.R.IntN(40))
			r.Lsh(r, k)
			if c.R.IntN(2) == 0 {
				r.Or(r, new(big.Int).Sub(new(big.Int).Lsh(one(), k), one()))
			}
			if r.Sign() == 0 && c.R.IntN(8) == 0 {
				break
			}
			if r.Sign() == 0 {
				r.SetInt64(1)
			}
		}
		return r.Mod(r, n)
	case 6: // sparse bytes
		b := make([]byte, 32)
		for i := 0; i < 1+c.R.IntN(4); i++ {
			b[c.R.IntN(32)] = byte(c.R.IntN(256))
		}
		return new(big.Int).Mod(new(big.Int).SetBytes(b), n)
	}
	return c.big(big.NewInt(1 << 40))
}

func (c *C) smallScalar(n *big.Int) *big.Int {
	switch c.R.IntN(4) {
	case 0:
		return big.NewInt(int64(c.R.IntN(3)))
	case 1:
		return new(big.Int).Sub(n, big.NewInt(int64(1+c.R.IntN(3))))
	}
	return c.big(n)
}

// Int is any integer: a scalar, possibly shifted by multiples of the order,
// negated, or far beyond.
func (c *C) Int(n *big.Int) *big.Int {
	s := c.Scalar(n)
	switch c.R.IntN(10) {
	case 0:
		return s.Neg(s)
	case 1:
		return s.Add(s, n)
	case 2:
		return s.Sub(s, n)
	case 3:
		return s.Add(s, new(big.Int).Mul(n, c.big(new(big.Int).Lsh(one(), 300))))
	case 4:
		return s.Sub(s, new(big.Int).Mul(n, c.big(new(big.Int).Lsh(one(), uint(1+c.R.IntN(600))))))
	}
	return s
}

// NonZero is a scalar in [1, n).
func (c *C) NonZero(n *big.Int) *big.Int {
	for {
		if s := c.Scalar(n); s.Sign() != 0 {
			return s
		}
	}
}

func pick[T any](c *C, l []T) T { return l[c.R.IntN(len(l))] }

// Bytes are n random bytes.
func (c *C) Bytes(n int) []byte {
	b := make([]byte, n)
	c.src.Read(b)
	return b
}

// Flip is a coin.
func (c *C) Flip() bool { return c.R.IntN(2) == 0 }

// Env picks a parameter set, the default one half of the time.
func (c *C) Env() *Env {
	if c.Flip() {
		return std()
	}
	return pick(c, envs())
}

// Point is a point with, if known, its logarithm to the curve's base (nil for
// points that involve H).
func (c *C) Point(e *Env) (vref.Pt, *big.Int) {
	n := e.P.Grp.Order()
	switch c.R.IntN(10) {
	case 0:
		return e.P.G, one()
	case 1:
		return e.P.H, nil
	case 2:
		return e.P.Grp.Mul(e.P.H, c.Scalar(n)), nil
	case 3:
		if _, ok := e.P.Grp.(vref.Secp); ok {
			s := hexInt(pick(c, shortG))
			return vref.MulG(s), s
		}
	case 4:
		if _, ok := e.P.Grp.(vref.Secp); ok {
			return vref.MulH(hexInt(pick(c, shortH))), nil
		}
	case 5:
		return e.P.Grp.Neg(e.P.G), new(big.Int).Sub(n, one())
	case 6:
		return e.P.Commit(c.Scalar(n), c.Scalar(n)), nil
	}
	s := c.Scalar(n)
	return e.P.Grp.Mul(e.P.G, s), s
}

// NZPoint is a point other than the identity.
func (c *C) NZPoint(e *Env) vref.Pt {
	for {
		if p, _ := c.Point(e); !p.IsID() {
			return p
		}
	}
}

// ---- the library's randomness ----

// poolReader hands out scalars of a pool for 32-byte reads some of the time, so
// that nonces with special properties occur in every role.
type poolReader struct {
	mu    sync.Mutex
	src   *rand.ChaCha8
	rng   *rand.Rand
	pool  []*big.Int
	every int
	hits  int
	reads int
	bytes int
}

func (r *poolReader) Read(b []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.reads++
	r.bytes += len(b)
	if len(b) == 32 && len(r.pool) > 0 && r.rng.IntN(r.every) == 0 {
		r.hits++
		r.pool[r.rng.IntN(len(r.pool))].FillBytes(b)
		return 32, nil
	}
	return r.src.Read(b)
}

// UsePool makes the library draw from pool once in every draws.
func (c *C) UsePool(pool []*big.Int, every int) *poolReader {
	var seed [32]byte
	c.src.Read(seed[:])
	src := rand.NewChaCha8(seed)
	r := &poolReader{src: src, rng: rand.New(rand.NewPCG(c.R.Uint64(), c.R.Uint64())), pool: pool, every: every}
	crand.Reader = r
	return r
}

var shortPoolOnce sync.Once
var shortPool []*big.Int

// shortNonces are scalars for which multiples of G or H have short coordinates or
// a short hash.
func shortNonces() []*big.Int {
	shortPoolOnce.Do(func() {
		for _, s := range append(append([]string{}, shortG...), shortH...) {
			shortPool = append(shortPool, hexInt(s))
		}
	})
	return shortPool
}

func two(n uint) *big.Int { return new(big.Int).Lsh(one(), n) }

var max256 = new(big.Int).Sub(two(256), one())

// lift adds a multiple of n, of either sign and any size.
func (c *C) lift(x, n *big.Int) *big.Int {
	k := c.Uni(two(uint(1 + c.R.IntN([]int{2, 64, 300, 2000}[c.R.IntN(4)]))))
	if k.Sign() == 0 {
		k = one()
	}
	k.Mul(k, n)
	if c.Flip() {
		k.Neg(k)
	}
	return k.Add(k, x)
}
