package vref

import (
	"crypto/sha256"
	"math/big"
)

// Params are the public parameters of the proofs.
type Params struct {
	Grp  Group
	G, H Pt
	Pow  []Pt // 2^i G
	// Hash, if set, replaces the documented challenge: for proofs that are right
	// but for their challenge.
	Hash func(pts []Pt) *big.Int
}

// MkParams builds parameters with n powers of two.
func MkParams(g Group, h Pt, n int) *Params {
	p := &Params{Grp: g, G: g.Base(), H: h}
	b := g.Base()
	for i := 0; i < n; i++ {
		p.Pow = append(p.Pow, b)
		b = g.Add(b, b)
	}
	return p
}

func (p *Params) n() *big.Int { return p.Grp.Order() }

// Mod reduces modulo the order.
func (p *Params) Mod(a *big.Int) *big.Int { return new(big.Int).Mod(a, p.n()) }

// MulAdd returns a + b*c modulo the order.
func (p *Params) MulAdd(a, b, c *big.Int) *big.Int {
	t := new(big.Int).Mul(b, c)
	t.Add(t, a)
	return t.Mod(t, p.n())
}

// Sub returns a - b on points.
func (p *Params) Sub(a, b Pt) Pt { return p.Grp.Add(a, p.Grp.Neg(b)) }

// Commit returns a*G + b*H.
func (p *Params) Commit(a, b *big.Int) Pt {
	if _, ok := p.Grp.(Secp); ok && p.H.Eq(H) {
		return Comb(a, b)
	}
	return p.Grp.Add(p.Grp.Mul(p.G, a), p.Grp.Mul(p.H, b))
}

// Chal is the Fiat-Shamir challenge over points, in order.
func (p *Params) Chal(pts ...Pt) *big.Int {
	if p.Hash != nil {
		return p.Hash(pts)
	}
	h := sha256.New()
	for _, q := range pts {
		h.Write(q.X.Bytes())
		h.Write(q.Y.Bytes())
	}
	return p.Mod(new(big.Int).SetBytes(h.Sum(nil)))
}

// lin checks that sB == T + cR.
func (p *Params) lin(s *big.Int, b, t Pt, c *big.Int, r Pt) bool {
	return p.Grp.Mul(b, s).Eq(p.Grp.Add(t, p.Grp.Mul(r, c)))
}

// valid checks that all points are the identity or on the curve.
func (p *Params) valid(pts ...Pt) bool {
	for _, q := range pts {
		if !q.IsID() && !p.Grp.OnCurve(q) {
			return false
		}
	}
	return true
}

// GSPFS is a proof of knowledge of x in A = x*Base.
type GSPFS struct {
	Base, T Pt
	S, C    *big.Int
}

// ProveGSPFS proves with nonce u.
func (p *Params) ProveGSPFS(base, a Pt, x, u *big.Int) *GSPFS {
	t := p.Grp.Mul(base, u)
	c := p.Chal(base, a, t)
	return &GSPFS{base, t, p.MulAdd(u, c, new(big.Int).Neg(x)), c}
}

// Verify checks the proof.
func (g *GSPFS) Verify(p *Params, a Pt) bool {
	return p.valid(g.Base, g.T, a) && p.Chal(g.Base, a, g.T).Cmp(g.C) == 0 &&
		g.T.Eq(p.Grp.Add(p.Grp.Mul(g.Base, g.S), p.Grp.Mul(a, g.C)))
}

// Bytes serializes.
func (g *GSPFS) Bytes() []byte { return cat(EncPt(g.Base), EncPt(g.T), EncInt(g.S), EncInt(g.C)) }

// GSPFS reads one.
func (d *Dec) GSPFS() *GSPFS { return &GSPFS{d.Pt(), d.Pt(), d.Int(), d.Int()} }

// Equiv proves that R1 = x*B1 and R2 = x*B2.
type Equiv struct {
	UG, UH Pt
	C, S   *big.Int
}

// ProveEquiv proves with nonce u.
func (p *Params) ProveEquiv(b1, r1, b2, r2 Pt, x, u *big.Int) *Equiv {
	t1, t2 := p.Grp.Mul(b1, u), p.Grp.Mul(b2, u)
	c := p.Chal(b1, r1, b2, r2, t1, t2)
	return &Equiv{t1, t2, c, p.MulAdd(u, c, x)}
}

// Verify checks the proof.
func (e *Equiv) Verify(p *Params, b1, r1, b2, r2 Pt) bool {
	return p.valid(e.UG, e.UH, b1, r1, b2, r2) && p.Chal(b1, r1, b2, r2, e.UG, e.UH).Cmp(e.C) == 0 &&
		p.lin(e.S, b1, e.UG, e.C, r1) && p.lin(e.S, b2, e.UH, e.C, r2)
}

// Bytes serializes.
func (e *Equiv) Bytes() []byte { return cat(EncPt(e.UG), EncPt(e.UH), EncInt(e.C), EncInt(e.S)) }

// Equiv reads one.
func (d *Dec) Equiv() *Equiv { return &Equiv{d.Pt(), d.Pt(), d.Int(), d.Int()} }

// Cons proves that CM = vG + rH and Tok = r*PK.
type Cons struct {
	T1, T2    Pt
	C, S1, S2 *big.Int
}

// ProveCons proves with nonces u1 and u2.
func (p *Params) ProveCons(cm, tok, pk Pt, v, r, u1, u2 *big.Int) *Cons {
	t1, t2 := p.Commit(u1, u2), p.Grp.Mul(pk, u2)
	c := p.Chal(p.G, p.H, cm, tok, pk, t1, t2)
	return &Cons{t1, t2, c, p.MulAdd(u1, c, v), p.MulAdd(u2, c, r)}
}

// Verify checks the proof.
func (k *Cons) Verify(p *Params, cm, tok, pk Pt) bool {
	return p.valid(k.T1, k.T2, cm, tok, pk) && p.Chal(p.G, p.H, cm, tok, pk, k.T1, k.T2).Cmp(k.C) == 0 &&
		p.Commit(k.S1, k.S2).Eq(p.Grp.Add(k.T1, p.Grp.Mul(cm, k.C))) && p.lin(k.S2, pk, k.T2, k.C, tok)
}

// Bytes serializes.
func (k *Cons) Bytes() []byte {
	return cat(EncPt(k.T1), EncPt(k.T2), EncInt(k.C), EncInt(k.S1), EncInt(k.S2))
}

// Cons reads one.
func (d *Dec) Cons() *Cons { return &Cons{d.Pt(), d.Pt(), d.Int(), d.Int(), d.Int()} }

// Disj proves knowledge of log_B1(R1) or log_B2(R2).
type Disj struct {
	T1, T2            Pt
	C, C1, C2, S1, S2 *big.Int
}

// ProveDisj proves with nonces: u1 for the known side, u2 and u3 the response
// and challenge of the simulated one.
func (p *Params) ProveDisj(b1, r1, b2, r2 Pt, x *big.Int, right bool, u1, u2, u3 *big.Int) *Disj {
	kb, ob, or := b1, b2, r2
	if right {
		kb, ob, or = b2, b1, r1
	}
	tk := p.Grp.Mul(kb, u1)
	to := p.Sub(p.Grp.Mul(ob, u2), p.Grp.Mul(or, u3))
	if !right {
		c := p.Chal(b1, r1, b2, r2, tk, to)
		ck := p.Mod(new(big.Int).Sub(c, u3))
		return &Disj{tk, to, c, ck, p.Mod(u3), p.MulAdd(u1, ck, x), p.Mod(u2)}
	}
	c := p.Chal(b1, r1, b2, r2, to, tk)
	ck := p.Mod(new(big.Int).Sub(c, u3))
	return &Disj{to, tk, c, p.Mod(u3), ck, p.Mod(u2), p.MulAdd(u1, ck, x)}
}

// Verify checks the proof.
func (j *Disj) Verify(p *Params, b1, r1, b2, r2 Pt) bool {
	return p.valid(j.T1, j.T2, b1, r1, b2, r2) && p.Chal(b1, r1, b2, r2, j.T1, j.T2).Cmp(j.C) == 0 &&
		p.Mod(new(big.Int).Add(j.C1, j.C2)).Cmp(j.C) == 0 &&
		p.lin(j.S1, b1, j.T1, j.C1, r1) && p.lin(j.S2, b2, j.T2, j.C2, r2)
}

// Bytes serializes.
func (j *Disj) Bytes() []byte {
	return cat(EncPt(j.T1), EncPt(j.T2), EncInt(j.C), EncInt(j.C1), EncInt(j.C2), EncInt(j.S1), EncInt(j.S2))
}

// Disj reads one.
func (d *Dec) Disj() *Disj {
	return &Disj{d.Pt(), d.Pt(), d.Int(), d.Int(), d.Int(), d.Int(), d.Int()}
}

// ABC proves that CM commits to 0, or that the prover knows its inverse.
type ABC struct {
	B, C, T1, T2  Pt
	Chal, J, K, L *big.Int
	CTok          Pt
	D             *Disj
}

// ABCNonces are the random values of an ABC proof.
type ABCNonces struct{ U1, U2, U3, Ub, Uc, D1, D2, D3 *big.Int }

// ProveABC proves with the given nonces; right: v != 0.
func (p *Params) ProveABC(cm, tok Pt, v, sk *big.Int, right bool, n *ABCNonces) *ABC {
	a := &ABC{}
	v = p.Mod(v)
	a.CTok = p.Grp.Mul(p.Grp.Mul(p.H, sk), n.Uc)
	if right {
		a.B = p.Commit(new(big.Int).ModInverse(v, p.n()), n.Ub)
		a.C = p.Commit(big.NewInt(1), n.Uc)
		a.D = p.ProveDisj(cm, tok, p.H, p.Sub(a.C, p.G), n.Uc, true, n.D1, n.D2, n.D3)
	} else {
		a.B = p.Commit(new(big.Int), n.Ub)
		a.C = p.Commit(new(big.Int), n.Uc)
		a.D = p.ProveDisj(cm, tok, p.H, p.Sub(a.C, p.G), sk, false, n.D1, n.D2, n.D3)
	}
	a.T1 = p.Grp.Add(p.Grp.Mul(p.G, n.U1), p.Grp.Mul(tok, n.U2))
	a.T2 = p.Grp.Add(p.Grp.Mul(a.B, n.U1), p.Grp.Mul(p.H, n.U3))
	a.Finish(p, cm, tok, v, sk, n)
	return a
}

// Finish computes challenge and responses from the commitments.
func (a *ABC) Finish(p *Params, cm, tok Pt, v, sk *big.Int, n *ABCNonces) {
	a.Chal = p.Chal(p.G, p.H, cm, tok, a.B, a.C, a.T1, a.T2)
	a.Respond(p, v, sk, n)
}

// Respond computes the responses for a.Chal.
func (a *ABC) Respond(p *Params, v, sk *big.Int, n *ABCNonces) {
	a.J = p.MulAdd(n.U1, a.Chal, v)
	a.K = p.MulAdd(n.U2, a.Chal, new(big.Int).ModInverse(p.Mod(sk), p.n()))
	t := new(big.Int).Sub(n.Uc, new(big.Int).Mul(v, n.Ub))
	a.L = p.MulAdd(n.U3, a.Chal, t)
}

// Verify checks the proof.
func (a *ABC) Verify(p *Params, cm, tok Pt) bool {
	return p.valid(a.B, a.C, a.T1, a.T2, a.CTok, cm, tok) &&
		a.D.Verify(p, cm, tok, p.H, p.Sub(a.C, p.G)) && a.VerifyOuter(p, cm, tok)
}

// VerifyOuter checks all but the disjunctive proof.
func (a *ABC) VerifyOuter(p *Params, cm, tok Pt) bool {
	return p.Chal(p.G, p.H, cm, tok, a.B, a.C, a.T1, a.T2).Cmp(a.Chal) == 0 &&
		a.Eq1(p, cm, tok) && a.Eq2(p)
}

// Eq1 is chal*CM + T1 = jG + k*Tok.
func (a *ABC) Eq1(p *Params, cm, tok Pt) bool {
	return p.Grp.Add(p.Grp.Mul(cm, a.Chal), a.T1).Eq(p.Grp.Add(p.Grp.Mul(p.G, a.J), p.Grp.Mul(tok, a.K)))
}

// Eq2 is chal*C + T2 = jB + lH.
func (a *ABC) Eq2(p *Params) bool {
	return p.Grp.Add(p.Grp.Mul(a.C, a.Chal), a.T2).Eq(p.Grp.Add(p.Grp.Mul(a.B, a.J), p.Grp.Mul(p.H, a.L)))
}

// Bytes serializes.
func (a *ABC) Bytes() []byte {
	return cat(EncPt(a.B), EncPt(a.C), EncPt(a.T1), EncPt(a.T2),
		EncInt(a.Chal), EncInt(a.J), EncInt(a.K), EncInt(a.L), EncPt(a.CTok), VarBytes(a.D.Bytes()))
}

// ABC reads one.
func (d *Dec) ABC() *ABC {
	a := &ABC{B: d.Pt(), C: d.Pt(), T1: d.Pt(), T2: d.Pt(),
		Chal: d.Int(), J: d.Int(), K: d.Int(), L: d.Int(), CTok: d.Pt()}
	in := &Dec{B: d.VarBytes()}
	a.D = in.Disj()
	if in.Err != nil || len(in.B) != 0 {
		d.Err = errShort
	}
	return a
}

// Tup is one bit of a range proof.
type Tup struct {
	C Pt
	S *big.Int
}

// Range proves that a commitment holds a sum of distinct powers of two.
type Range struct {
	Agg Pt
	E   *big.Int
	Tup []Tup
}

func hashPt(q Pt) *big.Int {
	h := sha256.Sum256(append(q.X.Bytes(), q.Y.Bytes()...))
	return new(big.Int).SetBytes(h[:])
}

// RangeE hashes the R points.
func RangeE(rs []Pt) *big.Int {
	h := sha256.New()
	for _, q := range rs {
		h.Write(q.X.Bytes())
		h.Write(q.Y.Bytes())
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

// ProveRange proves bits bits of value; rnd returns a nonce. It returns the
// proof, the sum of blindings and the blindings.
func (p *Params) ProveRange(value *big.Int, bits int, rnd func() *big.Int) (*Range, *big.Int, []*big.Int) {
	return p.ProveRangeWith(value, bits, rnd, func(rs []Pt) *big.Int { return p.Mod(RangeE(rs)) })
}

// ProveRangeWith computes the challenge from the R points with hash.
func (p *Params) ProveRangeWith(value *big.Int, bits int, rnd func() *big.Int, hash func([]Pt) *big.Int) (*Range, *big.Int, []*big.Int) {
	rs := make([]Pt, bits)
	ks := make([]*big.Int, bits)
	vs := make([]*big.Int, bits)
	r := &Range{Tup: make([]Tup, bits)}
	for i := range rs {
		ks[i] = rnd()
		if value.Bit(i) == 0 {
			rs[i] = p.Grp.Mul(p.H, ks[i])
			continue
		}
		vs[i] = rnd()
		r.Tup[i].C = p.Grp.Add(p.Pow[i], p.Grp.Mul(p.H, vs[i]))
		rs[i] = p.Grp.Mul(r.Tup[i].C, hashPt(p.Grp.Mul(p.H, ks[i])))
	}
	r.E = hash(rs)
	sum := new(big.Int)
	r.Agg = ID()
	for i := range rs {
		if value.Bit(i) == 0 {
			j := rnd()
			e := p.Mod(hashPt(p.Grp.Add(p.Grp.Mul(p.H, j), p.Grp.Mul(p.Pow[i], r.E))))
			for e.Sign() == 0 { // happens in small groups
				j = rnd()
				e = p.Mod(hashPt(p.Grp.Add(p.Grp.Mul(p.H, j), p.Grp.Mul(p.Pow[i], r.E))))
			}
			ie := new(big.Int).ModInverse(e, p.n())
			vs[i] = p.MulAdd(new(big.Int), ie, ks[i])
			r.Tup[i].C = p.Grp.Mul(p.H, vs[i])
			r.Tup[i].S = p.MulAdd(j, r.E, vs[i])
		} else {
			r.Tup[i].S = p.MulAdd(ks[i], r.E, vs[i])
		}
		sum.Add(sum, vs[i])
		r.Agg = p.Grp.Add(r.Agg, r.Tup[i].C)
	}
	return r, sum, vs
}

// RPoint returns the R point of entry i.
func (r *Range) RPoint(p *Params, i int) Pt {
	t := r.Tup[i]
	q := p.Sub(p.Grp.Mul(p.H, t.S), p.Grp.Mul(p.Sub(t.C, p.Pow[i]), r.E))
	return p.Grp.Mul(t.C, hashPt(q))
}

// Sum adds the bit commitments.
func (r *Range) Sum(p *Params) Pt {
	s := ID()
	for _, t := range r.Tup {
		s = p.Grp.Add(s, t.C)
	}
	return s
}

// Verify checks the proof.
func (r *Range) Verify(p *Params, comm Pt) bool {
	if len(r.Tup) > len(p.Pow) || !p.valid(r.Agg, comm) {
		return false
	}
	rs := make([]Pt, len(r.Tup))
	for i, t := range r.Tup {
		if !p.valid(t.C) {
			return false
		}
		rs[i] = r.RPoint(p, i)
	}
	s := r.Sum(p)
	return p.Mod(RangeE(rs)).Cmp(r.E) == 0 && s.Eq(r.Agg) && s.Eq(comm)
}

// Bytes serializes.
func (r *Range) Bytes() []byte {
	b := cat(EncPt(r.Agg), EncInt(r.E), VarInt(uint64(len(r.Tup))))
	for _, t := range r.Tup {
		b = append(append(b, EncPt(t.C)...), EncInt(t.S)...)
	}
	return b
}

// Range reads one.
func (d *Dec) Range() *Range {
	r := &Range{Agg: d.Pt(), E: d.Int()}
	n := d.VarInt()
	for i := uint64(0); i < n && d.Err == nil; i++ {
		r.Tup = append(r.Tup, Tup{d.Pt(), d.Int()})
	}
	return r
}
