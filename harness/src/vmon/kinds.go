package main

import (
	"fmt"
	"math/big"

	"github.com/mit-dci/zksigma"

	"vref"
)

// The proof kinds.
const (
	kGSPFS = "gspfs"
	kEquiv = "equivalence"
	kCons  = "consistency"
	kDisj  = "disjunctive"
	kABC   = "abc"
	kIneq  = "inequality"
	kRange = "range"
)

var sigmaKinds = []string{kGSPFS, kEquiv, kCons, kDisj, kABC, kIneq}
var allKinds = append(append([]string{}, sigmaKinds...), kRange)

// Inst is a statement with a witness.
type Inst struct {
	E     *Env
	Kind  string
	Stmt  []vref.Pt  // in the order of the prover's arguments
	Wit   []*big.Int // in the order of the prover's arguments
	Right bool       // side, for disjunctive and abc
}

func (in *Inst) String() string {
	s := fmt.Sprintf("%s %s right=%v wit=%x stmt=", in.E.Name, in.Kind, in.Right, in.Wit)
	for _, p := range in.Stmt {
		s += fmt.Sprintf("(%x,%x)", p.X, p.Y)
	}
	return s
}

// newInst makes a true statement with its witness.
func newInst(c *C, e *Env, kind string) *Inst {
	n := e.P.Grp.Order()
	g := e.P.Grp
	in := &Inst{E: e, Kind: kind}
	switch kind {
	case kGSPFS:
		b, _ := c.Point(e)
		if c.Flip() {
			b = e.P.G
		}
		x := c.Int(n)
		in.Stmt = []vref.Pt{b, g.Mul(b, x)}
		in.Wit = []*big.Int{x}
	case kEquiv:
		b1, _ := c.Point(e)
		b2, _ := c.Point(e)
		if c.R.IntN(3) == 0 {
			b1, b2 = e.P.G, e.P.H
		}
		x := c.Int(n)
		in.Stmt = []vref.Pt{b1, g.Mul(b1, x), b2, g.Mul(b2, x)}
		in.Wit = []*big.Int{x}
	case kCons:
		pk := g.Mul(e.P.H, c.Scalar(n))
		if c.R.IntN(4) == 0 {
			pk, _ = c.Point(e)
		}
		v, r := c.Int(n), c.Int(n)
		in.Stmt = []vref.Pt{e.P.Commit(v, r), g.Mul(pk, r), pk}
		in.Wit = []*big.Int{v, r}
	case kDisj:
		b1, _ := c.Point(e)
		b2, _ := c.Point(e)
		x := c.Int(n)
		other, _ := c.Point(e)
		in.Right = c.Flip()
		if in.Right {
			if c.R.IntN(4) == 0 {
				other = g.Mul(b1, x)
			}
			in.Stmt = []vref.Pt{b1, other, b2, g.Mul(b2, x)}
		} else {
			if c.R.IntN(4) == 0 {
				other = g.Mul(b2, x)
			}
			in.Stmt = []vref.Pt{b1, g.Mul(b1, x), b2, other}
		}
		in.Wit = []*big.Int{x}
	case kABC:
		sk := c.NonZero(n)
		if c.R.IntN(4) == 0 {
			sk.Add(sk, new(big.Int).Mul(n, big.NewInt(int64(c.R.IntN(7)-3))))
		}
		v, r := c.Int(n), c.Int(n)
		if c.R.IntN(3) == 0 {
			v = new(big.Int).Mul(n, big.NewInt(int64(c.R.IntN(5)-2)))
			if c.Flip() {
				v = new(big.Int)
			}
		}
		in.Right = e.P.Mod(v).Sign() != 0
		in.Stmt = []vref.Pt{e.P.Commit(v, r), g.Mul(e.P.H, e.P.MulAdd(new(big.Int), sk, r))}
		in.Wit = []*big.Int{v, sk}
	case kIneq:
		sk := c.NonZero(n)
		a, b := c.Int(n), c.Int(n)
		if c.R.IntN(3) == 0 {
			b = new(big.Int).Add(a, big.NewInt(int64(c.R.IntN(5)-2)))
		}
		if e.P.Mod(new(big.Int).Sub(a, b)).Sign() == 0 {
			b = new(big.Int).Add(b, one())
		}
		ra, rb := c.Int(n), c.Int(n)
		if c.R.IntN(6) == 0 {
			rb = ra
		}
		tok := func(r *big.Int) vref.Pt { return g.Mul(e.P.H, e.P.MulAdd(new(big.Int), sk, r)) }
		in.Stmt = []vref.Pt{e.P.Commit(a, ra), e.P.Commit(b, rb), tok(ra), tok(rb)}
		in.Wit = []*big.Int{a, b, sk}
		in.Right = true
	case kRange:
		in.Wit = []*big.Int{c.RangeValue()}
	}
	return in
}

// RangeValue is in [0, 2^40).
func (c *C) RangeValue() *big.Int {
	max := new(big.Int).Lsh(one(), 40)
	switch c.R.IntN(6) {
	case 0:
		return new(big.Int).Lsh(one(), uint(c.R.IntN(40)))
	case 1:
		return new(big.Int).Sub(max, new(big.Int).Lsh(one(), uint(c.R.IntN(40))))
	case 2:
		return new(big.Int).Sub(new(big.Int).Lsh(one(), uint(1+c.R.IntN(40))), one())
	case 3:
		return c.big(new(big.Int).Lsh(one(), uint(1+c.R.IntN(40))))
	}
	return c.big(max)
}

// VStmt is the statement in the order of the verifier's arguments.
func (in *Inst) VStmt() []vref.Pt {
	switch in.Kind {
	case kGSPFS:
		return in.Stmt[1:]
	case kIneq:
		return []vref.Pt{in.E.P.Sub(in.Stmt[0], in.Stmt[1]), in.E.P.Sub(in.Stmt[2], in.Stmt[3])}
	}
	return in.Stmt
}

func side(right bool) zksigma.Side {
	if right {
		return zksigma.Right
	}
	return zksigma.Left
}

// Prove calls the library's prover. For range proofs it also sets the statement
// and appends the returned blinding factor to the witness.
func (in *Inst) Prove() (interface{}, error) {
	p, blind, err := in.proveRaw()
	if in.Kind == kRange && err == nil {
		in.Wit = []*big.Int{in.Wit[0], blind}
		in.Stmt = []vref.Pt{in.E.P.Commit(in.Wit[0], blind)}
	}
	return p, err
}

func (in *Inst) proveRaw() (interface{}, *big.Int, error) {
	var s []zksigma.ECPoint
	for _, p := range in.Stmt {
		s = append(s, lp(p))
	}
	return libProve(in.Kind, in.E.L, s, in.Wit, side(in.Right))
}

func libProve(kind string, z zksigma.ZKPCurveParams, s []zksigma.ECPoint, w []*big.Int, sd zksigma.Side) (p interface{}, blind *big.Int, err error) {
	switch kind {
	case kGSPFS:
		if s[0].X.Cmp(z.G.X) == 0 && s[0].Y.Cmp(z.G.Y) == 0 {
			p, err = zksigma.NewGSPFSProof(z, s[1], w[0])
		} else {
			p, err = zksigma.NewGSPFSProofBase(z, s[0], s[1], w[0])
		}
	case kEquiv:
		p, err = zksigma.NewEquivalenceProof(z, s[0], s[1], s[2], s[3], w[0])
	case kCons:
		p, err = zksigma.NewConsistencyProof(z, s[0], s[1], s[2], w[0], w[1])
	case kDisj:
		p, err = zksigma.NewDisjunctiveProof(z, s[0], s[1], s[2], s[3], w[0], sd)
	case kABC:
		p, err = zksigma.NewABCProof(z, s[0], s[1], w[0], w[1], sd)
	case kIneq:
		p, err = zksigma.NewInequalityProof(z, s[0], s[1], s[2], s[3], w[0], w[1], w[2])
	case kRange:
		p, blind, err = zksigma.NewRangeProof(z, w[0])
	}
	return
}

// libVerify calls the library's verifier.
func libVerify(z zksigma.ZKPCurveParams, proof interface{}, stmt []vref.Pt) (bool, error) {
	var s []zksigma.ECPoint
	for _, p := range stmt {
		s = append(s, lp(p))
	}
	return libVerifyRaw(z, proof, s)
}

func libVerifyRaw(z zksigma.ZKPCurveParams, proof interface{}, s []zksigma.ECPoint) (bool, error) {
	switch p := proof.(type) {
	case *zksigma.GSPFSProof:
		return p.Verify(z, s[0])
	case *zksigma.EquivalenceProof:
		return p.Verify(z, s[0], s[1], s[2], s[3])
	case *zksigma.ConsistencyProof:
		return p.Verify(z, s[0], s[1], s[2])
	case *zksigma.DisjunctiveProof:
		return p.Verify(z, s[0], s[1], s[2], s[3])
	case *zksigma.ABCProof:
		return p.Verify(z, s[0], s[1])
	case *zksigma.InequalityProof:
		return p.Verify(z, s[0], s[1])
	case *zksigma.RangeProof:
		return p.Verify(z, s[0])
	}
	panic(fmt.Sprintf("%T", proof))
}

func libBytes(proof interface{}) []byte {
	switch p := proof.(type) {
	case *zksigma.InequalityProof:
		return (*zksigma.ABCProof)(p).Bytes()
	case interface{ Bytes() []byte }:
		return p.Bytes()
	}
	panic(fmt.Sprintf("%T", proof))
}

func libParse(kind string, b []byte) (interface{}, error) {
	switch kind {
	case kGSPFS:
		return zksigma.NewGSPFSProofFromBytes(b)
	case kEquiv:
		return zksigma.NewEquivalenceProofFromBytes(b)
	case kCons:
		return zksigma.NewConsistencyProofFromBytes(b)
	case kDisj:
		return zksigma.NewDisjunctiveProofFromBytes(b)
	case kABC:
		return zksigma.NewABCProofFromBytes(b)
	case kIneq:
		p, err := zksigma.NewABCProofFromBytes(b)
		if err != nil {
			return (*zksigma.InequalityProof)(nil), err
		}
		return (*zksigma.InequalityProof)(p), nil
	case kRange:
		return zksigma.NewRangeProofFromBytes(b)
	}
	panic(kind)
}

// RefProof is a proof in the reference's representation.
type RefProof interface{ Bytes() []byte }

func refParse(kind string, b []byte) (RefProof, error) {
	d := &vref.Dec{B: b}
	var p RefProof
	switch kind {
	case kGSPFS:
		p = d.GSPFS()
	case kEquiv:
		p = d.Equiv()
	case kCons:
		p = d.Cons()
	case kDisj:
		p = d.Disj()
	case kABC, kIneq:
		p = d.ABC()
	case kRange:
		p = d.Range()
	}
	if d.Err == nil && len(d.B) != 0 {
		return p, fmt.Errorf("%d bytes left over", len(d.B))
	}
	return p, d.Err
}

func refVerify(p *vref.Params, proof RefProof, s []vref.Pt) bool {
	switch q := proof.(type) {
	case *vref.GSPFS:
		return q.Verify(p, s[0])
	case *vref.Equiv:
		return q.Verify(p, s[0], s[1], s[2], s[3])
	case *vref.Cons:
		return q.Verify(p, s[0], s[1], s[2])
	case *vref.Disj:
		return q.Verify(p, s[0], s[1], s[2], s[3])
	case *vref.ABC:
		return q.Verify(p, s[0], s[1])
	case *vref.Range:
		return q.Verify(p, s[0])
	}
	panic(fmt.Sprintf("%T", proof))
}

// toLib turns a reference proof into one of the library's: through its exported
// members where it has them, else through its decoder.
func toLib(kind string, p RefProof) (interface{}, error) {
	switch q := p.(type) {
	case *vref.GSPFS:
		return &zksigma.GSPFSProof{Base: lp(q.Base), RandCommit: lp(q.T), HiddenValue: cp(q.S), Challenge: cp(q.C)}, nil
	case *vref.Equiv:
		return &zksigma.EquivalenceProof{UG: lp(q.UG), UH: lp(q.UH), Challenge: cp(q.C), HiddenValue: cp(q.S)}, nil
	case *vref.Cons:
		return &zksigma.ConsistencyProof{T1: lp(q.T1), T2: lp(q.T2), Challenge: cp(q.C), S1: cp(q.S1), S2: cp(q.S2)}, nil
	case *vref.Disj:
		return &zksigma.DisjunctiveProof{T1: lp(q.T1), T2: lp(q.T2), C: cp(q.C), C1: cp(q.C1), C2: cp(q.C2), S1: cp(q.S1), S2: cp(q.S2)}, nil
	}
	return libParse(kind, p.Bytes())
}

func cp(a *big.Int) *big.Int { return new(big.Int).Set(a) }

// Member is one named member of a reference proof.
type Member struct {
	Name string
	Pt   *vref.Pt
	Int  **big.Int
	Mod  bool // only the residue matters: a response or partial challenge
}

func members(p RefProof) (m []Member) {
	pt := func(n string, q *vref.Pt) { m = append(m, Member{Name: n, Pt: q}) }
	in := func(n string, q **big.Int, mod bool) { m = append(m, Member{Name: n, Int: q, Mod: mod}) }
	dj := func(pre string, q *vref.Disj) {
		pt(pre+"T1", &q.T1)
		pt(pre+"T2", &q.T2)
		in(pre+"C", &q.C, false)
		in(pre+"C1", &q.C1, true)
		in(pre+"C2", &q.C2, true)
		in(pre+"S1", &q.S1, true)
		in(pre+"S2", &q.S2, true)
	}
	switch q := p.(type) {
	case *vref.GSPFS:
		pt("Base", &q.Base)
		pt("RandCommit", &q.T)
		in("HiddenValue", &q.S, true)
		in("Challenge", &q.C, false)
	case *vref.Equiv:
		pt("UG", &q.UG)
		pt("UH", &q.UH)
		in("Challenge", &q.C, false)
		in("HiddenValue", &q.S, true)
	case *vref.Cons:
		pt("T1", &q.T1)
		pt("T2", &q.T2)
		in("Challenge", &q.C, false)
		in("S1", &q.S1, true)
		in("S2", &q.S2, true)
	case *vref.Disj:
		dj("", q)
	case *vref.ABC:
		pt("B", &q.B)
		pt("C", &q.C)
		pt("T1", &q.T1)
		pt("T2", &q.T2)
		in("Challenge", &q.Chal, false)
		in("j", &q.J, true)
		in("k", &q.K, true)
		in("l", &q.L, true)
		pt("CToken", &q.CTok)
		dj("disj.", q.D)
	case *vref.Range:
		pt("Aggregate", &q.Agg)
		in("E", &q.E, false)
		for i := range q.Tup {
			pt(fmt.Sprintf("Tuple[%d].C", i), &q.Tup[i].C)
			in(fmt.Sprintf("Tuple[%d].S", i), &q.Tup[i].S, true)
		}
	}
	return
}

func clone(kind string, p RefProof) RefProof {
	q, err := refParse(kind, p.Bytes())
	if err != nil {
		panic(err)
	}
	return q
}

// ok tells whether a verifier's answer is a clean yes or a clean no.
func answer(ok bool, err error) (accepted, clean bool) {
	return ok, ok == (err == nil)
}

func randRef(c *C, e *Env, kind string, in *Inst) RefProof {
	n := e.P.Grp.Order()
	u := func() *big.Int { return c.Uni(n) }
	w, s := in.Wit, in.Stmt
	switch kind {
	case kGSPFS:
		return e.P.ProveGSPFS(s[0], s[1], w[0], u())
	case kEquiv:
		return e.P.ProveEquiv(s[0], s[1], s[2], s[3], w[0], u())
	case kCons:
		return e.P.ProveCons(s[0], s[1], s[2], w[0], w[1], u(), u())
	case kDisj:
		return e.P.ProveDisj(s[0], s[1], s[2], s[3], w[0], in.Right, u(), u(), u())
	case kABC:
		return e.P.ProveABC(s[0], s[1], w[0], w[1], in.Right, &vref.ABCNonces{U1: u(), U2: u(), U3: u(), Ub: u(), Uc: u(), D1: u(), D2: u(), D3: u()})
	case kIneq:
		v := in.VStmt()
		return e.P.ProveABC(v[0], v[1], new(big.Int).Sub(w[0], w[1]), w[2], true, &vref.ABCNonces{U1: u(), U2: u(), U3: u(), Ub: u(), Uc: u(), D1: u(), D2: u(), D3: u()})
	case kRange:
		r, sum, _ := e.P.ProveRange(w[0], 40, u)
		in.Wit = []*big.Int{w[0], sum}
		in.Stmt = []vref.Pt{r.Agg}
		return r
	}
	panic(kind)
}
