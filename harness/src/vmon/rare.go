package main

import (
	crand "crypto/rand"
	"encoding/binary"
	"math/big"
	"math/rand/v2"
	"sync"

	"vref"
)

// Honest proofs in which an integer is two bytes or more shorter than usual,
// found by search: such integers are challenges or responses, which a prover does
// not choose.

// rareInst derives a statement, its witness and the prover's random values, in the
// order in which the library draws them, from a number.
func rareInst(kind string, seed uint64) (*Inst, []*big.Int) {
	var k [32]byte
	copy(k[:], "rare "+kind)
	binary.BigEndian.PutUint64(k[24:], seed)
	src := rand.NewChaCha8(k)
	c := &C{R: rand.New(src), src: src}
	in := plainInst(c, std(), kind)
	n := map[string]int{kGSPFS: 1, kEquiv: 1, kCons: 2, kDisj: 3, kABC: 8, kIneq: 8}[kind]
	var l []*big.Int
	for i := 0; i < n; i++ {
		l = append(l, c.Uni(vref.N))
	}
	return in, l
}

// rareProof is the independent prover's proof with the given random values.
func rareProof(in *Inst, l []*big.Int) RefProof {
	p, s, w := in.E.P, in.Stmt, in.Wit
	switch in.Kind {
	case kGSPFS:
		return p.ProveGSPFS(s[0], s[1], w[0], l[0])
	case kEquiv:
		return p.ProveEquiv(s[0], s[1], s[2], s[3], w[0], l[0])
	case kCons:
		return p.ProveCons(s[0], s[1], s[2], w[0], w[1], l[0], l[1])
	case kDisj:
		return p.ProveDisj(s[0], s[1], s[2], s[3], w[0], in.Right, l[0], l[1], l[2])
	}
	v := w[0]
	if in.Kind == kIneq {
		v = new(big.Int).Sub(w[0], w[1])
	}
	t := in.VStmt()
	return p.ProveABC(t[0], t[1], v, w[len(w)-1], in.Right,
		&vref.ABCNonces{U1: l[0], U2: l[1], U3: l[2], Ub: l[3], Uc: l[4], D1: l[5], D2: l[6], D3: l[7]})
}

// rareMembers names the integers of a proof that are at least two bytes short.
func rareMembers(r RefProof) (l []string) {
	for _, m := range members(r) {
		if m.Int != nil && (*m.Int).BitLen() <= 240 {
			l = append(l, m.Name)
		}
	}
	return
}

// scriptReader hands out the given values for the first 32-byte reads.
type scriptReader struct {
	mu sync.Mutex
	l  []*big.Int
	r  interface{ Read([]byte) (int, error) }
}

func (s *scriptReader) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(b) == 32 && len(s.l) > 0 {
		s.l[0].FillBytes(b)
		s.l = s.l[1:]
		return 32, nil
	}
	return s.r.Read(b)
}

// rareDraws is rareK as numbers.
func rareDraws() (l []*big.Int) {
	for _, s := range rareK {
		l = append(l, hexInt(s))
	}
	return
}

// useScript makes the library draw the given values.
func useScript(l []*big.Int) {
	crand.Reader = &scriptReader{l: append([]*big.Int{}, l...), r: crand.Reader}
}
