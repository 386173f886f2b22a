// Command vfirstz makes the very first calls of package zksigma (and wire) in a
// process at the same time from many goroutines and checks what they return.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"

	"github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/wire"
)

type call struct {
	name string
	f    func() error
}

func ok(b bool, err error) error {
	if err != nil {
		return err
	}
	if !b {
		return fmt.Errorf("false")
	}
	return nil
}

func eq(b bool) error { return ok(b, nil) }

// through serializes, reads back.
func through(err error, b func() []byte, parse func([]byte) (func() (bool, error), error)) error {
	if err != nil {
		return err
	}
	v, err := parse(b())
	if err != nil {
		return err
	}
	return ok(v())
}

func calls() []call {
	z := zksigma.TestCurve
	n := big.NewInt
	return []call{
		{"gspfs", func() error {
			a := z.Mult(z.G, n(7))
			p, err := zksigma.NewGSPFSProof(z, a, n(7))
			if err != nil {
				return err
			}
			return through(err, p.Bytes, func(b []byte) (func() (bool, error), error) {
				q, err := zksigma.NewGSPFSProofFromBytes(b)
				return func() (bool, error) { return q.Verify(z, a) }, err
			})
		}},
		{"equivalence", func() error {
			a, b := z.Mult(z.G, n(7)), z.Mult(z.H, n(7))
			p, err := zksigma.NewEquivalenceProof(z, z.G, a, z.H, b, n(7))
			if err != nil {
				return err
			}
			return ok(p.Verify(z, z.G, a, z.H, b))
		}},
		{"consistency", func() error {
			pk, _ := zksigma.KeyGen(z.C, z.H)
			cm, r, err := zksigma.PedCommit(z, n(50))
			if err != nil {
				return err
			}
			tok := zksigma.CommitR(z, pk, r)
			p, err := zksigma.NewConsistencyProof(z, cm, tok, pk, n(50), r)
			if err != nil {
				return err
			}
			return ok(p.Verify(z, cm, tok, pk))
		}},
		{"disjunctive", func() error {
			a, b := z.Mult(z.G, n(7)), z.Mult(z.H, n(8))
			p, err := zksigma.NewDisjunctiveProof(z, z.G, a, z.H, b, n(8), zksigma.Right)
			if err != nil {
				return err
			}
			return ok(p.Verify(z, z.G, a, z.H, b))
		}},
		{"abc", func() error {
			pk, sk := zksigma.KeyGen(z.C, z.H)
			cm, r, err := zksigma.PedCommit(z, n(50))
			if err != nil {
				return err
			}
			tok := zksigma.CommitR(z, pk, r)
			p, err := zksigma.NewABCProof(z, cm, tok, n(50), sk, zksigma.Right)
			if err != nil {
				return err
			}
			return ok(p.Verify(z, cm, tok))
		}},
		{"range", func() error {
			p, r, err := zksigma.NewRangeProof(z, n(1<<39+77))
			if err != nil {
				return err
			}
			return ok(p.Verify(z, zksigma.PedCommitR(z, n(1<<39+77), r)))
		}},
		{"open", func() error {
			cm, r, err := zksigma.PedCommit(z, n(9))
			if err != nil {
				return err
			}
			return eq(zksigma.Open(z, n(9), r, cm))
		}},
		{"points", func() error {
			a := z.Mult(z.H, n(5))
			b := z.Add(z.Mult(z.H, n(2)), z.Mult(z.H, n(3)))
			return eq(a.Equal(b) && z.Sub(a, b).Equal(zksigma.Zero) && z.HPoints[63].Equal(z.Mult(z.G, new(big.Int).Lsh(n(1), 63))))
		}},
		{"challenge", func() error {
			return eq(fmt.Sprintf("%x", zksigma.GenerateChallenge(z, []byte("abc"))) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")
		}},
		{"stream", func() error {
			var b bytes.Buffer
			if err := zksigma.WriteECPoint(&b, z.G); err != nil {
				return err
			}
			if err := zksigma.WriteBigInt(&b, n(-5)); err != nil {
				return err
			}
			p, err := zksigma.ReadECPoint(&b)
			if err != nil {
				return err
			}
			i, err := zksigma.ReadBigInt(&b)
			return ok(p.Equal(z.G) && i.Int64() == -5, err)
		}},
		{"varint", func() error {
			for _, v := range []uint64{1, 0xfd, 0x10000, 1 << 40} {
				var b bytes.Buffer
				if err := wire.WriteVarInt(&b, v); err != nil {
					return err
				}
				if u, err := wire.ReadVarInt(&b); err != nil || u != v {
					return fmt.Errorf("%d read as %d, %v", v, u, err)
				}
			}
			_, err := wire.RandomUint64()
			return err
		}},
	}
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	r := rand.New(rand.NewSource(seed))
	runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.Intn(4)])
	l := calls()
	n := 4 + r.Intn(8)
	same := r.Intn(3) == 0
	first := make([]int, n)
	for i := range first {
		first[i] = r.Intn(len(l))
		if same {
			first[i] = first[0]
		}
	}
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	out := make([]string, n)
	for i := 0; i < n; i++ {
		ready.Add(1)
		done.Add(1)
		go func(i int) {
			defer done.Done()
			ready.Done()
			<-start
			if err := l[first[i]].f(); err != nil {
				out[i] = fmt.Sprintf("MISMATCH %s: %v\n", l[first[i]].name, err)
			}
		}(i)
	}
	ready.Wait()
	close(start)
	done.Wait()
	for _, s := range out {
		fmt.Print(s)
	}
	fmt.Print("first:")
	for _, f := range first {
		fmt.Print(" ", l[f].name)
	}
	fmt.Println()
}
