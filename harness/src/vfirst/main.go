// Command vfirst makes the very first calls of package btcec in a process at the
// same time from many goroutines and checks what they return. Built with the
// race detector. Arguments: the seed of the choice of calls.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"

	"github.com/mit-dci/zksigma/btcec"
)

const (
	gx = "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
	gy = "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"
	// 2G
	dx = "c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5"
	dy = "1ae168fea63dc339a3c58419466ceaeef7f632653266d0e1236431a950cfe52a"
)

func h(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

func pt(x, y *big.Int) string { return fmt.Sprintf("%064x %064x", x, y) }

type call struct {
	name string
	f    func() string
	want string
}

var hash = bytes.Repeat([]byte{7}, 32)

func calls() []call {
	two := []byte{2}
	c := []call{
		{"S256.Params", func() string { p := btcec.S256().Params(); return pt(p.Gx, p.Gy) }, gx + " " + gy},
		{"S256.N", func() string { return fmt.Sprintf("%x", btcec.S256().N) }, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"},
		{"ScalarBaseMult", func() string { return pt(btcec.S256().ScalarBaseMult(two)) }, dx + " " + dy},
		{"ScalarMult", func() string { return pt(btcec.S256().ScalarMult(h(gx), h(gy), two)) }, dx + " " + dy},
		{"Double", func() string { return pt(btcec.S256().Double(h(gx), h(gy))) }, dx + " " + dy},
		{"Add", func() string { return pt(btcec.S256().Add(h(gx), h(gy), h(gx), h(gy))) }, dx + " " + dy},
		{"IsOnCurve", func() string { return fmt.Sprint(btcec.S256().IsOnCurve(h(gx), h(gy))) }, "true"},
		{"ScalarBaseMultH", func() string { return fmt.Sprint(btcec.S256().IsOnCurve(btcec.S256().ScalarBaseMultH(two))) }, "true"},
		{"PrivKeyFromBytes", func() string { _, k := btcec.PrivKeyFromBytes(btcec.S256(), two); return pt(k.X, k.Y) }, dx + " " + dy},
		{"ParsePubKey", func() string {
			b, _ := hex.DecodeString("02" + dx)
			k, err := btcec.ParsePubKey(b, btcec.S256())
			if err != nil {
				return err.Error()
			}
			return pt(k.X, k.Y)
		}, dx + " " + dy},
		{"QPlus1Div4", func() string { return fmt.Sprint(btcec.S256().QPlus1Div4().BitLen()) }, "254"},
		{"Sign", func() string {
			k, p := btcec.PrivKeyFromBytes(btcec.S256(), two)
			s, err := k.Sign(hash)
			if err != nil {
				return err.Error()
			}
			return fmt.Sprint(s.Verify(hash, p))
		}, "true"},
		{"SignCompact", func() string {
			k, p := btcec.PrivKeyFromBytes(btcec.S256(), two)
			b, err := btcec.SignCompact(btcec.S256(), k, hash, true)
			if err != nil {
				return err.Error()
			}
			q, comp, err := btcec.RecoverCompact(btcec.S256(), b, hash)
			if err != nil {
				return err.Error()
			}
			return fmt.Sprint(q.IsEqual(p), comp)
		}, "true true"},
		{"Encrypt", func() string {
			k, p := btcec.PrivKeyFromBytes(btcec.S256(), two)
			ct, err := btcec.Encrypt(p, hash)
			if err != nil {
				return err.Error()
			}
			b, err := btcec.Decrypt(k, ct)
			return fmt.Sprint(bytes.Equal(b, hash), err)
		}, "true <nil>"},
		{"NewPrivateKey", func() string {
			k, err := btcec.NewPrivateKey(btcec.S256())
			if err != nil {
				return err.Error()
			}
			x, y := btcec.S256().ScalarBaseMult(k.D.Bytes())
			return fmt.Sprint(x.Cmp(k.X) == 0 && y.Cmp(k.Y) == 0)
		}, "true"},
		{"ParseDERSignature", func() string {
			s, err := btcec.ParseDERSignature([]byte{0x30, 6, 2, 1, 5, 2, 1, 9}, btcec.S256())
			if err != nil {
				return err.Error()
			}
			return s.R.String() + s.S.String()
		}, "59"},
		{"SharedSecret", func() string {
			k, p := btcec.PrivKeyFromBytes(btcec.S256(), []byte{1})
			return hex.EncodeToString(btcec.GenerateSharedSecret(k, p))
		}, gx},
		{"NAF", func() string {
			p, n := btcec.NAF([]byte{0x77})
			return new(big.Int).Sub(new(big.Int).SetBytes(p), new(big.Int).SetBytes(n)).String()
		}, "119"},
	}
	return c
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	r := rand.New(rand.NewSource(seed))
	runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.Intn(4)])
	l := calls()
	n := 4 + r.Intn(12)
	same := r.Intn(3) == 0
	first := make([]int, n)
	for i := range first {
		first[i] = r.Intn(len(l))
		if same {
			first[i] = first[0]
		}
	}
	spin := r.Intn(2) == 0
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	out := make([]string, n)
	for i := 0; i < n; i++ {
		ready.Add(1)
		done.Add(1)
		go func(i int) {
			defer done.Done()
			ready.Done()
			<-start
			if spin {
				for k := 0; k < i*50; k++ {
					runtime.Gosched()
				}
			}
			for _, c := range []call{l[first[i]], l[(first[i]+i)%len(l)]} {
				if got := c.f(); got != c.want {
					out[i] += fmt.Sprintf("MISMATCH %s gives %s, not %s\n", c.name, got, c.want)
				}
			}
		}(i)
	}
	ready.Wait()
	close(start)
	done.Wait()
	for _, s := range out {
		fmt.Print(s)
	}
	fmt.Print("first:")
	for _, f := range first {
		fmt.Print(" ", l[f].name)
	}
	fmt.Println()
}
