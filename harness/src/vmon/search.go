//go:build search

package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"sync"
	"sync/atomic"

	"vref"
)

// Finds the numbers listed in rare_data.go: go run -tags search vmon.
func init() {
	for _, k := range sigmaKinds {
		want := map[string]int{}
		in, l := rareInst(k, 0)
		for _, m := range members(rareProof(in, l)) {
			if m.Int != nil {
				want[m.Name] = 2
			}
		}
		var found []uint64
		names := map[uint64][]string{}
		var mu sync.Mutex
		var next atomic.Uint64
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					s := next.Add(1)
					mu.Lock()
					done := len(want) == 0 || s > 700000
					mu.Unlock()
					if done {
						return
					}
					in, l := rareInst(k, s)
					if rm := rareMembers(rareProof(in, l)); len(rm) > 0 {
						mu.Lock()
						use := false
						for _, n := range rm {
							if want[n] > 0 {
								use = true
								if want[n]--; want[n] == 0 {
									delete(want, n)
								}
							}
						}
						if use {
							found = append(found, s)
							names[s] = rm
						}
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
		fmt.Printf("\t%q: {", k)
		for _, s := range found {
			fmt.Printf("%d /* %v */, ", s, names[s])
		}
		fmt.Println("},", want)
	}
	// scalars k with a short hash of k*H
	k := new(big.Int).SetBytes([]byte("a starting point for this search"))
	k.Mod(k, vref.N)
	q := vref.MulH(k)
	got := map[int]int{}
	for i := 0; i < 20000000 && got[3] < 2; i++ {
		h := sha256.Sum256(append(q.X.Bytes(), q.Y.Bytes()...))
		z := 0
		for z < 4 && h[z] == 0 {
			z++
		}
		if z >= 1 && got[z] < 3 {
			got[z]++
			fmt.Printf("\t%q, // %d\n", fmt.Sprintf("%x", k), z)
		}
		k = new(big.Int).Add(k, one())
		q = vref.Secp{}.Add(q, vref.H)
	}
	// messages with short signatures
	d := big.NewInt(0xabcdef)
	cnt := map[string]int{}
	for i := 0; i < 400000; i++ {
		h := sha256.Sum256([]byte(fmt.Sprint("message ", i)))
		r, s := vref.SignECDSA(d, h[:])
		kind := ""
		if r.BitLen() <= 240 {
			kind = "r"
		}
		if s.BitLen() <= 240 {
			kind += "s"
		}
		if r.BitLen() <= 248 && s.BitLen() <= 248 {
			kind += "rs"
		}
		if kind != "" && cnt[kind] < 3 {
			cnt[kind]++
			fmt.Printf("\t%d, // %s %d %d\n", i, kind, r.BitLen(), s.BitLen())
		}
	}
	os.Exit(0)
}
