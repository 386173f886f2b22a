package main

import (
	"bytes"
	crand "crypto/rand"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing/iotest"

	"github.com/mit-dci/zksigma/wire"

	"vref"
)

func init() {
	register(&Check{ID: "C12", Level: "exploration",
		Rule:  "all integers below 70000, all within 40 of powers of two and random ones; all 1- to 3-byte inputs and all non-shortest forms; byte strings of all border lengths with limits at, below and above; every truncation; readers and writers that fail at every byte, deliver portions, or use the package themselves while being called; concurrent use; byte strings kept and compared after later calls. Compared with an independent encoder. Non-trivial: a distinct input or value decided",
		Run:   runC12,
		Floor: map[string]int64{"integers": 70000, "non-shortest forms": 60000, "short inputs": 60000, "byte strings": 200, "limits": 300, "truncations": 1000, "failing readers": 1000, "failing writers": 1000, "reentrant calls": 100, "concurrent operations": 10000, "kept byte strings compared": 5000}})
}

var errPlanted = errors.New("planted I/O failure")

// planted tells whether err carries the planted failure.
func planted(err error) bool {
	return err != nil && (errors.Is(err, errPlanted) || strings.Contains(err.Error(), errPlanted.Error()))
}

type failReader struct {
	b    []byte
	with bool // the error comes together with the last bytes
}

func (r *failReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, errPlanted
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && r.with {
		return n, errPlanted
	}
	return n, nil
}

type failWriter struct {
	left int
	got  []byte
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		w.got = append(w.got, p[:w.left]...)
		n := w.left
		w.left = 0
		return n, errPlanted
	}
	w.left -= len(p)
	w.got = append(w.got, p...)
	return len(p), nil
}

func c12int(c *C, v uint64) {
	want := vref.VarInt(v)
	var buf bytes.Buffer
	err := wire.WriteVarInt(&buf, v)
	c.Check(err == nil && bytes.Equal(buf.Bytes(), want), "encode", "%d is encoded as %x (%v), expected %x", v, buf.Bytes(), err, want)
	c.Check(wire.VarIntSerializeSize(v) == len(want), "size", "size of %d is said to be %d, not %d", v, wire.VarIntSerializeSize(v), len(want))
	rd := bytes.NewReader(append(bytes.Clone(want), 0x5a, 0xa5))
	g, err := wire.ReadVarInt(rd)
	c.Check(err == nil && g == v, "decode", "%x is decoded as %d (%v), not %d", want, g, err, v)
	c.Check(rd.Len() == 2, "consumed", "decoding %x leaves %d of the 2 bytes behind it", want, rd.Len())
	c.Count("integers", 1)
	c.Distinct(v)
}

// c12any decides an arbitrary input against the independent decoder.
func c12any(c *C, in []byte, counter string) {
	d := &vref.Dec{B: in}
	want := d.VarInt()
	rd := bytes.NewReader(in)
	g, err := wire.ReadVarInt(rd)
	c.Count(counter, 1)
	if d.Err != nil {
		c.Check(err != nil, "accepted", "%x is decoded as %d, an error is expected", in, g)
		return
	}
	c.Check(err == nil && g == want && rd.Len() == len(d.B), "decode", "%x is decoded as %d (%v), %d bytes left; expected %d, %d left", in, g, err, rd.Len(), want, len(d.B))
}

func runC12(w *W) {
	for b := 0; b < 35; b++ {
		w.Case(fmt.Sprintf("ints/%d", b), func(c *C) {
			for v := uint64(b * 2000); v < uint64(b*2000+2000); v++ {
				c12int(c, v)
			}
		})
	}
	w.Case("powers", func(c *C) {
		for k := uint(0); k < 64; k++ {
			for d := -40; d <= 40; d++ {
				c12int(c, uint64(1)<<k+uint64(d))
			}
		}
		c12int(c, 1<<64-1)
		c.Sample("2^k + d for k < 64, |d| <= 40")
	})
	for i := 0; i < w.Scale(40, 400); i++ {
		w.Case(fmt.Sprintf("random/%d", i), func(c *C) {
			for j := 0; j < 500; j++ {
				v := c.R.Uint64() >> uint(c.R.IntN(64))
				c12int(c, v)
				in := c.Bytes(c.R.IntN(12))
				if len(in) > 0 && c.Flip() {
					in[0] = byte(0xfd + c.R.IntN(3))
				}
				for k := 1; k < len(in); k++ {
					if c.R.IntN(3) == 0 {
						in[k] = 0
					}
				}
				c12any(c, in, "arbitrary inputs")
				c.Distinct(in)
			}
		})
	}
	w.Case("short", func(c *C) {
		c12any(c, nil, "short inputs")
		for a := 0; a < 256; a++ {
			c12any(c, []byte{byte(a)}, "short inputs")
			for b := 0; b < 256; b++ {
				c12any(c, []byte{byte(a), byte(b)}, "short inputs")
			}
		}
	})
	w.Case("three", func(c *C) {
		for a := 0; a < 65536; a++ {
			c12any(c, []byte{0xfd, byte(a), byte(a >> 8)}, "short inputs")
			c12any(c, []byte{0xfe, byte(a), byte(a >> 8), 0, 0}, "non-shortest forms")
			c12any(c, []byte{0xfe, byte(a), byte(a >> 8), 1, 0}, "non-shortest forms")
			c12any(c, []byte{0xff, byte(a), byte(a >> 8), 0, 0, 0, 0, 0, 0}, "non-shortest forms")
			c12any(c, []byte{0xff, 0, 0, byte(a), byte(a >> 8), 0, 0, 0, 0}, "non-shortest forms")
			c12any(c, []byte{0xff, 0xff, 0xff, 0xff, 0xff, byte(a), byte(a >> 8), 0, 0}, "non-shortest forms")
			c12any(c, []byte{0xff, 0xff, 0xff, 0, 0, 0, 0, byte(a), byte(a >> 8)}, "non-shortest forms")
		}
		c.Distinct("three")
	})
	lens := []int{0, 1, 2, 3, 31, 32, 33, 127, 128, 251, 252, 253, 254, 255, 256, 257, 1023, 1024, 65534, 65535, 65536, 65537, 70001}
	for _, n := range lens {
		w.Case(fmt.Sprintf("bytes/%d", n), func(c *C) {
			for rep := 0; rep < w.Scale(10, 60); rep++ {
				b := c.Bytes(n)
				want := vref.VarBytes(b)
				var buf bytes.Buffer
				err := wire.WriteVarBytes(&buf, bytes.Clone(b))
				c.Check(err == nil && bytes.Equal(buf.Bytes(), want), "encode", "%d bytes are encoded wrongly (%v)", n, err)
				c.Count("byte strings", 1)
				c.Distinct(b)
				for _, lim := range []int{0, 1, n - 2, n - 1, n, n + 1, n + 2, 2*n + 10, 1 << 31, 1<<32 - 1, 253, 65535, 65536} {
					if lim < 0 {
						continue
					}
					for how := 0; how < 3; how++ {
						er := &exactReader{b: append(bytes.Clone(want), 1, 2, 3)}
						var r io.Reader = er
						if how == 1 {
							r = iotest.OneByteReader(er)
						} else if how == 2 {
							r = iotest.HalfReader(er)
						}
						if how > 0 && n > 2000 {
							continue
						}
						g, err := wire.ReadVarBytes(r, uint32(lim), "field")
						c.Count("limits", 1)
						if lim < n {
							c.Check(err != nil, "limit", "%d bytes are read with limit %d", n, lim)
						} else {
							c.Check(err == nil && bytes.Equal(g, b), "decode", "%d bytes with limit %d are read wrongly: %v", n, lim, err)
							c.Check(len(er.b) == 3 && !er.over, "consumed", "%d bytes with limit %d: %d of the 3 bytes behind left", n, lim, len(er.b))
						}
					}
				}
				// every truncation, every failure
				step := 1
				if len(want) > 600 {
					step = len(want) / 97
				}
				for cut := 0; cut < len(want); cut += step {
					if cut > 12 && cut < len(want)-12 && step == 1 && len(want) > 300 && cut%7 != 0 {
						continue
					}
					_, err := wire.ReadVarBytes(bytes.NewReader(want[:cut]), 1<<31, "field")
					c.Check(err != nil, "truncated", "%d of %d bytes are enough to read the string", cut, len(want))
					c.Count("truncations", 1)
					for _, with := range []bool{false, true} {
						_, err = wire.ReadVarBytes(&failReader{bytes.Clone(want[:cut]), with}, 1<<31, "field")
						c.Check(planted(err), "error", "reader fails at byte %d of %d (with data %v): %v", cut, len(want), with, err)
						c.Count("failing readers", 1)
					}
					fw := &failWriter{left: cut}
					err = wire.WriteVarBytes(fw, b)
					c.Check(planted(err), "error", "writer fails at byte %d of %d: %v", cut, len(want), err)
					c.Check(bytes.HasPrefix(want, fw.got), "prefix", "writer that fails at byte %d got %x", cut, fw.got)
					c.Count("failing writers", 1)
				}
				fw := &failWriter{left: len(want)}
				c.Check(wire.WriteVarBytes(fw, b) == nil, "error", "a writer that does not fail")
			}
		})
	}
	// what was read stays what it was, whatever is read afterwards
	for i := 0; i < w.Scale(20, 200); i++ {
		w.Case(fmt.Sprintf("kept/%d", i), func(c *C) {
			var in, got [][]byte
			var ns []uint64
			for j := 0; j < 200; j++ {
				n := c.R.IntN(40)
				if c.R.IntN(8) == 0 {
					n = pick(c, lens[:18])
				}
				b := c.Bytes(n)
				rd := bytes.NewReader(vref.VarBytes(b))
				g, err := wire.ReadVarBytes(rd, 2000, "kept")
				if !c.Check(err == nil, "decode", "%d bytes: %v", n, err) {
					return
				}
				in, got, ns = append(in, bytes.Clone(b)), append(got, g), append(ns, uint64(n))
				switch c.R.IntN(4) {
				case 0:
					c12int(c, c.R.Uint64()>>uint(c.R.IntN(64)))
				case 1:
					wire.WriteVarBytes(&bytes.Buffer{}, c.Bytes(c.R.IntN(100)))
				case 2: // a failed read
					wire.ReadVarBytes(bytes.NewReader(vref.VarBytes(c.Bytes(30))[:20]), 2000, "kept")
				}
				if j%20 == 19 {
					for k := range in {
						c.Check(bytes.Equal(in[k], got[k]), "kept", "a byte string of %d read as %x is %x after %d more reads", ns[k], in[k], got[k], j-k)
						c.Count("kept byte strings compared", 1)
					}
				}
			}
			// the caller's own: changing one changes no other
			for k := range got {
				for m := range got[k] {
					got[k][m] ^= 0xff
				}
				for _, o := range []int{k - 1, k + 1} {
					if o < 0 || o >= len(got) {
						continue
					}
					want := bytes.Clone(in[o])
					if o < k {
						for m := range want {
							want[m] ^= 0xff
						}
					}
					c.Check(bytes.Equal(got[o], want), "kept", "byte strings %d and %d share memory", k, o)
				}
			}
		})
	}
	w.Case("intfail", func(c *C) {
		for _, v := range []uint64{0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xffff, 0x10000, 0x10001, 0xffffffff, 0x100000000, 1<<63 + 5, 1<<64 - 1} {
			want := vref.VarInt(v)
			for cut := 0; cut < len(want); cut++ {
				_, err := wire.ReadVarInt(bytes.NewReader(want[:cut]))
				c.Check(err != nil, "truncated", "%x is decoded", want[:cut])
				c.Count("truncations", 1)
				for _, with := range []bool{false, true} {
					_, err = wire.ReadVarInt(&failReader{bytes.Clone(want[:cut]), with})
					c.Check(planted(err), "error", "reader fails at byte %d of %x: %v", cut, want, err)
					c.Count("failing readers", 1)
				}
				fw := &failWriter{left: cut}
				err = wire.WriteVarInt(fw, v)
				c.Check(planted(err), "error", "writer fails at byte %d of %x: %v", cut, want, err)
				c.Count("failing writers", 1)
			}
			// after failures everything works as before
			c12int(c, v)
			for j := 0; j < 20; j++ {
				c12int(c, c.R.Uint64())
			}
		}
	})
	// readers and writers that use the package themselves
	for i := 0; i < w.Scale(60, 600); i++ {
		w.Case(fmt.Sprintf("reentrant/%d", i), func(c *C) {
			depth := 0
			var nested func()
			nested = func() {
				if depth > 3 {
					return
				}
				depth++
				v := c.R.Uint64() >> uint(c.R.IntN(64))
				c12int(c, v)
				var buf bytes.Buffer
				wire.WriteVarBytes(hookWriter{&buf, nested}, vref.VarInt(v))
				g, err := wire.ReadVarBytes(hookReader{&buf, nested}, 100, "nested")
				c.Check(err == nil && bytes.Equal(g, vref.VarInt(v)), "reentrant", "nested use gives %x, %v", g, err)
				c.Count("reentrant calls", 1)
				depth--
			}
			for j := 0; j < 3; j++ {
				v := c.R.Uint64() >> uint(c.R.IntN(64))
				var buf bytes.Buffer
				err := wire.WriteVarInt(hookWriter{&buf, nested}, v)
				c.Check(err == nil && bytes.Equal(buf.Bytes(), vref.VarInt(v)), "reentrant", "%d is written as %x through a writer that uses the package", v, buf.Bytes())
				g, err := wire.ReadVarInt(hookReader{&buf, nested})
				c.Check(err == nil && g == v, "reentrant", "%d is read as %d through a reader that uses the package", v, g)
			}
		})
	}
	for i := 0; i < w.Scale(4, 40); i++ {
		w.Case(fmt.Sprintf("concurrent/%d", i), func(c *C) {
			var wg sync.WaitGroup
			for g := 0; g < 16; g++ {
				seed := c.R.Uint64()
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := uint64(0); j < 400; j++ {
						v := (seed + j) * 0x9e3779b97f4a7c15 >> ((seed + j) % 64)
						pr, pw := io.Pipe()
						go func() { wire.WriteVarInt(pw, v); pw.Close() }()
						got, err := wire.ReadVarInt(pr)
						if err != nil || got != v {
							c.Violation("concurrent", "%d is read as %d (%v)", v, got, err)
						}
						pr.Close()
						c.Count("concurrent operations", 1)
					}
				}()
			}
			wg.Wait()
		})
	}
	w.Case("randomuint64", func(c *C) {
		seen := map[uint64]bool{}
		const n = 20000
		var ones [64]int
		for i := 0; i < n; i++ {
			v, err := wire.RandomUint64()
			c.Check(err == nil && !seen[v], "random", "RandomUint64: %d %v", v, err)
			seen[v] = true
			for b := range ones {
				ones[b] += int(v >> b & 1)
			}
		}
		for b, k := range ones { // 8 sigma
			c.Check(k > n/2-566 && k < n/2+566, "random", "bit %d of RandomUint64 is set %d times in %d", b, k, n)
		}
		c.Count("random integers", n)
		for k := 0; k < 8; k++ {
			crand.Reader = &failReader{b: make([]byte, k)}
			_, err := wire.RandomUint64()
			c.Check(err != nil, "random", "RandomUint64 with %d bytes of randomness gives no error", k)
		}
	})
}

type hookWriter struct {
	w io.Writer
	f func()
}

func (h hookWriter) Write(p []byte) (int, error) {
	if len(p) > 1 {
		h.w.Write(p[:1])
		h.f()
		n, err := h.w.Write(p[1:])
		return n + 1, err
	}
	h.f()
	n, err := h.w.Write(p)
	return n, err
}

type hookReader struct {
	r io.Reader
	f func()
}

func (h hookReader) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:(len(p)+1)/2]
	}
	n, err := h.r.Read(p)
	h.f()
	return n, err
}
