package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"time"
	"unsafe"

	"github.com/mit-dci/zksigma"

	"vref"
)

func init() {
	register(&Check{ID: "C11", Level: "exploration", Stall: 60 * time.Second, AS: 6 << 30,
		Rule:  "every byte string of up to two bytes, every prefix, bit flips, splices, hostile length prefixes and entry counts of valid proofs, every member (of nested proofs too) replaced with or preceded by a malformed one, random bytes, for every decoder; every decoded proof verified; hand-made proofs with any one or two members missing, points off the curve, numbers of thousands of bytes; transcripts forged with off-curve points of order 2 and 3. Watched: panics, answers, goroutines, bytes allocated against input length. Non-trivial: a distinct input decided",
		Run:   runC11,
		Floor: map[string]int64{"short inputs": 400000, "prefixes": 5000, "mutated inputs": 10000, "hostile lengths": 2000, "malformed members": 1500, "verified after decoding": 2000, "missing members": 400, "off-curve replacements": 800, "off-curve forgeries": 2000, "allocation measured": 10000}})
}

// hostile decodes in as kind and verifies what comes out; it returns whether it
// was decoded.
func hostile(c *C, e *Env, kind string, in []byte, s []vref.Pt, measure bool) (decoded bool) {
	defer func() {
		if r := recover(); r != nil {
			st := make([]byte, 4000)
			st = st[:runtime.Stack(st, false)]
			c.Violation("panic", "%s: decoding or verifying %x panics: %v\n%s", kind, clipb(in), r, st)
		}
	}()
	var a, b runtime.MemStats
	if measure {
		runtime.ReadMemStats(&a)
	}
	q, err := libParse(kind, bytes.Clone(in))
	if measure {
		runtime.ReadMemStats(&b)
		c.Count("allocation measured", 1)
		if d, lim := b.TotalAlloc-a.TotalAlloc, uint64(300000+600*len(in)); d > lim {
			c.Violation("memory", "%s: decoding %d bytes allocates %d: %x", kind, len(in), d, clipb(in))
		}
	}
	if err != nil {
		return false
	}
	if s != nil {
		c.Count("verified after decoding", 1)
		ok, err := libVerify(e.L, q, s)
		c.Check(ok == (err == nil), "answer", "%s: %x: Verify returned %v with error %v", kind, clipb(in), ok, err)
	}
	return true
}

func clipb(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

// settled waits for goroutines started by the library to end.
func settled(c *C, base int, what string) {
	for i := 0; ; i++ {
		n := runtime.NumGoroutine()
		if n <= base {
			return
		}
		if i > 2000 {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			if !strings.Contains(string(buf), "zksigma.") {
				return
			}
			c.Violation("goroutines", "%s: %d goroutines are left behind: %s", what, n-base, clip(string(buf), 3000))
			return
		}
		time.Sleep(time.Millisecond)
	}
}

// refs lists every *big.Int, point coordinate and pointer inside a proof, by
// reflection, with a function that clears it.
func refs(v reflect.Value, path string, out *[]struct {
	path  string
	clear func() func()
}) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.CanAddr() {
			p := reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
			*out = append(*out, struct {
				path  string
				clear func() func()
			}{path, func() func() {
				old := reflect.New(p.Type()).Elem()
				old.Set(p)
				p.Set(reflect.Zero(p.Type()))
				return func() { p.Set(old) }
			}})
		}
		if v.Type() == reflect.TypeOf((*big.Int)(nil)) {
			return
		}
		refs(v.Elem(), path, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			refs(v.Field(i), path+"."+v.Type().Field(i).Name, out)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			refs(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	}
}

// offCurve are ways to leave the curve.
var offCurve = []struct {
	name string
	f    func(c *C, e *Env, p vref.Pt) vref.Pt
}{
	{"y+1", func(c *C, e *Env, p vref.Pt) vref.Pt { return vref.Pt{X: cp(p.X), Y: new(big.Int).Add(p.Y, one())} }},
	{"x+1", func(c *C, e *Env, p vref.Pt) vref.Pt { return vref.Pt{X: new(big.Int).Add(p.X, one()), Y: cp(p.Y)} }},
	{"y=0", func(c *C, e *Env, p vref.Pt) vref.Pt {
		return vref.Pt{X: new(big.Int).Add(p.X, one()), Y: new(big.Int)}
	}},
	{"x=0", func(c *C, e *Env, p vref.Pt) vref.Pt {
		return vref.Pt{X: new(big.Int), Y: new(big.Int).Add(p.Y, one())}
	}},
	{"exchanged", func(c *C, e *Env, p vref.Pt) vref.Pt { return vref.Pt{X: cp(p.Y), Y: cp(p.X)} }},
	{"random", func(c *C, e *Env, p vref.Pt) vref.Pt {
		return vref.Pt{X: c.big(e.P.Grp.Field()), Y: c.big(e.P.Grp.Field())}
	}},
	{"(1,1)", func(c *C, e *Env, p vref.Pt) vref.Pt { return vref.Pt{X: one(), Y: one()} }},
	{"(0,1)", func(c *C, e *Env, p vref.Pt) vref.Pt { return vref.Pt{X: new(big.Int), Y: one()} }},
	{"(p,p)", func(c *C, e *Env, p vref.Pt) vref.Pt { return vref.Pt{X: cp(e.P.Grp.Field()), Y: cp(e.P.Grp.Field())} }},
	{"max", func(c *C, e *Env, p vref.Pt) vref.Pt {
		m := new(big.Int).Sub(new(big.Int).Lsh(one(), 256), one())
		return vref.Pt{X: m, Y: cp(m)}
	}},
}

// only for statements and hand-made proofs: not serializable
var offCurveBig = []struct {
	name string
	f    func(c *C, e *Env, p vref.Pt) vref.Pt
}{
	{"x+p", func(c *C, e *Env, p vref.Pt) vref.Pt {
		return vref.Pt{X: new(big.Int).Add(p.X, e.P.Grp.Field()), Y: cp(p.Y)}
	}},
	{"y+p", func(c *C, e *Env, p vref.Pt) vref.Pt {
		return vref.Pt{X: cp(p.X), Y: new(big.Int).Add(p.Y, e.P.Grp.Field())}
	}},
	{"y-p", func(c *C, e *Env, p vref.Pt) vref.Pt {
		return vref.Pt{X: cp(p.X), Y: new(big.Int).Sub(p.Y, e.P.Grp.Field())}
	}},
	{"x-p", func(c *C, e *Env, p vref.Pt) vref.Pt {
		return vref.Pt{X: new(big.Int).Sub(p.X, e.P.Grp.Field()), Y: cp(p.Y)}
	}},
	{"-y", func(c *C, e *Env, p vref.Pt) vref.Pt { return vref.Pt{X: cp(p.X), Y: new(big.Int).Neg(p.Y)} }},
	{"y+2^256", func(c *C, e *Env, p vref.Pt) vref.Pt {
		return vref.Pt{X: cp(p.X), Y: new(big.Int).Add(p.Y, new(big.Int).Lsh(one(), 256))}
	}},
	{"huge", func(c *C, e *Env, p vref.Pt) vref.Pt {
		return vref.Pt{X: new(big.Int).Lsh(one(), 5000), Y: new(big.Int).Lsh(one(), 4000)}
	}},
}

func offPt(e *Env, p vref.Pt) bool { return !p.IsID() && !e.P.Grp.OnCurve(p) }

func runC11(w *W) {
	base := runtime.NumGoroutine()
	stmt := func(c *C, e *Env) []vref.Pt {
		return []vref.Pt{c.NZPoint(e), c.NZPoint(e), c.NZPoint(e), c.NZPoint(e)}
	}
	// all short inputs
	for _, k := range allKinds {
		for a := 0; a < 256; a++ {
			w.Case(fmt.Sprintf("short/%s/%d", k, a), func(c *C) {
				if a == 0 {
					c.Check(!hostile(c, std(), k, nil, nil, true), "accepted", "%s: nothing is decoded as a proof", k)
				}
				c.Check(!hostile(c, std(), k, []byte{byte(a)}, nil, true), "accepted", "%s: one byte is decoded as a proof", k)
				for b := 0; b < 256; b++ {
					c.Check(!hostile(c, std(), k, []byte{byte(a), byte(b)}, nil, b%64 == 0), "accepted", "%s: two bytes are decoded as a proof", k)
				}
				c.Count("short inputs", 257)
			})
		}
	}
	valid := func(c *C, e *Env, k string) (RefProof, []vref.Pt) {
		in := newInst(c, e, k)
		if k == kRange && c.Flip() {
			r, sum, _ := e.P.ProveRange(big.NewInt(int64(c.R.IntN(8))), 3, func() *big.Int { return c.Uni(e.P.Grp.Order()) })
			_ = sum
			return r, []vref.Pt{r.Agg}
		}
		r := randRef(c, e, k, in)
		return r, in.VStmt()
	}
	for _, k := range allKinds {
		for i := 0; i < w.Scale(6, 100); i++ {
			w.Case(fmt.Sprintf("prefix/%s/%d", k, i), func(c *C) {
				e := c.Env()
				r, s := valid(c, e, k)
				b := r.Bytes()
				for cut := 0; cut < len(b); cut++ {
					c.Step(cut)
					if len(b) > 1000 && cut > 80 && cut < len(b)-80 && (cut+i)%7 != 0 {
						continue
					}
					c.Check(!hostile(c, e, k, b[:cut], s, cut%16 == 0), "truncated", "%s: the first %d of %d bytes are decoded as a proof", k, cut, len(b))
					c.Count("prefixes", 1)
				}
				c.Check(hostile(c, e, k, b, s, true), "refused", "%s: the whole proof is not decoded", k)
				c.Distinct(b)
				c.Sample("%s, %d bytes, all prefixes", k, len(b))
				settled(c, base, "prefixes")
			})
		}
		for i := 0; i < w.Scale(24, 600); i++ {
			w.Case(fmt.Sprintf("mutate/%s/%d", k, i), func(c *C) {
				e := c.Env()
				r, s := valid(c, e, k)
				o, _ := valid(c, e, k)
				b := r.Bytes()
				for j := 0; j < w.Scale(100, 200); j++ {
					c.Step(j)
					x := bytes.Clone(b)
					for m := 0; m <= c.R.IntN(3); m++ {
						switch c.R.IntN(9) {
						case 0, 1:
							x[c.R.IntN(len(x))] ^= 1 << uint(c.R.IntN(8))
						case 2:
							x[c.R.IntN(len(x))] = pick(c, []byte{0, 1, 0x20, 0x21, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff})
						case 3:
							p := c.R.IntN(len(x))
							x = append(x[:p:p], x[min(len(x), p+1+c.R.IntN(40)):]...)
						case 4:
							p := c.R.IntN(len(x))
							x = append(append(x[:p:p], c.Bytes(1+c.R.IntN(40))...), x[p:]...)
						case 5:
							ob := o.Bytes()
							x = append(x[:c.R.IntN(len(x))], ob[c.R.IntN(len(ob)):]...)
						case 6:
							p := c.R.IntN(len(x))
							x = append(x[:p:p], append([]byte{0xff}, c.Bytes(8)...)...)
						case 7:
							x = append(x, c.Bytes(c.R.IntN(50))...)
						case 8:
							p, q := c.R.IntN(len(x)), c.R.IntN(len(b))
							copy(x[p:], b[q:])
						}
						if len(x) == 0 {
							x = []byte{0}
						}
					}
					c.Count("mutated inputs", 1)
					c.Distinct(x)
					hostile(c, e, k, x, s, j%8 == 0)
				}
				settled(c, base, "mutated proofs")
			})
		}
		// hostile lengths at every length position
		w.Case("lengths/"+k, func(c *C) {
			r, s := valid(c, std(), k)
			b := r.Bytes()
			var forms [][]byte
			for _, v := range []uint64{0, 1, 2, 31, 33, 34, 64, 252, 253, 1023, 1024, 1025, 65535, 65536, 99999, 100000, 100001, 1 << 20, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1 << 62, 1 << 63, 1<<63 + 1, 1<<64 - 1} {
				forms = append(forms, vref.VarInt(v))
				f := make([]byte, 9)
				f[0] = 0xff
				binary.LittleEndian.PutUint64(f[1:], v)
				forms = append(forms, f)
			}
			pos := lengthPositions(k, b)
			for _, p := range pos {
				for _, f := range forms {
					x := append(append(bytes.Clone(b[:p]), f...), b[p+1:]...)
					c.Count("hostile lengths", 1)
					hostile(c, std(), k, x, s, true)
					x = append(append(bytes.Clone(b[:p]), f...), bytes.Repeat([]byte{0}, 3000)...)
					hostile(c, std(), k, x, s, true)
					c.Step(p)
				}
			}
			settled(c, base, "hostile lengths")
		})
		for i := 0; i < w.Scale(2, 40); i++ {
			w.Case(fmt.Sprintf("malformed/%s/%d", k, i), func(c *C) {
				e := c.Env()
				r, s := valid(c, e, k)
				b := r.Bytes()
				try := func(where string, x []byte) {
					c.Count("malformed members", 1)
					c.Distinct(x)
					c.Check(!hostile(c, e, k, x, s, false), "malformed", "%s: a proof with %s is decoded: %x", k, where, clipb(x))
				}
				malformed(k, b, try)
				if k == kABC || k == kIneq {
					p := lengthPositions(k, b)
					last := p[len(p)-1]
					d := &vref.Dec{B: b[last:]}
					malformed(kDisj, d.VarBytes(), func(where string, x []byte) {
						try("an either/or proof with "+where, append(bytes.Clone(b[:last]), vref.VarBytes(x)...))
					})
					for _, junk := range [][]byte{nil, {0}, c.Bytes(20)} {
						try("a broken either/or proof", append(bytes.Clone(b[:last]), vref.VarBytes(junk)...))
					}
				}
				c.Step(0)
				settled(c, base, "malformed members")
			})
		}
		for i := 0; i < w.Scale(8, 200); i++ {
			w.Case(fmt.Sprintf("random/%s/%d", k, i), func(c *C) {
				for j := 0; j < 300; j++ {
					x := c.Bytes(c.R.IntN(700))
					for p := range x { // plausible lengths
						if c.R.IntN(3) == 0 {
							x[p] = byte(c.R.IntN(34))
						}
					}
					c.Count("mutated inputs", 1)
					hostile(c, std(), k, x, stmt(c, std()), j%8 == 0)
				}
			})
		}
		// any number of range entries, tiny members
		if k == kRange {
			for _, n := range []int{41, 63, 64, 65, 66, 100, 256, 1000, 20000} {
				w.Case(fmt.Sprintf("entries/%d", n), func(c *C) {
					r := &vref.Range{Agg: vref.G, E: one()}
					for i := 0; i < n; i++ {
						r.Tup = append(r.Tup, vref.Tup{C: vref.G, S: big.NewInt(int64(i))})
					}
					for _, e := range envs()[:2] {
						q := hostile(c, e, k, r.Bytes(), []vref.Pt{vref.G}, true)
						c.Check(q, "refused", "%d entries are not decoded", n)
					}
					for i := range r.Tup {
						r.Tup[i] = vref.Tup{C: vref.ID(), S: new(big.Int)}
					}
					hostile(c, std(), k, r.Bytes(), []vref.Pt{vref.G}, true)
					// a parameter set with fewer powers of two
					e := *std()
					e.L.HPoints = e.L.HPoints[:40]
					hostile(c, &e, k, r.Bytes(), []vref.Pt{vref.G}, true)
					e.L.HPoints = nil
					hostile(c, &e, k, r.Bytes(), []vref.Pt{vref.G}, true)
					settled(c, base, "many entries")
				})
			}
		}
	}
	missing(w, base)
	offcurve(w, base)
	// the decoders of single values
	w.Case("values", func(c *C) {
		for j := 0; j < 60000; j++ {
			x := c.Bytes(c.R.IntN(80))
			if len(x) > 0 && c.Flip() {
				x[0] = pick(c, []byte{0, 1, 31, 32, 33, 0xfd, 0xfe, 0xff})
			}
			rd := bytes.NewReader(x)
			if c.Flip() {
				zksigma.ReadBigInt(rd)
			} else {
				zksigma.ReadECPoint(rd)
			}
			c.Count("mutated inputs", 1)
		}
		for _, f := range [][]byte{{}, {0}, {1}, {0xfd}, {0xfe, 0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}} {
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			_, e1 := zksigma.ReadBigInt(bytes.NewReader(f))
			_, e2 := zksigma.ReadECPoint(bytes.NewReader(f))
			runtime.ReadMemStats(&b)
			c.Check(e1 != nil && e2 != nil, "accepted", "%x is read as a value", f)
			c.Check(b.TotalAlloc-a.TotalAlloc < 200000, "memory", "%x: %d bytes allocated", f, b.TotalAlloc-a.TotalAlloc)
		}
	})
}

// lengthPositions finds the offsets of length prefixes in a serialized proof.
func lengthPositions(kind string, b []byte) (l []int) {
	d := &vref.Dec{B: b}
	at := func() { l = append(l, len(b)-len(d.B)) }
	item := func() { at(); d.VarBytes() }
	n := map[string]int{kGSPFS: 6, kEquiv: 6, kCons: 7, kDisj: 9}[kind]
	switch kind {
	case kABC, kIneq:
		n = 15
	case kRange:
		n = 3
	}
	for i := 0; i < n; i++ {
		item()
	}
	if kind == kRange {
		at()
		d.VarInt()
		for i := 0; i < 4 && len(d.B) > 0; i++ {
			item()
		}
	}
	return
}

// malformed makes proofs with one member replaced with, or preceded by, a
// malformed one: the members behind it stay readable.
func malformed(kind string, b []byte, try func(where string, x []byte)) {
	pos := lengthPositions(kind, b)
	var ints map[int]bool
	switch kind {
	case kGSPFS, kEquiv:
		ints = map[int]bool{4: true, 5: true}
	case kCons:
		ints = map[int]bool{4: true, 5: true, 6: true}
	case kDisj:
		ints = map[int]bool{4: true, 5: true, 6: true, 7: true, 8: true}
	case kABC, kIneq:
		ints = map[int]bool{8: true, 9: true, 10: true, 11: true}
	case kRange:
		ints = map[int]bool{2: true, 6: true}
	}
	end := func(i int) int {
		if kind == kRange && i == 3 {
			d := &vref.Dec{B: b[pos[i]:]}
			d.VarInt()
			return len(b) - len(d.B)
		}
		d := &vref.Dec{B: b[pos[i]:]}
		d.VarBytes()
		return len(b) - len(d.B)
	}
	for i, p := range pos {
		bad := map[string][]byte{
			"a length not in its shortest form":      {0xfd, 0x05, 0x00},
			"a zero length not in its shortest form": {0xfd, 0x00, 0x00},
			"a long length not in its shortest form": {0xff, 0x20, 0, 0, 0, 0, 0, 0, 0},
			"a length of 2^20":                       {0xfe, 0, 0, 0x10, 0},
			"a length of 2^32 and a bit":             {0xff, 0x20, 0, 0, 0, 1, 0, 0, 0},
			"a length of 2^63":                       {0xff, 0, 0, 0, 0, 0, 0, 0, 0x80},
		}
		if ints[i] {
			bad["no sign byte"] = []byte{0}
			bad["an integer of 1025 bytes"] = append([]byte{0xfd, 0x01, 0x04}, make([]byte, 1025)...)
		} else if kind == kRange && i == 3 {
		} else if (kind == kABC || kind == kIneq) && i == len(pos)-1 {
		} else {
			d := &vref.Dec{B: b[p:]}
			v := d.VarBytes()
			bad["a coordinate of 33 bytes"] = append([]byte{33}, new(big.Int).Add(new(big.Int).SetBytes(v), two(256)).FillBytes(make([]byte, 33))...)
			bad["a coordinate of 33 bytes, the first zero"] = append(append([]byte{33}, make([]byte, 33-len(v))...), v...)
			bad["a coordinate of 64 bytes"] = append(append([]byte{64}, make([]byte, 64-len(v))...), v...)
		}
		for name, t := range bad {
			try(fmt.Sprintf("%s in place of item %d", name, i), append(append(bytes.Clone(b[:p]), t...), b[end(i):]...))
			if kind == kRange && i == 3 {
				continue
			}
			// a whole point
			if i+1 < len(pos) {
				try(fmt.Sprintf("%s in place of items %d and %d", name, i, i+1), append(append(bytes.Clone(b[:p]), t...), b[end(i+1):]...))
			}
			try(fmt.Sprintf("%s before item %d", name, i), append(append(bytes.Clone(b[:p]), t...), b[p:]...))
		}
	}
}

// missing: proofs with members cleared.
func missing(w *W, base int) {
	for _, k := range allKinds {
		rounds := w.Scale(3, 30)
		if k == kRange {
			rounds = w.Scale(10, 64)
		}
		for i := 0; i < rounds; i++ {
			w.Case(fmt.Sprintf("missing/%s/%d", k, i), func(c *C) {
				e := std()
				if i%2 == 1 {
					e = pick(c, envs())
				}
				var r RefProof
				var s []vref.Pt
				in := newInst(c, e, k)
				r = randRef(c, e, k, in)
				s = in.VStmt()
				if k == kRange && i > 1 { // of any number of entries
					n := 1 + (i*23+18)%64
					v := c.big(two(uint(n)))
					rp, sum, _ := e.P.ProveRange(v, n, func() *big.Int { return c.Uni(e.P.Grp.Order()) })
					r, s = rp, []vref.Pt{e.P.Commit(v, sum)}
					c.Count("missing members, other lengths", 1)
				}
				q, err := toLib(k, r)
				if err != nil {
					return
				}
				var l []struct {
					path  string
					clear func() func()
				}
				refs(reflect.ValueOf(q).Elem(), k, &l)
				try := func(name string) {
					c.Count("missing members", 1)
					c.Distinct(name)
					defer func() {
						if r := recover(); r != nil {
							st := make([]byte, 4000)
							st = st[:runtime.Stack(st, false)]
							c.Violation("panic", "verification without %s panics: %v\n%s", name, r, st)
						}
					}()
					ok, err := libVerify(e.L, q, s)
					c.Check(!ok && err != nil, "accepted", "verification without %s: %v, %v", name, ok, err)
				}
				for a, x := range l {
					if len(l) > 40 && a > 8 && a < len(l)-6 && (a+i)%6 != 0 {
						continue
					}
					undo := x.clear()
					try(x.path)
					for b := a + 1; b < len(l) && len(l) < 40; b++ {
						undo2 := l[b].clear()
						try(x.path + " and " + l[b].path)
						undo2()
					}
					undo()
				}
				ok, err := libVerify(e.L, q, s)
				c.Check(ok, "restored", "%s: the proof with all members back in place is refused: %v", k, err)
				settled(c, base, "missing members")
			})
		}
	}
	w.Case("missing/zero values", func(c *C) {
		for _, e := range envs() {
			for _, q := range []interface{}{
				(*zksigma.GSPFSProof)(nil), &zksigma.GSPFSProof{}, (*zksigma.EquivalenceProof)(nil), &zksigma.EquivalenceProof{},
				(*zksigma.ConsistencyProof)(nil), &zksigma.ConsistencyProof{}, (*zksigma.DisjunctiveProof)(nil), &zksigma.DisjunctiveProof{},
				(*zksigma.ABCProof)(nil), &zksigma.ABCProof{}, (*zksigma.InequalityProof)(nil), &zksigma.InequalityProof{},
				(*zksigma.RangeProof)(nil), &zksigma.RangeProof{},
			} {
				func() {
					defer func() {
						if r := recover(); r != nil {
							c.Violation("panic", "verification of %T %v panics: %v", q, q, r)
						}
					}()
					c.Count("missing members", 1)
					s := []vref.Pt{e.P.G, e.P.H, e.P.G, e.P.H}
					ok, err := libVerify(e.L, q, s)
					c.Check(!ok && err != nil, "accepted", "%T %v is accepted", q, q)
				}()
			}
		}
	})
	// huge and negative numbers in every place
	for _, k := range allKinds {
		w.Case("huge/"+k, func(c *C) {
			for _, e := range envs() {
				in := newInst(c, e, k)
				r := randRef(c, e, k, in)
				s := in.VStmt()
				ms := members(r)
				for a := range ms {
					if a > 20 {
						break
					}
					if ms[a].Int == nil {
						continue
					}
					for _, v := range []*big.Int{new(big.Int).Lsh(one(), 8000), new(big.Int).Neg(new(big.Int).Lsh(one(), 8000)), big.NewInt(-1), new(big.Int).Sub(*ms[a].Int, e.P.Grp.Order()), new(big.Int).Neg(*ms[a].Int)} {
						x := clone(k, r)
						*members(x)[a].Int = v
						c.Count("mutated inputs", 1)
						hostile(c, e, k, x.Bytes(), s, false)
					}
				}
			}
			settled(c, base, "huge numbers")
		})
	}
}

// offcurve: points that are not on the curve.
func offcurve(w *W, base int) {
	for _, k := range allKinds {
		for i := 0; i < w.Scale(4, 60); i++ {
			w.Case(fmt.Sprintf("offcurve/%s/%d", k, i), func(c *C) {
				e := std()
				if i%2 == 1 {
					e = pick(c, envs())
				}
				in := newInst(c, e, k)
				r := randRef(c, e, k, in)
				s := in.VStmt()
				try := func(name string, p RefProof, s []vref.Pt, bad vref.Pt) {
					if !offPt(e, bad) {
						return
					}
					c.Count("off-curve replacements", 1)
					c.Distinct(k, p.Bytes(), fmt.Sprint(s))
					defer func() {
						if r := recover(); r != nil {
							st := make([]byte, 4000)
							st = st[:runtime.Stack(st, false)]
							c.Violation("panic", "%s (%s): %s: verification panics: %v\n%s", k, e.Name, name, r, st)
						}
					}()
					q, err := toLib(k, p)
					if err != nil {
						return
					}
					ok, err := libVerify(e.L, q, s)
					c.Check(!ok && err != nil, "off curve", "%s (%s): %s (%x): %v, %v", k, e.Name, name, bad, ok, err)
				}
				ms := members(r)
				for a := range ms {
					if ms[a].Pt == nil || a > 20 && (a+i)%12 != 0 {
						continue
					}
					l := offCurve
					if k == kGSPFS || k == kEquiv || k == kCons || k == kDisj {
						l = append(append(l[:0:0], l...), offCurveBig...)
					}
					for _, m := range l {
						x := clone(k, r)
						y := members(x)[a].Pt
						*y = m.f(c, e, *y)
						bad := *y
						if bad.X.BitLen() > 256 || bad.Y.BitLen() > 256 {
							if _, ok := x.(*vref.ABC); ok {
								continue
							}
						}
						try(ms[a].Name+" "+m.name, x, s, bad)
					}
				}
				for a := range s {
					for _, m := range append(append(offCurve[:0:0], offCurve...), offCurveBig...) {
						t := append([]vref.Pt{}, s...)
						t[a] = m.f(c, e, t[a])
						try(fmt.Sprintf("statement point %d %s", a, m.name), r, t, t[a])
					}
				}
				settled(c, base, "points off the curve")
			})
		}
	}
	// forgeries: an off-curve point of order 2 or 3 vanishes for every second or
	// third challenge
	for i := 0; i < w.Scale(24, 300); i++ {
		w.Case(fmt.Sprintf("smallorder/%d", i), func(c *C) {
			e := std()
			p, g, n := e.P, e.P.Grp, e.P.Grp.Order()
			u := func() *big.Int { return c.Uni(n) }
			// order 3: (0, y) on y^2 = x^3 + y^2; order 2: (x, 0)
			w3 := vref.Pt{X: new(big.Int), Y: c.big(vref.P)}
			if i%2 == 1 {
				w3 = vref.Pt{X: c.big(vref.P), Y: new(big.Int)}
			}
			if !offPt(e, w3) {
				return
			}
			forged := func(kind, name string, pr RefProof, s ...vref.Pt) {
				c.Count("off-curve forgeries", 1)
				defer func() {
					if r := recover(); r != nil {
						c.Violation("panic", "%s: %s: verification panics: %v", kind, name, r)
					}
				}()
				q, err := toLib(kind, pr)
				if err != nil {
					return
				}
				if ok, _ := libVerify(e.L, q, s); ok {
					c.Violation("off curve", "%s: forged with a point off the curve: %s: %x, statement %x", kind, name, pr.Bytes(), s)
				}
			}
			z := new(big.Int)
			for j := 0; j < 12; j++ {
				s := u()
				t := g.Mul(p.G, s)
				forged(kGSPFS, "A of small order", &vref.GSPFS{Base: p.G, T: t, S: s, C: p.Chal(p.G, w3, t)}, w3)
				x := u()
				a := g.Mul(p.G, x)
				// base of small order
				for sm := int64(0); sm < 3; sm++ {
					for _, tt := range []vref.Pt{w3, vref.ID(), {X: w3.X, Y: new(big.Int).Mod(new(big.Int).Neg(w3.Y), vref.P)}} {
						forged(kGSPFS, "everything of small order", &vref.GSPFS{Base: w3, T: tt, S: big.NewInt(sm), C: p.Chal(w3, w3, tt)}, w3)
						if j == 0 {
							for _, aa := range []vref.Pt{vref.ID(), {X: w3.X, Y: new(big.Int).Mod(new(big.Int).Neg(w3.Y), vref.P)}} {
								forged(kGSPFS, "everything of small order", &vref.GSPFS{Base: w3, T: tt, S: big.NewInt(sm), C: p.Chal(w3, aa, tt)}, aa)
							}
						}
					}
				}
				// equivalence: second relation of small order
				k := u()
				t1 := g.Mul(p.G, k)
				for _, tt := range []vref.Pt{vref.ID(), w3} {
					ch := p.Chal(p.G, a, w3, w3, t1, tt)
					forged(kEquiv, "second relation of small order", &vref.Equiv{UG: t1, UH: tt, C: ch, S: p.MulAdd(k, ch, x)}, p.G, a, w3, w3)
					ch = p.Chal(p.G, a, w3, vref.ID(), t1, tt)
					forged(kEquiv, "second base of small order", &vref.Equiv{UG: t1, UH: tt, C: ch, S: p.MulAdd(k, ch, x)}, p.G, a, w3, vref.ID())
					ch = p.Chal(w3, w3, p.G, a, tt, t1)
					forged(kEquiv, "first relation of small order", &vref.Equiv{UG: tt, UH: t1, C: ch, S: p.MulAdd(k, ch, x)}, w3, w3, p.G, a)
				}
				t2 := g.Mul(p.H, k)
				ch := p.Chal(p.G, a, p.H, w3, t1, t2)
				forged(kEquiv, "second result of small order", &vref.Equiv{UG: t1, UH: t2, C: ch, S: k}, p.G, a, p.H, w3)
				ch = p.Chal(p.G, w3, p.H, w3, t1, t2)
				forged(kEquiv, "both results of small order", &vref.Equiv{UG: t1, UH: t2, C: ch, S: k}, p.G, w3, p.H, w3)
				ch = p.Chal(p.G, w3, p.H, vref.ID(), t1, t2)
				forged(kEquiv, "first result of small order", &vref.Equiv{UG: t1, UH: t2, C: ch, S: k}, p.G, w3, p.H, vref.ID())
				// consistency
				k2, v, r := u(), u(), u()
				pk := g.Mul(p.H, u())
				cm := p.Commit(v, r)
				c1 := p.Commit(k, k2)
				for _, tt := range []vref.Pt{vref.ID(), w3} {
					for _, tok := range []vref.Pt{vref.ID(), w3} {
						ch = p.Chal(p.G, p.H, cm, tok, w3, c1, tt)
						forged(kCons, "key of small order", &vref.Cons{T1: c1, T2: tt, C: ch, S1: p.MulAdd(k, ch, v), S2: p.MulAdd(k2, ch, r)}, cm, tok, w3)
					}
				}
				ch = p.Chal(p.G, p.H, w3, vref.ID(), pk, c1, g.Mul(pk, k2))
				forged(kCons, "commitment of small order", &vref.Cons{T1: c1, T2: g.Mul(pk, k2), C: ch, S1: k, S2: k2}, w3, vref.ID(), pk)
				ch = p.Chal(p.G, p.H, p.Commit(v, z), w3, pk, c1, g.Mul(pk, k2))
				forged(kCons, "token of small order", &vref.Cons{T1: c1, T2: g.Mul(pk, k2), C: ch, S1: p.MulAdd(k, ch, v), S2: k2}, p.Commit(v, z), w3, pk)
				// disjunctive, without a witness: the other side's result vanishes
				for side := 0; side < 2; side++ {
					s1, kk := u(), u()
					b := g.Mul(p.H, x)
					dj := func(b1, r1, b2, r2, q1, q2 vref.Pt, f func(ch *big.Int) *vref.Disj) {
						ch := p.Chal(b1, r1, b2, r2, q1, q2)
						d := f(ch)
						d.T1, d.T2, d.C = q1, q2, ch
						forged(kDisj, "off-curve point on one side", d, b1, r1, b2, r2)
					}
					q1, q2 := g.Mul(p.G, s1), g.Mul(p.H, kk)
					// result off the curve, partial challenge 0
					dj(p.G, w3, p.H, b, q1, q2, func(ch *big.Int) *vref.Disj {
						return &vref.Disj{C1: z, C2: ch, S1: s1, S2: p.MulAdd(kk, ch, x)}
					})
					dj(p.G, a, p.H, w3, g.Mul(p.G, kk), g.Mul(p.H, s1), func(ch *big.Int) *vref.Disj {
						return &vref.Disj{C1: ch, C2: z, S1: p.MulAdd(kk, ch, x), S2: s1}
					})
					// base off the curve, response 0
					c1 := u()
					dj(w3, a, p.H, b, g.Neg(g.Mul(a, c1)), q2, func(ch *big.Int) *vref.Disj {
						ck := p.Mod(new(big.Int).Sub(ch, c1))
						return &vref.Disj{C1: c1, C2: ck, S1: z, S2: p.MulAdd(kk, ck, x)}
					})
					dj(p.G, a, w3, b, g.Mul(p.G, kk), g.Neg(g.Mul(b, c1)), func(ch *big.Int) *vref.Disj {
						ck := p.Mod(new(big.Int).Sub(ch, c1))
						return &vref.Disj{C1: ck, C2: c1, S1: p.MulAdd(kk, ck, x), S2: z}
					})
					// result of small order with an arbitrary challenge: true knowledge of neither
					dj(p.G, w3, p.H, w3, q1, q2, func(ch *big.Int) *vref.Disj {
						return &vref.Disj{C1: z, C2: ch, S1: s1, S2: kk}
					})
				}
				// abc: the token that nothing checks
				sk := u()
				nn := &vref.ABCNonces{U1: u(), U2: u(), U3: u(), Ub: u(), Uc: u(), D1: u(), D2: u(), D3: u()}
				ab := p.ProveABC(p.Commit(v, r), g.Mul(p.H, p.MulAdd(z, sk, r)), v, sk, true, nn)
				ab.CTok = w3
				forged(kABC, "CToken off the curve", ab, p.Commit(v, r), g.Mul(p.H, p.MulAdd(z, sk, r)))
				forged(kIneq, "CToken off the curve", ab, p.Commit(v, r), g.Mul(p.H, p.MulAdd(z, sk, r)))
				c.Step(j * 16)
			}
			_ = base
		})
	}
}
