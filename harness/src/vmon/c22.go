package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand/v2"
	"reflect"
	"runtime"
	"sync"
	"testing/iotest"
	"time"

	"github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"

	"vref"
)

func init() {
	register(&Check{ID: "C22", Level: "fault_enumeration",
		Rule:  "every position (read, byte) at which the randomness source can fail during every prover, commitment, key generation, encryption and random integer, in six ways (nothing, part of the bytes, end of file; once or for good); short reads of all sizes; many provers at a time with a few failures; readers and writers failing, once or for good, at every byte of every encoding. The monitor notes whether the failure was delivered: then the call must return an error and nothing usable; the next call with a working source must succeed and verify. Non-trivial: a distinct operation, fault position and way",
		Run:   runC22,
		Stall: 90 * time.Second,
		Floor: map[string]int64{"faults delivered": 12000, "calls failed as expected": 12000, "later calls that worked": 400, "range faults delivered": 500, "short-read calls": 300, "concurrent calls": 400, "concurrent faults delivered": 20, "reader faults": 3000, "writer faults": 1500}})
}

// faultSrc is a good source that fails at one place.
type faultSrc struct {
	mu    sync.Mutex
	src   *rand.ChaCha8
	reads int
	bytes int
	atRd  int // fail at this read, or
	atBy  int // when this many bytes have been delivered
	once  bool
	err   error
	fill  bool // on failure the whole buffer is overwritten all the same
	hard  bool // failing for good now
	maybe bool // reads of one byte are the standard library's, which ignores their outcome on purpose
	fired int
}

func (f *faultSrc) Read(b []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	if f.maybe && len(b) == 1 {
		return f.src.Read(b)
	}
	n := len(b)
	bad := f.hard
	if bad {
		n = 0
	} else if f.atRd >= 0 {
		if f.reads == f.atRd {
			bad, n = true, 0
		}
	} else if f.atBy >= 0 && f.bytes+n > f.atBy && (f.fired == 0 || !f.once) {
		bad, n = true, f.atBy-f.bytes
	}
	f.reads++
	if !bad {
		f.bytes += n
		return f.src.Read(b)
	}
	f.fired++
	f.hard = !f.once
	f.src.Read(b[:n])
	f.bytes += n
	if f.fill {
		for i := n; i < len(b); i++ {
			b[i] = 0x5a
		}
	}
	return n, f.err
}

type way struct {
	name string
	once bool
	err  error
	fill bool
}

var ways = []way{
	{"an error for good", false, errPlanted, false},
	{"an error once", true, errPlanted, false},
	{"end of file for good", false, io.EOF, false},
	{"end of file once", true, io.EOF, false},
	{"unexpected end of file once", true, io.ErrUnexpectedEOF, false},
	{"an error once, the buffer overwritten", true, errPlanted, true},
}

func (w way) src(seed [32]byte, rd, by int) *faultSrc {
	return &faultSrc{src: rand.NewChaCha8(seed), atRd: rd, atBy: by, once: w.once, err: w.err, fill: w.fill}
}

// randOp is an operation that draws randomness. do returns the error and whether
// what it returned can be used; check tells what is wrong with a successful
// result.
type randOp struct {
	name  string
	maybe bool // goes through crypto/ecdsa's key generation
	do    func() (err error, usable string, check func() string)
}

func isNil(v interface{}) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	return r.Kind() == reflect.Ptr && r.IsNil()
}

func proveOp(c *C, in0 *Inst) randOp {
	return randOp{in0.Kind, false, func() (error, string, func() string) {
		in := *in0
		in.Wit = append([]*big.Int{}, in0.Wit...)
		q, blind, err := in.proveRaw()
		if err != nil {
			if isNil(q) {
				if blind != nil {
					return err, fmt.Sprintf("a blinding factor %v", blind), nil
				}
				return err, "", nil
			}
			s := in.VStmt()
			if in.Kind == kRange {
				if blind == nil {
					blind = new(big.Int)
				}
				s = []vref.Pt{in.E.P.Commit(in.Wit[0], blind)}
			}
			if ok, _ := libVerify(in.E.L, q, s); ok {
				return err, "a proof that verifies", nil
			}
			return err, "", nil
		}
		return nil, "", func() string {
			if isNil(q) {
				return "no proof"
			}
			if in.Kind == kRange {
				if blind == nil {
					return "no blinding factor"
				}
				in.Wit = []*big.Int{in.Wit[0], blind}
				in.Stmt = []vref.Pt{in.E.P.Commit(in.Wit[0], blind)}
			}
			r, err := refParse(in.Kind, libBytes(q))
			if err != nil {
				return "encoding: " + err.Error()
			}
			if !refVerify(in.E.P, r, in.VStmt()) {
				return "the proof does not verify"
			}
			return weak(&in, r)
		}
	}}
}

// thin are multiples of H by numbers with a single byte set: what a draw looks
// like of which only one byte arrived.
var thinOnce sync.Once
var thin map[string]string

func thinSet() map[string]string {
	thinOnce.Do(func() {
		thin = map[string]string{"": "zero"}
		for sh := uint(0); sh < 32; sh++ {
			step := vref.MulH(new(big.Int).Lsh(one(), 8*sh))
			q := vref.ID()
			for v := 1; v < 256; v++ {
				q = vref.Secp{}.Add(q, step)
				thin[string(q.X.Bytes())] = fmt.Sprintf("%d<<%d", v, 8*sh)
			}
		}
	})
	return thin
}

// weak looks for random values behind a proof that are predictable.
func weak(in *Inst, r RefProof) string {
	n := in.E.P.Grp.Order()
	for _, x := range nonces(in, r) {
		if x.K != nil {
			if x.K.BitLen() < n.BitLen()-64 {
				return fmt.Sprintf("random value %s is only %x", x.Name, x.K)
			}
			if k := x.K.TrailingZeroBits(); k > 64 {
				return fmt.Sprintf("random value %s ends in %d zero bits", x.Name, k)
			}
		}
		if in.E.Std {
			if s, ok := thinSet()[string(x.HP.X.Bytes())]; ok {
				return fmt.Sprintf("random value %s is %s", x.Name, s)
			}
		}
	}
	return ""
}

func weakBytes(b []byte) string {
	z, f := 0, 0
	for _, x := range b {
		if x == 0 {
			z++
		}
		if x == 0x5a {
			f++
		}
	}
	if z > len(b)/2 || f > len(b)/2 {
		return fmt.Sprintf("random bytes are %x", b)
	}
	return ""
}

func otherRandOps(c *C, e *Env) (ops []randOp) {
	n := e.P.Grp.Order()
	v := c.Int(n)
	ops = append(ops, randOp{"PedCommit", false, func() (error, string, func() string) {
		cm, r, err := zksigma.PedCommit(e.L, cp(v))
		if err != nil {
			if r != nil && cm.X != nil && cm.Y != nil && e.P.Commit(v, r).Eq(rp(cm)) {
				return err, "a commitment with its opening", nil
			}
			return err, "", nil
		}
		return nil, "", func() string {
			if r == nil || cm.X == nil || cm.Y == nil {
				return "no commitment"
			}
			if !e.P.Commit(v, r).Eq(rp(cm)) {
				return "the commitment does not open"
			}
			if n.BitLen() == 256 {
				return weakBytes(r.FillBytes(make([]byte, 32)))
			}
			return ""
		}
	}})
	ops = append(ops, randOp{"RandomUint64", false, func() (error, string, func() string) {
		v, err := wire.RandomUint64()
		return err, "", func() string {
			b := make([]byte, 8)
			binary.BigEndian.PutUint64(b, v)
			return weakBytes(b)
		}
	}})
	ops = append(ops, randOp{"NewPrivateKey", true, func() (error, string, func() string) {
		k, err := btcec.NewPrivateKey(btcec.S256())
		if err != nil {
			if k != nil && k.D != nil && k.D.Sign() != 0 {
				return err, fmt.Sprintf("the key %x", k.D), nil
			}
			return err, "", nil
		}
		return nil, "", func() string {
			if k == nil || k.D == nil || k.X == nil {
				return "no key"
			}
			if !vref.MulG(k.D).Eq(vref.Pt{X: k.X, Y: k.Y}) {
				return "the public key does not belong to the private one"
			}
			return weakBytes(k.D.FillBytes(make([]byte, 32)))
		}
	}})
	key, d := privKeyOf(c)
	msg := c.Bytes(c.R.IntN(40))
	ops = append(ops, randOp{"Encrypt", true, func() (error, string, func() string) {
		ct, err := btcec.Encrypt(key.PubKey(), msg)
		if err != nil {
			if len(ct) != 0 {
				return err, fmt.Sprintf("the ciphertext %x", ct), nil
			}
			return err, "", nil
		}
		return nil, "", func() string {
			pt, err := refOpen(d, ct)
			if err != nil {
				return "the ciphertext does not open: " + err.Error()
			}
			if !bytes.Equal(pt, msg) {
				return "the ciphertext opens to something else"
			}
			return weakBytes(ct[:16])
		}
	}})
	return
}

func privKeyOf(c *C) (*btcec.PrivateKey, *big.Int) {
	d := c.NonZero(vref.N)
	k, _ := btcec.PrivKeyFromBytes(btcec.S256(), d.FillBytes(make([]byte, 32)))
	return k, d
}

// attempt runs an operation with the given source, a fault in it or not.
func attempt(c *C, o randOp, src *faultSrc, what string) {
	src.maybe = o.maybe
	crand.Reader = src
	err, usable, check := o.do()
	src.mu.Lock()
	fired := src.fired
	src.mu.Unlock()
	if fired > 0 {
		c.Count("faults delivered", 1)
		if o.name == kRange {
			c.Count("range faults delivered", 1)
		}
		if err == nil {
			c.Violation("ignored", "%s: the randomness source failed (%s), the call succeeded", o.name, what)
			return
		}
		c.Check(usable == "", "usable", "%s: the randomness source failed (%s), the call returned %s", o.name, what, usable)
		c.Count("calls failed as expected", 1)
		c.Distinct(o.name, what)
		return
	}
	if !c.Check(err == nil, "failed", "%s fails with a working randomness source (%s): %v", o.name, what, err) {
		return
	}
	if s := check(); s != "" {
		c.Violation("result", "%s with a working randomness source (%s): %s", o.name, what, s)
	}
}

// sweep enumerates the fault positions of an operation.
func sweep(c *C, o randOp, stepRead, stepByte int) {
	base := runtime.NumGoroutine()
	var seed [32]byte
	c.src.Read(seed[:])
	good := &faultSrc{src: rand.NewChaCha8(seed), atRd: -1, atBy: -1}
	attempt(c, o, good, "no fault")
	if good.reads == 0 {
		c.Count(o.name+" draws nothing from the replaceable source", 1)
		return
	}
	later := func() {
		c.src.Read(seed[:])
		crand.Reader = &faultSrc{src: rand.NewChaCha8(seed), atRd: -1, atBy: -1}
		err, _, check := o.do()
		if c.Check(err == nil, "later", "%s fails after an earlier call met a failure: %v", o.name, err) {
			if s := check(); s != "" {
				c.Violation("later", "%s after an earlier call met a failure: %s", o.name, s)
			}
			c.Count("later calls that worked", 1)
		}
	}
	k := 0
	for rd := c.R.IntN(stepRead); rd < good.reads; rd += stepRead {
		for _, w := range ways {
			attempt(c, o, w.src(seed, rd, -1), fmt.Sprintf("read %d of %d: %s", rd, good.reads, w.name))
			c.Step(k)
			k++
		}
		if c.R.IntN(4) == 0 {
			later()
		}
	}
	for by := c.R.IntN(stepByte); by < good.bytes; by += stepByte {
		for _, w := range ways {
			attempt(c, o, w.src(seed, -1, by), fmt.Sprintf("after %d of %d bytes: %s", by, good.bytes, w.name))
			c.Step(k)
			k++
		}
		if c.R.IntN(8) == 0 {
			later()
		}
	}
	later()
	settled(c, base, o.name+" with failing randomness")
}

// portions delivers at most n bytes at a time.
type portions struct {
	mu  sync.Mutex
	src *rand.ChaCha8
	n   func() int
}

func (p *portions) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if n := p.n(); n < len(b) {
		b = b[:n]
	}
	return p.src.Read(b)
}

func shortReads(c *C, o randOp) {
	for _, size := range []int{1, 2, 3, 7, 8, 15, 16, 17, 31, 0} {
		var seed [32]byte
		c.src.Read(seed[:])
		r := rand.New(rand.NewPCG(c.R.Uint64(), 1))
		zero := false
		crand.Reader = &portions{src: rand.NewChaCha8(seed), n: func() int {
			if size > 0 {
				return size
			}
			// nothing at all now and then, as readers may
			if zero = !zero; zero && r.IntN(8) == 0 {
				return 0
			}
			return 1 + r.IntN(40)
		}}
		err, _, check := o.do()
		c.Count("short-read calls", 1)
		c.Distinct(o.name, "portions", size)
		if !c.Check(err == nil, "short", "%s fails when the source delivers %d bytes at a time: %v", o.name, size, err) {
			continue
		}
		if s := check(); s != "" {
			c.Violation("short", "%s when the source delivers %d bytes at a time: %s", o.name, size, s)
		}
	}
}

// burst runs many operations at a time over a source that fails a few times.
type burstSrc struct {
	mu    sync.Mutex
	src   *rand.ChaCha8
	rng   *rand.Rand
	every int
	fired int
}

var errBurst = errors.New("planted randomness failure")

func (s *burstSrc) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.rng.IntN(s.every) == 0 {
		s.fired++
		n := s.rng.IntN(len(b) + 1)
		if n == len(b) {
			n = 0
		}
		s.src.Read(b[:n])
		return n, errBurst
	}
	return s.src.Read(b)
}

func burst(c *C, ops []randOp, each, every int) {
	base := runtime.NumGoroutine()
	var seed [32]byte
	c.src.Read(seed[:])
	src := &burstSrc{src: rand.NewChaCha8(seed), rng: rand.New(rand.NewPCG(c.R.Uint64(), 2)), every: every}
	crand.Reader = src
	var mu sync.Mutex
	var wg sync.WaitGroup
	failed, done := 0, 0
	start := make(chan struct{})
	for _, o := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					c.Violation("panic", "%s at the same time as others: %v", o.name, r)
				}
			}()
			<-start
			for i := 0; i < each; i++ {
				err, usable, check := o.do()
				s := ""
				if err == nil {
					s = check()
				}
				mu.Lock()
				done++
				if err != nil {
					failed++
				}
				mu.Unlock()
				c.Check(usable == "", "usable", "%s at the same time as others failed and returned %s", o.name, usable)
				c.Check(s == "", "result", "%s at the same time as others that fail: %s", o.name, s)
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Count("concurrent calls", done)
	c.Count("concurrent faults delivered", src.fired)
	c.Distinct("burst", src.fired, failed)
	c.Check(failed <= src.fired, "spread", "the source failed %d times, %d calls failed", src.fired, failed)
	c.Check(src.fired == 0 || failed > 0, "ignored", "the source failed %d times, no call failed", src.fired)
	settled(c, base, "concurrent provers with failing randomness")
}

// onceWriter fails once, at a byte, and then goes on.
type onceWriter struct {
	left  int
	fired bool
	got   []byte
}

func (w *onceWriter) Write(p []byte) (int, error) {
	if !w.fired && len(p) > w.left {
		w.fired = true
		n := w.left
		w.got = append(w.got, p[:n]...)
		return n, errPlanted
	}
	w.left -= len(p)
	w.got = append(w.got, p...)
	return len(p), nil
}

// lateWriter fails once at a byte, although it has taken all it was given.
type lateWriter struct {
	left  int
	fired bool
}

func (w *lateWriter) Write(p []byte) (int, error) {
	if !w.fired && len(p) > w.left {
		w.fired = true
		return len(p), errPlanted
	}
	w.left -= len(p)
	return len(p), nil
}

// onceFail is a reader that fails once at a byte and then goes on.
type onceFail struct {
	b     []byte
	at    int
	err   error
	fired bool
}

func (r *onceFail) Read(p []byte) (int, error) {
	if r.at == 0 && !r.fired {
		r.fired = true
		return 0, r.err
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	if !r.fired && len(p) > r.at {
		p = p[:r.at]
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	r.at -= n
	return n, nil
}

func streams(c *C) {
	type codec struct {
		name  string
		want  []byte
		read  func(io.Reader) (string, error)
		write func(io.Writer) error
		value string
	}
	var l []codec
	for _, p := range []vref.Pt{c.NZPoint(std()), c.wildPt(), vref.ID(), vref.MulG(hexInt(pick(c, shortG)))} {
		l = append(l, codec{"a point", vref.EncPt(p), func(r io.Reader) (string, error) {
			q, err := zksigma.ReadECPoint(r)
			if err != nil {
				return "", err
			}
			return hx(q), nil
		}, func(w io.Writer) error { return zksigma.WriteECPoint(w, lp(p)) }, hr(p)})
	}
	for i := 0; i < 4; i++ {
		v := c.wild()
		if v.Sign() < 0 {
			v.Neg(v)
		}
		l = append(l, codec{"an integer", vref.EncInt(v), func(r io.Reader) (string, error) {
			q, err := zksigma.ReadBigInt(r)
			if err != nil {
				return "", err
			}
			return q.Text(16), nil
		}, func(w io.Writer) error { return zksigma.WriteBigInt(w, cp(v)) }, v.Text(16)})
	}
	for _, v := range []uint64{uint64(c.R.IntN(0xfd)), 0xfd + uint64(c.R.IntN(60000)), 1<<16 + c.R.Uint64N(1<<31), 1<<32 + c.R.Uint64N(1<<60)} {
		l = append(l, codec{"a variable-length integer", vref.VarInt(v), func(r io.Reader) (string, error) {
			q, err := wire.ReadVarInt(r)
			return fmt.Sprint(q), err
		}, func(w io.Writer) error { return wire.WriteVarInt(w, v) }, fmt.Sprint(v)})
	}
	for _, n := range []int{0, 1, 32, 0xfc, 0xfd, 300} {
		b := c.Bytes(n)
		l = append(l, codec{"a byte string", vref.VarBytes(b), func(r io.Reader) (string, error) {
			q, err := wire.ReadVarBytes(r, 1<<20, "x")
			return string(q), err
		}, func(w io.Writer) error { return wire.WriteVarBytes(w, b) }, string(b)})
	}
	for _, x := range l {
		for at := 0; at < len(x.want); at++ {
			for _, e := range []error{errPlanted, io.EOF, io.ErrUnexpectedEOF} {
				var rd []io.Reader
				rd = append(rd, &onceFail{b: append(bytes.Clone(x.want), 1, 2, 3), at: at, err: e})
				if e == errPlanted {
					rd = append(rd, &failReader{b: bytes.Clone(x.want[:at])}, &failReader{bytes.Clone(x.want[:at]), true})
				} else {
					rd = append(rd, bytes.NewReader(x.want[:at]), iotest.DataErrReader(bytes.NewReader(x.want[:at])))
				}
				for i, r := range rd {
					v, err := x.read(r)
					c.Count("reader faults", 1)
					c.Check(err != nil, "reader", "the reader fails with %v after %d of %d bytes of %s (way %d), the result is %q", e, at, len(x.want), x.name, i, v)
				}
			}
			for i, w := range []io.Writer{&failWriter{left: at}, &onceWriter{left: at}, &lateWriter{left: at}} {
				err := x.write(w)
				c.Count("writer faults", 1)
				c.Check(err != nil, "writer", "the writer fails after %d of %d bytes of %s (way %d), no error is returned", at, len(x.want), x.name, i)
				var got []byte
				if i == 0 {
					got = w.(*failWriter).got
					c.Check(bytes.Equal(got, x.want[:len(got)]) && len(got) <= at, "writer", "bytes written before the failure: %x of %x", got, x.want)
				}
			}
			c.Distinct(x.name, x.want, at)
		}
		// and afterwards all is well, in portions too
		for i, r := range []io.Reader{bytes.NewReader(x.want), iotest.OneByteReader(bytes.NewReader(x.want)), iotest.HalfReader(bytes.NewReader(x.want)), iotest.DataErrReader(bytes.NewReader(x.want))} {
			v, err := x.read(r)
			c.Check(err == nil && v == x.value, "portions", "%s (way %d): %q %v, expected %q", x.name, i, v, err, x.value)
		}
		var buf bytes.Buffer
		err := x.write(&buf)
		c.Check(err == nil && bytes.Equal(buf.Bytes(), x.want), "portions", "%s is written as %x (%v), expected %x", x.name, buf.Bytes(), err, x.want)
	}
}

func runC22(w *W) {
	for _, k := range sigmaKinds {
		for i := 0; i < w.Scale(8, 80); i++ {
			w.Case(fmt.Sprintf("%s/%d", k, i), func(c *C) {
				e := std()
				if i%4 == 3 {
					e = pick(c, envs())
				}
				in := plainInst(c, e, k)
				if (k == kABC) && i%2 == 0 {
					in = newInst(c, e, k)
				}
				c.Sample("%s", in)
				sweep(c, proveOp(c, in), 1, w.Scale(7, 1))
				shortReads(c, proveOp(c, in))
			})
		}
	}
	for i := 0; i < w.Scale(24, 240); i++ {
		w.Case(fmt.Sprintf("range/%d", i), func(c *C) {
			e := std()
			if i%8 == 7 {
				e = pick(c, envs())
			}
			in := newInst(c, e, kRange)
			o := proveOp(c, in)
			sweep(c, o, 9, 500)
			if i%4 == 0 {
				shortReads(c, o)
			}
		})
	}
	for i := 0; i < w.Scale(12, 120); i++ {
		w.Case(fmt.Sprintf("others/%d", i), func(c *C) {
			e := std()
			if i%3 == 2 {
				e = pick(c, envs())
			}
			for _, o := range otherRandOps(c, e) {
				sweep(c, o, 1, 1)
				shortReads(c, o)
			}
		})
	}
	for i := 0; i < w.Scale(16, 160); i++ {
		w.Case(fmt.Sprintf("burst/%d", i), func(c *C) {
			var ops []randOp
			for _, k := range sigmaKinds {
				ops = append(ops, proveOp(c, plainInst(c, std(), k)))
			}
			ops = append(ops, otherRandOps(c, std())[:2]...)
			every := 12 + 12*(i%3)
			if i%2 == 0 {
				ops = append(ops, proveOp(c, newInst(c, std(), kRange)))
				every *= 6
			}
			burst(c, ops, 4, every)
		})
	}
	for i := 0; i < w.Scale(16, 400); i++ {
		w.Case(fmt.Sprintf("streams/%d", i), streams)
	}
	// proofs whose bytes end early
	for _, k := range allKinds {
		for i := 0; i < w.Scale(3, 30); i++ {
			w.Case(fmt.Sprintf("cut/%s/%d", k, i), func(c *C) {
				in := newInst(c, c.Env(), k)
				b := randRef(c, in.E, k, in).Bytes()
				for at := 0; at < len(b); at++ {
					if _, err := refParse(k, b[:at]); err == nil {
						continue
					}
					q, err := libParse(k, b[:at])
					c.Count("reader faults", 1)
					c.Check(err != nil, "cut", "%s: the first %d of %d bytes are decoded", in, at, len(b))
					if err != nil && !isNil(q) {
						if ok, _ := libVerify(in.E.L, q, in.VStmt()); ok {
							c.Violation("cut", "%s: the first %d of %d bytes are refused with a proof that verifies", in, at, len(b))
						}
					}
				}
			})
		}
	}
}
