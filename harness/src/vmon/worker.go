package main

import (
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"

	"crypto/sha256"

	"vref"
)

// W is the state of a worker process.
type W struct {
	ck         *Check
	tier       string
	seed       int64
	shard, of  int
	only       string
	idx        int
	res        Result
	dist       map[uint64]struct{}
	prog       *os.File
	mu         sync.Mutex
	sysReader  interface{ Read([]byte) (int, error) }
	perKeyViol map[string]int
	fast       bool // end with the first violation
}

// Thorough tells the tier.
func (w *W) Thorough() bool { return w.tier == "thorough" }

// Scale multiplies case counts in the thorough tier.
func (w *W) Scale(quick, thorough int) int {
	if w.Thorough() {
		return thorough
	}
	return quick
}

func worker() {
	ck := checks[*flagCheck]
	w := &W{ck: ck, tier: *flagTier, seed: *flagSeed, only: *flagOnly, dist: map[uint64]struct{}{}, sysReader: crand.Reader, perKeyViol: map[string]int{}, fast: os.Getenv("VERIF_FAILFAST") != ""}
	fmt.Sscanf(os.Getenv("VMON_WORKER"), "%d/%d", &w.shard, &w.of)
	dir := os.Getenv("VMON_DIR")
	var err error
	if w.prog, err = os.Create(filepath.Join(dir, "progress")); err != nil {
		fatal("%v", err)
	}
	if ck.AS != 0 {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: ck.AS, Max: ck.AS})
	}
	w.res.Counters = map[string]int64{}
	w.res.Known = map[string]string{}
	if err := vref.SelfTest(); err != nil {
		w.res.Err = "reference self-test: " + err.Error()
	} else {
		ck.Run(w)
	}
	w.mu.Lock()
	w.save()
}

// save hands the result to the parent.
func (w *W) save() {
	dir := os.Getenv("VMON_DIR")
	for k := range w.dist {
		w.res.Distinct = append(w.res.Distinct, k)
	}
	b, err := json.Marshal(&w.res)
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, "result.json.tmp"), b, 0600); err != nil {
		fatal("%v", err)
	}
	os.Rename(filepath.Join(dir, "result.json.tmp"), filepath.Join(dir, "result.json"))
}

// C is one case.
type C struct {
	w    *W
	ID   string
	R    *rand.Rand
	src  *rand.ChaCha8
	fail int

	large bool // integers as large as can be
}

// Case runs f as the case named id, if it belongs to this shard. The case has its
// own generator, and the library's randomness source is replaced with another
// one, both seeded from the run's seed and the id.
func (w *W) Case(id string, f func(c *C)) {
	w.idx++
	if w.only != "" {
		if w.only != id {
			return
		}
	} else if w.idx%w.of != w.shard {
		return
	}
	w.run(id, f)
}

// Each runs f in every shard.
func (w *W) Each(id string, f func(c *C)) {
	id = fmt.Sprintf("%s@%d", id, w.shard)
	if w.only != "" {
		if w.only != id && !strings.HasPrefix(w.only, strings.Split(id, "@")[0]+"@") {
			return
		}
	}
	w.run(id, f)
}

func (w *W) run(id string, f func(c *C)) {
	w.mark(id)
	sum := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%s", w.seed, w.ck.ID, id)))
	c := &C{w: w, ID: id, src: rand.NewChaCha8(sum)}
	c.R = rand.New(c.src)
	lib := sha256.Sum256(append([]byte("lib"), sum[:]...))
	crand.Reader = &lockedReader{src: rand.NewChaCha8(lib)}
	w.res.Cases++
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Violation("panic", "panic: %v\n%s", r, debug.Stack())
			}
		}()
		f(c)
	}()
	crand.Reader = w.sysReader
}

func (w *W) mark(id string) {
	var b [160]byte
	for i := range b {
		b[i] = ' '
	}
	copy(b[:], fmt.Sprintf("%s", id))
	w.prog.WriteAt(b[:], 0)
}

// Step makes a long case count as alive.
func (c *C) Step(n int) {
	if n%16 == 0 {
		c.w.mark(fmt.Sprintf("%s #%d", c.ID, n))
	}
}

// Violation records one.
func (c *C) Violation(key, f string, a ...interface{}) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	c.fail++
	c.w.perKeyViol[key]++
	if c.w.perKeyViol[key] > 5 {
		return
	}
	c.w.res.Violations = append(c.w.res.Violations, Viol{c.ID, key, clip(fmt.Sprintf(f, a...), 8000)})
	if c.w.fast && !strings.Contains(os.Getenv("VMON_KNOWN"), " "+key+" ") {
		c.w.save()
		os.WriteFile(filepath.Join(os.Getenv("VMON_DIR"), "failed"), nil, 0600)
		os.Exit(0)
	}
}

// Check records a violation unless ok.
func (c *C) Check(ok bool, key, f string, a ...interface{}) bool {
	if !ok {
		c.Violation(key, f, a...)
	}
	return ok
}

// Count adds to a counter.
func (c *C) Count(name string, n int) {
	c.w.mu.Lock()
	c.w.res.Counters[name] += int64(n)
	c.w.mu.Unlock()
}

// Distinct notes a non-trivial case by its content.
func (c *C) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		case *big.Int:
			h.Write(v.Bytes())
			if v.Sign() < 0 {
				h.Write([]byte{1})
			}
		case vref.Pt:
			h.Write(v.X.Bytes())
			h.Write(v.Y.Bytes())
		default:
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0xfe})
	}
	c.w.mu.Lock()
	c.w.dist[h.Sum64()] = struct{}{}
	c.w.mu.Unlock()
}

// Sample keeps a few cases written out.
func (c *C) Sample(f string, a ...interface{}) {
	c.w.mu.Lock()
	if len(c.w.res.Samples) < 4 {
		c.w.res.Samples = append(c.w.res.Samples, c.ID+": "+clip(fmt.Sprintf(f, a...), 400))
	}
	c.w.mu.Unlock()
}

// lockedReader is a deterministic randomness source for the library.
type lockedReader struct {
	mu  sync.Mutex
	src *rand.ChaCha8
}

func (r *lockedReader) Read(b []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.src.Read(b)
}
