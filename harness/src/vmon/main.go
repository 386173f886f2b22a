// Command vmon runs the real library under generated workloads and decides the
// properties of /verif/properties.jsonl by watching what it does. A parent
// process distributes the cases of a check over worker processes (itself with
// VMON_WORKER set), so that a crash, hang or memory blow-up of the library is an
// observation and not the end of the check.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Check is one property's monitor.
type Check struct {
	ID    string
	Level string
	Rule  string           // how cases are made and what counts as non-trivial
	Run   func(w *W)       // enumerates all cases through w.Case
	Floor map[string]int64 // counters that must be reached
	Procs int              // worker processes, 0: one per core
	Env   []string         // of the workers
	Stall time.Duration    // a case that takes longer hangs; 0: two and a half minutes
	AS    uint64           // address space limit of the workers, bytes; 0: none
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Result is what a worker reports.
type Result struct {
	Counters   map[string]int64
	Distinct   []uint64
	Samples    []string
	Violations []Viol
	Known      map[string]string
	Cases      int64
	Err        string
}

// Viol is one violation.
type Viol struct {
	Case string
	Key  string
	Text string
}

var (
	flagCheck  = flag.String("check", "", "property id")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagSeed   = flag.Int64("seed", 1, "seed")
	flagOut    = flag.String("evidence", "", "directory for evidence")
	flagKnown  = flag.String("known", "", "known findings file")
	flagOnly   = flag.String("only", "", "run only this case")
	flagReplay = flag.String("replay", "", "replay file: sets check, tier, seed and case")
)

func main() {
	flag.Parse()
	if os.Getenv("VMON_WORKER") != "" {
		worker()
		return
	}
	if *flagReplay != "" {
		b, err := os.ReadFile(*flagReplay)
		if err != nil {
			fatal("%v", err)
		}
		var r struct {
			Property, Tier, Case string
			Seed                 int64
		}
		if err := json.Unmarshal(b, &r); err != nil {
			fatal("%v", err)
		}
		*flagCheck, *flagTier, *flagSeed, *flagOnly = r.Property, r.Tier, r.Seed, r.Case
	}
	ck := checks[*flagCheck]
	if ck == nil {
		fatal("no check %q", *flagCheck)
	}
	os.Exit(parent(ck))
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vmon: "+f+"\n", a...)
	os.Exit(2)
}

type proc struct {
	cmd      *exec.Cmd
	dir      string
	done     chan error
	lastProg string
	lastTime time.Time
	lastCPU  time.Duration
	hung     bool
	stopped  bool
	finished bool
	err      error
}

// cpuTime is the processor time a process has used.
func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	s, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(u+s) * 10 * time.Millisecond
}

// stuck: no progress for too long, although the process computed or had nothing
// to do for that time. One that others kept from the processor gets more.
func stuck(p *proc, stall time.Duration) bool {
	t := time.Since(p.lastTime)
	if t <= stall {
		return false
	}
	used := cpuTime(p.cmd.Process.Pid) - p.lastCPU
	return used > stall*6/10 || used < t/50 || t > 2*stall && t > 400*time.Second
}

func parent(ck *Check) int {
	start := time.Now()
	n := ck.Procs
	if n == 0 {
		n = runtime.NumCPU()
		if n > 16 {
			n = 16
		}
	}
	if *flagOnly != "" {
		n = 1
	}
	stall := ck.Stall
	if stall == 0 {
		stall = 150 * time.Second
	}
	tmp, err := os.MkdirTemp("", "vmon")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	known := loadKnown()
	keys := " "
	for k := range known {
		if strings.HasPrefix(k, ck.ID+"/") {
			keys += strings.TrimPrefix(k, ck.ID+"/") + " "
		}
	}
	var ps []*proc
	for i := 0; i < n; i++ {
		p := &proc{dir: filepath.Join(tmp, strconv.Itoa(i)), done: make(chan error, 1), lastTime: time.Now()}
		os.Mkdir(p.dir, 0700)
		p.cmd = exec.Command(os.Args[0], "-check", ck.ID, "-tier", *flagTier, "-seed", strconv.FormatInt(*flagSeed, 10), "-only", *flagOnly)
		p.cmd.Env = append(os.Environ(), fmt.Sprintf("VMON_WORKER=%d/%d", i, n), "VMON_DIR="+p.dir, "VMON_KNOWN="+keys, "GOTRACEBACK=all")
		p.cmd.Env = append(p.cmd.Env, ck.Env...)
		e, err := os.Create(filepath.Join(p.dir, "stderr"))
		if err != nil {
			fatal("%v", err)
		}
		p.cmd.Stderr = e
		p.cmd.Stdout = e
		if err := p.cmd.Start(); err != nil {
			fatal("%v", err)
		}
		go func() { p.done <- p.cmd.Wait(); e.Close() }()
		ps = append(ps, p)
	}
	fast, stopped := os.Getenv("VERIF_FAILFAST") != "", false
	for left := n; left > 0; {
		time.Sleep(20 * time.Millisecond)
		if fast && left < n && !stopped {
			for _, p := range ps {
				_, err := os.Stat(filepath.Join(p.dir, "result.json"))
				_, ferr := os.Stat(filepath.Join(p.dir, "failed"))
				stopped = stopped || p.finished && (err != nil || ferr == nil)
			}
			for _, p := range ps {
				if stopped && !p.finished {
					p.stopped = true
					p.cmd.Process.Kill()
				}
			}
		}
		for _, p := range ps {
			if p.finished {
				continue
			}
			select {
			case p.err = <-p.done:
				p.finished = true
				left--
				continue
			default:
			}
			b, _ := os.ReadFile(filepath.Join(p.dir, "progress"))
			if s := string(b); s != p.lastProg {
				p.lastProg, p.lastTime, p.lastCPU = s, time.Now(), cpuTime(p.cmd.Process.Pid)
			} else if p.hung && time.Since(p.lastTime) > stall || !p.hung && stuck(p, stall) {
				if !p.hung {
					p.hung = true
					p.cmd.Process.Signal(syscall.SIGQUIT)
					p.lastTime = time.Now().Add(10*time.Second - stall)
				} else {
					p.cmd.Process.Kill()
				}
			}
		}
	}

	tot := Result{Counters: map[string]int64{}, Known: map[string]string{}}
	dist := map[uint64]struct{}{}
	var errs []string
	for i, p := range ps {
		var r Result
		b, err := os.ReadFile(filepath.Join(p.dir, "result.json"))
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		se, _ := os.ReadFile(filepath.Join(p.dir, "stderr"))
		st := string(se)
		pr, _ := os.ReadFile(filepath.Join(p.dir, "progress"))
		cs := strings.TrimSpace(string(pr))
		if p.stopped {
			err = nil
		}
		if err != nil { // died
			lib := strings.Contains(st, "github.com/mit-dci/zksigma")
			switch {
			case p.hung && lib:
				r.Violations = append(r.Violations, Viol{cs, "hang", fmt.Sprintf("the case did not finish within %v; stacks: %s", stall, clip(st, 6000))})
			case lib && (strings.Contains(st, "panic:") || strings.Contains(st, "fatal error:")):
				r.Violations = append(r.Violations, Viol{cs, "crash", "the process died: " + clip(st, 6000)})
			default:
				errs = append(errs, fmt.Sprintf("worker %d died in case %q: %v: %s", i, cs, p.err, clip(st, 2000)))
			}
		}
		for _, rep := range raceReports(st) {
			if strings.Contains(rep, "mit-dci/zksigma") {
				r.Violations = append(r.Violations, Viol{cs, "race", rep})
			} else {
				errs = append(errs, "race in the harness: "+rep)
			}
		}
		if r.Err != "" {
			errs = append(errs, r.Err)
		}
		for k, v := range r.Counters {
			tot.Counters[k] += v
		}
		for _, d := range r.Distinct {
			dist[d] = struct{}{}
		}
		tot.Cases += r.Cases
		tot.Violations = append(tot.Violations, r.Violations...)
		for k, v := range r.Known {
			tot.Known[k] = v
		}
		if len(r.Samples) > 0 {
			k := 3
			if len(r.Samples) < k {
				k = len(r.Samples)
			}
			if len(tot.Samples) < 12 {
				tot.Samples = append(tot.Samples, r.Samples[:k]...)
			}
		}
	}

	// split known findings from violations
	var viol []Viol
	for _, v := range tot.Violations {
		if _, ok := known[ck.ID+"/"+v.Key]; ok {
			tot.Known[v.Key] = known[ck.ID+"/"+v.Key]
		} else {
			viol = append(viol, v)
		}
	}
	if *flagOnly == "" && len(viol) == 0 && len(errs) == 0 {
		for k, min := range ck.Floor {
			if tot.Counters[k] < min {
				errs = append(errs, fmt.Sprintf("coverage: %s is %d, at least %d expected", k, tot.Counters[k], min))
			}
		}
	}
	var kn []string
	for k := range tot.Known {
		kn = append(kn, k)
	}
	sort.Strings(kn)
	for _, k := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, tot.Known[k])
	}
	code := 0
	if len(viol) > 0 {
		code = 1
		seen := map[string]int{}
		n := 0
		for _, v := range viol {
			seen[v.Key]++
			if seen[v.Key] > 2 || n >= 10 {
				continue
			}
			path := writeReplay(ck, v, n)
			n++
			fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
			fmt.Printf("  case %s: %s: %s\n", v.Case, v.Key, clip(strings.ReplaceAll(v.Text, "\n", "\n    "), 1500))
		}
		fmt.Printf("%d violations in all\n", len(viol))
	} else if len(errs) > 0 {
		code = 2
	}
	for _, e := range errs {
		fmt.Fprintf(os.Stderr, "vmon: %s: %s\n", ck.ID, e)
	}
	if *flagOut != "" {
		writeEvidence(ck, &tot, len(dist), len(viol), time.Since(start))
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", ck.ID, *flagTier, *flagSeed, tot.Cases, len(dist), len(viol), time.Since(start).Seconds())
	return code
}

func raceReports(s string) (out []string) {
	for _, part := range strings.Split(s, "==================") {
		if strings.Contains(part, "WARNING: DATA RACE") {
			out = append(out, clip(part, 4000))
		}
	}
	return
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func loadKnown() map[string]string {
	m := map[string]string{}
	if *flagKnown == "" {
		return m
	}
	b, err := os.ReadFile(*flagKnown)
	if err != nil {
		fatal("%v", err)
	}
	var f struct {
		Findings []struct{ Property, Key, What string }
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("%s: %v", *flagKnown, err)
	}
	for _, x := range f.Findings {
		m[x.Property+"/"+x.Key] = x.What
	}
	return m
}

func writeReplay(ck *Check, v Viol, i int) string {
	dir := *flagOut
	if dir == "" {
		dir = os.TempDir()
	}
	dir = filepath.Join(dir, "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", ck.ID, i))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": ck.ID, "tier": *flagTier, "seed": *flagSeed, "case": v.Case, "key": v.Key, "text": v.Text,
	}, "", " ")
	os.WriteFile(path, b, 0644)
	return path
}

func writeEvidence(ck *Check, r *Result, distinct, viol int, d time.Duration) {
	if len(r.Samples) == 0 {
		r.Samples = []string{}
	}
	cov := map[string]interface{}{
		"evaluations":         r.Cases,
		"distinct_nontrivial": distinct,
		"rule":                ck.Rule,
		"samples":             r.Samples,
		"observed":            r.Counters,
	}
	b, err := json.MarshalIndent(map[string]interface{}{
		"property": ck.ID, "tier": *flagTier, "seed": *flagSeed, "level": ck.Level,
		"coverage": cov, "wall_s": d.Seconds(), "violations": viol,
		"assumptions": []string{
			"the reference implementation in harness/src/vref (math/big and 64-bit limbs, self-tested against each other at start) is right",
			"the Go toolchain, SHA-256, AES, HMAC and math/big of the standard library are right",
		},
	}, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	os.MkdirAll(*flagOut, 0755)
	if err := os.WriteFile(filepath.Join(*flagOut, ck.ID+".json"), append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
}
