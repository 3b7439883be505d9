// Package main (vh) is the model-checking harness for mev-sp-oracle. It is compiled inside the
// module under test through a build overlay (see /verif/run.sh), so it always runs the code of the
// working tree. Exploration is exhaustive within the bounds printed in the evidence file.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	log "github.com/sirupsen/logrus"
)

// fatalExit is what log.Fatal panics with inside the harness (instead of ending the process).
type fatalExit struct{ code int }

func setupLogging() {
	if os.Getenv("VH_LOG") == "" {
		log.SetOutput(io.Discard)
	}
	log.SetLevel(log.FatalLevel)
	log.StandardLogger().ExitFunc = func(code int) { panic(fatalExit{code}) }
}

// guard runs f and reports how it ended: "" normally, "fatal" for log.Fatal, "panic: ..." otherwise.
func guard(f func()) (how string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(fatalExit); ok {
				how = "fatal"
				return
			}
			buf := make([]byte, 4096)
			n := runtime.Stack(buf, false)
			how = fmt.Sprintf("panic: %v\n%s", r, buf[:n])
		}
	}()
	f()
	return ""
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// ---------------------------------------------------------------- run context and evidence

type Run struct {
	Prop     string
	Tier     string
	Seed     int64
	VerifDir string
	Start    time.Time
	Deadline time.Time

	States      atomic.Int64
	Transitions atomic.Int64
	Evals       atomic.Int64
	Capped      atomic.Bool

	mu         sync.Mutex
	notes      []string
	bounds     map[string]any
	outcomes   map[string]int64
	samples    []string
	nViol      int
	violations []Violation
	known      []KnownFinding
	knownHit   map[string]bool
	extra      map[string]any
}

type Violation struct {
	Sig    string // stable signature, compared with the known findings
	What   string
	Replay any
}

type KnownFinding struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

func newRun(prop string) *Run {
	r := &Run{Prop: prop, Tier: os.Getenv("VERIF_TIER"), VerifDir: os.Getenv("VERIF_DIR"), Start: time.Now(),
		bounds: map[string]any{}, outcomes: map[string]int64{}, knownHit: map[string]bool{}, extra: map[string]any{}}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	if r.VerifDir == "" {
		r.VerifDir = "/verif"
	}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &r.Seed)
	// Internal deadline: what is not explored by then is reported as not covered (never an error).
	d := 420 * time.Second
	if r.Tier == "thorough" {
		d = 780 * time.Second
	}
	if s := os.Getenv("VERIF_DEADLINE_S"); s != "" {
		var n int
		fmt.Sscan(s, &n)
		d = time.Duration(n) * time.Second
	}
	r.Deadline = r.Start.Add(d)
	b, err := os.ReadFile(filepath.Join(r.VerifDir, "known_findings.jsonl"))
	if err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if !strings.HasPrefix(l, "{") {
				continue
			}
			var k KnownFinding
			if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop {
				r.known = append(r.known, k)
			}
		}
	}
	return r
}

func (r *Run) thorough() bool { return r.Tier == "thorough" }

// pick returns q in the quick tier and t in the thorough one.
func (r *Run) pick(q, t int) int {
	if r.thorough() {
		return t
	}
	return q
}

func (r *Run) expired() bool {
	if time.Now().After(r.Deadline) {
		r.Capped.Store(true)
		return true
	}
	return false
}

func (r *Run) note(f string, a ...any) {
	r.mu.Lock()
	r.notes = append(r.notes, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}
func (r *Run) bound(k string, v any) { r.mu.Lock(); r.bounds[k] = v; r.mu.Unlock() }
func (r *Run) put(k string, v any)   { r.mu.Lock(); r.extra[k] = v; r.mu.Unlock() }
func (r *Run) outcome(k string)      { r.mu.Lock(); r.outcomes[k]++; r.mu.Unlock() }
func (r *Run) addOutcomes(m map[string]int64) {
	r.mu.Lock()
	for k, v := range m {
		r.outcomes[k] += v
	}
	r.mu.Unlock()
}
func (r *Run) sample(s string) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// stop is true once enough violations were collected.
func (r *Run) stop() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations) >= 5 || r.nViol >= 50
}

func (r *Run) violate(sig, what string, replay any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k.Sig == sig {
			if !r.knownHit[sig] {
				r.knownHit[sig] = true
			}
			return
		}
	}
	r.nViol++
	for _, v := range r.violations {
		if v.Sig == sig {
			return
		}
	}
	if len(r.violations) < 5 {
		r.violations = append(r.violations, Violation{sig, what, replay})
	}
}

// finish writes the evidence and the replay artefacts, prints the verdict and returns the exit code.
func (r *Run) finish() int {
	cov := map[string]any{
		"states":                        r.States.Load(),
		"transitions":                   r.Transitions.Load(),
		"evaluations":                   r.Evals.Load(),
		"distinct_nontrivial":           len(r.outcomes),
		"rule":                          "an execution counts as nontrivial by the class of observable outcome it ends in; distinct classes are counted",
		"traces_validated_against_impl": r.Evals.Load(),
		"samples":                       r.samples,
		"exhaustive":                    !r.Capped.Load(),
		"bounds":                        r.bounds,
		"outcomes":                      topOutcomes(r.outcomes, 60),
		"explored_on":                   "the real code of the working tree (no separate model of it is explored); the reference model is only the oracle",
	}
	if propLevel(r.Prop) == "model_checking" {
		// executions of the real code whose result was compared with the oracle of the property
		delete(cov, "evaluations")
	} else {
		delete(cov, "traces_validated_against_impl")
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	if len(r.samples) == 0 {
		cov["samples"] = []string{"none recorded"}
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": propLevel(r.Prop),
		"coverage": cov, "assumptions": r.notes, "wall_s": time.Since(r.Start).Seconds(),
		"violations": r.nViol,
	}
	os.MkdirAll(filepath.Join(r.VerifDir, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(r.VerifDir, "evidence", r.Prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 3
	}
	for _, k := range r.known {
		if r.knownHit[k.Sig] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.What)
		} else {
			fmt.Printf("note: known finding %q did not show up in this run\n", k.Sig)
		}
	}
	fmt.Printf("%s %s: states=%d transitions=%d executions=%d outcomes=%d exhaustive=%v wall=%.1fs\n", r.Prop, r.Tier,
		r.States.Load(), r.Transitions.Load(), r.Evals.Load(), len(r.outcomes), !r.Capped.Load(), time.Since(r.Start).Seconds())
	if len(r.violations) == 0 {
		return 0
	}
	dir := filepath.Join(r.VerifDir, "replays")
	os.MkdirAll(dir, 0755)
	for i, v := range r.violations {
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Prop, i))
		b, _ := json.MarshalIndent(map[string]any{"property": r.Prop, "signature": v.Sig, "what": v.What, "replay": v.Replay}, "", " ")
		os.WriteFile(p, append(b, '\n'), 0644)
		fmt.Printf("%s\n", v.What)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, p)
	}
	return 1
}

func topOutcomes(m map[string]int64, n int) map[string]int64 {
	if len(m) <= n {
		return m
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	o := map[string]int64{}
	for _, k := range ks[:n] {
		o[k] = m[k]
	}
	return o
}

// ---------------------------------------------------------------- child processes

// shardDump is what a child process reports to its parent.
type shardDump struct {
	States, Transitions, Evals int64
	Capped                     bool
	Notes                      []string
	Bounds                     map[string]any
	Outcomes                   map[string]int64
	Samples                    []string
	NViol                      int
	Violations                 []Violation
	KnownHit                   map[string]bool
	Extra                      map[string]any
}

// shard returns which share of the work this process has to do (0 of 1 if it is alone).
func shard() (k, n int) {
	if _, err := fmt.Sscanf(os.Getenv("VH_SHARD"), "%d/%d", &k, &n); err != nil {
		return 0, 1
	}
	return
}

func (r *Run) dump(path string) int {
	d := shardDump{r.States.Load(), r.Transitions.Load(), r.Evals.Load(), r.Capped.Load(), r.notes, r.bounds, r.outcomes, r.samples, r.nViol, r.violations, r.knownHit, r.extra}
	b, err := json.Marshal(d)
	if err == nil {
		err = os.WriteFile(path, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

// spawn runs n copies of this process, one per share, and merges what they report. It is for code
// with state global to the process, which cannot be explored in parallel in one process.
func (r *Run) spawn(n int) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "shards")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var wg sync.WaitGroup
	var mu sync.Mutex
	failed := ""
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			out := filepath.Join(dir, fmt.Sprint(k))
			c := exec.Command(self, r.Prop)
			c.Env = append(os.Environ(), fmt.Sprintf("VH_SHARD=%d/%d", k, n), "VH_SHARD_OUT="+out, "VERIF_TIER="+r.Tier,
				fmt.Sprintf("VERIF_DEADLINE_S=%d", int(time.Until(r.Deadline).Seconds())), "GOMAXPROCS=2")
			msg, err := c.CombinedOutput()
			b, rerr := os.ReadFile(out)
			var d shardDump
			if err == nil && rerr == nil {
				err = json.Unmarshal(b, &d)
			}
			mu.Lock()
			defer mu.Unlock()
			if err != nil || rerr != nil {
				if len(msg) > 4000 {
					msg = msg[:4000]
				}
				failed = fmt.Sprintf("share %d/%d: %v %v\n%s", k, n, err, rerr, msg)
				return
			}
			r.States.Add(d.States)
			r.Transitions.Add(d.Transitions)
			r.Evals.Add(d.Evals)
			if d.Capped {
				r.Capped.Store(true)
			}
			for _, x := range d.Notes {
				dup := false
				for _, y := range r.notes {
					dup = dup || x == y
				}
				if !dup {
					r.notes = append(r.notes, x)
				}
			}
			for x, y := range d.Bounds {
				r.bounds[x] = y
			}
			for x, y := range d.Extra {
				r.extra[x] = y
			}
			for x, y := range d.Outcomes {
				r.outcomes[x] += y
			}
			for _, x := range d.Samples {
				if len(r.samples) < 12 {
					r.samples = append(r.samples, x)
				}
			}
			for x := range d.KnownHit {
				r.knownHit[x] = true
			}
			r.nViol += d.NViol
			for _, v := range d.Violations {
				dup := false
				for _, o := range r.violations {
					dup = dup || o.Sig == v.Sig
				}
				if !dup && len(r.violations) < 5 {
					r.violations = append(r.violations, v)
				}
			}
		}(k)
	}
	wg.Wait()
	// code under test that takes the process down (a goroutine of its own that panics, a fatal error of the runtime)
	if m := crashOfRepo(failed); m != "" {
		r.violate("crash", r.Prop+": the process exits: "+m, failed)
	}
	if failed != "" && len(r.violations) == 0 {
		fmt.Fprintln(os.Stderr, failed)
		os.Exit(3)
	}
}

// crashOfRepo returns the first line of the crash a process reported, if code of the repository is on the
// stack of the goroutine that crashed.
func crashOfRepo(msg string) string {
	i := strings.Index(msg, "panic: ")
	if j := strings.Index(msg, "fatal error: "); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		return ""
	}
	trace := msg[i:]
	if j := strings.Index(trace, "\n\ngoroutine "); j >= 0 {
		if k := strings.Index(trace[j+2:], "\n\n"); k >= 0 {
			trace = trace[:j+2+k]
		}
	}
	for _, p := range []string{"api", "oracle", "utils", "metrics", "config", "postgres"} {
		if strings.Contains(trace, "mev-sp-oracle/"+p+".") || strings.Contains(trace, "mev-sp-oracle/"+p+"(") {
			return firstLine(trace)
		}
	}
	return ""
}

// parallel runs work(i) for i in [0,n) on all cores.
func parallel(n int, work func(worker, i int)) {
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				work(k, i)
			}
		}(k)
	}
	wg.Wait()
}

func bi(n int64) *big.Int { return big.NewInt(n) }
func bs(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad number " + s)
	}
	return x
}
func cp(x *big.Int) *big.Int { return new(big.Int).Set(x) }
