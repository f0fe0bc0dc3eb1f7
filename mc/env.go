package main

// Environment: scratch directories, building the program under check from the
// current working tree, running it, bookkeeping of evidence and violations.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Env struct {
	Repo, Verif, Scratch, Bin string
	Tier                      string
	Seed                      int
	Start                     time.Time
	Budget                    time.Duration
	R                         *Report
	nrun                      int64
	Workers                   int
}

func (e *Env) Thorough() bool { return e.Tier == "thorough" }

// Expired reports that the internal deadline has passed; callers stop and the
// evidence then says exhaustive:false.
func (e *Env) Expired() bool {
	if time.Since(e.Start) > e.Budget {
		e.R.Capped.Store(true)
		return true
	}
	return false
}

// Stop is true when no more work should be started.
func (e *Env) Stop() bool { return e.R.tooMany() || e.Expired() }

func goEnv(cache string) []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOCACHE", "GOTOOLCHAIN", "GOPROXY", "GOSUMDB", "GOWORK", "CGO_ENABLED", "HOME", "GOMAXPROCS", "GODEBUG", "GOTMPDIR":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOCACHE="+cache, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0", "HOME=/root")
}

func (e *Env) gocache() string {
	if c := os.Getenv("VMC_GOCACHE"); c != "" {
		return c
	}
	return filepath.Join(e.Scratch, "gocache")
}

// BuildRepo builds the program from the working tree (or another directory).
func (e *Env) BuildRepo(src, out string, extra ...string) error {
	return e.BuildRepoEnv(src, out, nil, extra...)
}

// BuildRepoEnv: with further environment settings.
func (e *Env) BuildRepoEnv(src, out string, env []string, extra ...string) error {
	args := append([]string{"build", "-buildvcs=false", "-o", out}, extra...)
	args = append(args, ".")
	c := exec.Command("go", args...)
	c.Dir = src
	c.Env = append(goEnv(e.gocache()), env...)
	b, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go build in %s: %v\n%s", src, err, b)
	}
	return nil
}

type Result struct {
	Exit    int // -1: killed by signal, -2: timeout
	Stdout  string
	Stderr  string
	Timeout bool
	Wall    time.Duration
}

func (r *Result) OK() bool { return r.Exit == 0 && !r.Timeout }

func (r *Result) Panicked() bool {
	return strings.Contains(r.Stderr, "panic:") || strings.Contains(r.Stderr, "fatal error:") || strings.Contains(r.Stderr, "goroutine ")
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func (r *Result) Brief() string {
	se := r.Stderr
	if i := strings.Index(se, "goroutine "); i > 0 && i < 600 {
		j := i + 500
		if j > len(se) {
			j = len(se)
		}
		se = se[:j]
	} else {
		se = tail(se, 600)
	}
	return fmt.Sprintf("exit=%d timeout=%v stderr=%q stdout-tail=%q", r.Exit, r.Timeout, se, tail(r.Stdout, 300))
}

// A batch normally takes well under a second, a single map a few milliseconds.
const hangTimeout = 30 * time.Second
const bisectTimeout = 10 * time.Second

// Exec runs a binary in dir.
func (e *Env) Exec(bin, dir string, args []string, env []string, timeout time.Duration) *Result {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Dir = dir
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = 2 * time.Second
	if env == nil {
		env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all")
	}
	c.Env = env
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	t0 := time.Now()
	err := c.Run()
	atomic.AddInt64(&e.nrun, 1)
	r := &Result{Stdout: so.String(), Stderr: se.String(), Wall: time.Since(t0)}
	if ctx.Err() != nil {
		r.Exit, r.Timeout = -2, true
		return r
	}
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			r.Exit = ee.ExitCode()
		} else {
			r.Exit = -3
			r.Stderr += err.Error()
		}
	}
	return r
}

var dirCounter int64

// TempDir makes a fresh directory under scratch; caller removes it.
func (e *Env) TempDir() string {
	d := filepath.Join(e.Scratch, fmt.Sprintf("w%d", atomic.AddInt64(&dirCounter, 1)))
	if err := os.MkdirAll(d, 0o777); err != nil {
		fatal("mkdir: %v", err)
	}
	return d
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	if theEnv != nil {
		theEnv.Cleanup()
	}
	os.Exit(3)
}

var theEnv *Env

func (e *Env) Cleanup() {
	if e.Scratch != "" && strings.Contains(e.Scratch, "vmc-") {
		os.RemoveAll(e.Scratch)
	}
}

// RunOn runs the program on the given input file content with the options
// placed before the file, writing to a separate output file.
func (e *Env) RunOn(opts []string, in []byte) (*Result, []byte) {
	return e.RunOnBin(e.Bin, opts, in, nil, hangTimeout)
}

// RunOnBin: extra files (for example a .rej file) are written beside in.wad.
func (e *Env) RunOnBin(bin string, opts []string, in []byte, extra map[string][]byte, timeout time.Duration) (*Result, []byte) {
	d := e.TempDir()
	defer os.RemoveAll(d)
	os.WriteFile(filepath.Join(d, "in.wad"), in, 0o666)
	for k, v := range extra {
		os.WriteFile(filepath.Join(d, k), v, 0o666)
	}
	args := append(append([]string{}, opts...), "in.wad", "-o", "out.wad")
	r := e.Exec(bin, d, args, nil, timeout)
	out, _ := os.ReadFile(filepath.Join(d, "out.wad"))
	return r, out
}

// ---- parallel work ----

// Parallel runs f(i) for i in [0,n) on e.Workers workers, stopping when e.Stop().
func (e *Env) Parallel(n int, f func(i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < e.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || e.Stop() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// ---- report ----

type Violation struct {
	Key   string            // identity: the specific input / call / history
	Msg   string            // what is broken
	Files map[string][]byte // replay material
	Args  []string
	// Recheck re-executes the case; true = still violated. nil = no rerun possible.
	Recheck func() bool
}

type Report struct {
	mu          sync.Mutex
	Prop        string
	Level       string
	Rule        string
	Evals       atomic.Int64
	NontrivialN atomic.Int64 // cases distinct by construction, not kept in distinct
	distinct    map[[16]byte]struct{}
	samples     map[string][]any
	Extra       map[string]any
	counters    map[string]int64
	States      atomic.Int64
	Trans       atomic.Int64
	Traces      atomic.Int64
	Capped      atomic.Bool
	viol        []string
	known       map[string]string
	hitKnown    map[string]string
	flaky       []string
	Assume      []string
	nviol       atomic.Int64
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, distinct: map[[16]byte]struct{}{}, samples: map[string][]any{}, Extra: map[string]any{},
		counters: map[string]int64{}, known: map[string]string{}, hitKnown: map[string]string{}}
}

func (r *Report) tooMany() bool { return r.nviol.Load() >= 5 }

// Case counts one evaluation; sig identifies it, nontrivial says whether it counts.
func (r *Report) Case(sig string, nontrivial bool) {
	r.Evals.Add(1)
	if nontrivial {
		h := sha256.Sum256([]byte(sig))
		var k [16]byte
		copy(k[:], h[:16])
		r.mu.Lock()
		r.distinct[k] = struct{}{}
		r.mu.Unlock()
	}
}

func (r *Report) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Sample keeps up to 2 written-out cases per family.
func (r *Report) Sample(family string, v any) {
	r.mu.Lock()
	if len(r.samples[family]) < 2 {
		r.samples[family] = append(r.samples[family], v)
	}
	r.mu.Unlock()
}

func hashKey(parts ...string) string {
	h := sha256.New()
	for _, p := range parts {
		fmt.Fprintf(h, "%d:%s;", len(p), p)
	}
	return hex.EncodeToString(h.Sum(nil))[:16]
}

func (e *Env) Fail(v Violation) {
	r := e.R
	r.mu.Lock()
	if what, ok := r.known[v.Key]; ok {
		r.hitKnown[v.Key] = what
		r.mu.Unlock()
		return
	}
	r.mu.Unlock()
	if r.tooMany() {
		return
	}
	if v.Recheck != nil {
		again, t0 := 0, time.Now()
		for i := 0; i < 5 && (again == 0 || time.Since(t0) < 20*time.Second); i++ {
			if v.Recheck() {
				again++
			}
		}
		if again == 0 {
			r.mu.Lock()
			r.flaky = append(r.flaky, v.Key+": "+tail(v.Msg, 300))
			r.mu.Unlock()
			fmt.Printf("note: not reproduced in 5 reruns, not reported: %s %s\n", v.Key, tail(v.Msg, 300))
			return
		}
		v.Msg += fmt.Sprintf(" [reproduced %d times]", again)
	}
	n := r.nviol.Add(1)
	if n > 5 {
		return
	}
	d := filepath.Join(e.Verif, "replay", fmt.Sprintf("%s-%s", r.Prop, v.Key))
	os.MkdirAll(d, 0o777)
	for k, b := range v.Files {
		os.MkdirAll(filepath.Dir(filepath.Join(d, k)), 0o777)
		os.WriteFile(filepath.Join(d, k), b, 0o666)
	}
	txt := fmt.Sprintf("property: %s\nkey: %s\nargs: %s\nwhat: %s\n", r.Prop, v.Key, strings.Join(v.Args, " "), v.Msg)
	os.WriteFile(filepath.Join(d, "REPLAY.txt"), []byte(txt), 0o666)
	r.mu.Lock()
	r.viol = append(r.viol, v.Key+": "+v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, d)
	fmt.Printf("  key=%s args=%q\n  %s\n", v.Key, v.Args, v.Msg)
	r.mu.Unlock()
}

func (e *Env) loadKnown() {
	b, err := os.ReadFile(filepath.Join(e.Verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "finding:") {
			continue
		}
		f := strings.Fields(ln)
		if len(f) < 3 || f[1] != "property="+e.R.Prop || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		e.R.known[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
}

func (e *Env) Finish() int {
	r := e.R
	keys := []string{}
	for k := range r.hitKnown {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, r.hitKnown[k])
	}
	cov := map[string]any{}
	for k, v := range r.Extra {
		cov[k] = v
	}
	if len(r.counters) > 0 {
		cov["counters"] = r.counters
	}
	samples := []any{}
	fams := []string{}
	for k := range r.samples {
		fams = append(fams, k)
	}
	sort.Strings(fams)
	for _, f := range fams {
		for _, s := range r.samples[f] {
			samples = append(samples, map[string]any{"family": f, "case": s})
		}
	}
	cov["samples"] = samples
	cov["rule"] = r.Rule
	cov["evaluations"] = r.Evals.Load()
	cov["distinct_nontrivial"] = int64(len(r.distinct)) + r.NontrivialN.Load()
	if r.Level == "model_checking" {
		cov["states"] = r.States.Load()
		cov["transitions"] = r.Trans.Load()
		cov["traces_validated_against_impl"] = r.Traces.Load()
	}
	cov["program_runs"] = atomic.LoadInt64(&e.nrun)
	cov["exhaustive"] = !r.Capped.Load() && !r.tooMany()
	if len(r.flaky) > 0 {
		cov["not_reproduced"] = r.flaky
	}
	ev := map[string]any{"property": r.Prop, "tier": e.Tier, "seed": e.Seed, "level": r.Level, "coverage": cov,
		"wall_s": time.Since(e.Start).Seconds(), "violations": r.nviol.Load()}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("evidence: %v", err)
	}
	os.MkdirAll(filepath.Join(e.Verif, "evidence"), 0o777)
	if err := os.WriteFile(filepath.Join(e.Verif, "evidence", r.Prop+".json"), append(b, '\n'), 0o666); err != nil {
		fatal("evidence: %v", err)
	}
	fmt.Printf("%s %s: evaluations=%d distinct=%d runs=%d violations=%d known=%d exhaustive=%v wall=%.1fs\n", r.Prop, e.Tier,
		r.Evals.Load(), int64(len(r.distinct))+r.NontrivialN.Load(), atomic.LoadInt64(&e.nrun), r.nviol.Load(), len(r.hitKnown), cov["exhaustive"], time.Since(e.Start).Seconds())
	if r.nviol.Load() > 0 {
		return 1
	}
	return 0
}

func numCPU() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

// ---- batching of maps ----

type MapResult struct {
	In  *Map
	Out *OutMap
	Err string  // non-empty: program failed on exactly this map
	Res *Result // the run
}

// RunMaps packs maps into one WAD, runs the program, and returns per-map
// outputs. When the run fails, it bisects down to the failing maps.
func (e *Env) RunMaps(opts []string, maps []*Map) []MapResult {
	res := make([]MapResult, len(maps))
	for i := range maps {
		res[i].In = maps[i]
	}
	e.runMapsInto(e.Bin, opts, res, nil, hangTimeout)
	return res
}

func packMaps(maps []*Map) []byte {
	names := levelNames()
	w := &Wad{}
	for i, m := range maps {
		w.Lumps = append(w.Lumps, m.Lumps(names[i])...)
	}
	return w.Bytes()
}

func (e *Env) runMapsInto(bin string, opts []string, res []MapResult, extra func(ms []*Map) map[string][]byte, timeout time.Duration) {
	if len(res) == 0 {
		return
	}
	maps := make([]*Map, len(res))
	for i := range res {
		maps[i] = res[i].In
	}
	var ex map[string][]byte
	if extra != nil {
		ex = extra(maps)
	}
	r, out := e.RunOnBin(bin, opts, packMaps(maps), ex, timeout)
	var err error
	var p *ParsedWad
	if r.OK() && !r.Panicked() {
		p, err = ParseWad(out)
		if err == nil {
			lv := SplitLevels(p)
			if len(lv) == len(res) {
				for i := range res {
					res[i].Out = lv[i]
					res[i].Res = r
				}
				return
			}
			err = fmt.Errorf("output has %d levels, input has %d", len(lv), len(res))
		}
	} else {
		err = fmt.Errorf("program failed: %s", r.Brief())
	}
	if len(res) == 1 {
		res[0].Err = err.Error()
		res[0].Res = r
		return
	}
	h := len(res) / 2
	e.runMapsInto(bin, opts, res[:h], extra, bisectTimeout)
	e.runMapsInto(bin, opts, res[h:], extra, bisectTimeout)
	for i := range res {
		if res[i].Err != "" {
			return
		}
	}
	// every half works alone, only the combination fails
	for i := range res {
		res[i].Err = "fails only in combination with other levels of the same WAD: " + err.Error()
		res[i].Res = r
		break
	}
}

// Chunk splits maps into chunks.
func chunk[T any](a []T, n int) [][]T {
	var r [][]T
	for len(a) > n {
		r = append(r, a[:n])
		a = a[n:]
	}
	if len(a) > 0 {
		r = append(r, a)
	}
	return r
}

// RunFiles: like RunOn with extra input files; returns every file left in the
// directory except the input WAD.
func (e *Env) RunFiles(opts []string, in []byte, extra map[string][]byte, timeout time.Duration) (*Result, []byte, map[string][]byte) {
	d := e.TempDir()
	defer os.RemoveAll(d)
	os.WriteFile(filepath.Join(d, "in.wad"), in, 0o666)
	for k, v := range extra {
		os.WriteFile(filepath.Join(d, k), v, 0o666)
	}
	args := append(append([]string{}, opts...), "in.wad", "-o", "out.wad")
	r := e.Exec(e.Bin, d, args, nil, timeout)
	files := map[string][]byte{}
	es, _ := os.ReadDir(d)
	for _, x := range es {
		if x.Name() != "in.wad" && !x.IsDir() {
			b, _ := os.ReadFile(filepath.Join(d, x.Name()))
			if b == nil {
				b = []byte{}
			}
			files[x.Name()] = b
		}
	}
	return r, files["out.wad"], files
}
