package main

// C13, C14: stateless model checking of the real program under a controlled
// scheduler. The instrumented program (instr.go, shim/vsched) runs one goroutine
// at a time; whenever all are parked, the enabled transitions are known and one
// is taken. States are identified by their happens-before history (every
// goroutine's sequence of operations with the histories of the partners, and
// the channel contents); the search takes every enabled transition of every
// state once. A transition on a channel that only one goroutine uses on each
// side is taken alone: it commutes with all others. That assumption is checked:
// when a run shows another user of the channel, the search starts again without
// it.

import (
	"container/heap"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Scenario struct {
	Name    string
	Wad     []byte
	Opts    []string
	NCPU    int
	MapMode int
	Extra   map[string][]byte // files beside in.wad
	Nondet  bool              // deterministic output not requested: compare decoded content
	Want    []string          // lumps that must be present in every level
	Leaks   bool
}

func (s *Scenario) String() string {
	return fmt.Sprintf("%s opts=%v ncpu=%d maporder=%d", s.Name, s.Opts, s.NCPU, s.MapMode)
}

type pathNode struct {
	parent *pathNode
	id     uint64
	n      int
}

func (p *pathNode) ids() []uint64 {
	if p == nil {
		return nil
	}
	r := make([]uint64, p.n)
	for q := p; q != nil; q = q.parent {
		r[q.n-1] = q.id
	}
	return r
}

func (p *pathNode) add(id uint64) *pathNode {
	n := 1
	if p != nil {
		n = p.n + 1
	}
	return &pathNode{p, id, n}
}

type workItem struct {
	path *pathNode
	dev  int
	seq  int
}

type workHeap []workItem

func (h workHeap) Len() int { return len(h) }
func (h workHeap) Less(i, j int) bool {
	if h[i].dev != h[j].dev {
		return h[i].dev < h[j].dev
	}
	return h[i].seq < h[j].seq
}
func (h workHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *workHeap) Push(x any)   { *h = append(*h, x.(workItem)) }
func (h *workHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type step struct {
	state  uint64
	single bool
	pick   int
	ids    []uint64
}

type schedRun struct {
	steps  []step
	status string
	leaks  []string
	res    *Result
	out    []byte
	send   map[uint64][]uint64
	recv   map[uint64][]uint64
	polled map[uint64]bool
}

// runSchedule runs the instrumented program along a prefix of transitions.
func (e *Env) runSchedule(bin string, sc *Scenario, prefix []uint64, shared string, verbose bool) (*schedRun, string) {
	d := e.TempDir()
	defer os.RemoveAll(d)
	os.WriteFile(filepath.Join(d, "in.wad"), sc.Wad, 0o666)
	for k, v := range sc.Extra {
		os.WriteFile(filepath.Join(d, k), v, 0o666)
	}
	b := make([]byte, 0, 8*len(prefix))
	for _, x := range prefix {
		b = binary.LittleEndian.AppendUint64(b, x)
	}
	os.WriteFile(filepath.Join(d, "prefix"), b, 0o666)
	env := []string{"GOMAXPROCS=1", "GOTRACEBACK=single", "GOGC=400", "PATH=/usr/bin:/bin", "TMPDIR=" + d, "GORACE=atexit_sleep_ms=0 history_size=3",
		"VS_TRACE=" + filepath.Join(d, "trace"), "VS_PREFIX=" + filepath.Join(d, "prefix"), "VS_SHARED=" + shared,
		fmt.Sprintf("VS_NCPU=%d", sc.NCPU), fmt.Sprintf("VS_MAP=%d", sc.MapMode), "VS_OUT=" + filepath.Join(d, "out.wad")}
	if verbose {
		env = append(env, "VS_VERBOSE=1")
	}
	args := append(append([]string{}, sc.Opts...), "in.wad", "-o", "out.wad")
	r := &schedRun{send: map[uint64][]uint64{}, recv: map[uint64][]uint64{}, polled: map[uint64]bool{}}
	r.res = e.Exec(bin, d, args, env, hangTimeout)
	r.out, _ = os.ReadFile(filepath.Join(d, "out.wad.end"))
	tr, _ := os.ReadFile(filepath.Join(d, "trace"))
	for _, ln := range strings.Split(string(tr), "\n") {
		f := strings.Fields(ln)
		if len(f) < 2 {
			continue
		}
		x := func(i int) uint64 { v, _ := strconv.ParseUint(f[i], 16, 64); return v }
		switch f[0] {
		case "D":
			if len(f) < 5 {
				continue
			}
			n, _ := strconv.Atoi(f[2])
			p, _ := strconv.Atoi(f[3])
			s := step{state: x(1), pick: p, single: n == 1}
			for i := 4; i < len(f); i++ {
				s.ids = append(s.ids, x(i))
			}
			r.steps = append(r.steps, s)
		case "S":
			r.send[x(1)] = append(r.send[x(1)], x(2))
		case "R":
			r.recv[x(1)] = append(r.recv[x(1)], x(2))
		case "X":
			r.polled[x(1)] = true
		case "L":
			r.leaks = append(r.leaks, ln[2:])
		case "E":
			r.status = f[1]
		}
	}
	if !verbose {
		tr = nil
	}
	return r, string(tr)
}

type exploreStats struct {
	States, Trans, Runs, Restarts int
	MaxDev                        int
	Complete                      bool
	DevComplete                   int // all schedules with at most this many deviations were run (-1: none)
	Outcomes                      map[string]int
}

// explore enumerates schedules of a scenario, fewest deviations first, and calls
// judge on every run; judge returns a description of what is wrong or "".
func (e *Env) explore(bin string, sc *Scenario, maxRuns int, judge func(r *schedRun) string) (*exploreStats, *schedRun) {
	st := &exploreStats{}
	sharedSet := map[uint64]bool{}
	var first *schedRun
restart:
	shl := []string{}
	for k := range sharedSet {
		shl = append(shl, fmt.Sprintf("%x", k))
	}
	sort.Strings(shl)
	shared := strings.Join(shl, ",")
	runs0 := st.Runs
	*st = exploreStats{Restarts: st.Restarts, Runs: st.Runs, Outcomes: map[string]int{}, DevComplete: -1}
	visited := map[uint64]bool{}
	senders, receivers := map[uint64]map[uint64]bool{}, map[uint64]map[uint64]bool{}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	h := &workHeap{}
	heap.Push(h, workItem{})
	seq, active, stop, again := 0, 0, false, false
	inFlight := map[int]int{}
	var wg sync.WaitGroup
	for w := 0; w < e.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			for {
				for h.Len() == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if h.Len() == 0 || stop {
					return
				}
				if st.Runs-runs0 >= maxRuns || e.Stop() {
					stop = true
					cond.Broadcast()
					return
				}
				it := heap.Pop(h).(workItem)
				active++
				inFlight[it.dev]++
				st.Runs++
				mu.Unlock()
				prefix := it.path.ids()
				r, _ := e.runSchedule(bin, sc, prefix, shared, false)
				bad := ""
				if r.status != "diverged" {
					bad = judge(r)
				}
				mu.Lock()
				active--
				inFlight[it.dev]--
				if first == nil && it.path == nil {
					first = r
				}
				if r.status == "diverged" {
					e.R.Count("diverged_replays", 1)
					e.R.Capped.Store(true)
					cond.Broadcast()
					continue
				}
				st.Outcomes[outcomeName(r)]++
				if bad != "" {
					mu.Unlock()
					e.reportSchedule(bin, sc, r, bad, judge, shared)
					mu.Lock()
					stop = true
				}
				learn := func(dst map[uint64]map[uint64]bool, src map[uint64][]uint64) {
					for c, l := range src {
						if dst[c] == nil {
							dst[c] = map[uint64]bool{}
						}
						for _, p := range l {
							dst[c][p] = true
						}
						if len(dst[c]) > 1 && !sharedSet[c] {
							sharedSet[c] = true
							again = true
						}
					}
				}
				learn(senders, r.send)
				learn(receivers, r.recv)
				for c := range r.polled {
					if !sharedSet[c] {
						sharedSet[c] = true
						again = true
					}
				}
				if again {
					stop = true
				}
				p := it.path
				for i := len(prefix); i < len(r.steps); i++ {
					s := &r.steps[i]
					if visited[s.state] {
						break
					}
					visited[s.state] = true
					st.States++
					if s.single {
						st.Trans++
					} else {
						for k, id := range s.ids {
							st.Trans++
							if k != s.pick {
								seq++
								d := it.dev + 1
								if d > st.MaxDev {
									st.MaxDev = d
								}
								heap.Push(h, workItem{p.add(id), d, seq})
							}
						}
					}
					p = p.add(s.ids[map[bool]int{true: 0, false: s.pick}[s.single]])
				}
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	if again && !e.Stop() {
		st.Restarts++
		goto restart
	}
	st.Complete = h.Len() == 0 && !stop
	if st.Complete {
		st.DevComplete = st.MaxDev
	} else if h.Len() > 0 {
		st.DevComplete = (*h)[0].dev - 1
	}
	return st, first
}

func outcomeName(r *schedRun) string {
	return fmt.Sprintf("%s exit=%d out=%s", r.status, r.res.Exit, hashKey(string(r.out))[:8])
}

func fullPath(r *schedRun) []uint64 {
	var ids []uint64
	for _, s := range r.steps {
		k := s.pick
		if s.single {
			k = 0
		}
		ids = append(ids, s.ids[k])
	}
	return ids
}

func (e *Env) reportSchedule(bin string, sc *Scenario, r *schedRun, bad string, judge func(*schedRun) string, shared string) {
	path := fullPath(r)
	_, trace := e.runSchedule(bin, sc, path, shared, true)
	keyed := bad
	if i := strings.IndexByte(bad, '\n'); i > 0 {
		keyed = bad[:i]
	}
	e.Fail(Violation{
		Key: hashKey(sc.Name, keyed), Msg: sc.String() + ": " + bad, Args: sc.Opts,
		Files: map[string][]byte{"in.wad": sc.Wad, "schedule.txt": []byte(trace), "out.wad": r.out, "stderr.txt": []byte(r.res.Stderr)},
		Recheck: func() bool {
			q, _ := e.runSchedule(bin, sc, path, shared, false)
			return q.status != "diverged" && judge(q) != ""
		},
	})
}

// instrumented builds the controlled program (and with race detection).
func (e *Env) instrumented(race bool) string {
	d := filepath.Join(e.Scratch, "instr")
	if _, err := os.Stat(d); err != nil {
		if err := e.Instrument(e.Repo, d); err != nil {
			fatal("instrument: %v", err)
		}
	}
	bin := filepath.Join(e.Scratch, "controlled")
	if race {
		bin += "-race"
		if err := e.BuildRepoEnv(d, bin, []string{"CGO_ENABLED=1"}, "-race"); err != nil {
			fatal("%v", err)
		}
		return bin
	}
	if err := e.BuildRepo(d, bin); err != nil {
		fatal("%v", err)
	}
	return bin
}

// raceReports returns the reports whose accesses are both in the program.
func raceReports(stderr string) []string {
	var res []string
	for _, blk := range strings.Split(stderr, "==================\n") {
		if !strings.HasPrefix(blk, "WARNING: DATA RACE") {
			continue
		}
		own := false
		for _, para := range strings.Split(blk, "\n\n") {
			if strings.HasPrefix(para, "Goroutine ") {
				continue
			}
			for _, ln := range strings.Split(para, "\n") {
				if strings.HasPrefix(ln, "  ") && !strings.HasPrefix(ln, "   ") {
					f := strings.TrimSpace(ln)
					if strings.HasPrefix(f, "main.") {
						break
					}
					// a file operation is the program's access
					if strings.Contains(f, "vsched.RaceTouch") || strings.Contains(f, "/vos.") {
						break
					}
					if strings.Contains(f, "vsched.") {
						own = true
					}
				}
			}
		}
		if !own {
			res = append(res, blk)
		}
	}
	return res
}

func raceTitle(blk string) string {
	var l []string
	for _, ln := range strings.Split(blk, "\n") {
		f := strings.TrimSpace(ln)
		if strings.HasPrefix(f, "main.") && strings.HasPrefix(ln, "  ") && !strings.HasPrefix(ln, "   ") {
			l = append(l, strings.TrimSuffix(f, "()"))
		}
	}
	if len(l) > 6 {
		l = l[:6]
	}
	return strings.Join(l, " / ")
}
