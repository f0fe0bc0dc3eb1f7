package main

// C09: every small option file, against the meaning the manual gives.

import (
	"fmt"
	"os"
	"strings"
	"sync"
)

var rmbDebug = os.Getenv("VMC_DEBUG")

func init() { checks["C09"] = runC09 }

// no nodes, no blockmap: only the reject table matters here
var rmbOpts = []string{"-d", "-n-", "-b-", "-rm"}

type rmbJob struct {
	r    *rmbMap
	def  []*rcmd
	locs [][]*rcmd // one per level; nil: no section of its own
	opts []string
	sec  []string // text of the sections, if not what locs look like
	eol  string
}

func (j *rmbJob) build() (wad, rej []byte, names []string) {
	names = levelNames()[:len(j.locs)]
	w := &Wad{}
	var b strings.Builder
	b.WriteString(rtext(j.def))
	for i, l := range j.locs {
		w.Lumps = append(w.Lumps, j.r.M.Lumps(names[i])...)
		if j.sec != nil {
			b.WriteString(j.sec[i])
		} else if l != nil {
			b.WriteString(names[i] + "\n" + rtext(l))
		}
	}
	s := b.String()
	if j.eol != "" {
		s = strings.ReplaceAll(s, "\n", j.eol)
	}
	return w.Bytes(), []byte(s), names
}

func (e *Env) runRmbJob(j *rmbJob) {
	wad, rej, names := j.build()
	opts := append(append([]string{}, rmbOpts...), j.opts...)
	res, out, files := e.RunFiles(opts, wad, map[string][]byte{"in.rej": rej}, hangTimeout)
	one := func(i int) *rmbJob {
		o := &rmbJob{r: j.r, def: j.def, locs: [][]*rcmd{j.locs[i]}, opts: j.opts, eol: j.eol}
		if j.sec != nil {
			o.sec = []string{strings.ReplaceAll(j.sec[i], levelNames()[i], levelNames()[0])}
		}
		return o
	}
	fail := func(i int, msg string) {
		if rmbDebug != "" {
			fmt.Printf("DBG %s | %s | %s %v: %s\n", j.r.M.Desc, strings.ReplaceAll(rtext(j.def), "\n", "; "), strings.ReplaceAll(rtext(j.locs[i]), "\n", "; "), j.opts, msg)
			return
		}
		k := one(i)
		kw, kr, _ := k.build()
		again := func() bool { return e.rmbSingle(k) != "" }
		if !again() { // only wrong together with the others
			k, kw, kr = j, wad, rej
			again = nil
		}
		e.Fail(Violation{Key: hashKey(j.r.M.Desc, rtext(j.def), rtext(j.locs[i]), strings.Join(opts, " ")),
			Msg:   fmt.Sprintf("option file %q on %s (%s): %s", string(kr[:min(len(kr), 300)]), j.r.M.Desc, strings.Join(opts, " "), msg),
			Files: map[string][]byte{"in.wad": kw, "in.rej": kr}, Args: opts, Recheck: again})
	}
	if !res.OK() || res.Panicked() {
		if len(j.locs) == 1 {
			fail(0, "program failed: "+res.Brief())
			return
		}
		h := len(j.locs) / 2
		a, b := *j, *j
		a.locs, b.locs = j.locs[:h], j.locs[h:]
		if j.sec != nil {
			a.sec, b.sec = j.sec[:h], append([]string{}, j.sec[h:]...)
			for i := range b.sec {
				b.sec[i] = strings.ReplaceAll(b.sec[i], levelNames()[h+i], levelNames()[i])
			}
		}
		e.runRmbJob(&a)
		if !e.Stop() {
			e.runRmbJob(&b)
		}
		return
	}
	for i, msg := range e.rmbJudge(j, out, files["in.rpt"], names) {
		e.R.Case(j.r.M.Desc+"|"+rtext(j.def)+"|"+rtext(j.locs[i]), true)
		if msg != "" {
			fail(i, msg)
		}
	}
}

func (e *Env) rmbSingle(j *rmbJob) string {
	wad, rej, names := j.build()
	opts := append(append([]string{}, rmbOpts...), j.opts...)
	res, out, files := e.RunFiles(opts, wad, map[string][]byte{"in.rej": rej}, hangTimeout)
	if !res.OK() || res.Panicked() {
		return "program failed: " + res.Brief()
	}
	return strings.Join(e.rmbJudge(j, out, files["in.rpt"], names), "")
}

func (e *Env) rmbJudge(j *rmbJob, out, rpt []byte, names []string) []string {
	msgs := make([]string, len(j.locs))
	p, err := ParseWad(out)
	if err != nil {
		msgs[0] = err.Error()
		return msgs
	}
	lv := SplitLevels(p)
	if len(lv) != len(j.locs) {
		msgs[0] = fmt.Sprintf("output has %d levels, input %d", len(lv), len(j.locs))
		return msgs
	}
	reps, rerr := parseReport(rpt)
	if rerr != "" {
		msgs[0] = rerr
	}
	var order []string
	for i, l := range lv {
		w := j.r.expect(j.def, j.locs[i], nil)
		bits, s := rejectBits(j.r.M, l)
		if s == "" {
			s = w.judge(bits)
		}
		if s == "" && rerr == "" {
			s = w.judgeReport(bits, reps[names[i]])
		}
		if len(w.Reports) > 0 {
			order = append(order, names[i])
		}
		if s != "" && msgs[i] == "" {
			msgs[i] = s
		}
	}
	if rerr == "" && len(reps) > len(order) {
		msgs[0] += " the report file has sections for levels without REPORT"
	}
	return msgs
}

type rptBlock struct {
	d     int
	pairs [][2]int
}

// parseReport: "# <program> <version>", then per REPORT a comment line with the
// level name and "a,b" lines.
func parseReport(b []byte) (map[string][]rptBlock, string) {
	r := map[string][]rptBlock{}
	if b == nil {
		return r, ""
	}
	if len(b) == 0 || b[len(b)-1] != '\n' {
		return nil, "report file does not end with a complete line"
	}
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	if !strings.HasPrefix(lines[0], "# VigilantBSP ") {
		return nil, "report file does not start with the version comment"
	}
	cur := ""
	for i := range lines {
		lines[i] = strings.TrimSuffix(lines[i], "\r")
	}
	for _, l := range lines[1:] {
		if strings.HasPrefix(l, "#") {
			f := strings.Fields(l)
			d := -1
			if k := strings.Index(l, ">"); k >= 0 {
				fmt.Sscanf(l[k+1:], "%d", &d)
			}
			if len(f) < 2 || d < 0 {
				continue // other comment
			}
			cur = f[1]
			r[cur] = append(r[cur], rptBlock{d: d})
			continue
		}
		var a, c int
		if n, err := fmt.Sscanf(l, "%d,%d", &a, &c); n != 2 || err != nil || cur == "" || fmt.Sprintf("%d,%d", a, c) != l {
			return nil, fmt.Sprintf("report file has an unexpected line %q", l)
		}
		k := len(r[cur]) - 1
		r[cur][k].pairs = append(r[cur][k].pairs, [2]int{a, c})
	}
	return r, ""
}

func (w *rmbWant) judgeReport(hidden []bool, got []rptBlock) string {
	n := len(w.Dist)
	if len(got) != len(w.Reports) {
		return fmt.Sprintf("report file has %d lists for the level, %d were asked for", len(got), len(w.Reports))
	}
	for k, d := range w.Reports {
		var want [][2]int
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				if w.Dist[i][j] > d && !hidden[i*n+j] && !hidden[j*n+i] {
					want = append(want, [2]int{i, j})
				}
			}
		}
		if got[k].d != d || fmt.Sprint(got[k].pairs) != fmt.Sprint(want) {
			return fmt.Sprintf("report for distance %d lists %v (distance %d), expected %v", d, got[k].pairs, got[k].d, want)
		}
	}
	return ""
}

// ---- alphabets ----

func rmbAlphabet(r *rmbMap, wide bool) []*rcmd {
	var a []*rcmd
	add := func(c rcmd) { a = append(a, &c) }
	n := r.N
	s1, s2 := 0, n/2
	if n < 3 {
		s2 = n - 1
	}
	for _, k := range []string{"BLIND", "SAFE"} {
		for _, inv := range []bool{false, true} {
			for d := 0; d <= 3; d++ {
				for _, l := range [][]int{{s1}, {s2}, {s2, n - 1}} {
					if !wide && (d == 3 && inv || len(l) > 1 && d != 1) {
						continue
					}
					add(rcmd{Kind: k, Inv: inv, D: [2]int{d}, A: l})
				}
			}
			for _, ft := range [][2]int{{0, 1}, {1, 2}, {1, 3}, {2, 3}, {0, 2}, {2, 4}} {
				if !wide && ft[0] == 0 {
					continue
				}
				add(rcmd{Kind: k, Inv: inv, Band: true, D: ft, A: []int{s1}})
				if wide {
					add(rcmd{Kind: k, Inv: inv, Band: true, D: ft, A: []int{s2}})
				}
			}
		}
	}
	for _, k := range []string{"INCLUDE", "EXCLUDE"} {
		add(rcmd{Kind: k, A: []int{s1}, B: []int{n - 1}})
		add(rcmd{Kind: k, A: []int{n - 1}, B: []int{s1}})
		add(rcmd{Kind: k, A: []int{s1, s2}, B: []int{s2, n - 1}})
		add(rcmd{Kind: k, A: []int{s1}, B: []int{s1}})
	}
	for d := 0; d <= 3; d++ {
		add(rcmd{Kind: "LENGTH", D: [2]int{d}})
	}
	for _, d := range []int{0, 63, 65, 100, 127, 129, 191, 193, 100000} {
		if wide || d == 65 || d == 129 || d == 100000 || d == 0 {
			add(rcmd{Kind: "DISTANCE", D: [2]int{d}})
		}
	}
	for i, l := range r.Two {
		if wide || i < 4 {
			add(rcmd{Kind: "LINE", D: [2]int{l}})
		}
	}
	if n > 2 {
		add(rcmd{Kind: "GROUP", D: [2]int{s1}, A: []int{s2}})
		add(rcmd{Kind: "GROUP", D: [2]int{s2}, A: []int{s1}})
		add(rcmd{Kind: "GROUP", D: [2]int{n - 1}, A: []int{s1, 1}})
		add(rcmd{Kind: "GROUP", D: [2]int{1}, A: []int{2}})
		add(rcmd{Kind: "VORTEX", A: []int{s1}, B: []int{n - 1}})
		add(rcmd{Kind: "VORTEX", A: []int{1, s2}, B: []int{n - 1}})
		add(rcmd{Kind: "VORTEX", A: []int{s2}, B: []int{s1}})
	}
	for d := 0; d <= 2; d++ {
		add(rcmd{Kind: "REPORT", D: [2]int{d}})
	}
	return a
}

func smallAlphabet(r *rmbMap) []*rcmd {
	n := r.N
	s1, s2 := 0, n/2
	return []*rcmd{
		{Kind: "BLIND", D: [2]int{0}, A: []int{s1}}, {Kind: "SAFE", D: [2]int{0}, A: []int{s1, s2}}, {Kind: "SAFE", Inv: true, D: [2]int{1}, A: []int{s1}},
		{Kind: "BLIND", D: [2]int{1}, A: []int{s1}}, {Kind: "BLIND", D: [2]int{2}, A: []int{s1}}, {Kind: "BLIND", D: [2]int{0}, A: []int{s2}},
		{Kind: "BLIND", Inv: true, D: [2]int{1}, A: []int{s1}}, {Kind: "BLIND", Inv: true, D: [2]int{3}, A: []int{s1}},
		{Kind: "BLIND", Band: true, D: [2]int{1, 3}, A: []int{s1}}, {Kind: "BLIND", Band: true, Inv: true, D: [2]int{1, 3}, A: []int{s1}},
		{Kind: "SAFE", D: [2]int{1}, A: []int{s1}}, {Kind: "SAFE", D: [2]int{2}, A: []int{s2}}, {Kind: "SAFE", Inv: true, D: [2]int{2}, A: []int{s2}},
		{Kind: "SAFE", Band: true, D: [2]int{1, 2}, A: []int{s1, s2}}, {Kind: "SAFE", Band: true, Inv: true, D: [2]int{2, 3}, A: []int{s2}},
		{Kind: "INCLUDE", A: []int{s1}, B: []int{n - 1}}, {Kind: "INCLUDE", A: []int{s1, s2}, B: []int{s1}}, {Kind: "EXCLUDE", A: []int{s1}, B: []int{1, s2}}, {Kind: "EXCLUDE", A: []int{s2}, B: []int{s1}},
		{Kind: "LENGTH", D: [2]int{1}}, {Kind: "LENGTH", D: [2]int{2}}, {Kind: "DISTANCE", D: [2]int{65}}, {Kind: "DISTANCE", D: [2]int{129}},
		{Kind: "LINE", D: [2]int{r.Two[0]}}, {Kind: "LINE", D: [2]int{r.Two[1]}}, {Kind: "LINE", D: [2]int{r.Two[len(r.Two)-1]}},
		{Kind: "GROUP", D: [2]int{s1}, A: []int{s2}}, {Kind: "GROUP", D: [2]int{s2}, A: []int{n - 1}}, {Kind: "GROUP", D: [2]int{1}, A: []int{s1}},
		{Kind: "VORTEX", A: []int{s1}, B: []int{n - 1}}, {Kind: "VORTEX", A: []int{1}, B: []int{s2}},
		{Kind: "REPORT", D: [2]int{1}}, {Kind: "REPORT", D: [2]int{0}},
	}
}

// bases fills the tables of the map with each set of up to k lines made solid.
func (e *Env) rmbBases(rs []*rmbMap, k int) bool {
	type it struct {
		r *rmbMap
		b map[int]bool
	}
	var items []it
	for _, r := range rs {
		var rec func(from int, b map[int]bool)
		rec = func(from int, b map[int]bool) {
			c := map[int]bool{}
			for i := range b {
				c[i] = true
			}
			items = append(items, it{r, c})
			if len(b) == k {
				return
			}
			for i := from; i < len(r.Two); i++ {
				c := map[int]bool{r.Two[i]: true}
				for x := range b {
					c[x] = true
				}
				rec(i+1, c)
			}
		}
		rec(0, map[int]bool{})
	}
	var mu sync.Mutex
	ok := true
	cs := chunk(items, 900)
	e.Parallel(len(cs), func(i int) {
		var ms []*Map
		for _, x := range cs[i] {
			ms = append(ms, x.r.blockedMap(x.b))
		}
		for q, res := range e.RunMaps([]string{"-d", "-n-", "-b-", "-rs=2"}, ms) {
			var t []bool
			if res.Err == "" {
				h, s := rejectBits(ms[q], res.Out)
				if s == "" {
					for _, v := range h {
						t = append(t, !v)
					}
				}
			}
			mu.Lock()
			if t == nil {
				ok = false
			} else {
				cs[i][q].r.base[blockedKey(cs[i][q].b)] = t
			}
			mu.Unlock()
		}
	})
	return ok
}

func rmbMaps() []*rmbMap {
	var r []*rmbMap
	for _, m := range []*Map{
		patternMap("chain of 6", 64, "012345"),
		patternMap("U shape with an island", 64, "012..", "3.4.7", "5.6.."),
		patternMap("ring with wide openings", 64, "0011", "0011", "2..3", "2233"),
		patternMap("two rooms", 64, "01"),
		patternMap("numbers out of order", 64, "3104", "..2."),
	} {
		r = append(r, newRmbMap(m))
	}
	return r
}

func runC09(e *Env) {
	e.R.Rule = "a case is one option file (default part and level part) applied to one level; the table and the report must be what the manual says"
	maps := rmbMaps()
	k := 2
	if e.Thorough() {
		k = 3
	}
	if !e.rmbBases(maps, k) {
		e.Fail(Violation{Key: "base", Msg: "a plain level without option file could not be built"})
		return
	}
	isolated := newRmbMap(patternMap("two rooms without connection", 64, "0.1"))
	if !e.rmbBases([]*rmbMap{isolated}, 0) {
		e.Fail(Violation{Key: "base", Msg: "a plain level without option file could not be built"})
		return
	}
	var jobs []*rmbJob
	variants := [][]string{nil, {"--nosymm"}, {"-rg-"}}
	addLocs := func(r *rmbMap, def []*rcmd, locs [][]*rcmd, vs [][]string) {
		for _, c := range chunk(locs, 480) {
			for _, v := range vs {
				jobs = append(jobs, &rmbJob{r: r, def: def, locs: c, opts: v})
			}
		}
	}
	pairs := func(a []*rcmd) [][]*rcmd {
		locs := [][]*rcmd{nil}
		for i := range a {
			locs = append(locs, []*rcmd{a[i]})
		}
		for i := range a {
			for j := range a {
				locs = append(locs, []*rcmd{a[i], a[j]})
			}
		}
		return locs
	}
	sizes := map[string]int{}
	for _, r := range append(maps, isolated) {
		a := rmbAlphabet(r, e.Thorough())
		sizes[r.M.Desc] = len(a)
		addLocs(r, nil, pairs(a), variants)
	}
	// default part against level part
	for i, r := range maps {
		if i != 0 && i != 1 {
			continue
		}
		a := smallAlphabet(r)
		if e.Thorough() {
			a = rmbAlphabet(r, false)
		}
		locs := [][]*rcmd{nil, {}}
		for _, c := range a {
			locs = append(locs, []*rcmd{c})
		}
		for k, c := range a {
			addLocs(r, []*rcmd{c}, locs, variants[:1])
			if i == 0 {
				sm := smallAlphabet(r)
				var two [][]*rcmd
				for x := range sm {
					for y := range sm {
						if x != y {
							two = append(two, []*rcmd{sm[x], sm[y]})
						}
					}
				}
				addLocs(r, []*rcmd{c}, two, variants[k%3:k%3+1])
			}
		}
	}
	// groups inside groups, with everything that counts distances
	{
		r := maps[0]
		var locs [][]*rcmd
		for a := 0; a < r.N; a++ {
			for b := 0; b < r.N; b++ {
				for c := 0; c < r.N; c++ {
					if a == b || b == c || a == c {
						continue
					}
					for _, x := range []rcmd{{Kind: "LENGTH", D: [2]int{1}}, {Kind: "BLIND", D: [2]int{2}, A: []int{b}}, {Kind: "SAFE", D: [2]int{2}, A: []int{c}}, {Kind: "BLIND", D: [2]int{1}, A: []int{c}}, {Kind: "BLIND", Band: true, D: [2]int{2, 3}, A: []int{a}}, {Kind: "REPORT", D: [2]int{1}}} {
						x := x
						// c joins b, then b joins a
						locs = append(locs, []*rcmd{{Kind: "GROUP", D: [2]int{b}, A: []int{c}}, {Kind: "GROUP", D: [2]int{a}, A: []int{b}}, &x})
					}
				}
			}
		}
		addLocs(r, nil, locs, variants[:1])
	}
	// numbers of sectors and lines that are not there
	for i, r := range maps {
		if i > 2 {
			break
		}
		n := r.N
		var locs [][]*rcmd
		var out []*rcmd
		for _, x := range []int{-1, n, n + 7, 65535, 65536, 65537, 1 << 31, -65535, -(1 << 31)} {
			for _, l := range [][]int{{x}, {1, x}, {x, 1}, {x, 0, x, 2}} {
				if n < 3 && len(l) == 4 {
					continue
				}
				for _, k := range []string{"BLIND", "SAFE"} {
					out = append(out, &rcmd{Kind: k, D: [2]int{1}, A: l}, &rcmd{Kind: k, D: [2]int{2}, A: l}, &rcmd{Kind: k, Inv: true, D: [2]int{2}, A: l}, &rcmd{Kind: k, Band: true, D: [2]int{1, 3}, A: l})
				}
				for _, k := range []string{"INCLUDE", "EXCLUDE", "VORTEX"} {
					out = append(out, &rcmd{Kind: k, A: l, B: []int{1, n - 1}}, &rcmd{Kind: k, A: []int{1, n - 1}, B: l})
				}
				out = append(out, &rcmd{Kind: "GROUP", D: [2]int{n - 1}, A: l})
			}
			out = append(out, &rcmd{Kind: "GROUP", D: [2]int{x}, A: []int{0}}, &rcmd{Kind: "GROUP", D: [2]int{x}, A: []int{x}}, &rcmd{Kind: "LINE", D: [2]int{x}}, &rcmd{Kind: "LINE", D: [2]int{x + r.Two[0]}})
		}
		for l := range r.M.Lines {
			out = append(out, &rcmd{Kind: "LINE", D: [2]int{l}}, &rcmd{Kind: "LINE", D: [2]int{l + len(r.M.Lines)}}, &rcmd{Kind: "LINE", D: [2]int{l + 65536}}, &rcmd{Kind: "LINE", D: [2]int{l - 65536}})
		}
		for _, c := range out {
			locs = append(locs, []*rcmd{c}, []*rcmd{{Kind: "BLIND", D: [2]int{1}, A: []int{n - 1}}, c}, []*rcmd{{Kind: "GROUP", D: [2]int{0}, A: []int{n - 1}}, c})
		}
		addLocs(r, nil, locs, variants[:1])
	}
	// three options and more
	if !e.Thorough() && !e.rmbBases(maps, 3) {
		return
	}
	for i, r := range maps {
		if len(r.Two) < 3 {
			continue
		}
		a := smallAlphabet(r)
		if e.Thorough() {
			a = rmbAlphabet(r, false)
		}
		for x := range a {
			var locs [][]*rcmd
			for y := range a {
				for z := range a {
					locs = append(locs, []*rcmd{a[x], a[y], a[z]})
				}
			}
			v := (i + x) % 3
			addLocs(r, nil, locs, variants[v:v+1])
		}
		if !e.Thorough() {
			continue
		}
		a = smallAlphabet(r)
		for x := range a {
			for y := range a {
				var locs [][]*rcmd
				for z := range a {
					for u := range a {
						if x != y && y != z && x != z && u != x && u != y && u != z {
							locs = append(locs, []*rcmd{a[x], a[y], a[z], a[u]})
						}
					}
				}
				v := (i + x + y) % 3
				addLocs(r, nil, locs, variants[v:v+1])
			}
		}
	}
	runRmbSyntax(e, maps[0])
	e.R.Extra["option_alphabet_sizes"] = sizes
	var done int
	var mu sync.Mutex
	e.Parallel(len(jobs), func(i int) {
		if e.Stop() {
			return
		}
		e.runRmbJob(jobs[i])
		mu.Lock()
		done++
		mu.Unlock()
	})
	if done < len(jobs) {
		e.R.Capped.Store(true)
	}
	e.R.Count("jobs", int64(done))
}
