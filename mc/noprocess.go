package main

// C10: NOPROCESS starts from an existing table, ASSERT guards it.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
)

func init() { checks["C10"] = runC10 }

// npLevel is one level of the built file.
type npLevel struct {
	R    *rmbMap
	Name string
	Loc  []*rcmd // nil: no section
	Rej  []byte  // nil: no REJECT lump
}

// npFile is what a file name in the option file stands for: level name -> table
// (nil: level without REJECT). A nil map: not a usable source.
type npFile map[string][]byte

type npJob struct {
	Def    []*rcmd
	Levels []npLevel
	Extra  map[string][]byte // files next to the input
	Src    map[string]npFile // by name as written in the option file
	Opts   []string
	Case   string // text for the counters when the option file is not enough
	Only   map[string]bool
}

func (l *npLevel) lumps() []Lump {
	ls := l.R.M.Lumps(l.Name)
	if l.Rej != nil {
		ls = append(ls, Lump{"REJECT", l.Rej})
	}
	return ls
}

func (j *npJob) rej() []byte {
	s := rtext(j.Def)
	for _, l := range j.Levels {
		if l.Loc != nil {
			s += l.Name + "\n" + rtext(l.Loc)
		}
	}
	return []byte(s)
}

func (j *npJob) wad() []byte {
	w := &Wad{}
	for i := range j.Levels {
		w.Lumps = append(w.Lumps, j.Levels[i].lumps()...)
	}
	return w.Bytes()
}

func rejSize(n int) int { return (n*n + 7) / 8 }

func visBits(b []byte, n int) []bool {
	r := make([]bool, n*n)
	for i := range r {
		r[i] = b[i/8]>>uint(i%8)&1 == 0
	}
	return r
}

// splitSource: file and level of a NOPROCESS command.
func splitSource(s string) (file, level string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, `"`) {
		if k := strings.Index(s[1:], `"`); k >= 0 {
			return s[1 : k+1], strings.ToUpper(strings.Trim(strings.TrimSpace(s[k+2:]), `"`))
		}
	}
	f := strings.Fields(s)
	if len(f) > 0 {
		file = f[0]
	}
	if len(f) > 1 {
		level = strings.ToUpper(strings.Trim(f[1], `"`))
	}
	return
}

// sourced returns the bytes the level starts from (nil: the level is built) and
// whether they are taken over as they are.
func (j *npJob) sourced(i int) (raw []byte, asIs bool) {
	l := &j.Levels[i]
	all := append(append([]*rcmd{}, j.Def...), l.Loc...)
	var np *rcmd
	only := true
	for _, c := range all {
		switch c.Kind {
		case "PERFECT", "PREPROCESS":
			return nil, false
		case "NOPROCESS":
			np = c // the level's own come last
		default:
			only = false
		}
	}
	if np == nil {
		return nil, false
	}
	var b []byte
	file, level := splitSource(np.Source)
	if file == "" {
		b = l.Rej
	} else {
		if level == "" {
			level = l.Name
		}
		b = j.Src[file][level]
	}
	n := l.R.N
	if len(b) == 0 || len(b) != rejSize(n) {
		return nil, false
	}
	v := visBits(b, n)
	for _, c := range all {
		if c.Kind != "ASSERT" {
			continue
		}
		if c.D[0] != 0 && c.D[0] != 1 {
			return nil, false
		}
		for _, x := range c.A {
			if x < 0 || x >= n {
				return nil, false
			}
			for _, y := range c.B {
				if y < 0 || y >= n || v[x*n+y] != (c.D[0] == 0) {
					return nil, false
				}
			}
		}
	}
	return b, only
}

func (j *npJob) judge(out []byte) []string {
	msgs := make([]string, len(j.Levels))
	p, err := ParseWad(out)
	if err != nil {
		msgs[0] = err.Error()
		return msgs
	}
	lv := SplitLevels(p)
	if len(lv) != len(j.Levels) {
		msgs[0] = fmt.Sprintf("output has %d levels, input %d", len(lv), len(j.Levels))
		return msgs
	}
	for i, o := range lv {
		l := &j.Levels[i]
		got, has := o.L["REJECT"]
		if j.Only != nil && !j.Only[l.Name] {
			if has != (l.Rej != nil) || !bytes.Equal(got, l.Rej) {
				msgs[i] = "the table of a level left alone changed"
			}
			continue
		}
		src, asIs := j.sourced(i)
		if asIs {
			if n := l.R.N; len(got) != len(src) || fmt.Sprint(visBits(src, n)) != fmt.Sprint(visBits(got, n)) {
				msgs[i] = fmt.Sprintf("the table must be the existing one, % x, but is % x", src, got)
			}
			continue
		}
		var raw []bool
		if src != nil {
			raw = visBits(src, l.R.N)
		}
		bits, s := rejectBits(l.R.M, o)
		if s == "" {
			s = l.R.expect(j.Def, l.Loc, raw).judge(bits)
		}
		if s != "" {
			if src != nil {
				s += fmt.Sprintf(" (starting from % x)", src)
			} else {
				s += " (table to be built)"
			}
			msgs[i] = s
		}
	}
	return msgs
}

// runNp runs the job in a directory of its own; names may have subdirectories.
func (e *Env) runNp(j *npJob) (*Result, []byte, string) {
	d := e.TempDir()
	defer os.RemoveAll(d)
	os.WriteFile(filepath.Join(d, "in.wad"), j.wad(), 0o666)
	os.WriteFile(filepath.Join(d, "in.rej"), j.rej(), 0o666)
	for k, v := range j.Extra {
		p := filepath.Join(d, k)
		os.MkdirAll(filepath.Dir(p), 0o777)
		if strings.HasSuffix(k, "/") {
			os.MkdirAll(p, 0o777)
			continue
		}
		os.WriteFile(p, v, 0o666)
	}
	args := append(append(append([]string{}, rmbOpts...), j.Opts...), "in.wad", "-o", "out.wad")
	r := e.Exec(e.Bin, d, args, nil, hangTimeout)
	out, _ := os.ReadFile(filepath.Join(d, "out.wad"))
	for k, v := range j.Extra {
		if k == "out.wad" || strings.HasSuffix(k, "/") {
			continue
		}
		if b, _ := os.ReadFile(filepath.Join(d, k)); !bytes.Equal(b, v) {
			return r, out, "the source file " + k + " changed"
		}
	}
	if b, _ := os.ReadFile(filepath.Join(d, "in.wad")); !bytes.Equal(b, j.wad()) {
		return r, out, "the input file changed"
	}
	return r, out, ""
}

func (e *Env) npJob(j *npJob) {
	res, out, bad := e.runNp(j)
	opts := append(append([]string{}, rmbOpts...), j.Opts...)
	fail := func(i int, msg string) {
		l := &j.Levels[i]
		if rmbDebug != "" {
			fmt.Printf("DBG %s | %s | %s %v %s % x: %s\n", l.R.M.Desc, strings.ReplaceAll(rtext(j.Def), "\n", "; "), strings.ReplaceAll(rtext(l.Loc), "\n", "; "), j.Opts, j.Case, l.Rej, msg)
			return
		}
		k := j
		if j.Src == nil && j.Only == nil {
			o := *l
			o.Name = levelNames()[0]
			k = &npJob{Def: j.Def, Levels: []npLevel{o}, Opts: j.Opts, Case: j.Case}
		}
		again := func() bool {
			res, out, bad := e.runNp(k)
			return !res.OK() || res.Panicked() || bad != "" || strings.Join(k.judge(out), "") != ""
		}
		if !again() {
			k = j
		}
		fs := map[string][]byte{"in.wad": k.wad(), "in.rej": k.rej()}
		for n, b := range k.Extra {
			fs[strings.ReplaceAll(n, "/", "_")] = b
		}
		e.Fail(Violation{Key: hashKey(l.R.M.Desc, rtext(j.Def), rtext(l.Loc), j.Case, fmt.Sprintf("%x", l.Rej), strings.Join(opts, " ")),
			Msg:   fmt.Sprintf("option file %q on %s %s (%s): %s", string(k.rej()[:min(len(k.rej()), 300)]), l.R.M.Desc, j.Case, strings.Join(opts, " "), msg),
			Files: fs, Args: opts, Recheck: again})
	}
	if !res.OK() || res.Panicked() {
		if len(j.Levels) == 1 || j.Src != nil || j.Only != nil {
			fail(0, "program failed: "+res.Brief())
			return
		}
		h := len(j.Levels) / 2
		a, b := *j, *j
		a.Levels, b.Levels = j.Levels[:h], j.Levels[h:]
		e.npJob(&a)
		if !e.Stop() {
			e.npJob(&b)
		}
		return
	}
	if bad != "" {
		fail(0, bad)
	}
	for i, msg := range j.judge(out) {
		l := &j.Levels[i]
		e.R.Case(fmt.Sprintf("%s|%s|%s|%x|%s|%d", l.R.M.Desc, rtext(j.Def), rtext(l.Loc), l.Rej, j.Case, i), true)
		if msg != "" {
			fail(i, msg)
		}
	}
}

func tableOf(n int, bits uint64, pad byte) []byte {
	b := make([]byte, rejSize(n))
	for i := 0; i < n*n; i++ {
		if bits>>uint(i)&1 == 1 {
			b[i/8] |= 1 << uint(i%8)
		}
	}
	if r := n * n % 8; r != 0 {
		b[len(b)-1] |= pad << uint(r)
	}
	return b
}

// someTables: every single bit set and cleared, uniform, triangular, checkered.
func someTables(n int) [][]byte {
	var r [][]byte
	mk := func(f func(i, j int) bool) {
		b := make([]byte, rejSize(n))
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if f(i, j) {
					k := i*n + j
					b[k/8] |= 1 << uint(k%8)
				}
			}
		}
		r = append(r, b)
	}
	mk(func(i, j int) bool { return false })
	mk(func(i, j int) bool { return true })
	mk(func(i, j int) bool { return i < j })
	mk(func(i, j int) bool { return i > j })
	mk(func(i, j int) bool { return (i+2*j)%3 == 0 })
	mk(func(i, j int) bool { return i != j })
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			mk(func(i, j int) bool { return i == a && j == b })
			mk(func(i, j int) bool { return i != a || j != b })
		}
	}
	return r
}

// npAlphabet: options next to NOPROCESS.
func npAlphabet(r *rmbMap) []*rcmd {
	n := r.N
	s1, s2 := 0, n/2
	a := []*rcmd{
		{Kind: "BLIND", D: [2]int{0}, A: []int{s1}}, {Kind: "BLIND", D: [2]int{1}, A: []int{s1}}, {Kind: "BLIND", D: [2]int{1}, A: []int{s2, s1}},
		{Kind: "BLIND", Inv: true, D: [2]int{0}, A: []int{s1}}, {Kind: "BLIND", Inv: true, D: [2]int{1}, A: []int{s2}},
		{Kind: "SAFE", D: [2]int{0}, A: []int{s2}}, {Kind: "SAFE", D: [2]int{1}, A: []int{s1}}, {Kind: "SAFE", Inv: true, D: [2]int{1}, A: []int{s1}}, {Kind: "SAFE", D: [2]int{1}, A: []int{n - 1}},
		{Kind: "BLIND", D: [2]int{2}, A: []int{s2}}, {Kind: "SAFE", Inv: true, D: [2]int{3}, A: []int{s1}}, {Kind: "BLIND", Band: true, D: [2]int{1, 3}, A: []int{n - 1}},
		{Kind: "INCLUDE", A: []int{s1}, B: []int{s2}}, {Kind: "INCLUDE", A: []int{s2}, B: []int{s1}}, {Kind: "INCLUDE", A: []int{s1, s2}, B: []int{s1, n - 1}}, {Kind: "INCLUDE", A: []int{n}, B: []int{s1}},
		{Kind: "EXCLUDE", A: []int{s1}, B: []int{s2}}, {Kind: "EXCLUDE", A: []int{s2}, B: []int{s1}}, {Kind: "EXCLUDE", A: []int{s1}, B: []int{s1}}, {Kind: "EXCLUDE", A: []int{s2, n + 1}, B: []int{s1, n - 1}},
		{Kind: "GROUP", D: [2]int{s1}, A: []int{s2}}, {Kind: "GROUP", D: [2]int{n - 1}, A: []int{s1}},
		{Kind: "VORTEX", A: []int{s1}, B: []int{s2}},
		{Kind: "LENGTH", D: [2]int{1}}, {Kind: "DISTANCE", D: [2]int{65}}, {Kind: "LINE", D: [2]int{r.line0()}}, {Kind: "REPORT", D: [2]int{0}}, {Kind: "REPORT", D: [2]int{1}},
		{Kind: "PERFECT"},
		{Kind: "ASSERT", A: []int{s1}, B: []int{s2}, D: [2]int{0}}, {Kind: "ASSERT", A: []int{s1}, B: []int{s2}, D: [2]int{1}}, {Kind: "ASSERT", A: []int{s2, s1}, B: []int{s1}, D: [2]int{0}},
		{Kind: "NOPROCESS"},
	}
	return a
}

func (r *rmbMap) line0() int {
	if len(r.Two) > 0 {
		return r.Two[0]
	}
	return 0
}

func runC10(e *Env) {
	e.R.Rule = "a case is one level with its existing table and its option file; the table must be taken over, changed by the options the manual allows, or built"
	m := map[string]*rmbMap{
		"2":   newRmbMap(patternMap("two rooms", 64, "01")),
		"2.":  newRmbMap(patternMap("two rooms without connection", 64, "0.1")),
		"3":   newRmbMap(patternMap("three rooms", 64, "012")),
		"4":   newRmbMap(patternMap("four rooms", 64, "01", "32")),
		"6":   newRmbMap(patternMap("chain of 6", 64, "012345")),
		"9":   newRmbMap(patternMap("chain of 9", 64, "012345678")),
		"one": newRmbMap(patternMap("one room", 64, "0")),
	}
	var con []*rmbMap
	for k, r := range m {
		if k != "2." && k != "one" {
			con = append(con, r)
		}
	}
	if !e.rmbBases(con, 2) || !e.rmbBases([]*rmbMap{m["2."], m["one"]}, 0) {
		e.Fail(Violation{Key: "base", Msg: "a plain level without option file could not be built"})
		return
	}
	var jobs []*npJob
	open := map[string]*npJob{}
	push := func(r *rmbMap, def, loc []*rcmd, rej []byte, opts []string) {
		key := rtext(def) + strings.Join(opts, " ")
		cur := open[key]
		if cur == nil || len(cur.Levels) >= 400 {
			cur = &npJob{Def: def, Opts: opts, Case: key}
			open[key] = cur
			jobs = append(jobs, cur)
		}
		cur.Levels = append(cur.Levels, npLevel{r, levelNames()[len(cur.Levels)], loc, rej})
	}
	np := &rcmd{Kind: "NOPROCESS"}
	all := func(r *rmbMap) [][]byte {
		var t [][]byte
		if r.N > 3 {
			return someTables(r.N)
		}
		for x := uint64(0); x < 1<<uint(r.N*r.N); x++ {
			t = append(t, tableOf(r.N, x, 0))
		}
		return t
	}
	order := []string{"one", "2", "2.", "3", "4", "6", "9"}
	// alone: every table, with every padding, of right and wrong size
	for _, k := range order {
		r := m[k]
		for _, t := range all(r) {
			push(r, []*rcmd{np}, nil, t, nil)
			push(r, []*rcmd{np}, []*rcmd{}, t, nil)
		}
		for _, t := range all(r) {
			push(r, nil, []*rcmd{np}, t, nil)
			push(r, nil, nil, t, nil)
			push(r, nil, []*rcmd{np, np}, t, nil)
			if p := r.N * r.N % 8; p != 0 {
				for _, pad := range []byte{1, 0xff, 1 << uint(7-p)} {
					u := append([]byte{}, t...)
					u[len(u)-1] |= pad << uint(p)
					push(r, nil, []*rcmd{np}, u, nil)
					push(r, nil, []*rcmd{np, {Kind: "ASSERT", A: []int{0}, B: []int{0}, D: [2]int{0}}}, u, nil)
				}
			}
			if r.N > 1 {
				push(r, nil, []*rcmd{np}, t[:len(t)-1], nil)
				push(r, nil, []*rcmd{np, {Kind: "REPORT"}}, t[:len(t)-1], nil)
			}
			for _, x := range []byte{0, 0xff} {
				push(r, nil, []*rcmd{np}, append(append([]byte{}, t...), x), nil)
				push(r, nil, []*rcmd{np, {Kind: "REPORT"}}, append(append([]byte{}, t...), x), nil)
			}
		}
		for _, t := range [][]byte{nil, {}, {0xff}, bytes.Repeat([]byte{0xff}, 200)} {
			push(r, nil, []*rcmd{np}, t, nil)
			push(r, nil, []*rcmd{np, {Kind: "EXCLUDE", A: []int{0}, B: []int{0}}}, t, nil)
		}
	}
	// one and two options next to it
	opts := [][]string{nil, {"-rg-"}, {"-rs=3"}, {"--nosymm"}}
	for _, k := range order {
		r := m[k]
		if r.N < 2 {
			continue
		}
		ab := npAlphabet(r)
		ts := all(r)
		if r.N > 3 && !e.Thorough() {
			ts = ts[:14]
		}
		for oi, o := range opts {
			for ti, t := range ts {
				if oi > 0 && !(ti%7 == oi) {
					continue
				}
				for _, c := range ab {
					push(r, nil, []*rcmd{np, c}, t, o)
					push(r, nil, []*rcmd{c, np}, t, o)
				}
			}
		}
		for _, c := range ab {
			for _, t := range ts[:min(len(ts), 64)] {
				push(r, []*rcmd{np}, []*rcmd{c}, t, nil)
			}
		}
		for _, c := range ab {
			for _, t := range ts[:min(len(ts), 16)] {
				push(r, []*rcmd{c}, []*rcmd{np}, t, nil)
				push(r, []*rcmd{c, np}, []*rcmd{}, t, nil)
				push(r, []*rcmd{c, np}, []*rcmd{{Kind: "PERFECT"}}, t, nil)
			}
		}
		step := 1
		if !e.Thorough() {
			step = map[int]int{2: 1, 3: 37}[r.N]
			if step == 0 {
				step = 5
			}
		}
		for ti := 0; ti < len(ts); ti += step {
			for _, c := range ab {
				for _, d := range ab {
					push(r, nil, []*rcmd{c, np, d}, ts[ti], nil)
				}
			}
		}
		// three options, without the order
		if r.N == 2 || e.Thorough() {
			for ti := 0; ti < len(ts); ti += 1 + 5*(r.N/3) {
				for a := range ab {
					for b := 0; b < a; b++ {
						for c := 0; c < b; c++ {
							push(r, nil, []*rcmd{ab[a], ab[b], ab[c], np}, ts[ti], nil)
						}
					}
				}
			}
		}
	}
	// ASSERT: every pair against every table, lists, numbers that are not there
	for _, k := range order {
		r := m[k]
		ts := all(r)
		n := r.N
		var as []*rcmd
		for x := 0; x < n; x++ {
			for y := 0; y < n; y++ {
				for v := 0; v < 3; v++ {
					as = append(as, &rcmd{Kind: "ASSERT", A: []int{x}, B: []int{y}, D: [2]int{v}})
				}
			}
		}
		for _, x := range []int{-1, n, n + 1, 65536, 1 << 31} {
			as = append(as, &rcmd{Kind: "ASSERT", A: []int{x}, B: []int{0}}, &rcmd{Kind: "ASSERT", A: []int{0}, B: []int{x}, D: [2]int{1}},
				&rcmd{Kind: "ASSERT", A: []int{0, x}, B: []int{0, 0}}, &rcmd{Kind: "ASSERT", A: []int{0}, B: []int{0}, D: [2]int{x}})
		}
		if n > 1 {
			for v := 0; v < 2; v++ {
				as = append(as, &rcmd{Kind: "ASSERT", A: []int{0, 1}, B: []int{0, 1}, D: [2]int{v}}, &rcmd{Kind: "ASSERT", A: []int{n - 1}, B: []int{0, n - 2}, D: [2]int{v}}, &rcmd{Kind: "ASSERT", A: []int{1, n - 1}, B: []int{0}, D: [2]int{v}})
			}
		}
		for i, t := range ts {
			if n == 3 && !e.Thorough() && i%3 != 0 || n > 6 && i > 20 && !e.Thorough() {
				continue
			}
			for _, a := range as {
				push(r, nil, []*rcmd{np, a}, t, nil)
			}
		}
		for i, t := range ts {
			if i%11 != 0 && n > 2 {
				continue
			}
			for _, a := range as[:min(len(as), 12)] {
				push(r, []*rcmd{a}, []*rcmd{np}, t, nil)
				push(r, []*rcmd{np, a}, []*rcmd{{Kind: "GROUP", D: [2]int{0}, A: []int{n - 1}}}, t, nil)
				for _, b := range as[:min(len(as), 12)] {
					push(r, nil, []*rcmd{a, b, np, {Kind: "EXCLUDE", A: []int{0}, B: []int{n - 1}}}, t, nil)
				}
			}
		}
	}
	jobs = append(jobs, e.npSources(m)...)
	cases := 0
	for _, j := range jobs {
		cases += len(j.Levels)
	}
	var done atomic.Int64
	e.Parallel(len(jobs), func(i int) {
		if !e.Stop() {
			e.npJob(jobs[i])
			done.Add(1)
		}
	})
	if int(done.Load()) < len(jobs) {
		e.R.Capped.Store(true)
	}
	e.R.Count("jobs", done.Load())
	e.R.Extra["levels_planned"] = cases
}

// npSources: where the table comes from.
func (e *Env) npSources(m map[string]*rmbMap) []*npJob {
	r, q := m["3"], m["6"]
	// tables that differ wherever they come from
	tab := func(r *rmbMap, k int) []byte {
		if r.N == 3 {
			return tableOf(3, uint64(k*73+5)%512, byte(k))
		}
		t := make([]byte, rejSize(r.N))
		for i := range t {
			t[i] = byte(k*37 + i*11 + 1)
		}
		return t
	}
	type lv struct {
		r    *rmbMap
		name string
		rej  []byte
	}
	mk := func(before []Lump, ls ...lv) ([]byte, npFile) {
		w := &Wad{Lumps: append([]Lump{}, before...)}
		f := npFile{}
		for _, l := range ls {
			x := npLevel{R: l.r, Name: l.name, Rej: l.rej}
			w.Lumps = append(w.Lumps, x.lumps()...)
			if _, dup := f[l.name]; !dup {
				f[l.name] = l.rej
			}
		}
		return w.Bytes(), f
	}
	inLevels := func() []npLevel {
		return []npLevel{{r, "MAP01", nil, tab(r, 1)}, {q, "MAP02", nil, tab(q, 2)}, {r, "MAP03", nil, tab(r, 3)}, {r, "E1M1", nil, nil}}
	}
	own := npFile{}
	for _, l := range inLevels() {
		own[l.Name] = l.Rej
	}
	extra := map[string][]byte{}
	src := map[string]npFile{"in.wad": own, "./in.wad": own, "out.wad": nil}
	put := func(name string, b []byte, f npFile, as ...string) {
		extra[name] = b
		for _, a := range append(as, name) {
			src[a] = f
		}
	}
	b, f := mk(nil, lv{r, "MAP01", tab(r, 11)}, lv{q, "MAP02", tab(q, 12)}, lv{r, "MAP03", tab(r, 13)}, lv{r, "MAP07", tab(r, 14)}, lv{r, "E1M1", tab(r, 15)})
	put("a.wad", b, f, "./a.wad", "sub/../a.wad")
	b, f = mk([]Lump{{"PLAYPAL", make([]byte, 30)}, {"REJECT", tab(r, 9)}}, lv{r, "MAP03", tab(r, 21)}, lv{r, "MAP03", tab(r, 22)}, lv{r, "E2M3", nil}, lv{r, "MAP09", []byte{}}, lv{q, "MAP01", tab(q, 23)})
	put("b b.wad", b, f)
	b, f = mk(nil, lv{r, "MAP01", tab(r, 31)}, lv{q, "MAP02", tab(q, 32)}, lv{r, "E1M1", tab(r, 33)})
	put("sub/c.wad", b, f)
	iw := append([]byte{}, b...)
	copy(iw, "IWAD")
	put("iwad.wad", iw, f)
	put("text.wad", []byte("this is not a level file, only text of some length"), nil)
	put("short.wad", []byte("PWA"), nil)
	put("empty.wad", []byte{}, nil)
	put("nolumps.wad", (&Wad{}).Bytes(), nil)
	put("nolevels.wad", (&Wad{Lumps: []Lump{{"DEMO1", []byte("abc")}, {"REJECT", tab(r, 1)}}}).Bytes(), npFile{})
	// directory beyond the end, and cut in its middle
	put("cutdir.wad", b[:len(b)-40], nil)
	put("cuthead.wad", b[:12], nil)
	far := append([]byte{}, b...)
	far[8], far[9], far[10], far[11] = 0xff, 0xff, 0xff, 0x7f
	put("fardir.wad", far, nil)
	// the table's own place beyond the end
	wp, _ := ParseWad(b)
	lost := append([]byte{}, b...)
	dir := int(lost[8]) | int(lost[9])<<8 | int(lost[10])<<16 | int(lost[11])<<24
	for i, l := range wp.Lumps {
		if l.Name == "REJECT" {
			lost[dir+16*i+2] = 0x7f
		}
	}
	put("lost.wad", lost, npFile{})
	put("dir.wad/", nil, nil, "dir.wad")
	src["missing.wad"] = nil
	src["nowhere/a.wad"] = nil
	names := []string{"", "in.wad", "./in.wad", "out.wad", "a.wad", "./a.wad", "sub/../a.wad", `"a.wad"`, `"b b.wad"`, "sub/c.wad", `"sub/c.wad"`, "iwad.wad",
		"text.wad", "short.wad", "empty.wad", "nolumps.wad", "nolevels.wad", "cutdir.wad", "cuthead.wad", "fardir.wad", "lost.wad", "dir.wad", "missing.wad", "nowhere/a.wad"}
	lvls := []string{"", "MAP01", "map03", "MAP02", "MAP07", "E1M1", "e2m3", "MAP09", "MAP55", `"MAP01"`, "TITLE"}
	ex := &rcmd{Kind: "EXCLUDE", A: []int{2}, B: []int{0}}
	var jobs []*npJob
	add := func(def []*rcmd, locs [4][]*rcmd, opts []string, c string) {
		j := &npJob{Def: def, Levels: inLevels(), Extra: extra, Src: src, Opts: opts, Case: c}
		for i := range locs {
			j.Levels[i].Loc = locs[i]
		}
		if len(opts) > 0 && strings.HasPrefix(opts[0], "-m") {
			j.Only = map[string]bool{}
			for _, n := range strings.Split(opts[0][3:], "+") {
				j.Only[n] = true
			}
		}
		jobs = append(jobs, j)
	}
	var cmds []*rcmd
	for _, n := range names {
		for _, l := range lvls {
			if n == "" && l != "" {
				continue
			}
			cmds = append(cmds, &rcmd{Kind: "NOPROCESS", Source: strings.TrimSpace(n + " " + l)})
		}
	}
	for _, c := range cmds {
		add([]*rcmd{c}, [4][]*rcmd{}, nil, "source")
		add([]*rcmd{c, ex}, [4][]*rcmd{}, nil, "source")
		add(nil, [4][]*rcmd{{c}, {c, ex}, {ex, c}, {c}}, nil, "source")
		add(nil, [4][]*rcmd{2: {c}}, []string{"-m:MAP03"}, "source, one level")
		add([]*rcmd{c}, [4][]*rcmd{}, []string{"-m:MAP01+E1M1"}, "source, two levels")
	}
	// one after another: sequences over four levels
	seq := []*rcmd{nil}
	for _, s := range []string{"", "in.wad MAP03", "a.wad", "a.wad MAP07", `"b b.wad" MAP03`, "./a.wad MAP01", "missing.wad", "text.wad", "dir.wad", "nolumps.wad"} {
		seq = append(seq, &rcmd{Kind: "NOPROCESS", Source: s})
	}
	one := func(c *rcmd) []*rcmd {
		if c == nil {
			return nil
		}
		return []*rcmd{c}
	}
	for _, a := range seq {
		for _, b := range seq {
			for _, c := range seq {
				if e.Thorough() {
					for _, d := range seq {
						add(nil, [4][]*rcmd{one(a), one(b), one(c), one(d)}, nil, "sequence of sources")
					}
					continue
				}
				add(nil, [4][]*rcmd{one(a), one(b), one(c), one(a)}, nil, "sequence of sources")
			}
		}
	}
	// two commands in one section, and default against own
	for _, a := range seq[1:] {
		for _, b := range seq[1:] {
			add(nil, [4][]*rcmd{{a, b}, {a, ex, b}, {b, a}, {b}}, nil, "two sources")
			add([]*rcmd{a}, [4][]*rcmd{{b}, nil, {b, ex}, {}}, nil, "default and own source")
			add([]*rcmd{a, b}, [4][]*rcmd{{ex}, nil, {}, {{Kind: "PERFECT"}}}, nil, "two default sources")
		}
	}
	return jobs
}
