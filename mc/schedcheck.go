package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// schedScenarios: every concurrent part alone, in pairs, and all together.
func schedScenarios(thorough bool) []Scenario {
	var res []Scenario
	rooms := roomsRow(3, 0, 0, 96)
	l := lRoom(0, 0, 128)
	two := twoRooms(8, 16, 96)
	one := squareRoom(0, 0, 128)
	self := selfRefMap()
	// loose lumps before, between and after the levels: their writing overlaps with the
	// rebuild of levels and with the end of the program
	wad := func(ms ...*Map) []byte {
		w := &Wad{Lumps: []Lump{{"LOOSEA", []byte("first")}}}
		for i, m := range ms {
			w.Lumps = append(w.Lumps, m.Lumps(levelNames()[i])...)
			w.Lumps = append(w.Lumps, Lump{"LOOSE" + string(rune('0'+i)), []byte{1, 2, 3, byte(i)}})
		}
		w.Lumps = append(w.Lumps, Lump{"LOOSEZ", []byte("the last lump")})
		return w.Bytes()
	}
	add := func(name string, w []byte, want []string, opts ...string) *Scenario {
		off := map[string]string{"SEGS": "-n-", "SSECTORS": "-n-", "NODES": "-n-", "BLOCKMAP": "-b-", "REJECT": "-r-"}
		var wl []string
		for _, l := range want {
			drop := false
			for _, o := range opts {
				drop = drop || (off[l] != "" && o == off[l])
				// these formats keep everything in NODES
				inNodes := strings.HasPrefix(o, "-n") && (strings.ContainsAny(o, "xzXZ"))
				drop = drop || (inNodes && (l == "SEGS" || l == "SSECTORS"))
			}
			if !drop {
				wl = append(wl, l)
			}
		}
		res = append(res, Scenario{Name: name, Wad: w, Opts: opts, NCPU: 2, Want: wl})
		return &res[len(res)-1]
	}
	all := []string{"SEGS", "SSECTORS", "NODES", "BLOCKMAP", "REJECT", "VERTEXES", "LINEDEFS", "SIDEDEFS", "SECTORS", "THINGS"}
	add("all lumps", wad(rooms), all, "-d")
	add("all lumps, self-referencing sector", wad(self), all, "-d")
	add("all lumps, one thread", wad(l), all, "-d").NCPU = 1
	add("all lumps, levels in sequence", wad(one, two), all, "-d")
	add("no blockmap", wad(rooms), all, "-d", "-b-")
	add("no reject", wad(rooms), all, "-d", "-r-")
	add("no nodes", wad(rooms), all, "-d", "-n-")
	add("only nodes, solid blockmap", wad(l), all, "-d", "-b-", "-r-", "-na=2")
	add("only reject", wad(two), all, "-d", "-b-", "-n-")
	add("only blockmap", wad(l), all, "-d", "-r-", "-n-", "-bs")
	for _, f := range []string{"v", "d", "x", "z", "V", "D", "X", "Z"} {
		add("format "+f, wad(l), all, "-d", "-nc="+f)
	}
	add("zero reject", wad(two), all, "-d", "-rz")
	add("graphs", wad(rooms), all, "-d", "-rg")
	// blockmap offset search
	for _, b := range []string{"-be=1t=1", "-be=1t=2", "-be=1", "-be=1s", "-bz=2at=2", "-be=2t=2", "-bs?e=1", "-ba?e=1"} {
		add("blockmap search "+b, wad(l), all, "-d", "-n-", "-r-", b)
	}
	add("blockmap search and reject", wad(two), all, "-d", "-n-", "-be=1t=2")
	// multi-tree
	for _, n := range []string{"-na=0m=3t=1", "-na=0m=3t=2", "-na=1m=1t=2", "-na=2m=3t=2", "-na=2m=2t=2", "-na=3m=3t=2", "-na=2m=3t=2c=x", "-na=2m=3t=2c=V", "-na=0m=3"} {
		add("multi-tree "+n, wad(two), all, "-d", "-b-", "-r-", n)
		add("multi-tree, speed tree off "+n, wad(two), all, "-d", "-b-", "-r-", n, "--speedtree-")
	}
	// trees with many splits of lines: tasks must not share vertices, caches and lines
	star := starRooms()
	for _, n := range []string{"-na=0m=2t=2", "-na=0m=2t=2c=x", "-na=0m=2t=2c=V", "-na=1m=2t=2", "-na=2m=2t=2", "-na=3m=2t=2", "-na=2m=2t=2c=D", "-na=2m=2t=1", "-na=0m=2t=1c=x"} {
		add("multi-tree with splits "+n, wad(star), all, "-d", "-b-", "-r-", n)
	}
	add("multi-tree with splits, whole level", wad(star), all, "-d", "-na=2m=2t=2")
	add("multi-tree self-referencing", wad(self), all, "-d", "-b-", "-r-", "-na=2m=3t=2")
	add("multi-tree and reject", wad(two), all, "-d", "-b-", "-na=2m=3t=2")
	// no deterministic output asked for
	for _, o := range [][]string{nil, {"-b-"}, {"-be=1t=2", "-n-"}, {"-rz"}, {"-nc=x"}, {"-r-"}} {
		s := add("placement free", wad(one, rooms), all, o...)
		s.Nondet = true
	}
	// reject taken over from elsewhere
	np := func(name string, rmb string, extra map[string][]byte) {
		in := two.FullLumps("MAP01", nil, nil, nil, []byte{0x6a}, nil)
		s := add("noprocess "+name, (&Wad{Lumps: in}).Bytes(), all, "-d", "-rm")
		s.Extra = map[string][]byte{"in.rej": []byte(rmb)}
		for k, v := range extra {
			s.Extra[k] = v
		}
		t := *s
		t.Name, t.Nondet, t.Opts = t.Name+", placement free", true, []string{"-rm"}
		res = append(res, t)
	}
	other := (&Wad{Lumps: two.FullLumps("MAP07", nil, nil, nil, []byte{0x9a}, nil)}).Bytes()
	bad := (&Wad{Lumps: rooms.FullLumps("MAP07", nil, nil, nil, []byte{0x9a, 1, 2}, nil)}).Bytes()
	np("input", "NOPROCESS\n", nil)
	np("other file", "NOPROCESS other.wad MAP07\n", map[string][]byte{"other.wad": other})
	np("missing file", "NOPROCESS other.wad MAP07\n", nil)
	np("wrong size", "NOPROCESS other.wad MAP07\n", map[string][]byte{"other.wad": bad})
	np("and include", "INCLUDE 0 1\nNOPROCESS\n", nil)
	rm := add("reject options with report", wad(rooms), all, "-d", "-rm")
	rm.Extra = map[string][]byte{"in.rej": []byte("REPORT 0\nINCLUDE 0 1\n")}
	ln := add("reject options with length", wad(rooms), all, "-d", "-rm")
	ln.Extra = map[string][]byte{"in.rej": []byte("LENGTH 1\n")}
	add("eject", wad(one, two), all, "-d", "--eject", "-m:"+levelNames()[1])
	// degenerate levels
	dg := func(name string, cut func(m *Map)) {
		m := two.Clone()
		cut(m)
		s := add("degenerate "+name, wad(m, one), nil, "-d")
		s.Want = nil
		t := *s
		t.Name, t.Opts = t.Name+", multi-tree", []string{"-d", "-na=2m=3t=2"}
		res = append(res, t)
	}
	dg("no lines", func(m *Map) { m.Lines = nil })
	dg("no lines, sides", func(m *Map) { m.Lines, m.Sides = nil, nil })
	dg("no sectors", func(m *Map) { m.Sectors = nil; m.Lines = nil; m.Sides = nil })
	dg("nothing", func(m *Map) { *m = Map{} })
	for _, n := range []int{1, 3, 4} {
		for _, b := range []string{"-be=1t=0", "-na=0m=3t=0"} {
			o := []string{"-d", b, "-n-", "-r-"}
			if !strings.HasPrefix(b, "-be") {
				o = []string{"-d", b, "-b-", "-r-"}
			}
			add(fmt.Sprintf("%d processors %s", n, b), wad(l), all, o...).NCPU = n
		}
	}
	// order of iteration over maps
	base := res
	for i := range base {
		for mm := 1; mm <= 3; mm++ {
			if !thorough && (mm != 1 || i%4 != 0) {
				continue
			}
			s := base[i]
			s.MapMode = mm
			res = append(res, s)
		}
	}
	return res
}

// starRooms: two sectors with slanted pillars and slanted two-sided lines, so that every tree
// splits many lines at fractional coordinates.
func starRooms() *Map {
	m := &Map{Desc: "two sectors with slanted pillars"}
	addSectors(m, 2)
	poly := func(rs, ls int, p ...[2]int) {
		for i := range p {
			q := p[(i+1)%len(p)]
			addLine(m, p[i][0], p[i][1], q[0], q[1], rs, ls)
		}
	}
	// sector 0 around, clockwise
	poly(0, -1, [2]int{0, 0}, [2]int{20, 300}, [2]int{330, 280}, [2]int{300, -10})
	// sector 1: a slanted island inside sector 0
	poly(1, 0, [2]int{60, 70}, [2]int{83, 211}, [2]int{229, 150})
	// pillars, counter-clockwise
	poly(0, -1, [2]int{240, 60}, [2]int{259, 73}, [2]int{251, 91})
	m.Sectors[1].Floor, m.Sectors[1].FTex = 24, "FLOOR0_1"
	poly(1, -1, [2]int{110, 130}, [2]int{127, 133}, [2]int{117, 149})
	m.Things = []Thing{{X: 30, Y: 30, Type: 1, Flags: 7}}
	return m
}

// selfRefMap: a room with a self-referencing sector inside.
func selfRefMap() *Map {
	m := squareRoom(0, 0, 256)
	addSectors(m, 1)
	p := [][2]int{{64, 64}, {64, 128}, {128, 128}, {128, 64}}
	for i := range p {
		q := p[(i+1)%4]
		addLine(m, p[i][0], p[i][1], q[0], q[1], 1, 1)
	}
	m.Desc = "self-referencing sector"
	return m
}

// decoded: content of every lump by level, without placement.
func decodedContent(out []byte) string {
	p, err := ParseWad(out)
	if err != nil {
		return "unreadable: " + err.Error()
	}
	var s []string
	for i, l := range p.Lumps {
		if l.Name == "BLOCKMAP" {
			// several offsets may be equally good; the first one found is used
			s = append(s, fmt.Sprintf("%d BLOCKMAP %s", i, blockmapState(p, i)))
			continue
		}
		s = append(s, fmt.Sprintf("%d %s %s", i, l.Name, hashKey(string(l.Data))))
	}
	return strings.Join(s, "\n")
}

// blockmapState: "correct", or what is wrong with the blockmap in entry i.
func blockmapState(p *ParsedWad, i int) string {
	L := map[string][]byte{}
	for k := i - 1; k >= 0; k-- {
		L[p.Lumps[k].Name] = p.Lumps[k].Data
		if isLevelName(p.Lumps[k].Name) {
			break
		}
	}
	m, err := DecodeMap(L, false)
	if err != nil {
		return err.Error()
	}
	if s := CheckBlockmapBasic(p.Lumps[i].Data, m); s != "" {
		return s
	}
	return "correct"
}

func missingLumps(out []byte, want []string) string {
	p, err := ParseWad(out)
	if err != nil {
		return "output unreadable: " + err.Error()
	}
	for i, m := range SplitLevels(p) {
		for _, w := range want {
			b, ok := m.L[w]
			if !ok || len(b) == 0 {
				return fmt.Sprintf("level %d: %s missing or empty", i, w)
			}
		}
	}
	return ""
}

// looseLumps: loose lumps of the input that are not in the output.
func looseLumps(sc *Scenario, out []byte) string {
	in, err := ParseWad(sc.Wad)
	if err != nil {
		return ""
	}
	p, err := ParseWad(out)
	if err != nil {
		return "output unreadable: " + err.Error()
	}
	have := map[string]string{}
	for _, l := range p.Lumps {
		have[l.Name] = string(l.Data)
	}
	for _, o := range sc.Opts {
		if o == "--eject" {
			return ""
		}
	}
	for _, l := range in.Lumps {
		if d, ok := have[l.Name]; strings.HasPrefix(l.Name, "LOOSE") && (!ok || d != string(l.Data)) {
			return fmt.Sprintf("lump %s is lost: %q instead of %q", l.Name, d, l.Data)
		}
	}
	return ""
}

func (e *Env) schedAll(judgeFor func(sc *Scenario) func(r *schedRun) string, raceToo bool) {
	bin := e.instrumented(false)
	var rbin string
	if raceToo {
		rbin = e.instrumented(true)
	}
	scs := schedScenarios(e.Thorough())
	if f := os.Getenv("VMC_SCEN"); f != "" {
		var l []Scenario
		for _, s := range scs {
			if strings.Contains(s.String(), f) {
				l = append(l, s)
			}
		}
		scs = l
	}
	// scenarios explored to the end also in the quick tier
	full := []string{"all lumps opts=[-d] ", "blockmap search -be=1t=2 ", "multi-tree -na=2m=3t=2 opts=[-d -b- -r- -na=2m=3t=2] ", "no nodes ", "placement free opts=[-b-] ", "only reject ", "noprocess other file opts"}
	complete, capped := 0, []string{}
	type row struct {
		Name                          string
		States, Trans, Runs, Restarts int
		Complete                      bool
		MaxDeviations, DevComplete    int
	}
	var rows []row
	for i := range scs {
		sc := &scs[i]
		if e.Stop() {
			e.R.Capped.Store(true)
			break
		}
		maxRuns := 200
		if sc.MapMode != 0 {
			maxRuns = 60
		}
		for _, f := range full {
			if sc.MapMode == 0 && strings.HasPrefix(sc.String(), f) {
				maxRuns = 20000
			}
		}
		if e.Thorough() {
			maxRuns = 80000
		}
		st, _ := e.explore(bin, sc, maxRuns, judgeFor(sc))
		e.R.States.Add(int64(st.States))
		e.R.Trans.Add(int64(st.Trans))
		e.R.Traces.Add(int64(st.Runs))
		e.R.Case(sc.String(), true)
		rows = append(rows, row{sc.String(), st.States, st.Trans, st.Runs, st.Restarts, st.Complete, st.MaxDev, st.DevComplete})
		if st.Complete {
			complete++
		} else {
			capped = append(capped, fmt.Sprintf("%s: %d runs, every schedule with at most %d deviations from the default one", sc.String(), st.Runs, st.DevComplete))
		}
		e.R.Sample("scenario", map[string]any{"scenario": sc.String(), "outcomes": st.Outcomes, "states": st.States})
		if raceToo {
			e.raceScenario(rbin, sc)
		}
	}
	sort.Slice(rows, func(i, j int) bool { return rows[i].Runs > rows[j].Runs })
	if len(rows) > 12 {
		rows = rows[:12]
	}
	e.R.Extra["scenarios"] = len(scs)
	e.R.Extra["scenarios_with_all_interleavings"] = complete
	e.R.Extra["scenarios_bounded"] = capped
	e.R.Extra["largest_scenarios"] = rows
}

func (e *Env) raceScenario(bin string, sc *Scenario) {
	n := 12
	if e.Thorough() {
		n = 300
	}
	judge := func(r *schedRun) string {
		rr := raceReports(r.res.Stderr)
		if len(rr) > 0 {
			return "unsynchronised access: " + raceTitle(rr[0]) + "\n" + tail(rr[0], 3000)
		}
		return ""
	}
	st, _ := e.explore(bin, sc, n, judge)
	e.R.Count("race_detector_schedules", int64(st.Runs))
}

func init() {
	checks["C13"] = func(e *Env) {
		e.R.Level = "model_checking"
		e.R.Rule = "one case = one scenario (input, options, processors, order of map iteration); every explored schedule's output must equal the output of the unmodified program"
		e.schedAll(func(sc *Scenario) func(r *schedRun) string {
			ref, out := e.RunOnBin(e.Bin, sc.Opts, sc.Wad, sc.Extra, hangTimeout)
			return func(r *schedRun) string {
				if ref.Timeout {
					return ""
				}
				if ref.OK() != (r.status == "ok" && r.res.Exit == 0) {
					return fmt.Sprintf("the unmodified program ends with %s, with this schedule it is %q: %s", ref.Brief(), r.status, r.res.Brief())
				}
				if !ref.OK() {
					return ""
				}
				if sc.Nondet {
					if a, b := decodedContent(out), decodedContent(r.out); a != b {
						return "content of the output depends on the schedule:\n" + firstLineDiff(a, b)
					}
					return ""
				}
				if string(out) != string(r.out) {
					return "output depends on the schedule:\n" + diffBytes(out, r.out)
				}
				return ""
			}
		}, false)
		e.threadVariants()
	}
	checks["C14"] = func(e *Env) {
		e.R.Level = "model_checking"
		e.R.Rule = "one case = one scenario; every explored schedule must end with success, all lumps and no task left behind; a second search with the race detector looks for unsynchronised accesses"
		e.schedAll(func(sc *Scenario) func(r *schedRun) string {
			return func(r *schedRun) string {
				if r.status != "ok" || r.res.Exit != 0 {
					return fmt.Sprintf("program ends with %q: %s", r.status, r.res.Brief())
				}
				if len(r.leaks) > 0 {
					return "tasks left behind: " + strings.Join(r.leaks, "; ")
				}
				if m := missingLumps(r.out, sc.Want); m != "" {
					return m
				}
				if m := looseLumps(sc, r.out); m != "" {
					return m
				}
				return ""
			}
		}, true)
	}
}

func firstLineDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return fmt.Sprintf("%q vs %q", x[i], append(y, "")[min(i, len(y))])
		}
	}
	return "length differs"
}
