package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// FaultScenario: one rebuild, whose file operations fail or end the program one by one.
type FaultScenario struct {
	Name   string
	In     []byte
	Opts   []string
	Extra  map[string][]byte
	Out    string // "" = in place
	OldOut []byte
	Link   bool // the input is named through a symbolic link
}

type fop struct {
	idx  int
	kind string
	name string
	n    int
}

type faultRun struct {
	res   *Result
	files map[string][]byte
	ops   []fop
}

func (e *Env) runFault(bin string, sc *FaultScenario, plan string) *faultRun {
	d := e.TempDir()
	defer os.RemoveAll(d)
	os.WriteFile(filepath.Join(d, "in.wad"), sc.In, 0o666)
	for k, v := range sc.Extra {
		os.WriteFile(filepath.Join(d, k), v, 0o666)
	}
	in := "in.wad"
	if sc.Link {
		os.Symlink("in.wad", filepath.Join(d, "link.wad"))
		in = "link.wad"
	}
	args := append(append([]string{"-d"}, sc.Opts...), in)
	if sc.Out != "" {
		args = append(args, "-o", sc.Out)
		if sc.OldOut != nil {
			os.WriteFile(filepath.Join(d, sc.Out), sc.OldOut, 0o666)
		}
	}
	lg := filepath.Join(e.Scratch, filepath.Base(d)+".ops")
	env := []string{"GOMAXPROCS=1", "GOTRACEBACK=single", "PATH=/usr/bin:/bin", "TMPDIR=" + d, "VS_TRACE=/dev/null", "VS_NCPU=2", "VF_FAIL=" + plan, "VF_LOG=" + lg}
	r := &faultRun{files: map[string][]byte{}}
	r.res = e.Exec(bin, d, args, env, hangTimeout)
	b, _ := os.ReadFile(lg)
	os.Remove(lg)
	for _, ln := range strings.Split(string(b), "\n") {
		f := strings.Fields(ln)
		if len(f) == 4 {
			i, _ := strconv.Atoi(f[0])
			n, _ := strconv.Atoi(f[3])
			r.ops = append(r.ops, fop{i, f[1], f[2], n})
		}
	}
	ents, _ := os.ReadDir(d)
	for _, x := range ents {
		if x.Name() == "link.wad" {
			if x.Type()&os.ModeSymlink == 0 {
				r.files["link.wad (no longer a link)"], _ = os.ReadFile(filepath.Join(d, "link.wad"))
			}
			continue
		}
		r.files[x.Name()], _ = os.ReadFile(filepath.Join(d, x.Name()))
	}
	return r
}

// extraFiles: files that neither existed before nor belong to the results.
func extraFiles(sc *FaultScenario, r *faultRun) []string {
	var l []string
	for k := range r.files {
		if _, ok := sc.Extra[k]; ok || k == "in.wad" || k == sc.Out || k == "in.rpt" {
			continue
		}
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func wadFile(sc *FaultScenario, name string) bool {
	return name == "in.wad" || name == "link.wad" || name == sc.Out || strings.HasPrefix(name, "tmp")
}

// judgeFault: what is wrong with the state after a run in which the operations of
// the plan went wrong. base is the run without faults.
func judgeFault(sc *FaultScenario, base, r *faultRun, plan []fop, modes []string) string {
	dest := sc.Out
	if dest == "" {
		dest = "in.wad"
	}
	want := base.files[dest]
	got := r.files[dest]
	killed, soft := false, false
	for _, o := range plan {
		// another source of the reject is out of reach: it is built instead
		soft = soft || o.kind == "stat" || !wadFile(sc, o.name)
	}
	for _, m := range modes {
		killed = killed || m == "crash" || m == "mid"
	}
	if r.res.Timeout || strings.Contains(r.res.Stderr, "deadlock") {
		return "the program hangs: " + r.res.Brief()
	}
	if killed && r.res.Exit == 137 {
		// fine, judged by the files
	} else if r.res.Exit == 137 {
		return "killed although no kill was asked for"
	}
	if sc.Out != "" {
		if !bytes.Equal(r.files["in.wad"], sc.In) {
			return "input file changed although another file is the output: " + diffBytes(sc.In, r.files["in.wad"])
		}
	} else {
		// some file must hold everything, old or new
		keep := soft && r.res.Exit == 0 // judged below
		for _, b := range r.files {
			keep = keep || bytes.Equal(b, sc.In) || bytes.Equal(b, want)
		}
		if !keep {
			return fmt.Sprintf("no complete copy of the old or new data is left (exit=%d)", r.res.Exit)
		}
	}
	for k, v := range sc.Extra {
		if k != "in.rpt" && !bytes.Equal(r.files[k], v) {
			return "file " + k + " changed"
		}
	}
	if r.res.Exit == 137 {
		return ""
	}
	foreign := false // only files beside the input and the output are concerned
	closing := false
	mustFail := ""
	for i, o := range plan {
		if o.kind == "stat" {
			continue
		}
		if !wadFile(sc, o.name) {
			foreign = true
			continue
		}
		if o.kind == "close" || o.kind == "remove" {
			closing = true
		}
		switch o.kind {
		case "write", "seek", "create", "truncopen", "open":
			mustFail = fmt.Sprintf("%s of %s", o.kind, o.name)
		case "read":
			if modes[i] == "error" {
				mustFail = fmt.Sprintf("%s of %s", o.kind, o.name)
			}
		case "close":
			// closing a file that was written to
			w := false
			for _, p := range base.ops {
				if p.idx > o.idx {
					break
				}
				if p.name == o.name && p.idx < o.idx {
					if p.kind == "close" {
						w = false
					} else if p.kind == "write" {
						w = true
					}
				}
			}
			if w {
				mustFail = "close of " + o.name
			}
		}
	}
	if r.res.Exit == 0 {
		if mustFail != "" {
			return "success reported although the " + mustFail + " failed"
		}
		if soft {
			if _, err := ParseWad(got); err != nil {
				return "success reported, but the output is no WAD: " + err.Error()
			}
			if !bytes.Equal(got, want) && strings.TrimSpace(r.res.Stderr) == "" {
				return "output differs and nothing was reported: " + diffBytes(want, got)
			}
		} else if !bytes.Equal(got, want) {
			return "success reported, but the output differs from that of an undisturbed run: " + diffBytes(want, got)
		}
	} else if strings.TrimSpace(r.res.Stderr) == "" && !strings.Contains(strings.ToLower(r.res.Stdout), "error") {
		return fmt.Sprintf("failure status %d without any message", r.res.Exit)
	}
	if l := extraFiles(sc, r); len(l) > 0 && !closing && !foreign {
		if r.res.Exit == 0 || bytes.Equal(r.files["in.wad"], sc.In) {
			return "leftover file " + strings.Join(l, " ")
		}
	}
	return ""
}

func faultScenarios(thorough bool) []FaultScenario {
	two, rooms := twoRooms(8, 16, 96), roomsRow(3, 0, 0, 96)
	hex := twoRooms(0, 0, 64)
	hex.Hexen = true
	full := func(i int, m *Map, name string) []Lump {
		return m.FullLumps(name, stub(i, "SEGS"), stub(i, "SSEC"), stub(i, "NODE"), []byte{0x6a}, stub(i, "BMAP"))
	}
	std := append([]Lump{{"PLAINA", uniq("a", 0, 5000)}}, full(0, two, "MAP01")...)
	std = append(std, Lump{"PLAINB", uniq("b", 0, 700)})
	std = append(std, rooms.Lumps("MAP02")...)
	in := (&Wad{Sig: "PWAD", Lumps: std}).Bytes()
	tm := (&Wad{Sig: "PWAD", Lumps: append([]Lump{{"MAP03", nil}, {"TEXTMAP", []byte("namespace=\"zdoom\";")}, {"ZNODES", uniq("z", 0, 30)}, {"ENDMAP", nil}}, full(0, two, "MAP01")...)}).Bytes()
	hx := (&Wad{Sig: "IWAD", Lumps: full(1, hex, "MAP01")}).Bytes()
	deg := (&Wad{Sig: "PWAD", Lumps: append(full(2, &Map{}, "E1M1"), full(0, two, "E1M2")...)}).Bytes()
	other := (&Wad{Lumps: full(3, two, "MAP07")}).Bytes()
	one := (&Wad{Sig: "PWAD", Lumps: full(0, two, "MAP01")}).Bytes()
	rej := func(s string) map[string][]byte { return map[string][]byte{"in.rej": []byte(s)} }
	np := rej("NOPROCESS other.wad MAP07\n")
	np["other.wad"] = other
	l := []FaultScenario{
		{Name: "in place", In: in},
		{Name: "separate output", In: in, Out: "out.wad"},
		{Name: "existing output", In: in, Out: "out.wad", OldOut: uniq("old", 0, 20000)},
		{Name: "in place through a link", In: one, Link: true},
		{Name: "in place, zero reject", In: in, Opts: []string{"-rz"}},
		{Name: "in place, nothing rebuilt", In: one, Opts: []string{"-n-", "-b-", "-r-"}},
		{Name: "in place, deep nodes", In: one, Opts: []string{"-nc=d"}},
		{Name: "in place, extended nodes", In: one, Opts: []string{"-nc=x"}},
		{Name: "in place, compressed nodes", In: one, Opts: []string{"-nc=z"}},
		{Name: "in place, Hexen format", In: hx},
		{Name: "in place, UDMF level", In: tm},
		{Name: "in place, empty level", In: deg},
		{Name: "in place, blockmap only", In: one, Opts: []string{"-n-", "-r-"}},
		{Name: "in place, multi-tree", In: one, Opts: []string{"-na=2m=3t=2", "-b-", "-r-"}},
		{Name: "in place, reject options", In: one, Opts: []string{"-rm"}, Extra: rej("INCLUDE 0 1\n")},
		{Name: "in place, reject report", In: in, Opts: []string{"-rm", "-m:MAP02"}, Extra: rej("LENGTH 1\nREPORT 1\n")},
		{Name: "in place, original reject", In: one, Opts: []string{"-rm"}, Extra: rej("NOPROCESS\n")},
		{Name: "in place, reject of another file", In: one, Opts: []string{"-rm"}, Extra: np},
		{Name: "extracted level", In: in, Out: "out.wad", Opts: []string{"--eject", "-m:MAP02"}},
	}
	return l
}

func init() {
	checks["C16"] = func(e *Env) {
		e.R.Level = "fault_enumeration"
		e.R.Rule = "one case = one scenario with one operation (thorough and two scenarios: also two operations) failing in one way or ending the program; all counted cases reach that operation"
		bin := e.instrumented(false)
		scs := faultScenarios(e.Thorough())
		type job struct {
			sc    *FaultScenario
			base  *faultRun
			plan  []fop
			modes []string
		}
		var jobs []job
		modes := func(k string) []string {
			switch k {
			case "read":
				return []string{"error", "short", "crash"}
			case "write":
				return []string{"error", "short", "sticky", "crash", "mid"}
			case "seek", "stat", "open":
				return []string{"error", "crash"}
			}
			return []string{"error", "crash", "mid"}
		}
		total := 0
		for i := range scs {
			sc := &scs[i]
			base := e.runFault(bin, sc, "")
			if !base.res.OK() {
				e.Fail(Violation{Key: hashKey(sc.Name, "base"), Msg: sc.Name + ": undisturbed run fails: " + base.res.Brief(), Files: map[string][]byte{"in.wad": sc.In}})
				continue
			}
			// the file operations of the instrumented program are those of the real one
			r, out := e.faultReal(sc)
			dest := sc.Out
			if dest == "" {
				dest = "in.wad"
			}
			if !r.OK() || !bytes.Equal(out, base.files[dest]) {
				e.Fail(Violation{Key: hashKey(sc.Name, "conform"), Msg: sc.Name + ": undisturbed run of the instrumented program differs from the program's: " + diffBytes(out, base.files[dest]), Files: map[string][]byte{"in.wad": sc.In}})
				continue
			}
			if l := extraFiles(sc, base); len(l) > 0 {
				e.Fail(Violation{Key: hashKey(sc.Name, "left"), Msg: sc.Name + ": leftover file " + strings.Join(l, " "), Files: map[string][]byte{"in.wad": sc.In}})
			}
			total += len(base.ops)
			for a, o := range base.ops {
				for _, m := range modes(o.kind) {
					jobs = append(jobs, job{sc, base, []fop{o}, []string{m}})
					// a second fault after the first one
					if (i > 0 && !e.Thorough()) || m == "crash" || m == "mid" {
						continue
					}
					for _, q := range base.ops[a+1:] {
						for _, w := range modes(q.kind) {
							if e.Thorough() || w == "error" || w == "crash" {
								jobs = append(jobs, job{sc, base, []fop{o, q}, []string{m, w}})
							}
						}
					}
				}
			}
		}
		e.R.Extra["scenarios"] = len(scs)
		e.R.Extra["operations"] = total
		e.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			var p, d []string
			for k := range j.plan {
				p = append(p, fmt.Sprintf("%d:%s", j.plan[k].idx, j.modes[k]))
				d = append(d, fmt.Sprintf("operation %d (%s %s, %d bytes): %s", j.plan[k].idx, j.plan[k].kind, j.plan[k].name, j.plan[k].n, j.modes[k]))
			}
			plan := strings.Join(p, ",")
			judge := func() string {
				r := e.runFault(bin, j.sc, plan)
				pl, md := j.plan, j.modes
				// a second fault may fall on another operation, or on none
				var act []fop
				var am []string
				for k := range pl {
					for _, o := range r.ops {
						if o.idx == pl[k].idx {
							act, am = append(act, o), append(am, md[k])
						}
					}
				}
				if len(pl) == 1 {
					e.R.Count("mode "+md[0], 1)
					if len(act) == 0 {
						return "the operation was not reached again: the run is not reproducible"
					}
				}
				return judgeFault(j.sc, j.base, r, act, am)
			}
			bad := judge()
			e.R.Case(j.sc.Name+plan, true)
			e.R.Traces.Add(1)
			if i%97 == 0 {
				e.R.Sample(j.sc.Name, map[string]any{"faults": d, "verdict": "ok" + bad})
			}
			if bad != "" {
				e.Fail(Violation{Key: hashKey(j.sc.Name, plan), Msg: fmt.Sprintf("%s, %s: %s", j.sc.Name, strings.Join(d, "; "), bad), Args: j.sc.Opts,
					Files:   map[string][]byte{"in.wad": j.sc.In, "faults.txt": []byte(plan + "\n" + strings.Join(d, "\n"))},
					Recheck: func() bool { return judge() != "" }})
			}
		})
	}
}

// faultReal: the unmodified program on the same scenario.
func (e *Env) faultReal(sc *FaultScenario) (*Result, []byte) {
	d := e.TempDir()
	defer os.RemoveAll(d)
	os.WriteFile(filepath.Join(d, "in.wad"), sc.In, 0o666)
	for k, v := range sc.Extra {
		os.WriteFile(filepath.Join(d, k), v, 0o666)
	}
	args := append(append([]string{"-d"}, sc.Opts...), "in.wad")
	dest := "in.wad"
	if sc.Out != "" {
		args = append(args, "-o", sc.Out)
		dest = sc.Out
	}
	r := e.Exec(e.Bin, d, args, nil, hangTimeout)
	b, _ := os.ReadFile(filepath.Join(d, dest))
	return r, b
}
