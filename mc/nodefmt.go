package main

// C03: structure of node lumps in every format; relations between formats.

import (
	"fmt"
	"strings"
)

// groupJob runs the same maps under a base option set and several others and
// judges every run alone and against the base.
type groupAlt struct {
	args []string
	// cmp judges this run; base is the output of the first run
	cmp func(m *Map, base, o *OutMap) string
}

func (e *Env) judgeGroup(family string, base []string, self func(m *Map, o *OutMap) string, alts []groupAlt, maps []*Map) {
	rb := e.RunMaps(base, maps)
	fail := func(i int, args []string, msg string, again func() bool) {
		m := maps[i]
		e.Fail(Violation{Key: hashKey(strings.Join(base, " "), strings.Join(args, " "), m.Desc), Msg: msg + " [" + m.Desc + "] base options " + strings.Join(base, " "),
			Args: args, Files: map[string][]byte{"in.wad": packMaps([]*Map{m})}, Recheck: again})
	}
	for i := range rb {
		msg := rb[i].Err
		if msg == "" && self != nil {
			msg = self(maps[i], rb[i].Out)
		}
		e.R.Case(strings.Join(base, " ")+maps[i].Desc, true)
		if msg != "" {
			m := maps[i]
			fail(i, base, msg, func() bool {
				q := e.RunMaps(base, []*Map{m})[0]
				return q.Err != "" || (self != nil && self(m, q.Out) != "")
			})
		}
	}
	for _, a := range alts {
		if e.Stop() {
			return
		}
		ra := e.RunMaps(a.args, maps)
		for i := range ra {
			if rb[i].Err != "" {
				continue
			}
			msg := ra[i].Err
			if msg == "" {
				msg = a.cmp(maps[i], rb[i].Out, ra[i].Out)
			}
			e.R.Case(strings.Join(base, " ")+"|"+strings.Join(a.args, " ")+maps[i].Desc, true)
			if msg == "" {
				continue
			}
			m, a := maps[i], a
			fail(i, a.args, msg, func() bool {
				p := e.RunMaps(base, []*Map{m})[0]
				q := e.RunMaps(a.args, []*Map{m})[0]
				return p.Err != "" || q.Err != "" || a.cmp(m, p.Out, q.Out) != ""
			})
		}
	}
	e.R.Sample(family, map[string]any{"base": base, "alternatives": len(alts), "map": maps[0].Desc})
}

var allLumps = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR"}
var nodeLumps = []string{"LINEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES"}

func sameLumps(names []string) func(m *Map, base, o *OutMap) string {
	return func(m *Map, base, o *OutMap) string {
		for _, n := range names {
			if string(base.L[n]) != string(o.L[n]) {
				return fmt.Sprintf("%s differs (%s)", n, diffBytes(base.L[n], o.L[n]))
			}
		}
		return ""
	}
}

func structCheck(format string, unrev bool) func(m *Map, o *OutMap) string {
	return func(m *Map, o *OutMap) string {
		t, mo, s := treeOf(m, o)
		if s != "" {
			return s
		}
		if format != "" && t.Format != format {
			return "format is " + t.Format + ", expected " + format
		}
		if s := t.checkStructure(mo, true, unrev); s != "" {
			return s
		}
		return t.CheckBoxes()
	}
}

func sameTree(format string, unrev bool) func(m *Map, base, o *OutMap) string {
	sc := structCheck(format, unrev)
	return func(m *Map, base, o *OutMap) string {
		if s := sc(m, o); s != "" {
			return s
		}
		ta, _, s := treeOf(m, base)
		if s != "" {
			return s
		}
		tb, _, s := treeOf(m, o)
		if s != "" {
			return s
		}
		if a, b := ta.Canon(), tb.Canon(); a != b {
			return fmt.Sprintf("decoded tree differs (%s)", diffBytes([]byte(a), []byte(b)))
		}
		return ""
	}
}

// strips: n one-sided lines above each other; every line is a subsector of its own.
func strips(n int) *Map {
	m := &Map{Desc: fmt.Sprintf("%d separate lines", n)}
	addSectors(m, 1)
	for i := 0; i < n; i++ {
		y := -32768 + 2*i
		m.Verts = append(m.Verts, Vertex{-64, y}, Vertex{64, y})
		m.Sides = append(m.Sides, Side{Up: "-", Low: "-", Mid: "WALL", Sector: 0})
		m.Lines = append(m.Lines, Line{V1: 2 * i, V2: 2*i + 1, Right: i, Left: NoSide, Flags: 1})
	}
	m.Things = []Thing{{X: 0, Y: 0, Type: 1, Flags: 7}}
	return m
}

// overflowCheck judges one large map under all formats.
func (e *Env) overflowCheck(m *Map, algo string, lite bool) {
	run := func(o string) *OutMap {
		args := []string{"-b-", "-r-", "-n" + algo + o, "--detailnodes=0"}
		if e.Stop() {
			return nil
		}
		r := e.RunMaps(args, []*Map{m})[0]
		e.R.Case("overflow"+o+algo+m.Desc, true)
		if r.Err != "" {
			e.Fail(Violation{Key: hashKey(algo, o, m.Desc), Msg: tail(r.Err, 900) + " [" + m.Desc + "]", Args: args, Files: map[string][]byte{"in.wad": packMaps([]*Map{m})},
				Recheck: func() bool { return e.RunMaps(args, []*Map{m})[0].Err != "" }})
			return nil
		}
		return r.Out
	}
	bad := func(o, msg string) {
		args := []string{"-b-", "-r-", "-n" + algo + o, "--detailnodes=0"}
		e.Fail(Violation{Key: hashKey(algo, o, m.Desc, "x"), Msg: msg + " [" + m.Desc + "]", Args: args, Files: map[string][]byte{"in.wad": packMaps([]*Map{m})}})
	}
	d, v, x := run("c=d"), run("c=v"), run("c=x")
	if d == nil || v == nil || x == nil {
		return
	}
	td, _, s := treeOf(m, d)
	if s != "" {
		bad("c=d", s)
		return
	}
	if s := structCheck("deep", false)(m, d); s != "" {
		bad("c=d", s)
	}
	if s := structCheck("xnod", false)(m, x); s != "" {
		bad("c=x", s)
	}
	maxc := 0
	for _, c := range td.Count {
		maxc = max(maxc, c)
	}
	fits := func(lim int) bool { return td.First[len(td.First)-1] <= lim || len(td.Segs)-maxc <= lim }
	// the documented limits: 32768 subsectors, first seg of a subsector 65535 (32767 signed)
	over := len(td.First) >= 32768 || !fits(65535)
	signed := fits(32767)
	tv, _, s := treeOf(m, v)
	if s != "" {
		bad("c=v", s)
		return
	}
	e.R.Sample("overflow", map[string]any{"map": m.Desc, "segs": len(td.Segs), "subsectors": len(td.First), "largest": maxc, "overflow": over, "fits_signed": signed})
	e.R.Count("overflow_maps", 1)
	for i, c := range td.Count {
		if lim := 65535; c == maxc && i < len(td.First)-1 && td.First[i] <= lim && td.First[i]+c > lim {
			e.R.Count("largest_subsector_straddles_65535", 1)
		}
	}
	if over {
		e.R.Count("overflowing", 1)
		if tv.Format != "empty" {
			bad("c=v", fmt.Sprintf("limits exceeded (%d segs, %d subsectors) but lumps are not emptied: %s", len(td.Segs), len(td.First), tv.Format))
		}
	} else {
		if s := sameTree("vanilla", false)(m, d, v); s != "" {
			bad("c=v", s)
		} else if signed {
			for i, f := range tv.First {
				if f > 32767 {
					bad("c=v", fmt.Sprintf("subsector %d starts at seg %d although the signed limit can be met", i, f))
					break
				}
			}
		}
	}
	for _, p := range []struct{ o, f string }{{"c=D", "d"}, {"c=X", "x"}, {"c=Xt=1", "x"}, {"c=Z", "z"}, {"c=Zt=1", "z"}, {"c=Z9", "z"}, {"c=Vt=1", "v"}} {
		if lite && p.o != "c=D" && p.o != "c=Xt=1" {
			continue
		}
		o := run(p.o)
		if o == nil {
			continue
		}
		if !over || p.f == "v" {
			if s := sameLumps(nodeLumps)(m, v, o); s != "" {
				bad(p.o, "nothing overflows but output is not that of c=v: "+s)
			}
			continue
		}
		switch p.f {
		case "d":
			if s := sameTree("deep", false)(m, d, o); s != "" {
				bad(p.o, s)
			}
		case "x":
			if s := sameLumps(nodeLumps)(m, x, o); s != "" {
				bad(p.o, "output is not that of c=x: "+s)
			}
		case "z":
			if s := sameTree("znod", false)(m, x, o); s != "" {
				bad(p.o, s)
			}
		}
	}
}

// boundaryMaps: checkerboards whose number of segs falls on each value around a limit.
func boundaryMaps(lim int, around []int) []*Map {
	n := 1
	for 4*n*n <= lim-64 { // 4 segs per cell
		n++
	}
	n--
	var res []*Map
	base := 4 * n * n
	for _, d := range around {
		if extra := lim + d - base; extra >= 0 {
			res = append(res, bigGrid(n, n, extra))
		}
	}
	return res
}

// lastBigMaps: like boundaryMaps, but the largest subsector is one of the last in the
// seg list, so that it straddles the limit itself. Returns maps and the number found.
func (e *Env) lastBigMaps(lim, pieces, last int, around []int) []*Map {
	n := 1
	for 4*n*n <= lim-64 {
		n++
	}
	n--
	args := []string{"-b-", "-r-", "-nc=d", "--detailnodes=0"}
	probe := bigGrid(n, n, lim-4*n*n)
	r := e.RunMaps(args, []*Map{probe})[0]
	if r.Err != "" {
		return []*Map{probe} // the caller reports it
	}
	t, _, s := treeOf(probe, r.Out)
	if s != "" {
		return []*Map{probe}
	}
	var res []*Map
	seen := map[int]bool{}
	base := bigGrid(n, n, 0)
	for i := len(t.First) - 1; i >= 0 && i >= len(t.First)-last; i-- {
		for k := t.First[i]; k < t.First[i]+t.Count[i]; k++ {
			l := t.Segs[k].Line
			if l < len(base.Lines) && base.Lines[l].Left == NoSide && !seen[l] {
				seen[l] = true
				for _, d := range around {
					res = append(res, bigGridAt(n, n, lim+d-4*n*n, l, pieces))
				}
				break
			}
		}
	}
	return res
}

func init() {
	checks["C03"] = func(e *Env) {
		e.R.Rule = "one case = one map under one format/layout/partitioner; lumps are decoded completely and compared with the other formats"
		fams := geoFamilies(e.Thorough())
		ms := collect(fams[0], fams[1])
		if e.Thorough() {
			ms = collect(fams...)
		}
		tl := collect(tileFamily("tile2x1", 2, 1, 2, 3, 4, idMat, 2, true, 2), tileFamily("tile2x1w", 2, 1, 3, 2, 3, wildMat, 1, false, 2))
		ms = append(ms, tl...)
		type job struct {
			base []string
			self func(m *Map, o *OutMap) string
			alts []groupAlt
			maps []*Map
		}
		algos := []string{"", "a=2", "m=3"}
		if e.Thorough() {
			algos = append(algos, "a=4", "a=1", "a=3")
		}
		var jobs []job
		for _, al := range algos {
			n := func(c string, more ...string) []string {
				return append([]string{"-b-", "-r-", "-n" + strings.Replace(al, "m=3", "m=3a=2", 1) + c}, more...)
			}
			un := "--unreversenodes"
			va := []groupAlt{
				{n("c=v", "--detailnodes=1", un), sameTree("vanilla", true)},
				{n("c=d"), sameTree("deep", false)},
				{n("c=d", un), sameTree("deep", true)},
				{n("c=D", "--detailnodes=1"), sameLumps(nodeLumps)},
				{n("c=X", "--detailnodes=1"), sameLumps(nodeLumps)},
				{n("c=Xt=1", "--detailnodes=1"), sameLumps(nodeLumps)},
				{n("c=Z", "--detailnodes=1"), sameLumps(nodeLumps)},
				{n("c=V", "--detailnodes=1"), sameLumps(nodeLumps)},
			}
			xa := []groupAlt{
				{n("c=x", un), sameTree("xnod", true)},
				{n("c=z"), sameTree("znod", false)},
				{n("c=z1"), sameTree("znod", false)},
				{n("c=z9", un), sameTree("znod", true)},
			}
			if al == "" {
				va = append(va, groupAlt{n("c=v"), sameTreeLoose("vanilla", false)})
				xa = append(xa, groupAlt{n("c=z6"), sameTree("znod", false)})
			}
			for _, c := range chunk(ms, packN) {
				jobs = append(jobs, job{n("c=v", "--detailnodes=1"), structCheck("vanilla", false), va, c})
				jobs = append(jobs, job{n("c=x"), structCheck("xnod", false), xa, c})
			}
		}
		e.R.Extra["maps"] = len(ms)
		// limits
		var big []*Map
		ar := []int{-2, -1, 0, 1, 2, 3, 4, 5, 6, 7}
		big = append(big, boundaryMaps(65535, ar)...)
		big = append(big, boundaryMaps(32767, []int{-1, 0, 1, 2, 4, 5, 6})...)
		big = append(big, bigGrid(128, 130, 0), bigGrid(60, 270, 100))
		nfull := len(big)
		big = append(big, e.lastBigMaps(65535, 15, 8, []int{20, 30, 40})...)
		big = append(big, e.lastBigMaps(32767, 15, 8, []int{20, 40})...)
		strip := []*Map{strips(32766), strips(32767), strips(32768)}
		nb := len(big)
		e.Parallel(len(jobs)+nb+len(strip), func(i int) {
			switch {
			case i < nb:
				e.overflowCheck(big[i], "", i >= nfull && !e.Thorough())
			case i < nb+len(strip):
				e.overflowCheck(strip[i-nb], "", false)
			default:
				j := jobs[i-nb-len(strip)]
				e.judgeGroup("formats", j.base, j.self, j.alts, j.maps)
			}
		})
	}
}

func sameTreeLoose(format string, unrev bool) func(m *Map, base, o *OutMap) string {
	sc := structCheck(format, unrev)
	return func(m *Map, base, o *OutMap) string { return sc(m, o) }
}
