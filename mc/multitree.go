package main

// C22: multi-tree mode returns the best of its trees, by the order in the manual.

import (
	"fmt"
	"strings"
)

// treeMetric: the documented order, most important first. Lower is better.
type treeMetric [5]int

func (a treeMetric) less(b treeMetric) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func (a treeMetric) String() string {
	return fmt.Sprintf("(split precious lines %d, subsectors %d, height difference %d, height %d, segs %d)", a[0], a[1], a[2], a[3], a[4])
}

func isPrecious(tag int) bool { return tag >= 900 && tag != 998 && tag != 999 }

// metric of a tree; hexen maps have no precious tags.
func (t *Tree) metric(m *Map) treeMetric {
	var r treeMetric
	seen := map[[2]int]bool{}
	for _, s := range t.Segs {
		k := [2]int{s.Line, s.Side}
		if seen[k] && !m.Hexen && isPrecious(m.Lines[s.Line].Tag) {
			r[0] = 1
		}
		seen[k] = true
	}
	r[1], r[4] = len(t.Count), len(t.Segs)
	if len(t.Nodes) == 0 {
		return r
	}
	h := make([]int, len(t.Nodes))
	var height func(n int, leaf bool) int
	height = func(n int, leaf bool) int {
		if leaf {
			return 0
		}
		if h[n] == 0 {
			h[n] = 1 + max(height(t.Nodes[n].Child[0], t.Nodes[n].Leaf[0]), height(t.Nodes[n].Child[1], t.Nodes[n].Leaf[1]))
		}
		return h[n]
	}
	root := t.Nodes[len(t.Nodes)-1]
	a, b := height(root.Child[0], root.Leaf[0]), height(root.Child[1], root.Leaf[1])
	r[2], r[3] = max(a-b, b-a), max(a, b)
	return r
}

// rootKinds: the lines on the partition of the root, as a set of kinds 1 one-sided, 2 two-sided.
func (t *Tree) rootKinds(m *Map) int {
	if len(t.Nodes) == 0 {
		return 3
	}
	n := t.Nodes[len(t.Nodes)-1]
	on := func(v int) bool {
		return (m.Verts[v].X-n.X)*n.DY == (m.Verts[v].Y-n.Y)*n.DX
	}
	k := 0
	for _, l := range m.Lines {
		if on(l.V1) && on(l.V2) {
			if l.Right != NoSide && l.Left != NoSide {
				k |= 2
			} else {
				k |= 1
			}
		}
	}
	return k
}

type mtRun struct {
	args  []string
	m     int // 0 single tree, 1 one-sided, 2 two-sided, 3 all
	roots int // 0 all
}

// mtJudge: all runs of one map; msg "" when every rule holds.
func mtJudge(m *Map, runs []mtRun, outs []*OutMap, prog func(better bool)) (string, int) {
	type res struct {
		t     *Tree
		m     treeMetric
		canon string
	}
	rs := make([]res, len(runs))
	kinds := 0
	for _, l := range m.Lines {
		if l.Right != NoSide && l.Left != NoSide {
			kinds |= 2
		} else {
			kinds |= 1
		}
	}
	for i := range runs {
		t, _, s := treeOf(m, outs[i])
		if s == "" && t.Format == "empty" {
			s = "no nodes were written"
		}
		if s != "" {
			return s, i
		}
		rs[i] = res{t, t.metric(m), t.Canon()}
		if runs[i].m != 0 && runs[i].m&kinds != 0 && rs[i].t.rootKinds(m)&runs[i].m == 0 {
			return fmt.Sprintf("no line of the kind selected by m=%d lies on the partition of the root node", runs[i].m), i
		}
	}
	for i := range runs {
		for j := range runs {
			a, b := runs[i], runs[j]
			// every tree of run j is among the trees of run i
			in := a.m == 3 && a.roots == 0 && (b.m == 3 || b.m&kinds != 0 || b.m == 0) || // all lines
				a.m == b.m && a.m&kinds != 0 && (b.roots != 0 && (a.roots == 0 || a.roots > b.roots) || // more of the best roots
					a.roots >= len(m.Lines) && b.roots == 0)
			if i == j || !in {
				continue
			}
			if rs[j].m.less(rs[i].m) {
				return fmt.Sprintf("the tree %v is worse than %v, which %s found among fewer candidates", rs[i].m, rs[j].m, strings.Join(b.args, " ")), i
			}
			if prog != nil {
				prog(rs[i].m.less(rs[j].m))
			}
			if a.roots != 0 && b.roots != 0 && rs[i].m == rs[j].m && rs[i].canon != rs[j].canon {
				return fmt.Sprintf("the tree is as good as that of %s, which tried fewer roots, but it is not the same tree", strings.Join(b.args, " ")), i
			}
		}
	}
	return "", 0
}

func (e *Env) mtChain(fam string, runs []mtRun, maps []*Map) {
	outs := make([][]*OutMap, len(maps))
	errs := make([]string, len(maps))
	for i := range outs {
		outs[i] = make([]*OutMap, len(runs))
	}
	for r := range runs {
		if e.Stop() {
			return
		}
		for i, q := range e.RunMaps(runs[r].args, maps) {
			outs[i][r] = q.Out
			if q.Err != "" && errs[i] == "" {
				errs[i] = q.Err + " with " + strings.Join(runs[r].args, " ")
			}
		}
	}
	var better, same int64
	for i, m := range maps {
		msg, w := errs[i], 0
		if msg == "" {
			msg, w = mtJudge(m, runs, outs[i], func(b bool) {
				if b {
					better++
				} else {
					same++
				}
			})
		}
		for _, r := range runs {
			e.R.Case(strings.Join(r.args, " ")+m.Desc, true)
		}
		if msg == "" {
			continue
		}
		e.Fail(Violation{Key: hashKey(fam, strings.Join(runs[w].args, " "), m.Desc), Msg: msg + " [" + m.Desc + "]", Args: runs[w].args,
			Files: map[string][]byte{"in.wad": packMaps([]*Map{m})},
			Recheck: func() bool {
				o := make([]*OutMap, len(runs))
				for r := range runs {
					q := e.RunMaps(runs[r].args, []*Map{m})[0]
					if q.Err != "" {
						return true
					}
					o[r] = q.Out
				}
				s, _ := mtJudge(m, runs, o, nil)
				return s != ""
			}})
	}
	e.R.Count("pairs_strictly_better", better)
	e.R.Count("pairs_equal", same)
	e.R.Sample(fam, map[string]any{"runs": len(runs), "first": runs[0].args, "map": maps[0].Desc})
}

func mtRuns(base string, ks []int, more ...string) []mtRun {
	var r []mtRun
	add := func(m, roots int) {
		a := append([]string{"-d", "-b-", "-r-", fmt.Sprintf("%sm=%d", base, m)}, more...)
		if roots > 0 {
			a = append(a, fmt.Sprintf("--roots=%d", roots))
		}
		r = append(r, mtRun{a, m, roots})
	}
	for m := 0; m <= 3; m++ {
		add(m, 0)
		if m == 0 {
			continue
		}
		for i, k := range ks {
			if m == 3 || i%3 == 0 || k == 1000 {
				add(m, k)
			}
		}
	}
	return r
}

func init() {
	checks["C22"] = func(e *Env) {
		e.R.Rule = "one case = one map built in one multi-tree setting; the trees of all settings of a map are compared pairwise by the documented order"
		fams := geoFamilies(e.Thorough())
		all := collect(tileFamily("tile2x1", 2, 1, 2, 3, 4, idMat, 2, true, 2), tileFamily("tile2x1w", 2, 1, 3, 2, 3, wildMat, 1, false, 2))
		sm := collect(fams[0], fams[1], fams[2])
		lg := collect(fams[3:]...)
		k1, k2, k3 := 19, 11, 2
		if e.Thorough() {
			k1, k2, k3 = 3, 5, 1
		}
		maps := append(append(thin(all, k3), thin(sm, k1)...), thin(lg, k2)...)
		var prec []*Map
		for i, m := range thin(maps, 3) {
			for p := 0; p < 3; p++ {
				c := m.Clone()
				n := 0
				for l := range c.Lines {
					c.Lines[l].Tag = 0
					if (l*7+i+p)%5 == 0 {
						c.Lines[l].Tag = []int{900, 997, 1000}[p]
						n++
					}
				}
				c.Desc += fmt.Sprintf(", %d precious lines pattern %d", n, p)
				prec = append(prec, c)
			}
		}
		ks := []int{1, 2, 4, 8, 16, 1000}
		if e.Thorough() {
			ks = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 1000}
		}
		var jobs []func()
		add := func(fam string, runs []mtRun, ms []*Map) {
			for _, c := range chunk(ms, 60) {
				jobs = append(jobs, func() { e.mtChain(fam, runs, c) })
			}
		}
		for a := 0; a <= 4; a++ {
			add("plain", mtRuns(fmt.Sprintf("-na=%d", a), ks), maps)
			add("precious", mtRuns(fmt.Sprintf("-na=%d", a), ks), prec)
			add("extended", mtRuns(fmt.Sprintf("-na=%dc=x", a), ks), thin(maps, 4))
			add("precious extended", mtRuns(fmt.Sprintf("-na=%dc=x", a), ks), thin(prec, 4))
			add("deep", mtRuns(fmt.Sprintf("-na=%dc=d", a), ks, "--speedtree-"), thin(maps, 8))
		}
		for _, swap := range []bool{false, true} {
			for a := 0; a <= 4; a++ {
				if a == 1 || !e.Thorough() && (a == 4 || a == 2 || a == 0 && swap) {
					continue
				}
				alg := fmt.Sprintf("-na=%d", a)
				jobs = append([]func(){func() { e.mtLimits(alg, 90, 32768, swap) }}, jobs...)
				if a == 3 || e.Thorough() {
					jobs = append([]func(){func() { e.mtLimits(alg, 127, 65536, swap) }}, jobs...)
				}
			}
		}
		e.R.Extra["maps"] = map[string]int{"plain": len(maps), "precious": len(prec)}
		e.Parallel(len(jobs), func(i int) { jobs[i]() })
	}
}

// pillarField: n x n square holes in one sector. Line A (upright) runs between two columns
// and its extension cuts one wide precious pillar; line B (level) cuts a whole row of
// pillars. They are the only two-sided lines. pad lines of the field are cut in two.
func pillarField(n, pad int, withA, withB, swap bool) *Map {
	m := &Map{}
	cuts := pad
	addSectors(m, 1)
	line := func(x1, y1, x2, y2, l, tag int) {
		k := 1
		if pad > 0 && l < 0 && tag == 0 {
			k = 2
			pad--
		}
		for i := 0; i < k; i++ {
			xa, ya := x1+(x2-x1)*i/k, y1+(y2-y1)*i/k
			xb, yb := x1+(x2-x1)*(i+1)/k, y1+(y2-y1)*(i+1)/k
			for _, p := range [][2]int{{xa, ya}, {xb, yb}} {
				m.Verts = append(m.Verts, Vertex{p[0], p[1]})
			}
			a := len(m.Verts) - 2
			r := addSide(m, 0, l >= 0)
			lf, fl := NoSide, 1
			if l >= 0 {
				lf, fl = addSide(m, 0, true), 4
			}
			m.Lines = append(m.Lines, Line{V1: a, V2: a + 1, Flags: fl, Tag: tag, Right: r, Left: lf})
		}
	}
	rect := func(x0, y0, x1, y1, tag int, in bool) {
		p := [][2]int{{x0, y0}, {x0, y1}, {x1, y1}, {x1, y0}} // right side inside
		if !in {
			p[1], p[3] = p[3], p[1]
		}
		for i := range p {
			q := p[(i+1)%4]
			line(p[i][0], p[i][1], q[0], q[1], -1, tag)
		}
	}
	W := n * 64
	rect(-64, -64, W+32, W+32, 0, true)
	c := n / 2 // A runs between column c and c+1
	for j := 0; j < n; j++ {
		for i := 0; i < n; i++ {
			if j == n-3 && i == c {
				rect(i*64, j*64, i*64+96, j*64+32, 950, false)
				continue
			}
			if j == n-3 && i == c+1 {
				continue
			}
			rect(i*64, j*64, i*64+32, j*64+32, 0, false)
		}
	}
	tag := func(b bool) int {
		if b {
			return 0
		}
		return 998
	}
	x := c*64 + 48
	y := (n/3)*64 + 16
	if swap {
		line(-40, y, -20, y, 0, tag(withB))
	}
	line(x, 40, x, 56, 0, tag(withA))
	if !swap {
		line(-40, y, -20, y, 0, tag(withB))
	}
	// pillars share vertices only within themselves: join them
	idx := map[Vertex]int{}
	var vs []Vertex
	for i := range m.Lines {
		for _, v := range []*int{&m.Lines[i].V1, &m.Lines[i].V2} {
			p := m.Verts[*v]
			k, ok := idx[p]
			if !ok {
				k = len(vs)
				idx[p] = k
				vs = append(vs, p)
			}
			*v = k
		}
	}
	m.Verts = vs
	m.Things = []Thing{{X: -50, Y: -50, Type: 1, Flags: 7}}
	m.Desc = fmt.Sprintf("field of %dx%d pillars, %d lines cut, A %v B %v swapped %v", n, n, cuts, withA, withB, swap)
	return m
}

// limits: one tree (A) splits precious lines, the other (B) does not but needs more
// vertices and segs. Which of them must come out follows from what fits the format.
func (e *Env) mtLimits(alg string, n, lim int, swap bool) {
	type got struct {
		L    string
		bad  bool
		vert int
		fmtc string
	}
	run := func(m *Map, opt string, more ...string) (got, string) {
		r := e.RunMaps(append([]string{"-d", "-b-", "-r-", alg + "m=2" + opt}, more...), []*Map{m})[0]
		if r.Err != "" {
			return got{}, r.Err
		}
		t, _, s := treeOf(m, r.Out)
		if s == "" && t.Format == "empty" {
			s = "no nodes were written"
		}
		if s != "" {
			return got{}, s
		}
		return got{t.Canon(), t.metric(m)[0] == 1, len(t.VX), t.Format}, ""
	}
	a0, s1 := run(pillarField(n, 0, true, false, swap), "c=d")
	b0, s2 := run(pillarField(n, 0, true, true, swap), "c=d")
	if s1 != "" || s2 != "" || !a0.bad || b0.bad || a0.vert+40 > b0.vert {
		e.R.Count("limit_probe_unusable", 1)
		return
	}
	pads := []int{lim - b0.vert - 1, lim - b0.vert, lim - b0.vert + 1, lim - b0.vert + 2, (2*lim - a0.vert - b0.vert) / 2, lim - a0.vert - 13, lim - a0.vert + 1, lim - a0.vert + 5}
	for _, pad := range pads {
		if pad < 0 || pad > 3*n*n || e.Stop() {
			continue
		}
		judge := func() string {
			m := pillarField(n, pad, true, true, swap)
			a, s := run(pillarField(n, pad, true, false, swap), "c=d")
			if s != "" {
				return s
			}
			// the best tree of all: no limit of the vanilla format counts here
			b, s := run(m, "c=d")
			if s != "" {
				return s
			}
			if !a.bad || b.bad {
				return "" // the maps no longer tell the two trees apart
			}
			aFits, bFits, aNot := a.vert+12 <= lim, b.vert <= lim, a.vert > lim
			if !aFits && !aNot {
				return ""
			}
			type want struct {
				opts []string
				a    bool
				fmtc string
			}
			var ws []want
			if lim == 32768 {
				ws = []want{{[]string{"c=v"}, !bFits && aFits, "vanilla"}, {[]string{"c=V"}, false, "vanilla"}, {[]string{"c=X"}, false, "vanilla"}, {[]string{"c=Z"}, false, "vanilla"}, {[]string{"c=v", "--ableist"}, false, "vanilla"}, {[]string{"c=D"}, false, "vanilla"}}
			} else {
				pick := !bFits && aFits
				if pick || bFits {
					ws = []want{{[]string{"c=v"}, pick, "vanilla"}, {[]string{"c=V"}, pick, "vanilla"}, {[]string{"c=X"}, pick, "vanilla"}, {[]string{"c=D"}, pick, "vanilla"}}
				} else {
					ws = []want{{[]string{"c=X"}, false, "xnod"}, {[]string{"c=Z"}, false, "znod"}, {[]string{"c=D"}, false, "deep"}}
				}
			}
			for _, w := range ws {
				g, s := run(m, w.opts[0], w.opts[1:]...)
				if s != "" {
					return strings.Join(w.opts, " ") + ": " + s
				}
				e.R.Case(fmt.Sprint(alg, n, lim, swap, pad, w.opts), true)
				if w.a {
					e.R.Count("lesser_tree_chosen_because_it_fits", 1)
				}
				if g.fmtc != w.fmtc {
					return fmt.Sprintf("%v: format %s, expected %s (best tree %d vertices, the one that fits %d, limit %d)", w.opts, g.fmtc, w.fmtc, b.vert, a.vert, lim)
				}
				if g.bad != w.a || !w.a && (g.fmtc == "vanilla" || g.fmtc == "deep") && g.L != b.L {
					return fmt.Sprintf("%v: wrong tree chosen, expected the one that %s (best tree %d vertices, the other %d, limit %d)", w.opts, map[bool]string{true: "fits", false: "is best of all"}[w.a], b.vert, a.vert, lim)
				}
			}
			return ""
		}
		if msg := judge(); msg != "" {
			m := pillarField(n, pad, true, true, swap)
			e.Fail(Violation{Key: hashKey("limits", alg, m.Desc), Msg: msg + " [" + m.Desc + "]", Args: []string{"-d", "-b-", "-r-", alg + "m=2"},
				Files: map[string][]byte{"in.wad": packMaps([]*Map{m})}, Recheck: func() bool { return judge() != "" }})
		}
	}
	e.R.Sample("limits", map[string]any{"algorithm": alg, "limit": lim, "swap": swap, "pads": pads})
}
