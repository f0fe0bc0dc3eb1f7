package main

// C21: sectors that host polyobjects.

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

func init() { checks["C21"] = runC21 }

// boxTouch: does the segment touch the square of half-size r around (x,y)?
func boxTouch(x, y, r, x1, y1, x2, y2 float64) bool {
	t0, t1 := 0.0, 1.0
	clip := func(p, q float64) bool {
		if p == 0 {
			return q >= 0
		}
		t := q / p
		if p < 0 {
			t0 = math.Max(t0, t)
		} else {
			t1 = math.Min(t1, t)
		}
		return t0 <= t1
	}
	dx, dy := x2-x1, y2-y1
	return clip(-dx, x1-(x-r)) && clip(dx, x+r-x1) && clip(-dy, y1-(y-r)) && clip(dy, y+r-y1)
}

// poHosts: the sectors (bit set) a spawn spot at (x,y) makes containers: those
// next to the lines that touch the box around the spot, or else the one the
// spot is in. ok is false where the two ways to see it are too close to call.
func poHosts(m *Map, x, y int) (set uint, ok bool) {
	touch := func(r float64) map[int]bool {
		s := map[int]bool{}
		for i, l := range m.Lines {
			a, b := m.Verts[l.V1], m.Verts[l.V2]
			if boxTouch(float64(x), float64(y), r, float64(a.X), float64(a.Y), float64(b.X), float64(b.Y)) {
				s[i] = true
			}
		}
		return s
	}
	in, out := touch(8), touch(12)
	if len(in) != len(out) {
		return 0, false
	}
	for i := range in {
		for side := 0; side < 2; side++ {
			if s := m.sideSector(i, side); s >= 0 {
				set |= 1 << uint(s)
			}
		}
	}
	if len(in) == 0 {
		if s := m.Truth(float64(x)+0.21, float64(y)+0.37); s >= 0 {
			set = 1 << uint(s)
		}
	}
	return set, true
}

type poSpot struct {
	x, y int
	set  uint
}

// poSpots: spots in and around the map: a grid of the given step, plus the
// heights of all vertices.
func poSpots(m *Map, step int) []poSpot {
	x0, y0, x1, y1 := m.bounds()
	xs, ys := map[int]bool{}, map[int]bool{}
	for x := x0 - 30; x <= x1+30; x += step {
		xs[x] = true
	}
	for y := y0 - 30; y <= y1+30; y += step {
		ys[y] = true
	}
	for _, v := range m.Verts {
		ys[v.Y] = true
	}
	var r []poSpot
	for x := x0 - 30; x <= x1+30; x++ {
		for y := y0 - 30; y <= y1+30 && xs[x]; y++ {
			if !ys[y] {
				continue
			}
			if s, ok := poHosts(m, x, y); ok {
				r = append(r, poSpot{x, y, s})
			}
		}
	}
	return r
}

// poMap: the map in Hexen format with the given things and one action.
func poMap(b *Map, line, action int, things []Thing) *Map {
	c := b.Clone()
	c.Hexen = true
	if line >= 0 {
		c.Lines[line].Action = action
		c.Lines[line].Args[0] = 1
		c.Desc += fmt.Sprintf("; line %d action %d", line, action)
	}
	for _, t := range things {
		c.Desc += fmt.Sprintf("; thing %d at (%d,%d)", t.Type, t.X, t.Y)
	}
	c.Things = append(c.Things, things...)
	return c
}

// poWhole: no node splits a line around a container, on the container's side,
// while another line of that node is a partition that splits none.
func poWhole(set uint) func(m *Map, o *OutMap) string {
	return func(m *Map, o *OutMap) string {
		t, mo, s := treeOf(m, o)
		if s != "" {
			return s
		}
		if s := t.CheckStructure(mo); s != "" {
			return s
		}
		prec := func(line, side int) bool {
			s := m.sideSector(line, side)
			return s >= 0 && set>>uint(s)&1 == 1
		}
		around := func(line, sec int) bool { return m.sideSector(line, 0) == sec || m.sideSector(line, 1) == sec }
		along := func(px, py, dx, dy float64, sec int) bool {
			for i, l := range m.Lines {
				if around(i, sec) {
					a, b := m.Verts[l.V1], m.Verts[l.V2]
					if math.Abs(lineSide(px, py, dx, dy, float64(a.X), float64(a.Y))) < 0.001 && math.Abs(lineSide(px, py, dx, dy, float64(b.X), float64(b.Y))) < 0.001 {
						return true
					}
				}
			}
			return false
		}
		return t.avoidable(m, prec, func(px, py, dx, dy float64, line, side int) bool {
			return along(px, py, dx, dy, m.sideSector(line, side))
		}, "container")
	}
}

type poKey struct {
	base *Map
	set  uint
}

// vaneRooms: sectors that meet in one vertex, with the lines in both orders.
func vaneRooms(rev bool) *Map {
	m := &Map{Desc: fmt.Sprintf("vanes rev=%v", rev)}
	addSectors(m, 3)
	p := [][2]int{{-200, -150}, {-220, 180}, {-90, 210}, {100, 190}, {230, 170}, {190, -160}}
	secs := []int{0, 0, 1, 2, 0, 0}
	type w struct{ x1, y1, x2, y2, r, l int }
	var ws []w
	for i := range p {
		q := p[(i+1)%len(p)]
		s := secs[i]
		switch i {
		case 2:
			s = 1
		case 3:
			s = 2
		default:
			s = 0
		}
		ws = append(ws, w{p[i][0], p[i][1], q[0], q[1], s, -1})
	}
	// the hub at (11,7): lines to the three upper vertices
	hub := [2]int{11, 7}
	ws = append(ws, w{hub[0], hub[1], p[2][0], p[2][1], 1, 0}, w{hub[0], hub[1], p[3][0], p[3][1], 2, 1}, w{hub[0], hub[1], p[4][0], p[4][1], 0, 2})
	if rev {
		for i, j := 0, len(ws)-1; i < j; i, j = i+1, j-1 {
			ws[i], ws[j] = ws[j], ws[i]
		}
	}
	for _, x := range ws {
		addLine(m, x.x1, x.y1, x.x2, x.y2, x.r, x.l)
	}
	cross := func(a, b [2]int, x, y float64) float64 {
		return float64(b[0]-a[0])*(y-float64(a[1])) - float64(b[1]-a[1])*(x-float64(a[0]))
	}
	m.Truth = func(x, y float64) int {
		for i := range p {
			if cross(p[i], p[(i+1)%len(p)], x, y) > 0 {
				return -1
			}
		}
		if cross(hub, p[2], x, y) < 0 && cross(hub, p[3], x, y) > 0 {
			return 1
		}
		if cross(hub, p[3], x, y) < 0 && cross(hub, p[4], x, y) > 0 {
			return 2
		}
		return 0
	}
	m.Things = []Thing{{X: -150, Y: -100, Type: 1, Flags: 7}}
	return m
}

// behind turns the two-sided lines around a sector so that it is at their back.
func behind(b *Map, sec int) *Map {
	c := b.Clone()
	for i := range c.Lines {
		l := &c.Lines[i]
		if l.Left != NoSide && c.Sides[l.Right].Sector == sec {
			l.V1, l.V2, l.Right, l.Left = l.V2, l.V1, l.Left, l.Right
		}
	}
	c.Desc += fmt.Sprintf("; sector %d at the back of its lines", sec)
	return c
}

// islandRooms: a room with an island in the middle and two or three slanted
// pillars whose sides point at the island. st: take every st-th of them.
func islandRooms(st int) []*Map {
	islands := [][][2]int{
		{{160, 170}, {150, 250}, {250, 260}, {240, 150}},
		{{150, 150}, {200, 260}, {260, 170}},
		{{170, 150}, {140, 210}, {190, 270}, {270, 230}, {250, 160}},
	}
	centers := [][2]int{{60, 60}, {70, 200}, {60, 330}, {200, 340}, {340, 330}, {330, 210}, {340, 70}, {210, 60}}
	var thorns [][][2]int
	for _, c := range centers {
		for _, w := range [][2]int{{200, 210}, {185, 195}, {222, 190}} {
			dx, dy := float64(w[0]-c[0]), float64(w[1]-c[1])
			d := math.Hypot(dx, dy)
			at := func(f, n float64) [2]int {
				return [2]int{c[0] + int(math.Round((f*dx-n*dy)/d)), c[1] + int(math.Round((f*dy+n*dx)/d))}
			}
			// counter-clockwise; the first side points at the island
			thorns = append(thorns, [][2]int{at(-25, -4), at(25, 0), at(-20, 17)})
		}
	}
	var r []*Map
	n := 0
	for ii, isl := range islands {
		for i := range thorns {
			for j := 0; j < i; j++ {
				for k := -1; k < j; k++ {
					if i/3 == j/3 || k >= 0 && k/3 == j/3 {
						continue
					}
					n++
					if n%st != 0 {
						continue
					}
					m := &Map{Desc: fmt.Sprintf("island %d with pillars %d %d %d", ii, i, j, k)}
					addSectors(m, 2)
					poly := func(rs, ls int, p [][2]int) {
						for i := range p {
							q := p[(i+1)%len(p)]
							addLine(m, p[i][0], p[i][1], q[0], q[1], rs, ls)
						}
					}
					void := [][][2]int{thorns[i], thorns[j]}
					if k >= 0 {
						void = append(void, thorns[k])
					}
					poly(0, -1, [][2]int{{0, 0}, {0, 400}, {400, 400}, {400, 0}})
					poly(1, 0, isl)
					for _, v := range void {
						poly(0, -1, v)
					}
					in := func(p [][2]int, x, y float64) bool {
						neg, pos := false, false
						for i := range p {
							q := p[(i+1)%len(p)]
							c := float64(q[0]-p[i][0])*(y-float64(p[i][1])) - float64(q[1]-p[i][1])*(x-float64(p[i][0]))
							neg, pos = neg || c < 0, pos || c > 0
						}
						return !(neg && pos)
					}
					m.Truth = func(x, y float64) int {
						if x < 0 || y < 0 || x > 400 || y > 400 {
							return -1
						}
						for _, v := range void {
							if in(v, x, y) {
								return -1
							}
						}
						if in(isl, x, y) {
							return 1
						}
						return 0
					}
					m.Things = []Thing{{X: 20, Y: 20, Type: 1, Flags: 7}}
					r = append(r, m)
				}
			}
		}
	}
	return r
}

func runC21(e *Env) {
	e.R.Rule = "a case is one level with chosen spawn spots, polyobject actions and thing types built once"
	bases := []*Map{vaneRooms(false), vaneRooms(true)}
	add := func(st int, ms []*Map) {
		if e.Thorough() {
			st = (st + 2) / 3
		}
		for i := 0; i < len(ms); i += st {
			b := ms[i]
			bases = append(bases, b, behind(b, i/st%len(b.Sectors)))
		}
	}
	add(431, collect(gridFamily("po3x3", 3, 3, 2, false, nil, mats(idMat), []int{2}, []int{0}, []bool{false}, oddXS, oddYS)))
	add(193, collect(gridFamily("po3x2", 3, 2, 3, false, nil, mats(idMat, shearMat), []int{2}, []int{0, 2}, []bool{false}, oddXS, oddYS)))
	add(331, collect(gridFamily("po2x2", 2, 2, 3, true, []uint{0, 6}, mats(idMat, rotMat), []int{2}, []int{0}, []bool{false}, oddXS, oddYS)))
	st := 47
	if e.Thorough() {
		st = 17
	}
	lite := len(bases)
	for _, b := range islandRooms(st) {
		bases = append(bases, b, behind(b, 1))
	}
	var maps []*Map // everything, with the expected set
	want := map[*Map]poKey{}
	var refs []*Map
	put := func(b *Map, set uint, line, action int, things ...Thing) *Map {
		c := poMap(b, line, action, things)
		want[c] = poKey{b, set}
		maps = append(maps, c)
		return c
	}
	th := func(t int, s poSpot) Thing { return Thing{X: s.x, Y: s.y, Type: t, Flags: 7} }
	used := 0
	for bi, b := range bases {
		step := 79
		if bi < 2 {
			step = 19
		}
		spots := poSpots(b, step)
		rep := map[int]poSpot{} // sector -> a spot inside it
		var void *poSpot
		for i, s := range spots {
			if s.set == 0 {
				void = &spots[i]
			}
			for k := 0; k < len(b.Sectors); k++ {
				if _, ok := rep[k]; !ok && s.set == 1<<uint(k) && !b.nearLine(float64(s.x), float64(s.y), 13) {
					rep[k] = s
				}
			}
		}
		var secs []int
		for k := range rep {
			secs = append(secs, k)
		}
		if len(secs) < 1 || len(b.Sectors) < 2 {
			continue
		}
		used++
		sort.Ints(secs)
		have := uint(0)
		for _, k := range secs {
			have |= 1 << uint(k)
		}
		// the reference of each set: one spot inside each of its sectors
		for pick := uint(0); pick <= have; pick++ {
			if pick&^have != 0 {
				continue
			}
			var ths []Thing
			for _, k := range secs {
				if pick>>uint(k)&1 == 1 {
					ths = append(ths, th(3001, rep[k]))
				}
			}
			c := poMap(b, 0, 1, ths)
			want[c] = poKey{b, pick}
			refs = append(refs, c)
		}
		if bi >= lite && bi%8 > 1 {
			continue
		}
		n := 0
		for _, s := range spots {
			if s.set&^have != 0 {
				continue
			}
			put(b, s.set, n%len(b.Lines), []int{1, 5}[n%2], th([]int{3001, 3002, 9301, 9302}[n/2%4], s))
			n++
		}
		r0 := rep[secs[0]]
		r1 := rep[secs[len(secs)-1]]
		for l := range b.Lines {
			put(b, r0.set, l, 1, th(3001, r0))
			put(b, r1.set, l, 5, th(9302, r1))
		}
		// nothing moves a polyobject: the spots mean nothing
		for _, t := range []int{3001, 3002, 9301, 9302} {
			put(b, 0, -1, 0, th(t, r0))
			for a := 0; a < 256; a++ {
				if a != 1 && a != 5 && (bi < 1 || a < 12 && t == 3001) {
					put(b, 0, 0, a, th(t, r0))
				}
			}
			// ZDoom types win over Hexen ones, wherever they stand
			for _, t2 := range []int{3001, 3002, 9301, 9302} {
				set := r0.set | r1.set
				if t < 9000 && t2 > 9000 {
					set = r1.set
				} else if t > 9000 && t2 < 9000 {
					set = r0.set
				}
				put(b, set, 0, 1, th(t, r0), th(t2, r1))
				put(b, set, 0, 5, th(t2, r1), th(t, r0))
				if void != nil {
					s2 := r0.set
					if t < 9000 && t2 > 9000 {
						s2 = 0
					}
					put(b, s2, 0, 1, th(t, r0), th(t2, *void))
					put(b, s2, 0, 1, th(t2, *void), th(t, r0))
				}
			}
			// other things
			for _, t2 := range []int{1, 3000, 3003, 9300, 9303} {
				put(b, r0.set, 0, 1, th(t2, r1), th(t, r0))
				put(b, 0, 0, 1, th(t2, r1))
			}
		}
	}
	args := [][]string{{"-na=0"}, {"-na=0", "-nf=2", "-nd=0"}, {"-na=1", "-nc=x"}, {"-na=1", "-nf=2", "-nd=0"}, {"-na=2"}, {"-na=2", "-nf=2", "-nd=0", "-nc=x"}, {"-na=3"}, {"-na=3", "-nc=x", "-nf=2", "-nd=0"}, {"-na=4"}, {"-na=4", "-nc=x"}, {"-na=0", "-nf=2", "-nd=0", "-nc=x"}}
	differ, sets := 0, 0
	for ai, a := range args {
		a = append([]string{"-d", "-b-", "-r-"}, a...)
		fam := "containers " + strings.Join(a[3:], " ")
		var jobs []mapJob
		canon := map[poKey]string{}
		chs := chunk(refs, packN)
		outs := make([][]MapResult, len(chs))
		e.Parallel(len(chs), func(i int) { outs[i] = e.RunMaps(a, chs[i]) })
		for i := range chs {
			for k, r := range outs[i] {
				if r.Err != "" {
					continue
				}
				if t, _, s := treeOf(chs[i][k], r.Out); s == "" {
					canon[want[chs[i][k]]] = t.Canon()
				}
			}
		}
		for _, m := range refs {
			k := want[m]
			sets++
			if canon[k] != canon[poKey{k.base, 0}] {
				differ++
			}
		}
		for _, ch := range chunk(refs, packN) {
			jobs = append(jobs, mapJob{fam, a, ch, func(m *Map, o *OutMap) string { return poWhole(want[m].set)(m, o) }})
		}
		for _, ch := range chunk(maps, packN) {
			if !e.Thorough() && ai != 1 && ai != 7 && ai != 8 {
				break // what counts as a container is found out before any picking
			}
			jobs = append(jobs, mapJob{fam, a, ch, func(m *Map, o *OutMap) string {
				t, _, s := treeOf(m, o)
				if s != "" {
					return s
				}
				k := want[m]
				if c, ok := canon[k]; ok && t.Canon() != c {
					return fmt.Sprintf("the tree differs from the one built with a spawn spot well inside each of the sectors that must count as containers (bit set %b)", k.set)
				}
				return ""
			}})
		}
		e.runJobs(jobs)
	}
	// Doom format: imps and demons are not spawn spots
	var doom []*Map
	for bi, b := range bases {
		if bi >= lite && bi%8 > 1 {
			continue
		}
		for _, t := range []int{3001, 3002, 9301} {
			for _, s := range poSpots(b, 97) {
				c := b.Clone()
				c.Lines[0].Action = 1
				c.Things = append(c.Things, th(t, s))
				c.Desc += fmt.Sprintf("; Doom format, thing %d at (%d,%d)", t, s.x, s.y)
				doom = append(doom, c)
				want[c] = poKey{b, 0}
			}
		}
	}
	a := []string{"-d", "-b-", "-r-"}
	base := map[*Map]string{}
	for _, ch := range chunk(bases, packN) {
		for i, r := range e.RunMaps(a, ch) {
			if r.Err == "" {
				if t, _, s := treeOf(ch[i], r.Out); s == "" {
					base[ch[i]] = t.Canon()
				}
			}
		}
	}
	var jobs []mapJob
	for _, ch := range chunk(doom, packN) {
		jobs = append(jobs, mapJob{"doom format", a, ch, func(m *Map, o *OutMap) string {
			t, _, s := treeOf(m, o)
			if s == "" && t.Canon() != base[want[m].base] {
				s = "the tree differs from the one of the level without the monster"
			}
			return s
		}})
	}
	e.runJobs(jobs)
	e.R.Extra["containers"] = map[string]int{"levels": used, "spot_maps": len(maps), "reference_maps": len(refs), "references_where_marking_changes_the_tree": differ, "references_compared": sets, "doom_format": len(doom)}
}
