package main

// C09/C10: meaning of the reject option file (RMB), written from the manual.

import (
	"fmt"
	"strings"
)

type rcmd struct {
	Kind   string // BLIND SAFE INCLUDE EXCLUDE GROUP LENGTH DISTANCE LINE VORTEX PERFECT REPORT ASSERT NOPROCESS or other
	Inv    bool
	Band   bool
	D      [2]int
	A, B   []int
	Source string // NOPROCESS arguments
}

func ilist(a []int) string {
	if len(a) == 1 {
		return fmt.Sprint(a[0])
	}
	return "(" + strings.Trim(fmt.Sprint(a), "[]") + ")"
}

func (c *rcmd) String() string {
	s := ""
	if c.Inv {
		s = "INVERT "
	}
	switch c.Kind {
	case "BLIND", "SAFE":
		if c.Band {
			return fmt.Sprintf("%sBAND %s %d %d %s", s, c.Kind, c.D[0], c.D[1], ilist(c.A))
		}
		return fmt.Sprintf("%s%s %d %s", s, c.Kind, c.D[0], ilist(c.A))
	case "INCLUDE", "EXCLUDE", "VORTEX":
		return fmt.Sprintf("%s %s %s", c.Kind, ilist(c.A), ilist(c.B))
	case "ASSERT":
		return fmt.Sprintf("ASSERT %s %s %d", ilist(c.A), ilist(c.B), c.D[0])
	case "GROUP":
		return fmt.Sprintf("GROUP %d %s", c.D[0], ilist(c.A))
	case "NOPROCESS":
		return strings.TrimSpace("NOPROCESS " + c.Source)
	case "PERFECT":
		return "PERFECT"
	}
	return fmt.Sprintf("%s %d", c.Kind, c.D[0])
}

func rtext(cs []*rcmd) string {
	var b strings.Builder
	for _, c := range cs {
		b.WriteString(c.String())
		b.WriteByte('\n')
	}
	return b.String()
}

// rmbMap: a map with what the oracle needs to know.
type rmbMap struct {
	M     *Map
	N     int
	Two   []int                 // line numbers joining two sectors
	base  map[string][]bool     // key: set of blocked lines; value: visible pairs
	segs  [][][2]Vertex         // boundary of each sector
	sdist map[[2]int][2]float64 // sector pair: least distance, largest line-to-line distance
}

// patternMap: letters are sectors made of square cells, '.' is rock.
func patternMap(name string, cell int, rows ...string) *Map {
	m := &Map{Desc: name}
	max := 0
	at := func(x, y int) int {
		if y < 0 || y >= len(rows) || x < 0 || x >= len(rows[y]) || rows[y][x] == '.' {
			return -1
		}
		return int(rows[y][x] - '0')
	}
	for y := range rows {
		for x := range rows[y] {
			if s := at(x, y); s >= max {
				max = s + 1
			}
		}
	}
	addSectors(m, max)
	h := len(rows)
	line := func(x1, y1, x2, y2, r, l int) {
		if r == l {
			return
		}
		if r < 0 {
			x1, y1, x2, y2, r, l = x2, y2, x1, y1, l, r
		}
		addLine(m, x1*cell, (h-y1)*cell, x2*cell, (h-y2)*cell, r, l)
	}
	for y := 0; y <= h; y++ {
		for x := 0; x <= len(rows[0]); x++ {
			// west edge of the cell: walking down (south) has west on the right
			line(x, y, x, y+1, at(x-1, y), at(x, y))
			// north edge: walking east has south on the right
			line(x, y, x+1, y, at(x, y), at(x, y-1))
		}
	}
	for y := range rows {
		for x := range rows[y] {
			if at(x, y) >= 0 && m.Things == nil {
				m.Things = []Thing{{X: x*cell + cell/2, Y: (h-y)*cell - cell/2, Type: 1, Flags: 7}}
			}
		}
	}
	return m
}

func newRmbMap(m *Map) *rmbMap {
	r := &rmbMap{M: m, N: len(m.Sectors), base: map[string][]bool{}, sdist: map[[2]int][2]float64{}}
	r.segs = make([][][2]Vertex, r.N)
	tr := make([][][2]Vertex, r.N)
	for i, l := range m.Lines {
		sg := [2]Vertex{m.Verts[l.V1], m.Verts[l.V2]}
		var ss []int
		for _, s := range []int{l.Right, l.Left} {
			if s != NoSide {
				ss = append(ss, m.Sides[s].Sector)
			}
		}
		for _, s := range ss {
			r.segs[s] = append(r.segs[s], sg)
			if len(ss) == 2 {
				tr[s] = append(tr[s], sg)
			}
		}
		if len(ss) == 2 && ss[0] != ss[1] {
			r.Two = append(r.Two, i)
		}
	}
	for i := 0; i < r.N; i++ {
		for j := 0; j < r.N; j++ {
			lo, hi := 1e18, 0.0
			for _, a := range r.segs[i] {
				for _, b := range r.segs[j] {
					if d := segSegDist2(a, b); d < lo {
						lo = d
					}
				}
			}
			for _, a := range tr[i] {
				for _, b := range tr[j] {
					if d := segSegDist2(a, b); d > hi {
						hi = d
					}
				}
			}
			r.sdist[[2]int{i, j}] = [2]float64{lo, hi}
		}
	}
	return r
}

// squared distance of two segments that do not cross (exact enough for small maps)
func segSegDist2(a, b [2]Vertex) float64 {
	best := 1e18
	pt := func(p Vertex, s [2]Vertex) {
		dx, dy := float64(s[1].X-s[0].X), float64(s[1].Y-s[0].Y)
		px, py := float64(p.X-s[0].X), float64(p.Y-s[0].Y)
		t := (px*dx + py*dy) / (dx*dx + dy*dy)
		if t < 0 {
			t = 0
		} else if t > 1 {
			t = 1
		}
		qx, qy := px-t*dx, py-t*dy
		if d := qx*qx + qy*qy; d < best {
			best = d
		}
	}
	for k := 0; k < 2; k++ {
		pt(a[k], b)
		pt(b[k], a)
	}
	return best
}

func blockedKey(b map[int]bool) string {
	var s []string
	for i := 0; i < 10000 && len(s) < len(b); i++ {
		if b[i] {
			s = append(s, fmt.Sprint(i))
		}
	}
	return strings.Join(s, ",")
}

// blockedMap: the map with these lines turned into walls.
func (r *rmbMap) blockedMap(b map[int]bool) *Map {
	d := r.M.Clone()
	for i := range b {
		d.Lines[i].Flags = d.Lines[i].Flags&^4 | 1
		d.Lines[i].Left = NoSide
	}
	d.Desc += " walls at " + blockedKey(b)
	return d
}

func (r *rmbMap) transient(b map[int]bool) bool {
	for _, l := range r.Two {
		if !b[l] {
			return true
		}
	}
	return false
}

const far = 65535

// dist: number of two-sided lines to cross between the parts of a partition
// (rep gives the part of each sector).
func (r *rmbMap) dist(b map[int]bool, rep []int) [][]int {
	d := make([][]int, r.N)
	adj := make([]map[int]bool, r.N)
	for i := range adj {
		adj[i] = map[int]bool{}
	}
	for _, l := range r.Two {
		if b[l] {
			continue
		}
		x, y := r.M.Sides[r.M.Lines[l].Right].Sector, r.M.Sides[r.M.Lines[l].Left].Sector
		x, y = rep[x], rep[y]
		if x != y {
			adj[x][y], adj[y][x] = true, true
		}
	}
	for i := range d {
		row := make([]int, r.N)
		for j := range row {
			row[j] = far
		}
		row[rep[i]] = 0
		q := []int{rep[i]}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			for y := range adj[x] {
				if row[y] == far {
					row[y] = row[x] + 1
					q = append(q, y)
				}
			}
		}
		for j := range row {
			row[j] = row[rep[j]]
		}
		d[i] = row
	}
	return d
}

type rmbWant struct {
	L, U    []bool // must be visible; may be visible
	Dist    [][]int
	Reports []int
	Sym     bool
}

type bandState struct {
	any, band, inv, norm bool
	ban                  [2]int
	binv                 bool // inverted band
	iv, nv               int
}

// hides: 1 hidden, 0 not, 2 either, for a sector at e edges.
func (s *bandState) hides(e int) int {
	if !s.any {
		return 0
	}
	yes := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	if s.band {
		// the manual contradicts itself on sectors exactly <From> sectors away
		// (counting both ends): the first member of the band or the last before it
		if e == s.ban[0]-1 {
			return 2
		}
		in := e >= s.ban[0] && e < s.ban[1]
		return yes(in != s.binv)
	}
	n, i := s.norm && e >= s.nv, s.inv && e < s.iv
	if s.norm && s.inv && s.iv > s.nv {
		return yes(n && i)
	}
	return yes(n || i)
}

// blockedBy collects the lines named by LINE.
func (r *rmbMap) blockedBy(cs []*rcmd) map[int]bool {
	b := map[int]bool{}
	for _, c := range cs {
		for _, l := range r.Two {
			if c.Kind == "LINE" && c.D[0] == l {
				b[l] = true
			}
		}
	}
	return b
}

func (r *rmbMap) groups(cs []*rcmd) (rep []int, members func(int) []int) {
	rep = make([]int, r.N)
	for i := range rep {
		rep[i] = i
	}
	for _, c := range cs {
		if c.Kind != "GROUP" {
			continue
		}
		g := c.D[0]
		if g < 0 || g >= r.N || rep[g] != g {
			continue
		}
		for _, s := range c.A {
			if s < 0 || s >= r.N || s == g || rep[s] != s {
				continue
			}
			for i := range rep {
				if rep[i] == s {
					rep[i] = g
				}
			}
		}
	}
	return rep, func(i int) []int {
		if rep[i] != i {
			return []int{i}
		}
		var o []int
		for j, p := range rep {
			if p == i {
				o = append(o, j)
			}
		}
		return o
	}
}

// expect evaluates default options followed by the map's own. raw is the table
// NOPROCESS loaded (nil: built).
func (r *rmbMap) expect(def, loc []*rcmd, raw []bool) *rmbWant {
	cs := append(append([]*rcmd{}, def...), loc...)
	n := r.N
	w := &rmbWant{}
	rep, members := r.groups(cs)
	grouped := false
	for i, p := range rep {
		grouped = grouped || p != i
	}
	blocked := r.blockedBy(cs)
	last := func(kind string) (int, bool) {
		for i := len(cs) - 1; i >= 0; i-- {
			if cs[i].Kind == kind {
				return cs[i].D[0], true
			}
		}
		return 0, false
	}
	distance, hasDistance := last("DISTANCE")
	length, hasLength := last("LENGTH")
	asym := false
	for _, c := range cs {
		switch c.Kind {
		case "BLIND", "SAFE", "INCLUDE", "EXCLUDE":
			asym = true
		}
	}
	own := make([]int, n)
	for i := range own {
		own[i] = i
	}
	var L, U []bool
	if raw != nil {
		L, U = append([]bool{}, raw...), append([]bool{}, raw...)
		asym = true
		w.Dist = make([][]int, n)
		for i := range w.Dist {
			w.Dist[i] = make([]int, n)
			for j := range w.Dist[i] {
				if rep[i] != rep[j] {
					w.Dist[i][j] = 1 // only 0 against not 0 matters
				}
			}
		}
	} else {
		w.Dist = r.dist(blocked, rep)
		plain := r.dist(blocked, own)
		var t []bool
		if !r.transient(blocked) && len(blocked) > 0 {
			t = make([]bool, n*n)
			for i := 0; i < n; i++ {
				t[i*n+i] = true
			}
		} else {
			t = r.base[blockedKey(blocked)]
			if t == nil {
				panic("no base for " + blockedKey(blocked))
			}
		}
		L, U = append([]bool{}, t...), append([]bool{}, t...)
		if !r.transient(blocked) && (hasDistance || hasLength) {
			// the all-visible table of such levels is a convention
			for i := range L {
				L[i] = i/n == i%n
			}
		}
		if hasDistance {
			d2 := float64(distance) * float64(distance)
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					sd := r.sdist[[2]int{i, j}]
					if plain[i][j] > 2 && sd[1] >= d2 {
						L[i*n+j] = false
					}
					if plain[i][j] > 2 && sd[0] > d2 {
						U[i*n+j] = false
					}
				}
			}
		}
		close := func(t []bool) []bool {
			o := make([]bool, n*n)
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					o[i*n+j] = rep[i] == rep[j]
					for a := 0; a < n; a++ {
						for b := 0; b < n; b++ {
							if rep[a] == rep[i] && rep[b] == rep[j] && t[a*n+b] {
								o[i*n+j] = true
							}
						}
					}
				}
			}
			return o
		}
		if grouped && (hasDistance || len(blocked) > 0) {
			if hasDistance {
				// sectors of a group count as one when sectors in between are counted
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						if w.Dist[i][j] <= 2 && t[i*n+j] {
							U[i*n+j] = true
						}
					}
				}
			}
			L, U = close(L), close(U)
		}
		if _, any := last("LINE"); any && grouped {
			U = close(U) // LINE for a line that is not there
		}
		if hasLength {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if i == j {
						continue
					}
					if e := w.Dist[i][j]; e > length {
						L[i*n+j] = false
						if plain[i][j] > 1 {
							U[i*n+j] = false
						}
					}
				}
			}
			if grouped {
				U = close(U)
			}
		}
	}
	// blindness and safety
	st := map[string][]bandState{"BLIND": make([]bandState, n), "SAFE": make([]bandState, n)}
	complexOnly := raw != nil
	for _, c := range cs {
		ss, ok := st[c.Kind]
		if !ok {
			continue
		}
		if complexOnly && (c.Band || c.D[0] > 1) {
			continue // needs neighbours, not known under NOPROCESS
		}
		for _, a := range c.A {
			if a < 0 || a >= n {
				continue
			}
			for i, p := range rep {
				if p != rep[a] {
					continue
				}
				s := &ss[i]
				switch {
				case c.Band:
					*s = bandState{any: true, band: true, ban: c.D, binv: c.Inv}
				case s.band:
				case c.Inv:
					s.any, s.inv, s.iv = true, true, c.D[0]
				default:
					s.any, s.norm, s.nv = true, true, c.D[0]
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			for _, h := range []int{st["BLIND"][i].hides(w.Dist[i][j]), st["SAFE"][j].hides(w.Dist[j][i])} {
				if h != 0 {
					L[i*n+j] = false
				}
				if h == 1 {
					U[i*n+j] = false
				}
			}
		}
	}
	// VORTEX
	var vs [][2][]int
	for _, c := range cs {
		if c.Kind == "VORTEX" {
			var v [2][]int
			for k, l := range [][]int{c.A, c.B} {
				for _, s := range l {
					if s >= 0 && s < n {
						v[k] = append(v[k], members(s)...)
					}
				}
			}
			vs = append(vs, v)
		}
	}
	if len(vs) > 0 {
		step := func(t []bool) []bool {
			o := append([]bool{}, t...)
			sees := func(a, b []int) bool {
				for _, x := range a {
					for _, y := range b {
						if t[x*n+y] {
							return true
						}
					}
				}
				return false
			}
			mark := func(a, b []int) {
				for _, x := range a {
					for _, y := range b {
						o[x*n+y] = true
					}
				}
			}
			for i, v := range vs {
				mark(v[0], v[1])
				mark(v[1], v[0])
				for k := 0; k < 2; k++ {
					for x := 0; x < n; x++ {
						for y := 0; y < n; y++ {
							if sees([]int{x}, v[k]) && sees(v[1-k], []int{y}) {
								o[x*n+y] = true
							}
						}
					}
					for j, u := range vs {
						for q := 0; q < 2 && i != j; q++ {
							if sees(v[k], u[q]) {
								mark(v[k], u[1-q])
								mark(v[1-k], u[q])
								mark(v[1-k], u[1-q])
							}
						}
					}
				}
			}
			return o
		}
		L = step(L)
		for {
			o := step(U)
			same := true
			for i := range o {
				same = same && o[i] == U[i]
			}
			U = o
			if same {
				break
			}
		}
	}
	for _, kind := range []string{"INCLUDE", "EXCLUDE"} {
		for _, c := range cs {
			if c.Kind != kind {
				continue
			}
			for _, a := range c.A {
				for _, b := range c.B {
					if a < 0 || a >= n || b < 0 || b >= n {
						continue
					}
					for _, x := range members(a) {
						for _, y := range members(b) {
							L[x*n+y], U[x*n+y] = kind == "INCLUDE", kind == "INCLUDE"
						}
					}
				}
			}
		}
	}
	w.L, w.U, w.Sym = L, U, !asym
	if raw == nil {
		for _, part := range [][]*rcmd{loc, def} {
			for _, c := range part {
				if c.Kind == "REPORT" {
					w.Reports = append(w.Reports, c.D[0])
				}
			}
			if len(w.Reports) > 0 {
				break
			}
		}
	}
	return w
}

// judge compares a table (hidden bits) with the expectation.
func (w *rmbWant) judge(hidden []bool) string {
	n := len(w.Dist)
	for i, h := range hidden {
		if h && w.L[i] {
			return fmt.Sprintf("monsters in sector %d must be able to see sector %d, but the table hides it", i/n, i%n)
		}
		if !h && !w.U[i] {
			return fmt.Sprintf("sector %d must be hidden from sector %d, but the table shows it", i%n, i/n)
		}
		if w.Sym && h != hidden[i%n*n+i/n] {
			return fmt.Sprintf("pair %d,%d is hidden one way only without an option that does so", i/n, i%n)
		}
	}
	return ""
}
