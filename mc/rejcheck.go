package main

// C07 (nothing visible is hidden) and C08 (size, symmetry, exactness) of REJECT.

import (
	"fmt"
	"strings"
	"sync"
)

type visCache struct {
	sync.Mutex
	m map[*Map][]bool
}

var losCache, strictCache, looseCache = visCache{m: map[*Map][]bool{}}, visCache{m: map[*Map][]bool{}}, visCache{m: map[*Map][]bool{}}

func (c *visCache) get(m *Map, cut float64) []bool {
	c.Lock()
	v := c.m[m]
	c.Unlock()
	if v == nil {
		v = m.Visibility(m.SeenAt, cut)
		c.Lock()
		c.m[m] = v
		c.Unlock()
	}
	return v
}

func (m *Map) visible() []bool { return losCache.get(m, 0) }

// loose: visible when corners may be shaved a little (the program works with
// whole-unit points on the way)
func (m *Map) loose() []bool { return looseCache.get(m, 2) }

// strict: visible with some room to spare beside the corners.
func (m *Map) strict() []bool { return strictCache.get(m, -1.5) }

func losConservative(m *Map, o *OutMap) string {
	r, s := rejectBits(m, o)
	if s != "" {
		return s
	}
	n := len(m.Sectors)
	v := m.visible()
	for i := range v {
		if v[i] && r[i] && (!strings.HasPrefix(m.Desc, "tunnel") || m.strict()[i]) {
			return fmt.Sprintf("sectors %d and %d are hidden from each other although a sight line exists", i/n, i%n)
		}
	}
	return ""
}

// hasTransient: some two-sided line joins two sectors.
func (m *Map) hasTransient() bool {
	for _, l := range m.Lines {
		if l.Right != NoSide && l.Left != NoSide && m.Sides[l.Right].Sector != m.Sides[l.Left].Sector {
			return true
		}
	}
	return false
}

// selfish: sectors with two-sided lines that have the sector on both sides; they
// may be left visible to all.
func (m *Map) selfish() map[int]bool {
	r := map[int]bool{}
	for _, l := range m.Lines {
		if l.Right != NoSide && l.Left != NoSide && m.Sides[l.Right].Sector == m.Sides[l.Left].Sector {
			r[m.Sides[l.Right].Sector] = true
		}
	}
	return r
}

// rejectShape: size, symmetry and, for sectors without a chain of two-sided
// lines between them, hiding.
func rejectShape(m *Map, o *OutMap) string {
	open := m.selfish()
	r, s := rejectBits(m, o)
	if s != "" {
		return s
	}
	n := len(m.Sectors)
	for i := 0; i < n; i++ {
		if r[i*n+i] {
			return fmt.Sprintf("sector %d does not see itself", i)
		}
		for j := 0; j < i; j++ {
			if r[i*n+j] != r[j*n+i] {
				return fmt.Sprintf("pair %d,%d is hidden one way only", i, j)
			}
		}
	}
	if !m.hasTransient() {
		for i := range r {
			if r[i] {
				return "level without lines between sectors: table is not zero-filled"
			}
		}
		return ""
	}
	c := m.components()
	for i := range r {
		if a, b := i/n, i%n; !r[i] && c[a] != c[b] && !open[a] && !open[b] {
			return fmt.Sprintf("sectors %d and %d are visible to each other but no chain of two-sided lines joins them", a, b)
		}
	}
	return ""
}

func losExact(m *Map, o *OutMap) string {
	if s := rejectShape(m, o); s != "" {
		return s
	}
	// where walls with several others' vertices on a common straight line meet in one
	// vertex, the program keeps sight lines of zero width
	if !m.hasTransient() || strings.HasPrefix(m.Desc, "t2x2all") && strings.Contains(m.Desc, "merge=2") {
		return ""
	}
	r, _ := rejectBits(m, o)
	n := len(m.Sectors)
	open := m.selfish()
	for i, v := range m.visible() {
		if !v && !r[i] && !m.loose()[i] && !open[i/n] && !open[i%n] {
			return fmt.Sprintf("sectors %d and %d are marked visible although no sight line exists", i/n, i%n)
		}
	}
	return ""
}

func noTJ(ms []*Map) []*Map {
	var r []*Map
	for _, m := range ms {
		if !m.tjunction() {
			r = append(r, m)
		}
	}
	return r
}

var skews = [][4]int{{1, 0, 0, 1}, {2, 1, -1, 2}, {1, 1, 0, 1}, {2, -1, 1, 1}, {-1, 2, -2, -1}}

// transformed moves all vertices by an integer matrix (sight is preserved).
func (m *Map) transformed(t [4]int) *Map {
	if t == [4]int{1, 0, 0, 1} {
		return m
	}
	d := *m
	d.Verts = append([]Vertex{}, m.Verts...)
	for i, v := range d.Verts {
		d.Verts[i] = Vertex{t[0]*v.X + t[1]*v.Y, t[2]*v.X + t[3]*v.Y}
	}
	d.Things = append([]Thing{}, m.Things...)
	for i := range d.Things {
		d.Things[i].X, d.Things[i].Y = t[0]*m.Things[i].X+t[1]*m.Things[i].Y, t[2]*m.Things[i].X+t[3]*m.Things[i].Y
	}
	d.Desc = fmt.Sprintf("%s x%v", m.Desc, t)
	return &d
}

// pillar adds a solid block inside room sector s.
func pillar(m *Map, x, y, w, h, s int) {
	addLine(m, x, y, x+w, y, s, -1)
	addLine(m, x+w, y, x+w, y+h, s, -1)
	addLine(m, x+w, y+h, x, y+h, s, -1)
	addLine(m, x, y+h, x, y, s, -1)
}

// roomMaps: every door pattern of a 2x2 raster of rooms with every set of pillars,
// and door patterns of a 3x3 raster, under several integer transformations.
func roomMaps(thorough bool) []*Map {
	var res []*Map
	for bits := 0; bits < 16; bits++ {
		for pl := 0; pl < 16; pl++ {
			for off := 0; off < 2; off++ {
				for ps := 0; ps < 3; ps++ {
					m := doorMap(2, 2, func(i int) bool { return bits>>uint(i)&1 == 1 }, off, fmt.Sprintf("rooms 2x2 doors %x pillars %x at %d off %d", bits, pl, ps, off))
					for k := 0; k < 4; k++ {
						if pl>>uint(k)&1 == 1 {
							x, y := (k%2)*112, (k/2)*112
							pillar(m, x+[]int{40, 20, 8}[ps], y+[]int{32, 24, 68}[ps], []int{16, 40, 60}[ps], []int{24, 16, 12}[ps], k)
						}
					}
					n := (bits + pl + off + ps) % len(skews)
					for i, t := range skews {
						if thorough || i == 0 || i == n {
							res = append(res, m.transformed(t))
						}
					}
				}
			}
		}
	}
	step := 11
	if thorough {
		step = 1
	}
	for bits := 0; bits < 4096; bits += step {
		for off := 0; off < 2; off++ {
			m := doorMap(3, 3, func(i int) bool { return bits>>uint(i)&1 == 1 }, off, fmt.Sprintf("rooms 3x3 doors %x off %d", bits, off))
			n := bits / step % len(skews)
			for i, t := range skews {
				if thorough || i == n {
					res = append(res, m.transformed(t))
				}
			}
		}
	}
	return res
}

// selfRefRooms: the rooms of selfRefFamily with a door, a bent passage and a second
// room behind it, and an unconnected third room.
func selfRefRooms(n, cell int, thorough bool) []*Map {
	var res []*Map
	selfRefFamily("selfref", n, cell, true).Gen(func(m *Map) {
		for v := 0; v < 2; v++ {
			d := *m
			d.Lines = append([]Line{}, m.Lines...)
			d.Sides = append([]Side{}, m.Sides...)
			d.Verts = append([]Vertex{}, m.Verts...)
			w := (n + 2) * cell
			addSectors(&d, 4) // 2 passage, 3 bend, 4 second room, 5 unconnected
			// the east wall (line 2: w,w -> w,0) gets an opening
			lo, hi := w/2-8, w/2+24
			if v == 1 {
				lo, hi = 8, 40
			}
			d.Lines = append(d.Lines[:2:2], d.Lines[3:]...)
			addLine(&d, w, w, w, hi, 0, -1)
			addLine(&d, w, lo, w, 0, 0, -1)
			addLine(&d, w, hi, w, lo, 0, 2)
			x := w + 64
			addLine(&d, w, hi, x, hi, 2, -1)
			addLine(&d, x, lo, w, lo, 2, -1)
			addLine(&d, x, hi, x, lo, 2, 3)
			// the bend goes up
			addLine(&d, x, hi, x, hi+200, 3, -1)
			addLine(&d, x+40, hi+200, x+40, lo, 3, -1)
			addLine(&d, x+40, lo, x, lo, 3, -1)
			addLine(&d, x, hi+200, x+40, hi+200, 3, 4)
			// second room
			y := hi + 200
			addLine(&d, x, y, x-80, y, 4, -1)
			addLine(&d, x-80, y, x-80, y+100, 4, -1)
			addLine(&d, x-80, y+100, x+120, y+100, 4, -1)
			addLine(&d, x+120, y+100, x+120, y, 4, -1)
			addLine(&d, x+120, y, x+40, y, 4, -1)
			// unconnected room
			addLine(&d, -200, 0, -200, 80, 5, -1)
			addLine(&d, -200, 80, -120, 80, 5, -1)
			addLine(&d, -120, 80, -120, 0, 5, -1)
			addLine(&d, -120, 0, -200, 0, 5, -1)
			in := map[[2]int]bool{}
			for k := 0; k < n*n; k++ {
				if m.Desc[len("selfref ")+k] == '1' {
					in[[2]int{k % n, k / n}] = true
				}
			}
			ly, hy := lo, hi
			d.SeenAt = func(px, py float64) int {
				fx, fy := px, py
				switch {
				case fx > 0 && fy > 0 && fx < float64(w) && fy < float64(w):
					i, j := int(fx)/cell-1, int(fy)/cell-1
					if in[[2]int{i, j}] {
						return 1
					}
					return 0
				case fx > float64(w) && fx < float64(x) && fy > float64(ly) && fy < float64(hy):
					return 2
				case fx > float64(x) && fx < float64(x+40) && fy > float64(ly) && fy < float64(y):
					return 3
				case fx > float64(x-80) && fx < float64(x+120) && fy > float64(y) && fy < float64(y+100):
					return 4
				case fx > -200 && fx < -120 && fy > 0 && fy < 80:
					return 5
				}
				return -1
			}
			d.Desc = fmt.Sprintf("%s in room %d, opening %d", m.Desc, n, v)
			res = append(res, &d)
		}
	})
	return res
}

var rejModes = [][]string{{"-r"}, {"-rg-"}, {"-rs=1"}, {"-rs=2"}, {"-rs=3"}, {"-rs=2", "--nosymm"}, {"-rg-s=2", "--nosymm"}}

func rejArgs(a []string) []string { return append([]string{"-n-", "-b-"}, a...) }

func init() {
	checks["C07"] = func(e *Env) {
		e.R.Rule = "one case = one map under one reject mode; every sector pair is compared with the exact line-of-sight relation"
		grid := noTJ(append(collect(geoFamilies(e.Thorough())...), collect(
			tileFamily("tile2x1", 2, 1, 2, 3, 4, idMat, 2, true, 2), tileFamily("tile2x1w", 2, 1, 3, 2, 3, wildMat, 1, true, 2))...))
		rooms := append(roomMaps(e.Thorough()), tunnels(e.Thorough())...)
		selfs := selfRefRooms(2, 48, e.Thorough())
		selfs = append(selfs, selfRefRooms(3, 32, e.Thorough())...)
		var jobs []mapJob
		// a vertex inside a wall is outside of the property; this one is a known finding
		tileFamily("tile2x1w", 2, 1, 3, 2, 3, wildMat, 1, true, 2).Gen(func(m *Map) {
			if strings.Contains(m.Desc, "cells=[0 1 0 1 2 3 2 3 4 5 4 5 6 7 6 7 8 9 8 9 10 11 10 11]") {
				m.Desc = "tile2x1w: " + strings.TrimPrefix(m.Desc, "tile2x1w: ")
				jobs = append(jobs, mapJob{"vertex inside a wall", rejArgs(rejModes[0]), []*Map{m}, losConservative})
			}
		})
		for _, a := range rejModes {
			for _, c := range chunk(append(append([]*Map{}, rooms...), grid...), 200) {
				jobs = append(jobs, mapJob{"los", rejArgs(a), c, losConservative})
			}
			if a[0] != "-rs=3" { // mode 3 is told to take no line for a self-referencing one
				for _, c := range chunk(selfs, 200) {
					jobs = append(jobs, mapJob{"self-referencing sectors", rejArgs(a), c, losConservative})
				}
			}
		}
		e.runJobs(jobs)
	}
	checks["C08"] = func(e *Env) {
		e.R.Rule = "one case = one map under one reject mode; every ordered sector pair is judged for symmetry, self-visibility, connectivity and, on the exact families, against line of sight"
		grid := noTJ(append(collect(geoFamilies(e.Thorough())...), collect(tileFamily("tile2x1w", 2, 1, 3, 2, 3, wildMat, 1, true, 2))...))
		rooms := append(roomMaps(e.Thorough()), tunnels(e.Thorough())...)
		selfs := selfRefRooms(2, 48, e.Thorough())
		selfs = append(selfs, selfRefRooms(3, 32, e.Thorough())...)
		var jobs []mapJob
		for _, a := range rejModes {
			for _, c := range chunk(grid, 200) {
				jobs = append(jobs, mapJob{"exact", rejArgs(a), c, losExact})
			}
			for _, c := range chunk(rooms, 200) {
				jobs = append(jobs, mapJob{"shape", rejArgs(a), c, losExact})
			}
			for _, c := range chunk(selfs, 200) {
				jobs = append(jobs, mapJob{"self-referencing sectors", rejArgs(a), c, func(m *Map, o *OutMap) string {
					return rejectShape(m, o)
				}})
			}
		}
		e.runJobs(jobs)
	}
}

// tunnelMaps: a tunnel whose floor and ceiling run through every combination of n
// cross-sections; every stretch between two cross-sections is a sector.
func tunnelMaps(n int, prof [][2]int, dx []int, every int) []*Map {
	var res []*Map
	c := make([]int, n)
	for k := 0; ; k++ {
		if k%every == 0 {
			m := &Map{}
			addSectors(m, n-1)
			x := 0
			for i := 0; i+1 < n; i++ {
				w := dx[(i+k)%len(dx)]
				a, b := prof[c[i]], prof[c[i+1]]
				addLine(m, x, a[1], x+w, b[1], i, -1)
				addLine(m, x+w, b[0], x, a[0], i, -1)
				if i == 0 {
					addLine(m, x, a[0], x, a[1], 0, -1)
				}
				if i+2 == n {
					addLine(m, x+w, b[1], x+w, b[0], i, -1)
				} else if (i+k)%2 == 0 {
					addLine(m, x+w, b[1], x+w, b[0], i, i+1)
				} else {
					addLine(m, x+w, b[0], x+w, b[1], i+1, i)
				}
				x += w
			}
			m.Things = []Thing{{X: 8, Y: (prof[c[0]][0] + prof[c[0]][1]) / 2, Type: 1, Flags: 7}}
			m.Desc = fmt.Sprintf("tunnel %v of %v by %v", c, prof, dx)
			res = append(res, m.transformed(skews[(k/every)%len(skews)]))
		}
		i := 0
		for i < n {
			c[i]++
			if c[i] < len(prof) {
				break
			}
			c[i] = 0
			i++
		}
		if i == n {
			return res
		}
	}
}

func tunnels(thorough bool) []*Map {
	p := [][2]int{{0, 71}, {0, 33}, {37, 71}, {80, 143}, {50, 200}}
	q := [][2]int{{0, 100}, {0, 20}, {90, 111}, {45, 60}}
	dx := []int{64, 90, 41}
	if thorough {
		return append(append(tunnelMaps(6, p, dx, 1), tunnelMaps(7, q, dx, 1)...), tunnelMaps(6, q, []int{30, 200}, 1)...)
	}
	return append(append(tunnelMaps(5, p, dx, 1), tunnelMaps(6, q, dx, 2)...), tunnelMaps(6, p, []int{30, 200}, 7)...)
}
