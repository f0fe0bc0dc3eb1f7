package main

import "fmt"

// The bounded map families shared by the geometry, blockmap and reject checks.

type Family struct {
	Name string
	Gen  func(emit func(*Map))
}

var idMat = [4]int{1, 0, 0, 1}
var rotMat = [4]int{2, 1, -1, 2}
var shearMat = [4]int{3, 1, 1, 2}
var wildMat = [4]int{5, -3, 2, 7}

var oddXS = []int{0, 40, 101, 152, 260}
var oddYS = []int{0, 56, 97, 200, 231}

func gridFamily(name string, w, h, k int, tri bool, diags []uint, mats [][4]int, merges []int, flips []int, selfs []bool, xs, ys []int) Family {
	return Family{name, func(emit func(*Map)) {
		n := w * h
		if tri {
			n *= 2
		}
		if diags == nil {
			diags = []uint{0}
		}
		enumAssign(n, k, func(c []int) {
			for _, dg := range diags {
				for _, mt := range mats {
					for _, mg := range merges {
						for _, fl := range flips {
							for _, sf := range selfs {
								g := &GridSpec{W: w, H: h, Cells: c, Tri: tri, Diag: dg, XS: xs[:w+1], YS: ys[:h+1], Mat: mt, OX: -64, OY: 32, Merge: mg, Self: sf, Flip: fl}
								if m := g.Build(); m != nil {
									emit(m)
								}
							}
						}
					}
				}
			}
		})
	}}
}

func allDiags(n int) []uint {
	var r []uint
	for i := uint(0); i < 1<<uint(n); i++ {
		r = append(r, i)
	}
	return r
}

func mats(m ...[4]int) [][4]int { return m }

// collect gathers a family, dropping maps whose five lumps repeat.
func collect(fams ...Family) []*Map {
	var res []*Map
	seen := map[string]bool{}
	for _, f := range fams {
		f.Gen(func(m *Map) {
			k := string(m.LinesLump()) + "|" + string(m.VertsLump()) + "|" + string(m.SidesLump())
			if seen[k] {
				return
			}
			seen[k] = true
			m.Desc = f.Name + ": " + m.Desc
			res = append(res, m)
		})
	}
	return res
}

// smallFamilies: what every check runs in quick mode.
func geoFamilies(thorough bool) []Family {
	ft := []bool{false}
	both := []bool{false, true}
	f := []Family{
		gridFamily("g2x2", 2, 2, 4, false, nil, mats(idMat, rotMat, shearMat), []int{0, 1, 2}, []int{0, 2}, both, oddXS, oddYS),
		gridFamily("t2x1", 2, 1, 4, true, allDiags(2), mats(idMat, rotMat, wildMat), []int{0, 2}, []int{0, 2}, both, oddXS, oddYS),
		gridFamily("g3x2", 3, 2, 3, false, nil, mats(idMat, wildMat), []int{2}, []int{0}, ft, oddXS, oddYS),
		gridFamily("t2x2", 2, 2, 2, true, []uint{0, 5, 6, 9}, mats(shearMat), []int{2}, []int{0}, ft, oddXS, oddYS),
		gridFamily("g3x3", 3, 3, 2, false, nil, mats(idMat), []int{2}, []int{0}, ft, oddXS, oddYS),
	}
	if thorough {
		f = append(f,
			gridFamily("g2x2all", 2, 2, 4, false, nil, mats(idMat, rotMat, shearMat, wildMat), []int{0, 1, 2}, []int{0, 1, 2}, both, steps(4, 64), steps(4, 64)),
			gridFamily("g3x2all", 3, 2, 6, false, nil, mats(idMat, rotMat, shearMat, wildMat), []int{0, 2}, []int{0, 2}, both, oddXS, oddYS),
			gridFamily("t2x2all", 2, 2, 3, true, allDiags(4), mats(idMat, wildMat), []int{2}, []int{0}, ft, oddXS, oddYS),
			gridFamily("g3x3w", 3, 3, 3, false, nil, mats(rotMat, wildMat), []int{2}, []int{0}, ft, oddXS, oddYS),
			gridFamily("g4x3", 4, 3, 1, false, nil, mats(idMat, wildMat), []int{2}, []int{0}, ft, oddXS, oddYS),
		)
	}
	return f
}

// tileFamily: a W x H block of triangulated cells with every labelling, repeated
// nx by ny times; unique gives every tile its own sectors.
func tileFamily(name string, w, h, k, nx, ny int, mt [4]int, diag uint, unique bool, merge int) Family {
	return Family{name, func(emit func(*Map)) {
		enumAssign(2*w*h, k, func(c []int) {
			mx := 0
			for _, v := range c {
				mx = max(mx, v+1)
			}
			g := &GridSpec{W: w * nx, H: h * ny, Tri: true, Mat: mt, Merge: merge, OX: -300, OY: -200}
			g.XS, g.YS = steps(g.W, 48), steps(g.H, 56)
			for i := range g.XS {
				g.XS[i] += (i % 3) * 5
			}
			for j := range g.YS {
				g.YS[j] += (j % 2) * 7
			}
			for j := 0; j < g.H; j++ {
				for i := 0; i < g.W; i++ {
					for q := 0; q < 2; q++ {
						v := c[2*((j%h)*w+i%w)+q]
						if v >= 0 && unique {
							v += mx * ((j/h)*nx + i/w)
						}
						g.Cells = append(g.Cells, v)
					}
					if diag>>uint((j%h)*w+i%w)&1 == 1 && j*g.W+i < 64 {
						g.Diag |= 1 << uint(j*g.W+i)
					}
				}
			}
			if m := g.Build(); m != nil {
				emit(m)
			}
		})
	}}
}

// selfRefFamily: a room whose interior cells (n x n) are each either ordinary or
// part of a self-referencing sector (two-sided lines with that sector on both sides).
func selfRefFamily(name string, n, cell int, split bool) Family {
	return Family{name, func(emit func(*Map)) {
		for bits := 1; bits < 1<<uint(n*n); bits++ {
			m := &Map{Desc: name}
			addSectors(m, 2)
			w := (n + 2) * cell
			in := func(i, j int) bool { return i >= 0 && j >= 0 && i < n && j < n && bits>>uint(j*n+i)&1 == 1 }
			addLine(m, 0, 0, 0, w, 0, -1)
			addLine(m, 0, w, w, w, 0, -1)
			addLine(m, w, w, w, 0, 0, -1)
			addLine(m, w, 0, 0, 0, 0, -1)
			// cells joined to the outer room (edge-wise)
			open := map[[2]int]bool{}
			var flood func(i, j int)
			flood = func(i, j int) {
				if i < -1 || j < -1 || i > n || j > n || in(i, j) || open[[2]int{i, j}] {
					return
				}
				open[[2]int{i, j}] = true
				flood(i-1, j)
				flood(i+1, j)
				flood(i, j-1)
				flood(i, j+1)
			}
			flood(-1, -1)
			for j := 0; j < n; j++ {
				for i := 0; i < n; i++ {
					if !in(i, j) {
						continue
					}
					x, y := (i+1)*cell, (j+1)*cell
					for _, d := range []struct{ di, dj, x1, y1, x2, y2 int }{{-1, 0, x, y, x, y + cell}, {0, 1, x, y + cell, x + cell, y + cell}, {1, 0, x + cell, y + cell, x + cell, y}, {0, -1, x + cell, y, x, y}} {
						if !in(i+d.di, j+d.dj) {
							k := addLine(m, d.x1, d.y1, d.x2, d.y2, 1, 1)
							for _, s := range []int{m.Lines[k].Right, m.Lines[k].Left} {
								m.Sides[s].Up, m.Sides[s].Low = "-", "-"
							}
							if !open[[2]int{i + d.di, j + d.dj}] {
								m.Lines[k].Tag = 2 // border of a hole
							}
						} else if split && (d.di == 1 || d.dj == 1) {
							k := addLine(m, d.x1, d.y1, d.x2, d.y2, 1, 1)
							for _, s := range []int{m.Lines[k].Right, m.Lines[k].Left} {
								m.Sides[s].Up, m.Sides[s].Low = "-", "-"
							}
							m.Lines[k].Tag = 1 // inner line, may be culled
						}
					}
				}
			}
			m.Things = []Thing{{X: cell / 2, Y: cell / 2, Type: 1, Flags: 7}}
			m.Desc = "selfref " + itob(bits, n*n)
			emit(m)
		}
	}}
}

func itob(b, n int) string {
	s := make([]byte, n)
	for i := range s {
		s[i] = '0' + byte(b>>uint(i)&1)
	}
	return string(s)
}

// selfTwin clears the textures of two-sided lines with one sector on both sides.
func plainSelf(m *Map) *Map {
	for i := range m.Lines {
		l := m.Lines[i]
		if l.Right != NoSide && l.Left != NoSide && m.Sides[l.Right].Sector == m.Sides[l.Left].Sector {
			for _, s := range []int{l.Right, l.Left} {
				m.Sides[s].Up, m.Sides[s].Low, m.Sides[s].Mid = "-", "-", "-"
			}
		}
	}
	return m
}

// bigGrid: a checkerboard of w x h cells; extra one-sided lines are cut in two, one
// after the other, and the line with number focus (if >= 0) is cut into many pieces.
func bigGrid(w, h, extra int) *Map { return bigGridAt(w, h, extra, -1, 0) }

func bigGridAt(w, h, extra, focus, pieces int) *Map {
	g := &GridSpec{W: w, H: h, XS: steps(w, 32), YS: steps(h, 32), Mat: idMat, Cells: make([]int, w*h), OX: -w * 16, OY: -h * 16}
	for i := range g.Cells {
		g.Cells[i] = (i%w + (i / w)) % 2
	}
	m := g.Build()
	cut := func(i int) {
		l := m.Lines[i]
		a, b := m.Verts[l.V1], m.Verts[l.V2]
		m.Verts = append(m.Verts, Vertex{(a.X + b.X) / 2, (a.Y + b.Y) / 2})
		nv := len(m.Verts) - 1
		n := l
		n.V1 = nv
		m.Lines[i].V2 = nv
		sd := m.Sides[l.Right]
		m.Sides = append(m.Sides, sd)
		n.Right = len(m.Sides) - 1
		m.Lines = append(m.Lines, n)
	}
	if focus >= 0 {
		mine := []int{focus}
		for done := 0; done < pieces; {
			for _, i := range append([]int{}, mine...) {
				if done < pieces {
					cut(i)
					mine = append(mine, len(m.Lines)-1)
					done++
				}
			}
		}
		extra -= pieces
	}
	for i := 0; i < len(m.Lines) && extra > 0; i++ {
		l := m.Lines[i]
		if i == focus || l.Right != NoSide && l.Left != NoSide {
			continue
		}
		if a, b := m.Verts[l.V1], m.Verts[l.V2]; a.X-b.X+a.Y-b.Y < 2 && b.X-a.X+b.Y-a.Y < 2 {
			continue
		}
		cut(i)
		extra--
	}
	ns := len(m.Sides)
	if ns > 65000 { // pack equal sidedefs, the format cannot address more
		idx := map[Side]int{}
		var packed []Side
		re := func(s int) int {
			if s == NoSide {
				return s
			}
			k, ok := idx[m.Sides[s]]
			if !ok {
				k = len(packed)
				idx[m.Sides[s]] = k
				packed = append(packed, m.Sides[s])
			}
			return k
		}
		for i := range m.Lines {
			m.Lines[i].Right, m.Lines[i].Left = re(m.Lines[i].Right), re(m.Lines[i].Left)
		}
		m.Sides = packed
	}
	m.Desc = fmt.Sprintf("checkerboard %dx%d with %d line sides, line %d cut %d times", w, h, ns, focus, pieces)
	return m
}
