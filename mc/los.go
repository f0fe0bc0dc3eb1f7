package main

// Exact line-of-sight oracle over 2D maps and the reject checks C07 and C08.

import (
	"fmt"
	"math"
	"sort"
)

const losEps = 1e-7

// Visibility: vis[a*n+b] when some straight line crosses from a point of sector a
// to a point of sector b over two-sided lines only, away from every vertex.
// All cells of the arrangement of lines are covered: each has a line through two
// map vertices at its corner, so the four slight displacements of every such line
// reach all of them.
// cut > 0 lets sight lines shave wall corners by up to cut units, cut < 0 demands
// that they keep clear of the ends of walls by that much.
func (m *Map) Visibility(sectorAt func(x, y float64) int, cut float64) []bool {
	n := len(m.Sectors)
	vis := make([]bool, n*n)
	for i := 0; i < n; i++ {
		vis[i*n+i] = true
	}
	type ln struct {
		x1, y1, x2, y2 float64
		r, l           int
	}
	var lines []ln
	used := map[Vertex]bool{}
	for _, l := range m.Lines {
		a, b := m.Verts[l.V1], m.Verts[l.V2]
		if a == b {
			continue
		}
		used[a], used[b] = true, true
		q := ln{float64(a.X), float64(a.Y), float64(b.X), float64(b.Y), -1, -1}
		if cut < 0 && (l.Right == NoSide || l.Left == NoSide) {
			d := -cut / math.Hypot(q.x2-q.x1, q.y2-q.y1)
			ex, ey := (q.x2-q.x1)*d, (q.y2-q.y1)*d
			q.x1, q.y1, q.x2, q.y2 = q.x1-ex, q.y1-ey, q.x2+ex, q.y2+ey
		}
		if l.Right != NoSide {
			q.r = m.Sides[l.Right].Sector
		}
		if l.Left != NoSide {
			q.l = m.Sides[l.Left].Sector
		}
		lines = append(lines, q)
	}
	var vs []Vertex
	for v := range used {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		if vs[i].X != vs[j].X {
			return vs[i].X < vs[j].X
		}
		return vs[i].Y < vs[j].Y
	})
	type hit struct {
		t    float64
		next int // sector behind
		prev int
		two  bool
	}
	hits := make([]hit, 0, len(lines))
	set := make([]int, 0, n)
	walk := func(px, py, qx, qy float64) {
		dx, dy := qx-px, qy-py
		hits = hits[:0]
		tiny := math.Hypot(dx, dy) * losEps / 1000
		for i := range lines {
			l := &lines[i]
			s1 := (l.x1-px)*dy - (l.y1-py)*dx
			s2 := (l.x2-px)*dy - (l.y2-py)*dx
			if math.Abs(s1) < tiny || math.Abs(s2) < tiny {
				if cut > 0 {
					if l.r < 0 || l.l < 0 {
						continue
					}
				} else {
					return // runs through a vertex
				}
			}
			if (s1 > 0) == (s2 > 0) {
				continue
			}
			u := s1 / (s1 - s2)
			x, y := l.x1+(l.x2-l.x1)*u, l.y1+(l.y2-l.y1)*u
			if cut > 0 && (l.r < 0 || l.l < 0) && (math.Hypot(x-l.x1, y-l.y1) < cut || math.Hypot(x-l.x2, y-l.y2) < cut) {
				continue
			}
			h := hit{t: (x-px)*dx + (y-py)*dy, two: l.r >= 0 && l.l >= 0}
			// travel goes from the left side of the line to its right side when the line
			// points to the left of the direction of travel
			cr := dx*(l.y2-l.y1) - dy*(l.x2-l.x1)
			if cr > 0 {
				h.prev, h.next = l.l, l.r
			} else {
				h.prev, h.next = l.r, l.l
			}
			hits = append(hits, h)
		}
		sort.Slice(hits, func(i, j int) bool { return hits[i].t < hits[j].t })
		set = set[:0]
		flush := func() {
			for i := range set {
				for j := range set {
					vis[set[i]*n+set[j]] = true
				}
			}
			set = set[:0]
		}
		d2 := dx*dx + dy*dy
		for i, h := range hits {
			if !h.two {
				flush()
			}
			s := h.next
			if sectorAt != nil && i+1 < len(hits) {
				t := (h.t + hits[i+1].t) / 2 / d2
				s = sectorAt(px+dx*t, py+dy*t)
			}
			if s >= 0 {
				if h.two && len(set) == 0 && h.prev >= 0 && sectorAt == nil {
					set = append(set, h.prev)
				}
				set = append(set, s)
			} else {
				flush()
			}
		}
	}
	for i, u := range vs {
		for _, v := range vs[i+1:] {
			ux, uy, vx, vy := float64(u.X), float64(u.Y), float64(v.X), float64(v.Y)
			l := math.Hypot(vx-ux, vy-uy)
			step := losEps
			if cut < 0 {
				step = -cut * 1.1
			}
			nx, ny := -(vy-uy)/l*step, (vx-ux)/l*step
			if cut > 0 {
				walk(ux, uy, vx, vy)
			}
			for _, a := range []float64{1, -1} {
				for _, b := range []float64{1, -1} {
					walk(ux+nx*a, uy+ny*a, vx+nx*b, vy+ny*b)
				}
			}
		}
	}
	return vis
}

// components of sectors joined by two-sided lines.
func (m *Map) components() []int {
	c := make([]int, len(m.Sectors))
	for i := range c {
		c[i] = i
	}
	var find func(i int) int
	find = func(i int) int {
		for c[i] != i {
			i = c[i]
		}
		return i
	}
	for _, l := range m.Lines {
		if l.Right != NoSide && l.Left != NoSide {
			a, b := find(m.Sides[l.Right].Sector), find(m.Sides[l.Left].Sector)
			c[a] = b
		}
	}
	for i := range c {
		c[i] = find(i)
	}
	return c
}

func rejectBits(m *Map, o *OutMap) ([]bool, string) {
	n := len(m.Sectors)
	b := o.L["REJECT"]
	if len(b) != (n*n+7)/8 {
		return nil, fmt.Sprintf("REJECT has %d bytes for %d sectors", len(b), n)
	}
	r := make([]bool, n*n)
	for i := range r {
		r[i] = b[i/8]>>uint(i%8)&1 == 1
	}
	return r, ""
}

// tjunction: some vertex lies strictly inside a linedef (editors always split there).
func (m *Map) tjunction() bool {
	used := map[int]bool{}
	for _, l := range m.Lines {
		used[int(l.V1)], used[int(l.V2)] = true, true
	}
	for _, l := range m.Lines {
		a, b := m.Verts[l.V1], m.Verts[l.V2]
		dx, dy := int64(b.X)-int64(a.X), int64(b.Y)-int64(a.Y)
		for k := range used {
			v := m.Verts[k]
			px, py := int64(v.X)-int64(a.X), int64(v.Y)-int64(a.Y)
			if px*dy-py*dx == 0 {
				if d := px*dx + py*dy; d > 0 && d < dx*dx+dy*dy {
					return true
				}
			}
		}
	}
	return false
}
