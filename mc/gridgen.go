package main

// Exhaustive small-scope map generator: a grid of cells (optionally each cut
// by a diagonal), every assignment of sectors/void to the pieces, pushed
// through an integer linear map so that lines get any chosen slopes.

import (
	"fmt"
	"sort"
)

type GridSpec struct {
	W, H   int
	Cells  []int // W*H (or 2*W*H when Tri) values: -1 void, else sector
	Tri    bool
	Diag   uint // bit per cell: 0 = '/', 1 = '\'
	XS, YS []int
	Mat    [4]int // x' = (m0*x + m1*y)/Den ; y' = (m2*x+m3*y)/Den (must divide)
	OX, OY int
	Merge  int  // 0 unit edges, 1 merge at plain degree-2 vertices, 2 merge through T-junctions
	Self   bool // keep two-sided lines between pieces of the same sector
	Flip   int  // 0 natural, 1 all two-sided flipped, 2 alternate
	NSec   int  // number of sectors to declare (0 = max+1)
}

func (g *GridSpec) String() string {
	return fmt.Sprintf("grid %dx%d cells=%v tri=%v diag=%b xs=%v ys=%v mat=%v o=(%d,%d) merge=%d self=%v flip=%d", g.W, g.H, g.Cells, g.Tri, g.Diag, g.XS, g.YS, g.Mat, g.OX, g.OY, g.Merge, g.Self, g.Flip)
}

type pt struct{ x, y int }
type edge struct{ a, b pt } // a<b

func ptLess(a, b pt) bool {
	if a.x != b.x {
		return a.x < b.x
	}
	return a.y < b.y
}

func (g *GridSpec) tr(p pt) pt {
	return pt{g.Mat[0]*p.x + g.Mat[1]*p.y + g.OX, g.Mat[2]*p.x + g.Mat[3]*p.y + g.OY}
}

// pieceAt: the piece value at untransformed location (cx,cy as floats).
func (g *GridSpec) pieceAt(x, y float64) int {
	ci, cj := -1, -1
	for i := 0; i < g.W; i++ {
		if x > float64(g.XS[i]) && x < float64(g.XS[i+1]) {
			ci = i
		}
	}
	for j := 0; j < g.H; j++ {
		if y > float64(g.YS[j]) && y < float64(g.YS[j+1]) {
			cj = j
		}
	}
	if ci < 0 || cj < 0 {
		return -1
	}
	k := cj*g.W + ci
	if !g.Tri {
		return g.Cells[k]
	}
	u := (x - float64(g.XS[ci])) / float64(g.XS[ci+1]-g.XS[ci])
	v := (y - float64(g.YS[cj])) / float64(g.YS[cj+1]-g.YS[cj])
	if g.Diag>>uint(k)&1 == 0 { // '/' : piece 0 above (v>u), piece 1 below
		if v > u {
			return g.Cells[2*k]
		}
		return g.Cells[2*k+1]
	}
	if v > 1-u { // '\' : piece 0 above
		return g.Cells[2*k]
	}
	return g.Cells[2*k+1]
}

// Truth returns the sector at a transformed location, -1 for void. Only
// meaningful away from lines.
func (g *GridSpec) Truth(x, y float64) int {
	x -= float64(g.OX)
	y -= float64(g.OY)
	det := float64(g.Mat[0]*g.Mat[3] - g.Mat[1]*g.Mat[2])
	return g.pieceAt((float64(g.Mat[3])*x-float64(g.Mat[1])*y)/det, (float64(g.Mat[0])*y-float64(g.Mat[2])*x)/det)
}

type wall struct {
	a, b   pt
	rs, ls int
}

func (g *GridSpec) walls() []wall {
	type two struct{ r, l int }
	em := map[edge]*two{}
	// clockwise polygon: right side is inside
	addPoly := func(sec int, ps ...pt) {
		for i := range ps {
			a, b := ps[i], ps[(i+1)%len(ps)]
			if ptLess(a, b) {
				e := edge{a, b}
				if em[e] == nil {
					em[e] = &two{-1, -1}
				}
				em[e].r = sec
			} else {
				e := edge{b, a}
				if em[e] == nil {
					em[e] = &two{-1, -1}
				}
				em[e].l = sec
			}
		}
	}
	for j := 0; j < g.H; j++ {
		for i := 0; i < g.W; i++ {
			k := j*g.W + i
			x0, x1, y0, y1 := g.XS[i], g.XS[i+1], g.YS[j], g.YS[j+1]
			bl, tl, trr, br := pt{x0, y0}, pt{x0, y1}, pt{x1, y1}, pt{x1, y0}
			if !g.Tri {
				addPoly(g.Cells[k], bl, tl, trr, br)
			} else if g.Diag>>uint(k)&1 == 0 {
				addPoly(g.Cells[2*k], bl, tl, trr)
				addPoly(g.Cells[2*k+1], bl, trr, br)
			} else {
				addPoly(g.Cells[2*k], tl, trr, br)
				addPoly(g.Cells[2*k+1], bl, tl, br)
			}
		}
	}
	var ws []wall
	for e, t := range em {
		if t.r < 0 && t.l < 0 {
			continue
		}
		if t.r == t.l && !g.Self {
			continue
		}
		ws = append(ws, wall{e.a, e.b, t.r, t.l})
	}
	key := func(w wall) [4]int { return [4]int{w.a.x, w.a.y, w.b.x, w.b.y} }
	less := func(a, b [4]int) bool {
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	sort.Slice(ws, func(i, j int) bool { return less(key(ws[i]), key(ws[j])) })
	if g.Merge > 0 {
		for {
			deg := map[pt]int{}
			for _, w := range ws {
				deg[w.a]++
				deg[w.b]++
			}
			merged := false
		outer:
			for i := range ws {
				for j := range ws {
					a, b := ws[i], ws[j]
					if a.b != b.a || a.rs != b.rs || a.ls != b.ls {
						continue
					}
					if (a.b.x-a.a.x)*(b.b.y-b.a.y) != (a.b.y-a.a.y)*(b.b.x-b.a.x) {
						continue
					}
					if g.Merge == 1 && deg[a.b] != 2 {
						continue
					}
					ws[i].b = b.b
					ws = append(ws[:j], ws[j+1:]...)
					merged = true
					break outer
				}
			}
			if !merged {
				break
			}
		}
	}
	return ws
}

// Build returns nil when the spec has no lines.
func (g *GridSpec) Build() *Map {
	m := &Map{Desc: g.String()}
	mx := -1
	for _, c := range g.Cells {
		if c > mx {
			mx = c
		}
	}
	if mx < 0 {
		return nil
	}
	n := mx + 1
	if g.NSec > n {
		n = g.NSec
	}
	addSectors(m, n)
	for i, w := range g.walls() {
		a, b := g.tr(w.a), g.tr(w.b)
		rs, ls := w.rs, w.ls
		flip := rs < 0
		if rs >= 0 && ls >= 0 && (g.Flip == 1 || (g.Flip == 2 && i%2 == 1)) {
			flip = true
		}
		if flip {
			a, b, rs, ls = b, a, ls, rs
		}
		addLine(m, a.x, a.y, b.x, b.y, rs, ls)
	}
	if len(m.Lines) == 0 {
		return nil
	}
	gc := *g
	gc.Cells = append([]int{}, g.Cells...)
	m.Truth = gc.Truth
	m.Things = []Thing{{X: m.Verts[0].X, Y: m.Verts[0].Y, Type: 1, Flags: 7}}
	return m
}

// enumAssign enumerates all assignments of n pieces over {-1,0..k-1} where
// sector labels appear in first-use order (label symmetry removed) and at
// least one piece is not void.
func enumAssign(n, k int, f func([]int)) {
	a := make([]int, n)
	var rec func(i, used int)
	rec = func(i, used int) {
		if i == n {
			if used > 0 {
				f(append([]int{}, a...))
			}
			return
		}
		for v := -1; v <= used && v < k; v++ {
			a[i] = v
			u := used
			if v == used {
				u++
			}
			rec(i+1, u)
		}
	}
	rec(0, 0)
}

// enumAssignFull: no void pieces.
func enumAssignFull(n, k int, f func([]int)) {
	enumAssign(n, k, func(a []int) {
		for _, v := range a {
			if v < 0 {
				return
			}
		}
		f(a)
	})
}

func steps(n, d int) []int {
	r := make([]int, n+1)
	for i := range r {
		r[i] = i * d
	}
	return r
}
