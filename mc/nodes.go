package main

// BSP oracle: decodes every node format and checks structure and geometry.

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"math"
	"strings"
)

type TSeg struct {
	V1, V2, Line, Side, Angle, Offset int
}

type TNode struct {
	X, Y, DX, DY int
	Box          [2][4]int // right, left: top bottom left right
	Child        [2]int
	Leaf         [2]bool
}

type Tree struct {
	Format string // vanilla, deep, xnod, znod, empty
	VX, VY []float64
	Segs   []TSeg
	First  []int
	Count  []int
	Nodes  []TNode
	HasAng bool
	OrgV   int
}

func decodeDeepNode(b []byte) TNode {
	n := TNode{X: s16(b), Y: s16(b[2:]), DX: s16(b[4:]), DY: s16(b[6:])}
	for c := 0; c < 2; c++ {
		for k := 0; k < 4; k++ {
			n.Box[c][k] = s16(b[8+c*8+k*2:])
		}
		v := le.Uint32(b[24+4*c:])
		n.Leaf[c] = v&0x80000000 != 0
		n.Child[c] = int(v & 0x7FFFFFFF)
	}
	return n
}

// DecodeTree decodes SEGS/SSECTORS/NODES/VERTEXES whatever format they are in.
func DecodeTree(L map[string][]byte) (*Tree, error) {
	t := &Tree{}
	for b := L["VERTEXES"]; len(b) >= 4; b = b[4:] {
		t.VX = append(t.VX, float64(s16(b)))
		t.VY = append(t.VY, float64(s16(b[2:])))
	}
	t.OrgV = len(t.VX)
	nd := L["NODES"]
	if len(nd) == 0 && len(L["SEGS"]) == 0 && len(L["SSECTORS"]) == 0 {
		t.Format = "empty"
		return t, nil
	}
	if len(nd) >= 4 && (string(nd[:4]) == "XNOD" || string(nd[:4]) == "ZNOD") {
		if len(L["SEGS"]) != 0 || len(L["SSECTORS"]) != 0 {
			return nil, fmt.Errorf("extended nodes but SEGS/SSECTORS are not empty")
		}
		b := nd[4:]
		t.Format = "xnod"
		if nd[0] == 'Z' {
			t.Format = "znod"
			zr, err := zlib.NewReader(bytes.NewReader(b))
			if err != nil {
				return nil, fmt.Errorf("zlib: %v", err)
			}
			b, err = io.ReadAll(zr)
			if err != nil {
				return nil, fmt.Errorf("zlib: %v", err)
			}
		}
		var bad error
		u32 := func() int {
			if len(b) < 4 {
				bad = fmt.Errorf("extended nodes lump truncated")
				return 0
			}
			v := le.Uint32(b)
			b = b[4:]
			return int(v)
		}
		need := func(n, sz int) bool {
			if bad == nil && n*sz > len(b) {
				bad = fmt.Errorf("extended nodes lump truncated (%d items of %d, %d left)", n, sz, len(b))
			}
			return bad == nil
		}
		org := u32()
		nv := u32()
		if bad == nil && org > len(t.VX) {
			return nil, fmt.Errorf("extended nodes reuse %d vertices, VERTEXES has %d", org, len(t.VX))
		}
		if !need(nv, 8) {
			return nil, bad
		}
		t.VX, t.VY = t.VX[:org], t.VY[:org]
		t.OrgV = org
		for i := 0; i < nv; i++ {
			t.VX = append(t.VX, float64(int32(le.Uint32(b)))/65536)
			t.VY = append(t.VY, float64(int32(le.Uint32(b[4:])))/65536)
			b = b[8:]
		}
		ns := u32()
		if !need(ns, 4) {
			return nil, bad
		}
		f := 0
		for i := 0; i < ns; i++ {
			c := u32()
			t.First = append(t.First, f)
			t.Count = append(t.Count, c)
			f += c
		}
		nseg := u32()
		if !need(nseg, 11) {
			return nil, bad
		}
		if f != nseg {
			return nil, fmt.Errorf("subsectors own %d segs, %d exist", f, nseg)
		}
		for i := 0; i < nseg; i++ {
			t.Segs = append(t.Segs, TSeg{V1: int(le.Uint32(b)), V2: int(le.Uint32(b[4:])), Line: u16(b[8:]), Side: int(b[10])})
			b = b[11:]
		}
		nn := u32()
		if !need(nn, 32) {
			return nil, bad
		}
		for i := 0; i < nn; i++ {
			t.Nodes = append(t.Nodes, decodeDeepNode(b))
			b = b[32:]
		}
		if len(b) != 0 {
			return nil, fmt.Errorf("%d trailing bytes after extended nodes", len(b))
		}
		return t, nil
	}
	t.HasAng = true
	if len(nd) >= 8 && bytes.Equal(nd[:8], []byte("xNd4\x00\x00\x00\x00")) {
		t.Format = "deep"
		nd = nd[8:]
		if len(nd)%32 != 0 || len(L["SEGS"])%16 != 0 || len(L["SSECTORS"])%6 != 0 {
			return nil, fmt.Errorf("deep lumps have fractional sizes: NODES %d SEGS %d SSECTORS %d", len(nd), len(L["SEGS"]), len(L["SSECTORS"]))
		}
		for ; len(nd) > 0; nd = nd[32:] {
			t.Nodes = append(t.Nodes, decodeDeepNode(nd))
		}
		for b := L["SEGS"]; len(b) > 0; b = b[16:] {
			t.Segs = append(t.Segs, TSeg{int(le.Uint32(b)), int(le.Uint32(b[4:])), u16(b[10:]), u16(b[12:]), u16(b[8:]), u16(b[14:])})
		}
		for b := L["SSECTORS"]; len(b) > 0; b = b[6:] {
			t.Count = append(t.Count, u16(b))
			t.First = append(t.First, int(le.Uint32(b[2:])))
		}
		return t, nil
	}
	t.Format = "vanilla"
	if len(nd)%28 != 0 || len(L["SEGS"])%12 != 0 || len(L["SSECTORS"])%4 != 0 {
		return nil, fmt.Errorf("lumps have fractional sizes: NODES %d SEGS %d SSECTORS %d", len(nd), len(L["SEGS"]), len(L["SSECTORS"]))
	}
	for ; len(nd) > 0; nd = nd[28:] {
		n := TNode{X: s16(nd), Y: s16(nd[2:]), DX: s16(nd[4:]), DY: s16(nd[6:])}
		for c := 0; c < 2; c++ {
			for k := 0; k < 4; k++ {
				n.Box[c][k] = s16(nd[8+c*8+k*2:])
			}
			v := u16(nd[24+2*c:])
			n.Leaf[c] = v&0x8000 != 0
			n.Child[c] = v & 0x7FFF
		}
		t.Nodes = append(t.Nodes, n)
	}
	for b := L["SEGS"]; len(b) > 0; b = b[12:] {
		t.Segs = append(t.Segs, TSeg{u16(b), u16(b[2:]), u16(b[6:]), u16(b[8:]), u16(b[4:]), u16(b[10:])})
	}
	for b := L["SSECTORS"]; len(b) > 0; b = b[4:] {
		t.Count = append(t.Count, u16(b))
		t.First = append(t.First, u16(b[2:]))
	}
	return t, nil
}

// Unreversed: set when --unreversenodes was given.
func (t *Tree) CheckStructure(m *Map) string { return t.checkStructure(m, false, false) }

func (t *Tree) checkStructure(m *Map, order, unrev bool) string {
	if t.Format == "empty" {
		return "node lumps are empty"
	}
	if len(t.First) == 0 {
		return "no subsectors"
	}
	// subsectors partition the segs
	own := make([]int, len(t.Segs))
	for i := range own {
		own[i] = -1
	}
	for s := range t.First {
		if t.Count[s] == 0 {
			return fmt.Sprintf("subsector %d has no segs", s)
		}
		for k := t.First[s]; k < t.First[s]+t.Count[s]; k++ {
			if k >= len(t.Segs) {
				return fmt.Sprintf("subsector %d references seg %d of %d", s, k, len(t.Segs))
			}
			if own[k] >= 0 {
				return fmt.Sprintf("seg %d is in subsectors %d and %d", k, own[k], s)
			}
			own[k] = s
		}
	}
	for k, o := range own {
		if o < 0 {
			return fmt.Sprintf("seg %d is in no subsector", k)
		}
	}
	for k, s := range t.Segs {
		if s.V1 >= len(t.VX) || s.V2 >= len(t.VX) {
			return fmt.Sprintf("seg %d references vertex %d/%d of %d", k, s.V1, s.V2, len(t.VX))
		}
		if s.Line >= len(m.Lines) {
			return fmt.Sprintf("seg %d references linedef %d of %d", k, s.Line, len(m.Lines))
		}
		if s.Side > 1 {
			return fmt.Sprintf("seg %d has side %d", k, s.Side)
		}
		sd := m.Lines[s.Line].Right
		if s.Side == 1 {
			sd = m.Lines[s.Line].Left
		}
		if sd == NoSide || sd >= len(m.Sides) {
			return fmt.Sprintf("seg %d uses side %d of linedef %d which has no sidedef", k, s.Side, s.Line)
		}
	}
	// tree shape
	if len(t.Nodes) == 0 {
		if len(t.First) != 1 {
			return fmt.Sprintf("no nodes but %d subsectors", len(t.First))
		}
		return ""
	}
	nref := make([]int, len(t.Nodes))
	sref := make([]int, len(t.First))
	for i, n := range t.Nodes {
		if n.DX == 0 && n.DY == 0 {
			return fmt.Sprintf("node %d has a zero-length partition", i)
		}
		for c := 0; c < 2; c++ {
			if n.Leaf[c] {
				if n.Child[c] >= len(t.First) {
					return fmt.Sprintf("node %d child %d is subsector %d of %d", i, c, n.Child[c], len(t.First))
				}
				sref[n.Child[c]]++
			} else {
				if n.Child[c] >= len(t.Nodes) {
					return fmt.Sprintf("node %d child %d is node %d of %d", i, c, n.Child[c], len(t.Nodes))
				}
				nref[n.Child[c]]++
				if order {
					if !unrev && n.Child[c] >= i {
						return fmt.Sprintf("node %d has child node %d not preceding it", i, n.Child[c])
					}
					if unrev && i != len(t.Nodes)-1 && n.Child[c] <= i {
						return fmt.Sprintf("node %d has child node %d not following it", i, n.Child[c])
					}
				}
			}
		}
	}
	root := len(t.Nodes) - 1
	for i, r := range nref {
		if i == root && r != 0 {
			return fmt.Sprintf("the last node (%d) is referenced as a child", i)
		}
		if i != root && r != 1 {
			return fmt.Sprintf("node %d is referenced %d times", i, r)
		}
	}
	for i, r := range sref {
		if r != 1 {
			return fmt.Sprintf("subsector %d is referenced %d times", i, r)
		}
	}
	// connected: all reachable from root
	seen := 0
	vis := make([]bool, len(t.Nodes))
	st := []int{root}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if vis[x] {
			return fmt.Sprintf("node %d reached twice", x)
		}
		vis[x] = true
		seen++
		for c := 0; c < 2; c++ {
			if !t.Nodes[x].Leaf[c] {
				st = append(st, t.Nodes[x].Child[c])
			}
		}
	}
	if seen != len(t.Nodes) {
		return fmt.Sprintf("only %d of %d nodes reachable from the root", seen, len(t.Nodes))
	}
	return ""
}

// CheckBoxes: every node bounding box encloses all segs below it.
func (t *Tree) CheckBoxes() string {
	if len(t.Nodes) == 0 {
		return ""
	}
	fail := ""
	var rec func(i int, leaf bool) [4]float64
	rec = func(i int, leaf bool) [4]float64 {
		b := [4]float64{-1e9, 1e9, 1e9, -1e9}
		grow := func(x0, x1, y0, y1 float64) {
			b[0], b[1], b[2], b[3] = math.Max(b[0], y1), math.Min(b[1], y0), math.Min(b[2], x0), math.Max(b[3], x1)
		}
		if leaf {
			for k := t.First[i]; k < t.First[i]+t.Count[i]; k++ {
				for _, v := range []int{t.Segs[k].V1, t.Segs[k].V2} {
					grow(t.VX[v], t.VX[v], t.VY[v], t.VY[v])
				}
			}
			return b
		}
		n := &t.Nodes[i]
		for c := 0; c < 2; c++ {
			s := rec(n.Child[c], n.Leaf[c])
			w := n.Box[c]
			// allow the outward rounding of fractional vertices
			if s[0] > float64(w[0])+0.999 || s[1] < float64(w[1])-0.999 || s[2] < float64(w[2])-0.999 || s[3] > float64(w[3])+0.999 {
				if fail == "" {
					fail = fmt.Sprintf("node %d: child %d bounding box %v does not enclose its segs %v", i, c, w, s)
				}
			}
			grow(s[2], s[3], s[1], s[0])
		}
		return b
	}
	rec(len(t.Nodes)-1, false)
	return fail
}

// Canon writes the tree in depth-first order, without storage order.
func (t *Tree) Canon() string {
	if len(t.First) == 0 {
		return "empty"
	}
	var sb strings.Builder
	var rec func(i int, leaf bool)
	rec = func(i int, leaf bool) {
		if leaf {
			sb.WriteString("(")
			for k := t.First[i]; k < t.First[i]+t.Count[i]; k++ {
				s := t.Segs[k]
				fmt.Fprintf(&sb, "%g,%g,%g,%g,%d,%d,%d,%d;", t.VX[s.V1], t.VY[s.V1], t.VX[s.V2], t.VY[s.V2], s.Line, s.Side, s.Angle, s.Offset)
			}
			sb.WriteString(")")
			return
		}
		n := &t.Nodes[i]
		fmt.Fprintf(&sb, "[%d,%d,%d,%d %v ", n.X, n.Y, n.DX, n.DY, n.Box)
		rec(n.Child[0], n.Leaf[0])
		rec(n.Child[1], n.Leaf[1])
		sb.WriteString("]")
	}
	rec(max(len(t.Nodes)-1, 0), len(t.Nodes) == 0)
	return sb.String()
}

// Locate walks the tree the way the engine does.
func (t *Tree) Locate(x, y float64) int {
	if len(t.Nodes) == 0 {
		return 0
	}
	i := len(t.Nodes) - 1
	for d := 0; d <= len(t.Nodes); d++ {
		n := &t.Nodes[i]
		dx, dy := x-float64(n.X), y-float64(n.Y)
		c := 1
		if dy*float64(n.DX) < dx*float64(n.DY) {
			c = 0
		}
		if n.Leaf[c] {
			return n.Child[c]
		}
		i = n.Child[c]
	}
	return -1
}

type GeoOpts struct {
	Tol       float64 // allowed distance of rounded vertices from exact lines
	SegWanted func(line, side int) bool
	SegOpt    func(line int) bool // both sides may be missing together
	SameSec   bool                // subsectors must be of a single sector
	Angles    bool
	Turn      func(line, side int) (turn float64, fixed bool) // seg angle is turned by, or fixed at, this
	Truth     func(x, y float64) int
	PtStep    int
	Convex    bool
}

func (m *Map) sideSector(line, side int) int {
	sd := m.Lines[line].Right
	if side == 1 {
		sd = m.Lines[line].Left
	}
	if sd == NoSide || sd >= len(m.Sides) {
		return -1
	}
	return m.Sides[sd].Sector
}

// GeoStats: maximal deviations seen (reported in evidence).
type GeoStats struct{ OnLine, Part, Convex, Off float64 }

// CheckGeometry assumes CheckStructure passed.
func (t *Tree) CheckGeometry(m *Map, o *GeoOpts, st *GeoStats) string {
	type piece struct{ a, b float64 }
	cov := map[[2]int][]int{}
	for k, s := range t.Segs {
		ln := m.Lines[s.Line]
		ax, ay := float64(m.Verts[ln.V1].X), float64(m.Verts[ln.V1].Y)
		bx, by := float64(m.Verts[ln.V2].X), float64(m.Verts[ln.V2].Y)
		if s.Side == 1 {
			ax, ay, bx, by = bx, by, ax, ay
		}
		L := math.Hypot(bx-ax, by-ay)
		if L == 0 {
			return fmt.Sprintf("seg %d is made of zero-length linedef %d", k, s.Line)
		}
		x1, y1, x2, y2 := t.VX[s.V1], t.VY[s.V1], t.VX[s.V2], t.VY[s.V2]
		d1 := math.Abs((x1-ax)*(by-ay)-(y1-ay)*(bx-ax)) / L
		d2 := math.Abs((x2-ax)*(by-ay)-(y2-ay)*(bx-ax)) / L
		if d1 > st.OnLine {
			st.OnLine = d1
		}
		if d2 > st.OnLine {
			st.OnLine = d2
		}
		if d1 > o.Tol || d2 > o.Tol {
			return fmt.Sprintf("seg %d (%g,%g)-(%g,%g) is %.2f off linedef %d", k, x1, y1, x2, y2, math.Max(d1, d2), s.Line)
		}
		if t.HasAng && o.Angles {
			want := math.Hypot(x1-ax, y1-ay)
			df := math.Abs(want - float64(s.Offset))
			if df > st.Off {
				st.Off = df
			}
			if df > 1.01+o.Tol {
				return fmt.Sprintf("seg %d offset %d, expected about %.2f", k, s.Offset, want)
			}
			ang := math.Atan2(by-ay, bx-ax) / (2 * math.Pi) * 65536
			ang2 := math.Atan2(y2-y1, x2-x1) / (2 * math.Pi) * 65536
			if o.Turn != nil {
				v, fixed := o.Turn(s.Line, s.Side)
				ang, ang2 = ang+v, ang2+v
				if fixed {
					ang, ang2 = v, v
				}
			}
			off := func(a float64) float64 {
				return math.Abs(math.Mod(math.Mod(a, 65536)-float64(s.Angle)+4*65536+32768, 65536) - 32768)
			}
			da := off(ang)
			if da > 2 {
				// split segs may carry the angle of the seg itself
				da2 := off(ang2)
				if da2 > 2 {
					return fmt.Sprintf("seg %d angle %d, expected about %.0f", k, s.Angle, math.Mod(ang+65536, 65536))
				}
			}
		}
		cov[[2]int{s.Line, s.Side}] = append(cov[[2]int{s.Line, s.Side}], k)
	}
	// each side is covered exactly, end to end
	for li, ln := range m.Lines {
		for side := 0; side < 2; side++ {
			sd := ln.Right
			if side == 1 {
				sd = ln.Left
			}
			ks := cov[[2]int{li, side}]
			ax, ay := float64(m.Verts[ln.V1].X), float64(m.Verts[ln.V1].Y)
			bx, by := float64(m.Verts[ln.V2].X), float64(m.Verts[ln.V2].Y)
			if side == 1 {
				ax, ay, bx, by = bx, by, ax, ay
			}
			wanted := sd != NoSide && (ax != bx || ay != by) && (o.SegWanted == nil || o.SegWanted(li, side))
			if !wanted {
				if len(ks) > 0 {
					return fmt.Sprintf("linedef %d side %d must have no segs but has %d", li, side, len(ks))
				}
				continue
			}
			if len(ks) == 0 && o.SegOpt != nil && o.SegOpt(li) && len(cov[[2]int{li, 1 - side}]) == 0 {
				continue
			}
			if len(ks) == 0 {
				return fmt.Sprintf("linedef %d side %d has no segs", li, side)
			}
			cx, cy := ax, ay
			used := make([]bool, len(ks))
			for n := 0; n < len(ks); n++ {
				f := -1
				for i, k := range ks {
					if !used[i] && t.VX[t.Segs[k].V1] == cx && t.VY[t.Segs[k].V1] == cy {
						f = i
						break
					}
				}
				if f < 0 {
					return fmt.Sprintf("linedef %d side %d: no seg continues at (%g,%g): gap or overlap", li, side, cx, cy)
				}
				used[f] = true
				s := t.Segs[ks[f]]
				nx, ny := t.VX[s.V2], t.VY[s.V2]
				if (nx-cx)*(bx-ax)+(ny-cy)*(by-ay) <= 0 {
					return fmt.Sprintf("linedef %d side %d: seg (%g,%g)-(%g,%g) has no forward extent", li, side, cx, cy, nx, ny)
				}
				cx, cy = nx, ny
			}
			if cx != bx || cy != by {
				return fmt.Sprintf("linedef %d side %d: segs end at (%g,%g), line ends at (%g,%g)", li, side, cx, cy, bx, by)
			}
		}
	}
	// subsectors
	ssec := make([]int, len(t.First))
	for s := range t.First {
		ssec[s] = m.sideSector(t.Segs[t.First[s]].Line, t.Segs[t.First[s]].Side)
		for k := t.First[s]; k < t.First[s]+t.Count[s]; k++ {
			if o.SameSec {
				if g := m.sideSector(t.Segs[k].Line, t.Segs[k].Side); g != ssec[s] {
					return fmt.Sprintf("subsector %d mixes sectors %d and %d", s, ssec[s], g)
				}
			}
			if o.Convex {
				a := t.Segs[k]
				ax, ay, bx, by := t.VX[a.V1], t.VY[a.V1], t.VX[a.V2], t.VY[a.V2]
				L := math.Hypot(bx-ax, by-ay)
				for q := t.First[s]; q < t.First[s]+t.Count[s]; q++ {
					for _, v := range []int{t.Segs[q].V1, t.Segs[q].V2} {
						d := ((t.VY[v]-ay)*(bx-ax) - (t.VX[v]-ax)*(by-ay)) / L // >0 = left
						if d > st.Convex {
							st.Convex = d
						}
						if d > o.Tol {
							return fmt.Sprintf("subsector %d is not convex: seg %d has vertex of seg %d %.2f behind it", s, k, q, d)
						}
					}
				}
			}
		}
	}
	// partition sides and bounding boxes
	var fail string
	var rec func(i int, leaf bool) []int
	rec = func(i int, leaf bool) []int {
		if fail != "" {
			return nil
		}
		if leaf {
			var r []int
			for k := t.First[i]; k < t.First[i]+t.Count[i]; k++ {
				r = append(r, k)
			}
			return r
		}
		n := &t.Nodes[i]
		L := math.Hypot(float64(n.DX), float64(n.DY))
		var all []int
		for c := 0; c < 2; c++ {
			ks := rec(n.Child[c], n.Leaf[c])
			if fail != "" {
				return nil
			}
			for _, k := range ks {
				for _, v := range []int{t.Segs[k].V1, t.Segs[k].V2} {
					d := ((t.VY[v]-float64(n.Y))*float64(n.DX) - (t.VX[v]-float64(n.X))*float64(n.DY)) / L
					if c == 1 {
						d = -d
					}
					if d > st.Part {
						st.Part = d
					}
					if d > o.Tol {
						fail = fmt.Sprintf("node %d: seg %d on child %d lies %.2f beyond the partition", i, k, c, d)
						return nil
					}
					b := n.Box[c]
					// allow the outward rounding of fractional vertices
					if t.VX[v] < float64(b[2])-0.999 || t.VX[v] > float64(b[3])+0.999 || t.VY[v] < float64(b[1])-0.999 || t.VY[v] > float64(b[0])+0.999 {
						fail = fmt.Sprintf("node %d: child %d bounding box %v does not enclose (%g,%g)", i, c, b, t.VX[v], t.VY[v])
						return nil
					}
				}
			}
			all = append(all, ks...)
		}
		return all
	}
	if len(t.Nodes) > 0 {
		rec(len(t.Nodes)-1, false)
		if fail != "" {
			return fail
		}
	}
	if o.Truth != nil {
		x0, y0, x1, y1 := m.bounds()
		for y := y0 + 1; y < y1; y += o.PtStep {
			for x := x0 + 1; x < x1; x += o.PtStep {
				fx, fy := float64(x), float64(y)
				if m.nearLine(fx, fy, 2*o.Tol+1) {
					continue
				}
				want := o.Truth(fx, fy)
				if want < 0 {
					continue
				}
				s := t.Locate(fx, fy)
				if s < 0 || ssec[s] != want {
					g := -1
					if s >= 0 {
						g = ssec[s]
					}
					return fmt.Sprintf("point (%d,%d) is in sector %d but the tree puts it in subsector %d of sector %d", x, y, want, s, g)
				}
			}
		}
	}
	return ""
}

func (m *Map) bounds() (x0, y0, x1, y1 int) {
	x0, y0, x1, y1 = 1<<30, 1<<30, -(1 << 30), -(1 << 30)
	for _, l := range m.Lines {
		for _, v := range []Vertex{m.Verts[l.V1], m.Verts[l.V2]} {
			x0, x1 = min(x0, v.X), max(x1, v.X)
			y0, y1 = min(y0, v.Y), max(y1, v.Y)
		}
	}
	return
}

func segDist(px, py, ax, ay, bx, by float64) float64 {
	dx, dy := bx-ax, by-ay
	l2 := dx*dx + dy*dy
	u := 0.0
	if l2 > 0 {
		u = ((px-ax)*dx + (py-ay)*dy) / l2
		u = math.Max(0, math.Min(1, u))
	}
	return math.Hypot(px-ax-u*dx, py-ay-u*dy)
}

func (m *Map) nearLine(x, y, d float64) bool {
	for _, l := range m.Lines {
		a, b := m.Verts[l.V1], m.Verts[l.V2]
		if segDist(x, y, float64(a.X), float64(a.Y), float64(b.X), float64(b.Y)) < d {
			return true
		}
	}
	return false
}
