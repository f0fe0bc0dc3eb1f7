package main

// BLOCKMAP oracle.

import (
	"fmt"
	"math"
)

type BMap struct {
	X, Y, Cols, Rows int
	Lists            [][]int // per block, row-major, raw entries without terminator
	Offs             []int
	Bytes            int
	Stolen           bool // a list starts in the last word of the offset table
}

func DecodeBlockmap(b []byte) (*BMap, error) {
	if len(b) < 8 {
		return nil, fmt.Errorf("blockmap is %d bytes", len(b))
	}
	if len(b)%2 != 0 {
		return nil, fmt.Errorf("blockmap has odd size %d", len(b))
	}
	m := &BMap{X: s16(b), Y: s16(b[2:]), Cols: u16(b[4:]), Rows: u16(b[6:]), Bytes: len(b)}
	n := m.Cols * m.Rows
	w := len(b) / 2
	if 4+n > w {
		return nil, fmt.Errorf("blockmap %dx%d does not fit in %d bytes", m.Cols, m.Rows, len(b))
	}
	for i := 0; i < n; i++ {
		o := u16(b[8+2*i:])
		if o < 4+n-1 {
			return nil, fmt.Errorf("block %d offset %d points into header/offset table", i, o)
		}
		if o == 4+n-1 {
			m.Stolen = true
		}
		var l []int
		p := o
		for {
			if p >= w {
				return nil, fmt.Errorf("block %d list at %d is not terminated inside the lump", i, o)
			}
			v := u16(b[2*p:])
			if v == 0xFFFF {
				break
			}
			l = append(l, v)
			p++
		}
		m.Offs = append(m.Offs, o)
		m.Lists = append(m.Lists, l)
	}
	return m, nil
}

type BMOpts struct {
	Z       int  // -bz value
	Lossy   bool // -ba
	Skip    func(line int) bool
	FixOff  bool
	OX, OY  int
	CheckZ  bool
	Subset  bool // lossless subset compression: a list's dummy may be any linedef
	Removal bool // -br: lines named by Map.BMSkip are left out
}

// blockSlack: the traversal rounds the crossing of each block border to a whole
// unit, so a line that clips a corner by less than this may or may not be listed.
var blockSlack = 1.0

// lineBlocks: must[b] / may[b] for a grid.
func lineBlocks(x1, y1, x2, y2, gx, gy, cols, rows int, f func(b int, must bool)) {
	fl := func(a int) int { return int(math.Floor(float64(a) / 128)) }
	bx0, bx1 := fl(min(x1, x2)-gx), fl(max(x1, x2)-gx)
	by0, by1 := fl(min(y1, y2)-gy), fl(max(y1, y2)-gy)
	for by := by0 - 1; by <= by1; by++ {
		for bx := bx0 - 1; bx <= bx1; bx++ {
			inGrid := bx >= 0 && by >= 0 && bx < cols && by < rows
			X0, Y0 := float64(gx+bx*128), float64(gy+by*128)
			clip := func(d float64) bool {
				t0, t1 := 0.0, 1.0
				ok := true
				ax := func(p, q, lo, hi float64) {
					if q == 0 {
						if p < lo || p > hi {
							ok = false
						}
						return
					}
					a, b := (lo-p)/q, (hi-p)/q
					if a > b {
						a, b = b, a
					}
					t0, t1 = math.Max(t0, a), math.Min(t1, b)
				}
				ax(float64(x1), float64(x2-x1), X0-d, X0+128+d)
				ax(float64(y1), float64(y2-y1), Y0-d, Y0+128+d)
				return ok && t1 >= t0-1e-9
			}
			ok, must := clip(blockSlack), clip(-blockSlack)
			if x1 == x2 || y1 == y2 {
				// axis-parallel lines lie in exactly one row or column
				cx, cy := min(max(min(x1, x2), gx+bx*128), max(x1, x2)), min(max(min(y1, y2), gy+by*128), max(y1, y2))
				ok = fl(cx-gx) == bx && fl(cy-gy) == by
				must = ok
			}
			// blocks that contain an end point always list the line
			for _, e := range [][2]int{{x1, y1}, {x2, y2}} {
				if fl(e[0]-gx) == bx && fl(e[1]-gy) == by {
					ok, must = true, true
				}
			}
			if !ok {
				continue
			}
			b := by*cols + bx
			if !inGrid {
				if must {
					f(-1, true)
				}
				continue
			}
			f(b, must)
		}
	}
}

func CheckBlockmapBasic(lump []byte, m *Map) string {
	return CheckBlockmap(lump, m, &BMOpts{Z: 1})
}

func CheckBlockmap(lump []byte, m *Map, o *BMOpts) string {
	bm, err := DecodeBlockmap(lump)
	if err != nil {
		return err.Error()
	}
	n := bm.Cols * bm.Rows
	if n == 0 {
		return "blockmap has no blocks"
	}
	if bm.Stolen && o.Z != 1 {
		return "a list starts inside the offset table"
	}
	sets := make([]map[int]bool, n)
	dummy := -1
	for b, l := range bm.Lists {
		s := map[int]bool{}
		body := l
		if o.Z > 0 {
			if len(l) == 0 {
				return fmt.Sprintf("block %d list has no dummy entry", b)
			}
			if dummy < 0 {
				dummy = l[0]
			}
			if l[0] != dummy && !o.Subset {
				return fmt.Sprintf("block %d starts with linedef %d, others with %d", b, l[0], dummy)
			}
			if l[0] >= len(m.Lines) {
				return fmt.Sprintf("block %d dummy entry is linedef %d of %d", b, l[0], len(m.Lines))
			}
			if o.Z == 2 && l[0] != 0 && !o.Subset {
				return fmt.Sprintf("block %d dummy is linedef %d, not 0", b, l[0])
			}
			body = l[1:]
		}
		for _, v := range body {
			if v >= len(m.Lines) {
				return fmt.Sprintf("block %d lists linedef %d of %d", b, v, len(m.Lines))
			}
			if s[v] {
				return fmt.Sprintf("block %d lists linedef %d twice", b, v)
			}
			s[v] = true
		}
		sets[b] = s
	}
	if o.Z > 0 && dummy >= len(m.Lines) && len(m.Lines) > 0 {
		return fmt.Sprintf("dummy entry is linedef %d of %d", dummy, len(m.Lines))
	}
	if o.Z > 0 && len(m.Lines) > 0 && !o.Subset {
		long := func(i int) bool {
			a, b := m.Verts[m.Lines[i].V1], m.Verts[m.Lines[i].V2]
			return (a.X-b.X)*(a.X-b.X)+(a.Y-b.Y)*(a.Y-b.Y) >= 2048*2048
		}
		if o.Z == 1 && dummy != 0 && !bm.Stolen && !long(0) && (o.Skip == nil || !o.Skip(0)) {
			return fmt.Sprintf("dummy is linedef %d although nothing is gained by that", dummy)
		}
		if o.Z == 1 && long(dummy) {
			for i := range m.Lines {
				if !long(i) {
					return fmt.Sprintf("dummy is the very long linedef %d", dummy)
				}
			}
		}
	}
	may := make([]map[int]bool, n)
	for i := range may {
		may[i] = map[int]bool{}
	}
	bad := ""
	for li, l := range m.Lines {
		if o.Skip != nil && o.Skip(li) {
			continue
		}
		a, c := m.Verts[l.V1], m.Verts[l.V2]
		lineBlocks(a.X, a.Y, c.X, c.Y, bm.X, bm.Y, bm.Cols, bm.Rows, func(b int, must bool) {
			if bad != "" {
				return
			}
			if b < 0 {
				bad = fmt.Sprintf("linedef %d (%d,%d)-(%d,%d) leaves the grid at %d,%d %dx%d", li, a.X, a.Y, c.X, c.Y, bm.X, bm.Y, bm.Cols, bm.Rows)
				return
			}
			may[b][li] = true
			if must && !sets[b][li] {
				bad = fmt.Sprintf("block %d (col %d row %d of %dx%d at %d,%d) lacks linedef %d (%d,%d)-(%d,%d)", b, b%bm.Cols, b/bm.Cols, bm.Cols, bm.Rows, bm.X, bm.Y, li, a.X, a.Y, c.X, c.Y)
			}
		})
		if bad != "" {
			return bad
		}
	}
	if !o.Lossy {
		for b := range sets {
			for v := range sets[b] {
				if !may[b][v] {
					return fmt.Sprintf("block %d lists linedef %d which does not touch it", b, v)
				}
			}
		}
	} else {
		for b := range sets {
			for v := range sets[b] {
				if o.Skip != nil && o.Skip(v) {
					return fmt.Sprintf("block %d lists linedef %d which must be left out", b, v)
				}
			}
		}
	}
	if o.FixOff {
		x0, y0 := 1<<30, 1<<30
		for li, l := range m.Lines {
			if o.Skip != nil && o.Skip(li) {
				continue
			}
			for _, v := range []Vertex{m.Verts[l.V1], m.Verts[l.V2]} {
				x0, y0 = min(x0, v.X), min(y0, v.Y)
			}
		}
		if bm.X != x0-o.OX || bm.Y != y0-o.OY {
			return fmt.Sprintf("origin is (%d,%d), expected (%d,%d)", bm.X, bm.Y, x0-o.OX, y0-o.OY)
		}
	}
	return ""
}
