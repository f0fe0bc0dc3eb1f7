package main

// C18: linedef actions and tags with a meaning of their own.

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"
)

func init() { checks["C18"] = runC18 }

// spAttr: what a line gets.
type spAttr struct {
	Action, Tag int
	NoSeg       int // bit 0: BSPNOSEG on the front side, bit 1: on the back side
	Low         string
	XOff        int
}

func (a spAttr) String() string {
	s := fmt.Sprintf("action %d tag %d", a.Action, a.Tag)
	if a.NoSeg != 0 {
		s += fmt.Sprintf(" %s on sides %d", a.low(), a.NoSeg)
	}
	if a.XOff != 0 {
		s += fmt.Sprintf(" x offset %d", a.XOff)
	}
	return s
}

func (a spAttr) low() string {
	if a.Low == "" {
		return "BSPNOSEG"
	}
	return a.Low
}

// withAttrs copies m and gives some lines attributes.
func withAttrs(m *Map, at map[int]spAttr) *Map {
	c := *m
	c.Lines = append([]Line{}, m.Lines...)
	c.Sides = append([]Side{}, m.Sides...)
	var ks []int
	for l := range at {
		ks = append(ks, l)
	}
	sort.Ints(ks)
	for _, l := range ks {
		a := at[l]
		ln := &c.Lines[l]
		ln.Action, ln.Tag = a.Action, a.Tag
		for i, sd := range []int{ln.Right, ln.Left} {
			if sd == NoSide {
				continue
			}
			c.Sides[sd].XOff = a.XOff
			if a.NoSeg>>uint(i)&1 == 1 {
				c.Sides[sd].Low = a.low()
			}
		}
		c.Desc += fmt.Sprintf("; line %d %v", l, a)
	}
	return &c
}

// spWanted: the documentation on segs of a side.
func spWanted(m *Map) func(line, side int) bool {
	return func(line, side int) bool {
		l := m.Lines[line]
		sd := l.Right
		if side == 1 {
			sd = l.Left
		}
		if m.Sides[sd].Low == "BSPNOSEG" {
			return false
		}
		if m.Hexen {
			return true
		}
		switch {
		case l.Tag == 998 || l.Action == 1086:
			return false
		case l.Action == 1085:
			return side == 1
		case l.Action == 1084:
			return side == 0
		}
		return true
	}
}

func spTurn(m *Map) func(line, side int) (float64, bool) {
	return func(line, side int) (float64, bool) {
		l := m.Lines[line]
		if m.Hexen {
			return 0, false
		}
		switch l.Action {
		case 1080:
			v := float64(l.Tag) * 65536 / 360
			if l.Tag == 999 && l.Left == NoSide {
				v += float64(m.Sides[l.Right].XOff) * 65536 / 360
			}
			return v, false
		case 1082:
			v := float64(l.Tag)
			if l.Tag == 999 && l.Left == NoSide {
				v += float64(m.Sides[l.Right].XOff) * 65536 / 360
			}
			return v, false
		case 1081, 1083:
			v := float64(l.Tag)
			if l.Action == 1081 {
				v = v * 65536 / 360
			}
			if l.Tag == 999 && l.Left == NoSide {
				v += float64(m.Sides[l.Right].XOff) * 65536 / 360
			}
			return v, true
		}
		if l.Tag == 999 && l.Left == NoSide {
			return float64(m.Sides[l.Right].XOff) * 65536 / 360, false
		}
		return 0, false
	}
}

type spBase struct {
	canon, rej string
}

// spCheck judges a level with special lines; base is the level without them.
func spCheck(fmtc byte, base map[*Map]spBase, plain map[*Map]*Map) func(m *Map, o *OutMap) string {
	return func(m *Map, o *OutMap) string {
		t, mo, s := treeOf(m, o)
		if s != "" {
			return s
		}
		if t.Format == "empty" {
			// a node needs a seg on both sides
			w, n := spWanted(m), 0
			for i, l := range m.Lines {
				if w(i, 0) {
					n++
				}
				if l.Left != NoSide && w(i, 1) {
					n++
				}
			}
			if n < 2 {
				return ""
			}
		}
		if s := t.CheckStructure(mo); s != "" {
			return s
		}
		g := &GeoOpts{Tol: 1.01, SameSec: true, Angles: true, Truth: m.Truth, PtStep: 16, Convex: true, SegWanted: spWanted(m), Turn: spTurn(m)}
		if fmtc == 'x' {
			g.Tol = 0.001
		}
		removed, precious := false, false
		for i, l := range m.Lines {
			removed = removed || !g.SegWanted(i, 0) || l.Left != NoSide && !g.SegWanted(i, 1)
			precious = precious || l.Tag >= 900 && l.Tag != 998 && l.Tag != 999
		}
		if removed {
			g.SameSec, g.Truth, g.Convex = false, nil, false
		}
		if s := t.CheckGeometry(mo, g, &GeoStats{}); s != "" {
			return s
		}
		b := base[plain[m]]
		if !removed && !precious {
			for i := range t.Segs {
				t.Segs[i].Angle = 0
			}
			if t.Canon() != b.canon {
				return "the tree differs from that of the level without special lines"
			}
		}
		if string(o.L["REJECT"]) != b.rej {
			return "the reject table differs from that of the level without special lines"
		}
		return CheckBlockmap(o.L["BLOCKMAP"], mo, &BMOpts{Z: 1, Skip: func(l int) bool { return !m.Hexen && m.Lines[l].Tag == 999 }})
	}
}

func (e *Env) specialSegs(jobs *[]mapJob) {
	var bases []*Map
	for _, m := range []*Map{
		patternMap("two rooms", 96, "01"),
		patternMap("bent room", 96, "00", "0."),
		patternMap("ring", 96, "000", "0.0", "012"),
		patternMap("crossing", 96, ".0.", "001", ".2."),
	} {
		bases = append(bases, m)
	}
	// levels whose special lines get split
	star := starRooms()
	var sp []*Map
	for _, m := range []*Map{star, lRoom(0, 0, 96)} {
		mm := m.Clone()
		for i := range mm.Sectors {
			mm.Sectors[i].Floor, mm.Sectors[i].FTex = 0, "FLOOR4_8"
		}
		sp = append(sp, mm)
	}
	bases = append(bases, sp...)
	ds := collect(gridFamily("sp", 2, 1, 3, true, allDiags(2), mats(idMat, wildMat), []int{0}, []int{0}, []bool{false}, oddXS, oddYS))
	st := 9
	if e.Thorough() {
		st = 2
	}
	for i := 0; i < len(ds); i += st {
		bases = append(bases, ds[i])
	}
	var menu []spAttr
	for _, a := range []int{1080, 1081, 1082, 1083} {
		for _, t := range []int{0, 1, 45, 90, 180, 270, 359, 360, 361, 720, 899, 900, 998, 999, 16384, 32767, 32768, 65535} {
			menu = append(menu, spAttr{Action: a, Tag: t})
		}
		menu = append(menu, spAttr{Action: a, Tag: 999, XOff: 90})
	}
	for _, a := range []int{0, 1, 1078, 1079, 1084, 1085, 1086, 1087, 2104, 65535} {
		for _, t := range []int{0, 1, 899, 900, 901, 997, 998, 999, 1000, 65535} {
			menu = append(menu, spAttr{Action: a, Tag: t})
		}
		for ns := 1; ns < 4; ns++ {
			menu = append(menu, spAttr{Action: a, NoSeg: ns})
		}
	}
	for _, x := range []int{0, 1, 45, 90, 179, 180, 181, 270, 360, 361, 32767, -1, -90, -180, -32768} {
		menu = append(menu, spAttr{Tag: 999, XOff: x}, spAttr{Tag: 998, XOff: x}, spAttr{Tag: 900, XOff: x}, spAttr{XOff: x})
	}
	for _, low := range []string{"BSPNOSE", "BSPNOSEH", "ASPNOSEG", "-", "NOSEG"} {
		menu = append(menu, spAttr{NoSeg: 3, Low: low})
	}
	short := []spAttr{{Action: 1080, Tag: 90}, {Action: 1081, Tag: 45}, {Action: 1082, Tag: 1000}, {Action: 1083, Tag: 20000}, {Action: 1084}, {Action: 1085}, {Action: 1086}, {Tag: 998}, {Tag: 999, XOff: 180}, {Tag: 900}, {NoSeg: 1}, {NoSeg: 2}}
	plain := map[*Map]*Map{}
	var maps, small []*Map
	put := func(b *Map, at map[int]spAttr, lite bool) {
		c := withAttrs(b, at)
		plain[c] = b
		maps = append(maps, c)
		if lite {
			small = append(small, c)
		}
	}
	for bi, b := range bases {
		put(b, nil, true)
		for l := range b.Lines {
			for _, a := range menu {
				put(b, map[int]spAttr{l: a}, bi < 2)
			}
		}
		if bi > 1 && !e.Thorough() && len(b.Lines) > 8 {
			continue
		}
		for l := range b.Lines {
			for k := 0; k < l; k++ {
				for _, a1 := range short {
					for _, a2 := range short {
						put(b, map[int]spAttr{l: a1, k: a2}, bi == 1)
					}
				}
			}
		}
		// all lines but one, and all lines
		for _, a := range append(short, spAttr{NoSeg: 3}, spAttr{Action: 1085, NoSeg: 2}) {
			for k := -1; k < len(b.Lines); k++ {
				at := map[int]spAttr{}
				for l := range b.Lines {
					if l != k {
						at[l] = a
					}
				}
				gone := k < 0
				if c := withAttrs(b, at); gone {
					w := spWanted(c)
					for l, ln := range c.Lines {
						gone = gone && !w(l, 0) && (ln.Left == NoSide || !w(l, 1))
					}
				}
				if !gone {
					put(b, at, true)
				}
			}
		}
	}
	run := func(args []string, fmtc byte, ms []*Map) {
		// the levels without special lines
		base := map[*Map]spBase{}
		for _, ch := range chunk(bases, packN) {
			for i, r := range e.RunMaps(args, ch) {
				if r.Err != "" {
					continue
				}
				t, _, s := treeOf(ch[i], r.Out)
				if s != "" {
					continue
				}
				for k := range t.Segs {
					t.Segs[k].Angle = 0
				}
				base[ch[i]] = spBase{t.Canon(), string(r.Out.L["REJECT"])}
			}
		}
		for _, ch := range chunk(ms, packN) {
			*jobs = append(*jobs, mapJob{"special " + strings.Join(args, " "), args, ch, spCheck(fmtc, base, plain)})
		}
	}
	run([]string{"-d", "-bo=0,0"}, 'v', maps)
	run([]string{"-d", "-bo=0,0", "-nc=x"}, 'x', maps)
	run([]string{"-d", "-bo=0,0", "-nc=d"}, 'v', small)
	run([]string{"-d", "-bo=0,0", "-na=1c=z"}, 'x', small)
	run([]string{"-d", "-bo=0,0", "-na=2"}, 'v', small)
	run([]string{"-d", "-bo=0,0", "-na=3"}, 'v', small)
	run([]string{"-d", "-bo=0,0", "--nosymm"}, 'v', small)
	e.R.Extra["special_line_maps"] = map[string]int{"all": len(maps), "short": len(small), "levels": len(bases), "menu": len(menu)}
}

// ---- scrolling walls ----

type scRange struct{ lo, hi int }

// scrollModel: which lines of an input level are copies made by the program and
// how many scrollers each wall must end up with.
func scrollModel(m *Map) (copies map[int]bool, want map[int]scRange, wall func(i int) int) {
	copies = map[int]bool{}
	first := map[[3]int]int{}
	id := func(l Line) [3]int { return [3]int{l.V1, l.V2, l.Right} }
	for i, l := range m.Lines {
		f, seen := first[id(l)]
		_ = f
		if !seen {
			first[id(l)] = i
		} else if l.Action == 48 && l.Tag == 0 && l.Flags == 0 {
			copies[i] = true
		}
	}
	wall = func(i int) int { return first[id(m.Lines[i])] }
	want = map[int]scRange{}
	for i, l := range m.Lines {
		if l.Action == 48 && !copies[i] {
			n := max(1, l.Tag)
			want[i] = scRange{n, n}
		}
	}
	dist := func(a, b int) int {
		p, q := m.Verts[m.Lines[a].V1], m.Verts[m.Lines[b].V1]
		return (p.X-q.X)*(p.X-q.X) + (p.Y-q.Y)*(p.Y-q.Y)
	}
	for i, l := range m.Lines {
		if l.Action != 1048 || l.Tag == 0 {
			continue
		}
		best, tie := -1, false
		for k, o := range m.Lines {
			if k == i || o.Tag != l.Tag || copies[k] {
				continue
			}
			if best >= 0 && dist(i, k) == dist(i, best) {
				tie = true
			}
			if best < 0 || dist(i, k) < dist(i, best) {
				best, tie = k, false
			}
		}
		if best < 0 {
			continue
		}
		if tie {
			return nil, nil, nil // any of them
		}
		p := l.Tag % 100
		w := want[best]
		if m.Lines[best].Action == 48 {
			w.lo, w.hi = min(w.lo, max(p, 1)), w.hi+p
		} else {
			w.lo, w.hi = max(w.lo, p), w.hi+max(p, 1)
		}
		want[best] = w
	}
	return copies, want, wall
}

// scrollCheck: the lines of the output, and what the built structures refer to.
func scrollCheck(nodes, blocks bool) func(m *Map, o *OutMap) string {
	return func(m *Map, o *OutMap) string {
		copies, want, wall := scrollModel(m)
		if copies == nil {
			return ""
		}
		mo, err := DecodeMap(o.L, false)
		if err != nil {
			return err.Error()
		}
		if !nodes && !bytes.Equal(o.L["LINEDEFS"], m.LinesLump()) {
			return "LINEDEFS changed although nodes are not rebuilt"
		}
		in := *m
		skip := map[int]bool{}
		if nodes && blocks {
			// walls first, in their order; copies may have been removed or added
			key := func(x *Map, l Line) [6]int {
				a, b := x.Verts[l.V1], x.Verts[l.V2]
				return [6]int{a.X, a.Y, b.X, b.Y, l.Right, l.Left}
			}
			var walls []int
			idx := map[[6]int]int{}
			in.Lines = nil
			for i, l := range m.Lines {
				if !copies[i] {
					if _, dup := idx[key(m, l)]; !dup {
						idx[key(m, l)] = i
					}
					walls = append(walls, i)
					in.Lines = append(in.Lines, l)
				}
			}
			got := map[int]int{}
			out := *mo
			out.Lines = nil
			n := 0
			for i, l := range mo.Lines {
				if l.V1 >= len(mo.Verts) || l.V2 >= len(mo.Verts) {
					return fmt.Sprintf("linedef %d refers to vertices that are not there", i)
				}
				w, ok := idx[key(mo, l)]
				if n < len(walls) && key(mo, l) == key(m, m.Lines[walls[n]]) && l.Action == m.Lines[walls[n]].Action && l.Tag == m.Lines[walls[n]].Tag && l.Flags == m.Lines[walls[n]].Flags {
					if l.Action == 48 {
						got[walls[n]]++
					}
					out.Lines = append(out.Lines, l)
					n++
					continue
				}
				if !ok || l.Action != 48 || l.Tag != 0 {
					return fmt.Sprintf("linedef %d (%+v) of the output is neither the next wall nor a copy of one", i, l)
				}
				got[w]++
				skip[i] = true
			}
			if n < len(walls) {
				return fmt.Sprintf("linedef %d of the input is lost or changed", walls[n])
			}
			if s := sameLines(&in, &out); s != "" {
				return s
			}
			for _, w := range walls {
				r := want[w]
				if wall(w) != w {
					continue
				}
				if got[w] < r.lo || got[w] > r.hi {
					return fmt.Sprintf("wall %d must scroll %d to %d times, the output has %d scrollers for it", w, r.lo, r.hi, got[w])
				}
			}
		} else {
			for i := range copies {
				skip[i] = true
			}
			if nodes {
				if s := sameLines(m, mo); s != "" {
					return s
				}
			}
		}
		if nodes {
			t, err := DecodeTree(o.L)
			if err != nil {
				return err.Error()
			}
			if s := t.CheckStructure(mo); s != "" {
				return s
			}
			g := &GeoOpts{Tol: 1.01, SameSec: true, Angles: true, Convex: true, SegWanted: func(l, s int) bool { return !skip[l] }}
			if s := t.CheckGeometry(mo, g, &GeoStats{}); s != "" {
				return s
			}
		}
		if blocks {
			if s := CheckBlockmap(o.L["BLOCKMAP"], mo, &BMOpts{Z: 1, Skip: func(l int) bool { return skip[l] }}); s != "" {
				return "blockmap: " + s
			}
		}
		return ""
	}
}

type scRole struct{ line, action int }

// scrollHistory: all histories of tag changes, each followed by a build whose
// output the next change starts from.
func (e *Env) scrollHistory(fam string, start []*Map, edits func(m *Map, depth int) []*Map, depth int, args []string) {
	f := scrollCheck(true, true)
	level := start
	for d := 0; d < depth && !e.Stop(); d++ {
		var ins []*Map
		for _, m := range level {
			ins = append(ins, edits(m, d)...)
		}
		cs := chunk(ins, packN)
		outs := make([][]*Map, len(cs))
		e.Parallel(len(cs), func(i int) {
			if e.Stop() {
				return
			}
			e.judgeMaps(fam, args, cs[i], func(m *Map, o *OutMap) string {
				s := f(m, o)
				if s == "" && d+1 < depth {
					if mo, err := DecodeMap(o.L, false); err == nil {
						mo.Desc = m.Desc + " build"
						outs[i] = append(outs[i], mo)
					}
				}
				return s
			})
		})
		e.R.Count(fmt.Sprintf("%s histories of %d builds", fam, d+1), int64(len(ins)))
		level = nil
		for _, o := range outs {
			level = append(level, o...)
		}
	}
}

func (e *Env) scrollers() {
	room := patternMap("two rooms", 64, "01")
	n := len(room.Lines)
	set := func(m *Map, d string, at map[int][2]int) *Map {
		c := *m
		c.Lines = append([]Line{}, m.Lines...)
		for l, a := range at {
			c.Lines[l].Action, c.Lines[l].Tag = a[0], a[1]
		}
		c.Desc += d
		return &c
	}
	args := []string{"-d", "-r-", "-bo=0,0"}
	tags := []int{0, 1, 2, 4}
	// up to three scrolling walls
	depth := 3
	var start []*Map
	start = append(start, set(room, " walls 0, 1 scroll:", map[int][2]int{0: {48, 0}, 1: {48, 0}}), set(room, " walls 5, 2 scroll:", map[int][2]int{5: {48, 0}, 2: {48, 0}}))
	two := func(m *Map, d int) []*Map {
		var r []*Map
		var w []int
		for l := 0; l < n; l++ {
			if m.Lines[l].Action == 48 {
				w = append(w, l)
			}
		}
		for _, a := range tags {
			for _, b := range tags {
				at := map[int][2]int{w[0]: {48, a}, w[1]: {48, b}}
				r = append(r, set(m, fmt.Sprintf(" tags %d %d", a, b), at))
			}
		}
		return r
	}
	if e.Thorough() {
		depth = 4
	}
	e.scrollHistory("two scrolling walls", start, two, depth, args)
	// a wall, its remote control, and another scrolling wall: every position
	var rem []*Map
	act := map[*Map][3]int{}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for c := 0; c < n; c++ {
				if a == b || b == c || a == c || !e.Thorough() && (a+2*b+c)%5 > 1 {
					continue
				}
				for _, x := range []int{0, 1, 48} {
					m := set(room, fmt.Sprintf(" remote %d wall %d (action %d) scroller %d:", a, b, x, c), map[int][2]int{a: {1048, 0}, b: {x, 0}, c: {48, 0}})
					act[m] = [3]int{a, b, x}
					rem = append(rem, m)
				}
			}
		}
	}
	roles := func(m *Map) (a, b, x, c int) {
		fmt.Sscanf(m.Desc[strings.Index(m.Desc, " remote "):], " remote %d wall %d (action %d) scroller %d:", &a, &b, &x, &c)
		return
	}
	redit := func(m *Map, d int) []*Map {
		a, b, x, c := roles(m)
		var r []*Map
		for _, t := range []int{1, 3, 102, 100} {
			for _, u := range []int{0, 2} {
				r = append(r, set(m, fmt.Sprintf(" tags %d %d", t, u), map[int][2]int{a: {1048, t}, b: {x, t}, c: {48, u}}))
			}
		}
		return r
	}
	e.scrollHistory("remote control", rem, redit, 2, args)
	if e.Thorough() {
		e.scrollHistory("remote control, deeper", rem[:min(len(rem), 30)], redit, 3, args)
	}
	// who is nearest: one control, candidates all around, same tag or another
	var near []*Map
	for a := 0; a < n; a++ {
		for mask := 0; mask < 1<<uint(n); mask++ {
			if mask>>uint(a)&1 == 1 {
				continue
			}
			for _, t := range []int{2, 201} {
				at := map[int][2]int{a: {1048, t}}
				for l := 0; l < n; l++ {
					if l == a {
						continue
					}
					if mask>>uint(l)&1 == 1 {
						at[l] = [2]int{l % 3, t}
					} else {
						at[l] = [2]int{0, t % 100 * (l % 2) * 7}
					}
				}
				near = append(near, set(room, fmt.Sprintf(" control %d mask %b tag %d", a, mask, t), at))
			}
		}
	}
	e.scrollHistory("nearest wall", near, func(m *Map, d int) []*Map { return []*Map{m} }, 2, args)
	// several controls, chains, controls of each other
	var multi []*Map
	acts := [][2]int{{0, 1}, {48, 1}, {1048, 1}, {1048, 2}, {1, 2}, {48, 2}}
	k := 4
	idx := make([]int, k)
	for {
		at := map[int][2]int{}
		for i, x := range idx {
			at[i*2%n] = acts[x]
		}
		multi = append(multi, set(room, fmt.Sprintf(" lines 0 2 4 6 are %v", idx), at))
		i := 0
		for ; i < k; i++ {
			if idx[i]++; idx[i] < len(acts) {
				break
			}
			idx[i] = 0
		}
		if i == k {
			break
		}
	}
	e.scrollHistory("several controls", multi, func(m *Map, d int) []*Map { return []*Map{m} }, 2, args)
	// copies present while only one of the structures is built
	var built []*Map
	for i := 0; i < len(start); i++ {
		for _, t := range [][2]int{{1, 1}, {3, 1}, {2, 4}} {
			var w []int
			for l := 0; l < n; l++ {
				if start[i].Lines[l].Action == 48 {
					w = append(w, l)
				}
			}
			built = append(built, set(start[i], fmt.Sprint(" tags ", t), map[int][2]int{w[0]: {48, t[0]}, w[1]: {48, t[1]}}))
		}
	}
	for _, m := range rem[:min(len(rem), 60)] {
		built = append(built, redit(m, 0)...)
	}
	var outs []*Map
	for _, ch := range chunk(built, packN) {
		for _, r := range e.RunMaps(args, ch) {
			if r.Err == "" {
				if mo, err := DecodeMap(r.Out.L, false); err == nil {
					mo.Desc = r.In.Desc + " built"
					outs = append(outs, mo)
				}
			}
		}
	}
	ins := append(append([]*Map{}, built...), outs...)
	e.judgeMaps("nodes only", []string{"-d", "-r-", "-b-"}, ins, scrollCheck(true, false))
	e.judgeMaps("blockmap only", []string{"-d", "-r-", "-n-", "-bo=0,0"}, ins, scrollCheck(false, true))
	// Hexen levels have no such thing
	var hex []*Map
	for l := 0; l < n; l++ {
		for _, a := range []int{48, 1048 & 255, 100, 102} {
			for _, arg := range []byte{0, 2, 48, 255} {
				c := *room
				c.Hexen = true
				c.Lines = append([]Line{}, room.Lines...)
				c.Lines[l].Action, c.Lines[l].Args[0] = a, arg
				c.Desc += fmt.Sprintf(" Hexen, line %d action %d argument %d", l, a, arg)
				hex = append(hex, &c)
			}
		}
	}
	e.judgeMaps("hexen", args, hex, geoCheck('v', nil))
}

func runC18(e *Env) {
	e.R.Rule = "a case is one level with chosen actions, tags and textures built once; histories of tag changes count each build"
	var jobs []mapJob
	e.specialSegs(&jobs)
	e.runJobs(jobs)
	e.scrollers()
	e.preciousLines()
}

var _ = math.Pi

// ---- precious lines ----

func lineSide(px, py, dx, dy, x, y float64) float64 {
	return ((y-py)*dx - (x-px)*dy) / math.Hypot(dx, dy)
}

// avoidable: a node that splits a precious line while another line of that node
// is a partition that splits none. mayTouch says whether a partition that goes
// through an end of a precious piece is as good as one that does not.
func (t *Tree) avoidable(m *Map, prec func(line, side int) bool, mayTouch func(px, py, dx, dy float64, line, side int) bool, what string) string {
	type piece struct {
		line, side     int
		x1, y1, x2, y2 float64
	}
	var segsOf func(n int, leaf bool) []int
	segsOf = func(n int, leaf bool) []int {
		if leaf {
			var r []int
			for k := t.First[n]; k < t.First[n]+t.Count[n]; k++ {
				r = append(r, k)
			}
			return r
		}
		return append(segsOf(t.Nodes[n].Child[0], t.Nodes[n].Leaf[0]), segsOf(t.Nodes[n].Child[1], t.Nodes[n].Leaf[1])...)
	}
	side := lineSide
	for n := range t.Nodes {
		ps := map[[2]int]*piece{}
		var keys [][2]int
		for _, k := range segsOf(n, false) {
			sg := t.Segs[k]
			key := [2]int{sg.Line, sg.Side}
			x1, y1, x2, y2 := t.VX[sg.V1], t.VY[sg.V1], t.VX[sg.V2], t.VY[sg.V2]
			p := ps[key]
			if p == nil {
				ps[key] = &piece{sg.Line, sg.Side, x1, y1, x2, y2}
				keys = append(keys, key)
				continue
			}
			l := m.Lines[sg.Line]
			a, b := m.Verts[l.V1], m.Verts[l.V2]
			dx, dy := float64(b.X-a.X), float64(b.Y-a.Y)
			if sg.Side == 1 {
				dx, dy = -dx, -dy
			}
			if x1*dx+y1*dy < p.x1*dx+p.y1*dy {
				p.x1, p.y1 = x1, y1
			}
			if x2*dx+y2*dy > p.x2*dx+p.y2*dy {
				p.x2, p.y2 = x2, y2
			}
		}
		// clear: no precious piece is split by the line or ends at it
		clear := func(px, py, dx, dy float64) bool {
			for _, k := range keys {
				p := ps[k]
				if !prec(p.line, p.side) {
					continue
				}
				a, b := side(px, py, dx, dy, p.x1, p.y1), side(px, py, dx, dy, p.x2, p.y2)
				on := math.Abs(a) < 0.001 && math.Abs(b) < 0.001
				if on {
					continue
				}
				if a*b < 0 && math.Min(math.Abs(a), math.Abs(b)) > 0.001 {
					return false
				}
				if math.Min(math.Abs(a), math.Abs(b)) < 1.01 && (mayTouch == nil || !mayTouch(px, py, dx, dy, p.line, p.side)) {
					return false
				}
			}
			return true
		}
		splits := func(px, py, dx, dy, tol float64) int {
			c := 0
			for _, k := range keys {
				p := ps[k]
				if !prec(p.line, p.side) {
					continue
				}
				a, b := side(px, py, dx, dy, p.x1, p.y1), side(px, py, dx, dy, p.x2, p.y2)
				if a > tol && b < -tol || a < -tol && b > tol {
					c++
				}
			}
			return c
		}
		// inside one sector the nodes only make it convex
		many := false
		for _, k := range keys {
			many = many || m.sideSector(k[0], k[1]) != m.sideSector(keys[0][0], keys[0][1])
		}
		if !many {
			continue
		}
		nd := t.Nodes[n]
		bad := splits(float64(nd.X), float64(nd.Y), float64(nd.DX), float64(nd.DY), 1.01)
		if bad == 0 {
			continue
		}
		for _, k := range keys {
			q := ps[k]
			dx, dy := q.x2-q.x1, q.y2-q.y1
			if !clear(q.x1, q.y1, dx, dy) {
				continue
			}
			if t.Format != "vanilla" && t.Format != "deep" {
				// partitions that nearly go through an end of a piece, or are cut off
				// somewhere between whole numbers, are not compared
				near := q.x1 != math.Trunc(q.x1) || q.y1 != math.Trunc(q.y1) || q.x2 != math.Trunc(q.x2) || q.y2 != math.Trunc(q.y2)
				for _, k2 := range keys {
					p := ps[k2]
					for _, d := range []float64{side(q.x1, q.y1, dx, dy, p.x1, p.y1), side(q.x1, q.y1, dx, dy, p.x2, p.y2)} {
						near = near || d != 0 && math.Abs(d) < 0.1
					}
				}
				if near {
					continue
				}
			}
			left := false
			for _, k2 := range keys {
				p := ps[k2]
				left = left || side(q.x1, q.y1, dx, dy, p.x1, p.y1) > 1.01 || side(q.x1, q.y1, dx, dy, p.x2, p.y2) > 1.01
			}
			if left {
				return fmt.Sprintf("node %d splits %d %s segs, a partition along linedef %d side %d would split none", n, bad, what, q.line, q.side)
			}
		}
	}
	return ""
}

// preciousCheck: on lines with a tag of 900 or more.
func preciousCheck(m *Map, o *OutMap) string {
	t, mo, s := treeOf(m, o)
	if s != "" {
		return s
	}
	if s := t.CheckStructure(mo); s != "" {
		return s
	}
	return t.avoidable(m, func(l, _ int) bool { g := m.Lines[l].Tag; return g >= 900 && g != 998 && g != 999 }, nil, "precious")
}

func (e *Env) preciousLines() {
	bases := collect(
		gridFamily("pr3x3", 3, 3, 1, false, nil, mats(idMat), []int{2}, []int{0}, []bool{false}, oddXS, oddYS),
		gridFamily("pr3x2", 3, 2, 2, false, nil, mats(idMat, shearMat), []int{2}, []int{0}, []bool{false}, oddXS, oddYS))
	var maps []*Map
	for _, b := range bases {
		for l := range b.Lines {
			maps = append(maps, withAttrs(b, map[int]spAttr{l: {Tag: 900}}))
			for k := 0; k < l && e.Thorough(); k++ {
				maps = append(maps, withAttrs(b, map[int]spAttr{l: {Tag: 900}, k: {Tag: 65535}}))
			}
		}
	}
	e.R.Extra["precious_maps"] = len(maps)
	for _, a := range [][]string{{"-na=0"}, {"-na=1"}, {"-na=2"}, {"-na=3"}, {"-na=4"}, {"-na=0", "-nc=x"}, {"-na=4", "-nc=x"}} {
		var jobs []mapJob
		for _, ch := range chunk(maps, packN) {
			jobs = append(jobs, mapJob{"precious", append([]string{"-d", "-b-", "-r-"}, a...), ch, preciousCheck})
		}
		e.runJobs(jobs)
	}
}
