package main

// C05: BLOCKMAP lump under every blockmap option.

import (
	"fmt"
	"sort"
	"strings"
)

// latticeMaps: every ordered pair of lattice points as a line, per lines to a map,
// with an anchor that fixes the grid origin.
func latticeMaps(name string, pts []int, ax, ay, per int) []*Map {
	var res []*Map
	var m *Map
	flush := func() {
		if m != nil {
			m.Desc += fmt.Sprintf(" ..%d lines", len(m.Lines))
			res = append(res, m)
		}
		m = nil
	}
	for _, x1 := range pts {
		for _, y1 := range pts {
			for _, x2 := range pts {
				for _, y2 := range pts {
					if m == nil {
						m = &Map{Desc: fmt.Sprintf("%s anchor %d,%d from (%d,%d)-(%d,%d)", name, ax, ay, x1, y1, x2, y2)}
						addSectors(m, 2)
						addLine(m, ax, ay+8, ax, ay, 0, -1)
						addLine(m, ax, ay, ax+8, ay, 0, -1)
						m.Things = []Thing{{X: ax + 2, Y: ay + 2, Type: 1, Flags: 7}}
					}
					addLine(m, ax+x1, ay+y1, ax+x2, ay+y2, 0, 1)
					if len(m.Lines) >= per {
						flush()
					}
				}
			}
		}
	}
	flush()
	return res
}

// gridLinesMap: cols x rows blocks (of 128) with a short line in chosen blocks.
func roomMap(w, h, ox, oy int) *Map {
	m := &Map{Desc: fmt.Sprintf("room %dx%d", w, h)}
	addSectors(m, 1)
	addLine(m, ox, oy, ox, oy+h, 0, -1)
	addLine(m, ox, oy+h, ox+w, oy+h, 0, -1)
	addLine(m, ox+w, oy+h, ox+w, oy, 0, -1)
	addLine(m, ox+w, oy, ox, oy, 0, -1)
	m.Things = []Thing{{X: ox + 8, Y: oy + 8, Type: 1, Flags: 7}}
	return m
}

// pairsMap: p pairs of horizontally adjacent blocks; a long line in both, a short one in the left block only.
func pairsMap(perRow, rows, extra int) *Map {
	m := &Map{Desc: fmt.Sprintf("%dx%d block pairs, %d extra lines", perRow, rows, extra)}
	addSectors(m, 1)
	w, h := perRow*256-10, rows*128-10
	ox, oy := -w/2, -h/2
	vert := func(x, y int) int { m.Verts = append(m.Verts, Vertex{x, y}); return len(m.Verts) - 1 }
	sd := addSide(m, 0, true)
	line := func(x1, y1, x2, y2 int) {
		m.Lines = append(m.Lines, Line{V1: vert(x1, y1), V2: vert(x2, y2), Flags: 4, Right: sd, Left: sd})
	}
	line(ox, oy, ox, oy+4)
	line(ox+w, oy+h, ox+w-3, oy+h)
	for r := 0; r < rows; r++ {
		for p := 0; p < perRow; p++ {
			x, y := ox+p*256, oy+r*128
			line(x+20, y+40, x+190, y+50)
			line(x+30, y+60, x+40, y+70)
		}
	}
	for i := 0; i < extra; i++ {
		line(ox+10+i%60, oy+10+i/60, ox+14+i%60, oy+10+i/60)
	}
	m.Things = []Thing{{X: 0, Y: 0, Type: 1, Flags: 7}}
	return m
}

func listKey(l []int) string { return fmt.Sprint(l) }

// plainSize: words a blockmap needs when only identical lists are merged.
func (b *BMap) plainSize() int {
	seen := map[string]bool{}
	n := 4 + b.Cols*b.Rows
	for _, l := range b.Lists {
		k := listKey(l)
		if !seen[k] {
			seen[k] = true
			n += len(l) + 1
		}
	}
	return n
}

func bmSelf(o *BMOpts, plain bool) func(m *Map, out *OutMap) string {
	return func(m *Map, out *OutMap) string {
		mo, err := DecodeMap(out.L, m.Hexen)
		if err != nil {
			return err.Error()
		}
		if s := sameLines(m, mo); s != "" {
			return s
		}
		lump := out.L["BLOCKMAP"]
		if len(lump) == 0 {
			return "BLOCKMAP is empty"
		}
		op := *o
		tagged := func(l int) bool { return !m.Hexen && m.Lines[l].Tag == 999 }
		if o.Skip == nil {
			op.Skip = tagged
		} else {
			op.Skip = func(l int) bool { return tagged(l) || o.Skip(l) }
		}
		if m.BMSkip != nil && o.Removal {
			op.Skip = func(l int) bool { return tagged(l) || m.BMSkip(l) }
		}
		if s := CheckBlockmap(lump, mo, &op); s != "" {
			return s
		}
		b, _ := DecodeBlockmap(lump)
		if plain {
			if w := b.plainSize(); b.Bytes/2 > w {
				return fmt.Sprintf("%d words although identical lists merged need %d", b.Bytes/2, w)
			}
		}
		return ""
	}
}

func bmDecoded(o *OutMap, z int) (*BMap, []string, error) {
	b, err := DecodeBlockmap(o.L["BLOCKMAP"])
	if err != nil {
		return nil, nil, err
	}
	var r []string
	for _, l := range b.Lists {
		if z > 0 && len(l) > 0 {
			l = l[1:]
		}
		l = append([]int{}, l...)
		sort.Ints(l)
		r = append(r, listKey(l))
	}
	return b, r, nil
}

// sameLists: the same decoded lists (as sets) and not larger than the base.
func sameLists(zb, zo int, self func(m *Map, o *OutMap) string, noLarger bool) func(m *Map, base, o *OutMap) string {
	return func(m *Map, base, o *OutMap) string {
		if s := self(m, o); s != "" {
			return s
		}
		a, la, err := bmDecoded(base, zb)
		if err != nil {
			return "base: " + err.Error()
		}
		b, lb, err := bmDecoded(o, zo)
		if err != nil {
			return err.Error()
		}
		if a.X != b.X || a.Y != b.Y || a.Cols != b.Cols || a.Rows != b.Rows {
			return fmt.Sprintf("grid differs: (%d,%d) %dx%d / (%d,%d) %dx%d", a.X, a.Y, a.Cols, a.Rows, b.X, b.Y, b.Cols, b.Rows)
		}
		for i := range la {
			if la[i] != lb[i] {
				return fmt.Sprintf("block %d lists %s, without compression %s", i, lb[i], la[i])
			}
		}
		if noLarger && b.Bytes > a.Bytes {
			return fmt.Sprintf("compressed blockmap has %d bytes, uncompressed %d", b.Bytes, a.Bytes)
		}
		return ""
	}
}

// noneList reports the removal expectation of one crafted line.
type remCase struct {
	m    *Map
	desc string
}

// removalMaps: two rooms joined by one line with every combination of the
// attributes the removal rules speak of; line 0 is the joint.
func removalMaps(thorough bool) []*Map {
	var res []*Map
	stairs := []int{0, 1, 7, 8, 9, 100, 127, 256, 257, 258, 259, 146, 155, 191, 0x3000, 0x33FF, 0x2FFF, 0x3400}
	build := func(same bool, flags, action, fl, cl, tagA, tagB, spA, spB, stair int, hexen bool) {
		m := &Map{Hexen: hexen}
		addSectors(m, 2)
		m.Sectors[0].Tag, m.Sectors[1].Tag = tagA, tagB
		m.Sectors[0].Special, m.Sectors[1].Special = spA, spB
		m.Sectors[0].Floor, m.Sectors[1].Floor = 0, fl
		m.Sectors[0].Ceil, m.Sectors[1].Ceil = 128, 128+cl
		b := 1
		if same {
			b = 0
		}
		if same { // one room cut by a line from wall to wall
			addLine(m, 200, 0, 200, 100, 0, 0)
			addLine(m, 0, 0, 0, 200, 0, -1)
			addLine(m, 0, 200, 400, 200, 0, -1)
			addLine(m, 400, 200, 400, 0, 0, -1)
			addLine(m, 400, 0, 200, 0, 0, -1)
			addLine(m, 200, 0, 0, 0, 0, -1)
		} else {
			addLine(m, 200, 0, 200, 200, b, 0)
			addLine(m, 0, 0, 0, 200, 0, -1)
			addLine(m, 0, 200, 200, 200, 0, -1)
			addLine(m, 200, 200, 400, 200, 1, -1)
			addLine(m, 400, 200, 400, 0, 1, -1)
			addLine(m, 400, 0, 200, 0, 1, -1)
			addLine(m, 200, 0, 0, 0, 0, -1)
		}
		m.Lines[0].Flags = 4 | flags
		m.Lines[0].Action = action
		if stair != 0 {
			m.Lines[len(m.Lines)-1].Action = stair
		}
		multi := hexen
		for _, l := range m.Lines {
			switch l.Action {
			case 7, 8, 9, 100, 127, 256, 257, 258, 259, 146, 155, 191, 106, 107:
				multi = true
			}
			if l.Action >= 0x3000 && l.Action <= 0x33FF {
				multi = true
			}
		}
		gone := flags == 0 && action == 0
		if !same {
			timed := func(s int) bool { return s == 10 || s == 14 }
			gone = gone && fl == 0 && cl == 0 && tagA == 0 && tagB == 0 && !timed(spA) && !timed(spB) && !multi
		}
		m.BMSkip = func(l int) bool { return l == 0 && gone }
		m.Desc = fmt.Sprintf("removal same=%v flags=%d action=%d dfloor=%d dceil=%d tags=%d,%d specials=%d,%d other=%d hexen=%v", same, flags, action, fl, cl, tagA, tagB, spA, spB, stair, hexen)
		m.Things = []Thing{{X: 10, Y: 10, Type: 1, Flags: 7}}
		res = append(res, m)
	}
	for _, same := range []bool{true, false} {
		for _, hexen := range []bool{false, true} {
			for _, flags := range []int{0, 1, 2, 3} {
				for _, action := range []int{0, 1} {
					for _, fl := range []int{0, 8, -8} {
						for _, cl := range []int{0, 8, -8} {
							for _, tags := range [][2]int{{0, 0}, {1, 0}, {0, 1}, {2, 2}} {
								for _, sp := range [][2]int{{0, 0}, {10, 0}, {0, 10}, {14, 0}, {0, 14}, {9, 9}} {
									odd := 0
									for _, b := range []bool{flags != 0, action != 0, fl != 0, cl != 0, tags != [2]int{}, sp != [2]int{}} {
										if b {
											odd++
										}
									}
									if odd > 3 && !thorough {
										continue
									}
									if same && (fl != 0 || cl != 0) {
										continue
									}
									build(same, flags, action, fl, cl, tags[0], tags[1], sp[0], sp[1], 0, hexen)
									if odd == 0 {
										for _, st := range stairs {
											if hexen && st > 255 {
												continue
											}
											build(same, flags, action, fl, cl, tags[0], tags[1], sp[0], sp[1], st, hexen)
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return res
}

func init() {
	checks["C05"] = func(e *Env) {
		e.R.Rule = "one case = one map under one blockmap option set; the lump is decoded completely and compared line by line with exact clipping of every line against every block"
		var jobs []func()
		bm := func(o string, more ...string) []string { return append([]string{"-n-", "-r-", "-b" + o}, more...) }
		judge := func(fam string, args []string, ms []*Map, per int, f func(m *Map, o *OutMap) string) {
			for _, c := range chunk(ms, per) {
				jobs = append(jobs, func() { e.judgeMaps(fam, args, c, f) })
			}
		}
		group := func(fam string, base []string, ms []*Map, per int, self func(m *Map, o *OutMap) string, alts []groupAlt) {
			for _, c := range chunk(ms, per) {
				jobs = append(jobs, func() { e.judgeGroup(fam, base, self, alts, c) })
			}
		}
		// 1. every lattice line, several alignments
		pts := []int{0, 1, 2, 64, 100, 127, 128, 129, 192, 255, 256, 257, 300, 384, 511, 513}
		if e.Thorough() {
			pts = []int{0, 1, 2, 31, 63, 64, 65, 90, 100, 127, 128, 129, 130, 191, 192, 233, 255, 256, 257, 300, 333, 383, 384, 385, 470, 511, 512, 513, 640, 700}
		}
		nl := 0
		for _, an := range [][2]int{{0, 0}, {-300, 77}, {-32768, -32768}} {
			ms := latticeMaps("lattice", pts, an[0], an[1], 500)
			nl += len(ms)
			for _, off := range []string{"0,0", "8,8", "127,1"} {
				if an[0] == -32768 && off != "0,0" {
					continue
				}
				var ox, oy int
				fmt.Sscanf(off, "%d,%d", &ox, &oy)
				judge("lattice", bm("z=0o="+off), ms, 4, bmSelf(&BMOpts{Z: 0, FixOff: true, OX: ox, OY: oy}, true))
			}
		}
		long := latticeMaps("far", []int{0, 1, 5000, 20000, 32767, 65534}, -32768, -32767, 200)
		judge("far", bm("z=0o=0"), long, 1, func(m *Map, o *OutMap) string {
			if len(o.L["BLOCKMAP"]) == 0 {
				return "" // too large for the format
			}
			return bmSelf(&BMOpts{Z: 0}, true)(m, o)
		})
		// 2. compression and headers on whole maps
		var fam []*Map
		big := []int{0, 128, 255, 400, 640}
		big2 := []int{0, 130, 256, 511, 600}
		fam = append(fam, collect(
			gridFamily("b2x2", 2, 2, 3, false, nil, mats(idMat, [4]int{3, 0, 0, 2}, rotMat), []int{0, 2}, []int{0}, []bool{false, true}, big, big2),
			gridFamily("bt2x1", 2, 1, 3, true, allDiags(2), mats([4]int{2, 0, 0, 2}, wildMat), []int{0}, []int{0, 1}, []bool{true}, big, big2))...)
		lat := latticeMaps("lattice", []int{0, 127, 128, 300, 513}, -64, 32, 60)
		sets := []*Map{}
		for _, nr := range [][2]int{{1, 1}, {2, 3}, {5, 4}} {
			sets = append(sets, pairsMap(nr[0], nr[1], 0), pairsMap(nr[0], nr[1], 7))
		}
		sets = append(sets, subsetMaps(e.Thorough())...)
		for _, tg := range []int{1, 2, 3} { // tag 999
			for _, m := range append(lat[:4:4], fam[:20]...) {
				c := m.Clone()
				for i := range c.Lines {
					if i%(tg+1) == 0 {
						c.Lines[i].Tag = 999
					}
				}
				c.Desc = fmt.Sprintf("tag999 every %d: %s", tg+1, m.Desc)
				c.BMSkip = nil
				sets = append(sets, c)
			}
		}
		all := append(append(append([]*Map{}, fam...), lat...), sets...)
		for z := 0; z <= 2; z++ {
			b := fmt.Sprintf("o=8,24z=%d", z)
			if z == 1 {
				b = "o=8,24"
			}
			selfS := bmSelf(&BMOpts{Z: z, FixOff: true, OX: 8, OY: 24, Subset: true}, false)
			group("compress", bm(b), all, 200, bmSelf(&BMOpts{Z: z, FixOff: true, OX: 8, OY: 24}, true), []groupAlt{
				{bm(b + "s"), sameLists(z, z, selfS, true)},
				{bm(b + "s+"), sameLists(z, z, selfS, true)},
				{bm(b + "s?"), sameLumps([]string{"BLOCKMAP"})},
				{bm(b + "a?"), sameLumps([]string{"BLOCKMAP"})},
				{bm(b + "s?a?"), sameLumps([]string{"BLOCKMAP"})},
				{bm(b + "e=1"), sameLumps([]string{"BLOCKMAP"})},
				{bm(b + "a"), func(m *Map, base, o *OutMap) string {
					if s := bmSelf(&BMOpts{Z: z, FixOff: true, OX: 8, OY: 24, Lossy: true}, false)(m, o); s != "" {
						return s
					}
					if len(o.L["BLOCKMAP"]) > len(base.L["BLOCKMAP"]) {
						return "lossy blockmap is larger than the plain one"
					}
					return ""
				}},
				{bm(b, "-d"), sameLumps([]string{"BLOCKMAP"})},
			})
		}
		group("headers", bm("o=0z=0"), all, 200, bmSelf(&BMOpts{Z: 0, FixOff: true}, true), []groupAlt{
			{bm("o=0"), sameLists(0, 1, bmSelf(&BMOpts{Z: 1, FixOff: true}, true), false)},
			{bm("o=0z=1"), sameLists(0, 1, bmSelf(&BMOpts{Z: 1, FixOff: true}, true), false)},
			{bm("o=0z=2"), sameLists(0, 2, bmSelf(&BMOpts{Z: 2, FixOff: true}, true), false)},
			{bm("o=0,0z=2"), sameLists(0, 2, bmSelf(&BMOpts{Z: 2, FixOff: true}, true), false)},
			{bm("o=1z=2"), func(m *Map, base, o *OutMap) string {
				return bmSelf(&BMOpts{Z: 2, FixOff: true, OX: 8, OY: 8}, true)(m, o)
			}},
			{bm("o=3,100z=0"), func(m *Map, base, o *OutMap) string {
				return bmSelf(&BMOpts{Z: 0, FixOff: true, OX: 3, OY: 100}, true)(m, o)
			}},
		})
		// 3. removal of lines
		rem := removalMaps(e.Thorough())
		e.R.Extra["removal_maps"] = len(rem)
		for _, hx := range []bool{false, true} {
			var part []*Map
			for _, m := range rem {
				if m.Hexen == hx {
					part = append(part, m)
				}
			}
			judge("removal", bm("o=0r"), part, 300, bmSelf(&BMOpts{Z: 1, FixOff: true, Removal: true}, false))
			judge("noremoval", bm("o=0r-"), part, 300, bmSelf(&BMOpts{Z: 1, FixOff: true}, false))
			judge("removalz0", bm("z=0o=8,8r"), part, 300, bmSelf(&BMOpts{Z: 0, FixOff: true, OX: 8, OY: 8, Removal: true}, false))
		}
		var sr []*Map
		for _, m := range collect(selfRefFamily("bsr", 3, 100, false), selfRefFamily("bsrs", 3, 100, true)) {
			c := m.Clone()
			for i := range c.Lines {
				c.Lines[i].Tag = 0
			}
			t := m
			c.Desc = m.Desc
			c.BMMay = func(l int) bool { return t.Lines[l].Tag != 0 }
			sr = append(sr, c)
		}
		judge("perimeter", bm("o=0r"), sr, 300, func(m *Map, o *OutMap) string {
			// perimeters of self-referencing sectors stay, inner lines may go
			b, err := DecodeBlockmap(o.L["BLOCKMAP"])
			if err != nil {
				return err.Error()
			}
			in := map[int]bool{}
			for _, l := range b.Lists {
				for _, v := range l[1:] {
					in[v] = true
				}
			}
			return bmSelf(&BMOpts{Z: 1, FixOff: true, Skip: func(l int) bool { return m.BMMay(l) && !in[l] }}, false)(m, o)
		})
		// 4. offset search
		e.offsetSearch(&jobs, fam, lat, sets)
		// 5. limits
		e.bmLimits(&jobs)
		e.R.Extra["maps"] = map[string]int{"lattice": nl, "families": len(fam), "lists": len(sets), "selfref": len(sr)}
		e.Parallel(len(jobs), func(i int) { jobs[i]() })
	}
}

// subsetMaps: small sets of lines so that every family of block lists over three
// adjacent blocks occurs (each line covers a run of blocks).
func subsetMaps(thorough bool) []*Map {
	runs := [][2]int{{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {0, 2}}
	var res []*Map
	maxn := 1
	if thorough {
		maxn = 2
	}
	cnt := make([]int, len(runs))
	var rec func(i int)
	rec = func(i int) {
		if i == len(runs) {
			m := &Map{Desc: fmt.Sprintf("runs %v", cnt)}
			addSectors(m, 2)
			addLine(m, 0, 4, 0, 0, 0, -1)
			addLine(m, 383, 8, 383, 4, 0, -1)
			y := 10
			for r, n := range cnt {
				for k := 0; k < n; k++ {
					addLine(m, runs[r][0]*128+10, y, runs[r][1]*128+100, y+3, 0, 1)
					y += 5
				}
			}
			m.Things = []Thing{{X: 3, Y: 3, Type: 1, Flags: 7}}
			res = append(res, m)
			return
		}
		for v := 0; v <= maxn; v++ {
			cnt[i] = v
			rec(i + 1)
		}
	}
	rec(0)
	return res
}

// offsetSearch: o=2/3/4 must be as good as the best fixed offset of their range.
func (e *Env) offsetSearch(jobs *[]func(), fam, lat, sets []*Map) {
	var ms []*Map
	for i, m := range fam {
		if i%7 == 0 || e.Thorough() {
			ms = append(ms, m)
		}
	}
	ms = append(ms, lat[0], lat[1])
	for i := 0; i < 6; i++ {
		ms = append(ms, sets[i])
	}
	rw := roomMap(1000, 4000, -500, -2000)
	ms = append(ms, rw, roomMap(2180, 140, -32768, -32760), roomMap(120, 120, 30, 40))
	if len(ms) > 60 && !e.Thorough() {
		ms = ms[len(ms)-60:]
	}
	type res struct {
		size, x, y int
		over       int // 0 fits vanilla, 1 unsigned, 2 not at all
	}
	measure := func(args []string, c []*Map) ([]res, string) {
		r := make([]res, len(c))
		for i, q := range e.RunMaps(args, c) {
			if q.Err != "" {
				return nil, q.Err
			}
			lump := q.Out.L["BLOCKMAP"]
			if len(lump) == 0 {
				r[i] = res{over: 2}
				continue
			}
			b, err := DecodeBlockmap(lump)
			if err != nil {
				return nil, err.Error()
			}
			r[i] = res{size: len(lump), x: b.X, y: b.Y}
			for _, o := range b.Offs {
				if o > 32767 {
					r[i].over = 1
				}
			}
		}
		return r, ""
	}
	worse := func(a, b res) bool { return a.over > b.over || (a.over == b.over && a.size > b.size) }
	opts := []string{"", "z=0", "z=2s", "s"}
	for _, op := range opts {
		*jobs = append(*jobs, func() {
			var grid [][2]int
			for y := 0; y <= 40; y += 8 {
				for x := 0; x <= 40; x += 8 {
					grid = append(grid, [2]int{x, y})
				}
			}
			base := func(o string) []string { return []string{"-n-", "-r-", "-b" + o + op} }
			best := make([]res, len(ms))
			has := make([]map[[2]int]bool, len(ms))
			for k, g := range grid {
				r, err := measure(base(fmt.Sprintf("o=%d,%d", g[0], g[1])), ms)
				if err != "" {
					e.Fail(Violation{Key: hashKey("off", op, fmt.Sprint(g)), Msg: err, Args: base(fmt.Sprintf("o=%d,%d", g[0], g[1])), Files: map[string][]byte{"in.wad": packMaps(ms)}})
					return
				}
				for i := range r {
					if k == 0 || worse(best[i], r[i]) {
						best[i] = r[i]
					}
					if has[i] == nil {
						has[i] = map[[2]int]bool{}
					}
					has[i][[2]int{r[i].x, r[i].y}] = true
				}
			}
			for _, o := range []string{"o=2", "o=2t=1", "o=2t=3", ""} {
				for _, d := range []string{"", "-d"} {
					args := base(o)
					if d != "" {
						args = append(args, d)
					}
					r, err := measure(args, ms)
					for i := range r {
						e.R.Case("search"+strings.Join(args, " ")+ms[i].Desc, true)
						if err == "" && worse(r[i], best[i]) {
							err = fmt.Sprintf("chose %d bytes at (%d,%d), offsets up to 40 give %d bytes [%s]", r[i].size, r[i].x, r[i].y, best[i].size, ms[i].Desc)
						}
						if err == "" && r[i].over < 2 && !has[i][[2]int{r[i].x, r[i].y}] {
							err = fmt.Sprintf("origin (%d,%d) is none of the 36 offsets [%s]", r[i].x, r[i].y, ms[i].Desc)
						}
					}
					if err != "" {
						e.Fail(Violation{Key: hashKey("search", strings.Join(args, " ")), Msg: err, Args: args, Files: map[string][]byte{"in.wad": packMaps(ms)}})
						return
					}
				}
			}
			for _, eg := range []string{"o=2e=1", "o=2e=2", "o=2e=1t=1"} {
				args := base(eg)
				r, err := measure(args, ms)
				for i := range r {
					e.R.Case("search"+strings.Join(args, " ")+ms[i].Desc, true)
					if err == "" && (r[i].over > best[i].over || (r[i].over < 2 && !has[i][[2]int{r[i].x, r[i].y}])) {
						err = fmt.Sprintf("endgoal missed or origin (%d,%d) is none of the 36 offsets [%s]", r[i].x, r[i].y, ms[i].Desc)
					}
				}
				if err != "" {
					e.Fail(Violation{Key: hashKey("search", strings.Join(args, " ")), Msg: err, Args: args, Files: map[string][]byte{"in.wad": packMaps(ms)}})
				}
			}
		})
	}
	// all offsets: one slender and one square map
	small := []*Map{roomMap(300, 140, -100, -50), twoRooms(-64, -64, 190)}
	*jobs = append(*jobs, func() {
		base := func(o string) []string { return []string{"-n-", "-r-", "-b" + o} }
		step := 13
		if e.Thorough() {
			step = 3
		}
		best := make([]res, len(small))
		for y := 0; y < 128; y += step {
			for x := 0; x < 128; x += step {
				if e.Stop() {
					return
				}
				r, err := measure(base(fmt.Sprintf("o=%d,%d", x, y)), small)
				if err != "" {
					e.Fail(Violation{Key: hashKey("all", fmt.Sprint(x, y)), Msg: err, Args: base(fmt.Sprintf("o=%d,%d", x, y)), Files: map[string][]byte{"in.wad": packMaps(small)}})
					return
				}
				for i := range r {
					if x+y == 0 || worse(best[i], r[i]) {
						best[i] = r[i]
					}
				}
			}
		}
		for _, o := range []string{"o=4", "o=3"} {
			r, err := measure(base(o), small)
			for i := range r {
				e.R.Case("all"+o+small[i].Desc, true)
				if err == "" && worse(r[i], best[i]) {
					err = fmt.Sprintf("chose %d bytes, offsets of the %d-lattice give %d bytes [%s]", r[i].size, step, best[i].size, small[i].Desc)
				}
				x0, y0, _, _ := small[i].bounds()
				if err == "" && (x0-r[i].x < 0 || x0-r[i].x > 127 || y0-r[i].y < 0 || y0-r[i].y > 127) {
					err = fmt.Sprintf("origin (%d,%d) is no offset 0..127 [%s]", r[i].x, r[i].y, small[i].Desc)
				}
			}
			if err != "" {
				e.Fail(Violation{Key: hashKey("all", o), Msg: err, Args: base(o), Files: map[string][]byte{"in.wad": packMaps(small)}})
			}
		}
	})
}

// bmLimits: sizes around the 16 bit limits.
func (e *Env) bmLimits(jobs *[]func()) {
	one := func(m *Map, z int, sub string, want string) {
		*jobs = append(*jobs, func() {
			o := fmt.Sprintf("-bo=0z=%d%s", z, sub)
			args := []string{"-n-", "-r-", o}
			e.judgeMaps("limit", args, []*Map{m}, func(m *Map, out *OutMap) string {
				lump := out.L["BLOCKMAP"]
				switch want {
				case "empty":
					if len(lump) != 0 {
						return fmt.Sprintf("blockmap of %d bytes although no valid one exists", len(lump))
					}
					return ""
				case "any":
					if len(lump) == 0 {
						return ""
					}
				}
				return bmSelf(&BMOpts{Z: z, FixOff: true, Subset: strings.Contains(sub, "s"), Lossy: strings.Contains(sub, "a")}, false)(m, out)
			})
		})
	}
	// a room of cols x 1..2 blocks cannot reach the limit; use tall and wide rooms
	for _, r := range []int{255, 256} {
		for c := 250; c <= 258; c++ {
			m := roomMap((c-1)*128+5, (r-1)*128+5, -c*64, -r*64)
			n := c * r
			for z := 0; z <= 2; z++ {
				// distinct lists: interior, 4 corners, 4 edges; the largest (2 entries) goes last
				d := 0
				if z > 0 {
					d = 1
				}
				words := 4 + n + (1 + d) + 4*(2+d) + 3*(3+d)
				w := "full"
				if words > 65535 {
					w = "empty"
				}
				if words >= 65534 && words <= 65537 {
					w = "any"
				}
				one(m, z, "", w)
			}
		}
	}
	over := pairsMap(100, 101, 0) // 7 words per pair: 70700
	for z := 0; z <= 0; z++ {
		one(over, z, "", "empty")
		one(over, z, "s", "full")
		one(over, z, "s?", "full")
		one(over, z, "a?", "full")
		one(over, z, "s?a?", "full")
		one(over, z, "a", "full")
	}
	fits := pairsMap(90, 100, 0)
	one(fits, 0, "", "full")
	one(fits, 2, "s", "any")
	one(fits, 1, "s", "any")
	one(fits, 1, "a", "any")
}
