package main

// C06: switches that must not change what is built.

import (
	"fmt"
	"strings"
)

func init() {
	checks["C06"] = func(e *Env) {
		e.R.Rule = "one case = one map under a base option set and under one switch (or pair of switches); all level lumps are compared byte by byte"
		var jobs []func()
		group := func(fam string, ms []*Map, per int, base []string, alts ...[]string) {
			for _, c := range chunk(ms, per) {
				var ga []groupAlt
				for _, a := range alts {
					ga = append(ga, groupAlt{append(append([]string{}, base...), a...), sameLumps(allLumps)})
				}
				jobs = append(jobs, func() { e.judgeGroup(fam, base, nil, ga, c) })
			}
		}
		fams := geoFamilies(e.Thorough())
		sm := collect(fams[0], fams[1], fams[2])
		lg := collect(fams[3:]...)
		tl := collect(tileFamily("tile2x1", 2, 1, 2, 3, 4, idMat, 2, true, 2), tileFamily("tile2x1w", 2, 1, 3, 2, 3, wildMat, 1, false, 2))
		if !e.Thorough() {
			sm, lg = thin(sm, 11), thin(lg, 13)
		}
		all := append(append(append([]*Map{}, tl...), sm...), lg...)
		mt := thin(all, 4)
		w := func(a ...string) []string { return a }
		// reject: symmetric specialisation, graphs
		for _, rs := range []string{"-r", "-rs=1", "-rs=2", "-rs=3"} {
			rj := append(append([]*Map{}, all...), rejectMaps(e.Thorough())...)
			group("reject"+rs, rj, 300, w("-n-", "-b-", rs), w("--nosymm"), w("-v"), w("-d"))
		}
		// node partitioners: seg caches, alternative tree code, formats that do not overflow
		for _, a := range []string{"-na=0", "-na=1", "-na=2", "-na=2p=1", "-na=2p=2", "-na=3", "-na=4", "-na=4p=1", "-na=4p=2"} {
			zen := strings.Contains(a, "a=4") || strings.Contains(a, "p=2")
			alts := [][]string{w("--stknode"), w(a + "c=V"), w(a + "c=D"), w(a + "c=X"), w(a + "c=Z"), w(a + "c=Z9t=1"), w(a + "c=Xt=1"), w("--speedtree"), w("--ableist"), w("-v", "-v")}
			if zen {
				alts = append(alts, w("--sidecache=2"), w("--sidecache-"), w("--sidecache+", "--stknode"), w(a+"c=X", "--sidecache+"))
			}
			group("nodes"+a, all, 300, w("-b-", "-r-", a), alts...)
			group("deep"+a, mt, 300, w("-b-", "-r-", a+"c=d"), w("--stknode"), w("-v"))
			ext := [][]string{w("-v")}
			if zen {
				ext = append(ext, w("--sidecache+"))
			}
			group("ext"+a, mt, 300, w("-b-", "-r-", a+"c=x"), ext...)
			group("multi"+a, mt, 60, w("-b-", "-r-", a+"m=3", "-d"), w("--speedtree"), w("--speedtree-"), w(a+"m=3t=1"), w(a+"m=3t=2"), w(a+"m=3t=5"),
				w("--sidecache-"), w("--sidecache+"), w("--sidecache-", "--speedtree-"), w("--stknode"), w("--ableist"), w(a+"m=3c=V"), w(a+"m=3c=D"))
			if e.Thorough() || a == "-na=2" {
				for _, mm := range []string{"m=1", "m=2"} {
					group("multi"+mm+a, mt, 60, w("-b-", "-r-", a+mm, "-d"), w("--speedtree-"), w(a+mm+"t=1"), w("--sidecache-"), w("--stknode"))
				}
				group("multix"+a, thin(mt, 3), 60, w("-b-", "-r-", a+"m=3c=x", "-d"), w("--speedtree-"), w("--speedtree"), w(a+"m=3c=xt=1"), w(a+"m=3c=xt=3"), w("--sidecache-"))
			}
		}
		// blockmap: threads of the offset search
		for _, b := range []string{"-b", "-bs", "-bz=2a", "-be=1", "-be=2s", "-bo=3s"} {
			ms := mt
			if strings.Contains(b, "o=3") {
				ms = thin(mt, 40)
			}
			group("blockmap"+b, ms, 60, w("-n-", "-r-", b+"t=1", "-d"), w(b+"t=2"), w(b+"t=3"), w(b+"t=8"), w(b), w("-v"))
		}
		// everything at once: building one kind of lump does not influence another
		alone := func(fam, a string, names []string, base []string, off ...string) {
			for _, c := range chunk(mt, 100) {
				jobs = append(jobs, func() {
					e.judgeGroup(fam, base, nil, []groupAlt{{off, sameLumps(names)}}, c)
				})
			}
		}
		alone("alone", "nodes", nodeLumps, w("-d"), "-d", "-b-", "-r-")
		alone("alone", "blockmap", []string{"BLOCKMAP"}, w("-d"), "-d", "-n-", "-r-")
		alone("alone", "reject", []string{"REJECT"}, w("-d"), "-d", "-n-", "-b-")
		e.R.Extra["maps"] = map[string]int{"all": len(all), "multitree": len(mt)}
		e.Parallel(len(jobs), func(i int) { jobs[i]() })
	}
}

// thin keeps every k-th map.
func thin(ms []*Map, k int) []*Map {
	var r []*Map
	for i, m := range ms {
		if i%k == 0 {
			r = append(r, m)
		}
	}
	return r
}

// rejectMaps: chains, rings and trees of rooms so that the sector graph has
// articulation points, bridges, cycles and several components.
func rejectMaps(thorough bool) []*Map {
	var res []*Map
	w, h := 3, 3
	if thorough {
		h = 4
	}
	// rooms on a w x h raster; every spanning choice of doors of a fixed pattern count
	type door struct{ x1, y1, x2, y2 int }
	var doors []door
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if x+1 < w {
				doors = append(doors, door{x, y, x + 1, y})
			}
			if y+1 < h {
				doors = append(doors, door{x, y, x, y + 1})
			}
		}
	}
	n := 1 << len(doors)
	step := 7
	if thorough {
		step = 61
	}
	for bits := 0; bits < n; bits += step {
		for off := 0; off < 2; off++ {
			res = append(res, doorMap(w, h, func(i int) bool { return bits>>uint(i)&1 == 1 }, off, fmt.Sprintf("doors %dx%d %x off %d", w, h, bits, off)))
		}
	}
	return res
}

// doorMap: rooms of 96x96, walls 16 thick with a door sector in them (own sector each).
// off moves the doors away from the middle so that few rooms see each other.
func doorMap(w, h int, has func(i int) bool, off int, desc string) *Map {
	m := &Map{Desc: desc}
	k := 0
	nd := 0
	addSectors(m, w*h)
	rs := func(x, y int) int { return y*w + x }
	// door position inside a wall of 96: [lo, lo+24]
	pos := func(i int) int {
		if off == 0 {
			return 36
		}
		return 4 + (i*29)%68
	}
	right := map[[2]int]int{}
	up := map[[2]int]int{}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if x+1 < w {
				if has(k) {
					right[[2]int{x, y}] = k + 1
				}
				k++
			}
			if y+1 < h {
				if has(k) {
					up[[2]int{x, y}] = k + 1
				}
				k++
			}
		}
	}
	P := 112
	// walls of each room, front (right side) inside
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			x0, y0 := x*P, y*P
			x1, y1 := x0+96, y0+96
			s := rs(x, y)
			seg := func(ax, ay, bx, by int) { addLine(m, ax, ay, bx, by, s, -1) }
			// west: going up; north: east; east: down; south: west
			if d := right[[2]int{x - 1, y}]; d > 0 {
				p := y0 + pos(d)
				seg(x0, y0, x0, p)
				seg(x0, p+24, x0, y1)
			} else {
				seg(x0, y0, x0, y1)
			}
			if d := up[[2]int{x, y}]; d > 0 {
				p := x0 + pos(d)
				seg(x0, y1, p, y1)
				seg(p+24, y1, x1, y1)
			} else {
				seg(x0, y1, x1, y1)
			}
			if d := right[[2]int{x, y}]; d > 0 {
				p := y0 + pos(d)
				seg(x1, y1, x1, p+24)
				seg(x1, p, x1, y0)
			} else {
				seg(x1, y1, x1, y0)
			}
			if d := up[[2]int{x, y - 1}]; d > 0 {
				p := x0 + pos(d)
				seg(x1, y0, p+24, y0)
				seg(p, y0, x0, y0)
			} else {
				seg(x1, y0, x0, y0)
			}
		}
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if d := right[[2]int{x, y}]; d > 0 {
				s := w*h + nd
				nd++
				addSectors(m, 1)
				xa, xb := x*P+96, x*P+112
				p := y*P + pos(d)
				addLine(m, xa, p, xa, p+24, s, rs(x, y))
				addLine(m, xa, p+24, xb, p+24, s, -1)
				addLine(m, xb, p+24, xb, p, s, rs(x+1, y))
				addLine(m, xb, p, xa, p, s, -1)
			}
			if d := up[[2]int{x, y}]; d > 0 {
				s := w*h + nd
				nd++
				addSectors(m, 1)
				ya, yb := y*P+96, y*P+112
				p := x*P + pos(d)
				addLine(m, p, ya, p, yb, s, -1)
				addLine(m, p, yb, p+24, yb, s, rs(x, y+1))
				addLine(m, p+24, yb, p+24, ya, s, -1)
				addLine(m, p+24, ya, p, ya, s, rs(x, y))
			}
		}
	}
	m.Things = []Thing{{X: 8, Y: 8, Type: 1, Flags: 7}}
	return m
}
