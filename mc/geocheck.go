package main

// C03 (structure) and C04 (geometry) of node trees.

import (
	"bytes"
	"fmt"
	"strings"
)

type nodeVariant struct {
	name  string
	args  []string
	unrev bool
	ext   bool // fractional vertices: tight tolerance
	fmtc  byte // expected format: v d x z
}

const packN = 400

// nodeRun runs all maps under one variant and judges each level with f.
func (e *Env) judgeMaps(family string, args []string, maps []*Map, f func(m *Map, o *OutMap) string) {
	for _, ch := range chunk(maps, packN) {
		if e.Stop() {
			return
		}
		for _, r := range e.RunMaps(args, ch) {
			msg := r.Err
			if msg == "" {
				msg = f(r.In, r.Out)
			}
			e.R.Case(strings.Join(args, " ")+r.In.Desc, true)
			if msg == "" {
				continue
			}
			in := r.In
			e.Fail(Violation{Key: hashKey(strings.Join(args, " "), in.Desc), Msg: msg + " [" + in.Desc + "]", Args: args,
				Files: map[string][]byte{"in.wad": packMaps([]*Map{in})},
				Recheck: func() bool {
					q := e.RunMaps(args, []*Map{in})[0]
					return q.Err != "" || f(in, q.Out) != ""
				}})
		}
		e.R.Sample(family, map[string]any{"args": args, "map": ch[0].Desc})
	}
}

// judgeJobs spreads (variant, chunk) pairs over the workers.
type mapJob struct {
	fam  string
	args []string
	maps []*Map
	f    func(m *Map, o *OutMap) string
}

func (e *Env) runJobs(jobs []mapJob) {
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		e.judgeMaps(j.fam, j.args, j.maps, j.f)
	})
}

func bytesEq(a, b []byte) bool { return bytes.Equal(a, b) }

func treeOf(m *Map, o *OutMap) (*Tree, *Map, string) {
	mo, err := DecodeMap(o.L, m.Hexen)
	if err != nil {
		return nil, nil, err.Error()
	}
	if s := sameLines(m, mo); s != "" {
		return nil, nil, s
	}
	t, err := DecodeTree(o.L)
	if err != nil {
		return nil, nil, err.Error()
	}
	if t.Format != "empty" {
		if s := t.CheckStructure(mo); s != "" {
			return nil, nil, s
		}
	}
	return t, mo, ""
}

func geoCheck(fmtc byte, extra func(o *GeoOpts, m *Map)) func(m *Map, o *OutMap) string {
	return func(m *Map, o *OutMap) string {
		t, mo, s := treeOf(m, o)
		if s != "" {
			return s
		}
		if s := t.CheckStructure(mo); s != "" {
			return s
		}
		g := &GeoOpts{Tol: 1.01, SameSec: true, Angles: true, Truth: m.Truth, PtStep: 16, Convex: true}
		if fmtc == 'x' {
			g.Tol = 0.001
			if t.Format == "vanilla" || t.Format == "deep" {
				return "extended nodes were requested, format is " + t.Format
			}
		}
		if extra != nil {
			extra(g, m)
		}
		return t.CheckGeometry(mo, g, &GeoStats{})
	}
}

// longMaps: levels whose lines are longer than 32767 units in one or both directions.
func longMaps(thorough bool) []*Map {
	type span struct {
		off int
		st  []int
	}
	spans := []span{{-32768, []int{0, 20000, 65535}}, {-32768, []int{0, 32768, 65534}}, {-16384, []int{0, 12345, 32768}}, {-20000, []int{0, 32767, 52000}}, {0, []int{0, 1000, 32767}}, {-3, []int{0, 32766, 32769}}, {-32768, []int{0, 100, 32769}}}
	var r []*Map
	for _, x := range spans {
		for _, y := range spans {
			for _, mg := range []int{0, 2} {
				enumAssign(4, 2, func(c []int) {
					if !thorough && mg == 0 && (x.off+y.off)%5 != 0 {
						return
					}
					for _, fl := range []int{0, 2} {
						g := &GridSpec{W: 2, H: 2, Cells: append([]int{}, c...), XS: x.st, YS: y.st, Mat: idMat, OX: x.off, OY: y.off, Merge: mg, Flip: fl}
						r = append(r, g.Build())
					}
				})
			}
		}
	}
	k := r[:0]
	for _, m := range r {
		if m != nil {
			k = append(k, m)
		}
	}
	return k
}

func init() {
	checks["C04"] = func(e *Env) {
		e.R.Rule = "one case = one map built under one option set; each has at least one sector and a full tree that is checked seg by seg"
		nobr := func(a ...string) []string { return append([]string{"-b-", "-r-"}, a...) }
		type variant struct {
			args []string
			f    byte
		}
		small := []variant{
			{nobr("-na=0"), 'v'}, {nobr("-na=1"), 'v'}, {nobr("-na=2"), 'v'}, {nobr("-na=2p=1"), 'v'}, {nobr("-na=2p=2"), 'v'}, {nobr("-na=3"), 'v'},
			{nobr("-na=4"), 'v'}, {nobr("-na=4p=0"), 'v'}, {nobr("-na=4p=1"), 'v'}, {nobr("-na=4p=2"), 'v'},
			{nobr("-na=0c=x"), 'x'}, {nobr("-na=1c=x"), 'x'}, {nobr("-na=2c=x"), 'x'}, {nobr("-na=2p=1c=x"), 'x'}, {nobr("-na=2p=2c=x"), 'x'}, {nobr("-na=3c=x"), 'x'}, {nobr("-na=4c=x"), 'x'},
			{nobr("-nf=1"), 'v'}, {nobr("-nf=200"), 'v'}, {nobr("-nd=34"), 'v'}, {nobr("-na=1d=50c=x"), 'x'},
			{nobr("-na=3c=d"), 'v'}, {nobr("-na=4c=d", "--detailnodes=1"), 'v'}, {nobr("-na=0c=v", "--detailnodes=2"), 'v'}, {nobr("-na=2c=v", "--detailnodes=2"), 'v'},
			{nobr("-nm=3a=3"), 'v'}, {nobr("-nm=3a=2c=x"), 'x'}, {nobr("-nm=1a=4"), 'v'}, {nobr("-nm=2a=1"), 'v'},
			{nobr("--stknode"), 'v'}, {nobr("-na=2", "--stknode"), 'v'},
			{nobr("-na=4", "--zenvar:x1=1,x2=3,x3=2,x4=1,y1=5,y2=1,y3=0,y4=3"), 'v'},
		}
		large := []variant{{nobr(), 'v'}, {nobr("-na=2"), 'v'}, {nobr("-na=4c=x"), 'x'}, {nobr("-na=1c=x"), 'x'}}
		if e.Thorough() {
			large = small
		}
		fams := geoFamilies(e.Thorough())
		sm := collect(fams[0], fams[1], fams[2])
		var lg []*Map
		lg = collect(fams[3:]...)
		tl := collect(tileFamily("tile2x1", 2, 1, 2, 3, 4, idMat, 2, true, 2), tileFamily("tile2x1w", 2, 1, 3, 2, 3, wildMat, 1, false, 2))
		var jobs []mapJob
		add := func(fam string, vs []variant, ms []*Map, n int) {
			for _, v := range vs {
				for _, c := range chunk(ms, n) {
					jobs = append(jobs, mapJob{fam, v.args, c, geoCheck(v.f, nil)})
				}
			}
		}
		add("tiles", small, tl, 60)
		add("small", small, sm, packN)
		add("large", large, lg, packN)
		// culling of invisible lines: only lines with one sector on both sides may go
		var cm []*Map
		for _, m := range collect(gridFamily("c2x2", 2, 2, 4, false, nil, mats(idMat, rotMat), []int{0}, []int{0}, []bool{true}, oddXS, oddYS),
			gridFamily("ct2x1", 2, 1, 4, true, allDiags(2), mats(idMat, wildMat), []int{0}, []int{2}, []bool{true}, oddXS, oddYS),
			gridFamily("c3x2", 3, 2, 2, false, nil, mats(idMat), []int{0}, []int{0}, []bool{true}, oddXS, oddYS)) {
			cm = append(cm, plainSelf(m))
		}
		opt := func(g *GeoOpts, m *Map) {
			g.SegOpt = func(l int) bool {
				ln := m.Lines[l]
				return ln.Right != NoSide && ln.Left != NoSide && m.Sides[ln.Right].Sector == m.Sides[ln.Left].Sector
			}
		}
		for _, a := range []string{"-ni=1", "-ni=2", "-ni=2c=x"} {
			f := byte('v')
			if strings.HasSuffix(a, "x") {
				f = 'x'
			}
			for _, c := range chunk(cm, packN) {
				jobs = append(jobs, mapJob{"cull", nobr(a), c, geoCheck(f, opt)})
			}
		}
		// perimeters of self-referencing sectors must survive robust culling
		n := 3
		sr := collect(selfRefFamily("sr", n, 48, false), selfRefFamily("srs", n, 48, true))
		keep := func(g *GeoOpts, m *Map) {
			g.SameSec = false
			g.SegOpt = func(l int) bool { return m.Lines[l].Tag == 1 }
		}
		for _, a := range []string{"-ni=2", "-ni=2c=x"} {
			for _, c := range chunk(sr, packN) {
				jobs = append(jobs, mapJob{"selfref", nobr(a), c, geoCheck('v', keep)})
			}
		}
		for _, c := range chunk(sr, packN) {
			jobs = append(jobs, mapJob{"selfref0", nobr(), c, geoCheck('v', func(g *GeoOpts, m *Map) { g.SameSec = false })})
		}
		// lines longer than a 16-bit difference: partitions must still be represented exactly
		lo := longMaps(e.Thorough())
		wide := func(g *GeoOpts, m *Map) { g.PtStep = 4096 }
		for _, v := range []variant{{nobr("-na=0"), 'v'}, {nobr("-na=2"), 'v'}, {nobr("-na=4c=x"), 'x'}, {nobr("-na=1c=d"), 'v'}, {nobr("-na=1c=x", "--stknode"), 'x'}} {
			for _, c := range chunk(lo, 100) {
				jobs = append(jobs, mapJob{"long", v.args, c, geoCheck(v.f, wide)})
			}
		}
		e.R.Count("long_line_maps", int64(len(lo)))
		e.R.Extra["maps"] = map[string]int{"small": len(sm), "large": len(lg), "tiles": len(tl), "cull": len(cm), "selfref": len(sr)}
		e.R.Extra["option_sets"] = map[string]int{"small": len(small), "large": len(large)}
		e.runJobs(jobs)
	}
}

var _ = fmt.Sprint
