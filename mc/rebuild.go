package main

// C19: a deterministic build depends on the level alone, not on what earlier
// builds left in the file: build(build(A, p), o) = build(A, o).

import (
	"bytes"
	"fmt"
	"strings"
)

func init() { checks["C19"] = runC19 }

// sameFile compares two files lump by lump.
func sameWad(a, b []byte) string {
	if bytes.Equal(a, b) {
		return ""
	}
	p, err := ParseWad(a)
	if err != nil {
		return "not a WAD: " + err.Error()
	}
	q, err := ParseWad(b)
	if err != nil {
		return "not a WAD: " + err.Error()
	}
	if p.Sig != q.Sig {
		return "signature differs"
	}
	lvl := ""
	for i := 0; i < len(p.Lumps) && i < len(q.Lumps); i++ {
		x, y := p.Lumps[i], q.Lumps[i]
		if isLevelName(x.Name) {
			lvl = x.Name
		}
		if x.Name != y.Name {
			return fmt.Sprintf("lump %d is %s instead of %s (after %s)", i, y.Name, x.Name, lvl)
		}
		if !bytes.Equal(x.Data, y.Data) {
			return fmt.Sprintf("lump %s of %s differs: %s", x.Name, lvl, diffBytes(x.Data, y.Data))
		}
	}
	if len(p.Lumps) != len(q.Lumps) {
		return fmt.Sprintf("%d lumps instead of %d", len(q.Lumps), len(p.Lumps))
	}
	return ""
}

// rebuilt compares build(prev(A), o) with build(A, o). prev lists the option
// sets of the earlier builds.
func (e *Env) rebuilt(in []byte, prev [][]string, o []string) string {
	r, want := e.RunOn(o, in)
	if !r.OK() {
		if r.Panicked() || r.Timeout {
			return "program failed: " + r.Brief()
		}
		return "" // nothing to build
	}
	f := in
	for _, p := range prev {
		r, g := e.RunOn(p, f)
		if !r.OK() {
			return fmt.Sprintf("earlier build %v failed: %s", p, r.Brief())
		}
		f = g
	}
	r, got := e.RunOn(o, f)
	if !r.OK() {
		return fmt.Sprintf("build after %v failed: %s", prev, r.Brief())
	}
	if s := sameWad(want, got); s != "" {
		return fmt.Sprintf("after earlier builds %v: %s", prev, s)
	}
	return ""
}

type histJob struct {
	fam    string
	in     []byte
	maps   []*Map // the levels in the file, nil for files that cannot be taken apart
	desc   string
	pre    [][]string
	full   [][]string
	same   [][]string // builds that leave some lumps alone: only build(build(A, o), o)
	deeper [][]string
	deep   bool // histories of two earlier builds as well
}

func (e *Env) runHist(j histJob) {
	type key struct{ h string }
	cache := map[string][]byte{}
	bad := map[string]string{}
	build := func(f []byte, o []string) ([]byte, string) {
		k := hashKey(string(f), strings.Join(o, " "))
		if g, ok := cache[k]; ok {
			return g, bad[k]
		}
		r, g := e.RunOn(o, f)
		s := ""
		if r.Panicked() || r.Timeout {
			s = "program failed: " + r.Brief()
		}
		if !r.OK() {
			g = nil
		}
		cache[k], bad[k] = g, s
		return g, s
	}
	fail := func(prev [][]string, o []string, msg string) {
		in, desc := j.in, j.desc
		if j.maps != nil {
			// find one level that shows it
			for _, m := range j.maps {
				w := packMaps([]*Map{m})
				if s := e.rebuilt(w, prev, o); s != "" {
					in, desc, msg = w, m.Desc, s
					break
				}
			}
		}
		e.Fail(Violation{Key: hashKey(fmt.Sprint(prev), strings.Join(o, " "), desc), Msg: msg + " [" + desc + "]", Args: o,
			Files:   map[string][]byte{"in.wad": in, "history.txt": []byte(fmt.Sprintln("earlier builds:", prev))},
			Recheck: func() bool { return e.rebuilt(in, prev, o) != "" }})
	}
	n := int64(1)
	if j.maps != nil {
		n = int64(len(j.maps))
	}
	one := func(f []byte, prev [][]string, o []string, want []byte) {
		got, s := build(f, o)
		if s == "" && got == nil {
			s = "build failed"
		}
		if s == "" {
			s = sameWad(want, got)
		}
		e.R.Case(hashKey(j.desc, fmt.Sprint(prev), strings.Join(o, " ")), true)
		e.R.Count("level_histories", n)
		if s != "" {
			fail(prev, o, fmt.Sprintf("after earlier builds %v: %s", prev, s))
		}
	}
	for k, o := range append(append([][]string{}, j.full...), j.same...) {
		if e.Stop() {
			return
		}
		want, s := build(j.in, o)
		if s != "" {
			fail(nil, o, s)
			continue
		}
		if want == nil {
			continue
		}
		pre := append([][]string{o}, j.pre...)
		if k >= len(j.full) {
			pre = pre[:1]
		} else if j.deep {
			pre = pre[1:]
		}
		for _, p := range pre {
			f, s := build(j.in, p)
			if s != "" {
				fail(nil, p, s)
			}
			if f == nil {
				continue
			}
			one(f, [][]string{p}, o, want)
			if !j.deep {
				continue
			}
			for _, p2 := range j.deeper {
				if f2, _ := build(f, p2); f2 != nil {
					one(f2, [][]string{p, p2}, o, want)
				}
			}
		}
	}
	e.R.Sample(j.fam, map[string]any{"file": j.desc, "builds": len(j.full), "earlier": len(j.pre)})
}

func runC19(e *Env) {
	e.R.Rule = "a case is one file taken through one history of builds and compared with the direct build; level_histories counts its levels"
	sp := func(s ...string) [][]string {
		var r [][]string
		for _, x := range s {
			r = append(r, append([]string{"-d", "-bo=0,0"}, strings.Fields(x)...))
		}
		return r
	}
	full := sp("", "-nc=d", "-nc=x", "-nc=z", "-nc=v", "-na=1", "-na=2", "-na=3", "--unreversenodes", "--stknode", "-ni=1", "-rz", "-rs=2 --nosymm", "-nm=1")
	part := sp("-n-", "-b-", "-r-", "-n- -r-", "-b- -r- -nc=x", "-b- -r- -nc=d -na=2", "-n- -b- -rz", "-r- -nc=z --unreversenodes")
	pre := append(append([][]string{}, full...), part...)
	var jobs []histJob
	var ms []*Map
	for _, f := range geoFamilies(false) {
		ms = append(ms, thin(collect(f), pick(e, 18, 2))...)
	}
	ms = append(ms, thin(rejectMaps(false), pick(e, 12, 1))...)
	// special lines, scrolling walls among them
	two := patternMap("two rooms", 96, "01")
	for _, a := range []spAttr{{Action: 48, Tag: 3}, {Action: 48}, {Action: 1048, Tag: 2}, {Action: 1080, Tag: 45}, {Action: 1084}, {Action: 1085}, {Action: 1086}, {Tag: 998}, {Tag: 999, XOff: 90}, {Tag: 900}, {NoSeg: 1}} {
		for l := range two.Lines {
			ms = append(ms, withAttrs(two, map[int]spAttr{l: a}))
			for k := range two.Lines {
				if k != l {
					ms = append(ms, withAttrs(two, map[int]spAttr{l: a, k: {Action: 48, Tag: 2}}))
				}
			}
		}
	}
	// leftovers of earlier builds: vertices no line uses, before, between and after
	var left []*Map
	for i, m := range thin(ms, 11) {
		c := m.Clone()
		c.Desc += " with unused vertices"
		v := Vertex{X: 7 + i, Y: -9 - 3*i}
		k := i % (len(c.Verts) + 1)
		c.Verts = append(c.Verts[:k:k], append([]Vertex{v, v}, c.Verts[k:]...)...)
		for l := range c.Lines {
			if c.Lines[l].V1 >= k {
				c.Lines[l].V1 += 2
			}
			if c.Lines[l].V2 >= k {
				c.Lines[l].V2 += 2
			}
		}
		left = append(left, c)
	}
	ms = append(ms, left...)
	for i, m := range thin(ms, 5) {
		h := m.Clone()
		h.Hexen = true
		h.Desc += fmt.Sprintf(" hexen %d", i)
		ms = append(ms, h)
	}
	for i, ch := range chunk(ms, 100) {
		jobs = append(jobs, histJob{fam: "levels", in: packMaps(ch), maps: ch, desc: fmt.Sprintf("levels %d", i), pre: pre, full: full, same: part})
	}
	later := pre
	if !e.Thorough() {
		later = append(sp("", "-nc=x", "-rz"), part[:5]...)
	}
	few := thin(ms, len(ms)/pick(e, 20, 200)+1)
	for i, p := range pre {
		jobs = append(jobs, histJob{fam: "longer histories", in: packMaps(few), maps: few, desc: fmt.Sprintf("longer histories %d", i), pre: [][]string{p}, full: full, deep: true, deeper: later})
	}
	e.R.Extra["levels"] = len(ms)
	e.R.Extra["builds"] = len(full)
	e.R.Extra["earlier_builds"] = len(full) + len(part)
	// directories
	depth := pick(e, 2, 3)
	var rec func(p string)
	rec = func(p string) {
		if p != "" {
			l := seqLumps(p, false)
			w := &Wad{Sig: "PWAD", Lumps: l}
			jobs = append(jobs, histJob{fam: "directories", in: w.Bytes(), desc: "tokens " + p,
				pre:  sp("", "-n-", "-b-", "-r-", "-n- -b- -r-", "-nc=x", "-n- -b- -rz", "-m:map01", "-!m:map01"),
				full: sp("", "-nc=x", "-rz"), same: sp("-m:map02", "-n- -b-", "-b- -r-", "-n- -r-", "--eject", "-!m:map01 --eject")})
		}
		if len(p) == depth {
			return
		}
		for i := range wadTokens {
			if n := len(p); n > 0 && wadTokens[i] == 'K' && strings.IndexByte("LMDRQ", p[n-1]) >= 0 {
				continue
			}
			rec(p + wadTokens[i:i+1])
		}
	}
	rec("")
	e.Parallel(len(jobs), func(i int) { e.runHist(jobs[i]) })
}

func pick(e *Env, q, t int) int {
	if e.Thorough() {
		return t
	}
	return q
}
