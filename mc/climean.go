package main

// C17, second half: what the documented settings do, on the real binary. Every
// setting is run in every context of settings for the other lumps.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// cliWorlds: input files the real binary is run on.
func (e *Env) cliWorlds() [][]byte {
	w := &Wad{}
	for i, m := range []*Map{twoRooms(0, 0, 256), lRoom(-300, 70, 512), squareRoom(13, -40, 128)} {
		w.Lumps = append(w.Lumps, m.Lumps([]string{"MAP01", "E1M1", "MAP02"}[i])...)
	}
	w.Lumps = append(w.Lumps, Lump{Name: "OTHER", Data: []byte("data")})
	g := &GridSpec{W: 6, H: 5, Tri: true, Diag: 0x2b5c3a5, XS: []int{0, 40, 101, 152, 260, 311, 470}, YS: []int{0, 56, 97, 200, 231, 300}, Mat: wildMat, Merge: 1, Flip: 2, OX: -700, OY: 33}
	for i := 0; i < 60; i++ {
		c := (i*i*7 + i*3 + i/5) % 9
		if c > 6 {
			c = -1
		}
		g.Cells = append(g.Cells, c)
	}
	m := g.Build()
	h := &Wad{Lumps: append(m.Lumps("MAP07"), pairsMap(6, 5, 40).Lumps("E2M3")...)}
	return [][]byte{w.Bytes(), h.Bytes()}
}

type cliWorld struct {
	name string
	data []byte
	in   []*OutMap
	maps []*Map
}

type cliRunOut struct {
	msg    string
	levels []*OutMap
	raw    []byte
}

var lumpsOfPart = map[byte][]string{'b': {"BLOCKMAP"}, 'n': {"VERTEXES", "SEGS", "SSECTORS", "NODES", "LINEDEFS"}, 'r': {"REJECT"}}

func (e *Env) cliReal(w *cliWorld, args []string) cliRunOut {
	d := e.TempDir()
	defer os.RemoveAll(d)
	os.WriteFile(filepath.Join(d, "in.wad"), w.data, 0o666)
	os.WriteFile(filepath.Join(d, "in.rej"), []byte(cliRej), 0o666)
	a := append(append([]string{}, args...), "-d", "in.wad", "-o", "out.wad")
	res := e.Exec(e.Bin, d, a, nil, 60*time.Second)
	// the options file names a sector the small levels do not have
	complaint := strings.TrimSpace(strings.ReplaceAll(res.Stderr, "RMB in.rej:2 error: specified sector number out of range: 1", ""))
	if res.Exit != 0 || res.Timeout || complaint != "" {
		return cliRunOut{msg: "run failed: " + res.Brief()}
	}
	raw, _ := os.ReadFile(filepath.Join(d, "out.wad"))
	p, err := ParseWad(raw)
	if err != nil {
		return cliRunOut{msg: "output: " + err.Error()}
	}
	return cliRunOut{levels: SplitLevels(p), raw: raw}
}

func sameParts(a, b []*OutMap, parts string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d levels, not %d", len(a), len(b))
	}
	for i := range a {
		for _, c := range parts {
			for _, l := range lumpsOfPart[byte(c)] {
				if !bytes.Equal(a[i].L[l], b[i].L[l]) {
					return fmt.Sprintf("%s of %s differs: %s", l, a[i].Marker, diffBytes(a[i].L[l], b[i].L[l]))
				}
			}
		}
	}
	return ""
}

// nodeKind: which of the four node formats a level carries.
func nodeKind(o *OutMap) string {
	n := o.L["NODES"]
	switch {
	case bytes.HasPrefix(n, []byte("xNd4\x00\x00\x00\x00")):
		return "deep"
	case bytes.HasPrefix(n, []byte("XNOD")):
		return "extended"
	case bytes.HasPrefix(n, []byte("ZNOD")):
		return "compressed"
	}
	return "vanilla"
}

func (r *cliRun) meaning() {
	e := r.e
	var worlds []*cliWorld
	for i, b := range r.worlds {
		res, out := e.RunOn([]string{"-d", "-bo=91,17", "-bz=2", "-rs=3", "-nc=d", "-na=0"}, b)
		p, err := ParseWad(out)
		if res.Exit != 0 || err != nil {
			e.Fail(Violation{Key: hashKey("prepare", fmt.Sprint(i)), Msg: "rebuild with documented options fails: " + res.Brief(), Args: []string{"-d", "-bo=91,17", "-bz=2", "-rs=3", "-nc=d", "-na=0"}, Files: map[string][]byte{"in.wad": b},
				Recheck: func() bool {
					q, _ := e.RunOn([]string{"-d", "-bo=91,17", "-bz=2", "-rs=3", "-nc=d", "-na=0"}, b)
					return q.Exit != 0
				}})
			return
		}
		// reject with a marker bit in the padding so that it cannot be taken for a rebuilt one
		var ls []Lump
		for _, l := range p.Lumps {
			d := append([]byte{}, l.Data...)
			if l.Name == "REJECT" {
				for k := range d {
					d[k] ^= 0x5a
				}
			}
			ls = append(ls, Lump{Name: l.Name, Data: d})
		}
		w := &cliWorld{name: fmt.Sprintf("world %d", i), data: (&Wad{Lumps: ls}).Bytes()}
		q, _ := ParseWad(w.data)
		w.in = SplitLevels(q)
		for _, o := range w.in {
			m, err := DecodeMap(o.L, false)
			if err != nil {
				fatal("decode: %v", err)
			}
			w.maps = append(w.maps, m)
		}
		worlds = append(worlds, w)
	}
	// judge is called with the run without the setting and with it
	type rule struct {
		name  string
		opts  []string
		judge func(w *cliWorld, base, got []*OutMap, ctx string) string
	}
	equal := func(w *cliWorld, base, got []*OutMap, ctx string) string { return sameParts(got, base, "bnr") }
	var rules []rule
	add := func(name string, opts []string, f func(w *cliWorld, base, got []*OutMap, ctx string) string) {
		rules = append(rules, rule{name, opts, f})
	}
	for _, s := range []string{"-bo=2", "-bz=1", "-be=0", "-bs-", "-ba-", "-br-", "-bs?", "-ba?", "-bt=1", "-bt=3", "-b", "-n", "-r", "-nm=0", "-ni=0", "-nf=17", "-nd=0", "-nc=v", "-nc=V", "-nc=D", "-nc=X", "-nc=Z", "-nc=Z4", "-nt=3",
		"-rs=0", "-rg", "-rg+", "-rz-", "-rm-", "-v", "-vvvv", "--detailnodes", "-d-"} {
		add("default "+s, []string{s}, equal)
	}
	keep := func(part string, rest string) func(w *cliWorld, base, got []*OutMap, ctx string) string {
		return func(w *cliWorld, base, got []*OutMap, ctx string) string {
			parts := part
			if m := sameParts(got, w.in, parts); m != "" {
				return "not to be rebuilt, but " + m
			}
			return sameParts(got, base, rest)
		}
	}
	add("-b-", []string{"-b-"}, keep("b", "nr"))
	add("-n-", []string{"-n-"}, keep("n", "br"))
	add("-r-", []string{"-r-"}, keep("r", "bn"))
	add("-b- -r-", []string{"-b-", "-r-"}, keep("br", "n"))
	add("-n- -r-", []string{"-n-", "-r-"}, keep("nr", "b"))
	origin := func(f func(x, y int) bool, what string) func(w *cliWorld, base, got []*OutMap, ctx string) string {
		return func(w *cliWorld, base, got []*OutMap, ctx string) string {
			for i, o := range got {
				bm, err := DecodeBlockmap(o.L["BLOCKMAP"])
				if err != nil {
					return err.Error()
				}
				x0, y0, _, _ := w.maps[i].bounds()
				if !f(x0-bm.X, y0-bm.Y) {
					return fmt.Sprintf("offset of the blockmap of %s is %d,%d: not %s", o.Marker, x0-bm.X, y0-bm.Y, what)
				}
			}
			return sameParts(got, base, "nr")
		}
	}
	fixed := func(x, y int) func(a, b int) bool { return func(a, b int) bool { return a == x && b == y } }
	add("-bo=0", []string{"-bo=0"}, origin(fixed(0, 0), "0,0"))
	add("-bo=1", []string{"-bo=1"}, origin(fixed(8, 8), "8,8"))
	offs := []int{0, 1, 7, 64, 127}
	if e.Thorough() {
		offs = []int{0, 1, 2, 3, 5, 7, 8, 9, 10, 12, 16, 19, 31, 32, 64, 90, 99, 100, 101, 109, 110, 120, 126, 127}
	}
	for _, x := range offs {
		for _, y := range offs {
			add("-bo=x,y", []string{fmt.Sprintf("-bo=%d,%d", x, y)}, origin(fixed(x, y), fmt.Sprintf("%d,%d", x, y)))
			add("-bo=x,y grouped", []string{fmt.Sprintf("-bz=1o=%d,%dt=2", x, y)}, origin(fixed(x, y), fmt.Sprintf("%d,%d", x, y)))
		}
	}
	bmlen := func(o *OutMap) int { return len(o.L["BLOCKMAP"]) }
	smaller := func(self func(i int, w *cliWorld, o *OutMap, ctx string) string) func(w *cliWorld, base, got []*OutMap, ctx string) string {
		return func(w *cliWorld, base, got []*OutMap, ctx string) string {
			for i := range got {
				if bmlen(got[i]) > bmlen(base[i]) {
					return fmt.Sprintf("blockmap of %s has %d bytes, %d without", got[i].Marker, bmlen(got[i]), bmlen(base[i]))
				}
				if self != nil {
					if m := self(i, w, got[i], ctx); m != "" {
						return m
					}
				}
			}
			return sameParts(got, base, "nr")
		}
	}
	add("-bs", []string{"-bs"}, smaller(func(i int, w *cliWorld, o *OutMap, ctx string) string {
		z := 1
		if k := strings.Index(ctx, "-bz="); k >= 0 {
			z = int(ctx[k+4] - '0')
		}
		return CheckBlockmap(o.L["BLOCKMAP"], w.maps[i], &BMOpts{Z: z, Subset: true})
	}))
	add("-ba", []string{"-ba"}, smaller(nil))
	add("-bsa", []string{"-bsa"}, smaller(nil))
	add("-bo=4", []string{"-bo=4"}, smaller(nil))
	for z := 0; z <= 2; z++ {
		z := z
		add("-bz", []string{fmt.Sprintf("-bz=%d", z)}, func(w *cliWorld, base, got []*OutMap, ctx string) string {
			for i, o := range got {
				if m := CheckBlockmap(o.L["BLOCKMAP"], w.maps[i], &BMOpts{Z: z, CheckZ: true, Subset: strings.Contains(ctx, "-bs"), Lossy: strings.Contains(ctx, "-ba")}); m != "" {
					return o.Marker + ": " + m
				}
			}
			return sameParts(got, base, "nr")
		})
	}
	for _, k := range []struct{ o, k string }{{"-nc=v", "vanilla"}, {"-nc=V", "vanilla"}, {"-nc=d", "deep"}, {"-nc=D", "vanilla"}, {"-nc=x", "extended"}, {"-nc=X", "vanilla"}, {"-nc=z", "compressed"}, {"-nc=z1", "compressed"}, {"-nc=z9", "compressed"}, {"-nc=Z", "vanilla"}, {"-nc=Z9", "vanilla"}} {
		k := k
		for _, rep := range []string{k.o, "-nm=0" + k.o[2:], k.o + "i=0"} {
			add("node format", []string{rep}, func(w *cliWorld, base, got []*OutMap, ctx string) string {
				if strings.Contains(ctx, "-n-") {
					return "" // a later -n setting turns nodes back on or not: the grammar half covers it
				}
				for _, o := range got {
					if g := nodeKind(o); g != k.k {
						return fmt.Sprintf("nodes of %s are %s, not %s", o.Marker, g, k.k)
					}
				}
				return sameParts(got, base, "br")
			})
		}
	}
	// the same tree again without the overhead: subsector and seg counts
	add("-rz", []string{"-rz"}, func(w *cliWorld, base, got []*OutMap, ctx string) string {
		for i, o := range got {
			n := len(w.maps[i].Sectors)
			rj := o.L["REJECT"]
			if len(rj) != (n*n+7)/8 || len(bytes.Trim(rj, "\x00")) != 0 {
				return fmt.Sprintf("reject of %s (%d sectors) is not %d zero bytes: %x", o.Marker, n, (n*n+7)/8, rj)
			}
		}
		return sameParts(got, base, "bn")
	})
	bit := func(rj []byte, n, i, j int) bool { k := i*n + j; return k/8 < len(rj) && rj[k/8]>>(k%8)&1 == 1 }
	add("-rm", []string{"-rm"}, func(w *cliWorld, base, got []*OutMap, ctx string) string {
		for i, o := range got {
			n := len(w.maps[i].Sectors)
			if n < 2 {
				continue
			}
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					want := bit(base[i].L["REJECT"], n, a, b) || a == 0 && b == 1
					if bit(o.L["REJECT"], n, a, b) != want {
						return fmt.Sprintf("with EXCLUDE 0 1 in the options file, reject of %s from sector %d to %d is not %v", o.Marker, a, b, want)
					}
				}
			}
		}
		return sameParts(got, base, "bn")
	})
	only := func(keepLevel func(string) bool) func(w *cliWorld, base, got []*OutMap, ctx string) string {
		return func(w *cliWorld, base, got []*OutMap, ctx string) string {
			for i, o := range got {
				want := w.in[i]
				if keepLevel(o.Marker) {
					want = base[i]
				}
				if m := sameParts([]*OutMap{o}, []*OutMap{want}, "bnr"); m != "" {
					return m
				}
			}
			return ""
		}
	}
	for _, n := range [][]string{{"MAP01"}, {"e1m1"}, {"mAp02", "E1M1"}, {"MAP07"}, {"e2m3", "map07"}} {
		in := func(s string) bool {
			for _, x := range n {
				if strings.EqualFold(x, s) {
					return true
				}
			}
			return false
		}
		add("-m", []string{"-m:" + strings.Join(n, "+")}, only(in))
		add("-!m", []string{"-!m:" + strings.Join(n, "+")}, only(func(s string) bool { return !in(s) }))
	}
	add("--eject", []string{"--eject", "-m:map01+e2m3"}, func(w *cliWorld, base, got []*OutMap, ctx string) string {
		k := 0
		for i, b := range base {
			if b.Marker != "MAP01" && b.Marker != "E2M3" {
				continue
			}
			if k >= len(got) || got[k].Marker != b.Marker {
				return "level " + b.Marker + " is missing"
			}
			if m := sameParts(got[k:k+1], base[i:i+1], "bnr"); m != "" {
				return m
			}
			k++
		}
		if k != len(got) {
			return "levels that were not rebuilt are in the output"
		}
		return ""
	})
	// settings that differ from one another must be able to show it
	ctxs := [][]string{{}, {"-bs"}, {"-ba"}, {"-bz=0"}, {"-bz=2"}, {"-nc=d"}, {"-nc=x"}, {"-na=3"}, {"-na=4"}, {"-rz"}, {"-rs=2"}, {"-ni=2"}, {"-nm=1"}, {"-bo=0", "-rg-"}}
	if e.Thorough() {
		ctxs = append(ctxs, []string{"-bs", "-nc=z", "-rs=3"}, []string{"-ba", "-bz=0", "-na=2"}, []string{"-bo=4", "-nm=3"}, []string{"-bo=3"}, []string{"-na=0"}, []string{"-na=1", "-np=1"}, []string{"-br"}, []string{"-bs?", "-ba?"})
	}
	// a context that sets the same thing as the rule makes the comparison meaningless
	key := func(s string) string {
		switch {
		case s == "-rz" || s == "-rz-" || s == "-rm" || strings.HasPrefix(s, "-rs") || s == "-rg" || s == "-rg+":
			return "r"
		case strings.HasPrefix(s, "-bs") || strings.HasPrefix(s, "-ba"):
			return "ba"
		case len(s) > 3:
			return s[:3]
		}
		return s
	}
	clash := func(a, b []string) bool {
		for _, x := range a {
			for _, y := range b {
				if key(x) == key(y) {
					return true
				}
				// grouped forms
				if len(x) > 3 && len(y) > 3 && x[:2] == y[:2] && (strings.Contains(x[2:], y[2:3]+"=") || strings.Contains(y[2:], x[2:3]+"=")) {
					return true
				}
			}
		}
		return false
	}
	type job struct {
		w    *cliWorld
		ctx  []string
		rule rule
	}
	bases := map[string][]*OutMap{}
	type bk struct {
		w   *cliWorld
		ctx []string
	}
	var bks []bk
	var jobs []job
	for _, w := range worlds {
		for _, c := range ctxs {
			bks = append(bks, bk{w, c})
			for _, ru := range rules {
				if clash(c, ru.opts) {
					continue
				}
				if ru.name == "--eject" && len(w.in) == 0 {
					continue
				}
				ok := true
				if strings.HasPrefix(ru.name, "-m") {
					ok = false
					for _, o := range w.in {
						if strings.Contains(strings.ToUpper(ru.opts[0]), o.Marker) {
							ok = true
						}
					}
				}
				if strings.HasPrefix(ru.name, "-!m") {
					left := 0
					for _, o := range w.in {
						if !strings.Contains(strings.ToUpper(ru.opts[0]), o.Marker) {
							left++
						}
					}
					ok = left > 0
				}
				if ok {
					jobs = append(jobs, job{w, c, ru})
				}
			}
		}
	}
	var outs = make([]cliRunOut, len(bks))
	e.Parallel(len(bks), func(i int) { outs[i] = e.cliReal(bks[i].w, bks[i].ctx) })
	report := func(w *cliWorld, args []string, msg string, again func() bool) {
		e.Fail(Violation{Key: hashKey(append([]string{"meaning", w.name}, args...)...), Msg: fmt.Sprintf("options %q: %s", args, msg), Args: append(append([]string{}, args...), "-d", "in.wad", "-o", "out.wad"),
			Files: map[string][]byte{"in.wad": w.data, "in.rej": []byte(cliRej)}, Recheck: again})
	}
	for i, b := range bks {
		if outs[i].msg != "" {
			b := b
			report(b.w, b.ctx, outs[i].msg, func() bool { return e.cliReal(b.w, b.ctx).msg != "" })
			continue
		}
		bases[b.w.name+strings.Join(b.ctx, " ")] = outs[i].levels
	}
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		base := bases[j.w.name+strings.Join(j.ctx, " ")]
		if base == nil || e.Stop() {
			return
		}
		for _, order := range [][]string{append(append([]string{}, j.ctx...), j.rule.opts...), append(append([]string{}, j.rule.opts...), j.ctx...)} {
			// -b-, -n-, -r- are undone by a later setting of the same letter; keep them last
			if len(j.ctx) > 0 && order[0] == j.rule.opts[0] && offThenOn(j.rule.opts, j.ctx) {
				continue
			}
			order := order
			do := func() string {
				o := e.cliReal(j.w, order)
				if o.msg != "" {
					return o.msg
				}
				return j.rule.judge(j.w, base, o.levels, strings.Join(j.ctx, " "))
			}
			msg := do()
			e.R.Case("meaning "+j.w.name+strings.Join(order, " "), true)
			e.R.Count("settings judged by their effect, "+j.rule.name, 1)
			if msg != "" {
				report(j.w, order, msg, func() bool { return do() != "" })
			}
			if len(j.ctx) == 0 {
				break
			}
		}
	})
}

func offThenOn(a, b []string) bool {
	for _, x := range a {
		if len(x) == 3 && x[2] == '-' {
			for _, y := range b {
				if strings.HasPrefix(y, x[:2]) {
					return true
				}
			}
		}
		// naming a setting of a letter turns that lump on again
	}
	return false
}
