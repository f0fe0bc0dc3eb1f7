package main

// Exhaustive enumeration of small WAD directories (C01, C02, C11, C12).
// Alphabet: one token per directory shape that the program distinguishes; each
// instance has content unique to its position, so that any mix-up shows.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

const wadTokens = "PELMDHRVBSGKTQU"

func uniq(tag string, pos, n int) []byte {
	b := make([]byte, n)
	s := fmt.Sprintf("%s#%d.", tag, pos)
	for i := range b {
		b[i] = s[i%len(s)]
		if b[i] == 0 {
			b[i] = 1
		}
	}
	return b
}

// tokenMap: geometry that depends on the position and the kind.
func tokenMap(pos, kind int) *Map {
	x, y := 64*pos-100, 32*kind-7*pos
	var m *Map
	switch (pos + kind) % 3 {
	case 0:
		m = squareRoom(x, y, 128+16*pos)
	case 1:
		m = twoRooms(x, y, 96+8*pos)
	default:
		m = lRoom(x, y, 64+8*pos)
	}
	for i := range m.Sectors {
		m.Sectors[i].Light = 100 + pos
		m.Sectors[i].Tag = 10*pos + i
	}
	for i := range m.Lines {
		m.Lines[i].Tag = 7 + pos
		m.Lines[i].Action = 100 + i
	}
	for i := range m.Sides {
		m.Sides[i].XOff = i*3 + pos
		m.Sides[i].YOff = -i
	}
	return m
}

func stub(pos int, n string) []byte { return uniq("STUB"+n, pos, 20+pos) }

// tokenLumps expands a token at a position.
func tokenLumps(t byte, pos int, marker string) []Lump {
	full := func(m *Map) []Lump {
		return m.FullLumps(marker, stub(pos, "SEGS"), stub(pos, "SSEC"), stub(pos, "NODE"), stub(pos, "REJ"), stub(pos, "BMAP"))
	}
	rev := func(l []Lump) []Lump {
		r := []Lump{l[0]}
		for i := len(l) - 1; i > 0; i-- {
			r = append(r, l[i])
		}
		return r
	}
	switch t {
	case 'P': // plain data lump
		return []Lump{{fmt.Sprintf("PLAIN%d", pos), uniq("plain", pos, 5+3*pos)}}
	case 'E': // empty lump
		return []Lump{{fmt.Sprintf("EMPTYLM%d", pos), nil}}
	case 'L': // complete level
		return full(tokenMap(pos, 0))
	case 'M': // level with the mandatory lumps only
		return tokenMap(pos, 1).Lumps(marker)
	case 'D': // level with duplicate lumps, mandatory and derived
		l := full(tokenMap(pos, 2))
		l = append(l, Lump{"REJECT", stub(pos, "REJ2")}, Lump{"BLOCKMAP", stub(pos, "BMAP2")}, Lump{"NODES", stub(pos, "NOD2")})
		m2 := tokenMap(pos, 2)
		m2.Things[0].Angle = 90 + pos
		return append(l, Lump{"THINGS", m2.ThingsLump()})
	case 'H': // Hexen format with compiled and source scripts
		m := tokenMap(pos, 1)
		m.Hexen = true
		l := full(m)
		l[len(l)-1].Data = append(l[len(l)-1].Data, uniq("behav", pos, 3)...)
		return append(l, Lump{"SCRIPTS", uniq("scripts", pos, 9+pos)})
	case 'R': // level in reversed lump order, one derived lump absent
		l := full(tokenMap(pos, 0))
		var k []Lump
		for _, x := range rev(l) {
			if x.Name != "SSECTORS" {
				k = append(k, x)
			}
		}
		return k
	case 'V': // not a level: sectors missing
		l := full(tokenMap(pos, 0))
		var k []Lump
		for _, x := range l {
			if x.Name != "SECTORS" {
				k = append(k, x)
			}
		}
		return k
	case 'B': // marker alone
		return []Lump{{marker, nil}}
	case 'S': // stray level lump
		return []Lump{{"NODES", uniq("stray", pos, 8)}}
	case 'U': // text map (not supported: copied)
		return []Lump{{marker, nil}, {"TEXTMAP", uniq("textmap", pos, 30+pos)}, {"ZNODES", uniq("znodes", pos, 11)}, {"REJECT", uniq("udmfrej", pos, 3)}, {"ENDMAP", nil}}
	case 'G': // GL nodes lumps
		return []Lump{{"GL_" + marker, nil}, {"GL_SEGS", uniq("glsegs", pos, 6)}}
	case 'K': // stray BEHAVIOR
		return []Lump{{"BEHAVIOR", uniq("straybeh", pos, 20)}}
	case 'T': // stray SCRIPTS
		return []Lump{{"SCRIPTS", uniq("strayscr", pos, 7)}}
	case 'Q': // marker with data of its own
		l := tokenMap(pos, 0).Lumps(marker)
		l[0].Data = uniq("marker", pos, 4)
		return l
	}
	panic("token")
}

func seqLumps(seq string, sameName bool) []Lump {
	var r []Lump
	for i := 0; i < len(seq); i++ {
		nm := fmt.Sprintf("MAP%02d", i+1)
		if i == 2 {
			nm = "E1M3"
		}
		if i == 3 {
			nm = "E2M10"
		}
		if sameName {
			nm = "MAP01"
		}
		r = append(r, tokenLumps(seq[i], i, nm)...)
	}
	return r
}

type wadOptSet struct {
	name string
	o    WadOpts
}

func set(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return m
}

func wadOptSets() []wadOptSet {
	all := WadOpts{Nodes: true, BM: true, RejMode: 'b'}
	mk := func(f func(o *WadOpts), args ...string) WadOpts {
		o := all
		o.Args = args
		f(&o)
		return o
	}
	return []wadOptSet{
		{"default", mk(func(o *WadOpts) {})},
		{"nothing", mk(func(o *WadOpts) { o.Nodes, o.BM, o.RejMode = false, false, '-' }, "-n-", "-b-", "-r-")},
		{"nodes-only", mk(func(o *WadOpts) { o.BM, o.RejMode = false, '-' }, "-b-", "-r-")},
		{"bm-only", mk(func(o *WadOpts) { o.Nodes, o.RejMode = false, '-' }, "-n-", "-r-")},
		{"rej-only", mk(func(o *WadOpts) { o.Nodes, o.BM = false, false }, "-n-", "-b-")},
		{"rz", mk(func(o *WadOpts) { o.RejMode = 'z' }, "-rz")},
		{"rz-only", mk(func(o *WadOpts) { o.RejMode, o.Nodes, o.BM = 'z', false, false }, "-rz", "-n-", "-b-")},
		{"eject", mk(func(o *WadOpts) { o.Eject = true }, "--eject")},
		{"only", mk(func(o *WadOpts) { o.Only = set("MAP01", "E1M3") }, "-m:map01+e1m3")},
		{"except", mk(func(o *WadOpts) { o.Except = set("MAP02", "E2M10") }, "-!m:MAP02+E2M10")},
		{"only-eject", mk(func(o *WadOpts) { o.Only, o.Eject = set("MAP02", "E2M10"), true }, "-m:map02+e2m10", "--eject")},
		{"except-eject-rz", mk(func(o *WadOpts) { o.Except, o.Eject, o.RejMode = set("MAP01"), true, 'z' }, "-!m:map01", "--eject", "-rz")},
		{"only-rz", mk(func(o *WadOpts) { o.Only, o.RejMode = set("MAP01", "MAP02"), 'z' }, "-m:map01+map02", "-rz")},
		{"xnod-rz", mk(func(o *WadOpts) { o.RejMode = 'z' }, "-nv", "-rz")},
	}
}

// wadCase runs one input file under one option set; returns all discrepancies.
func (e *Env) wadCase(in []byte, lumps []Lump, sig string, os_ *wadOptSet) ([]WadDiff, *Result, bool) {
	exp, levels, ok := ModelWad(lumps, &os_.o)
	r, out := e.RunOn(os_.o.Args, in)
	if r.Timeout || r.Panicked() || r.Exit < 0 {
		return []WadDiff{{"crash", "program crashed or hung: " + r.Brief()}}, r, ok
	}
	if !ok {
		if r.Exit == 0 || len(out) > 0 {
			return []WadDiff{{"container", fmt.Sprintf("no level to rebuild, yet exit=%d with %d output bytes", r.Exit, len(out))}}, r, ok
		}
		return nil, r, ok
	}
	if !r.OK() {
		return []WadDiff{{"crash", "program failed on a WAD with rebuildable levels: " + r.Brief()}}, r, ok
	}
	return CompareWad(out, sig, exp, levels, &os_.o), r, ok
}

// checkWads enumerates; kinds selects which discrepancies count for this property.
func checkWads(e *Env, kinds map[string]bool, opts []string, encodings bool) {
	all := wadOptSets()
	var sets []wadOptSet
	for _, s := range all {
		if len(opts) == 0 || set(opts...)[s.name] {
			sets = append(sets, s)
		}
	}
	depth := 3
	if e.Thorough() {
		depth = 4
	}
	type job struct {
		seq  string
		same bool
	}
	var jobs []job
	var rec func(p string, d int)
	rec = func(p string, d int) {
		if len(p) == d {
			jobs = append(jobs, job{p, false})
			return
		}
		for i := range wadTokens {
			// scripts right behind a Doom-format level would reinterpret its linedefs: not a level any more
			if n := len(p); n > 0 && (wadTokens[i] == 'K' || wadTokens[i] == 'T') {
				k := n - 1
				for k > 0 && strings.IndexByte("SKT", p[k]) >= 0 {
					k--
				}
				if wadTokens[i] == 'K' && strings.IndexByte("LMDRQ", p[k]) >= 0 {
					continue
				}
			}
			rec(p+wadTokens[i:i+1], d)
		}
	}
	for d := 1; d <= depth; d++ {
		rec("", d)
	}
	// duplicate level names
	for _, a := range "LMHVBP" {
		for _, b := range "LMHVBP" {
			for _, c := range "LMHVBP" {
				jobs = append(jobs, job{string([]rune{a, b, c}), true})
			}
		}
	}
	doneBy := make([]int64, 1)
	_ = doneBy
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		lumps := seqLumps(j.seq, j.same)
		sig := "PWAD"
		if strings.Count(j.seq, "L")%2 == 1 {
			sig = "IWAD"
		}
		w := &Wad{Sig: sig, Lumps: lumps}
		in := w.Bytes()
		for k := range sets {
			s := &sets[k]
			e.wadJudge(fmt.Sprintf("%s same=%v", j.seq, j.same), in, lumps, sig, s, kinds)
			if e.Stop() {
				return
			}
		}
	})
	if encodings {
		checkWadEncodings(e, kinds, sets)
	}
	e.R.Extra["alphabet"] = wadTokens
	e.R.Extra["depth"] = depth
	e.R.Extra["option_sets"] = len(sets)
}

func (e *Env) wadJudge(desc string, in []byte, lumps []Lump, sig string, s *wadOptSet, kinds map[string]bool) {
	d, r, ok := e.wadCase(in, lumps, sig, s)
	e.R.Case(desc+"|"+s.name, ok)
	if ok {
		e.R.Count("built", 1)
	} else {
		e.R.Count("refused", 1)
	}
	if len(lumps) > 0 {
		e.R.Sample(s.name, map[string]any{"sequence": desc, "args": s.o.Args, "exit": r.Exit})
	}
	for _, x := range d {
		if !kinds[x.Kind] {
			continue
		}
		e.Fail(Violation{Key: hashKey(desc, s.name), Msg: x.Msg + " [input " + desc + "]", Args: s.o.Args,
			Files: map[string][]byte{"in.wad": in},
			Recheck: func() bool {
				d2, _, _ := e.wadCase(in, lumps, sig, s)
				for _, y := range d2 {
					if kinds[y.Kind] {
						return true
					}
				}
				return false
			}})
		return
	}
}

// checkWadEncodings: the same logical contents in every file encoding of the menu.
func checkWadEncodings(e *Env, kinds map[string]bool, sets []wadOptSet) {
	seqs := []string{"PL", "LP", "PLP", "MPL", "ELE", "PHP", "LL", "PPL", "LVP", "GMP", "PME", "DLP"}
	type enc struct {
		name string
		f    func(l []Lump, sig string) []byte
	}
	encs := []enc{
		{"dirfirst", func(l []Lump, sig string) []byte { return (&Wad{Sig: sig, Lumps: l}).BytesDirFirst() }},
		{"gaps", func(l []Lump, sig string) []byte {
			return encodeWad(l, sig, func(i int) int { return 3 + i%5 }, 0, false)
		}},
		{"reverse-data", func(l []Lump, sig string) []byte { return encodeWad(l, sig, nil, 0, true) }},
		{"garbage-tail", func(l []Lump, sig string) []byte {
			return append((&Wad{Sig: sig, Lumps: l}).Bytes(), uniq("tail", 0, 37)...)
		}},
		{"emptypos0", func(l []Lump, sig string) []byte { return encodeWad(l, sig, nil, 1, false) }},
		{"emptypos-huge", func(l []Lump, sig string) []byte { return encodeWad(l, sig, nil, 2, false) }},
		{"shared", func(l []Lump, sig string) []byte { return encodeWad(l, sig, nil, 3, false) }},
		{"garbage-names", func(l []Lump, sig string) []byte {
			b := (&Wad{Sig: sig, Lumps: l}).Bytes()
			dp := le.Uint32(b[8:])
			for i := range l {
				nm := b[int(dp)+16*i+8 : int(dp)+16*i+16]
				if z := bytes.IndexByte(nm, 0); z >= 0 {
					for k := z + 1; k < 8; k++ {
						nm[k] = 'x'
					}
				}
			}
			return b
		}},
	}
	type job struct{ s, e, g int }
	var jobs []job
	for s := range seqs {
		for k := range encs {
			for g := 0; g < 2; g++ {
				jobs = append(jobs, job{s, k, g})
			}
		}
	}
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		lumps := seqLumps(seqs[j.s], false)
		// give equal content to two plain lumps in the shared encoding
		sig := []string{"PWAD", "IWAD"}[j.g]
		in := encs[j.e].f(lumps, sig)
		if encs[j.e].name == "shared" {
			p, err := ParseWad(in)
			if err != nil {
				fatal("encoding: %v", err)
			}
			lumps = p.Lumps
		}
		for k := range sets {
			sets := append([]wadOptSet{}, sets...)
			sets[k].o.AnyRaw = encs[j.e].name == "garbage-names"
			e.wadJudge("enc:"+encs[j.e].name+":"+sig+":"+seqs[j.s], in, lumps, sig, &sets[k], kinds)
		}
	})
	e.R.Extra["encodings"] = len(encs) * 2
}

// encodeWad: custom data placement. emptyMode 1: empty lumps have position 0;
// 2: position 0x7fffffff; 3: consecutive plain lumps share one blob.
func encodeWad(l []Lump, sig string, gap func(i int) int, emptyMode int, reverse bool) []byte {
	b := append([]byte(sig), 0, 0, 0, 0, 0, 0, 0, 0)
	pos := make([]int, len(l))
	size := make([]int, len(l))
	last := -1
	for k := range l {
		i := k
		if reverse {
			i = len(l) - 1 - k
		}
		if gap != nil {
			b = append(b, bytes.Repeat([]byte{0xEE}, gap(i))...)
		}
		pos[i] = len(b)
		size[i] = len(l[i].Data)
		if len(l[i].Data) == 0 {
			if emptyMode == 1 {
				pos[i] = 0
			} else if emptyMode == 2 {
				pos[i] = 0x7fffffff
			}
			continue
		}
		if emptyMode == 3 && strings.HasPrefix(l[i].Name, "PLAIN") {
			if last >= 0 {
				pos[i], size[i] = pos[last], size[last]
				continue
			}
			last = i
		}
		b = append(b, l[i].Data...)
	}
	le.PutUint32(b[4:], uint32(len(l)))
	le.PutUint32(b[8:], uint32(len(b)))
	for i := range l {
		b = le.AppendUint32(b, uint32(pos[i]))
		b = le.AppendUint32(b, uint32(size[i]))
		b = pad8(b, l[i].Name)
	}
	return b
}

func kindsOf(s ...string) map[string]bool { return set(s...) }

func init() {
	checks["C01"] = func(e *Env) {
		e.R.Rule = "a case counts as non-trivial when the input holds at least one rebuildable level, so that a whole new WAD had to be written"
		checkWads(e, kindsOf("container", "plain", "crash"), []string{"default", "nothing", "rz", "nodes-only", "xnod-rz", "rej-only"}, true)
		if e.Thorough() {
			checkManyLumps(e, 9)
		} else {
			checkManyLumps(e, 3)
		}
	}
	checks["C02"] = func(e *Env) {
		e.R.Rule = "a case counts as non-trivial when the input holds at least one rebuildable level"
		checkWads(e, kindsOf("level", "crash"), []string{"default", "nothing", "rz-only", "bm-only", "rej-only", "nodes-only"}, true)
		checkDegenerate(e)
	}
	checks["C11"] = func(e *Env) {
		e.R.Rule = "a case counts as non-trivial when at least one level gets a zero-filled reject"
		checkWads(e, kindsOf("zeroreject", "crash", "container"), []string{"rz", "rz-only", "except-eject-rz", "only-rz", "xnod-rz"}, true)
		checkZeroRejectSizes(e)
	}
	checks["C12"] = func(e *Env) {
		e.R.Rule = "a case counts as non-trivial when at least one level is selected and rebuilt"
		checkWads(e, kindsOf("container", "plain", "level", "crash"), []string{"eject", "only", "except", "only-eject", "except-eject-rz", "only-rz"}, false)
		checkSelection(e)
	}
}

// checkManyLumps: plain lumps of sizes around the copy buffer, in every combination of a size menu.
func checkManyLumps(e *Env, n int) {
	sizes := []int{1, 65535, 65536, 65537, 131072, 200001}
	var jobs [][]int
	for _, a := range sizes {
		for _, b := range sizes {
			for k := 0; k < n && k < len(sizes); k++ {
				jobs = append(jobs, []int{a, b, sizes[k]})
			}
		}
	}
	s := wadOptSets()[0]
	e.Parallel(len(jobs), func(i int) {
		var l []Lump
		for k, sz := range jobs[i] {
			l = append(l, Lump{fmt.Sprintf("BIG%d", k), uniq("big", k, sz)})
			if k == 1 {
				l = append(l, tokenLumps('L', 1, "MAP01")...)
			}
		}
		in := (&Wad{Lumps: l}).Bytes()
		e.wadJudge(fmt.Sprint("big", jobs[i]), in, l, "PWAD", &s, kindsOf("container", "plain", "crash"))
	})
}

// roomsRow: n sectors in a row.
func roomsRow(n, x, y, sz int) *Map {
	g := &GridSpec{W: n, H: 1, Cells: make([]int, n), XS: steps(n, sz), YS: []int{0, sz}, Mat: [4]int{1, 0, 0, 1}, OX: x, OY: y}
	for i := range g.Cells {
		g.Cells[i] = i
	}
	return g.Build()
}

// checkZeroRejectSizes: every combination of sector counts from a menu over up to
// three levels, with plain lumps of zeroes in between.
func checkZeroRejectSizes(e *Env) {
	menu := []int{1, 2, 3, 4, 9, 17, 40}
	zeros := []int{-1, 0, 1, 5, 300}
	type job struct {
		n    []int
		z    int
		lead int
	}
	var jobs []job
	for n := 1; n <= 64; n++ {
		for lead := 0; lead < 3; lead++ {
			jobs = append(jobs, job{[]int{n}, -1, lead})
		}
	}
	// directory start around 65536
	for n := 721; n <= 726; n++ {
		for lead := 0; lead < 3; lead++ {
			jobs = append(jobs, job{[]int{n}, -1, lead})
		}
	}
	for _, a := range menu {
		for _, z := range zeros {
			jobs = append(jobs, job{[]int{a}, z, 0})
		}
		for _, b := range menu {
			for _, z := range zeros {
				jobs = append(jobs, job{[]int{a, b}, z, 0})
			}
			for _, c := range menu {
				for _, z := range zeros {
					jobs = append(jobs, job{[]int{a, b, c}, z, 0})
				}
			}
		}
	}
	sets := wadOptSets()
	var rz []wadOptSet
	for _, s := range sets {
		if s.name == "rz" || s.name == "rz-only" {
			rz = append(rz, s)
		}
	}
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		var l []Lump
		for k, n := range j.n {
			m := roomsRow(n, 8*k, 16*k, 32)
			nm := fmt.Sprintf("MAP%02d", k+1)
			if k%2 == 0 {
				l = append(l, m.Lumps(nm)...)
			} else {
				l = append(l, m.FullLumps(nm, stub(k, "S"), stub(k, "SS"), stub(k, "N"), make([]byte, n), stub(k, "B"))...)
			}
			if j.z >= 0 {
				l = append(l, Lump{fmt.Sprintf("ZERO%d", k), make([]byte, j.z)})
			}
		}
		switch j.lead {
		case 1:
			l = append([]Lump{{"LEAD", uniq("lead", 0, 9)}}, l...)
		case 2:
			l = append([]Lump{{"LEAD", nil}}, l...)
		}
		in := (&Wad{Lumps: l}).Bytes()
		for k := range rz {
			if j.n[0] > 100 && rz[k].name != "rz-only" {
				continue
			}
			e.wadJudge(fmt.Sprint("zr", j.n, j.z, j.lead), in, l, "PWAD", &rz[k], kindsOf("zeroreject", "crash", "container", "plain"))
		}
	})
}

var _ = os.ReadFile
var _ = filepath.Join

// checkSelection: every list of one to three levels, kept or left out, written in
// every case style, on a file whose level names resemble each other.
func checkSelection(e *Env) {
	names := []string{"E1M1", "E1M10", "E1M2", "E2M1", "MAP01", "MAP10", "MAP11"}
	var lists [][]string
	var rec func(p []string, d int)
	rec = func(p []string, d int) {
		if len(p) > 0 {
			lists = append(lists, append([]string{}, p...))
		}
		if d == 0 {
			return
		}
	next:
		for _, n := range names {
			for _, q := range p {
				if q == n {
					continue next
				}
			}
			rec(append(p, n), d-1)
		}
	}
	depth := 2
	if e.Thorough() {
		depth = 4
	}
	rec(nil, depth)
	styles := []func(s string) string{strings.ToLower, strings.ToUpper, func(s string) string { return s[:1] + strings.ToLower(s[1:]) }}
	kinds := kindsOf("container", "plain", "level", "crash")
	var ins [][]byte
	var lumps [][]Lump
	for o := 0; o < 2; o++ {
		var l []Lump
		for i := range names {
			n := names[i]
			if o == 1 {
				n = names[len(names)-1-i]
			}
			l = append(l, tokenLumps('L', i, n)...)
			l = append(l, tokenLumps('P', i, "")...)
		}
		lumps, ins = append(lumps, l), append(ins, (&Wad{Sig: "PWAD", Lumps: l}).Bytes())
	}
	all := wadOptSets()[0].o
	e.Parallel(len(lists), func(i int) {
		for k, f := range styles {
			for mode := 0; mode < 4; mode++ {
				o := all
				a := "-m:"
				if mode&1 == 1 {
					a = "-!m:"
					o.Except = set(lists[i]...)
				} else {
					o.Only = set(lists[i]...)
				}
				o.Args = []string{a + f(strings.Join(lists[i], "+"))}
				if mode&2 == 2 {
					o.Eject = true
					o.Args = append(o.Args, "--eject")
				}
				s := &wadOptSet{fmt.Sprint(o.Args), o}
				for q := range ins {
					if q != (k+mode)%2 && !e.Thorough() {
						continue
					}
					e.wadJudge(fmt.Sprint("select order ", q), ins[q], lumps[q], "PWAD", s, kinds)
				}
				if e.Stop() {
					return
				}
			}
		}
	})
	e.R.Extra["selection_lists"] = len(lists)
}

// checkDegenerate: levels whose mandatory lumps are present but partly empty, with
// and without derived lumps, between other lumps. Such a level cannot be rebuilt, or
// only in part; the lumps that hold the map itself have to survive unchanged.
func checkDegenerate(e *Env) {
	type job struct {
		mask, pos int
		derived   bool
		hexen     bool
	}
	var jobs []job
	for mask := 0; mask < 15; mask++ {
		if mask&1 != 0 && mask&2 == 0 {
			continue // lines without vertices: references out of range
		}
		for pos := 0; pos < 4; pos++ {
			for f := 0; f < 4; f++ {
				jobs = append(jobs, job{mask, pos, f&1 == 1, f&2 == 2})
			}
		}
	}
	bits := map[string]int{"LINEDEFS": 1, "VERTEXES": 2, "SIDEDEFS": 4, "SECTORS": 8}
	derived := set("SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP")
	sets := wadOptSets()
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		m := tokenMap(0, 0)
		m.Hexen = j.hexen
		var l []Lump
		if j.derived {
			l = m.FullLumps("MAP01", stub(0, "SEGS"), stub(0, "SSEC"), stub(0, "NODE"), stub(0, "REJ"), stub(0, "BMAP"))
		} else {
			l = m.Lumps("MAP01")
		}
		for k := range l {
			if b := bits[l[k].Name]; b != 0 && j.mask&b == 0 {
				l[k].Data = nil
			}
		}
		if j.pos&1 != 0 {
			l = append([]Lump{{"PLAINA", uniq("plain", 1, 50)}}, l...)
		}
		if j.pos&2 != 0 {
			l = append(l, tokenLumps('L', 1, "MAP02")...)
		}
		l = append(l, Lump{"PLAINB", uniq("plain", 2, 60)})
		in := (&Wad{Lumps: l}).Bytes()
		desc := fmt.Sprintf("partly empty level mask=%d pos=%d derived=%v hexen=%v", j.mask, j.pos, j.derived, j.hexen)
		for k := range sets {
			o := sets[k].o
			if o.Only != nil || o.Except != nil || o.Eject {
				continue
			}
			judge := func() string {
				r, out := e.RunOn(o.Args, in)
				if !r.OK() {
					return "program failed: " + r.Brief()
				}
				p, err := ParseWad(out)
				if err != nil {
					return "output is not a well-formed WAD: " + err.Error()
				}
				q := 0
				for _, x := range l {
					for q < len(p.Lumps) && p.Lumps[q].Name != x.Name && derived[p.Lumps[q].Name] {
						q++
					}
					if q >= len(p.Lumps) || p.Lumps[q].Name != x.Name {
						return fmt.Sprintf("lump %s lost or moved", x.Name)
					}
					second := strings.HasPrefix(x.Name, "LINEDEFS") || x.Name == "VERTEXES" // rebuilt in the complete level
					if q > 0 && second && j.pos&2 != 0 && levelOf(p, q) == "MAP02" {
						q++
						continue
					}
					if j.mask == 14 && x.Name == "VERTEXES" {
						q++ // vertices no line uses may be pruned
						continue
					}
					if !derived[x.Name] && !bytes.Equal(p.Lumps[q].Data, x.Data) {
						return fmt.Sprintf("content of %s changed: %s", x.Name, diffBytes(x.Data, p.Lumps[q].Data))
					}
					q++
				}
				for a := range p.Dir {
					for b := range p.Dir {
						A, B := p.Dir[a], p.Dir[b]
						if a != b && A.Size > 0 && B.Size > 0 && A.Pos < B.Pos+B.Size && B.Pos < A.Pos+A.Size && o.RejMode != 'z' {
							return fmt.Sprintf("data of %s and %s overlap", A.Name, B.Name)
						}
					}
					if A := p.Dir[a]; A.Size > 0 && (A.Pos < 12 || (A.Pos < p.DirPos+uint32(16*len(p.Dir)) && A.Pos+A.Size > p.DirPos)) && o.RejMode != 'z' {
						return fmt.Sprintf("data of %s overlaps header or directory", A.Name)
					}
				}
				return ""
			}
			msg := judge()
			e.R.Case(desc+"|"+sets[k].name, true)
			if msg != "" {
				e.Fail(Violation{Key: hashKey(desc, sets[k].name), Msg: msg + " [" + desc + "]", Args: o.Args,
					Files: map[string][]byte{"in.wad": in}, Recheck: func() bool { return judge() != "" }})
			}
		}
	})
}

func levelOf(p *ParsedWad, i int) string {
	for ; i >= 0; i-- {
		if isLevelName(p.Lumps[i].Name) {
			return p.Lumps[i].Name
		}
	}
	return ""
}
