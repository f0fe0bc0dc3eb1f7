package main

// Reference model of what a rebuild does to the WAD directory: a small
// automaton over the entry sequence, written from the documented behaviour.

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

type WadOpts struct {
	Args    []string
	Eject   bool
	Only    map[string]bool // -m:
	Except  map[string]bool // -!m:
	Nodes   bool
	BM      bool
	AnyRaw  bool // do not judge bytes after the end of a lump name
	RejMode byte // 'b' build, '-' keep, 'z' zero-filled
}

type ExpEnt struct {
	Name  string
	Exact bool
	Data  []byte   // when Exact
	OneOf [][]byte // when there were duplicates
	Built string   // kind of rebuilt lump: SEGS SSECTORS NODES REJECT REJECT0 BLOCKMAP LINEDEFS VERTEXES
	Level int      // index of the rebuilt level this belongs to, -1
}

type ExpLevel struct {
	Marker string
	In     map[string][]byte   // kept content (last instance)
	All    map[string][][]byte // all instances
	Hexen  bool
}

var mandatory = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}
var canonOrder = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}
var creatable = map[string]bool{"SEGS": true, "SSECTORS": true, "NODES": true, "REJECT": true, "BLOCKMAP": true}

func (o *WadOpts) selected(name string) bool {
	if o.Only != nil {
		return o.Only[name]
	}
	if o.Except != nil {
		return !o.Except[name]
	}
	return true
}

// ModelWad returns the expected output directory. ok=false when no level can be
// rebuilt, in which case the program must refuse and produce nothing.
func ModelWad(in []Lump, o *WadOpts) (exp []ExpEnt, levels []ExpLevel, ok bool) {
	i := 0
	for i < len(in) {
		l := in[i]
		if isLevelName(l.Name) && o.selected(l.Name) {
			j := i + 1
			for j < len(in) && levelLumpSet[in[j].Name] {
				j++
			}
			members := in[i+1 : j]
			all := map[string][][]byte{}
			for _, m := range members {
				all[m.Name] = append(all[m.Name], m.Data)
			}
			valid := true
			for _, n := range mandatory {
				if len(all[n]) == 0 {
					valid = false
				}
			}
			exp = append(exp, ExpEnt{Name: l.Name, Exact: true, Data: l.Data, Level: -1})
			if !valid {
				for _, m := range members {
					exp = append(exp, ExpEnt{Name: m.Name, Exact: true, Data: m.Data, Level: -1})
				}
			} else {
				lv := ExpLevel{Marker: l.Name, In: map[string][]byte{}, All: all, Hexen: len(all["BEHAVIOR"]) > 0}
				li := len(levels)
				for _, n := range canonOrder {
					inst := all[n]
					if len(inst) == 0 && !creatable[n] {
						continue
					}
					e := ExpEnt{Name: n, Level: li}
					if len(inst) > 0 {
						lv.In[n] = inst[len(inst)-1]
					}
					switch {
					case (n == "SEGS" || n == "SSECTORS" || n == "NODES") && o.Nodes:
						e.Built = n
					case (n == "LINEDEFS" || n == "VERTEXES") && o.Nodes:
						e.Built = n
					case n == "BLOCKMAP" && o.BM:
						e.Built = n
					case n == "REJECT" && o.RejMode == 'b':
						e.Built = n
					case n == "REJECT" && o.RejMode == 'z':
						e.Built = "REJECT0"
					case len(inst) > 1:
						e.OneOf = inst
					default:
						e.Exact = true
						if len(inst) > 0 {
							e.Data = inst[0]
						}
					}
					exp = append(exp, e)
				}
				levels = append(levels, lv)
			}
			i = j
			continue
		}
		if !o.Eject {
			exp = append(exp, ExpEnt{Name: l.Name, Exact: true, Data: l.Data, Level: -1})
		}
		i++
	}
	return exp, levels, len(levels) > 0
}

// WadDiff is one discrepancy; Kind says which guarantee it concerns.
type WadDiff struct {
	Kind string // "container" | "plain" | "level" | "zeroreject"
	Msg  string
}

// CompareWad checks an output file against the model.
func CompareWad(out []byte, inSig string, exp []ExpEnt, levels []ExpLevel, o *WadOpts) []WadDiff {
	var d []WadDiff
	add := func(k, f string, a ...any) { d = append(d, WadDiff{k, fmt.Sprintf(f, a...)}) }
	p, err := ParseWad(out)
	if err != nil {
		add("container", "output is not a well-formed WAD: %v", err)
		return d
	}
	if p.Sig != inSig {
		add("container", "signature %q became %q", inSig, p.Sig)
	}
	names := func(es []ExpEnt) string {
		var s []string
		for _, e := range es {
			s = append(s, e.Name)
		}
		return strings.Join(s, " ")
	}
	if len(p.Dir) != len(exp) {
		var got []string
		for _, x := range p.Dir {
			got = append(got, x.Name)
		}
		k := "plain"
		if o.RejMode == 0 {
			k = "level"
		}
		add(k, "directory has %d entries, expected %d: got [%s] want [%s]", len(p.Dir), len(exp), strings.Join(got, " "), names(exp))
		return d
	}
	lv := make([]map[string][]byte, len(levels))
	for i := range lv {
		lv[i] = map[string][]byte{}
	}
	type span struct {
		a, b uint32
		i    int
	}
	var spans []span
	for i, e := range exp {
		g := p.Lumps[i]
		k := "plain"
		if e.Level >= 0 {
			k = "level"
		}
		if g.Name != e.Name || (!o.AnyRaw && p.Dir[i].RawName != name8(e.Name)) {
			add(k, "entry %d is named %q (raw %q), expected %q", i, g.Name, p.Dir[i].RawName, e.Name)
			continue
		}
		if e.Level >= 0 {
			lv[e.Level][e.Name] = g.Data
		}
		if e.Built != "REJECT0" && len(g.Data) > 0 {
			spans = append(spans, span{p.Dir[i].Pos, p.Dir[i].Pos + p.Dir[i].Size, i})
		}
		switch {
		case e.Exact:
			if !bytes.Equal(g.Data, e.Data) {
				add(k, "entry %d (%s) content changed: %s", i, e.Name, diffBytes(e.Data, g.Data))
			}
		case e.OneOf != nil:
			hit := false
			for _, x := range e.OneOf {
				hit = hit || bytes.Equal(x, g.Data)
			}
			if !hit {
				add(k, "entry %d (%s) has none of the %d original contents", i, e.Name, len(e.OneOf))
			}
		}
	}
	// nothing may overlap the header or the directory (zero-filled reject excepted)
	dirA, dirB := p.DirPos, p.DirPos+uint32(16*len(p.Dir))
	sort.Slice(spans, func(i, j int) bool { return spans[i].a < spans[j].a })
	for i, s := range spans {
		if s.a < 12 || (s.a < dirB && s.b > dirA) {
			add("container", "entry %d (%s) at [%d,%d) overlaps header/directory", s.i, p.Dir[s.i].Name, s.a, s.b)
		}
		if i > 0 && spans[i-1].b > s.a {
			add("container", "entries %d (%s) and %d (%s) overlap", spans[i-1].i, p.Dir[spans[i-1].i].Name, s.i, p.Dir[s.i].Name)
		}
	}
	for i := range levels {
		for _, m := range checkBuiltLevel(&levels[i], lv[i], o) {
			d = append(d, m)
		}
	}
	// zero-filled reject: right size, all zero, distinct offsets
	if o.RejMode == 'z' {
		seen := map[uint32]int{}
		for i, e := range exp {
			if e.Built != "REJECT0" {
				continue
			}
			ns := len(levels[e.Level].In["SECTORS"]) / 26
			want := (ns*ns + 7) / 8
			g := p.Lumps[i].Data
			if len(g) != want {
				add("zeroreject", "level %s: reject has %d bytes, expected %d for %d sectors", levels[e.Level].Marker, len(g), want, ns)
			}
			for _, b := range g {
				if b != 0 {
					add("zeroreject", "level %s: reject is not all zero", levels[e.Level].Marker)
					break
				}
			}
			if want > 0 {
				if j, dup := seen[p.Dir[i].Pos]; dup {
					add("zeroreject", "entries %d and %d share offset %d", j, i, p.Dir[i].Pos)
				}
				seen[p.Dir[i].Pos] = i
				for j, x := range p.Dir {
					if j != i && exp[j].Built != "REJECT0" && x.Pos == p.Dir[i].Pos && x.Size > 0 {
						add("zeroreject", "entry %d shares its offset %d with entry %d", i, x.Pos, j)
					}
				}
			}
		}
	}
	return d
}

func diffBytes(a, b []byte) string {
	if len(a) != len(b) {
		return fmt.Sprintf("length %d -> %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("first difference at byte %d: %02x -> %02x", i, a[i], b[i])
		}
	}
	return "equal"
}

// checkBuiltLevel: the linedefs/vertices rewritten by the node builder describe the
// same level, and the built lumps belong to this level.
func checkBuiltLevel(l *ExpLevel, out map[string][]byte, o *WadOpts) []WadDiff {
	var d []WadDiff
	add := func(f string, a ...any) {
		d = append(d, WadDiff{"level", "level " + l.Marker + ": " + fmt.Sprintf(f, a...)})
	}
	in := map[string][]byte{}
	for k, v := range l.In {
		in[k] = v
	}
	mi, _ := DecodeMap(in, l.Hexen)
	mo, _ := DecodeMap(out, l.Hexen)
	if o.Nodes {
		if s := sameLines(mi, mo); s != "" {
			add("%s", s)
		}
		if len(out["NODES"]) == 0 && len(mi.Lines) > 0 {
			add("no nodes were written")
		}
		if len(mo.Lines) > 0 && len(mo.Sides) > 0 {
			if t, err := DecodeTree(out); err != nil {
				add("nodes do not decode: %v", err)
			} else if e := t.CheckStructure(mo); e != "" {
				add("nodes: %s", e)
			}
		}
	}
	if o.BM && len(mo.Lines) > 0 {
		if e := CheckBlockmapBasic(out["BLOCKMAP"], mo); e != "" {
			add("blockmap: %s", e)
		}
	}
	if o.RejMode == 'b' {
		ns := len(mi.Sectors)
		if want := (ns*ns + 7) / 8; len(out["REJECT"]) != want {
			add("reject has %d bytes, expected %d", len(out["REJECT"]), want)
		}
	}
	return d
}

// sameLines: same linedefs in the same order with the same geometry and attributes.
func sameLines(mi, mo *Map) string {
	if len(mi.Lines) != len(mo.Lines) {
		return fmt.Sprintf("%d linedefs became %d", len(mi.Lines), len(mo.Lines))
	}
	for i := range mi.Lines {
		a, b := mi.Lines[i], mo.Lines[i]
		if b.V1 >= len(mo.Verts) || b.V2 >= len(mo.Verts) {
			return fmt.Sprintf("linedef %d references vertex out of range", i)
		}
		if a.V1 < len(mi.Verts) && a.V2 < len(mi.Verts) {
			if mi.Verts[a.V1] != mo.Verts[b.V1] || mi.Verts[a.V2] != mo.Verts[b.V2] {
				return fmt.Sprintf("linedef %d moved from %v-%v to %v-%v", i, mi.Verts[a.V1], mi.Verts[a.V2], mo.Verts[b.V1], mo.Verts[b.V2])
			}
		}
		a.V1, a.V2, b.V1, b.V2 = 0, 0, 0, 0
		if a != b {
			return fmt.Sprintf("linedef %d attributes changed %+v -> %+v", i, a, b)
		}
	}
	return ""
}
