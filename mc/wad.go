package main

// WAD container reading/writing and the map model. Everything here is written
// from the published WAD format, independently of the program under check.

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

var le = binary.LittleEndian

// Lump is one directory entry together with its data.
type Lump struct {
	Name string
	Data []byte
}

type DirEnt struct {
	Pos, Size uint32
	Name      string
	RawName   [8]byte
}

type Wad struct {
	Sig   string
	Lumps []Lump
}

func name8(s string) [8]byte {
	var b [8]byte
	copy(b[:], s)
	return b
}

// Bytes serializes: header, lump data in order, directory last.
func (w *Wad) Bytes() []byte {
	sig := w.Sig
	if sig == "" {
		sig = "PWAD"
	}
	n := 12
	for _, l := range w.Lumps {
		n += len(l.Data)
	}
	dirpos := n
	out := make([]byte, 0, n+16*len(w.Lumps))
	out = append(out, sig...)
	out = le.AppendUint32(out, uint32(len(w.Lumps)))
	out = le.AppendUint32(out, uint32(dirpos))
	pos := make([]int, len(w.Lumps))
	for i, l := range w.Lumps {
		pos[i] = len(out)
		out = append(out, l.Data...)
	}
	for i, l := range w.Lumps {
		out = le.AppendUint32(out, uint32(pos[i]))
		out = le.AppendUint32(out, uint32(len(l.Data)))
		nm := name8(l.Name)
		out = append(out, nm[:]...)
	}
	return out
}

// BytesDirFirst serializes with the directory placed right after the header.
func (w *Wad) BytesDirFirst() []byte {
	sig := w.Sig
	if sig == "" {
		sig = "PWAD"
	}
	out := append([]byte{}, sig...)
	out = le.AppendUint32(out, uint32(len(w.Lumps)))
	out = le.AppendUint32(out, 12)
	p := 12 + 16*len(w.Lumps)
	for _, l := range w.Lumps {
		out = le.AppendUint32(out, uint32(p))
		out = le.AppendUint32(out, uint32(len(l.Data)))
		nm := name8(l.Name)
		out = append(out, nm[:]...)
		p += len(l.Data)
	}
	for _, l := range w.Lumps {
		out = append(out, l.Data...)
	}
	return out
}

type ParsedWad struct {
	Sig    string
	Dir    []DirEnt
	DirPos uint32
	Raw    []byte
	Lumps  []Lump
}

// ParseWad validates the container: every entry must lie inside the file.
func ParseWad(b []byte) (*ParsedWad, error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("file is %d bytes, shorter than a WAD header", len(b))
	}
	p := &ParsedWad{Sig: string(b[:4]), Raw: b}
	if p.Sig != "PWAD" && p.Sig != "IWAD" {
		return nil, fmt.Errorf("bad signature %q", p.Sig)
	}
	n := le.Uint32(b[4:])
	p.DirPos = le.Uint32(b[8:])
	if uint64(p.DirPos)+16*uint64(n) > uint64(len(b)) {
		return nil, fmt.Errorf("directory (%d entries at %d) exceeds file size %d", n, p.DirPos, len(b))
	}
	for i := uint32(0); i < n; i++ {
		e := b[p.DirPos+16*i:]
		d := DirEnt{Pos: le.Uint32(e), Size: le.Uint32(e[4:])}
		copy(d.RawName[:], e[8:16])
		nm := e[8:16]
		if z := bytes.IndexByte(nm, 0); z >= 0 {
			nm = nm[:z]
		}
		d.Name = string(nm)
		if d.Size > 0 && uint64(d.Pos)+uint64(d.Size) > uint64(len(b)) {
			return nil, fmt.Errorf("entry %d (%s) at %d size %d exceeds file size %d", i, d.Name, d.Pos, d.Size, len(b))
		}
		var data []byte
		if d.Size > 0 {
			data = b[d.Pos : d.Pos+d.Size]
		}
		p.Dir = append(p.Dir, d)
		p.Lumps = append(p.Lumps, Lump{d.Name, data})
	}
	return p, nil
}

// ---- map model ----

const NoSide = 0xFFFF

type Vertex struct{ X, Y int }

type Line struct {
	V1, V2      int
	Flags       int
	Action, Tag int
	Right, Left int // sidedef index or NoSide
	Args        [5]byte
}

type Side struct {
	XOff, YOff   int
	Up, Low, Mid string
	Sector       int
}

type Sector struct {
	Floor, Ceil    int
	FTex, CTex     string
	Light, Special int
	Tag            int
}

type Thing struct {
	X, Y, Angle, Type, Flags int
	TID, Z, Special          int
	Args                     [5]byte
}

type Map struct {
	Hexen   bool
	Things  []Thing
	Lines   []Line
	Sides   []Side
	Verts   []Vertex
	Sectors []Sector
	Desc    string                 // how to regenerate / what it is
	Truth   func(x, y float64) int // sector at a point away from lines (-1 void); nil unknown
	BMSkip  func(line int) bool    // removed from the blockmap by the documented rules
	BMMay   func(line int) bool    // may be removed
	SeenAt  func(x, y float64) int // sector at a point, for sight lines over self-referencing lines
}

func (m *Map) Clone() *Map {
	c := *m
	c.Things = append([]Thing{}, m.Things...)
	c.Lines = append([]Line{}, m.Lines...)
	c.Sides = append([]Side{}, m.Sides...)
	c.Verts = append([]Vertex{}, m.Verts...)
	c.Sectors = append([]Sector{}, m.Sectors...)
	return &c
}

func a16(b []byte, v int) []byte { return le.AppendUint16(b, uint16(v)) }

func pad8(b []byte, s string) []byte {
	n := name8(s)
	return append(b, n[:]...)
}

func (m *Map) ThingsLump() []byte {
	var b []byte
	for _, t := range m.Things {
		if m.Hexen {
			b = a16(b, t.TID)
			b = a16(b, t.X)
			b = a16(b, t.Y)
			b = a16(b, t.Z)
			b = a16(b, t.Angle)
			b = a16(b, t.Type)
			b = a16(b, t.Flags)
			b = append(b, byte(t.Special))
			b = append(b, t.Args[:]...)
		} else {
			b = a16(b, t.X)
			b = a16(b, t.Y)
			b = a16(b, t.Angle)
			b = a16(b, t.Type)
			b = a16(b, t.Flags)
		}
	}
	return b
}

func (m *Map) LinesLump() []byte {
	var b []byte
	for _, l := range m.Lines {
		b = a16(b, l.V1)
		b = a16(b, l.V2)
		b = a16(b, l.Flags)
		if m.Hexen {
			b = append(b, byte(l.Action))
			b = append(b, l.Args[:]...)
		} else {
			b = a16(b, l.Action)
			b = a16(b, l.Tag)
		}
		b = a16(b, l.Right)
		b = a16(b, l.Left)
	}
	return b
}

func (m *Map) SidesLump() []byte {
	var b []byte
	for _, s := range m.Sides {
		b = a16(b, s.XOff)
		b = a16(b, s.YOff)
		b = pad8(b, s.Up)
		b = pad8(b, s.Low)
		b = pad8(b, s.Mid)
		b = a16(b, s.Sector)
	}
	return b
}

func (m *Map) VertsLump() []byte {
	var b []byte
	for _, v := range m.Verts {
		b = a16(b, v.X)
		b = a16(b, v.Y)
	}
	return b
}

func (m *Map) SectorsLump() []byte {
	var b []byte
	for _, s := range m.Sectors {
		b = a16(b, s.Floor)
		b = a16(b, s.Ceil)
		b = pad8(b, s.FTex)
		b = pad8(b, s.CTex)
		b = a16(b, s.Light)
		b = a16(b, s.Special)
		b = a16(b, s.Tag)
	}
	return b
}

// Lumps returns the marker plus the five mandatory lumps (plus BEHAVIOR for Hexen format).
func (m *Map) Lumps(marker string) []Lump {
	r := []Lump{
		{marker, nil},
		{"THINGS", m.ThingsLump()},
		{"LINEDEFS", m.LinesLump()},
		{"SIDEDEFS", m.SidesLump()},
		{"VERTEXES", m.VertsLump()},
		{"SECTORS", m.SectorsLump()},
	}
	if m.Hexen {
		r = append(r, Lump{"BEHAVIOR", []byte("ACS\x00\x08\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00")})
	}
	return r
}

// FullLumps inserts stub versions of the five built lumps in canonical order.
func (m *Map) FullLumps(marker string, segs, ssec, nodes, rej, bm []byte) []Lump {
	b := m.Lumps(marker)
	r := append([]Lump{}, b[:5]...)
	r = append(r, Lump{"SEGS", segs}, Lump{"SSECTORS", ssec}, Lump{"NODES", nodes}, b[5], Lump{"REJECT", rej}, Lump{"BLOCKMAP", bm})
	return append(r, b[6:]...)
}

func s16(b []byte) int { return int(int16(le.Uint16(b))) }
func u16(b []byte) int { return int(le.Uint16(b)) }

func str8(b []byte) string {
	b = b[:8]
	if z := bytes.IndexByte(b, 0); z >= 0 {
		b = b[:z]
	}
	return string(b)
}

// OutMap is a level as found in an output WAD: the canonical lumps by name.
type OutMap struct {
	Marker string
	L      map[string][]byte
	Order  []string
	Pos    map[string]uint32
}

func isLevelName(s string) bool {
	d := func(i int) bool { return s[i] >= '0' && s[i] <= '9' }
	if len(s) == 5 && s[:3] == "MAP" && d(3) && d(4) {
		return true
	}
	if (len(s) == 4 || len(s) == 5) && s[0] == 'E' && s[1] >= '1' && s[1] <= '9' && s[2] == 'M' && d(3) {
		return len(s) == 4 || d(4)
	}
	return false
}

var levelLumpSet = map[string]bool{"THINGS": true, "LINEDEFS": true, "SIDEDEFS": true, "VERTEXES": true, "SEGS": true,
	"SSECTORS": true, "NODES": true, "SECTORS": true, "REJECT": true, "BLOCKMAP": true, "BEHAVIOR": true, "SCRIPTS": true}

// SplitLevels extracts levels from an output WAD in order.
func SplitLevels(p *ParsedWad) []*OutMap {
	var res []*OutMap
	var cur *OutMap
	for i, l := range p.Lumps {
		if isLevelName(l.Name) {
			cur = &OutMap{Marker: l.Name, L: map[string][]byte{}, Pos: map[string]uint32{}}
			res = append(res, cur)
			continue
		}
		if cur != nil && levelLumpSet[l.Name] {
			if _, dup := cur.L[l.Name]; !dup {
				cur.L[l.Name] = l.Data
				cur.Pos[l.Name] = p.Dir[i].Pos
			}
			cur.Order = append(cur.Order, l.Name)
			continue
		}
		cur = nil
	}
	return res
}

// DecodeMap decodes the mandatory lumps back into a Map.
func DecodeMap(L map[string][]byte, hexen bool) (*Map, error) {
	m := &Map{Hexen: hexen}
	lsz, tsz := 14, 10
	if hexen {
		lsz, tsz = 16, 20
	}
	b := L["VERTEXES"]
	for ; len(b) >= 4; b = b[4:] {
		m.Verts = append(m.Verts, Vertex{s16(b), s16(b[2:])})
	}
	for b = L["LINEDEFS"]; len(b) >= lsz; b = b[lsz:] {
		l := Line{V1: u16(b), V2: u16(b[2:]), Flags: u16(b[4:])}
		if hexen {
			l.Action = int(b[6])
			copy(l.Args[:], b[7:12])
			l.Right, l.Left = u16(b[12:]), u16(b[14:])
		} else {
			l.Action, l.Tag = u16(b[6:]), u16(b[8:])
			l.Right, l.Left = u16(b[10:]), u16(b[12:])
		}
		m.Lines = append(m.Lines, l)
	}
	for b = L["SIDEDEFS"]; len(b) >= 30; b = b[30:] {
		m.Sides = append(m.Sides, Side{s16(b), s16(b[2:]), str8(b[4:]), str8(b[12:]), str8(b[20:]), u16(b[28:])})
	}
	for b = L["SECTORS"]; len(b) >= 26; b = b[26:] {
		m.Sectors = append(m.Sectors, Sector{s16(b), s16(b[2:]), str8(b[4:]), str8(b[12:]), s16(b[20:]), u16(b[22:]), u16(b[24:])})
	}
	for b = L["THINGS"]; len(b) >= tsz; b = b[tsz:] {
		if hexen {
			t := Thing{TID: u16(b), X: s16(b[2:]), Y: s16(b[4:]), Z: s16(b[6:]), Angle: u16(b[8:]), Type: u16(b[10:]), Flags: u16(b[12:]), Special: int(b[14])}
			copy(t.Args[:], b[15:20])
			m.Things = append(m.Things, t)
		} else {
			m.Things = append(m.Things, Thing{X: s16(b), Y: s16(b[2:]), Angle: u16(b[4:]), Type: u16(b[6:]), Flags: u16(b[8:])})
		}
	}
	return m, nil
}

// levelNames yields up to 1080 distinct level marker names.
func levelNames() []string {
	var r []string
	for i := 0; i < 100; i++ {
		r = append(r, fmt.Sprintf("MAP%02d", i))
	}
	for e := 1; e <= 9; e++ {
		for m := 0; m < 10; m++ {
			r = append(r, fmt.Sprintf("E%dM%d", e, m))
		}
		for m := 0; m < 100; m++ {
			r = append(r, fmt.Sprintf("E%dM%02d", e, m))
		}
	}
	return r
}
