package main

// C20: damaged input files.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

func init() { checks["C20"] = runC20 }

type dmgCase struct {
	desc string
	f    []byte
}

type dmgOpt struct {
	args    []string
	inPlace bool
}

// dmgMem: address space of the program, so that a count taken from a damaged
// file cannot claim the machine.
const dmgMem = 6 << 20 // KiB

func (e *Env) dmgRun(c []byte, o *dmgOpt) string {
	d := e.TempDir()
	defer os.RemoveAll(d)
	in := filepath.Join(d, "in.wad")
	os.WriteFile(in, c, 0o666)
	a := append([]string{"-c", fmt.Sprintf("ulimit -v %d; exec \"$@\"", dmgMem), "sh", e.Bin}, o.args...)
	a = append(a, "in.wad")
	if !o.inPlace {
		a = append(a, "-o", "out.wad")
	}
	r := e.Exec("/bin/sh", d, a, nil, 60*time.Second)
	if r.Timeout {
		return "the program does not end"
	}
	if r.Exit < 0 || r.Panicked() && (strings.Contains(r.Stderr, "runtime error") || strings.Contains(r.Stderr, "fatal error:") || strings.Contains(r.Stderr, "makeslice") || strings.Contains(r.Stderr, "nil pointer")) {
		return "the program crashed: " + r.Brief()
	}
	if r.Exit != 0 && strings.TrimSpace(r.Stdout+r.Stderr) == "" {
		return "the program failed without a diagnostic"
	}
	now, err := os.ReadFile(in)
	if err != nil {
		return "the input file is gone"
	}
	same := bytes.Equal(now, c)
	if !same && (!o.inPlace || r.Exit != 0) {
		return fmt.Sprintf("the input file was changed (exit %d)", r.Exit)
	}
	es, _ := os.ReadDir(d)
	for _, x := range es {
		if x.Name() != "in.wad" && x.Name() != "out.wad" {
			return fmt.Sprintf("file %s left behind (exit %d)", x.Name(), r.Exit)
		}
	}
	if r.Exit != 0 {
		return ""
	}
	out := now
	if !o.inPlace {
		if out, err = os.ReadFile(filepath.Join(d, "out.wad")); err != nil {
			return "success reported without an output file"
		}
	}
	p, err := ParseWad(out)
	if err != nil {
		return "success reported, but the output is not a well-formed WAD: " + err.Error()
	}
	// lumps of no level are intact
	keep := map[string][]byte{}
	if q, err := ParseWad(c); err == nil && !strings.Contains(strings.Join(o.args, " "), "--eject") {
		for _, l := range q.Lumps {
			if strings.HasPrefix(l.Name, "PLAIN") {
				keep[l.Name] = l.Data
			}
		}
		for _, l := range p.Lumps {
			if b, ok := keep[l.Name]; ok && bytes.Equal(b, l.Data) {
				delete(keep, l.Name)
			}
		}
		for n := range keep {
			return fmt.Sprintf("success reported, but lump %s was lost or changed", n)
		}
	}
	return ""
}

func dmgBases() map[string][]byte {
	small := func(hexen bool) *Map {
		m := &Map{}
		addSectors(m, 2)
		m = twoRooms(0, 0, 64)
		m.Hexen = hexen
		return m
	}
	r := map[string][]byte{}
	l := append([]Lump{{"PLAINA", uniq("plain", 1, 9)}}, small(false).Lumps("MAP01")...)
	r["doom"] = (&Wad{Lumps: append(l, Lump{"PLAINB", uniq("plain", 2, 7)})}).Bytes()
	m := small(false)
	l = m.FullLumps("E1M1", stub(1, "SEGS"), stub(1, "SSEC"), stub(1, "NODE"), stub(1, "REJ"), stub(1, "BM"))
	r["full"] = (&Wad{Sig: "IWAD", Lumps: append(l, Lump{"PLAINB", uniq("plain", 2, 7)})}).Bytes()
	l = append([]Lump{{"PLAINA", uniq("plain", 1, 9)}}, small(true).Lumps("MAP01")...)
	r["hexen"] = (&Wad{Lumps: l}).Bytes()
	l = append([]Lump{{"PLAINA", uniq("plain", 1, 9)}}, tokenLumps('U', 1, "MAP02")...)
	r["text"] = (&Wad{Lumps: append(l, small(false).Lumps("MAP01")...)}).Bytes()
	return r
}

func put32(f []byte, at int, v uint32) []byte {
	g := append([]byte{}, f...)
	le.PutUint32(g[at:], v)
	return g
}

func put16(f []byte, at int, v int) []byte {
	g := append([]byte{}, f...)
	le.PutUint16(g[at:], uint16(v))
	return g
}

// dmgFile: truncations, header and directory fields.
func dmgFile(name string, f []byte, emit func(string, []byte)) {
	p, _ := ParseWad(f)
	n, dir := uint32(len(p.Dir)), p.DirPos
	sz := uint32(len(f))
	for k := 0; k < len(f); k++ {
		emit(fmt.Sprintf("%s cut to %d bytes", name, k), f[:k])
	}
	for _, s := range []string{"PWAC", "pwad", "\x00\x00\x00\x00", "ZWAD", "IWAD", "PWAD", "WAD2"} {
		g := append([]byte{}, f...)
		copy(g, s)
		emit(fmt.Sprintf("%s signature %q", name, s), g)
	}
	big := []uint32{0x7FFF, 0x8000, 0xFFFF, 0x10000, 1 << 24, 1 << 27, 1<<28 - 1, 1 << 28, 1<<28 + 1, 1<<28 + n, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFF0, 0xFFFFFFFF}
	cnt := append([]uint32{0, 1, 2, n - 1, n, n + 1, n + 2, 255}, big...)
	pos := append([]uint32{0, 1, 4, 11, 12, dir - 16, dir - 1, dir, dir + 1, dir + 16, sz - 17, sz - 16, sz - 15, sz - 1, sz, sz + 1}, big...)
	for _, c := range cnt {
		for _, d := range pos {
			emit(fmt.Sprintf("%s header count %d directory %d", name, c, d), put32(put32(f, 4, c), 8, d))
		}
	}
	names := []string{"", "MAP01", "E1M1", "MAP02", "THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS", "TEXTMAP", "ZNODES", "ENDMAP", "GL_MAP01", "PLAINX", "\xff\xff\xff\xff\xff\xff\xff\xff", "map01", "LINEDEFSX"}
	for i := range p.Dir {
		at := int(dir) + 16*i
		o := p.Dir[i]
		ps := append([]uint32{0, 1, 11, 12, o.Pos - 1, o.Pos, o.Pos + 1, o.Pos + o.Size, dir, sz - o.Size, sz - o.Size + 1, sz - 1, sz, sz + 1}, big...)
		ss := append([]uint32{0, 1, 2, 3, 4, o.Size - 1, o.Size, o.Size + 1, o.Size * 2, sz - o.Pos, sz - o.Pos + 1, sz}, big...)
		for _, v := range ps {
			emit(fmt.Sprintf("%s %s position %d", name, o.Name, v), put32(f, at, v))
		}
		for _, v := range ss {
			emit(fmt.Sprintf("%s %s size %d", name, o.Name, v), put32(f, at+4, v))
		}
		for _, v := range big {
			for _, w := range []uint32{1, 1 << 28, 0x80000000, 0xFFFFFFFF} {
				emit(fmt.Sprintf("%s %s position %d size %d", name, o.Name, v, w), put32(put32(f, at, v), at+4, w))
			}
		}
		for v := uint32(0); v <= o.Size; v++ {
			emit(fmt.Sprintf("%s %s size %d", name, o.Name, v), put32(f, at+4, v))
		}
		for _, s := range names {
			g := append([]byte{}, f...)
			copy(g[at+8:at+16], make([]byte, 8))
			copy(g[at+8:at+16], s)
			emit(fmt.Sprintf("%s %s renamed %q", name, o.Name, s), g)
		}
		// entries exchanged
		for k := 0; k < i; k++ {
			b := int(dir) + 16*k
			g := append([]byte{}, f...)
			copy(g[at:at+16], f[b:b+16])
			copy(g[b:b+16], f[at:at+16])
			emit(fmt.Sprintf("%s %s and %s exchanged", name, o.Name, p.Dir[k].Name), g)
		}
	}
}

// dmgLevel: every 16-bit word of the level's lumps.
func dmgLevel(name string, f []byte, emit func(string, []byte)) {
	p, _ := ParseWad(f)
	for _, d := range p.Dir {
		n := 0
		switch d.Name {
		case "THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS", "BEHAVIOR":
			n = int(d.Size)
		}
		for k := 0; k+1 < n; k++ {
			if k%2 == 1 && d.Name != "LINEDEFS" {
				continue
			}
			for _, v := range []int{0, 1, 2, 5, 6, 7, 8, 9, 255, 256, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF} {
				emit(fmt.Sprintf("%s %s byte %d = %#x", name, d.Name, k, v), put16(f, int(d.Pos)+k, v))
			}
		}
	}
}

// dmgPairs: every two references of the level.
func dmgPairs(name string, f []byte, emit func(string, []byte)) {
	p, _ := ParseWad(f)
	var at []int
	for _, d := range p.Dir {
		if d.Name == "LINEDEFS" {
			for k := 0; k < int(d.Size); k += 2 {
				at = append(at, int(d.Pos)+k)
			}
		}
		if d.Name == "SIDEDEFS" {
			for k := 28; k < int(d.Size); k += 30 {
				at = append(at, int(d.Pos)+k)
			}
		}
	}
	for i := range at {
		for k := 0; k < i; k++ {
			for _, v := range []int{0, 1, 5, 0xFFFF} {
				for _, w := range []int{0, 1, 5, 0xFFFF} {
					emit(fmt.Sprintf("%s words at %d, %d = %d, %d", name, at[k], at[i], v, w), put16(put16(f, at[k], v), at[i], w))
				}
			}
		}
	}
}

func runC20(e *Env) {
	e.R.Rule = "a case is one damaged file under one option set"
	opts := []*dmgOpt{{[]string{"-d", "-bo=0,0"}, false}, {[]string{"-d", "-bo=0,0"}, true}}
	lv := []*dmgOpt{{[]string{"-d", "-bo=0,0"}, false}, {[]string{"-d", "-bo=0,0", "-nc=x", "-na=2"}, false}, {[]string{"-d", "-n-"}, true},
		{[]string{"-d", "-b-", "-rs=2", "--nosymm"}, false}, {[]string{"-d", "-ni=1", "-na=3", "-nc=d", "-r-"}, false}, {[]string{"-d", "-n-", "-r-", "-bs"}, false}, {[]string{"-n-", "-b-", "-rz"}, true}}
	fo := append(append([]*dmgOpt{}, opts...), &dmgOpt{[]string{"-n-", "-b-", "-r-"}, true}, &dmgOpt{[]string{"-rz", "-d", "-bo=0,0"}, false}, &dmgOpt{[]string{"--eject", "-d", "-bo=0,0"}, false})
	type job struct {
		c   dmgCase
		o   []*dmgOpt
		rot bool
	}
	var jobs []job
	fams := map[string]int{}
	seen := map[string]bool{}
	for name, f := range dmgBases() {
		add := func(fam string, o []*dmgOpt) func(string, []byte) {
			return func(d string, g []byte) {
				if k := fam + string(g); !seen[k] {
					seen[k] = true
					jobs = append(jobs, job{dmgCase{d, g}, o, fam == "file"})
					fams[fam]++
				}
			}
		}
		dmgFile(name, f, add("file", fo))
		dmgLevel(name, f, add("level", lv))
		if e.Thorough() && name == "doom" {
			dmgPairs(name, f, add("pairs", lv))
		}
	}
	e.R.Extra["damaged_files"] = fams
	e.R.Extra["option_sets"] = map[string]int{"file": len(fo), "level": len(lv)}
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		for k, o := range j.o {
			if !e.Thorough() && j.rot && k > 1 && (i+k)%3 != 0 {
				continue
			}
			if e.Stop() {
				return
			}
			msg := e.dmgRun(j.c.f, o)
			e.R.Case(hashKey(j.c.desc, strings.Join(o.args, " "), fmt.Sprint(o.inPlace)), true)
			if msg != "" && os.Getenv("VMC_DUMP") != "" {
				dumpClass(msg, j.c.desc+" "+strings.Join(o.args, " "))
				continue
			}
			if msg != "" {
				e.Fail(Violation{Key: hashKey(j.c.desc, strings.Join(o.args, " "), fmt.Sprint(o.inPlace)), Msg: msg + " [" + j.c.desc + "]", Args: o.args,
					Files:   map[string][]byte{"in.wad": j.c.f},
					Recheck: func() bool { return e.dmgRun(j.c.f, o) != "" }})
			}
		}
		e.R.Sample(strings.Fields(j.c.desc)[0], map[string]any{"file": j.c.desc})
	})
}

var dumpMu sync.Mutex
var dumpN = map[string]int{}

// dumpClass lists every kind of failure (development only).
func dumpClass(msg, desc string) {
	k := msg
	if i := strings.Index(msg, "panic: "); i >= 0 {
		k = strings.SplitN(msg[i:], "\\n", 2)[0]
		if j := strings.Index(msg, "main."); j >= 0 {
			k += " @ " + tail(msg[j:min(len(msg), j+160)], 160)
		}
	}
	if len(k) > 300 {
		k = k[:300]
	}
	k = regexp.MustCompile("0x[0-9a-f]+|[0-9]+").ReplaceAllString(k, "#")
	dumpMu.Lock()
	defer dumpMu.Unlock()
	dumpN[k]++
	if dumpN[k] == 1 {
		fmt.Println("CLASS", k, "||", desc)
	}
}
