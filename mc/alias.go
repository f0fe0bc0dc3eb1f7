package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// aliasWorld: a directory tree in which one input file has several names.
//
//	d/in.wad       the input         d/hard.wad    hard link to it
//	d/sym.wad      symbolic link     d/chain.wad   link to the link
//	s/far.wad      link from another directory (absolute)
//	ld             link to directory d
//	d/other.wad    a different file  d/toother.wad link to it
//	d/dangling.wad link to a missing file d/missing.wad
//	d/ro/          directory without write permission (not used for writing by root)
type aliasCase struct {
	InName, OutName string // "" = no -o
	OutFirst        bool   // -o before the input file
	Cwd             string
	Opts            []string
	wad             int
}

func (c *aliasCase) String() string {
	return fmt.Sprintf("cd %s; %s -o %q (first=%v) %v wad %d", c.Cwd, c.InName, c.OutName, c.OutFirst, c.Opts, c.wad)
}

func buildAliasWorld(root string, in []byte, extra map[string][]byte) {
	p := func(s string) string { return filepath.Join(root, s) }
	os.MkdirAll(p("d/sub"), 0o777)
	os.MkdirAll(p("s"), 0o777)
	os.WriteFile(p("d/in.wad"), in, 0o666)
	os.Link(p("d/in.wad"), p("d/hard.wad"))
	os.Link(p("d/in.wad"), p("s/hard2.wad"))
	os.Symlink("in.wad", p("d/sym.wad"))
	os.Symlink("sym.wad", p("d/chain.wad"))
	os.Symlink(p("d/in.wad"), p("s/far.wad"))
	os.Symlink("../d/hard.wad", p("s/symhard.wad"))
	os.Symlink("d", p("ld"))
	os.WriteFile(p("d/other.wad"), uniq("other", 0, 50000), 0o666)
	os.Symlink("other.wad", p("d/toother.wad"))
	os.Symlink("missing.wad", p("d/dangling.wad"))
	os.WriteFile(p("d/noext"), uniq("noext", 0, 10), 0o666)
	for k, v := range extra {
		os.WriteFile(p("d/"+k), v, 0o666)
	}
}

// snapshotTree: every path with its type, link target and content.
func snapshotTree(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == root {
			return nil
		}
		r, _ := filepath.Rel(root, p)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[r] = "link " + strings.ReplaceAll(t, root, "ROOT")
		case fi.IsDir():
			m[r] = "dir"
		default:
			b, _ := os.ReadFile(p)
			m[r] = "file " + hashKey(string(b)) + fmt.Sprint(" ", len(b))
		}
		return nil
	})
	return m
}

func treeDiff(a, b map[string]string, skip map[string]bool) string {
	var l []string
	for k, v := range a {
		if !skip[k] && b[k] != v {
			l = append(l, fmt.Sprintf("%s: %s -> %q", k, v, b[k]))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok && !skip[k] {
			l = append(l, fmt.Sprintf("%s: new %s", k, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func (e *Env) runAlias(c *aliasCase, in []byte, extra map[string][]byte, want []byte, refOK bool) string {
	root := e.TempDir()
	defer os.RemoveAll(root)
	buildAliasWorld(root, in, extra)
	cwd := filepath.Join(root, c.Cwd)
	abs := func(s string) string {
		s = strings.ReplaceAll(s, "ROOT", root)
		if s != "" && !filepath.IsAbs(s) {
			s = cwd + "/" + s
		}
		return s
	}
	args := append([]string{"-d"}, c.Opts...)
	inArg, outArg := strings.ReplaceAll(c.InName, "ROOT", root), strings.ReplaceAll(c.OutName, "ROOT", root)
	switch {
	case c.OutName == "":
		args = append(args, inArg)
	case c.OutFirst:
		args = append(args, "-o", outArg, inArg)
	default:
		args = append(args, inArg, "-o", outArg)
	}
	st1, err1 := os.Stat(abs(c.InName))
	var same bool
	if c.OutName != "" {
		st2, err2 := os.Stat(abs(c.OutName))
		same = err1 == nil && err2 == nil && os.SameFile(st1, st2)
	}
	before := snapshotTree(root)
	r := e.Exec(e.Bin, cwd, args, nil, hangTimeout)
	after := snapshotTree(root)
	if r.Timeout || r.Panicked() {
		return "crash or hang: " + r.Brief()
	}
	inNow, _ := os.ReadFile(abs(c.InName))
	// names of the input, all of which show the same file
	inNames := set("d/in.wad", "d/hard.wad", "s/hard2.wad")
	rpt := set("d/in.rpt", "d/sym.rpt", "d/chain.rpt", "d/hard.rpt", "s/far.rpt", "s/hard2.rpt", "s/symhard.rpt")
	skip := map[string]bool{}
	for k := range rpt {
		skip[k] = true
	}
	inPlace := c.OutName == ""
	if !refOK {
		if r.Exit == 0 {
			return "success reported where a rebuild into a fresh file fails: " + r.Brief()
		}
		if s := treeDiff(before, after, map[string]bool{"d/new.wad": true, "d/missing.wad": true, "d/other.wad": true, "s/new.wad": true, "d/noext": true}); s != "" {
			return "failed rebuild left changes: " + s
		}
		return ""
	}
	if r.Exit != 0 {
		if inPlace {
			return "in-place rebuild failed: " + r.Brief()
		}
		if !same && !strings.Contains(c.OutName, "nodir") && !strings.HasSuffix(c.OutName, "sub") {
			return "rebuild into another file failed: " + r.Brief()
		}
		if s := treeDiff(before, after, nil); s != "" {
			return "refused rebuild left changes: " + s
		}
		return ""
	}
	if inPlace || same {
		if !bytes.Equal(inNow, want) {
			return "in-place result differs from the rebuild into another file: " + diffBytes(want, inNow)
		}
		for k := range inNames {
			skip[k] = true
		}
		if s := treeDiff(before, after, skip); s != "" {
			return "in-place rebuild changed something else: " + s
		}
		// the input keeps its kind: a link stays a link
		return ""
	}
	if !bytes.Equal(inNow, in) {
		return "input changed although another file is the output: " + diffBytes(in, inNow)
	}
	out, err := os.ReadFile(abs(c.OutName))
	if err != nil || !bytes.Equal(out, want) {
		return "output differs from a rebuild into a fresh file: " + diffBytes(want, out)
	}
	// only the output file (behind any link) may have changed
	real, err := filepath.EvalSymlinks(abs(c.OutName))
	if err != nil {
		return "output vanished"
	}
	rr, _ := filepath.EvalSymlinks(root)
	rel, _ := filepath.Rel(rr, real)
	skip[rel] = true
	if s := treeDiff(before, after, skip); s != "" {
		return "rebuild changed something besides the output: " + s
	}
	return ""
}

func init() {
	checks["C15"] = func(e *Env) {
		e.R.Level = "exploration"
		e.R.Rule = "one case = one pair of names for input and output, their order, working directory, option set and input file; non-trivial when the rebuild succeeds or is refused because both are one file"
		ins := []struct{ cwd, name string }{
			{"d", "in.wad"}, {"d", "./in.wad"}, {"d", "sub/../in.wad"}, {"d", "ROOT/d/in.wad"}, {"d", "sym.wad"}, {"d", "chain.wad"}, {"d", "hard.wad"},
			{"s", "../d/in.wad"}, {"s", "far.wad"}, {"s", "hard2.wad"}, {"s", "symhard.wad"}, {"", "d/in.wad"}, {"", "ld/in.wad"}, {"", "ld/chain.wad"}, {"ld", "in.wad"},
		}
		outs := func(cwd string) []string {
			up := ""
			if cwd != "" {
				up = "../"
			}
			return []string{"", up + "d/in.wad", up + "d/sym.wad", up + "d/chain.wad", up + "d/hard.wad", up + "s/far.wad", up + "s/hard2.wad", up + "s/symhard.wad", up + "ld/in.wad", "ROOT/d/in.wad", "ROOT/ld/hard.wad", up + "d/../d/./in.wad",
				up + "d/new.wad", up + "s/new.wad", "ROOT/d/new.wad", up + "d/other.wad", up + "d/toother.wad", up + "d/dangling.wad", up + "ld/other.wad", up + "d/noext", up + "nodir/x.wad", up + "d/sub"}
		}
		two := twoRooms(8, 16, 96)
		lv := two.FullLumps("MAP01", stub(0, "SEGS"), stub(0, "SSEC"), stub(0, "NODE"), []byte{0x6a}, stub(0, "BMAP"))
		small := (&Wad{Sig: "PWAD", Lumps: append([]Lump{{"PLAINA", uniq("a", 0, 50)}}, lv...)}).Bytes()
		garbage := append(append([]byte{}, small...), uniq("tail", 0, 90000)...) // output much shorter than the input
		nolevel := (&Wad{Sig: "PWAD", Lumps: []Lump{{"PLAINA", uniq("a", 0, 50)}}}).Bytes()
		wads := [][]byte{small, garbage, nolevel, []byte("not a wad at all"), small[:20], nil, (&Wad{Sig: "PWAD", Lumps: append(two.Lumps("MAP01"), roomsRow(3, 0, 0, 96).Lumps("E1M2")...)}).Bytes()}
		// outputs around the sizes of copy buffers
		sized := 0
		for _, target := range []int{4096, 32768, 65536} {
			for d := -1; d <= 1; d++ {
				pad := 100
				var b []byte
				for k := 0; k < 3; k++ {
					b = (&Wad{Sig: "PWAD", Lumps: append([]Lump{{"PAD", uniq("p", 0, pad)}}, lv...)}).Bytes()
					_, out := e.RunOn([]string{"-d"}, b)
					pad += target + d - len(out)
					if pad < 0 {
						break
					}
					if len(out) == target+d {
						sized++
						wads = append(wads, b)
						break
					}
				}
			}
		}
		e.R.Extra["inputs_of_exact_size"] = sized
		rejs := map[string][]byte{"in.rej": []byte("NOPROCESS\n")}
		optSets := []struct {
			o     []string
			extra map[string][]byte
		}{{nil, nil}, {[]string{"-rz"}, nil}, {[]string{"-n-", "-b-", "-r-"}, nil}, {[]string{"-m:MAP01"}, nil}, {[]string{"--eject"}, nil}, {[]string{"-m:MAP33"}, nil}, {[]string{"-rm"}, rejs}, {[]string{"-nc=x"}, nil}}
		type job struct {
			c     aliasCase
			extra map[string][]byte
		}
		var jobs []job
		for _, in := range ins {
			for _, o := range outs(in.cwd) {
				for first := 0; first < 2; first++ {
					if o == "" && first == 1 {
						continue
					}
					for k := range optSets {
						for w := range wads {
							full := k == 0 || w < 2 || e.Thorough() && w < 6
							if w >= 7 {
								full = k < 2 && in.name == "in.wad" && (e.Thorough() || o == "" || o == "../d/new.wad")
							}
							if !full || (first == 1 && (k+w)%3 != 0 && !e.Thorough()) {
								continue
							}
							if !e.Thorough() && k > 3 && w > 0 {
								continue
							}
							if strings.HasSuffix(o, "dangling.wad") && in.cwd == "ld" {
								continue
							}
							jobs = append(jobs, job{aliasCase{in.name, o, first == 1, in.cwd, optSets[k].o, w}, optSets[k].extra})
						}
					}
				}
			}
		}
		type ref struct {
			ok  bool
			out []byte
		}
		refs := map[string]ref{}
		key := func(c *aliasCase, extra bool) string {
			return fmt.Sprint(c.wad, c.Opts, extra)
		}
		hasRej := func(j *job) bool { // the option file goes with the name d/in.wad
			n := filepath.Base(j.c.InName)
			return len(j.extra) > 0 && n == "in.wad"
		}
		for i := range jobs {
			j := &jobs[i]
			k := key(&j.c, hasRej(j))
			if _, ok := refs[k]; ok {
				continue
			}
			var x map[string][]byte
			if hasRej(j) {
				x = j.extra
			}
			r, out := e.RunOnBin(e.Bin, append([]string{"-d"}, j.c.Opts...), wads[j.c.wad], x, hangTimeout)
			refs[k] = ref{r.OK(), out}
		}
		var nref, nsame int
		e.Parallel(len(jobs), func(i int) {
			j := &jobs[i]
			rf := refs[key(&j.c, hasRej(j))]
			ok := rf.ok
			if len(j.c.Opts) > 0 && j.c.Opts[0] == "--eject" && j.c.OutName == "" {
				ok = false // needs another output
			}
			bad := e.runAlias(&j.c, wads[j.c.wad], j.extra, rf.out, ok)
			e.R.Case(j.c.String(), ok)
			if bad != "" {
				e.Fail(Violation{Key: hashKey(j.c.String()), Msg: j.c.String() + ": " + bad, Args: j.c.Opts, Files: map[string][]byte{"in.wad": wads[j.c.wad]},
					Recheck: func() bool { return e.runAlias(&j.c, wads[j.c.wad], j.extra, rf.out, ok) != "" }})
			}
			if i%211 == 0 {
				e.R.Sample("alias", j.c.String())
			}
		})
		_, _ = nref, nsame
		e.R.Extra["input_names"] = len(ins)
		e.R.Extra["output_names"] = len(outs(""))
		e.reportAliases()
	}
}

// reportAliases: the report file of the reject options must not land on the input or output.
func (e *Env) reportAliases() {
	two := roomsRow(3, 0, 0, 96)
	in := (&Wad{Sig: "PWAD", Lumps: two.Lumps("MAP01")}).Bytes()
	rej := []byte("LENGTH 1\nREPORT 1\n")
	type c struct {
		name string
		in   string
		out  string
		prep func(d string)
	}
	cases := []c{
		{"plain", "in.wad", "out.wad", func(d string) {}},
		{"input named like the report", "in.rpt", "out.wad", func(d string) {}},
		{"input named like the report, in place", "in.rpt", "", func(d string) {}},
		{"output named like the report", "in.wad", "in.rpt", func(d string) {}},
		{"report is a link to the input", "in.wad", "out.wad", func(d string) { os.Symlink("in.wad", d+"/in.rpt") }},
		{"report is a hard link to the input", "in.wad", "out.wad", func(d string) { os.Link(d+"/in.wad", d+"/in.rpt") }},
		{"report is a link to the input, in place", "in.wad", "", func(d string) { os.Symlink("in.wad", d+"/in.rpt") }},
	}
	for _, k := range cases {
		judge := func() string {
			d := e.TempDir()
			defer os.RemoveAll(d)
			os.WriteFile(d+"/"+k.in, in, 0o666)
			os.WriteFile(d+"/in.rej", rej, 0o666)
			k.prep(d)
			args := []string{"-d", "-rm", k.in}
			if k.out != "" {
				args = append(args, "-o", k.out)
			}
			r := e.Exec(e.Bin, d, args, nil, hangTimeout)
			if r.Timeout {
				return "hang"
			}
			b, _ := os.ReadFile(d + "/" + k.in)
			if k.out != "" && !bytes.Equal(b, in) {
				return "input overwritten: " + diffBytes(in, b)
			}
			if k.out == "" && r.Exit != 0 && !bytes.Equal(b, in) {
				return "input damaged: " + diffBytes(in, b)
			}
			dest := k.out
			if dest == "" {
				dest = k.in
			}
			if r.Exit == 0 {
				o, _ := os.ReadFile(d + "/" + dest)
				if _, err := ParseWad(o); err != nil {
					return "success reported, but the output is no WAD: " + err.Error()
				}
			}
			return ""
		}
		bad := judge()
		e.R.Case("report "+k.name, true)
		if bad != "" {
			e.Fail(Violation{Key: hashKey("report", k.name), Msg: "report file, " + k.name + ": " + bad, Files: map[string][]byte{"in.wad": in, "in.rej": rej}, Recheck: func() bool { return judge() != "" }})
		}
	}
}
