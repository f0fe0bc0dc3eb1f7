package main

// C09, notation of option files: every way the manual allows an option to be
// written has the same meaning, everything else is refused as a whole with the
// number of the line that is wrong.

import (
	"bytes"
	"fmt"
	"strings"
)

var rmbWords = []string{"ASSERT", "BAND", "BLIND", "BLOCK", "DISTANCE", "DOOR", "EXCLUDE", "GROUP", "INCLUDE", "INVERT", "LEFT", "LENGTH", "LINE",
	"NODOOR", "NOMAP", "NOPROCESS", "ONE", "PERFECT", "PREPROCESS", "PROCESS", "REPORT", "RIGHT", "SAFE", "TRACE", "VORTEX"}

// shortForms: prefixes that no other option shares, and those some other does.
func shortForms(w string) (unique, shared []string) {
	for k := 1; k <= len(w); k++ {
		n := 0
		for _, x := range rmbWords {
			if strings.HasPrefix(x, w[:k]) {
				n++
			}
		}
		if n == 1 {
			unique = append(unique, w[:k])
		} else {
			shared = append(shared, w[:k])
		}
	}
	return
}

func letterCases(w string) []string {
	mixed := ""
	for i, c := range strings.ToLower(w) {
		if i%2 == 1 {
			mixed += strings.ToUpper(string(c))
		} else {
			mixed += string(c)
		}
	}
	return []string{w, strings.ToLower(w), mixed}
}

// listForms: ways to write a list; tail: it is the last argument.
func listForms(a []int, tail bool) []string {
	var s []string
	for _, x := range a {
		s = append(s, fmt.Sprint(x))
	}
	sp := strings.Join(s, " ")
	r := []string{"(" + sp + ")", "( " + sp + " )", "(" + sp + " )", "( " + sp + ")", "(" + strings.Join(s, ",") + ")", "(" + strings.Join(s, ", ") + ")",
		"( " + strings.Join(s, ",") + " )", "(" + strings.Join(s, "\t") + ")", "(" + strings.Join(s, "   ") + ")"}
	if len(a) == 1 || tail {
		r = append(r, sp)
	}
	if tail {
		r = append(r, strings.Join(s, "  "), strings.Join(s, "\t"), strings.Join(s, ","), strings.Join(s, ", "))
	}
	return r
}

// notations lists ways to write c.
func notations(c *rcmd, wide bool) []string {
	var heads []string
	words := func(w string) []string {
		var r []string
		u, _ := shortForms(w)
		for _, x := range u {
			r = append(r, letterCases(x)...)
		}
		return r
	}
	switch {
	case c.Band:
		for _, h := range words("BAND") {
			for _, k := range letterCases(c.Kind) {
				heads = append(heads, h+" "+k)
			}
		}
	default:
		heads = words(c.Kind)
	}
	if c.Inv {
		var h2 []string
		for i, p := range words("INVERT") {
			for j, h := range heads {
				if wide || i == 0 || j == 0 || i == j {
					h2 = append(h2, p+" "+h)
				}
			}
		}
		heads = h2
	}
	var args [][]string // alternatives of each argument
	num := func(n int) { args = append(args, []string{fmt.Sprint(n)}) }
	switch c.Kind {
	case "BLIND", "SAFE":
		num(c.D[0])
		if c.Band {
			num(c.D[1])
		}
		args = append(args, listForms(c.A, true))
	case "INCLUDE", "EXCLUDE", "VORTEX":
		args = append(args, listForms(c.A, false), listForms(c.B, true))
	case "GROUP":
		num(c.D[0])
		args = append(args, listForms(c.A, true))
	case "PERFECT":
	default:
		num(c.D[0])
	}
	canon := c.String()
	ci := strings.Fields(canon)[0]
	if c.Inv {
		ci += " " + strings.Fields(canon)[1]
	}
	var r []string
	combos := []string{""}
	for _, a := range args {
		var n []string
		for _, p := range combos {
			for _, x := range a {
				n = append(n, p+" "+x)
			}
		}
		combos = n
	}
	for _, h := range heads {
		for i, a := range combos {
			if wide || i == 0 || h == heads[0] || (i+len(h))%5 == 0 {
				r = append(r, h+a)
			}
		}
	}
	// white space
	last := r[len(r)-1]
	r = append(r, "  "+canon, "\t"+canon, canon+"  ", canon+"\t", strings.ReplaceAll(canon, " ", "  "), strings.ReplaceAll(canon, " ", "\t"), strings.ReplaceAll(canon, " ", " \t "), "  "+strings.ReplaceAll(last, " ", "\t")+" ")
	return r
}

// markers of a level section.
func rmbMarkers(name string) []string {
	var r []string
	for _, n := range letterCases(name) {
		for _, m := range letterCases("MAP") {
			r = append(r, m+" "+n, " "+m+"\t"+n+" ")
		}
		r = append(r, n, "  "+n, n+"\t")
	}
	return r
}

func runRmbSyntax(e *Env, r *rmbMap) {
	n := r.N
	var cmds []*rcmd
	for _, a := range [][]int{{1}, {0, n - 1}, {3, 1, 4}} {
		for _, k := range []string{"BLIND", "SAFE"} {
			for _, inv := range []bool{false, true} {
				cmds = append(cmds, &rcmd{Kind: k, Inv: inv, D: [2]int{2}, A: a}, &rcmd{Kind: k, Inv: inv, Band: true, D: [2]int{1, 3}, A: a})
			}
		}
		for _, k := range []string{"INCLUDE", "EXCLUDE", "VORTEX"} {
			cmds = append(cmds, &rcmd{Kind: k, A: []int{2}, B: a}, &rcmd{Kind: k, A: a, B: []int{2}})
		}
		cmds = append(cmds, &rcmd{Kind: "GROUP", D: [2]int{2}, A: a})
	}
	cmds = append(cmds, &rcmd{Kind: "LENGTH", D: [2]int{1}}, &rcmd{Kind: "DISTANCE", D: [2]int{100}}, &rcmd{Kind: "LINE", D: [2]int{r.Two[1]}}, &rcmd{Kind: "REPORT", D: [2]int{1}})
	var jobs []*rmbJob
	cur := &rmbJob{r: r}
	names := levelNames()
	put := func(c []*rcmd, text func(name string) string) {
		if len(cur.locs) == 480 {
			jobs = append(jobs, cur)
			cur = &rmbJob{r: r}
		}
		cur.sec = append(cur.sec, text(names[len(cur.locs)]))
		cur.locs = append(cur.locs, c)
	}
	for _, c := range cmds {
		// VORTEX and GROUP show only together with others
		with := []*rcmd{c}
		pre := ""
		if c.Kind == "GROUP" {
			with = []*rcmd{{Kind: "BLIND", D: [2]int{1}, A: []int{2}}, c}
			pre = with[0].String() + "\n"
		}
		for _, t := range notations(c, e.Thorough()) {
			t := t
			put(with, func(name string) string { return name + "\n" + pre + t + "\n" })
		}
		put(with, func(name string) string {
			return name + "\n\n# comment\n" + pre + "   # BLIND 0 1\n\t\n" + c.String() + "\n#\n#BLIND 0 2\n"
		})
	}
	// sections: every way to mark them, several for one level
	c1, c2 := &rcmd{Kind: "BLIND", D: [2]int{2}, A: []int{1}}, &rcmd{Kind: "BLIND", D: [2]int{1}, A: []int{1}}
	for i := 0; i < 300; i++ {
		i := i
		put([]*rcmd{c1, c2}, func(name string) string {
			m := rmbMarkers(name)
			a, b := m[i%len(m)], m[(i*7+i/len(m))%len(m)]
			return a + "\n" + c1.String() + "\nMAP NOTHERE\nBLIND 0 2\nE9M99\nBLIND 0 3\n" + b + "\n" + c2.String() + "\n"
		})
	}
	jobs = append(jobs, cur)
	var all []*rmbJob
	for _, j := range jobs {
		all = append(all, j)
		k := *j
		k.eol = "\r\n"
		all = append(all, &k)
	}
	e.Parallel(len(all), func(i int) {
		if !e.Stop() {
			e.runRmbJob(all[i])
		}
	})
	for _, j := range jobs {
		e.R.Count("notations", int64(len(j.locs)))
	}

	// wrong files
	type bad struct {
		lines []string
		wrong int // line with the mistake, from 1
	}
	var bads []bad
	seen := map[string]bool{}
	mistake := func(s string) {
		if seen[s] {
			return
		}
		seen[s] = true
		bads = append(bads, bad{[]string{s}, 1}, bad{[]string{"MAP00", "# c", "BLIND 1 1", s, "SAFE 1 0"}, 4}, bad{[]string{"MAP77", "", s}, 3})
	}
	forms := map[string]string{"ASSERT": "LLN", "BAND": "", "BLIND": "NL", "BLOCK": "NN", "DISTANCE": "N", "DOOR": "N", "EXCLUDE": "LL", "GROUP": "NL", "INCLUDE": "LL",
		"LEFT": "N", "LENGTH": "N", "LINE": "N", "NODOOR": "L", "NOMAP": "", "ONE": "NN", "PERFECT": "", "PREPROCESS": "N", "PROCESS": "L",
		"REPORT": "N", "RIGHT": "N", "SAFE": "NL", "TRACE": "L", "VORTEX": "LL", "BAND BLIND": "NNL", "INVERT BLIND": "NL", "INVERT SAFE": "NL", "INVERT BAND SAFE": "NNL"}
	for _, w := range rmbWords {
		_, sh := shortForms(w)
		for _, s := range sh {
			if s == "MAP" {
				continue
			}
			mistake(s + " 1 2")
			mistake(strings.ToLower(s) + " 1")
			mistake("INVERT " + s + " 1 2")
		}
		mistake(w + "S 1 2")
		mistake(w + "1 2")
		if w != "BAND" && w != "BLIND" && w != "SAFE" {
			mistake("INVERT " + w + " 1 1 1")
			mistake("INVERT " + w)
			mistake("BAND " + w + " 1 2 3")
		}
	}
	for _, s := range []string{"INVERT", "invert", "INVERT # BLIND 1 1", "INVERT  ", "INVERT INVERT BLIND 1 1", "BAND", "BAND 1 2 3", "BAND 1 2 BLIND 3", "BLIND BAND 1 2 3", "INVERT BAND",
		"FOO", "FOO 1", "1", "1 2", "(", ")", "-", "\"BLIND\" 1 1", "BLIND, 1 1", "BLIND:1 1", "XMAP01", "MAP", "MAP # MAP01", "MAP MAP01 MAP02", "MAP1", "MAP123", "MAP0", "MAPXX", "MAP 01 02", "MAP01 BLIND 1 1", "MAP01x", "E1M", "E1", "E0M1", "EM", "E1M1 2",
		"E1M123", "E10M1", "M01", "NOPROCESS a.wad MAP01 x"} {
		mistake(s)
	}
	for w, f := range forms {
		good := map[byte]string{'N': "1", 'L': "(1 2)"}
		wrong := map[byte][]string{'N': {"x", "1x", "1.5", "(1)", "1,", "0x1", "--1", "''", "1-"},
			'L': {"x", "(x)", "(1", "(1 2", "1)", "(1) 2 3 4 5 6 7 x", "((1)", "(1))", "(1)(2)", "(1;2)", "(1 x)", "(1.5)", "(1,x)", "(1,,2)", "1..2", "(1 (2))"}}
		if w == "BAND" {
			continue
		}
		for k := 0; k <= len(f); k++ {
			s := w
			for i := 0; i < k; i++ {
				s += " " + good[f[i]]
			}
			if k < len(f) {
				mistake(s) // arguments missing
				for _, x := range wrong[f[k]] {
					t := s + " " + x
					for i := k + 1; i < len(f); i++ {
						t += " " + good[f[i]]
					}
					mistake(t)
				}
				continue
			}
			for _, x := range []string{"1", "(1)", "x"} { // too many
				mistake(s + " " + x)
			}
		}
	}
	wad := &Wad{}
	wad.Lumps = append(wad.Lumps, r.M.Lumps("MAP00")...)
	wb := wad.Bytes()
	opts := append([]string{}, rmbOpts...)
	check := func(b bad, eol string) string {
		text := strings.Join(b.lines, eol) + eol
		res, out, files := e.RunFiles(opts, wb, map[string][]byte{"in.rej": []byte(text)}, hangTimeout)
		msg := res.Stderr + res.Stdout
		switch {
		case res.Timeout:
			return "the program does not end"
		case strings.Contains(msg, "runtime error"):
			return "the program crashed: " + res.Brief()
		case res.OK():
			return "the option file is accepted"
		case out != nil:
			return "the option file is refused, an output file is there nevertheless"
		case files["in.rpt"] != nil:
			return "the option file is refused, a report is there nevertheless"
		case !strings.Contains(msg, fmt.Sprintf("in.rej:%d:", b.wrong)):
			return fmt.Sprintf("no message for line %d: %s", b.wrong, res.Brief())
		}
		for i := range b.lines {
			if i+1 != b.wrong && strings.Contains(msg, fmt.Sprintf("in.rej:%d: ERROR", i+1)) {
				return fmt.Sprintf("line %d is reported, it is right", i+1)
			}
		}
		return ""
	}
	e.R.Count("malformed_files", int64(len(bads)))
	e.Parallel(len(bads), func(i int) {
		if e.Stop() {
			return
		}
		b := bads[i]
		eol := []string{"\n", "\r\n"}[i%2]
		s := check(b, eol)
		e.R.Case("bad|"+strings.Join(b.lines, "|"), true)
		if s == "" {
			return
		}
		if rmbDebug != "" {
			fmt.Printf("DBG bad %q: %s\n", b.lines, s)
			return
		}
		e.Fail(Violation{Key: hashKey("bad", strings.Join(b.lines, "|")), Msg: fmt.Sprintf("option file %q: %s", strings.Join(b.lines, "\n"), s),
			Files: map[string][]byte{"in.wad": wb, "in.rej": []byte(strings.Join(b.lines, eol) + eol)}, Args: opts, Recheck: func() bool { return check(b, eol) != "" }})
	})

	// line ends of the report
	for _, eol := range []string{"\n", "\r\n"} {
		for _, last := range []string{eol, ""} {
			text := "REPORT 1" + eol + "MAP00" + eol + "REPORT 0" + last
			_, _, files := e.RunFiles(opts, wb, map[string][]byte{"in.rej": []byte(text)}, hangTimeout)
			rpt := files["in.rpt"]
			cr, lf := bytes.Count(rpt, []byte("\r\n")), bytes.Count(rpt, []byte("\n"))
			e.R.Case("eol|"+text, true)
			if len(rpt) == 0 || eol == "\n" && cr > 0 || eol == "\r\n" && cr != lf {
				s := fmt.Sprintf("the option file ends lines with %q, of the %d lines of the report %d end with CR LF", eol, lf, cr)
				if rmbDebug != "" {
					fmt.Printf("DBG eol %s\n", s)
					continue
				}
				e.Fail(Violation{Key: hashKey("eol", text), Msg: s, Files: map[string][]byte{"in.wad": wb, "in.rej": []byte(text)}, Args: opts})
			}
		}
	}
}
