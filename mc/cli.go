package main

// C17: every command line up to the stated bounds, run in process on the real
// parser and compared with the grammar of the manual (cliDoc below). Whatever
// the in-process run suggests is confirmed on the real binary before it counts.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const (
	cliOK      = iota // documented: no diagnostic, equal to its canonical form
	cliBad            // malformed: must be diagnosed
	cliRefused        // malformed in what it says about files: must end without touching any
	cliOpen           // not settled by the manual: must not crash
)

type cliDoc struct {
	set     map[string]string
	verdict int
	why     string
	in, out string
	hasOut  bool
	levels  string // -m or -!m argument
	verb    int
	zlevel  bool
}

func (d *cliDoc) worse(v int, why string) {
	rank := []int{cliOK: 0, cliBad: 2, cliRefused: 3, cliOpen: 1}
	if rank[v] > rank[d.verdict] {
		d.verdict, d.why = v, why
	}
}

type cursor struct {
	s  string
	ok bool
}

func (c *cursor) peek() byte {
	if c.s == "" {
		return 0
	}
	return c.s[0]
}

// num reads "=N".
func (c *cursor) num() (int, bool) {
	if c.peek() != '=' {
		return 0, false
	}
	return c.digits(1)
}

func (c *cursor) digits(from int) (int, bool) {
	i := from
	for i < len(c.s) && c.s[i] >= '0' && c.s[i] <= '9' {
		i++
	}
	if i == from {
		return 0, false
	}
	n, err := strconv.Atoi(c.s[from:i])
	if err != nil {
		return 0, false
	}
	c.s = c.s[i:]
	return n, true
}

// onoff reads an optional + or -.
func (c *cursor) onoff() string {
	switch c.peek() {
	case '+':
		c.s = c.s[1:]
	case '-':
		c.s = c.s[1:]
		return "-"
	}
	return "+"
}

// enum: "=N" with N below max; a bare letter, + or - is left open unless bare
// says it is malformed.
func (d *cliDoc) enum(c *cursor, key string, lo, max int, bareBad bool) bool {
	if c.peek() == '=' {
		n, ok := c.num()
		if !ok {
			d.worse(cliBad, key+": no number")
			return false
		}
		if n < lo || n > max {
			d.worse(cliBad, fmt.Sprintf("%s: %d out of range", key, n))
			return true
		}
		if n >= 1<<31 {
			d.worse(cliOpen, "huge")
		}
		d.set[key] = "=" + strconv.Itoa(n)
		return true
	}
	v := cliOpen
	if bareBad {
		v = cliBad
	}
	if c.peek() == '-' {
		v = cliOpen
	}
	d.worse(v, key+": no value")
	c.onoff()
	return true
}

// the manual names no upper bound for these; beyond 32 bits it is left open
const bigInt = 1<<63 - 1

func (d *cliDoc) blockmap(c *cursor) {
	for c.s != "" {
		k := c.s[0]
		c.s = c.s[1:]
		switch k {
		case 'o':
			if c.peek() != '=' {
				d.worse(cliOpen, "o bare")
				c.onoff()
				continue
			}
			x, ok := c.num()
			if !ok {
				d.worse(cliBad, "o: no number")
				return
			}
			if c.peek() == ',' {
				y, ok := c.digits(1)
				if !ok || x > 32767 || y > 32767 {
					d.worse(cliBad, "o=x,y: bad offset")
					if !ok {
						return
					}
					continue
				}
				d.set["bo"] = fmt.Sprintf("=%d,%d", x, y)
				continue
			}
			if x > 4 {
				d.worse(cliBad, "o out of range")
				continue
			}
			d.set["bo"] = "=" + strconv.Itoa(x)
		case 'r':
			d.set["br"] = c.onoff()
		case 's', 'a':
			if c.peek() == '?' {
				c.s = c.s[1:]
				d.set["b"+string(k)+"?"] = ""
				continue
			}
			d.set["b"+string(k)] = c.onoff()
		case 'z':
			if !d.enum(c, "bz", 0, 2, false) {
				return
			}
		case 't':
			if !d.enum(c, "bt", 0, 32767, false) {
				return
			}
		case 'e':
			if !d.enum(c, "be", 0, 2, false) {
				return
			}
		default:
			d.worse(cliBad, "-b: unknown "+string(k))
			return
		}
	}
}

func (d *cliDoc) nodes(c *cursor) {
	for c.s != "" {
		k := c.s[0]
		c.s = c.s[1:]
		ok := true
		switch k {
		case 'a':
			ok = d.enum(c, "na", 0, 4, true)
		case 'p':
			ok = d.enum(c, "np", 0, 2, true)
		case 'm':
			ok = d.enum(c, "nm", 0, 3, true)
		case 't':
			ok = d.enum(c, "nt", 0, 32767, false)
		case 'i':
			ok = d.enum(c, "ni", 0, 2, false)
		case 'f':
			ok = d.enum(c, "nf", 1, bigInt, true)
		case 'd':
			ok = d.enum(c, "nd", 0, bigInt, false)
		case 'w', 'r':
			d.worse(cliOpen, "hidden option")
			if c.peek() == '=' {
				_, ok = c.num()
				if !ok {
					d.worse(cliBad, "no number")
				}
			} else {
				c.onoff()
			}
		case 'c':
			if len(c.s) < 2 || c.s[0] != '=' || !strings.Contains("vdxzVDXZ", c.s[1:2]) {
				d.worse(cliBad, "-nc: unknown format")
				return
			}
			f := c.s[1]
			c.s = c.s[2:]
			if f != 'z' && f != 'Z' {
				if d.zlevel && (f == 'z' || f == 'Z') {
					d.worse(cliOpen, "level")
				}
				d.set["nc"] = "=" + string(f)
				continue
			}
			switch {
			case c.peek() == '+' || c.peek() == '-':
				d.worse(cliOpen, "signed level")
				c.s = c.s[1:]
				c.digits(0)
			case c.peek() >= '0' && c.peek() <= '9':
				n, okn := c.digits(0)
				if !okn || n > 9 {
					d.worse(cliBad, "level out of range")
				} else if n == 0 {
					d.worse(cliOpen, "level 0")
				} else {
					d.set["nc"] = fmt.Sprintf("=%c%d", f, n)
					d.zlevel = true
				}
			default:
				if d.zlevel {
					d.worse(cliOpen, "level given earlier")
				}
				d.set["nc"] = "=" + string(f)
			}
		default:
			d.worse(cliBad, "-n: unknown "+string(k))
			return
		}
		if !ok {
			return
		}
	}
}

func (d *cliDoc) reject(c *cursor) {
	for c.s != "" {
		k := c.s[0]
		c.s = c.s[1:]
		switch k {
		case 'z', 'g', 'm':
			d.set["r"+string(k)] = c.onoff()
		case 's':
			if c.peek() == '+' {
				c.s = c.s[1:]
				d.set["rs"] = "=1"
				continue
			}
			if !d.enum(c, "rs", 0, 3, false) {
				return
			}
		default:
			d.worse(cliBad, "-r: unknown "+string(k))
			return
		}
	}
}

func (d *cliDoc) long(a string) {
	num := func(key, name string, max int, plus, minus, bare string) bool {
		if !strings.HasPrefix(a, "--"+name) {
			return false
		}
		rest := a[2+len(name):]
		c := cursor{s: rest}
		switch {
		case rest == "":
			if bare == "" {
				d.worse(cliOpen, "bare")
			} else {
				d.set[key] = bare
			}
		case rest == "+" && plus != "":
			d.set[key] = plus
		case rest == "-" && minus != "":
			d.set[key] = minus
		case rest == "+" || rest == "-":
			d.worse(cliOpen, "sign")
		case rest[0] == '=':
			n, ok := c.num()
			if !ok || c.s != "" || n > max {
				d.worse(cliBad, a)
			} else {
				d.set[key] = "=" + strconv.Itoa(n)
				if n >= 1<<31 {
					d.worse(cliOpen, "huge")
				}
			}
		default:
			d.worse(cliBad, a)
		}
		return true
	}
	switch a {
	case "--ableist", "--unreversenodes", "--nosymm", "--eject", "--hashlump":
		d.set[a] = ""
		return
	case "--disableudmf":
		d.worse(cliOpen, a)
		return
	}
	if strings.HasPrefix(a, "--zenvar") {
		d.zenvar(a[len("--zenvar"):])
		return
	}
	if num("--detailnodes", "detailnodes", 3, "=2", "=1", "") ||
		num("--sidecache", "sidecache", 2, "=2", "=1", "") ||
		num("--speedtree", "speedtree", 1, "=1", "=0", "=1") ||
		num("--stknode", "stknode", 1, "=1", "=0", "=1") ||
		num("--roots", "roots", bigInt, "", "", "") {
		return
	}
	d.worse(cliRefused, "unknown "+a)
}

func (d *cliDoc) zenvar(s string) {
	if s == "" || s[0] != ':' {
		d.worse(cliBad, "zenvar")
		return
	}
	if strings.ContainsAny(s, "\"'") {
		d.worse(cliOpen, "quotes")
		return
	}
	set := map[string]string{}
	for _, p := range strings.Split(s[1:], ",") {
		kv := strings.Split(p, "=")
		if len(kv) != 2 {
			d.worse(cliBad, "zenvar: "+p)
			return
		}
		k, v := strings.ToLower(strings.TrimSpace(kv[0])), strings.TrimSpace(kv[1])
		n, err := strconv.Atoi(v)
		if len(k) != 2 || (k[0] != 'x' && k[0] != 'y') || k[1] < '1' || k[1] > '4' || err != nil {
			d.worse(cliBad, "zenvar: "+p)
			return
		}
		if v[0] == '+' || v[0] == '-' {
			d.worse(cliOpen, "signed")
		}
		set["zen"+k] = strconv.Itoa(n)
	}
	for k, v := range set {
		d.set[k] = v
	}
}

func goodLevelList(s string) bool {
	if s == "" || s[0] != ':' {
		return false
	}
	for _, l := range strings.Split(s[1:], "+") {
		if !isLevelName(strings.ToUpper(l)) {
			return false
		}
	}
	return true
}

// readCli reads a command line as the manual describes it.
func readCli(args []string) *cliDoc {
	d := &cliDoc{set: map[string]string{}}
	for i := 0; i < len(args); i++ {
		a := args[i]
		if a == "" {
			d.worse(cliRefused, "empty argument")
			continue
		}
		if a[0] != '-' {
			if d.in != "" {
				d.worse(cliRefused, "two input files")
			}
			d.in = a
			continue
		}
		if a == "-" {
			d.worse(cliBad, "lone hyphen")
			continue
		}
		c := &cursor{s: a[2:]}
		switch a[1] {
		case 'b', 'n', 'r':
			k := string(a[1])
			d.set[k] = c.onoff()
			if d.set[k] == "-" {
				if c.s != "" {
					d.worse(cliBad, a)
				}
				continue
			}
			switch a[1] {
			case 'b':
				d.blockmap(c)
			case 'n':
				d.nodes(c)
			default:
				d.reject(c)
			}
		case 'd':
			d.set["d"] = c.onoff()
			if c.s != "" {
				d.worse(cliBad, a)
			}
		case 'v':
			d.verb++
			for c.peek() == 'v' {
				d.verb++
				c.s = c.s[1:]
			}
			if c.s != "" {
				d.worse(cliBad, a)
			}
		case 'o':
			if c.s != "" || d.hasOut {
				d.worse(cliRefused, a)
				continue
			}
			if i+1 >= len(args) || args[i+1] == "" {
				d.worse(cliRefused, "-o without file")
				i++
				continue
			}
			d.hasOut, d.out = true, args[i+1]
			i++
		case '-':
			if a == "--cpuprofile" || a == "--memprofile" {
				if i+1 >= len(args) || args[i+1] == "" {
					d.worse(cliRefused, a+" without file")
				} else {
					d.set[a] = args[i+1]
				}
				i++
				continue
			}
			d.long(a)
		case 'm':
			if d.levels != "" || !goodLevelList(c.s) {
				d.worse(cliRefused, a)
				continue
			}
			d.levels = "-m" + strings.ToUpper(c.s)
		case '!':
			if !strings.HasPrefix(a, "-!m") || d.levels != "" || !goodLevelList(a[3:]) {
				d.worse(cliRefused, a)
				continue
			}
			d.levels = "-!m" + strings.ToUpper(a[3:])
		default:
			d.worse(cliRefused, a)
		}
	}
	if d.set["--eject"] == "" {
		if _, ok := d.set["--eject"]; ok && !d.hasOut {
			d.worse(cliRefused, "--eject without -o")
		}
	}
	return d
}

// canonical: one argument per setting, in a fixed order.
func (d *cliDoc) canonical() []string {
	var ks []string
	for k := range d.set {
		ks = append(ks, k)
	}
	// the on/off letters come first, so that -b- does not hide the others
	sort.Slice(ks, func(i, j int) bool {
		li, lj := len(ks[i]) == 1, len(ks[j]) == 1
		if li != lj {
			return li
		}
		return ks[i] < ks[j]
	})
	var args []string
	var off []string
	zen := []string{}
	for _, k := range ks {
		v := d.set[k]
		switch {
		case k == "--cpuprofile" || k == "--memprofile":
			args = append(args, k, v)
		case strings.HasPrefix(k, "zen"):
			zen = append(zen, k[3:]+"="+v)
		case strings.HasPrefix(k, "--"):
			args = append(args, k+v)
		case len(k) == 1 && v == "-":
			off = append(off, "-"+k+"-")
		default:
			args = append(args, "-"+k+v)
		}
	}
	args = append(args, off...)
	if len(zen) > 0 {
		args = append(args, "--zenvar:"+strings.Join(zen, ","))
	}
	if d.verb > 0 {
		args = append(args, "-"+strings.Repeat("v", d.verb))
	}
	if d.levels != "" {
		args = append(args, d.levels)
	}
	if d.in != "" {
		args = append(args, d.in)
	}
	if d.hasOut {
		args = append(args, "-o", d.out)
	}
	return args
}

type cliSpace struct {
	name string
	each func(yield func(args []string) bool)
}

type cliRun struct {
	e       *Env
	bin     string
	mu      sync.Mutex
	canon   map[string]string // canonical line -> hash
	worlds  [][]byte
	seen    map[string]int // suspicion class -> times confirmed or dismissed
	stopped atomic.Bool
}

// words over an alphabet, shortest first
func words(alpha string, max int, f func(s string) bool) {
	buf := make([]byte, 0, max)
	var rec func(n int) bool
	rec = func(n int) bool {
		if n == 0 {
			return f(string(buf))
		}
		for i := 0; i < len(alpha); i++ {
			buf = append(buf, alpha[i])
			ok := rec(n - 1)
			buf = buf[:len(buf)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	for n := 0; n <= max; n++ {
		if !rec(n) {
			return
		}
	}
}

func tuples(toks []string, min, max int, f func(t []string) bool) {
	var cur []string
	var rec func(n int) bool
	rec = func(n int) bool {
		if n == 0 {
			return f(cur)
		}
		for _, t := range toks {
			cur = append(cur, t)
			ok := rec(n - 1)
			cur = cur[:len(cur)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	for n := min; n <= max; n++ {
		if !rec(n) {
			return
		}
	}
}

var cliLong = []string{"--cpuprofile", "--memprofile", "--unreversenodes", "--disableudmf", "--detailnodes", "--sidecache", "--zenvar", "--stknode", "--hashlump", "--eject", "--ableist", "--nosymm", "--speedtree", "--roots"}

func (e *Env) cliSpaces() []cliSpace {
	th := e.Thorough()
	pick := func(q, t int) int {
		if th {
			return t
		}
		return q
	}
	one := func(name string, gen func(f func(s string) bool)) cliSpace {
		return cliSpace{name, func(y func([]string) bool) {
			gen(func(s string) bool { return y([]string{s, "in.wad"}) })
		}}
	}
	toks := []string{"-b", "-b-", "-bo=3", "-bs", "-bs-", "-ba", "-ba-", "-bs?", "-ba?", "-bz=0", "-bz=2", "-be=1", "-br", "-br-", "-bo=5,9", "-bt=3",
		"-n", "-n-", "-na=2", "-na=4", "-np=0", "-np=2", "-nc=x", "-nc=Z", "-nc=z9", "-nm=1", "-ni=2", "-nf=5", "-nd=0", "-nt=2",
		"-r", "-r-", "-rz", "-rz-", "-rs=2", "-rm", "-rg-", "-d", "-d-", "-v", "-vv",
		"-m:map01", "-!m:map01+e1m1", "-o", "out.wad", "in.wad", "",
		"--eject", "--unreversenodes", "--ableist", "--detailnodes=1", "--detailnodes+", "--sidecache-", "--speedtree", "--speedtree-", "--roots=3", "--zenvar:x1=3", "--zenvar:y2=4,x1=5", "--cpuprofile", "--stknode"}
	small := []string{"-b", "-b-", "-bs", "-ba", "-ba-", "-bs-", "-n-", "-n", "-na=4", "-nc=x", "-nm=2", "-r", "-r-", "-rz", "-rz-", "-rs=1", "-rm", "-d", "-d-", "-vv", "-m:e1m1", "-o", "out.wad", "in.wad", "", "--eject", "--speedtree-", "--zenvar:x1=3"}
	bsub := []string{"o=0", "o=2", "o=4", "o=7,3", "r", "r-", "r+", "s", "s-", "s?", "a", "a-", "a+", "a?", "z=0", "z=1", "z=2", "t=0", "t=5", "e=0", "e=1", "e=2"}
	nsub := []string{"a=0", "a=1", "a=2", "a=3", "a=4", "p=0", "p=1", "p=2", "m=0", "m=1", "m=2", "m=3", "t=0", "t=4", "i=0", "i=1", "i=2", "c=v", "c=d", "c=x", "c=z", "c=V", "c=D", "c=X", "c=Z7", "f=17", "f=1", "d=0", "d=34"}
	rsub := []string{"z", "z-", "z+", "g", "g-", "g+", "m", "m-", "m+", "s=0", "s=1", "s=2", "s=3", "s+"}
	group := func(letter string, subs []string, n int) cliSpace {
		return one("-"+letter+" groups", func(f func(string) bool) {
			tuples(subs, 1, n, func(t []string) bool { return f("-" + letter + strings.Join(t, "")) })
		})
	}
	return []cliSpace{
		one("short argument", func(f func(string) bool) {
			words("bdnrvomaszgtewcpif=+-!:?,01259xZ", pick(3, 4), func(s string) bool { return f("-" + s) })
		}),
		one("any bytes", func(f func(string) bool) {
			al := ""
			for b := 1; b < 256; b++ {
				if b != '\n' && b != 0x1f {
					al += string([]byte{byte(b)})
				}
			}
			words(al, 2, func(s string) bool { return f("-" + s) })
		}),
		one("-b argument", func(f func(string) bool) {
			words("orsazte=,?+-0379", pick(4, 5), func(s string) bool { return f("-b" + s) })
		}),
		one("-n argument", func(f func(string) bool) {
			words("apmticfdw=0149vxzZD+-", pick(4, 5), func(s string) bool { return f("-n" + s) })
		}),
		one("-r argument", func(f func(string) bool) {
			words("zgms=0134+-", pick(4, 6), func(s string) bool { return f("-r" + s) })
		}),
		group("b", bsub, 3), group("n", nsub, 3), group("r", rsub, pick(3, 4)),
		one("numbers", func(f func(string) bool) {
			for _, p := range []string{"-bo=", "-bo=1,", "-bt=", "-bz=", "-be=", "-na=", "-np=", "-nm=", "-nt=", "-ni=", "-nf=", "-nd=", "-nc=z", "-nc=Z", "-rs=", "--detailnodes=", "--sidecache=", "--speedtree=", "--stknode=", "--roots="} {
				for _, n := range []string{"0", "00", "1", "01", "2", "3", "4", "5", "9", "10", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "65537", "70000", "131072", "2147483647", "2147483648", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551617", "99999999999999999999999"} {
					for _, s := range []string{"", ",1", ",65537", "t=1", "x", "+", "-", "="} {
						if !f(p + n + s) {
							return
						}
					}
				}
			}
		}),
		one("long options", func(f func(string) bool) {
			for _, l := range cliLong {
				for i := 2; i <= len(l); i++ {
					if !f(l[:i]) {
						return
					}
				}
				words("=+-:0139x,s", pick(3, 4), func(s string) bool { return f(l + s) })
				for i := 2; i < len(l); i++ {
					f(l[:i] + "=" + l[i:])
					f(l[:i] + l[i+1:])
					f(l[:i] + strings.ToUpper(l[i:i+1]) + l[i+1:])
				}
			}
		}),
		one("zen variables", func(f func(string) bool) {
			tuples([]string{"x1", "X1", "y2", "Y4", "x5", "x", "=", "1", "-7", "+", ",", " ", "\"", "'", "x3=2", "y1=6"}, 0, pick(4, 5), func(t []string) bool { return f("--zenvar:" + strings.Join(t, "")) })
		}),
		one("zen variables given twice", func(f func(string) bool) {
			// map iteration order is not controlled: repeat
			tuples([]string{"x3=5", "X3=600", "y1=9", "Y1=70", " x3 =7"}, 2, 3, func(t []string) bool {
				for i := 0; i < pick(12, 24); i++ {
					if !f("--zenvar:" + strings.Join(t, ",")) {
						return false
					}
				}
				return true
			})
		}),
		one("level lists", func(f func(string) bool) {
			for _, p := range []string{"-m", "-!m"} {
				tuples([]string{":", "+", "map01", "MAP32", "mAp00", "e1m1", "E9M99", "e1m", "map1", "map001", "x", "-"}, 0, 4, func(t []string) bool { return f(p + strings.Join(t, "")) })
			}
		}),
		{"argument lists", func(y func([]string) bool) {
			tuples(toks, 0, 3, func(t []string) bool { return y(t) && y(append(append([]string{}, t...), "in.wad")) })
		}},
		{"long argument lists", func(y func([]string) bool) {
			tuples(small, 4, pick(4, 5), func(t []string) bool { return y(append(append([]string{}, t...), "in.wad")) })
		}},
	}
}

// suspect judges one answer; "" is fine. class groups equal suspicions.
func (r *cliRun) suspect(d *cliDoc, a *cliAnswer, canonHash string) string {
	if a.kind == "panic" {
		return "crash"
	}
	switch d.verdict {
	case cliBad:
		if a.nerr == 0 {
			return "silent"
		}
	case cliRefused:
		if a.nerr == 0 {
			return "silent"
		}
		if a.kind != "exit" || a.code == 0 {
			return "not refused"
		}
	case cliOK:
		if a.nerr != 0 {
			return "complains"
		}
		if a.kind == "exit" && a.code != 0 {
			return "refuses"
		}
		if a.hash != canonHash {
			return "differs"
		}
	}
	return ""
}

// outcome of a command line on the real binary, in a directory of its own.
func (r *cliRun) real(args []string, world []byte) (*Result, string) {
	dir := r.e.TempDir()
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "in.wad"), world, 0o666)
	os.WriteFile(filepath.Join(dir, "in.rej"), []byte(cliRej), 0o666)
	res := r.e.Exec(r.e.Bin, dir, args, nil, 60*time.Second)
	var fs []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			n := filepath.Base(p)
			if n == "prof" || strings.HasSuffix(n, ".prof") {
				b = nil
			}
			fs = append(fs, n+":"+hashKey(string(b)))
		}
		return nil
	})
	sort.Strings(fs)
	return res, fmt.Sprintf("exit %d files %v", res.Exit, fs)
}

const cliRej = "# comment\nEXCLUDE 0 1\n"

// confirm a suspicion on the real program.
func (r *cliRun) confirm(kind string, args, canon []string) string {
	w := r.worlds[0]
	switch kind {
	case "crash":
		res, _ := r.real(args, w)
		if res.Panicked() || res.Timeout || res.Exit == 2 {
			return "crashes: " + res.Brief()
		}
	case "silent", "not refused":
		res, files := r.real(args, w)
		if res.Panicked() {
			return "crashes: " + res.Brief()
		}
		if res.Stderr == "" {
			return "is malformed and accepted without a diagnostic: " + files
		}
		if kind == "not refused" && res.Exit == 0 {
			return "names its files wrongly and is carried out: " + files
		}
	case "complains", "refuses":
		res, _ := r.real(args, w)
		if res.Stderr != "" || res.Exit != 0 {
			ref, _ := r.real([]string{"in.wad", "-o", "out.wad"}, w)
			if ref.Exit == 0 && ref.Stderr == "" {
				return "is documented and answered with: " + res.Brief()
			}
		}
	case "differs":
		det := func(a []string) []string { return append([]string{"-d"}, a...) }
		for _, a := range args {
			if strings.HasPrefix(a, "-d") {
				det = func(a []string) []string { return a }
			}
		}
		for _, w := range r.worlds {
			_, f1 := r.real(det(args), w)
			_, f2 := r.real(det(canon), w)
			if f1 != f2 {
				if _, f3 := r.real(det(args), w); f3 != f1 {
					continue
				}
				if _, f3 := r.real(det(canon), w); f3 != f2 {
					continue
				}
				return fmt.Sprintf("does not mean the same as %q: %s, not %s", canon, f1, f2)
			}
		}
	}
	return ""
}

// classOf groups suspicions that look the same.
func (r *cliRun) classOf(d *cliDriver, kind string, args, canon []string) string {
	if kind == "differs" {
		a, err := d.run([]string{"?" + cliLine(args), "?" + cliLine(canon)})
		if err != nil {
			return kind
		}
		sep := func(c rune) bool { return c == '\n' || c == ';' }
		x, y := strings.FieldsFunc(a[0].text, sep), strings.FieldsFunc(a[1].text, sep)
		class := kind
		for i := range x {
			if i < len(y) && x[i] != y[i] {
				class += "; " + x[i] + " not " + y[i]
			}
		}
		return class
	}
	class := kind + " " + args[0]
	if len(class) > len(kind)+4 {
		class = class[:len(kind)+4]
	}
	if len(args) > 2 {
		class += fmt.Sprint(len(args))
	}
	return class
}

func (r *cliRun) handle(drv *cliDriver, d *cliDoc, kind string, args, canon []string) {
	class := r.classOf(drv, kind, args, canon)
	limit := 3
	if kind == "differs" {
		limit = 40
	}
	r.mu.Lock()
	r.seen[class]++
	n := r.seen[class]
	r.mu.Unlock()
	if n > limit || r.e.Stop() {
		return
	}
	r.e.R.Count("suspicions put to the real binary", 1)
	msg := r.confirm(kind, args, canon)
	if os.Getenv("VMC_DEBUG") == "2" && n == 1 {
		fmt.Printf("%q: %s; confirmed: %q\n", args, class, msg)
	}
	if msg != "" {
		r.e.Fail(Violation{Key: hashKey(append([]string{kind}, args...)...), Msg: fmt.Sprintf("command line %q %s (%s)", args, msg, d.why), Args: args,
			Files: map[string][]byte{"in.wad": r.worlds[0], "in.rej": []byte(cliRej)}, Recheck: func() bool { return r.confirm(kind, args, canon) != "" }})
	}
}

type cliJob struct {
	args, canon []string
	line, cline string
	doc         *cliDoc
}

func (r *cliRun) batch(d *cliDriver, jobs []cliJob) {
	var lines []string
	asked := map[string]bool{}
	r.mu.Lock()
	for i := range jobs {
		j := &jobs[i]
		lines = append(lines, j.line)
		if j.doc.verdict == cliOK && j.cline != j.line {
			if _, ok := r.canon[j.cline]; !ok && !asked[j.cline] {
				asked[j.cline] = true
			}
		}
	}
	r.mu.Unlock()
	var cl []string
	for l := range asked {
		cl = append(cl, l)
	}
	all := append(append([]string{}, lines...), cl...)
	var ans []cliAnswer
	t0 := time.Now()
	defer func() {
		if os.Getenv("VMC_DEBUG") == "3" {
			fmt.Println(len(lines), len(cl), time.Since(t0))
		}
	}()
	for len(ans) < len(all) {
		a, err := d.run(all[len(ans):])
		ans = append(ans, a...)
		if err != nil {
			if len(ans) >= len(all) {
				break
			}
			// the driver died or hung on this line
			ans = append(ans, cliAnswer{kind: "panic", text: err.Error(), hash: "?"})
		}
	}
	r.mu.Lock()
	for i, l := range cl {
		r.canon[l] = ans[len(lines)+i].hash
	}
	if len(r.canon) > 3000000 {
		r.canon = map[string]string{}
	}
	r.mu.Unlock()
	for i := range jobs {
		j := &jobs[i]
		h := ans[i].hash
		if j.cline != j.line {
			r.mu.Lock()
			ch, ok := r.canon[j.cline]
			r.mu.Unlock()
			if ok {
				h = ch
			}
		}
		if k := r.suspect(j.doc, &ans[i], h); k != "" {
			r.handle(d, j.doc, k, j.args, j.canon)
		}
	}
}

func init() {
	checks["C17"] = func(e *Env) {
		e.R.Level = "exploration"
		e.R.Rule = "one case = one command line, put to the program's own parser in process and compared with the state that the plain spelling of the documented meaning gives, or one setting in one context, judged by its effect on the output; non-trivial when the manual decides it"
		r := &cliRun{e: e, bin: filepath.Join(e.Scratch, "clidriver"), canon: map[string]string{}, seen: map[string]int{}}
		src := filepath.Join(e.Scratch, "clisrc")
		if err := e.BuildCliDriver(e.Repo, src, r.bin); err != nil {
			fatal("driver: %v", err)
		}
		r.worlds = e.cliWorlds()
		for _, sp := range e.cliSpaces() {
			if e.Stop() {
				break
			}
			t0 := time.Now()
			var total, ok, bad, open int64
			ch := make(chan []cliJob, 2*e.Workers)
			var wg sync.WaitGroup
			for w := 0; w < e.Workers; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					d := &cliDriver{bin: r.bin, dir: e.Scratch}
					defer d.stop()
					for jobs := range ch {
						for i := range jobs {
							j := &jobs[i]
							j.doc = readCli(j.args)
							j.line = cliLine(j.args)
							switch j.doc.verdict {
							case cliOK:
								atomic.AddInt64(&ok, 1)
								j.canon = j.doc.canonical()
								j.cline = cliLine(j.canon)
							case cliOpen:
								atomic.AddInt64(&open, 1)
								j.cline = j.line
							default:
								atomic.AddInt64(&bad, 1)
								j.cline = j.line
							}
						}
						r.batch(d, jobs)
					}
				}()
			}
			var jobs []cliJob
			complete := true
			sp.each(func(args []string) bool {
				total++
				jobs = append(jobs, cliJob{args: append([]string{}, args...)})
				if total%10007 == 1 {
					e.R.Sample(sp.name, strings.Join(args, " "))
				}
				if len(jobs) >= 4000 {
					ch <- jobs
					jobs = nil
					if e.Stop() {
						complete = false
						return false
					}
				}
				return true
			})
			if len(jobs) > 0 {
				ch <- jobs
			}
			close(ch)
			wg.Wait()
			e.R.Evals.Add(total)
			e.R.NontrivialN.Add(ok + bad)
			e.R.Count("command lines, "+sp.name, total)
			e.R.Count("documented command lines", ok)
			e.R.Count("malformed command lines", bad)
			e.R.Count("command lines the manual leaves open", open)
			if !complete {
				e.R.Capped.Store(true)
			}
			if os.Getenv("VMC_DEBUG") != "" {
				fmt.Printf("%s: %d (ok %d bad %d open %d) %v\n", sp.name, total, ok, bad, open, time.Since(t0))
			}
		}
		r.meaning()
	}
}
