package main

// C17, first part: the real program with package os replaced, so that millions
// of command lines can be run in one process up to the first file operation.

import (
	"bufio"
	"bytes"
	_ "embed"
	"fmt"
	"go/ast"
	"go/printer"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

//go:embed shim/vcli.go.txt
var shimCli string

// BuildCliDriver writes and builds the in-process driver.
func (e *Env) BuildCliDriver(src, dst, bin string) error {
	pr, err := e.loadProgram(src)
	if err != nil {
		return err
	}
	mod := pr.root.Module.Path
	os.MkdirAll(filepath.Join(dst, "vcli"), 0o777)
	for i, af := range pr.files {
		usesOS := false
		ast.Inspect(af, func(n ast.Node) bool {
			se, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			if id, ok := se.X.(*ast.Ident); ok {
				if pn, ok := pr.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "os" {
					se.X = ast.NewIdent("vcli")
					usesOS = true
				}
			}
			return true
		})
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				fd.Name.Name = "vmc_main"
			}
		}
		var ours []string
		if usesOS {
			ours = []string{mod + "/vcli"}
		}
		fixImports(af, ours)
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, pr.fset, af); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, filepath.Base(pr.root.GoFiles[i])), b.Bytes(), 0o666); err != nil {
			return err
		}
	}
	var drv strings.Builder
	fmt.Fprintf(&drv, "package main\n\nimport %q\n\nfunc main() {\n\tvcli.Serve(vmc_main, []vcli.Var{\n", mod+"/vcli")
	names := pr.pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		if v, ok := pr.pkg.Scope().Lookup(n).(*types.Var); ok && n != "_" {
			_ = v
			fmt.Fprintf(&drv, "\t\t{%q, &%s},\n", n, n)
		}
	}
	drv.WriteString("\t})\n}\n")
	w := func(name, s string) {
		if err := os.WriteFile(filepath.Join(dst, name), []byte(s), 0o666); err != nil {
			fatal("%v", err)
		}
	}
	w("vmc_driver.go", drv.String())
	w("go.mod", "module "+mod+"\n\ngo "+pr.root.Module.GoVersion+"\n")
	w("vcli/vcli.go", shimCli)
	w("vcli/gen.go", genVos(pr.osPkg, shimCli, "vcli"))
	return e.BuildRepo(dst, bin)
}

type cliAnswer struct {
	kind string // exit, end, panic, or the first file operation
	code int
	nerr int
	hash string
	text string
}

type cliDriver struct {
	bin, dir string
	cmd      *exec.Cmd
	in       *bufio.Writer
	pipe     io.WriteCloser
	out      *bufio.Reader
}

func (d *cliDriver) start() error {
	c := exec.Command(d.bin)
	c.Dir = d.dir
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=400")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		return err
	}
	d.cmd, d.pipe, d.in, d.out = c, in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	return nil
}

func (d *cliDriver) stop() {
	if d.cmd != nil {
		d.cmd.Process.Kill()
		d.pipe.Close()
		d.cmd.Wait()
		d.cmd = nil
	}
}

func cliLine(args []string) string {
	var b strings.Builder
	for i, a := range args {
		if i == 0 {
			b.WriteByte('=')
		} else {
			b.WriteByte('\x1f')
		}
		b.WriteString(a)
	}
	return b.String()
}

// run answers a batch; an error names how many answers were obtained.
func (d *cliDriver) run(lines []string) ([]cliAnswer, error) {
	if d.cmd == nil {
		if err := d.start(); err != nil {
			return nil, err
		}
	}
	res := make([]cliAnswer, 0, len(lines))
	tm := time.AfterFunc(60*time.Second, func() { d.cmd.Process.Kill() })
	defer tm.Stop()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, l := range lines {
			d.in.WriteString(l)
			d.in.WriteByte('\n')
		}
		d.in.Flush()
	}()
	for range lines {
		l, err := d.out.ReadString('\n')
		if err != nil {
			d.stop()
			wg.Wait()
			return res, fmt.Errorf("driver ended: %v", err)
		}
		var a cliAnswer
		if _, err := fmt.Sscanf(l, "%s %d %d %s", &a.kind, &a.code, &a.nerr, &a.hash); err != nil {
			d.stop()
			wg.Wait()
			return res, fmt.Errorf("driver says %q", l)
		}
		if i := strings.IndexByte(l, '"'); i > 0 {
			fmt.Sscanf(l[i:], "%q", &a.text)
		}
		res = append(res, a)
	}
	wg.Wait()
	return res, nil
}
