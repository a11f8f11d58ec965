// instrument copies the Go module in -repo to -out and puts the sources of
// nondeterminism behind seams:
//
//   - in library packages, a call of the scheduler hook is inserted before every
//     statement (and into empty loop bodies), so that a simulator can preempt a
//     goroutine between any two statements and bound the number of steps;
//   - imports of "sync" are redirected to verifsync, whose blocking operations
//     hand control to the simulator;
//   - every package variable of a library package can be set back to its initial
//     value (and init functions be run again), so that a run starts like a
//     process of its own and a simulated restart loses what was in memory;
//   - in commands, imports of "os" are redirected to verifos, a file system shim
//     with fault injection, and imports of "fmt" to veriffmt, whose Print functions
//     go through verifos.
//
// Insertion is purely textual at positions found by the parser, so it does not
// depend on how the code is written. Nothing in -repo is touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var (
	repo   = flag.String("repo", "/repo", "module to copy")
	out    = flag.String("out", "", "where to put the instrumented copy")
	shims  = flag.String("shims", "", "directory with verifos.go.txt, verifsync.go.txt and hook.go.txt")
	yields = flag.Bool("yields", true, "insert yield points")
	resets = flag.Bool("resets", true, "make package variables resettable")
	seeded = flag.Bool("seeded", false, "the runtime is replaced by the one of -overlay")
	overl  = flag.String("overlay", "", "only write a replacement of the random source of the Go runtime to this directory")
)

type insertion struct {
	off  int
	text string
	del  int
}

type siteInfo struct {
	File string
	Line int
	Func string
}

func fatal(v ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instrument:"}, v...)...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	if *overl != "" {
		writeOverlay(*overl)
		return
	}
	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal(err)
	}
	module := ""
	for _, l := range strings.Split(string(gomod), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			module = strings.Trim(f[1], `"`)
		}
	}
	if module == "" {
		fatal("no module path in go.mod")
	}
	must(os.MkdirAll(*out, 0o755))
	must(os.WriteFile(filepath.Join(*out, "go.mod"), gomod, 0o644))
	if s, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
		must(os.WriteFile(filepath.Join(*out, "go.sum"), s, 0o644))
	}

	var sites []siteInfo
	concurrent := false
	hooked := map[string]string{} // library package dir -> package name
	orders := map[string]map[string]int{}
	err = filepath.Walk(*repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, path)
		if info.IsDir() {
			n := info.Name()
			if rel != "." && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(rel, "_test.go") || rel == "go.mod" || rel == "go.sum" {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		dst := filepath.Join(*out, rel)
		must(os.MkdirAll(filepath.Dir(dst), 0o755))
		if !strings.HasSuffix(rel, ".go") {
			// Needed only if embedded; keep small files.
			if info.Size() < 1<<20 {
				must(os.WriteFile(dst, src, 0o644))
			}
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			fatal(err)
		}
		isMain := f.Name.Name == "main"
		var ins []insertion
		for _, im := range f.Imports {
			p := strings.Trim(im.Path.Value, "\"`")
			to := ""
			switch {
			case isMain && p == "os":
				to = module + "/verifos"
			case isMain && p == "fmt":
				to = module + "/veriffmt"
			case !isMain && p == "sync" && *yields:
				to = module + "/verifsync"
			case p == "time":
				to = module + "/veriftime"
			}
			if to != "" {
				off := fset.Position(im.Path.Pos()).Offset
				text := `"` + to + `"`
				if im.Name == nil {
					text = p + " " + text
				}
				ins = append(ins, insertion{off, text, len(im.Path.Value)})
			}
		}
		if *yields {
			fn := ""
			add := func(pos token.Pos) {
				p := fset.Position(pos)
				ins = append(ins, insertion{p.Offset, fmt.Sprintf("verifYield(%d); ", len(sites)), 0})
				sites = append(sites, siteInfo{rel, p.Line, fn})
			}
			list := func(l []ast.Stmt) {
				for _, s := range l {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					add(s.Pos())
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.FuncDecl:
					fn = n.Name.Name
				case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
					concurrent = true
				case *ast.SwitchStmt:
					// the body of a switch is a block of clauses, not of statements
					for _, c := range n.Body.List {
						list(c.(*ast.CaseClause).Body)
					}
				case *ast.TypeSwitchStmt:
					for _, c := range n.Body.List {
						list(c.(*ast.CaseClause).Body)
					}
				case *ast.CommClause:
					list(n.Body)
				case *ast.ForStmt:
					if len(n.Body.List) == 0 {
						add(n.Body.Rbrace)
					}
				case *ast.BlockStmt:
					if len(n.List) > 0 {
						switch n.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					list(n.List)
				}
				return true
			})
			hooked[filepath.Dir(rel)] = f.Name.Name
		}
		tail := ""
		if *yields && *resets && !isMain {
			dir := filepath.Dir(path)
			if orders[dir] == nil {
				orders[dir] = initOrder(dir)
			}
			var more []insertion
			tail, more = resetCode(fset, f, src, ins, orders[dir], filepath.Dir(rel))
			ins = append(ins, more...)
		}
		must(os.WriteFile(dst, []byte(render(src, ins, 0, len(src))+tail), 0o644))
		return nil
	})
	if err != nil {
		fatal(err)
	}

	// The hook lives in a package of its own, so that every package shares it.
	write := func(rel, text string) {
		p := filepath.Join(*out, rel)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(text), 0o644))
	}
	shim := func(name string) string {
		s, err := os.ReadFile(filepath.Join(*shims, name))
		if err != nil {
			fatal(err)
		}
		return strings.ReplaceAll(string(s), "MODULE", module)
	}
	write("verifhook/hook.go", shim("hook.go.txt"))
	if *seeded {
		write("verifhook/rand.go", "package verifhook\n\nimport _ \"unsafe\"\n\n// SetRand seeds the random source of the Go runtime; 0: no seed.\n//\n//go:linkname SetRand runtime.verifSetRand\nfunc SetRand(seed uint64)\n\nconst Seeded = true\n")
		write("verifhook/empty.s", "")
	} else {
		write("verifhook/rand.go", "package verifhook\n\nfunc SetRand(seed uint64) {}\n\nconst Seeded = false\n")
	}
	for dir, pkg := range hooked {
		write(filepath.Join(dir, "zz_verif_yield.go"),
			"package "+pkg+"\n\nimport \""+module+"/verifhook\"\n\nvar _ = verifhook.Reset\n\nfunc verifRegister(pkg string, order int, f func()) { verifhook.Register(pkg, order, f) }\n\nfunc verifYield(site int) {\n\tif verifhook.Yield != nil {\n\t\tverifhook.Yield(site)\n\t}\n}\n")
	}
	for name, pkg := range map[string]string{"os": "verifos", "fmt": "veriffmt", "sync": "verifsync", "time": "veriftime"} {
		text := shim(pkg + ".go.txt")
		write(pkg+"/shim.go", text)
		write(pkg+"/reexport.go", reexport(name, pkg, text))
	}
	meta, _ := json.Marshal(map[string]interface{}{"module": module, "sites": sites, "concurrent": concurrent})
	must(os.WriteFile(filepath.Join(*out, "verif_meta.json"), meta, 0o644))
}

// render gives src[from:to] with the insertions in that range.
func render(src []byte, ins []insertion, from, to int) string {
	ins = append([]insertion(nil), ins...)
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b bytes.Buffer
	last := from
	for _, i := range ins {
		if i.off < from || i.off >= to {
			continue
		}
		b.Write(src[last:i.off])
		b.WriteString(i.text)
		last = i.off + i.del
	}
	b.Write(src[last:to])
	return b.String()
}

// initOrder gives the position of every package variable in the order of
// initialisation. Imports are not resolved, as the order does not depend on them.
func initOrder(dir string) map[string]int {
	order := map[string]int{}
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		if f, err := parser.ParseFile(fset, n, nil, 0); err == nil && f.Name.Name != "main" {
			files = append(files, f)
		}
	}
	info := &types.Info{}
	conf := types.Config{Error: func(error) {}, Importer: noImporter{}}
	conf.Check("p", fset, files, info)
	for i, in := range info.InitOrder {
		for _, v := range in.Lhs {
			order[v.Name()] = i + 1
		}
	}
	return order
}

type noImporter struct{}

func (noImporter) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

// resetCode makes functions that set the package variables of a file back.
func resetCode(fset *token.FileSet, f *ast.File, src []byte, ins []insertion, order map[string]int, dir string) (string, []insertion) {
	var b strings.Builder
	var more []insertion
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	reg := func(order int, body string) {
		fmt.Fprintf(&b, "\tverifRegister(%q, %d, func() { %s\n\t})\n", dir, order, body)
	}
	inits := 0
	var calls strings.Builder
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				name := fmt.Sprintf("verifInit%d_%d", off(d.Pos()), inits)
				inits++
				more = append(more, insertion{off(d.Name.Pos()), name, 4})
				fmt.Fprintf(&calls, "\nfunc init() { %s() }\n", name)
				reg(1<<20+inits, name+"()")
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				v := s.(*ast.ValueSpec)
				embed := false
				for _, g := range []*ast.CommentGroup{d.Doc, v.Doc} {
					if g != nil {
						for _, c := range g.List {
							embed = embed || strings.HasPrefix(c.Text, "//go:embed")
						}
					}
				}
				if embed {
					continue
				}
				for i, n := range v.Names {
					if n.Name == "_" {
						continue
					}
					if v.Type != nil {
						reg(0, fmt.Sprintf("%s = *new(%s)", n.Name, render(src, ins, off(v.Type.Pos()), off(v.Type.End()))))
					}
					if len(v.Values) == len(v.Names) {
						reg(order[n.Name]+1, n.Name+" = "+render(src, ins, off(v.Values[i].Pos()), off(v.Values[i].End())))
					}
				}
				if len(v.Values) == 1 && len(v.Names) > 1 {
					o := 0
					var l []string
					for _, n := range v.Names {
						if order[n.Name] > o {
							o = order[n.Name]
						}
						l = append(l, n.Name)
					}
					reg(o+1, strings.Join(l, ", ")+" = "+render(src, ins, off(v.Values[0].Pos()), off(v.Values[0].End())))
				}
			}
		}
	}
	if b.Len() == 0 {
		return "", nil
	}
	return "\n\nfunc init() {\n" + b.String() + "}\n" + calls.String(), more
}

func must(err error) {
	if err != nil {
		fatal(err)
	}
}

// reexport passes on every exported object of a standard package which the shim
// does not define itself.
func reexport(name, pkg, shimText string) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "shim.go", shimText, 0)
	if err != nil {
		fatal(err)
	}
	have := map[string]bool{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil {
				have[d.Name.Name] = true
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					have[s.Name.Name] = true
				case *ast.ValueSpec:
					for _, n := range s.Names {
						have[n.Name] = true
					}
				}
			}
		}
	}
	p, err := importer.ForCompiler(fset, "source", nil).Import(name)
	if err != nil {
		fatal(err)
	}
	var b strings.Builder
	n := 0
	for _, id := range p.Scope().Names() {
		o := p.Scope().Lookup(id)
		if !o.Exported() || have[id] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", id, id)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", id, id)
		case *types.TypeName:
			fmt.Fprintf(&b, "type %s = real.%s\n", id, id)
		case *types.Func:
			if sig := o.Type().(*types.Signature); sig.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", id, id)
		}
		n++
	}
	if n == 0 {
		return "package " + pkg + "\n"
	}
	return fmt.Sprintf("package %s\n\nimport real %q\n\n", pkg, name) + b.String()
}

// writeOverlay writes a copy of the random source of the Go runtime that can be
// seeded. It decides the order of map iterations, hash seeds and the unseeded
// functions of math/rand.
func writeOverlay(dir string) {
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatal(err)
	}
	path := filepath.Join(strings.TrimSpace(string(root)), "src/runtime/rand.go")
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	text := string(b)
	replace := func(from, to string) {
		if strings.Count(text, from) != 1 {
			fatal("the random source of this Go runtime is not known")
		}
		text = strings.Replace(text, from, to, 1)
	}
	replace("\tglobalRand.state.Init(*seed)\n\tclear(seed[:])\n", "\tclear(seed[:])\n\tglobalRand.state.Init(*seed)\n")
	replace("\tmp := getg().m\n\tc := &mp.chacha8\n", `	if verifSeeded {
		verifState += 0x9e3779b97f4a7c15
		z := verifState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	mp := getg().m
	c := &mp.chacha8
`)
	text += `
var verifSeeded bool
var verifState uint64

//go:linkname verifSetRand runtime.verifSetRand
func verifSetRand(seed uint64) { verifSeeded, verifState = seed != 0, seed }
`
	must(os.MkdirAll(dir, 0o755))
	repl := filepath.Join(dir, "rand.go")
	must(os.WriteFile(repl, []byte(text), 0o644))
	js, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{path: repl}})
	must(os.WriteFile(filepath.Join(dir, "overlay.json"), js, 0o644))
}
