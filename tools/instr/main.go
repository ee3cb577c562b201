// Command instr rewrites the non-test Go files of the repository under test
// into a build overlay in which every nondeterminism source sits behind a
// simulator seam: a scheduling point before every statement, simulated
// replacements for the packages that reach the operating system or block a
// goroutine, goroutine creation through the scheduler, and command packages
// turned into importable, re-initialisable packages.
//
// All edits are made in place on the line they belong to, so that file and
// line numbers in stack traces are those of the original source.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// shims maps import paths to the simulated packages that replace them.
var shims = map[string]string{
	"os":                               "verifsim/shim/os",
	"io/ioutil":                        "verifsim/shim/ioutil",
	"os/exec":                          "verifsim/shim/exec",
	"path/filepath":                    "verifsim/shim/filepath",
	"fmt":                              "verifsim/shim/fmt",
	"flag":                             "verifsim/shim/flag",
	"log":                              "verifsim/shim/log",
	"sync":                             "verifsim/shim/sync",
	"time":                             "verifsim/shim/time",
	"github.com/spf13/pflag":           "verifsim/shim/pflag",
	"golang.org/x/crypto/ssh/terminal": "verifsim/shim/terminal",
}

// shimName is the package name an unnamed import of the path binds.
var shimName = map[string]string{
	"io/ioutil":                        "ioutil",
	"os/exec":                          "exec",
	"path/filepath":                    "filepath",
	"github.com/spf13/pflag":           "pflag",
	"golang.org/x/crypto/ssh/terminal": "terminal",
}

// perProc lists the variables of the replaced packages that every simulated
// process has its own copy of.
var perProc = map[string][]string{
	"os":                     {"Args"},
	"flag":                   {"CommandLine", "Usage"},
	"github.com/spf13/pflag": {"CommandLine", "Usage"},
}

// perProcNames finds what the file calls those variables.
func perProcNames(f *ast.File) map[string]bool {
	m := map[string]bool{}
	for _, spec := range f.Imports {
		path := strings.Trim(spec.Path.Value, `"`+"`")
		name := shimName[path]
		if name == "" {
			name = path
		}
		if spec.Name != nil {
			name = spec.Name.Name
		}
		for _, v := range perProc[path] {
			m[name+"."+v] = true
		}
	}
	return m
}

type edit struct {
	at, end int // replace [at,end)
	text    string
	seq     int
}

// sites numbers the scheduling points; neighbours get neighbouring numbers.
var sites int

func yieldCall() string {
	sites++
	return fmt.Sprintf("simrt_.At(%d);", sites)
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "repository root")
	out := flag.String("out", "", "output directory")
	goroot := flag.String("goroot", "", "GOROOT to overlay")
	noYield := flag.Bool("noyield", false, "leave out scheduling points")
	flag.Parse()
	if *out == "" || *goroot == "" {
		fatal("need -out and -goroot")
	}
	replace := map[string]string{}
	n := 0
	emit := func(orig string, data []byte) {
		n++
		dst := filepath.Join(*out, "src", fmt.Sprintf("%04d_%s", n, filepath.Base(orig)))
		if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
			fatal("%s", err)
		}
		if err := os.WriteFile(dst, data, 0644); err != nil {
			fatal("%s", err)
		}
		replace[orig] = dst
	}

	dirs := map[string][]string{}
	err := filepath.Walk(*repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(p)
		if info.IsDir() {
			if p != *repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(base, ".go") && !strings.HasSuffix(base, "_test.go") && !strings.HasPrefix(base, ".") && !strings.HasPrefix(base, "_") {
			d := filepath.Dir(p)
			dirs[d] = append(dirs[d], p)
		}
		return nil
	})
	if err != nil {
		fatal("%s", err)
	}
	var dirNames []string
	for d := range dirs {
		dirNames = append(dirNames, d)
	}
	sort.Strings(dirNames)
	for _, d := range dirNames {
		sort.Strings(dirs[d])
		instrDir(*repo, d, dirs[d], *noYield, emit)
	}

	overlayRuntime(*goroot, emit)

	data, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), data, 0644); err != nil {
		fatal("%s", err)
	}
}

func instrDir(repo, dir string, files []string, noYield bool, emit func(string, []byte)) {
	fset := token.NewFileSet()
	isCmd := false
	rel, _ := filepath.Rel(repo, dir)
	var parsed []*ast.File
	var srcs [][]byte
	var names []string
	for _, fn := range files {
		src, err := os.ReadFile(fn)
		if err != nil {
			fatal("%s", err)
		}
		f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
		if err != nil {
			// Not our business: the compiler reports it.
			fatal("parse %s: %s", fn, err)
		}
		if ignored(f) {
			continue
		}
		parsed = append(parsed, f)
		srcs = append(srcs, src)
		names = append(names, fn)
	}
	if strings.HasPrefix(rel, "cmd"+string(filepath.Separator)) {
		isCmd = true
		for _, f := range parsed {
			if f.Name.Name != "main" {
				isCmd = false
			}
		}
	}
	if !isCmd {
		for _, f := range parsed {
			if f.Name.Name == "main" {
				return // fuzz drivers and other programs outside the system
			}
		}
	}
	var inits int
	for i, f := range parsed {
		emit(names[i], instrFile(fset, f, srcs[i], isCmd, &inits, noYield))
	}
	if isCmd {
		emit(filepath.Join(dir, "zz_sim_reset.go"), []byte(resetFile(fset, parsed, srcs, inits)))
	}
}

func ignored(f *ast.File) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "// +build ignore") || strings.HasPrefix(c.Text, "//go:build ignore") {
				return true
			}
		}
	}
	return false
}

func instrFile(fset *token.FileSet, f *ast.File, src []byte, isCmd bool, inits *int, noYield bool) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(at, end int, text string) {
		edits = append(edits, edit{at, end, text, len(edits)})
	}
	fn := filepath.Base(fset.Position(f.Pos()).Filename)
	generated := strings.HasPrefix(fn, "scan_")

	// A trailing import on the package clause line keeps line numbers.
	pkgEnd := off(f.Name.End())
	if isCmd {
		add(off(f.Name.Pos()), pkgEnd, "simmain")
	}
	usesRT := false

	for _, spec := range f.Imports {
		path := strings.Trim(spec.Path.Value, `"`+"`")
		to, ok := shims[path]
		if !ok {
			continue
		}
		if spec.Name != nil {
			if spec.Name.Name == "_" || spec.Name.Name == "." {
				continue
			}
			add(off(spec.Path.Pos()), off(spec.Path.End()), `"`+to+`"`)
			continue
		}
		name := shimName[path]
		if name == "" {
			name = path
		}
		add(off(spec.Path.Pos()), off(spec.Path.End()), name+` "`+to+`"`)
	}

	if vars := perProcNames(f); len(vars) > 0 {
		ast.Inspect(f, func(n ast.Node) bool {
			sel, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := sel.X.(*ast.Ident)
			if ok && vars[id.Name+"."+sel.Sel.Name] {
				add(off(sel.Pos()), off(sel.End()), "(*"+id.Name+".Sim"+sel.Sel.Name+"())")
			}
			return true
		})
	}

	yieldBefore := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			usesRT = true
			add(off(s.Pos()), off(s.Pos()), yieldCall())
		}
	}

	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				instrBody(gd, generated, noYield, yieldBefore, func(g *ast.GoStmt) {
					usesRT = true
					rewriteGo(fset, src, g, add)
				})
			}
			continue
		}
		if isCmd && fd.Recv == nil {
			if fd.Name.Name == "main" {
				add(off(fd.Name.Pos()), off(fd.Name.End()), "SimMain")
			}
			if fd.Name.Name == "init" {
				add(off(fd.Name.Pos()), off(fd.Name.End()), fmt.Sprintf("simInit%d", *inits))
				*inits++
			}
		}
		if fd.Body == nil {
			continue
		}
		if generated {
			if !noYield && len(fd.Body.List) > 0 {
				usesRT = true
				add(off(fd.Body.List[0].Pos()), off(fd.Body.List[0].Pos()), yieldCall())
			}
			continue
		}
		instrBody(fd.Body, generated, noYield, yieldBefore, func(g *ast.GoStmt) {
			usesRT = true
			rewriteGo(fset, src, g, add)
		})
	}
	if usesRT {
		add(pkgEnd, pkgEnd, `; import simrt_ "verifsim/simrt"`)
	}
	return apply(src, edits)
}

func instrBody(n ast.Node, generated, noYield bool, yieldBefore func([]ast.Stmt), onGo func(*ast.GoStmt)) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if !noYield && !onlyClauses(n) {
				yieldBefore(n.List)
			}
		case *ast.CaseClause:
			if !noYield {
				yieldBefore(n.Body)
			}
		case *ast.CommClause:
			if !noYield {
				yieldBefore(n.Body)
			}
		case *ast.GoStmt:
			onGo(n)
		}
		return true
	})
}

func onlyClauses(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return true
	}
	switch b.List[0].(type) {
	case *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

// rewriteGo turns "go f(a, b)" into a scheduler-owned task, evaluating the
// function and its arguments at the time of the statement as Go does.
func rewriteGo(fset *token.FileSet, src []byte, g *ast.GoStmt, add func(int, int, string)) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	call := g.Call
	if _, isLit := call.Fun.(*ast.FuncLit); isLit && len(call.Args) == 0 {
		add(off(g.Pos()), off(call.Fun.Pos()), "simrt_.Go(")
		add(off(call.Fun.End()), off(call.End()), ")")
		return
	}
	// The callee and every argument keep their text; only glue is inserted.
	add(off(g.Pos()), off(call.Fun.Pos()), "{ simf_ := ")
	var names []string
	glueStart := off(call.Fun.End())
	for i, a := range call.Args {
		name := fmt.Sprintf("sima%d_", i)
		add(glueStart, off(a.Pos()), "; "+name+" := ")
		glueStart = off(a.End())
		if i == len(call.Args)-1 && call.Ellipsis.IsValid() {
			name += "..."
		}
		names = append(names, name)
	}
	add(glueStart, off(call.End()), "; simrt_.Go(func() { simf_("+strings.Join(names, ", ")+") }) }")
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].at != edits[j].at {
			return edits[i].at < edits[j].at
		}
		// insertions come before replacements at the same offset
		ri, rj := edits[i].end > edits[i].at, edits[j].end > edits[j].at
		if ri != rj {
			return !ri
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	last := 0
	for _, e := range edits {
		if e.at < last {
			fatal("overlapping edits at %d", e.at)
		}
		b.Write(src[last:e.at])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(src[last:])
	return []byte(b.String())
}

// resetFile writes SimReset, which gives every package-level variable of a
// command the value a fresh process would see and then runs its init
// functions.
func resetFile(fset *token.FileSet, files []*ast.File, srcs [][]byte, inits int) string {
	type varDef struct {
		names []string
		typ   string
		rhs   string
		deps  map[string]bool
		done  bool
	}
	text := func(i int, n ast.Node) string {
		s := string(srcs[i][fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		for v := range perProcNames(files[i]) {
			dot := strings.IndexByte(v, '.')
			s = strings.ReplaceAll(s, v, "(*"+v[:dot]+".Sim"+v[dot+1:]+"())")
		}
		return s
	}
	var defs []*varDef
	funcDeps := map[string]map[string]bool{}
	idents := func(n ast.Node) map[string]bool {
		m := map[string]bool{}
		ast.Inspect(n, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				m[id.Name] = true
			}
			return true
		})
		return m
	}
	imports := map[string]string{}
	for i, f := range files {
		fileHas := false
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					typ := ""
					if vs.Type != nil {
						typ = text(i, vs.Type)
					}
					if len(vs.Values) == 0 {
						for _, n := range vs.Names {
							defs = append(defs, &varDef{names: []string{n.Name}, typ: typ})
						}
						fileHas = true
						continue
					}
					if len(vs.Values) == len(vs.Names) {
						for k, n := range vs.Names {
							defs = append(defs, &varDef{names: []string{n.Name}, rhs: text(i, vs.Values[k]), deps: idents(vs.Values[k])})
						}
					} else {
						var ns []string
						for _, n := range vs.Names {
							ns = append(ns, n.Name)
						}
						defs = append(defs, &varDef{names: ns, rhs: text(i, vs.Values[0]), deps: idents(vs.Values[0])})
					}
					fileHas = true
				}
			case *ast.FuncDecl:
				if d.Body != nil {
					m := funcDeps[d.Name.Name]
					if m == nil {
						m = map[string]bool{}
						funcDeps[d.Name.Name] = m
					}
					for k := range idents(d.Body) {
						m[k] = true
					}
				}
			}
		}
		if fileHas {
			for _, spec := range f.Imports {
				path := strings.Trim(spec.Path.Value, `"`+"`")
				name := ""
				if spec.Name != nil {
					name = spec.Name.Name
				}
				if name == "_" || name == "." {
					continue
				}
				to := path
				if s, ok := shims[path]; ok {
					to = s
					if name == "" {
						name = shimName[path]
						if name == "" {
							name = path
						}
					}
				}
				if name == "" {
					name = filepath.Base(path)
					name = strings.TrimPrefix(name, "go-")
				}
				imports[name] = to
			}
		}
	}
	// transitive function dependencies
	for changed := true; changed; {
		changed = false
		for _, m := range funcDeps {
			for k := range m {
				for k2 := range funcDeps[k] {
					if !m[k2] {
						m[k2] = true
						changed = true
					}
				}
			}
		}
	}
	owner := map[string]*varDef{}
	for _, d := range defs {
		for _, n := range d.names {
			owner[n] = d
		}
	}
	var order []*varDef
	var visit func(d *varDef, depth int)
	visit = func(d *varDef, depth int) {
		if d.done {
			return
		}
		d.done = true
		var ks []string
		for k := range d.deps {
			ks = append(ks, k)
			for k2 := range funcDeps[k] {
				ks = append(ks, k2)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if o := owner[k]; o != nil && o != d {
				visit(o, depth+1)
			}
		}
		order = append(order, d)
	}
	for _, d := range defs {
		visit(d, 0)
	}
	var body strings.Builder
	used := map[string]bool{}
	for _, d := range order {
		if len(d.names) == 1 && d.names[0] == "_" {
			continue
		}
		if d.rhs == "" {
			fmt.Fprintf(&body, "\t{ var z %s; %s = z }\n", d.typ, d.names[0])
			for name := range imports {
				if strings.Contains(d.typ, name+".") {
					used[name] = true
				}
			}
			continue
		}
		fmt.Fprintf(&body, "\t%s = %s\n", strings.Join(d.names, ", "), d.rhs)
		for k := range d.deps {
			used[k] = true
		}
	}
	for i := 0; i < inits; i++ {
		fmt.Fprintf(&body, "\tsimInit%d()\n", i)
	}
	var head strings.Builder
	head.WriteString("package simmain\n\n")
	var ns []string
	for n := range imports {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if used[n] {
			fmt.Fprintf(&head, "import %s %q\n", n, imports[n])
		}
	}
	return head.String() + "\nfunc SimReset() {\n" + body.String() + "}\n"
}

// overlayRuntime puts the two sources of map iteration order (the per-map
// seed and the iterator's starting offset) under the simulator's seed, and
// fixes the process-wide hash key.
func overlayRuntime(goroot string, emit func(string, []byte)) {
	p := filepath.Join(goroot, "src/runtime/rand.go")
	b, err := os.ReadFile(p)
	if err != nil {
		fatal("%s", err)
	}
	s := string(b)
	const at = "\tmp := getg().m\n\tc := &mp.chacha8\n"
	if strings.Count(s, at) != 1 {
		fatal("runtime/rand.go: unexpected source")
	}
	s = strings.Replace(s, at, `	if simRandOn != 0 {
		z := simRandState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
`+at, 1)
	s += `
var simRandOn uint32
var simRandState uint64

//go:linkname simRandSet
func simRandSet(on uint32, state uint64) uint64 {
	old := simRandState
	simRandState = state
	simRandOn = on
	return old
}
`
	emit(p, []byte(s))

	// Pooled objects of the standard library come and go with the garbage
	// collector (and, in race builds, at random). Without reuse there is
	// nothing to vary.
	emit(filepath.Join(goroot, "src/sync/pool.go"), []byte(`package sync

// A Pool that never keeps anything.
type Pool struct {
	noCopy noCopy
	New    func() any
}

func (p *Pool) Put(x any) {}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
`))
	p = filepath.Join(goroot, "src/internal/runtime/maps/runtime_alg.go")
	b, err = os.ReadFile(p)
	if err != nil {
		fatal("%s", err)
	}
	s = string(b)
	const at2 = "\t\thashkey[i] = uintptr(bootstrapRand())\n\t}\n"
	if strings.Count(s, at2) != 1 {
		fatal("maps/runtime_alg.go: unexpected source")
	}
	s = strings.Replace(s, at2, "\t\t_ = bootstrapRand\n\t\thashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(2*i+1))\n\t}\n\tif hashkey[0] != 0 {\n\t\treturn\n\t}\n", 1)
	emit(p, []byte(s))
}
