// vgen builds the simulated workspace: it copies the modules under test (and a
// few third party modules with concurrency in them), rewrites goroutine starts,
// channel operations, select statements, map iteration and some imports so that
// the simulator in /verif/sim decides them, and writes a go.work beside them.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Standard   bool
	Module     *struct {
		Path, Version, Dir string
	}
}

type target struct {
	modPath string // module path
	srcDir  string
	dstDir  string
	own     bool // a module under test (preemption points, per process variables)
	name    string
	only    []string // instrument only these packages, copy the others
}

var (
	fset    = token.NewFileSet()
	pkgs    = map[string]*listPkg{}
	subst   map[string]string
	repo    string
	out     string
	verif   string
	goflags []string
)

// third party modules that are copied and instrumented as well
var thirdParty = []struct {
	path string
	only []string
}{
	{path: "github.com/allegro/bigcache/v3"},
	{path: "go.etcd.io/bbolt"},
	{path: "github.com/hashicorp/raft"},
	{path: "github.com/hashicorp/raft-boltdb/v2"},
	{path: "github.com/Jille/raft-grpc-transport"},
	{path: "github.com/ncw/directio"},
	{path: "go.etcd.io/etcd/client/v3", only: []string{"go.etcd.io/etcd/client/v3/concurrency"}},
	{path: "github.com/klauspost/compress", only: []string{"github.com/klauspost/compress/s2"}},
}

// import substitutions: original path -> package of the simulator
var substitutions = map[string]string{
	"sync":                      "verifsim/simsync",
	"os":                        "verifsim/simos",
	"os/signal":                 "verifsim/simsignal",
	"math/rand":                 "verifsim/simrand",
	"crypto/rand":               "verifsim/simcrand",
	"net/http":                  "verifsim/simhttp",
	"golang.org/x/net/http2":    "verifsim/simhttp2",
	"google.golang.org/grpc":    "verifsim/simgrpc",
	"go.etcd.io/etcd/client/v3": "verifsim/simetcd",
}

// substitutions made in the modules under test only
var ownSubstitutions = map[string]string{
	"github.com/dgraph-io/badger/v3":     "verifsim/simbadger",
	"github.com/shirou/gopsutil/v3/disk": "verifsim/simdisk",
	"github.com/shirou/gopsutil/v3/cpu":  "verifsim/simcpu",
	"github.com/shirou/gopsutil/v3/mem":  "verifsim/simmem",
	"syscall":                            "verifsim/simsyscall",
	"golang.org/x/sys/unix":              "verifsim/simunix",
	"github.com/hashicorp/go-hclog":      "verifsim/simhclog",
}

// aliases: simulator package -> original package whose remaining exported
// names are forwarded
var aliasOf = map[string]string{
	"simos":      "os",
	"simsignal":  "os/signal",
	"simrand":    "math/rand",
	"simcrand":   "crypto/rand",
	"simhttp":    "net/http",
	"simhttp2":   "golang.org/x/net/http2",
	"simgrpc":    "google.golang.org/grpc",
	"simetcd":    "go.etcd.io/etcd/client/v3",
	"simsync":    "sync",
	"simbadger":  "github.com/dgraph-io/badger/v3",
	"simdisk":    "github.com/shirou/gopsutil/v3/disk",
	"simcpu":     "github.com/shirou/gopsutil/v3/cpu",
	"simmem":     "github.com/shirou/gopsutil/v3/mem",
	"simsyscall": "syscall",
	"simunix":    "golang.org/x/sys/unix",
	"simhclog":   "github.com/hashicorp/go-hclog",
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vgen: "+f+"\n", a...)
	os.Exit(3)
}

func check(err error) {
	if err != nil {
		_, file, line, _ := runtime.Caller(1)
		die("%s:%d: %v", filepath.Base(file), line, err)
	}
}

func main() {
	if len(os.Args) != 4 {
		die("usage: vgen REPO VERIF OUT")
	}
	repo, verif, out = os.Args[1], os.Args[2], os.Args[3]
	subst = substitutions
	ws := out
	check(os.MkdirAll(ws, 0o755))

	// 1. workspace on the original sources, for type information
	work, err := os.ReadFile(filepath.Join(repo, "go.work"))
	check(err)
	var mods []string
	for _, l := range strings.Split(string(work), "\n") {
		l = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l), "use "))
		if strings.HasPrefix(strings.TrimPrefix(l, "./"), "src/") {
			mods = append(mods, strings.TrimPrefix(l, "./"))
		}
	}
	orig := filepath.Join(ws, "orig")
	check(os.MkdirAll(orig, 0o755))
	var b strings.Builder
	b.WriteString("go 1.25\n\nuse (\n")
	for _, m := range mods {
		fmt.Fprintf(&b, "\t%s\n", filepath.Join(repo, m))
	}
	b.WriteString(")\n")
	writeIfChanged(filepath.Join(orig, "go.work"), []byte(b.String()))
	sum1, err := os.ReadFile(filepath.Join(repo, "go.work.sum"))
	check(err)
	sum2, err := os.ReadFile(filepath.Join(verif, "vgen", "base.sum"))
	check(err)
	sums := mergeSums(string(sum1), string(sum2))
	writeIfChanged(filepath.Join(orig, "go.work.sum"), []byte(sums))

	var patterns []string
	for _, m := range mods {
		patterns = append(patterns, filepath.Join(repo, m)+"/...")
	}
	list := exec.Command("go", append([]string{"list", "-deps", "-export", "-json=Dir,ImportPath,Name,Export,GoFiles,CgoFiles,Imports,Standard,Module"}, patterns...)...)
	list.Env = append(os.Environ(), "GOWORK="+filepath.Join(orig, "go.work"), "GOFLAGS=-tags=verif")
	list.Dir = repo
	var stderr bytes.Buffer
	list.Stderr = &stderr
	outb, err := list.Output()
	if err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(outb))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			check(err)
		}
		q := p
		pkgs[p.ImportPath] = &q
	}

	// 2. targets
	var targets []target
	for _, m := range mods {
		name := filepath.Base(m)
		targets = append(targets, target{modPath: name, srcDir: filepath.Join(repo, m), dstDir: filepath.Join(ws, "src", name), own: true, name: name})
	}
	for _, e := range thirdParty {
		tp := e.path
		dir := ""
		for _, p := range pkgs {
			if p.Module != nil && p.Module.Path == tp {
				dir = p.Module.Dir
			}
		}
		if dir == "" {
			continue // no longer used
		}
		name := strings.NewReplacer("/", "_", ".", "_").Replace(tp)
		targets = append(targets, target{modPath: tp, srcDir: dir, dstDir: filepath.Join(ws, "third", name), name: name, only: e.only})
	}

	// 3. instrument
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	keep := map[string]bool{}
	var keepMu sync.Mutex
	for _, t := range targets {
		copyTree(t, keep)
	}
	var ips []string
	for ip := range pkgs {
		ips = append(ips, ip)
	}
	sort.Strings(ips)
	for _, ip := range ips {
		p := pkgs[ip]
		if p.Module == nil {
			continue
		}
		for _, t := range targets {
			if p.Module.Path != t.modPath {
				continue
			}
			wg.Add(1)
			go func(p *listPkg, t target) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				files := instrument(p, t)
				keepMu.Lock()
				for f, c := range files {
					keep[f] = true
					c = knobs(t.modPath, f, c)
					writeIfChanged(f, c)
				}
				keepMu.Unlock()
			}(p, t)
		}
	}
	wg.Wait()

	// 4. the simulator, with forwarding declarations
	simDst := filepath.Join(ws, "sim")
	copyDir(filepath.Join(verif, "sim"), simDst, keep)
	for sp, op := range aliasOf {
		f := filepath.Join(simDst, sp, "zz_alias.go")
		src := aliasFile(filepath.Join(verif, "sim", sp), sp, op)
		if src == nil {
			continue
		}
		keep[f] = true
		writeIfChanged(f, src)
	}
	copyDir(filepath.Join(verif, "harness"), filepath.Join(ws, "harness"), keep)
	// adapters: extra files placed inside the modules under test
	ad := filepath.Join(verif, "adapters")
	if _, err := os.Stat(ad); err == nil {
		copyDir(ad, filepath.Join(ws, "src"), keep)
	}

	// 5. stale files
	for _, d := range []string{"src", "third", "sim", "harness"} {
		filepath.WalkDir(filepath.Join(ws, d), func(p string, e fs.DirEntry, err error) error {
			if err == nil && !e.IsDir() && !keep[p] {
				os.Remove(p)
			}
			return nil
		})
	}

	// 6. go.work
	b.Reset()
	b.WriteString("go 1.25\n\nuse (\n\t./sim\n\t./harness\n")
	for _, m := range mods {
		fmt.Fprintf(&b, "\t./src/%s\n", filepath.Base(m))
	}
	b.WriteString(")\n\n")
	for _, t := range targets {
		if !t.own {
			fmt.Fprintf(&b, "replace %s => ./third/%s\n", t.modPath, t.name)
		}
	}
	writeIfChanged(filepath.Join(ws, "go.work"), []byte(b.String()))
	writeIfChanged(filepath.Join(ws, "go.work.sum"), []byte(sums))
}

func mergeSums(a, b string) string {
	set := map[string]bool{}
	for _, s := range []string{a, b} {
		for _, l := range strings.Split(s, "\n") {
			if strings.TrimSpace(l) != "" {
				set[l] = true
			}
		}
	}
	var ls []string
	for l := range set {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n") + "\n"
}

func writeIfChanged(f string, c []byte) {
	old, err := os.ReadFile(f)
	if err == nil && bytes.Equal(old, c) {
		return
	}
	check(os.MkdirAll(filepath.Dir(f), 0o755))
	os.Remove(f)
	check(os.WriteFile(f, c, 0o644))
}

func copyDir(src, dst string, keep map[string]bool) {
	filepath.WalkDir(src, func(p string, e fs.DirEntry, err error) error {
		check(err)
		if e.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		c, err := os.ReadFile(p)
		check(err)
		d := filepath.Join(dst, rel)
		keep[d] = true
		writeIfChanged(d, c)
		return nil
	})
}

// copyTree copies everything of a module except test files and instrumented Go files.
func copyTree(t target, keep map[string]bool) {
	instr := map[string]bool{}
	for _, p := range pkgs {
		if p.Module != nil && p.Module.Path == t.modPath {
			for _, f := range p.GoFiles {
				instr[filepath.Join(p.Dir, f)] = true
			}
		}
	}
	filepath.WalkDir(t.srcDir, func(p string, e fs.DirEntry, err error) error {
		check(err)
		if e.IsDir() {
			if n := e.Name(); p != t.srcDir && (n == "testdata" || n == ".git" || n == "node_modules" || n == "ui" || n == "test" || strings.HasPrefix(n, "_")) {
				return filepath.SkipDir
			}
			if p != t.srcDir {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !e.Type().IsRegular() || strings.HasSuffix(p, "_test.go") || instr[p] {
			return nil
		}
		rel, _ := filepath.Rel(t.srcDir, p)
		d := filepath.Join(t.dstDir, rel)
		if strings.HasSuffix(p, ".go") {
			return nil // excluded by build constraints
		}
		if !t.own && rel != "go.mod" && rel != "go.sum" && !strings.HasSuffix(rel, ".s") && !strings.HasSuffix(rel, ".h") {
			return nil
		}
		if i, err := e.Info(); err == nil && i.Size() > 4<<20 {
			return nil
		}
		c, err := os.ReadFile(p)
		check(err)
		if rel == "go.mod" {
			c = goDirective.ReplaceAllFunc(c, func(m []byte) []byte {
				minor, _ := strconv.Atoi(string(goDirective.FindSubmatch(m)[1]))
				if minor < 20 { // generic calls need 1.18; 1.20 keeps the old loop variables
					return []byte("go 1.20")
				}
				return m
			})
		}
		keep[d] = true
		writeIfChanged(d, c)
		return nil
	})
}

var goDirective = regexp.MustCompile(`(?m)^go 1\.(\d+)\S*$`)

var expMu sync.Mutex

func newImporter() types.Importer {
	return importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
}

func instrument(p *listPkg, t target) map[string][]byte {
	res := map[string][]byte{}
	if t.only != nil && !slices.Contains(t.only, p.ImportPath) {
		rel, err := filepath.Rel(t.srcDir, p.Dir)
		check(err)
		for _, f := range p.GoFiles {
			c, err := os.ReadFile(filepath.Join(p.Dir, f))
			check(err)
			res[filepath.Join(t.dstDir, rel, f)] = c
		}
		return res
	}
	fs := token.NewFileSet()
	rel, err := filepath.Rel(t.srcDir, p.Dir)
	check(err)
	dst := filepath.Join(t.dstDir, rel)
	var files []*ast.File
	var names []string
	raw := map[string][]byte{}
	for _, f := range p.GoFiles {
		c, err := os.ReadFile(filepath.Join(p.Dir, f))
		check(err)
		raw[f] = c
		a, err := parser.ParseFile(fs, filepath.Join(p.Dir, f), c, parser.SkipObjectResolution)
		if err != nil {
			die("parse: %v", err)
		}
		files = append(files, a)
		names = append(names, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: newImporter(), Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, fs, files, info)
	if err != nil {
		die("type-check %s: %v", p.ImportPath, err)
	}
	ins := &instr{info: info, pkg: tp, own: t.own, p: p, target: t}
	type verb struct{ name string }
	inits := make([]string, len(info.InitOrder))
	perFile := map[int][]ast.Decl{}
	skipFile := map[int]bool{}
	for i, n := range names {
		s := string(raw[n])
		if strings.Contains(s, "//go:embed") || strings.Contains(s, "//go:linkname") {
			skipFile[i] = true
		}
	}
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return i
			}
		}
		return -1
	}
	ownGlobals := t.own && !isGenerated(p.ImportPath)
	for i, f := range files {
		if skipFile[i] {
			continue
		}
		ins.file = f
		ins.gen = strings.HasSuffix(names[i], "_gen.go") || strings.HasSuffix(names[i], ".pb.go")
		ins.rewriteFile(f)
	}
	var regs, uinits []string
	if ownGlobals {
		// init functions run again for every simulated process
		for i, f := range files {
			if skipFile[i] || ins.generatedFile(names[i]) {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Name.Name != "init" {
					continue
				}
				fn := fmt.Sprintf("verifUserInit%d", len(uinits))
				fd.Name = ast.NewIdent(fn)
				uinits = append(uinits, fn)
				perFile[i] = append(perFile[i], &ast.FuncDecl{
					Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent(fn))}}},
				})
			}
		}
		seen := map[string]bool{}
		for k, in := range info.InitOrder {
			fi := fileOf(in.Rhs.Pos())
			if fi < 0 || skipFile[fi] || ins.generatedFile(names[fi]) {
				continue
			}
			lhs := make([]ast.Expr, 0, len(in.Lhs))
			real := false
			for _, v := range in.Lhs {
				lhs = append(lhs, ast.NewIdent(v.Name()))
				if v.Name() != "_" {
					real = true
				}
			}
			if !real {
				continue
			}
			rhs := in.Rhs
			if r, ok := ins.replaced[rhs]; ok {
				rhs = r
			}
			fn := fmt.Sprintf("verifInit%d", k)
			inits[k] = fn
			perFile[fi] = append(perFile[fi], &ast.FuncDecl{
				Name: ast.NewIdent(fn), Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}},
			})
			for _, v := range in.Lhs {
				seen[v.Name()] = true
			}
		}
		sc := tp.Scope()
		for _, n := range sc.Names() {
			v, ok := sc.Lookup(n).(*types.Var)
			if !ok || n == "_" {
				continue
			}
			fi := fileOf(v.Pos())
			if fi < 0 || skipFile[fi] || ins.generatedFile(names[fi]) {
				continue
			}
			regs = append(regs, n)
			_ = seen
		}
		var g bytes.Buffer
		fmt.Fprintf(&g, "package %s\n\nimport vsim \"verifsim\"\n\n", p.Name)
		fmt.Fprintf(&g, "func init() {\n\tvsim.RegisterGlobals(%q, %q, func() {\n", t.name, p.ImportPath)
		for _, n := range regs {
			if !seen[n] {
				fmt.Fprintf(&g, "\t\tvsim.Zero(&%s)\n", n)
			}
		}
		for _, fn := range inits {
			if fn != "" {
				fmt.Fprintf(&g, "\t\t%s()\n", fn)
			}
		}
		for _, fn := range uinits {
			fmt.Fprintf(&g, "\t\t%s()\n", fn)
		}
		g.WriteString("\t}")
		for _, n := range regs {
			fmt.Fprintf(&g, ", vsim.Var(&%s)", n)
		}
		g.WriteString(")\n}\n")
		if len(regs)+len(uinits) > 0 {
			res[filepath.Join(dst, "zz_verif_globals.go")] = g.Bytes()
		}
	}
	for i, f := range files {
		d := filepath.Join(dst, names[i])
		if skipFile[i] {
			res[d] = raw[names[i]]
			continue
		}
		f.Decls = append(f.Decls, perFile[i]...)
		var buf bytes.Buffer
		// build constraints are satisfied already; language version comes from go.mod
		if err := format.Node(&buf, fs, f); err != nil {
			die("print %s: %v", d, err)
		}
		res[d] = buf.Bytes()
	}
	return res
}

func isGenerated(ip string) bool { return strings.HasSuffix(ip, "/proto/pb") }

// aliasFile forwards every exported name of package op that the hand written
// files in dir do not define.
func aliasFile(dir, name, op string) []byte {
	if _, err := os.Stat(dir); err != nil {
		return nil
	}
	defined := map[string]bool{}
	ents, err := os.ReadDir(dir)
	check(err)
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
		check(err)
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					defined[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						defined[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							defined[n.Name] = true
						}
					}
				}
			}
		}
	}
	if pkgs[op] == nil {
		die("package %s not in the build", op)
	}
	tp, err := newImporter().Import(op)
	check(err)
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport orig %q\n\n", name, op)
	used := false
	for _, n := range tp.Scope().Names() {
		o := tp.Scope().Lookup(n)
		if !o.Exported() || defined[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = orig.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = orig.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = orig.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = orig.%s\n", n, n)
		}
		used = true
	}
	if !used {
		return nil
	}
	return b.Bytes()
}

// knobs makes the log compaction settings of the raft library adjustable: the
// servers leave them at the library's defaults, which need thousands of writes.
func knobs(mod, file string, src []byte) []byte {
	if mod != "github.com/hashicorp/raft" || filepath.Base(file) != "config.go" {
		return src
	}
	for _, k := range []string{"TrailingLogs", "SnapshotThreshold"} {
		re := regexp.MustCompile(`(\b` + k + `:\s*)(\d+),`)
		if !re.Match(src) {
			die("no default for %s in %s", k, file)
		}
		src = re.ReplaceAll(src, []byte(`${1}uint64(vsim.Knob("raft.`+k+`", ${2})),`))
	}
	re := regexp.MustCompile(`(\bSnapshotInterval:\s*)(120 \* time.Second),`)
	src = re.ReplaceAll(src, []byte(`${1}time.Duration(vsim.Knob("raft.SnapshotInterval", int(${2}))),`))
	if !strings.Contains(string(src), `vsim "verifsim"`) {
		src = []byte(strings.Replace(string(src), "package raft\n", "package raft\n\nimport vsim \"verifsim\"\n", 1))
	}
	return src
}
