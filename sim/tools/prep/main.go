// prep generates the build overlay of the simulation worker:
//
//   - the Go runtime and a few std packages, patched so that the scheduler,
//     the clock, randomness, the network and signals are decided by the
//     simulator (exact-match edits; prep fails if the text is not found),
//   - every non-test file of /repo with a scheduling point in front of every
//     statement,
//   - cmd/vanflow-tool as importable packages,
//   - a copy of go-amqp with the simulated router beside its internal codec.
//
// Nothing in /repo is written.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct{ old, new string }

type filePatch struct {
	file  string
	edits []edit
}

var stdPatches = []filePatch{
	{"runtime/proc.go", []edit{
		{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
		{"const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
		{"	// If there's a runnext, it's the next G to run.\n	next := pp.runnext\n",
			"	if sim.on {\n		gp, _ = simRunqget(pp)\n		return gp, false\n	}\n	// If there's a runnext, it's the next G to run.\n	next := pp.runnext\n"},
	}},
	{"runtime/select.go", []edit{
		{"		j := cheaprandn(uint32(norder + 1))\n",
			"		var j uint32\n		if simActive() {\n			j = simSelRand(uint32(norder + 1))\n		} else {\n			j = cheaprandn(uint32(norder + 1))\n		}\n"},
	}},
	{"runtime/time.go", []edit{
		// with the race detector: no ordering between a timer and all timers
		// created before, only between its creation and its firing
		{"		if tsLocal.raceCtx == 0 {\n", "		if sim.on && bubble != nil && tsLocal.raceCtx != 0 {\n			racectxend(tsLocal.raceCtx)\n			tsLocal.raceCtx = 0\n		}\n		if tsLocal.raceCtx == 0 {\n"},
		{"			t.rand = cheaprand()\n", "			t.rand = cheaprand()\n			if sim.on {\n				t.rand = simSelRand(1 << 31)\n			}\n"},
	}},
	{"sync/pool.go", []edit{
		// with the race detector: nothing is pooled, so that formatting a log
		// line orders nobody
		{"		if runtime_randn(4) == 0 {\n", "		if race.Enabled {\n"},
	}},
	{"runtime/rand.go", []edit{
		{"	mp := getg().m\n	c := &mp.chacha8\n", "	if sim.on && getg().bubble != nil {\n		return simRand()\n	}\n	mp := getg().m\n	c := &mp.chacha8\n"},
		{"	globalRand.state.Init(*seed)\n", "	for i := range seed {\n		seed[i] = byte(i*7 + 1)\n	}\n	globalRand.state.Init(*seed)\n"},
	}},
	{"runtime/runtime2.go", []edit{
		{"	waitReasonSynctestRun:           true,\n", "	waitReasonSynctestRun:           true,\n	waitReasonSyncMutexLock:         true,\n	waitReasonSyncRWMutexRLock:      true,\n	waitReasonSyncRWMutexLock:       true,\n	waitReasonSyncWaitGroupWait:     true,\n	waitReasonSemacquire:            true,\n"},
	}},
	{"runtime/sema.go", []edit{
		{"func internal_sync_nanotime() int64 {\n	return nanotime()\n}", "func internal_sync_nanotime() int64 {\n	if b := getg().bubble; b != nil {\n		return b.now\n	}\n	return nanotime()\n}"},
	}},
	{"net/dial.go", []edit{
		{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
			"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if SimDial != nil {\n		return SimDial(ctx, network, address)\n	}\n"},
		{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
			"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if SimListen != nil {\n		return SimListen(ctx, network, address)\n	}\n"},
	}},
	{"os/file.go", []edit{
		{"func (f *File) Write(b []byte) (n int, err error) {\n", "func (f *File) Write(b []byte) (n int, err error) {\n	if SimWrite != nil && f == SimStdout {\n		return SimWrite(b)\n	}\n"},
	}},
	{"os/proc.go", []edit{
		{"func Exit(code int) {\n", "func Exit(code int) {\n	if SimExit != nil {\n		SimExit(code)\n	}\n"},
	}},
	{"os/signal/signal.go", []edit{
		{"func Notify(c chan<- os.Signal, sig ...os.Signal) {\n", "func Notify(c chan<- os.Signal, sig ...os.Signal) {\n	if SimNotify != nil {\n		SimNotify(c, sig...)\n		return\n	}\n"},
		{"func Stop(c chan<- os.Signal) {\n", "func Stop(c chan<- os.Signal) {\n	if SimNotify != nil {\n		return\n	}\n"},
	}},
}

var stdNew = map[string]string{
	"net/zz_sim.go":       "package net\n\nimport \"context\"\n\n// SimDial and SimListen replace the network when set.\nvar SimDial func(ctx context.Context, network, address string) (Conn, error)\nvar SimListen func(ctx context.Context, network, address string) (Listener, error)\n",
	"os/zz_sim.go":        "package os\n\n// SimWrite replaces writes to SimStdout when set.\nvar SimWrite func(b []byte) (int, error)\nvar SimStdout *File\n\n// SimExit is told of an exit before it happens.\nvar SimExit func(code int)\n",
	"os/signal/zz_sim.go": "package signal\n\nimport \"os\"\n\n// SimNotify replaces signal delivery when set.\nvar SimNotify func(c chan<- os.Signal, sig ...os.Signal)\n",
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "prep: "+format+"\n", args...)
	os.Exit(2)
}

func read(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	return b
}

func write(path string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		fatal("%v", err)
	}
	if old, err := os.ReadFile(path); err == nil && string(old) == string(b) {
		return // keep the timestamp, keep the build cache
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func goenv(name string) string {
	out, err := exec.Command("go", "env", name).Output()
	if err != nil {
		fatal("go env %s: %v", name, err)
	}
	return strings.TrimSpace(string(out))
}

type insertion struct {
	off  int
	text string
}

// instrument puts a scheduling point in front of every statement. lines are
// not moved. rename, when set, is the new package name.
func instrument(path string, src []byte, rename string, argsID string) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		// let the compiler report it
		return src
	}
	var ins []insertion
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			ins = append(ins, insertion{off(s.Pos()), "__simrt.SimYield(); "})
		}
	}
	type repl struct {
		from, to int
		text     string
	}
	var repls []repl
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				ins = append(ins, insertion{off(n.Body.Lbrace) + 1, " __simrt.SimYield(); "})
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				ins = append(ins, insertion{off(n.Body.Lbrace) + 1, " __simrt.SimYield(); "})
			}
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.CallExpr:
			// X.Parse(os.Args[1:]): flags parsed before the simulation begins are parsed again
			if sel, ok := n.Fun.(*ast.SelectorExpr); ok && argsID != "" && sel.Sel.Name == "Parse" && len(n.Args) == 1 {
				args := string(src[off(n.Args[0].Pos()):off(n.Args[0].End())])
				if strings.Contains(args, "os.Args") {
					x := string(src[off(sel.X.Pos()):off(sel.X.End())])
					if x == "flag" {
						x = "flag.CommandLine"
					}
					repls = append(repls, repl{off(sel.X.Pos()), off(sel.X.End()), "__simargs.Flags(\"" + argsID + "\", " + x + ")"})
				}
			}
		case *ast.SelectorExpr:
			if argsID != "" {
				if id, ok := n.X.(*ast.Ident); ok && id.Name == "os" && n.Sel.Name == "Args" {
					repls = append(repls, repl{off(n.Pos()), off(n.End()), "__simargs.For(\"" + argsID + "\")"})
				}
			}
		}
		return true
	})
	head := "; import __simrt \"runtime\""
	if argsID != "" {
		head += "; import __simargs \"vsim/simargs\""
	}
	ins = append(ins, insertion{off(f.Name.End()), head})
	for _, r := range repls {
		ins = append(ins, insertion{r.from, r.text + "\x00" + fmt.Sprint(r.to)})
	}
	if rename != "" {
		ins = append(ins, insertion{off(f.Name.Pos()), rename + "\x00" + fmt.Sprint(off(f.Name.End()))})
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out []byte
	pos := 0
	for _, in := range ins {
		text, end, isRepl := strings.Cut(in.text, "\x00")
		out = append(out, src[pos:in.off]...)
		out = append(out, text...)
		pos = in.off
		if isRepl {
			fmt.Sscan(end, &pos)
		}
	}
	out = append(out, src[pos:]...)
	tail := "\nvar _ = __simrt.SimYield\n"
	if argsID != "" {
		tail += "var _ = __simargs.For\n"
	}
	return append(out, tail...)
}

func main() {
	if len(os.Args) != 4 {
		fatal("usage: prep REPO SIMDIR BUILDDIR")
	}
	repo, simdir, build := os.Args[1], os.Args[2], os.Args[3]
	goroot := goenv("GOROOT")
	modcache := goenv("GOMODCACHE")
	replace := map[string]string{}

	for _, p := range stdPatches {
		src := string(read(filepath.Join(goroot, "src", p.file)))
		for _, e := range p.edits {
			if strings.Count(src, e.old) != 1 {
				fatal("%s: expected exactly one %q, found %d", p.file, e.old, strings.Count(src, e.old))
			}
			src = strings.Replace(src, e.old, e.new, 1)
		}
		dst := filepath.Join(build, "std", p.file)
		write(dst, []byte(src))
		replace[filepath.Join(goroot, "src", p.file)] = dst
	}
	for name, text := range stdNew {
		dst := filepath.Join(build, "std", name)
		write(dst, []byte(text))
		replace[filepath.Join(goroot, "src", name)] = dst
	}
	{
		dst := filepath.Join(build, "std", "runtime/zz_sim.go")
		write(dst, read(filepath.Join(simdir, "patches/zsim_runtime.go.txt")))
		replace[filepath.Join(goroot, "src", "runtime/zz_sim.go")] = dst
	}

	// the code under test
	err := filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if d.IsDir() {
			if rel != "." && (strings.HasPrefix(d.Name(), ".") || d.Name() == "testdata" || d.Name() == "vancap" || d.Name() == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src := read(path)
		dst := filepath.Join(build, "repo", rel)
		write(dst, instrument(path, src, "", ""))
		replace[path] = dst
		if filepath.Dir(rel) == filepath.Join("cmd", "vanflow-tool") {
			for _, id := range []string{"a", "b", "c"} {
				pkg := "simtool" + id
				dst := filepath.Join(build, "tool", pkg, filepath.Base(path))
				write(dst, instrument(path, src, pkg, id))
				replace[filepath.Join(repo, "zz_"+pkg, filepath.Base(path))] = dst
			}
		}
		return nil
	})
	if err != nil {
		fatal("%v", err)
	}
	for _, id := range []string{"a", "b", "c"} {
		pkg := "simtool" + id
		dst := filepath.Join(build, "tool", pkg, "zz_export.go")
		write(dst, []byte("package "+pkg+"\n\n// Main runs the tool.\nfunc Main() { main() }\n"))
		replace[filepath.Join(repo, "zz_"+pkg, "zz_export.go")] = dst
	}

	// go-amqp with the router beside its codec
	amqp := filepath.Join(modcache, "github.com/!azure/go-amqp@v1.0.4")
	dstRoot := filepath.Join(build, "go-amqp")
	err = filepath.WalkDir(amqp, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(amqp, path)
		if d.IsDir() {
			if n := d.Name(); rel != "." && (strings.HasPrefix(n, ".") || n == "test" || n == "fake" || n == "testconn") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(path, "_test.go") || !(strings.HasSuffix(path, ".go") || d.Name() == "go.mod" || d.Name() == "LICENSE") {
			return nil
		}
		src := string(read(path))
		if rel == filepath.Join("internal", "shared", "shared.go") {
			const seed = "rand.NewSource(time.Now().UnixNano())"
			if strings.Count(src, seed) != 1 {
				fatal("go-amqp shared.go changed")
			}
			src = strings.Replace(src, seed, "rand.NewSource(42)", 1)
			src = strings.Replace(src, "\t\"time\"\n", "", 1)
		}
		write(filepath.Join(dstRoot, rel), []byte(src))
		return nil
	})
	if err != nil {
		fatal("%v", err)
	}
	routers, _ := filepath.Glob(filepath.Join(simdir, "_simrouter", "*.go"))
	for _, r := range routers {
		write(filepath.Join(dstRoot, "simrouter", filepath.Base(r)), read(r))
	}

	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	write(filepath.Join(build, "overlay.json"), b)

	// the worker's module file: paths of this machine, versions of /repo
	mod := string(read(filepath.Join(simdir, "go.mod")))
	mod = strings.ReplaceAll(mod, "=> /repo", "=> "+repo)
	mod = strings.ReplaceAll(mod, "=> ../.build/go-amqp", "=> "+dstRoot)
	write(filepath.Join(build, "go.mod"), []byte(mod))
	write(filepath.Join(build, "go.sum"), read(filepath.Join(simdir, "go.sum")))
}
