// instrument writes the build overlay: yield-instrumented copies of the library's
// sources and hook-carrying copies of a few standard library files.
//
//	instrument REPO OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	text string
	ord  int
}

type site struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Heavy bool   `json:"heavy"`
}

var sites []site

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(2)
}

func instrumentFile(repo, path string) []byte {
	src, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	rel, _ := filepath.Rel(repo, path)
	heavy := strings.Contains(filepath.ToSlash(rel), "edwards25519")
	fn := "Y"
	if heavy {
		fn = "H"
	}
	var list []ins
	add := func(p token.Pos, text string) {
		list = append(list, ins{fset.Position(p).Offset, text, len(list)})
	}
	yield := func(p token.Pos) string {
		id := len(sites)
		sites = append(sites, site{filepath.ToSlash(rel), fset.Position(p).Line, heavy})
		return fmt.Sprintf("verifhook__.%s(%d);", fn, id)
	}
	used := false
	ngo := 0
	stmts := func(l []ast.Stmt) {
		for i, s := range l {
			used = true
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			if heavy && i > 0 && local(s, packageVars(filepath.Dir(path))) {
				continue
			}
			text := yield(s.Pos())
			g, ok := s.(*ast.GoStmt)
			if ok {
				if lit, ok := g.Call.Fun.(*ast.FuncLit); ok {
					ngo++
					v := fmt.Sprintf("verifid__%d", ngo)
					text += v + ":=verifhook__.NewID();"
					add(lit.Body.Lbrace+1, fmt.Sprintf("defer verifhook__.Exit(%s);verifhook__.Enter(%s);", v, v))
				}
			}
			add(s.Pos(), text)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			// the block holds only clauses
			for _, c := range x.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
			skip[x.Body] = true
		case *ast.TypeSwitchStmt:
			for _, c := range x.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
			skip[x.Body] = true
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				stmts(c.(*ast.CommClause).Body)
			}
			skip[x.Body] = true
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				used = true
				add(x.Body.Lbrace+1, yield(x.Body.Lbrace))
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				used = true
				add(x.Body.Lbrace+1, yield(x.Body.Lbrace))
			}
		case *ast.BlockStmt:
			if !skip[x] {
				stmts(x.List)
			}
		}
		return true
	})
	if !used {
		return src
	}
	add(f.Name.End(), `;import verifhook__ "verifsim/hook"`)
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var out []byte
	prev := 0
	for _, i := range list {
		out = append(out, src[prev:i.off]...)
		out = append(out, i.text...)
		prev = i.off
	}
	return append(out, src[prev:]...)
}

// local tells whether a statement is plain arithmetic on parameters and local
// variables: it calls nothing and names no package variable.
func local(s ast.Stmt, vars map[string]bool) bool {
	switch s.(type) {
	case *ast.AssignStmt, *ast.IncDecStmt, *ast.DeclStmt:
	default:
		return false
	}
	ok := true
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, is := x.Fun.(*ast.Ident); !is || !conversions[id.Name] {
				ok = false
			}
		case *ast.Ident:
			if vars[x.Name] {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		}
		return ok
	})
	return ok
}

var conversions = map[string]bool{"int64": true, "int32": true, "uint64": true, "uint32": true, "int": true, "byte": true, "uint8": true, "int8": true, "uint": true}

var pkgVars = map[string]map[string]bool{}

func packageVars(dir string) map[string]bool {
	if m, ok := pkgVars[dir]; ok {
		return m
	}
	m := map[string]bool{}
	pkgVars[dir] = m
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, p := range names {
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			die("%v", err)
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, n := range sp.(*ast.ValueSpec).Names {
						m[n.Name] = true
					}
				}
			}
		}
	}
	return m
}

var skip = map[*ast.BlockStmt]bool{}

func main() {
	if len(os.Args) != 3 {
		die("usage: instrument REPO OUTDIR")
	}
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		base := filepath.Base(p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "examples" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") || base == "const.go" {
			return nil
		}
		dst := filepath.Join(out, "lib", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
			return err
		}
		replace[p] = dst
		return os.WriteFile(dst, instrumentFile(repo, p), 0644)
	})
	if err != nil {
		die("%v", err)
	}
	stdOverlay(filepath.Join(out, "std"), replace)
	write := func(name string, v interface{}) {
		b, err := json.Marshal(v)
		if err == nil {
			err = os.WriteFile(filepath.Join(out, name), b, 0644)
		}
		if err != nil {
			die("%v", err)
		}
	}
	write("overlay.json", map[string]interface{}{"Replace": replace})
	write("sites.json", sites)
	fmt.Printf("instrumented %d sites\n", len(sites))
}

type edit struct{ old, new string }

func stdOverlay(out string, replace map[string]string) {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go env: %v", err)
	}
	root := filepath.Join(strings.TrimSpace(string(b)), "src")
	patch := func(file string, edits ...edit) {
		src, err := os.ReadFile(filepath.Join(root, file))
		if err != nil {
			die("%v", err)
		}
		s := string(src)
		for _, e := range edits {
			if strings.Count(s, e.old) != 1 {
				die("%s: anchor %q found %d times", file, e.old, strings.Count(s, e.old))
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		dst := filepath.Join(out, file)
		if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(dst, []byte(s), 0644); err != nil {
			die("%v", err)
		}
		replace[filepath.Join(root, file)] = dst
	}
	create := func(file, s string) {
		dst := filepath.Join(out, file)
		os.MkdirAll(filepath.Dir(dst), 0755)
		if err := os.WriteFile(dst, []byte(s), 0644); err != nil {
			die("%v", err)
		}
		replace[filepath.Join(root, file)] = dst
	}

	// Map iteration order and map seeds come from the run's stream.
	patch("runtime/rand.go", edit{"func maps_rand() uint64 {\n", "func maps_rand() uint64 {\n\tif VerifMapRand != nil && getg().bubble != nil {\n\t\treturn VerifMapRand()\n\t}\n"})
	create("runtime/zz_verif.go", `package runtime

// VerifMapRand, when set, supplies map randomness inside a synctest bubble.
var VerifMapRand func() uint64

//go:nosplit
//go:norace
func VerifGoID() uint64 { return getg().goid }

func VerifInBubble() bool { return getg().bubble != nil }

// VerifSetOwner names the calling goroutine; goroutines it starts inherit the name.
//
//go:norace
func VerifSetOwner(id uint64) { getg().verifOwner = id }

//go:norace
func VerifOwner() uint64 { return getg().verifOwner }
`)
	patch("runtime/runtime2.go", edit{"\tparentGoid      uint64          // goid of goroutine that created this goroutine\n", "\tparentGoid      uint64          // goid of goroutine that created this goroutine\n\tverifOwner      uint64\n"})
	patch("runtime/proc.go", edit{"\tnewg.parentGoid = callergp.goid\n", "\tnewg.parentGoid = callergp.goid\n\tnewg.verifOwner = callergp.verifOwner\n"})
	// The process-wide hash key is fixed so that large maps iterate the same way
	// in every process; per-map seeds still vary with the run's stream.
	patch("internal/runtime/maps/runtime_alg.go",
		edit{"hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(i+1))"},
		edit{"key[i] = bootstrapRand()", "key[i] = 0xd1342543de82ef95 * uint64(i+3)"})
	// Mutexes block through the scheduler.
	patch("internal/sync/mutex.go",
		edit{"\tif atomic.CompareAndSwapInt32(&m.state, 0, mutexLocked) {\n", "\tif atomic.CompareAndSwapInt32(&m.state, 0, mutexLocked) {\n\t\tif VerifHeld != nil {\n\t\t\tVerifHeld(1)\n\t\t}\n"},
		edit{"\t// Slow path (outlined so that the fast path can be inlined)\n\tm.lockSlow()\n", "\tif VerifLock != nil && VerifLock(m.TryLock) {\n\t\treturn\n\t}\n\tm.lockSlow()\n\tif VerifHeld != nil {\n\t\tVerifHeld(1)\n\t}\n"},
		edit{"\tif !atomic.CompareAndSwapInt32(&m.state, old, old|mutexLocked) {\n\t\treturn false\n\t}\n", "\tif !atomic.CompareAndSwapInt32(&m.state, old, old|mutexLocked) {\n\t\treturn false\n\t}\n\tif VerifHeld != nil {\n\t\tVerifHeld(1)\n\t}\n"},
		edit{"func (m *Mutex) Unlock() {\n", "func (m *Mutex) Unlock() {\n\tif VerifHeld != nil {\n\t\tVerifHeld(-1)\n\t}\n"})
	create("internal/sync/zz_verif.go", `package sync

// VerifLock, when set, is given a try-lock function; it returns true once the
// lock has been taken, or false to fall back to blocking.
var VerifLock func(try func() bool) bool

// VerifHeld, when set, is told of every lock the caller takes (1) or gives back (-1).
var VerifHeld func(d int)
`)
	patch("sync/rwmutex.go",
		edit{"func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\tif isync.VerifLock != nil && isync.VerifLock(rw.TryRLock) {\n\t\treturn\n\t}\n"},
		edit{"func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n\tif isync.VerifLock != nil && isync.VerifLock(rw.TryLock) {\n\t\treturn\n\t}\n"},
		edit{"\t\tif rw.readerCount.CompareAndSwap(c, c+1) {\n", "\t\tif rw.readerCount.CompareAndSwap(c, c+1) {\n\t\t\tif isync.VerifHeld != nil {\n\t\t\t\tisync.VerifHeld(1)\n\t\t\t}\n"},
		edit{"func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n\tif isync.VerifHeld != nil {\n\t\tisync.VerifHeld(-1)\n\t}\n"},
		edit{"import (\n", "import (\n\tisync \"internal/sync\"\n"})
	// Pools keep what is put into them until the run ends, whatever the garbage
	// collector and the race detector's dice do.
	patch("sync/pool.go",
		edit{"\t\tif runtime_randn(4) == 0 {\n", "\t\tif false && runtime_randn(4) == 0 {\n"},
		edit{"func poolCleanup() {\n", "func poolCleanup() {\n\tif !verifPoolNow {\n\t\treturn\n\t}\n"})
	create("sync/zz_verif.go", `package sync

import isync "internal/sync"

// VerifSetLock installs the scheduler's lock hook.
func VerifSetLock(f func(try func() bool) bool) { isync.VerifLock = f }

// VerifSetHeld installs the scheduler's account of locks.
func VerifSetHeld(f func(d int)) { isync.VerifHeld = f }

var verifPoolNow bool

// VerifPoolReset empties all pools.
//
//go:norace
func VerifPoolReset() {
	verifPoolNow = true
	poolCleanup()
	poolCleanup()
	verifPoolNow = false
}
`)
	// Network.
	patch("net/http/roundtrip.go", edit{"\treturn t.roundTrip(req)\n", "\tif VerifRoundTrip != nil {\n\t\treturn VerifRoundTrip(req)\n\t}\n\treturn t.roundTrip(req)\n"})
	create("net/http/zz_verif.go", `package http

// VerifRoundTrip, when set, replaces every HTTP exchange of the process.
var VerifRoundTrip func(*Request) (*Response, error)
`)
	// Processes.
	patch("os/exec/exec.go",
		edit{"func (c *Cmd) Start() error {\n", "func (c *Cmd) Start() error {\n\tif VerifStart != nil {\n\t\treturn VerifStart(c)\n\t}\n"},
		edit{"func (c *Cmd) Wait() error {\n", "func (c *Cmd) Wait() error {\n\tif VerifWait != nil {\n\t\treturn VerifWait(c)\n\t}\n"},
		edit{"\t\treturn nil, errors.New(\"exec: StdoutPipe after process started\")\n\t}\n", "\t\treturn nil, errors.New(\"exec: StdoutPipe after process started\")\n\t}\n\tif VerifStart != nil {\n\t\tp := verifPipe(c)\n\t\tc.Stdout = p\n\t\treturn p.reader(), nil\n\t}\n"},
		edit{"\t\treturn nil, errors.New(\"exec: StderrPipe after process started\")\n\t}\n", "\t\treturn nil, errors.New(\"exec: StderrPipe after process started\")\n\t}\n\tif VerifStart != nil {\n\t\tp := verifPipe(c)\n\t\tc.Stderr = p\n\t\treturn p.reader(), nil\n\t}\n"})
	create("os/exec/zz_verif.go", `package exec

import (
	"context"
	"io"
	"os"
	"sync"
)

// VerifStart and VerifWait, when set, replace real processes.
var VerifStart, VerifWait func(*Cmd) error

// VerifWoken, when set, is called by a reader that a simulated process has woken.
var VerifWoken func()

// VerifDone, when set, ends all waiting.
var VerifDone <-chan struct{}

// vpipe connects a simulated process to its parent.
type vpipe struct {
	mu     sync.Mutex
	b      []byte
	eof    bool
	gone   bool
	change chan struct{}
}

type vreader struct{ p *vpipe }

func verifPipe(c *Cmd) *vpipe {
	p := &vpipe{change: make(chan struct{})}
	c.childIOFiles = append(c.childIOFiles, p)
	c.parentIOPipes = append(c.parentIOPipes, p.reader())
	return p
}

func (p *vpipe) reader() vreader { return vreader{p} }

func (p *vpipe) update(f func()) {
	p.mu.Lock()
	f()
	close(p.change)
	p.change = make(chan struct{})
	p.mu.Unlock()
}

func (p *vpipe) Write(b []byte) (int, error) {
	p.update(func() { p.b = append(p.b, b...) })
	return len(b), nil
}

func (p *vpipe) Close() error {
	p.update(func() { p.eof = true })
	return nil
}

func (r vreader) Read(b []byte) (int, error) {
	p := r.p
	for {
		p.mu.Lock()
		n := copy(b, p.b)
		p.b = p.b[n:]
		eof, gone, change := p.eof, p.gone, p.change
		p.mu.Unlock()
		switch {
		case gone:
			return 0, os.ErrClosed
		case n > 0 || len(b) == 0:
			return n, nil
		case eof:
			return 0, io.EOF
		}
		select {
		case <-change:
		case <-VerifDone:
			return 0, io.ErrUnexpectedEOF
		}
		if VerifWoken != nil {
			VerifWoken()
		}
	}
}

func (r vreader) Close() error {
	r.p.update(func() { r.p.gone = true })
	return nil
}

// VerifParentClose closes the parent's ends, as Wait does.
func VerifParentClose(c *Cmd) { closeDescriptors(c.parentIOPipes); c.parentIOPipes = nil }

// VerifCtx exposes the command's context.
func VerifCtx(c *Cmd) context.Context { return c.ctx }

// VerifChildClose closes the child's ends of pipes the parent created.
func VerifChildClose(c *Cmd) { closeDescriptors(c.childIOFiles); c.childIOFiles = nil }
`)
	// Disk.
	patch("os/file_posix.go",
		edit{"\tn, err = f.pfd.Read(b)\n", "\tif VerifRead != nil {\n\t\treturn VerifRead(f.name, b, f.pfd.Read)\n\t}\n\tn, err = f.pfd.Read(b)\n"},
		edit{"\tn, err = f.pfd.Pread(b, off)\n", "\tif VerifRead != nil {\n\t\treturn VerifRead(f.name, b, func(b []byte) (int, error) { return f.pfd.Pread(b, off) })\n\t}\n\tn, err = f.pfd.Pread(b, off)\n"},
		edit{"\tn, err = f.pfd.Write(b)\n", "\tif VerifWrite != nil {\n\t\treturn VerifWrite(f.name, b, f.pfd.Write)\n\t}\n\tn, err = f.pfd.Write(b)\n"},
		edit{"\treturn f.file.close()\n", "\tif VerifClosed != nil {\n\t\tVerifClosed(f)\n\t}\n\tif VerifClose != nil {\n\t\treturn VerifClose(f.name, f.file.close)\n\t}\n\treturn f.file.close()\n"})
	patch("os/file.go",
		edit{"\ttestlog.Open(name)\n\tf, err := openFileNolog(name, flag, perm)\n", "\ttestlog.Open(name)\n\tif VerifOpen != nil {\n\t\tif err := VerifOpen(name, flag); err != nil {\n\t\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: err}\n\t\t}\n\t}\n\tf, err := openFileNolog(name, flag, perm)\n\tif err == nil && VerifOpened != nil {\n\t\tVerifOpened(f)\n\t}\n"})
	patch("os/file_unix.go",
		edit{"func Remove(name string) error {\n", "func Remove(name string) error {\n\tif VerifRemove != nil {\n\t\tVerifRemove(name)\n\t}\n"})
	create("os/zz_verif.go", `package os

import "syscall"

var (
	VerifRead  func(name string, b []byte, do func([]byte) (int, error)) (int, error)
	VerifWrite func(name string, b []byte, do func([]byte) (int, error)) (int, error)
	VerifClose func(name string, do func() error) error
	VerifOpen  func(name string, flag int) error
	VerifOpened func(f *File)
	VerifClosed func(f *File)
	VerifRemove func(name string)
)

// VerifProcessState makes the state of a simulated process.
func VerifProcessState(status int) *ProcessState {
	return &ProcessState{pid: 4242, status: syscall.WaitStatus(status), rusage: &syscall.Rusage{}}
}
`)
}
