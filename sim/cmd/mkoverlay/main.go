// Command mkoverlay writes the -overlay file the simulator is built with.
//
// It produces two kinds of replacement, both outside /repo and GOROOT:
//
//   - every non-test Go file of the repository under test, with a call to
//     rt.S() before each statement (the simulator's step / yield point) and
//     with "sync" replaced by the simulator's cooperative version;
//   - the four places in the toolchain's standard library (and one in x/sys)
//     where nondeterminism enters: the system call gate, the wall clock, the
//     runtime's random numbers, and the startup hash seed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+format+"\n", a...)
	os.Exit(2)
}

type insertion struct {
	off  int
	del  int
	text string
}

func instrument(path string) ([]byte, int) {
	src, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	var ins []insertion
	add := func(p token.Pos, text string) {
		ins = append(ins, insertion{off: fset.Position(p).Offset, text: text})
	}
	n := 0
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(s.Pos(), "simrt.S();")
			n++
		}
	}
	ast.Inspect(f, func(node ast.Node) bool {
		switch x := node.(type) {
		case *ast.BlockStmt:
			// the body of a switch or select holds clauses, not statements
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			if len(x.List) == 0 {
				return true
			}
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		}
		return true
	})
	// loops with an empty body must still count steps
	ast.Inspect(f, func(node ast.Node) bool {
		var body *ast.BlockStmt
		switch x := node.(type) {
		case *ast.ForStmt:
			body = x.Body
		case *ast.RangeStmt:
			body = x.Body
		}
		if body != nil {
			add(body.Lbrace+1, "simrt.S();")
			n++
		}
		return true
	})
	for _, imp := range f.Imports {
		p, _ := strconv.Unquote(imp.Path.Value)
		if p == "sync" {
			text := `"verifsim/simsync"`
			if imp.Name == nil {
				text = `sync "verifsim/simsync"`
			}
			ins = append(ins, insertion{
				off: fset.Position(imp.Path.Pos()).Offset, del: len(imp.Path.Value), text: text})
		}
	}
	add(f.Name.End(), `; import simrt "verifsim/rt"`)
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out []byte
	last := 0
	for _, in := range ins {
		out = append(out, src[last:in.off]...)
		out = append(out, in.text...)
		last = in.off + in.del
	}
	out = append(out, src[last:]...)
	out = append(out, "\nvar _ = simrt.S\n"...)
	return out, n
}

type edit struct{ old, new string }

func patch(path string, edits ...edit) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	s := string(b)
	for _, e := range edits {
		if strings.Count(s, e.old) != 1 {
			die("%s: expected exactly one %q", path, e.old)
		}
		s = strings.Replace(s, e.old, e.new, 1)
	}
	return []byte(s)
}

func rewrite(path string, body []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, body, 0644); err != nil {
		die("%v", err)
	}
}

func copyFile(from, to string) {
	b, err := os.ReadFile(from)
	if err != nil {
		die("%v", err)
	}
	rewrite(to, b)
}

func copyDir(from, to string) {
	list, err := os.ReadDir(from)
	if err != nil {
		die("%v", err)
	}
	for _, e := range list {
		if e.Type().IsRegular() && !strings.HasSuffix(e.Name(), "_test.go") {
			copyFile(filepath.Join(from, e.Name()), filepath.Join(to, e.Name()))
		}
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "directory for the overlay")
	goroot := flag.String("goroot", runtime.GOROOT(), "")
	xsys := flag.String("xsys", "", "directory of golang.org/x/sys")
	modfile := flag.String("mod", "go.mod", "the simulator's go.mod")
	plain := flag.Bool("plain", false, "do not instrument the repository")
	flag.Parse()
	repl := map[string]string{}
	put := func(target string, body []byte) {
		name := filepath.Join(*out, fmt.Sprintf("%03d_%s", len(repl), filepath.Base(target)))
		if err := os.WriteFile(name, body, 0644); err != nil {
			die("%v", err)
		}
		repl[target] = name
	}
	src := filepath.Join(*goroot, "src")
	p := filepath.Join(src, "syscall/syscall_linux.go")
	put(p, patch(p,
		edit{`//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()`, `// SimHook, when set, sees every system call that is not a raw one.
var SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno, handled bool)

//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if h := SimHook; h != nil {
		if r1, r2, err, ok := h(trap, a1, a2, a3, 0, 0, 0); ok {
			return r1, r2, err
		}
	}
	return simRealSyscall(trap, a1, a2, a3)
}

//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if h := SimHook; h != nil {
		if r1, r2, err, ok := h(trap, a1, a2, a3, a4, a5, a6); ok {
			return r1, r2, err
		}
	}
	return simRealSyscall6(trap, a1, a2, a3, a4, a5, a6)
}

//go:uintptrkeepalive
//go:nosplit
func simRealSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()`},
		edit{`//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall6
func Syscall6(`, `//go:uintptrkeepalive
//go:nosplit
func simRealSyscall6(`}))
	p = filepath.Join(src, "syscall/zsyscall_linux_amd64.go")
	put(p, patch(p, edit{`func Umask(mask int) (oldmask int) {
`, `func Umask(mask int) (oldmask int) {
	if h := SimHook; h != nil {
		if r, _, _, ok := h(SYS_UMASK, uintptr(mask), 0, 0, 0, 0, 0); ok {
			return int(r)
		}
	}
`}, edit{`func Getpid() (pid int) {
`, `func Getpid() (pid int) {
	if h := SimHook; h != nil {
		if r, _, _, ok := h(SYS_GETPID, 0, 0, 0, 0, 0, 0); ok {
			return int(r)
		}
	}
`}))
	p = filepath.Join(src, "time/time.go")
	put(p, patch(p, edit{`func Now() Time {
`, `func Now() Time {
	if h := SimNow; h != nil {
		s, n := h()
		return Unix(s, n)
	}
`}, edit{`func unixTime(sec int64, nsec int32) Time {`, `// SimNow, when set, is the only wall clock.
var SimNow func() (sec, nsec int64)

func unixTime(sec int64, nsec int32) Time {`}))
	p = filepath.Join(src, "runtime/rand.go")
	put(p, patch(p, edit{`func rand() uint64 {
`, `func rand() uint64 {
	if simRandOn {
		simRandState += 0x9e3779b97f4a7c15
		z := simRandState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
`}, edit{`	seed := &globalRand.seed
	if len(startupRand) >= 16 &&`, `	seed := &globalRand.seed
	if true {
		seed[0] = 1 // fixed hash keys: map order depends only on SimRand
	} else if len(startupRand) >= 16 &&`}, edit{`var readRandomFailed bool
`, `var readRandomFailed bool

var (
	simRandOn    bool
	simRandState uint64
)

// SimRand makes the runtime's random numbers (map order, temporary file
// names) a function of seed.
func SimRand(on bool, seed uint64) { simRandOn, simRandState = on, seed }

// SimRandState returns what SimRand would have to be told to go on from here.
func SimRandState() (bool, uint64) { return simRandOn, simRandState }

// simFill makes the entropy of the operating system.
//
//go:linkname simFill crypto/internal/sysrand.simFill
func simFill(b []byte) bool {
	if !simRandOn {
		return false
	}
	for i := range b {
		b[i] = byte(rand() >> 32)
	}
	return true
}

var simProcs int

// SimProcs sets how many processors the program finds, without giving it any.
func SimProcs(n int) { simProcs = n }

// SimGoid returns the number of the calling goroutine.
func SimGoid() uint64 { return uint64(getg().goid) }
`}))
	p = filepath.Join(src, "runtime/debug.go")
	put(p, patch(p, edit{`func GOMAXPROCS(n int) int {
`, `func GOMAXPROCS(n int) int {
	if n <= 0 && simProcs > 0 {
		return simProcs
	}
`}))
	p = filepath.Join(src, "crypto/internal/sysrand/rand.go")
	put(p, patch(p, edit{`var testingOnlyFailRead bool
`, `var testingOnlyFailRead bool

//go:linkname simFill
func simFill(b []byte) bool
`}, edit{`func Read(b []byte) {
`, `func Read(b []byte) {
	if simFill(b) {
		return
	}
`}))
	if *xsys != "" {
		// the module cache cannot be overlaid, so a copy takes its place
		dst := filepath.Join(*out, "xsys")
		for _, d := range []string{"unix", "cpu"} {
			copyDir(filepath.Join(*xsys, d), filepath.Join(dst, d))
		}
		copyFile(filepath.Join(*xsys, "go.mod"), filepath.Join(dst, "go.mod"))
		p := filepath.Join(dst, "unix/asm_linux_amd64.s")
		rewrite(p, patch(p,
			edit{`TEXT ·Syscall(SB),NOSPLIT,$0-56
	JMP	syscall·Syscall(SB)
`, ""}, edit{`TEXT ·Syscall6(SB),NOSPLIT,$0-80
	JMP	syscall·Syscall6(SB)
`, ""}))
		p = filepath.Join(dst, "unix/zsyscall_linux.go")
		rewrite(p, patch(p, edit{`func Umask(mask int) (oldmask int) {
	r0, _ := RawSyscallNoError(SYS_UMASK, uintptr(mask), 0, 0)
	oldmask = int(r0)
	return
}`, `func Umask(mask int) (oldmask int) { return syscall.Umask(mask) }`}))
		p = filepath.Join(dst, "unix/syscall_unix_gc.go")
		rewrite(p, patch(p,
			edit{`func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno)
`, `//go:uintptrescapes
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return syscall.Syscall(trap, a1, a2, a3)
}

`}, edit{`func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno)
func Raw`, `//go:uintptrescapes
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	return syscall.Syscall6(trap, a1, a2, a3, a4, a5, a6)
}

func Raw`}))
		mod, err := os.ReadFile(*modfile)
		if err != nil {
			die("%v", err)
		}
		abs, _ := filepath.Abs(*repo)
		text := strings.Replace(string(mod), "=> /repo", "=> "+abs, 1)
		text += "\nreplace golang.org/x/sys => " + dst + "\n"
		rewrite(filepath.Join(*out, "go.mod"), []byte(text))
		copyFile(strings.TrimSuffix(*modfile, ".mod")+".sum", filepath.Join(*out, "go.sum"))
	}
	points := 0
	if !*plain {
		err := filepath.WalkDir(*repo, func(path string, d os.DirEntry, err error) error {
			if err != nil {
				return err
			}
			if d.IsDir() {
				if n := d.Name(); path != *repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
					return filepath.SkipDir
				}
				return nil
			}
			if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") {
				body, n := instrument(path)
				points += n
				put(path, body)
			}
			return nil
		})
		if err != nil {
			die("%v", err)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%d\n", points)
}
