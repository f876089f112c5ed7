// Package instr generates the build overlay: instrumented copies of the
// library's non-generated source files and the runtime files that put the
// toolchain's own randomness behind the simulator's seed.
package instr

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Options select what to rewrite.
type Options struct {
	Repo, GOROOT, Out string
	RewriteGo         bool
	RewriteSync       bool
}

// Result describes the generated overlay.
type Result struct {
	Overlay string
	Sites   []string // site id -> file:line
	Files   int
}

type insertion struct {
	off  int
	del  int
	text string
}

// Generate writes the overlay into o.Out.
func Generate(o Options) (*Result, error) {
	repl := map[string]string{}
	res := &Result{Sites: []string{"-"}}
	if err := os.MkdirAll(o.Out, 0o755); err != nil {
		return nil, err
	}
	if err := runtimeOverlay(o, repl); err != nil {
		return nil, err
	}
	var files []string
	err := filepath.Walk(o.Repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if b == ".git" || b == "baseparser" || b == "testdata" || (strings.HasPrefix(b, ".") && p != o.Repo) {
				return filepath.SkipDir
			}
			if p != o.Repo {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	for i, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		head := src
		if len(head) > 600 {
			head = head[:600]
		}
		if strings.Contains(string(head), "Code generated") {
			continue
		}
		out, ok, err := o.file(p, src, res)
		if err != nil {
			return nil, err
		}
		if !ok {
			continue
		}
		dst := filepath.Join(o.Out, fmt.Sprintf("f%03d_%s", i, filepath.Base(p)))
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return nil, err
		}
		repl[p] = dst
		res.Files++
	}
	if err := os.WriteFile(filepath.Join(o.Out, "sites.txt"), []byte(strings.Join(res.Sites, "\n")), 0o644); err != nil {
		return nil, err
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	res.Overlay = filepath.Join(o.Out, "overlay.json")
	return res, os.WriteFile(res.Overlay, js, 0o644)
}

func (o Options) file(path string, src []byte, res *Result) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	if f.Name.Name == "main" || f.Name.Name == "documentation" {
		return nil, false, nil
	}
	rel, _ := filepath.Rel(o.Repo, path)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ins []insertion
	yield := func(p token.Pos) {
		id := len(res.Sites)
		res.Sites = append(res.Sites, fmt.Sprintf("%s:%d", rel, fset.Position(p).Line))
		ins = append(ins, insertion{off: off(p), text: fmt.Sprintf("zzsimrt.Y(%d);", id)})
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			yield(s.Pos())
		}
	}
	usesGo := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				yield(n.Body.Rbrace)
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				yield(n.Body.Rbrace)
			}
		case *ast.GoStmt:
			if o.RewriteGo {
				usesGo = true
				text := func(e ast.Node) string { return string(src[off(e.Pos()):off(e.End())]) }
				_ = text
				c := n.Call
				if len(c.Args) == 0 {
					ins = append(ins, insertion{off: off(n.Pos()), del: 2, text: "zzsimrt.GoCall(func(){"})
					ins = append(ins, insertion{off: off(c.End()), text: "})"})
				} else {
					// { zzf := F; zza0 := A0; ...; GoCall(func(){ zzf(zza0,...) }) }
					ins = append(ins, insertion{off: off(n.Pos()), del: 2, text: "{ zzf := "})
					ins = append(ins, insertion{off: off(c.Lparen), del: 1, text: "; "})
					var names []string
					for i, a := range c.Args {
						names = append(names, fmt.Sprintf("zza%d", i))
						ins = append(ins, insertion{off: off(a.Pos()), text: fmt.Sprintf("zza%d := ", i)})
						end := off(a.End())
						stop := off(c.Rparen)
						if i+1 < len(c.Args) {
							stop = off(c.Args[i+1].Pos())
						}
						ins = append(ins, insertion{off: end, del: stop - end, text: "; "})
					}
					ell := ""
					if c.Ellipsis.IsValid() {
						ell = "..."
					}
					ins = append(ins, insertion{off: off(c.Rparen), del: 1, text: fmt.Sprintf("zzsimrt.GoCall(func(){ zzf(%s%s) }) }", strings.Join(names, ","), ell)})
				}
			}
		}
		return true
	})
	_ = usesGo
	if o.RewriteSync {
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				t := `"verifsim/simsync"`
				if im.Name == nil {
					t = "sync " + t
				}
				ins = append(ins, insertion{off: off(im.Path.Pos()), del: len(im.Path.Value), text: t})
			}
		}
	}
	if len(ins) == 0 {
		return nil, false, nil
	}
	ins = append(ins, insertion{off: off(f.Name.End()), text: `; import zzsimrt "verifsim/simrt"`})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b strings.Builder
	pos := 0
	for _, in := range ins {
		if in.off < pos {
			return nil, false, fmt.Errorf("%s: overlapping insertion at offset %d", path, in.off)
		}
		b.Write(src[pos:in.off])
		b.WriteString(in.text)
		pos = in.off + in.del
	}
	b.Write(src[pos:])
	return []byte(b.String()), true, nil
}

func runtimeOverlay(o Options, repl map[string]string) error {
	patch := func(rel string, edits [][2]string) error {
		p := filepath.Join(o.GOROOT, "src", rel)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		s := string(b)
		for _, e := range edits {
			if strings.Count(s, e[0]) != 1 {
				return fmt.Errorf("toolchain overlay: anchor %q found %d times in %s", e[0], strings.Count(s, e[0]), p)
			}
			s = strings.Replace(s, e[0], e[1], 1)
		}
		dst := filepath.Join(o.Out, strings.ReplaceAll(rel, "/", "_"))
		if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
			return err
		}
		repl[p] = dst
		return nil
	}
	if err := patch("runtime/rand.go", [][2]string{
		{"\tglobalRand.state.Init(*seed)", "\tfor i := range seed {\n\t\tseed[i] = byte(i*7 + 3)\n\t}\n\tglobalRand.state.Init(*seed)"},
		{"func rand() uint64 {\n", "func rand() uint64 {\n\tif gp := getg(); gp.labels != nil || gp.goid == 1 {\n\t\treturn simNext()\n\t}\n"},
	}); err != nil {
		return err
	}
	zz := filepath.Join(o.Out, "runtime_zz_sim.go")
	if err := os.WriteFile(zz, []byte(zzSim), 0o644); err != nil {
		return err
	}
	repl[filepath.Join(o.GOROOT, "src/runtime/zz_sim.go")] = zz
	// sync.Pool without reuse: the toolchain's pools otherwise create
	// happens-before edges between unrelated tasks and drop items at random.
	pp := filepath.Join(o.GOROOT, "src/sync/pool.go")
	b, err := os.ReadFile(pp)
	if err != nil {
		return err
	}
	s := string(b)
	body := func(sig, nb string) error {
		i := strings.Index(s, sig)
		if i < 0 {
			return fmt.Errorf("toolchain overlay: %q not found in %s", sig, pp)
		}
		j := strings.Index(s[i:], "\n}\n")
		if j < 0 {
			return fmt.Errorf("toolchain overlay: end of %q not found", sig)
		}
		s = s[:i] + sig + nb + s[i+j:]
		return nil
	}
	if err := body("func (p *Pool) Put(x any) {", ""); err != nil {
		return err
	}
	if err := body("func (p *Pool) Get() any {", "\n\tif p.New != nil {\n\t\treturn p.New()\n\t}\n\treturn nil"); err != nil {
		return err
	}
	s += "\nvar _ = race.Enabled\n"
	dst := filepath.Join(o.Out, "sync_pool.go")
	if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
		return err
	}
	repl[pp] = dst
	return nil
}

const zzSim = `package runtime

var simState uint64 = 0x9e3779b97f4a7c15

//go:nosplit
func simNext() uint64 {
	simState += 0x9e3779b97f4a7c15
	z := simState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimSeed sets the seed of the simulated random stream.
func SimSeed(s uint64) { simState = s }

// SimGoid returns the id of the current goroutine.
//
//go:nosplit
func SimGoid() uint64 { return getg().goid }

// SimAcquire waits on a raw semaphore, invisible to the race detector.
func SimAcquire(addr *uint32) { semacquire(addr) }

// SimRelease is its counterpart.
func SimRelease(addr *uint32) { semrelease(addr) }
`
