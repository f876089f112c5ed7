package scen

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/substrait-io/substrait"
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/testcases/parser"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/eng"
	"verifsim/fix"
	"verifsim/obs"
)

func init() {
	register("C02", Scenario{Name: "default-collection", Weight: 3, Fresh: true, Run: c02Default})
	register("C02", Scenario{Name: "first-use", Weight: 2, Fresh: true, Run: c02FirstUse})
	register("C02", Scenario{Name: "dialect", Weight: 1, Run: c02Dialect})
}

var urnLine = regexp.MustCompile(`(?m)^urn: *"?(extension:[^\s"]+)"?\s*$`)
var scalarName = regexp.MustCompile(`(?m)^ {0,4}-? *name: *"?([a-z_0-9]+)"?\s*$`)

// stdFile is one of the embedded standard files and a few names found in its text.
type stdFile struct {
	name, urn string
	data      []byte
	names     []string
}

// stdFiles reads the embedded standard files without the library.
func stdFiles() []stdFile {
	fs := substrait.GetSubstraitExtensionsFS()
	ents, err := fs.ReadDir("extensions")
	if err != nil {
		panic(err)
	}
	var out []stdFile
	for _, ent := range ents {
		if ent.Name() == "unknown.yaml" {
			continue // not supported by the library
		}
		data, err := fs.ReadFile("extensions/" + ent.Name())
		if err != nil {
			panic(err)
		}
		f := stdFile{name: ent.Name(), data: data}
		if m := urnLine.FindSubmatch(data); m != nil {
			f.urn = string(m[1])
		}
		for _, m := range scalarName.FindAllSubmatch(data, -1) {
			f.names = append(f.names, string(m[1]))
		}
		sort.Strings(f.names)
		out = append(out, f)
	}
	return out
}

// loadAlone loads the standard files one by one into a collection of its own,
// trying again those whose dependencies are not there yet.
func loadAlone(fs []stdFile) (*extensions.Collection, error) {
	var c extensions.Collection
	left := append([]stdFile{}, fs...)
	for len(left) > 0 {
		var next []stdFile
		var last error
		for _, f := range left {
			if err := c.Load(bytes.NewReader(f.data)); err != nil {
				next, last = append(next, f), fmt.Errorf("%s: %w", f.name, err)
			}
		}
		if len(next) == len(left) {
			return nil, last
		}
		left = next
	}
	return &c, nil
}

// c02Probe asks a collection a few questions about the standard files.
type c02Probe struct {
	urns  []string
	names []string
	list  bool
}

func (p c02Probe) ask(c *extensions.Collection) string {
	var sb strings.Builder
	for i, u := range p.urns {
		fmt.Fprintf(&sb, "%s %v ", u, c.URNLoaded(u))
		if md := c.GetFileMetadata(u); len(md) > 0 {
			sb.WriteString(obs.Dump(md))
		}
		sb.WriteString(obs.Dump(urnView(c, u, names{funcs: []string{p.names[i]}, types: []string{p.names[i]}, variations: []string{p.names[i]}}, false)))
	}
	if p.list {
		fmt.Fprint(&sb, len(c.GetAllScalarFunctions()), len(c.GetAllAggregateFunctions()), len(c.GetAllWindowFunctions()))
	}
	return sb.String()
}

func drawProbe(e *eng.Ep, fs []stdFile) c02Probe {
	p := c02Probe{list: e.Bool("ops", 1, 2)}
	for i := 1 + e.Int("ops", 3); i > 0; i-- {
		f := fs[e.Int("ops", len(fs))]
		p.urns = append(p.urns, f.urn)
		n := ""
		if len(f.names) > 0 {
			n = f.names[e.Int("ops", len(f.names))]
		}
		p.names = append(p.names, n)
	}
	return p
}

// c02Default: the first calls for the default collection of a process come
// from several tasks, which use what they get at once.
func c02Default(e *eng.Ep) {
	fs := stdFiles()
	n := 2 + e.Int("ops", 3)
	type out struct {
		c   []*extensions.Collection
		txt []string
		err error
	}
	outs := make([]out, n)
	// what every task will ask, as a function of the collection it gets
	asks := make([]func(*extensions.Collection) string, n)
	var fns []func()
	for i := 0; i < n; i++ {
		p := drawProbe(e, fs)
		k := e.Int("ops", 5)
		reps := 1 + e.Int("ops", 2)
		ask := p.ask
		if k == 3 {
			ask = func(c *extensions.Collection) string {
				r := functions.NewFunctionRegistry(c)
				var l []string
				for _, f := range r.GetScalarFunctionsByName("add") {
					l = append(l, f.URN()+" "+f.CompoundName())
				}
				sort.Strings(l)
				return fmt.Sprint(len(r.GetAllFunctions()), l)
			}
		}
		build := func(b plan.Builder) string {
			s := b.NamedScan([]string{"t"}, types.NamedStruct{Names: []string{"a"}, Struct: types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{&types.Int64Type{Nullability: types.NullabilityRequired}}}})
			x, err := b.RootFieldRef(s, 0)
			if err != nil {
				return errText(err)
			}
			f, err := b.ScalarFn("extension:io.substrait:functions_arithmetic", "add:i64_i64", nil, x, x)
			if err != nil {
				return errText(err)
			}
			r, err := b.Project(s, f)
			if err != nil {
				return errText(err)
			}
			pl, err := b.Plan(r, []string{"a", "b"})
			if err != nil {
				return errText(err)
			}
			return planText(pl)
		}
		if k == 4 {
			ask = func(c *extensions.Collection) string { return build(plan.NewBuilder(c)) }
		}
		asks[i] = ask
		e.Trace("task %d: %d, %d times, %v %v", i, k, reps, p.urns, p.names)
		fns = append(fns, func() {
			for j := 0; j < reps; j++ {
				if k == 4 {
					outs[i].txt = append(outs[i].txt, build(plan.NewBuilderDefault()))
					continue
				}
				var c *extensions.Collection
				var err error
				if k == 2 {
					c = extensions.GetDefaultCollectionWithNoError()
				} else {
					c, err = extensions.GetDefaultCollection()
				}
				outs[i].c = append(outs[i].c, c)
				if err != nil {
					outs[i].err = err
					return
				}
				outs[i].txt = append(outs[i].txt, ask(c))
			}
		})
	}
	e.Concurrent(130000, fns)
	if e.Failed() {
		return
	}
	final, err := extensions.GetDefaultCollection()
	if err != nil || final == nil {
		e.Fail("mismatch", "default-later", "a later call got %v, %v", final, err)
		return
	}
	ref, err := loadAlone(fs)
	if err != nil {
		e.Fail("mismatch", "default-files", "a standard file does not load: %v", err)
		return
	}
	for i := range outs {
		if outs[i].err != nil {
			e.Fail("mismatch", "default-error", "task %d: the first use failed: %v", i, outs[i].err)
			return
		}
		for _, c := range outs[i].c {
			if c != final {
				e.Fail("mismatch", "default-other", "task %d got another collection than a later call", i)
				return
			}
		}
		want := asks[i](ref)
		for j, s := range outs[i].txt {
			e.Digest(s)
			if s != want {
				e.Fail("mismatch", "default-incomplete", "task %d, call %d: files loaded alone / first use: %s", i, j, firstDiff(want, s))
				return
			}
		}
	}
	if a, b := listView(ref), listView(final); len(a) != len(b) {
		e.Fail("mismatch", "default-files", "functions under %d URNs, the standard files have %d", len(b), len(a))
	} else if q, s := diffLists(a, b); s != "" {
		e.Fail("mismatch", "default-functions", "%s: %s", q, s)
	}
}

// c02FirstUse: whatever the library sets up on demand is first needed by
// several tasks at once in a process that has done nothing yet.
func c02FirstUse(e *eng.Ep) {
	type fop struct {
		name string
		run  func() string
	}
	withDialect := e.Bool("cfg", 1, 3)
	var coll *extensions.Collection
	var m *dlModel
	var d functions.Dialect
	if withDialect {
		coll = fix.Sim()
		m = drawDialect(e, coll, false)
		var err error
		d, err = functions.LoadDialect("x", strings.NewReader(m.Text))
		if err != nil {
			e.Fail("mismatch", "dialect-load", "loading a dialect failed: %v\n%s", err, m.Text)
			return
		}
	}
	tf := drawTestFile(e)
	s := &opSpec{cat: nil}
	draw := func() fop {
		k := e.Int("ops", 7)
		if withDialect && e.Bool("ops", 1, 2) {
			k = 7 + e.Int("ops", 3)
		}
		switch k {
		case 0, 1:
			txt := typeTexts[e.Int("ops", len(typeTexts))]
			return fop{"parse " + txt, func() string { return s.parseText(txt) }}
		case 2:
			txt := []string{"i8", "i32?", "string", "varchar<5>", "decimal<10,2>", "precision_timestamp<6>", "timestamp", "list<i32>", "interval_day<4>", "nope"}[e.Int("ops", 10)]
			return fop{"type " + txt, func() string {
				t, err := functions.NewTypeRegistry().GetTypeFromTypeString(txt)
				if err != nil {
					return "error"
				}
				return obs.Dump(t)
			}}
		case 3:
			k, txt, n, null := drawLiteral(e)
			return fop{fmt.Sprintf("literal %d %q", k, txt), func() string { return litText(literalOf(k, txt, n, null)) }}
		case 4:
			return fop{"test file", func() string {
				t, err := parser.ParseTestCasesFromString(tf.Text)
				if err != nil {
					return "error"
				}
				return testFileView(t)
			}}
		case 5:
			f := fix.Files[0]
			return fop{"load " + f.URN, func() string {
				var c extensions.Collection
				if err := c.Load(iotest.OneByteReader(strings.NewReader(f.Text))); err != nil {
					return "error"
				}
				return obs.Dump(listView(&c))
			}}
		case 6:
			t, v := e.Int("ops", 10), e.Bool("ops", 1, 2)
			return fop{"names", func() string {
				var sb strings.Builder
				for _, n := range []types.TypeName{"i8", "boolean", "decimal", "varchar", "interval_year", "uuid", "nope", "date", "struct", "map"}[t:] {
					fmt.Fprint(&sb, types.GetShortTypeName(n), " ")
					x, err := types.SimpleTypeNameToType(n)
					fmt.Fprint(&sb, err == nil)
					if err == nil {
						sb.WriteString(obs.Dump(x.WithNullability(types.NullabilityNullable)))
					}
				}
				if v {
					sb.WriteString(expr.NewPrimitiveLiteral(int32(t), v).String())
				}
				return sb.String()
			}}
		case 7:
			return fop{"local types", func() string {
				r, err := d.GetLocalTypeRegistry()
				if err != nil {
					return "error"
				}
				return m.checkTypes(r)
			}}
		case 8:
			return fop{"localize types", func() string {
				r, err := d.LocalizeTypeRegistry(functions.NewTypeRegistry())
				if err != nil {
					return "error"
				}
				return m.checkTypes(r)
			}}
		}
		return fop{"localize functions", func() string { return m.check(d, coll, functions.NewFunctionRegistry(coll)) }}
	}
	n := 2 + e.Int("ops", 3)
	all := make([][]fop, n)
	got := make([][]string, n)
	var fns []func()
	for i := 0; i < n; i++ {
		for j := 1 + e.Int("ops", 3); j > 0; j-- {
			o := draw()
			e.Trace("task %d: %s", i, o.name)
			all[i] = append(all[i], o)
		}
		got[i] = make([]string, len(all[i]))
		fns = append(fns, func() {
			for j, o := range all[i] {
				got[i][j] = obs.Call(o.run)
			}
		})
	}
	e.Concurrent(6000, fns)
	if e.Failed() {
		return
	}
	for i := range all {
		for j, o := range all[i] {
			e.Digest(got[i][j])
			kind, _, _ := strings.Cut(o.name, " ")
			if want := obs.Call(o.run); got[i][j] != want {
				e.Fail("mismatch", "first-use:"+kind, "task %d, %s: first / later: %s", i, o.name, firstDiff(got[i][j], want))
				return
			}
			if d != nil && (o.name == "local types" || strings.HasPrefix(o.name, "localize")) && got[i][j] != "" {
				e.Fail("mismatch", "first-use:dialect", "task %d, %s: %s\n%s", i, o.name, got[i][j], m.Text)
				return
			}
		}
	}
}

// c02Dialect: the type registry of a new dialect is first used by several
// tasks; every call must give the complete one.
func c02Dialect(e *eng.Ep) {
	coll := fix.Sim()
	m := drawDialect(e, coll, false)
	d, err := functions.LoadDialect("x", strings.NewReader(m.Text))
	if err != nil {
		e.Fail("mismatch", "dialect-load", "loading a dialect failed: %v\n%s", err, m.Text)
		return
	}
	reg := functions.NewFunctionRegistry(coll)
	n := 2 + e.Int("ops", 4)
	res := make([]string, n)
	regs := make([]functions.LocalTypeRegistry, n)
	var fns []func()
	for i := 0; i < n; i++ {
		k := e.Int("ops", 4)
		fns = append(fns, func() {
			var err error
			switch k {
			case 0, 1:
				regs[i], err = d.GetLocalTypeRegistry()
			case 2:
				regs[i], err = d.LocalizeTypeRegistry(functions.NewTypeRegistry())
			default:
				res[i] = m.check(d, coll, reg)
				return
			}
			if err != nil {
				res[i] = "the type registry failed: " + err.Error()
				return
			}
			res[i] = m.checkTypes(regs[i])
		})
	}
	e.Concurrent(4000, fns)
	for i, s := range res {
		if s != "" {
			e.Fail("mismatch", "dialect-first", "task %d: %s\n%s", i, s, m.Text)
			return
		}
	}
	for i := range regs {
		if regs[i] != nil {
			if s := m.checkTypes(regs[i]); s != "" {
				e.Fail("mismatch", "dialect-later", "registry of task %d, later: %s\n%s", i, s, m.Text)
				return
			}
		}
	}
}
