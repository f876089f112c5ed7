package scen

import (
	"fmt"
	"sort"
	"strings"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/eng"
	"verifsim/fix"
)

// genFn is the model of one implementation in a generated extension file.
type genFn struct {
	Kind, Name, Compound, Desc, Null string
	Args                             []genArg
	Ret                              types.Type
	Options                          map[string][]string
	Det, Sess, Ordered               bool
	MaxSet                           int
	Decomp, WinType                  string
	Inter                            string
	VarMin, VarMax                   int
	Variadic                         bool
	Consist                          string
	Meta                             bool
}

type genArg struct {
	yaml, short string
	concrete    types.Type
	enum        []string
}

// genFile is a generated extension file with its model.
type genFile struct {
	fix.File
	Fns        []genFn
	Types      []string
	Variations []string
	Parents    map[string]string
	Meta       bool
	Names      names
}

func req(t types.Type) types.Type { return t.WithNullability(types.NullabilityRequired) }

var argPool = []genArg{
	{yaml: "i8", short: "i8", concrete: &types.Int8Type{Nullability: types.NullabilityRequired}},
	{yaml: "i32", short: "i32", concrete: &types.Int32Type{Nullability: types.NullabilityRequired}},
	{yaml: "i64", short: "i64", concrete: &types.Int64Type{Nullability: types.NullabilityRequired}},
	{yaml: "fp64", short: "fp64", concrete: &types.Float64Type{Nullability: types.NullabilityRequired}},
	{yaml: "string", short: "str", concrete: &types.StringType{Nullability: types.NullabilityRequired}},
	{yaml: "boolean", short: "bool", concrete: &types.BooleanType{Nullability: types.NullabilityRequired}},
	{yaml: "date", short: "date", concrete: &types.DateType{Nullability: types.NullabilityRequired}},
	{yaml: "any1", short: "any", concrete: &types.Int16Type{Nullability: types.NullabilityRequired}},
	{yaml: "list<i32>", short: "list", concrete: &types.ListType{Type: &types.Int32Type{Nullability: types.NullabilityRequired}, Nullability: types.NullabilityRequired}},
	{yaml: "decimal<P,S>", short: "dec", concrete: &types.DecimalType{Precision: 10, Scale: 2, Nullability: types.NullabilityRequired}},
	{yaml: "varchar<L1>", short: "vchar", concrete: &types.VarCharType{Length: 7, Nullability: types.NullabilityRequired}},
}

var fnNamePool = []string{"add", "scale", "combine", "lookup_x", "f", "sum", "rank", "Add", "toText_2"}
var typeNamePool = []string{"point", "money", "cell", "t", "Polygon"}
var varNamePool = []string{"packed", "view", "v", "Packed"}

// generate draws an extension file.  Names come from small shared pools, so
// files define the same names with different meanings.
func generate(e *eng.Ep, urn string, deps []string) *genFile {
	g := &genFile{File: fix.File{URN: urn, Deps: deps}, Parents: map[string]string{}}
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f, a...) }
	if e.Bool("file", 1, 3) {
		w("%%YAML 1.2\n")
	}
	w("---\nurn: %s\n", urn)
	if len(deps) > 0 {
		w("dependencies:\n")
		for i, d := range deps {
			w("  dep%d: %s\n", i, d)
		}
	}
	if e.Bool("file", 1, 2) {
		g.Meta = true
		w("metadata:\n  owner: %q\n  list: [1, two]\n", urn)
	}
	if n := e.Count("file", 3); n > 0 {
		w("types:\n")
		p := e.Int("file", len(typeNamePool))
		for i := 0; i < n; i++ {
			name := typeNamePool[(p+i)%len(typeNamePool)]
			g.Types = append(g.Types, name)
			w("  - name: %s\n", name)
			if e.Bool("file", 1, 3) {
				w("    structure:\n      a%d: i32\n", e.Int("file", 9))
			}
		}
	}
	if n := e.Count("file", 3); n > 0 {
		w("type_variations:\n")
		p := e.Int("file", len(varNamePool))
		for i := 0; i < n; i++ {
			name := varNamePool[(p+i)%len(varNamePool)]
			par := []string{"string", "i32", "struct"}[e.Int("file", 3)]
			g.Variations = append(g.Variations, name)
			g.Parents[name] = par
			w("  - parent: %s\n    name: %s\n    description: %q\n    functions: %s\n", par, name, urn+name, []string{"INHERITS", "SEPARATE"}[e.Int("file", 2)])
		}
	}
	used := map[string]bool{}
	for _, kind := range []string{"scalar", "aggregate", "window"} {
		n := e.Int("file", 4)
		if kind == "scalar" {
			n++
		}
		if n == 0 {
			continue
		}
		w("%s_functions:\n", kind)
		p := e.Int("file", len(fnNamePool))
		for i := 0; i < n; i++ {
			g.fn(e, w, kind, fnNamePool[(p+i)%len(fnNamePool)], used)
		}
	}
	g.Text = b.String()
	for _, f := range g.Fns {
		g.Names.funcs = append(g.Names.funcs, f.Name, f.Compound)
	}
	g.Names.types, g.Names.variations = append([]string{}, g.Types...), append([]string{}, g.Variations...)
	g.Names.norm()
	return g
}

func (g *genFile) fn(e *eng.Ep, w func(string, ...any), kind, name string, used map[string]bool) {
	meta := e.Bool("file", 1, 4)
	desc := fmt.Sprintf("%s %s of %s", kind, name, g.URN)
	w("  - name: %s\n    description: %q\n", name, desc)
	if meta {
		w("    metadata: {of: %q}\n", g.URN+name)
	}
	w("    impls:\n")
	nimpl := 1 + e.Count("file", 2)
	for i := 0; i < nimpl; i++ {
		var args []genArg
		compound := ""
		for try := 0; ; try++ {
			args = nil
			var sh []string
			na := e.Int("file", 4)
			for k := 0; k < na; k++ {
				var a genArg
				switch x := e.Int("file", 8); {
				case x == 7:
					a = genArg{short: "req", enum: []string{"A", "B"}, concrete: types.CommonEnumType}
				case x == 6 && len(g.Types) > 0:
					t := g.Types[e.Int("file", len(g.Types))]
					a = genArg{yaml: "u!" + t, short: "u!" + t}
				default:
					a = argPool[e.Int("file", len(argPool))]
				}
				args = append(args, a)
				sh = append(sh, a.short)
			}
			compound = name + ":" + strings.Join(sh, "_")
			// window functions share their names with aggregates
			kk := kind
			if kk == "aggregate" {
				kk = "window"
			}
			if !used[kk+compound] || try > 20 {
				if used[kk+compound] {
					compound = ""
				}
				used[kk+compound] = true
				break
			}
		}
		f := genFn{Kind: kind, Name: name, Compound: compound, Args: args, Det: true, Null: "MIRROR", Desc: desc, Meta: meta}
		if compound == "" {
			// the pool of free signatures is exhausted: a last distinct one
			f.Args = make([]genArg, 5+i)
			sh := make([]string, len(f.Args))
			for k := range f.Args {
				f.Args[k] = argPool[1]
				sh[k] = "i32"
			}
			f.Compound = name + ":" + strings.Join(sh, "_")
			if used[kind+f.Compound] {
				f.Args = append(f.Args, argPool[4], argPool[4], argPool[4])
				f.Compound += "_str_str_str"
			}
			used[kind+f.Compound] = true
		}
		ret := argPool[e.Int("file", 7)]
		f.Ret = ret.concrete
		if len(f.Args) > 0 {
			w("      - args:\n")
			for k, a := range f.Args {
				if a.enum != nil {
					w("          - {name: a%d, options: [A, B]}\n", k)
				} else {
					w("          - {name: a%d, value: %q}\n", k, a.yaml)
				}
			}
			w("        return: %q\n", ret.yaml)
		} else {
			w("      - return: %q\n", ret.yaml)
		}
		if e.Bool("file", 1, 3) {
			f.Options = map[string][]string{}
			w("        options:\n")
			for k := 0; k <= e.Int("file", 3); k++ {
				o := []string{"overflow", "rounding", "mode", "x"}[k]
				f.Options[o] = []string{"ONE", fmt.Sprintf("V%d", e.Int("file", 5))}
				w("          %s: {values: [%s]}\n", o, strings.Join(f.Options[o], ", "))
			}
		}
		if len(f.Args) > 0 && e.Bool("file", 1, 5) {
			f.Variadic, f.VarMin, f.Consist = true, 1+e.Int("file", 2), "CONSISTENT"
			w("        variadic:\n          min: %d\n", f.VarMin)
			if e.Bool("file", 1, 2) {
				f.VarMax = f.VarMin + 3
				w("          max: %d\n", f.VarMax)
			}
			if e.Bool("file", 1, 2) {
				f.Consist = "INCONSISTENT"
				w("          parameterConsistency: INCONSISTENT\n")
			}
		}
		switch e.Int("file", 5) {
		case 1:
			f.Det = false
			w("        deterministic: false\n")
		case 2:
			w("        deterministic: true\n")
		}
		if e.Bool("file", 1, 4) {
			f.Sess = true
			w("        sessionDependent: true\n")
		}
		switch e.Int("file", 4) {
		case 1:
			f.Null = "DECLARED_OUTPUT"
			w("        nullability: DECLARED_OUTPUT\n")
		case 2:
			f.Null = "DISCRETE"
			w("        nullability: DISCRETE\n")
		}
		if kind != "scalar" {
			f.Decomp = "NONE"
			if e.Bool("file", 1, 2) {
				f.Decomp = []string{"ONE", "MANY"}[e.Int("file", 2)]
				w("        decomposable: %s\n", f.Decomp)
			}
			if e.Bool("file", 1, 2) {
				f.Inter = []string{"i64", "struct<i64, fp64>", "list<string>"}[e.Int("file", 3)]
				w("        intermediate: %q\n", f.Inter)
			}
			if e.Bool("file", 1, 3) {
				f.Ordered = true
				w("        ordered: true\n")
			}
			if e.Bool("file", 1, 3) {
				f.MaxSet = 1 + e.Int("file", 9)
				w("        maxset: %d\n", f.MaxSet)
			}
		}
		switch kind {
		case "aggregate":
			f.WinType = "STREAMING"
		case "window":
			f.WinType = "PARTITION"
			if e.Bool("file", 1, 2) {
				f.WinType = "STREAMING"
				w("        window_type: STREAMING\n")
			}
		}
		g.Fns = append(g.Fns, f)
	}
}

// check compares what the collection answers for a loaded generated file with
// the model of the file.
func (g *genFile) check(c *extensions.Collection) string {
	if !c.URNLoaded(g.URN) {
		return "the URN is not loaded"
	}
	if (c.GetFileMetadata(g.URN) != nil) != g.Meta {
		return fmt.Sprintf("file metadata %v, model %v", c.GetFileMetadata(g.URN), g.Meta)
	}
	if g.Meta && c.GetFileMetadata(g.URN)["owner"] != g.URN {
		return fmt.Sprintf("metadata of another file: %v", c.GetFileMetadata(g.URN))
	}
	for _, t := range g.Types {
		if d, ok := c.GetType(extensions.TypeID{URN: g.URN, Name: t}); !ok || d.Name != t {
			return fmt.Sprintf("type %s: %v %v", t, d, ok)
		}
	}
	for _, t := range g.Variations {
		d, ok := c.GetTypeVariation(extensions.TypeVariationID{URN: g.URN, Name: t})
		if !ok || d.Name != t || d.Description != g.URN+t || d.Parent != g.Parents[t] {
			return fmt.Sprintf("type variation %s: %v %v", t, d, ok)
		}
	}
	want := map[string]int{}
	for _, f := range g.Fns {
		id := extensions.FunctionID{URN: g.URN, Name: f.Compound}
		switch f.Kind {
		case "scalar":
			v, ok := c.GetScalarFunc(id)
			if !ok {
				return fmt.Sprintf("scalar function %v is missing", id)
			}
			if s := f.check(v, g.URN); s != "" {
				return fmt.Sprintf("scalar function %v: %s", id, s)
			}
			want["scalar "+f.Compound]++
		case "aggregate":
			v, ok := c.GetAggregateFunc(id)
			if !ok {
				return fmt.Sprintf("aggregate function %v is missing", id)
			}
			if s := f.check(v, g.URN); s != "" {
				return fmt.Sprintf("aggregate function %v: %s", id, s)
			}
			im, err := v.Intermediate()
			if v.Ordered() != f.Ordered || v.MaxSet() != f.MaxSet || string(v.Decomposability()) != f.Decomp || (err == nil) != (f.Inter != "") || (im != nil && im.String() != f.Inter) {
				return fmt.Sprintf("aggregate function %v: ordered %v, max set %d, decomposable %s, intermediate %v; model %+v", id, v.Ordered(), v.MaxSet(), v.Decomposability(), im, f)
			}
			want["aggregate "+f.Compound]++
		}
		if f.Kind != "scalar" {
			v, ok := c.GetWindowFunc(id)
			if !ok {
				return fmt.Sprintf("window function %v is missing", id)
			}
			if s := f.check(v, g.URN); s != "" {
				return fmt.Sprintf("window function %v: %s", id, s)
			}
			if v.Ordered() != f.Ordered || v.MaxSet() != f.MaxSet || string(v.Decomposability()) != f.Decomp || string(v.WindowType()) != f.WinType {
				return fmt.Sprintf("window function %v: ordered %v, max set %d, decomposable %s, type %s; model %+v", id, v.Ordered(), v.MaxSet(), v.Decomposability(), v.WindowType(), f)
			}
			want["window "+f.Compound]++
		}
	}
	var wl []string
	for k := range want {
		wl = append(wl, k)
	}
	sort.Strings(wl)
	if got := listView(c)[g.URN]; strings.Join(got, ",") != strings.Join(wl, ",") {
		return fmt.Sprintf("the functions of the file are listed as %v, model %v", got, wl)
	}
	return ""
}

func (f *genFn) check(v variant, urn string) string {
	if v.Name() != f.Name || v.CompoundName() != f.Compound || v.URN() != urn || v.Description() != f.Desc {
		return fmt.Sprintf("is %s %s %s %q", v.URN(), v.Name(), v.CompoundName(), v.Description())
	}
	if len(v.Args()) != len(f.Args) || v.Deterministic() != f.Det || v.SessionDependent() != f.Sess {
		return fmt.Sprintf("%d arguments, deterministic %v, session dependent %v; model %+v", len(v.Args()), v.Deterministic(), v.SessionDependent(), *f)
	}
	if n, ok := v.(interface {
		Nullability() extensions.NullabilityHandling
	}); ok && string(n.Nullability()) != f.Null {
		return fmt.Sprintf("nullability %s, model %s", n.Nullability(), f.Null)
	}
	if (v.Metadata() != nil) != f.Meta || (f.Meta && v.Metadata()["of"] != urn+f.Name) {
		return fmt.Sprintf("metadata %v, model %v", v.Metadata(), f.Meta)
	}
	if len(v.Options()) != len(f.Options) {
		return fmt.Sprintf("options %v, model %v", v.Options(), f.Options)
	}
	for k, o := range f.Options {
		if fmt.Sprint(v.Options()[k].Values) != fmt.Sprint(o) {
			return fmt.Sprintf("option %s is %v, model %v", k, v.Options()[k], o)
		}
	}
	vb := v.Variadic()
	if (vb != nil) != f.Variadic || (vb != nil && (vb.Min != f.VarMin || vb.Max != f.VarMax || string(vb.ParameterConsistency) != f.Consist)) {
		return fmt.Sprintf("variadic %+v, model %+v", vb, *f)
	}
	if f.Null != "MIRROR" || f.Variadic {
		return ""
	}
	var ts []types.Type
	for _, a := range f.Args {
		if a.concrete == nil || a.enum != nil {
			return ""
		}
		ts = append(ts, a.concrete)
	}
	rt, err := v.ResolveType(ts, extensions.NewSet())
	if err != nil || rt == nil || !rt.Equals(f.Ret) {
		return fmt.Sprintf("resolves to %v %v, model %v", rt, err, f.Ret)
	}
	return ""
}
