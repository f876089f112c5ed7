package scen

import (
	"fmt"
	"sort"
	"strings"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/obs"
)

// The view of a collection is every answer it gives to a fixed list of
// questions, read through its public interface only.

type names struct {
	funcs, types, variations []string // names asked for under every URN
}

func (n *names) add(o names) {
	n.funcs = append(n.funcs, o.funcs...)
	n.types = append(n.types, o.types...)
	n.variations = append(n.variations, o.variations...)
}

func uniq(l []string) []string {
	sort.Strings(l)
	out := l[:0]
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			out = append(out, s)
		}
	}
	return out
}

func (n *names) norm() {
	n.funcs, n.types, n.variations = uniq(n.funcs), uniq(n.types), uniq(n.variations)
}

// namesOf lists the names a collection holds; it is used on reference
// collections only.
func namesOf(c *extensions.Collection, ty, tv []string) names {
	var n names
	for _, f := range c.GetAllScalarFunctions() {
		n.funcs = append(n.funcs, f.Name(), f.CompoundName())
	}
	for _, f := range c.GetAllAggregateFunctions() {
		n.funcs = append(n.funcs, f.Name(), f.CompoundName())
	}
	for _, f := range c.GetAllWindowFunctions() {
		n.funcs = append(n.funcs, f.Name(), f.CompoundName())
	}
	n.types, n.variations = append(n.types, ty...), append(n.variations, tv...)
	n.norm()
	return n
}

func argView(a extensions.FuncParameter) string {
	switch t := a.(type) {
	case extensions.EnumArg:
		return fmt.Sprintf("enum(%q,%q,%q)", t.Name, t.Description, t.Options)
	case extensions.ValueArg:
		return fmt.Sprintf("value(%q,%q,%s,%v)", t.Name, t.Description, typeText(t.Value.ValueType), t.Constant)
	case extensions.TypeArg:
		return fmt.Sprintf("type(%q,%q,%s)", t.Name, t.Description, typeText(t.Type.ValueType))
	}
	return fmt.Sprintf("%T(%s)", a, typeText(a.GetTypeExpression()))
}

func typeText(t types.FuncDefArgType) string {
	if t == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%T:%s:%s", t, t.String(), t.ShortString())
}

// defParams are parameter lists to put in the place of the parameters of a
// type expression.
var defParams = [][]interface{}{nil, {int64(7)}, {int64(12), int64(3)}, {probeTypes[0]}, {probeTypes[0], probeTypes[2]}, {probeTypes[5], probeTypes[1], probeTypes[0]},
	{&types.ListType{Type: probeTypes[1], Nullability: types.NullabilityRequired}}, {types.IntegerParameter(4), &types.DataTypeParameter{Type: probeTypes[3]}}, {types.StringParameter("x")}}

// defView is everything a type expression answers.
func defView(t types.FuncDefArgType) string {
	if t == nil {
		return "<nil>"
	}
	var b strings.Builder
	b.WriteString(typeText(t))
	b.WriteString(obs.Call(func() string {
		return fmt.Sprint(t.HasParameterizedParam(), t.GetNullability(), len(t.GetParameterizedParams())) + obs.Dump(t.GetParameterizedParams())
	}))
	for _, a := range probeTypes {
		b.WriteString(obs.Call(func() string { return fmt.Sprint(t.MatchWithNullability(a), t.MatchWithoutNullability(a)) }))
	}
	ret := func(f func() (types.Type, error)) {
		b.WriteString(obs.Call(func() string {
			r, err := f()
			if err != nil {
				return " error"
			}
			return " " + obs.Dump(r)
		}))
	}
	for _, p := range defParams {
		ret(func() (types.Type, error) { return t.WithParameters(p) })
	}
	ret(func() (types.Type, error) { return t.ReturnType(nil, nil) })
	for _, a := range probeTypes {
		ret(func() (types.Type, error) { return t.ReturnType([]types.FuncDefArgType{t}, []types.Type{a}) })
	}
	return b.String()
}

var probeTypes = []types.Type{
	&types.Int32Type{Nullability: types.NullabilityRequired},
	&types.Int64Type{Nullability: types.NullabilityNullable},
	&types.StringType{Nullability: types.NullabilityRequired},
	&types.Float64Type{Nullability: types.NullabilityRequired},
	&types.BooleanType{Nullability: types.NullabilityNullable},
	&types.DecimalType{Precision: 12, Scale: 3, Nullability: types.NullabilityRequired},
	&types.DateType{Nullability: types.NullabilityRequired},
}

type variant interface {
	extensions.FunctionVariant
	Metadata() map[string]any
	Deterministic() bool
	ID() extensions.FunctionID
	Nullability() extensions.NullabilityHandling
	SessionDependent() bool
}

// fixedPicks are the instantiations of every signature a deep view asks for.
var fixedPicks = []argPick{{}, {sel: [8]int{1, 2, 0, 3}, more: 1}, {sel: [8]int{3, 3, 1, 1}, null: [6]bool{true, false, true}}}

// fnView describes one function variant.  deep adds the answers to matching
// and type derivation questions.
func fnView(f variant, deep bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %q %q %q id=%v", f.URN(), f.Name(), f.CompoundName(), f.Description(), f.ID())
	for _, a := range f.Args() {
		b.WriteString(" " + argView(a))
	}
	var opts []string
	for k, o := range f.Options() {
		opts = append(opts, fmt.Sprintf("%q:%q:%q", k, o.Description, o.Values))
	}
	sort.Strings(opts)
	fmt.Fprintf(&b, " options%v", opts)
	if v := f.Variadic(); v != nil {
		fmt.Fprintf(&b, " variadic(%d,%d,%s)", v.Min, v.Max, v.ParameterConsistency)
	}
	fmt.Fprintf(&b, " det=%v sess=%v null=%s min=%d max=%d meta=%s", f.Deterministic(), f.SessionDependent(), f.Nullability(), f.MinArgumentCount(), f.MaxArgumentCount(), obs.Dump(f.Metadata()))
	switch t := f.(type) {
	case *extensions.AggregateFunctionVariant:
		im, err := t.Intermediate()
		fmt.Fprintf(&b, " agg(%v,%d,%s,%s,%v)", t.Ordered(), t.MaxSet(), t.Decomposability(), typeText(im), err != nil)
	case *extensions.WindowFunctionVariant:
		im, err := t.Intermediate()
		fmt.Fprintf(&b, " win(%v,%d,%s,%s,%v,%s)", t.Ordered(), t.MaxSet(), t.Decomposability(), typeText(im), err != nil, t.WindowType())
	}
	if deep {
		n := len(f.Args())
		if v := f.Variadic(); v != nil && n < 3 {
			n++
		}
		for i, pick := range fixedPicks {
			b.WriteString(obs.Call(func() string {
				ts := pick.types(f.Args(), f.Variadic() != nil)
				ok, err := f.Match(ts)
				at := ""
				for j, t := range ts {
					m, e := f.MatchAt(t, j)
					at += fmt.Sprintf("%v%v", m, e != nil)
				}
				m, e := f.MatchAt(probeTypes[0], len(ts)+3)
				at += fmt.Sprint(m, e != nil)
				rt, err2 := f.ResolveType(ts, extensions.NewSet())
				if err2 != nil {
					return fmt.Sprintf(" %d:%v,%v,%s,error", i, ok, err != nil, at)
				}
				return fmt.Sprintf(" %d:%v,%v,%s,%s->%s", i, ok, err != nil, at, ts, rt)
			}))
		}
		for _, pt := range probeTypes {
			ts := make([]types.Type, n)
			for i := range ts {
				ts[i] = pt
			}
			// a variant without a return type panics when resolved; that is an
			// answer like any other here
			b.WriteString(obs.Call(func() string {
				ok, err := f.Match(ts)
				if !ok || err != nil {
					return ""
				}
				rt, err := f.ResolveType(ts, extensions.NewSet())
				if err != nil {
					return fmt.Sprintf(" %s->error", pt)
				}
				return fmt.Sprintf(" %s->%s", pt, rt)
			}))
		}
	}
	return b.String()
}

// urnView asks every question about one URN.
func urnView(c *extensions.Collection, urn string, n names, deep bool) map[string]string {
	out := map[string]string{}
	put := func(q, a string) { out[q] = a }
	put("loaded", fmt.Sprint(c.URNLoaded(urn)))
	if md := c.GetFileMetadata(urn); len(md) > 0 {
		put("metadata", obs.Dump(md))
	}
	for _, name := range n.types {
		if t, ok := c.GetType(extensions.TypeID{URN: urn, Name: name}); ok {
			put("type "+name, obs.Dump(t))
		}
	}
	for _, name := range n.variations {
		if t, ok := c.GetTypeVariation(extensions.TypeVariationID{URN: urn, Name: name}); ok {
			put("variation "+name, obs.Dump(t))
		}
	}
	for _, name := range n.funcs {
		id := extensions.FunctionID{URN: urn, Name: name}
		if f, ok := c.GetScalarFunc(id); ok {
			put("scalar "+name, fnView(f, deep))
		}
		if f, ok := c.GetAggregateFunc(id); ok {
			put("aggregate "+name, fnView(f, deep))
		}
		if f, ok := c.GetWindowFunc(id); ok {
			put("window "+name, fnView(f, deep))
		}
	}
	return out
}

// listView is what the unordered listings contain, per URN.
func listView(c *extensions.Collection) map[string][]string {
	out := map[string][]string{}
	for _, f := range c.GetAllScalarFunctions() {
		out[f.URN()] = append(out[f.URN()], "scalar "+f.CompoundName())
	}
	for _, f := range c.GetAllAggregateFunctions() {
		out[f.URN()] = append(out[f.URN()], "aggregate "+f.CompoundName())
	}
	for _, f := range c.GetAllWindowFunctions() {
		out[f.URN()] = append(out[f.URN()], "window "+f.CompoundName())
	}
	for _, l := range out {
		sort.Strings(l)
	}
	return out
}

// registryView is what a function registry built now answers for the names.
func registryView(c *extensions.Collection, fnames []string) map[string][]string {
	r := functions.NewFunctionRegistry(c)
	out := map[string][]string{}
	add := func(k, urn, name string) { out[k] = append(out[k], urn+" "+name) }
	for _, n := range fnames {
		if strings.Contains(n, ":") {
			continue
		}
		for _, f := range r.GetScalarFunctionsByName(n) {
			add("scalar "+n, f.URN(), f.CompoundName())
		}
		for _, f := range r.GetAggregateFunctionsByName(n) {
			add("aggregate "+n, f.URN(), f.CompoundName())
		}
		for _, f := range r.GetWindowFunctionsByName(n) {
			add("window "+n, f.URN(), f.CompoundName())
		}
	}
	for _, f := range r.GetAllFunctions() {
		add("all", f.URN(), f.CompoundName())
	}
	for _, l := range out {
		sort.Strings(l)
	}
	return out
}

// diffMaps reports the first (in order of question) difference.
func diffMaps(want, got map[string]string) (string, string) {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, ok1 := want[k]
		g, ok2 := got[k]
		switch {
		case !ok1:
			return k, fmt.Sprintf("%s: should be absent, is %s", k, clip(g, 1500))
		case !ok2:
			return k, fmt.Sprintf("%s: absent, should be %s", k, clip(w, 1500))
		case w != g:
			return k, fmt.Sprintf("%s: should be %s, is %s", k, clip(w, 1500), clip(g, 1500))
		}
	}
	return "", ""
}

func diffLists(want, got map[string][]string) (string, string) {
	f := func(m map[string][]string) map[string]string {
		out := map[string]string{}
		for k, l := range m {
			if len(l) > 0 {
				out[k] = strings.Join(l, ", ")
			}
		}
		return out
	}
	return diffMaps(f(want), f(got))
}

func questionKind(q string) string {
	k, _, _ := strings.Cut(q, " ")
	return k
}
