package scen

import (
	"fmt"
	"sort"
	"strings"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/eng"
	"verifsim/fix"
	"verifsim/obs"
)

// dlType is a type a dialect supports.
type dlType struct {
	Std    string // the name used in the file
	Local  string
	Column bool
}

// dlFn is one declared kernel.
type dlFn struct {
	Kind     string
	ID       extensions.FunctionID
	Name     string
	Local    string
	Notation functions.FunctionNotation
	Options  map[string]string
}

// dlModel is a generated dialect with its meaning.
type dlModel struct {
	Text    string
	Types   []dlType
	Fns     map[string]map[extensions.FunctionID]dlFn // by kind
	Missing []string                                  // kernels no registry has
	Names   []string                                  // every name worth asking for
}

type stdType struct {
	long, short string
	typ         types.Type
	text        string // parameters
	noParams    types.Type
}

// stdTypes is the model of the type names of a dialect.
var stdTypes = []stdType{
	{"i8", "i8", &types.Int8Type{}, "", nil},
	{"i16", "i16", &types.Int16Type{}, "", nil},
	{"i32", "i32", &types.Int32Type{}, "", nil},
	{"i64", "i64", &types.Int64Type{}, "", nil},
	{"fp32", "fp32", &types.Float32Type{}, "", nil},
	{"fp64", "fp64", &types.Float64Type{}, "", nil},
	{"string", "str", &types.StringType{}, "", nil},
	{"binary", "vbin", &types.BinaryType{}, "", nil},
	{"boolean", "bool", &types.BooleanType{}, "", nil},
	{"date", "date", &types.DateType{}, "", nil},
	{"time", "time", &types.TimeType{}, "", nil},
	{"timestamp", "ts", &types.TimestampType{}, "", nil},
	{"timestamp_tz", "tstz", &types.TimestampTzType{}, "", nil},
	{"interval_year", "iyear", &types.IntervalYearType{}, "", nil},
	{"uuid", "uuid", &types.UUIDType{}, "", nil},
	{"decimal", "dec", &types.DecimalType{Precision: 17, Scale: 4}, "17,4", nil},
	{"varchar", "vchar", &types.VarCharType{Length: 9}, "9", nil},
	{"fixedchar", "fchar", &types.FixedCharType{Length: 3}, "3", nil},
	{"fixedbinary", "fbin", &types.FixedBinaryType{Length: 5}, "5", nil},
	{"precision_time", "pt", types.NewPrecisionTimeType(types.PrecisionMilliSeconds), "3", nil},
	{"precision_timestamp", "pts", types.NewPrecisionTimestampType(types.PrecisionMicroSeconds), "6", nil},
	{"precision_timestamp_tz", "ptstz", types.NewPrecisionTimestampTzType(types.PrecisionNanoSeconds), "9", nil},
	{"interval_day", "iday", &types.IntervalDayType{Precision: types.PrecisionDeciSeconds}, "1", nil},
}

// dlPool lists the functions of a collection whose kernels a dialect can name.
type dlItem struct {
	kind string
	id   extensions.FunctionID
	name string
}

func dlPool(c *extensions.Collection) []dlItem {
	var out []dlItem
	add := func(kind string, id extensions.FunctionID, name string) {
		_, k, _ := strings.Cut(id.Name, ":")
		for _, p := range strings.Split(k, "_") {
			ok := p == "" || p == "any"
			for _, s := range stdTypes {
				ok = ok || p == s.long || p == s.short
			}
			if !ok {
				return
			}
		}
		out = append(out, dlItem{kind, id, name})
	}
	for _, f := range c.GetAllScalarFunctions() {
		add("scalar", f.ID(), f.Name())
	}
	for _, f := range c.GetAllAggregateFunctions() {
		add("aggregate", f.ID(), f.Name())
	}
	for _, f := range c.GetAllWindowFunctions() {
		add("window", f.ID(), f.Name())
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		return fmt.Sprint(a.kind, a.id.URN, " ", a.id.Name) < fmt.Sprint(b.kind, b.id.URN, " ", b.id.Name)
	})
	return out
}

var dlPools = map[*extensions.Collection][]dlItem{}

func poolOf(c *extensions.Collection) []dlItem {
	if p, ok := dlPools[c]; ok {
		return p
	}
	p := dlPool(c)
	if c == fix.Sim() || c == fix.Default() {
		dlPools[c] = p
	}
	return p
}

// drawDialect draws a dialect over the functions of c.  With missing, some
// declared kernels do not exist.
func drawDialect(e *eng.Ep, c *extensions.Collection, missing bool) *dlModel {
	m := &dlModel{Fns: map[string]map[extensions.FunctionID]dlFn{"scalar": {}, "aggregate": {}, "window": {}}}
	pool := poolOf(c)
	var b strings.Builder
	w := func(f string, a ...any) { fmt.Fprintf(&b, f, a...) }
	w("name: gen\ntype: sql\n")
	nameSet := map[string]bool{}
	ask := func(n string) {
		if !nameSet[n] {
			nameSet[n] = true
			m.Names = append(m.Names, n)
		}
	}
	// types
	w("supported_types:\n")
	nt := 1 + e.Count("dl", 10)
	p := e.Int("dl", len(stdTypes))
	step := 1 + e.Int("dl", 5)
	usedT := map[int]bool{}
	for i := 0; i < nt; i++ {
		k := (p + i*step) % len(stdTypes)
		if usedT[k] {
			continue
		}
		usedT[k] = true
		s := stdTypes[k]
		t := dlType{Std: s.long, Column: true}
		if e.Bool("dl", 1, 3) {
			t.Std = s.short
		}
		switch e.Int("dl", 5) {
		case 0:
			t.Local = "SHARED" // several types under one local name
		case 1:
			t.Local = stdTypes[(k+3)%len(stdTypes)].long // the standard name of another type
		default:
			t.Local = "L_" + strings.ToUpper(s.long)
		}
		w("  %s:\n    sql_type_name: %s\n", t.Std, t.Local)
		switch e.Int("dl", 3) {
		case 1:
			t.Column = false
			w("    supported_as_column: false\n")
		case 2:
			w("    supported_as_column: true\n")
		}
		m.Types = append(m.Types, t)
	}
	// functions, grouped into entries of one standard name and dependency
	type entry struct {
		kind, urn, name, local string
		infix, postfix         bool
		opts                   map[string]string
		kernels                []string
	}
	var entries []*entry
	alias := map[string]string{}
	var aliases []string
	n := 1 + e.Count("dl", 12)
	run := 1 + e.Int("dl", 4)
	at := 0
	for i := 0; i < n; i++ {
		if i%run == 0 {
			at = e.Int("dl", len(pool))
		}
		it := pool[(at+i%run)%len(pool)]
		if _, dup := m.Fns[it.kind][it.id]; dup {
			continue
		}
		_, kernel, _ := strings.Cut(it.id.Name, ":")
		var en *entry
		if e.Bool("dl", 3, 4) {
			for _, x := range entries {
				if x.kind == it.kind && x.urn == it.id.URN && x.name == it.name {
					en = x
				}
			}
		}
		if en == nil {
			en = &entry{kind: it.kind, urn: it.id.URN, name: it.name}
			switch e.Int("dl", 5) {
			case 0:
			case 1:
				en.local = "local_" + it.name
			case 2: // the standard name of another function
				en.local = pool[e.Int("dl", len(pool))].name
			case 3:
				en.local = "shared_fn"
			default:
				en.local = strings.ToUpper(it.name)
			}
			switch e.Int("dl", 4) {
			case 1:
				en.infix = true
			case 2:
				en.postfix = true
			case 3:
				en.infix, en.postfix = true, true
			}
			if e.Bool("dl", 1, 3) {
				en.opts = map[string]string{}
				for k := 0; k <= e.Int("dl", 2); k++ {
					en.opts[[]string{"overflow", "rounding", "mode"}[k]] = []string{"ERROR", "SILENT", "x"}[e.Int("dl", 3)]
				}
			}
			entries = append(entries, en)
		}
		en.kernels = append(en.kernels, kernel)
		if _, ok := alias[en.urn]; !ok {
			alias[en.urn] = fmt.Sprintf("d%d", len(aliases))
			aliases = append(aliases, en.urn)
		}
		f := dlFn{Kind: en.kind, ID: it.id, Name: it.name, Local: en.local, Options: en.opts, Notation: functions.PREFIX}
		if f.Local == "" {
			f.Local = it.name
		}
		if en.infix {
			f.Notation = functions.INFIX
		} else if en.postfix {
			f.Notation = functions.POSTFIX
		}
		m.Fns[en.kind][it.id] = f
		ask(f.Name)
		ask(f.Local)
	}
	if missing {
		en := &entry{name: "add", kernels: []string{"i8_bool_date"}}
		if len(entries) > 0 {
			x := entries[e.Int("dl", len(entries))]
			en.kind, en.urn, en.name = x.kind, x.urn, x.name
			if e.Bool("dl", 1, 3) {
				en.name = "no_such_function"
			} else if e.Bool("dl", 1, 2) {
				// the kernel exists, for another kind
				_, isScalar := c.GetScalarFunc(extensions.FunctionID{URN: x.urn, Name: x.name + ":" + x.kernels[0]})
				if x.kind == "scalar" {
					en.kind, en.kernels = "aggregate", x.kernels[:1]
					_, isScalar = c.GetAggregateFunc(extensions.FunctionID{URN: x.urn, Name: x.name + ":" + x.kernels[0]})
				} else {
					en.kind, en.kernels = "scalar", x.kernels[:1]
				}
				if isScalar {
					en.kernels = []string{"i8_bool_date"}
				}
			}
		}
		if e.Bool("dl", 1, 2) {
			entries = append(entries, en)
		} else {
			entries = append([]*entry{en}, entries...)
		}
		m.Missing = append(m.Missing, en.kind+" "+en.name+":"+en.kernels[0])
	}
	w("dependencies:\n")
	for _, u := range aliases {
		w("  %s: %s\n", alias[u], u)
	}
	for _, kind := range []string{"scalar", "aggregate", "window"} {
		first := true
		for _, en := range entries {
			if en.kind != kind {
				continue
			}
			if first {
				w("%s_functions:\n", kind)
				first = false
			}
			w("  - name: %s.%s\n", alias[en.urn], en.name)
			if en.local != "" {
				w("    local_name: %q\n", en.local)
			}
			if en.infix {
				w("    infix: true\n")
			}
			if en.postfix {
				w("    postfix: true\n")
			}
			if len(en.opts) > 0 {
				w("    required_options:\n")
				for _, k := range []string{"overflow", "rounding", "mode"} {
					if v, ok := en.opts[k]; ok {
						w("      %s: %s\n", k, v)
					}
				}
			}
			w("    supported_kernels:\n")
			for _, k := range en.kernels {
				if strings.Contains(k, "any") && e.Bool("dl", 1, 2) {
					k = strings.Replace(k, "any", "any1", 1)
				}
				w("      - %q\n", k)
			}
		}
	}
	m.Text = b.String()
	ask("not_a_function")
	return m
}

type localVariant interface {
	extensions.FunctionVariant
	ID() extensions.FunctionID
	LocalName() string
	Notation() functions.FunctionNotation
	IsOptionSupported(name, value string) bool
	InvocationTypeName() string
	Match([]types.Type) (bool, error)
}

func localText(v localVariant) string {
	var o []string
	for _, k := range []string{"overflow", "rounding", "mode", "other"} {
		for _, x := range []string{"ERROR", "SILENT", "x", "y"} {
			if v.IsOptionSupported(k, x) {
				o = append(o, k+"="+x)
			}
		}
	}
	return fmt.Sprintf("%s %s|%s as %q notation %d options %v", v.InvocationTypeName(), v.ID().URN, v.ID().Name, v.LocalName(), v.Notation(), o)
}

func (f dlFn) text() string {
	var o []string
	for _, k := range []string{"overflow", "rounding", "mode", "other"} {
		for _, x := range []string{"ERROR", "SILENT", "x", "y"} {
			if f.Options[k] == x {
				o = append(o, k+"="+x)
			}
		}
	}
	return fmt.Sprintf("%s %s|%s as %q notation %d options %v", f.Kind, f.ID.URN, f.ID.Name, f.Local, f.Notation, o)
}

func asLocals[T localVariant](l []T) []localVariant {
	out := make([]localVariant, len(l))
	for i, x := range l {
		out[i] = x
	}
	return out
}

// dlFnView is every answer of a localized function registry.
func dlFnView(r functions.LocalFunctionRegistry, ns []string) map[string][]string {
	out := map[string][]string{}
	put := func(q string, l []localVariant) {
		for _, v := range l {
			out[q] = append(out[q], localText(v))
		}
	}
	for _, n := range ns {
		for args := 0; args <= 4; args++ {
			put(fmt.Sprintf("scalar std %s/%d", n, args), asLocals(r.GetScalarFunctions(functions.SubstraitFunctionName(n), args)))
			put(fmt.Sprintf("scalar local %s/%d", n, args), asLocals(r.GetScalarFunctions(functions.LocalFunctionName(n), args)))
			put(fmt.Sprintf("aggregate std %s/%d", n, args), asLocals(r.GetAggregateFunctions(functions.SubstraitFunctionName(n), args)))
			put(fmt.Sprintf("aggregate local %s/%d", n, args), asLocals(r.GetAggregateFunctions(functions.LocalFunctionName(n), args)))
			put(fmt.Sprintf("window std %s/%d", n, args), asLocals(r.GetWindowFunctions(functions.SubstraitFunctionName(n), args)))
			put(fmt.Sprintf("window local %s/%d", n, args), asLocals(r.GetWindowFunctions(functions.LocalFunctionName(n), args)))
		}
	}
	for _, v := range r.GetAllFunctions() {
		if lv, ok := v.(localVariant); ok {
			out["all"] = append(out["all"], localText(lv))
		} else {
			out["all"] = append(out["all"], fmt.Sprintf("%T", v))
		}
	}
	for _, l := range out {
		sort.Strings(l)
	}
	return out
}

// want is what the model answers to the same questions.
func (m *dlModel) want(c *extensions.Collection, ns []string) map[string][]string {
	out := map[string][]string{}
	count := func(f dlFn, n int) bool {
		var v extensions.FunctionVariant
		switch f.Kind {
		case "scalar":
			x, _ := c.GetScalarFunc(f.ID)
			v = x
		case "aggregate":
			x, _ := c.GetAggregateFunc(f.ID)
			v = x
		default:
			x, _ := c.GetWindowFunc(f.ID)
			v = x
		}
		if len(v.Args()) == n {
			return true
		}
		vb := v.Variadic()
		return vb != nil && n >= vb.Min && (vb.Max == 0 || n <= vb.Max)
	}
	for kind, fs := range m.Fns {
		for _, f := range fs {
			out["all"] = append(out["all"], f.text())
			for args := 0; args <= 4; args++ {
				if !count(f, args) {
					continue
				}
				q := fmt.Sprintf("%s std %s/%d", kind, f.Name, args)
				out[q] = append(out[q], f.text())
				q = fmt.Sprintf("%s local %s/%d", kind, f.Local, args)
				out[q] = append(out[q], f.text())
			}
		}
	}
	for _, l := range out {
		sort.Strings(l)
	}
	return out
}

// dlTypeView is every answer of a localized type registry.
func dlTypeView(r functions.LocalTypeRegistry, locals []string) map[string]string {
	out := map[string]string{}
	str := func(t types.Type, err error) string {
		if err != nil {
			return "error"
		}
		return obs.Dump(types.TypeToProto(t))
	}
	for _, s := range stdTypes {
		for _, n := range []string{s.long, s.short} {
			out["std "+n] = str(r.GetTypeFromTypeString(n + angle(s.text, "<", ">")))
			out["std? "+n] = str(r.GetTypeFromTypeString(n + "?" + angle(s.text, "<", ">")))
		}
		l, err := r.GetLocalTypeFromSubstraitType(req(s.typ))
		out["tolocal "+s.long] = fmt.Sprint(l, err != nil)
		out["column "+s.long] = fmt.Sprint(r.IsTypeSupportedInTables(req(s.typ)))
	}
	for _, l := range locals {
		for _, p := range []string{"", "9", "17,4"} {
			out["local "+l+"("+p] = str(r.GetSubstraitTypeFromLocalType(l + angle(p, "(", ")")))
		}
	}
	for k, t := range r.GetSupportedTypes() {
		out["supported "+k] = t.String()
	}
	return out
}

func angle(s, a, b string) string {
	if s == "" {
		return ""
	}
	return a + s + b
}

func (m *dlModel) locals() []string {
	out := []string{"NO_SUCH", "i32", "string", "SHARED"}
	for _, t := range m.Types {
		out = append(out, t.Local)
	}
	return uniq(out)
}

// checkTypes compares a localized type registry with the model.
func (m *dlModel) checkTypes(r functions.LocalTypeRegistry) string {
	decl := map[string]dlType{}
	byLocal := map[string][]stdType{}
	for _, t := range m.Types {
		for _, s := range stdTypes {
			if t.Std == s.long || t.Std == s.short {
				decl[s.long] = t
				byLocal[t.Local] = append(byLocal[t.Local], s)
			}
		}
	}
	for _, s := range stdTypes {
		t, ok := decl[s.long]
		l, err := r.GetLocalTypeFromSubstraitType(req(s.typ))
		if ok != (err == nil) {
			return fmt.Sprintf("local name of %s: %q %v; declared %v", s.typ, l, err, ok)
		}
		if got := r.IsTypeSupportedInTables(req(s.typ)); got != (ok && t.Column) {
			return fmt.Sprintf("%s supported in tables: %v; declared %v %+v", s.long, got, ok, t)
		}
		for _, n := range []string{s.long, s.short} {
			std, err := r.GetTypeFromTypeString(n + angle(s.text, "<", ">"))
			if ok != (err == nil) || (ok && !std.Equals(req(s.typ))) {
				return fmt.Sprintf("type %s%s: %v %v; declared %v", n, angle(s.text, "<", ">"), std, err, ok)
			}
			if ok {
				std, err = r.GetTypeFromTypeString(n + "?" + angle(s.text, "<", ">"))
				if err != nil || !std.Equals(s.typ.WithNullability(types.NullabilityNullable)) {
					return fmt.Sprintf("type %s?: %v %v", n, std, err)
				}
			}
		}
		if !ok {
			continue
		}
		if want := t.Local + angle(s.text, "(", ")"); l != want {
			return fmt.Sprintf("local name of %s is %q, declared %q", s.typ, l, want)
		}
		back, err := r.GetSubstraitTypeFromLocalType(l)
		if len(byLocal[t.Local]) == 1 {
			if err != nil || !back.Equals(req(s.typ)) {
				return fmt.Sprintf("%s is %q locally, which translates back to %v %v", s.typ, l, back, err)
			}
		} else if err == nil {
			hit := false
			for _, x := range byLocal[t.Local] {
				hit = hit || x.typ.ShortString() == back.ShortString()
			}
			if !hit {
				return fmt.Sprintf("%q translates to %v, which is not one of the types declared under it", l, back)
			}
		}
	}
	sup := r.GetSupportedTypes()
	if len(sup) != len(byLocal) {
		return fmt.Sprintf("%d supported types are listed, %d local names are declared", len(sup), len(byLocal))
	}
	for l, cands := range byLocal {
		t, ok := sup[l]
		hit := false
		for _, x := range cands {
			hit = hit || (ok && t != nil && x.typ.ShortString() == t.ShortString())
		}
		if !hit {
			return fmt.Sprintf("supported type %q is %v", l, t)
		}
	}
	if t, err := r.GetSubstraitTypeFromLocalType("NO_SUCH"); err == nil {
		return fmt.Sprintf("an undeclared local name translates to %v", t)
	}
	return ""
}

// checkFns compares a localized function registry with the model.
func (m *dlModel) checkFns(c *extensions.Collection, r functions.LocalFunctionRegistry) (string, string) {
	if q, s := diffLists(m.want(c, m.Names), dlFnView(r, m.Names)); s != "" {
		return q, s
	}
	// each of them must be the function of this registry
	for i, v := range r.GetAllFunctions() {
		var a, b variant
		var ok bool
		switch x := v.(type) {
		case *functions.LocalScalarFunctionVariant:
			a = &x.ScalarFunctionVariant
			b, ok = variantOf(c, "scalar", x.ID())
		case *functions.LocalAggregateFunctionVariant:
			a = &x.AggregateFunctionVariant
			b, ok = variantOf(c, "aggregate", x.ID())
		case *functions.LocalWindowFunctionVariant:
			a = &x.WindowFunctionVariant
			b, ok = variantOf(c, "window", x.ID())
		}
		if !ok {
			return "all", fmt.Sprintf("%s is not in the registry", v.CompoundName())
		}
		if s, t := fnView(b, i < 4), fnView(a, i < 4); s != t {
			return "all", "a localized function is not the one of the registry: " + firstDiff(s, t)
		}
	}
	return "", ""
}

// check localizes d against the collection and compares with the model.
func (m *dlModel) check(d functions.Dialect, c *extensions.Collection, reg functions.FunctionRegistry) string {
	lr, err := d.LocalizeFunctionRegistry(reg)
	if len(m.Missing) > 0 {
		if err == nil {
			return fmt.Sprintf("declared kernels that do not exist were accepted: %v", m.Missing)
		}
	} else if err != nil {
		return fmt.Sprintf("localizing functions failed: %v", err)
	} else {
		if lr.GetDialect() != d || lr.GetFunctionRegistry() != reg {
			return "the localized registry names another dialect or registry"
		}
		if _, s := m.checkFns(c, lr); s != "" {
			return "functions: " + s
		}
	}
	tr, err := d.LocalizeTypeRegistry(functions.NewTypeRegistry())
	if err != nil {
		return fmt.Sprintf("localizing types failed: %v", err)
	}
	if s := m.checkTypes(tr); s != "" {
		return "types: " + s
	}
	return ""
}
