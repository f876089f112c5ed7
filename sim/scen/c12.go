package scen

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/eng"
	"verifsim/fix"
	"verifsim/simrt"
)

func init() {
	register("C12", Scenario{Name: "localize-histories", Weight: 3, Run: c12Histories})
	register("C12", Scenario{Name: "localize-concurrent", Weight: 2, Run: c12Concurrent})
}

// c12Colls are the registries of the deployment: the full one, one that was
// loaded in another order, and one that lacks files.
type c12Reg struct {
	c   *extensions.Collection
	reg functions.FunctionRegistry
	all bool
	has map[string]bool
}

func c12Registries(e *eng.Ep) []*c12Reg {
	c := fix.Sim()
	if e.Bool("cfg", 1, 5) {
		c = fix.Default()
	}
	mk := func(c *extensions.Collection, all bool) *c12Reg {
		return &c12Reg{c: c, reg: functions.NewFunctionRegistry(c), all: all}
	}
	out := []*c12Reg{mk(c, true)}
	if c == fix.Sim() {
		if e.Bool("cfg", 1, 3) {
			out = append(out, mk(fix.Load(loadOrder(e, fix.Files)...), true))
		}
		if e.Bool("cfg", 1, 3) {
			out = append(out, mk(fix.Load(fix.Files[:1+e.Int("cfg", len(fix.Files)-1)]...), false))
		}
		if e.Bool("cfg", 1, 2) {
			out = append(out, mk(fix.Load(otherVersion(e)...), false))
		}
	}
	return out
}

var fnLine = regexp.MustCompile(`(?m)^  - name: ([a-z_]+)\n    (?:description: .*\n    )?impls:`)
var retLine = regexp.MustCompile(`(?m)return: i64$`)

// otherVersion is another version of the files, in which some functions have
// got other names and some return another type.
func otherVersion(e *eng.Ep) []fix.File {
	var out []fix.File
	for _, f := range fix.Files {
		n := 0
		skip := e.Int("cfg", 4)
		f.Text = fnLine.ReplaceAllStringFunc(f.Text, func(l string) string {
			if n++; n%4 != skip || !e.Bool("cfg", 1, 3) {
				return l
			}
			m := fnLine.FindStringSubmatch(l)
			return strings.Replace(l, "name: "+m[1], "name: "+m[1]+"_v2", 1)
		})
		if e.Bool("cfg", 1, 3) {
			f.Text = retLine.ReplaceAllString(f.Text, "return: i32")
		}
		out = append(out, f)
	}
	return out
}

// modelFor restricts the expectations to what a registry holds.
func (m *dlModel) modelFor(r *c12Reg) *dlModel {
	if r.all {
		return m
	}
	x := *m
	x.Missing = append([]string{}, m.Missing...)
	for kind, fs := range m.Fns {
		for id := range fs {
			ok := false
			switch kind {
			case "scalar":
				_, ok = r.c.GetScalarFunc(id)
			case "aggregate":
				_, ok = r.c.GetAggregateFunc(id)
			default:
				_, ok = r.c.GetWindowFunc(id)
			}
			if !ok {
				x.Missing = append(x.Missing, fmt.Sprint(kind, " ", id))
			}
		}
	}
	return &x
}

func c12Load(e *eng.Ep, m *dlModel) functions.Dialect {
	d, err := functions.LoadDialect("dl", strings.NewReader(m.Text))
	if err != nil {
		e.Fail("dialect", "load", "loading a dialect failed: %v\n%s", err, m.Text)
		return nil
	}
	if d.Name() != "dl" {
		e.Fail("dialect", "name", "the dialect is named %q", d.Name())
		return nil
	}
	return d
}

func c12Histories(e *eng.Ep) {
	regs := c12Registries(e)
	m := drawDialect(e, regs[0].c, e.Bool("cfg", 1, 3))
	e.Trace("dialect of %d types, %d+%d+%d kernels, missing %v", len(m.Types), len(m.Fns["scalar"]), len(m.Fns["aggregate"]), len(m.Fns["window"]), m.Missing)
	e.State(len(m.Types), len(m.Fns["scalar"]), len(m.Fns["aggregate"]), len(m.Fns["window"]), len(m.Missing))
	e.Nontrivial = true
	var typeView map[string]string
	n := 2 + e.Count("hist", 6)
	var d functions.Dialect
	var kept []struct {
		r  functions.LocalFunctionRegistry
		to *c12Reg
	}
	for i := 0; i < n; i++ {
		if d == nil || e.Bool("hist", 1, 4) {
			// the process restarts: the dialect is read again, under another hash seed
			simrt.SeedHash(e.Seed ^ uint64(1+i))
			e.Fault("hash_seed_change")
			if d = c12Load(e, m); d == nil {
				return
			}
		}
		r := regs[e.Int("hist", len(regs))]
		mm := m.modelFor(r)
		switch e.Int("hist", 6) {
		case 0, 1:
			e.Trace("localize functions against registry with %d functions", len(r.reg.GetAllFunctions()))
			lr, err := d.LocalizeFunctionRegistry(r.reg)
			if (err == nil) != (len(mm.Missing) == 0) {
				e.Fail("dialect", "verdict", "localizing functions: error %v; missing kernels %v\n%s", err, mm.Missing, m.Text)
				return
			}
			if err == nil {
				kept = append(kept, struct {
					r  functions.LocalFunctionRegistry
					to *c12Reg
				}{lr, r})
			} else {
				e.Probe("rejected")
			}
		case 2:
			e.Trace("localize types")
			if tr, err := d.LocalizeTypeRegistry(functions.NewTypeRegistry()); err != nil {
				e.Fail("dialect", "types", "localizing types failed: %v\n%s", err, m.Text)
				return
			} else if s := m.checkTypes(tr); s != "" {
				e.Fail("dialect", "types", "%s\n%s", s, m.Text)
				return
			}
		case 3:
			e.Trace("default type registry")
			tr, err := d.GetLocalTypeRegistry()
			if err != nil {
				e.Fail("dialect", "types", "the type registry failed: %v\n%s", err, m.Text)
				return
			}
			v := dlTypeView(tr, m.locals())
			if typeView != nil {
				if q, s := diffMaps(typeView, v); s != "" {
					e.Fail("dialect", "types:"+questionKind(q), "the type registry of the same dialect answers differently: %s\n%s", s, m.Text)
					return
				}
			}
			typeView = v
		case 4:
			e.Trace("whole model")
			if s := mm.check(d, r.c, r.reg); s != "" {
				e.Fail("dialect", "model", "%s\n%s", s, m.Text)
				return
			}
		default:
			if len(kept) == 0 {
				continue
			}
			k := kept[e.Int("hist", len(kept))]
			e.Trace("use an earlier registry")
			if s := m.invocations(e, k.to.c, k.r); s != "" {
				e.Fail("dialect", "invocation", "%s\n%s", s, m.Text)
				return
			}
		}
	}
	for _, k := range kept {
		if _, s := m.checkFns(k.to.c, k.r); s != "" {
			e.Fail("dialect", "functions", "%s\n%s", s, m.Text)
			return
		}
	}
}

// invocations looks functions up by calls of them.
func (m *dlModel) invocations(e *eng.Ep, c *extensions.Collection, r functions.LocalFunctionRegistry) string {
	pool := poolOf(c)
	supported := map[string]bool{}
	for _, t := range m.Types {
		for _, s := range stdTypes {
			if t.Std == s.long || t.Std == s.short {
				supported[s.long] = true
			}
		}
	}
	var want []dlItem
	for _, it := range pool {
		if _, ok := m.Fns[it.kind][it.id]; ok {
			want = append(want, it)
		}
	}
	var known []stdType
	for _, s := range stdTypes {
		if supported[s.long] {
			known = append(known, s)
		}
	}
	for k := 0; k < 6; k++ {
		it := pool[e.Int("inv", len(pool))]
		if len(want) > 0 && !e.Bool("inv", 1, 4) {
			it = want[e.Int("inv", len(want))]
		}
		f, declared := m.Fns[it.kind][it.id]
		var args []types.FuncArg
		typesOK := true
		nargs := e.Int("inv", 3)
		if e.Bool("inv", 1, 6) {
			nargs = e.Int("inv", 12)
		}
		for a := nargs; a > 0; a-- {
			s := stdTypes[e.Int("inv", len(stdTypes))]
			if len(known) > 0 && (e.Bool("inv", 1, 2) || nargs > 3 && !e.Bool("inv", 1, 12)) {
				s = known[e.Int("inv", len(known))]
			}
			typesOK = typesOK && supported[s.long]
			if e.Bool("inv", 1, 12) {
				args = append(args, s.typ) // a type argument
				continue
			}
			args = append(args, expr.NewNullLiteral(s.typ.WithNullability(types.NullabilityNullable)))
		}
		var opts []*types.FunctionOption
		optsOK := true
		for n := e.Int("inv", 3); n > 0; n-- {
			o := &types.FunctionOption{Name: []string{"overflow", "rounding", "mode"}[e.Int("inv", 3)]}
			if f.Options[o.Name] == "" && len(f.Options) > 0 && e.Bool("inv", 1, 2) {
				o.Name = sortedKeys(f.Options)[0]
			}
			for p := 1 + e.Int("inv", 2); p > 0; p-- {
				v := []string{f.Options[o.Name], strings.ToLower(f.Options[o.Name]), "ERROR", "SILENT", "x"}[e.Int("inv", 5)]
				o.Preference = append(o.Preference, v)
				optsOK = optsOK && f.Options[o.Name] != "" && strings.EqualFold(f.Options[o.Name], v)
			}
			opts = append(opts, o)
		}
		expect := declared && typesOK && optsOK
		var got localVariant
		var err error
		reg := expr.NewExtensionRegistry(extensions.NewSet(), c)
		switch it.kind {
		case "scalar":
			v, _ := c.GetScalarFunc(it.id)
			inv, e1 := expr.NewCustomScalarFunc(reg, v, &types.BooleanType{}, opts, args...)
			if e1 != nil {
				return fmt.Sprintf("cannot make a call of %v: %v", it.id, e1)
			}
			x, e2 := r.GetScalarFunctionByInvocation(inv)
			if e2 == nil {
				got = x
			}
			err = e2
		case "aggregate":
			v, _ := c.GetAggregateFunc(it.id)
			inv, e1 := expr.NewCustomAggregateFunc(reg, v, &types.BooleanType{}, opts, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, args...)
			if e1 != nil {
				return fmt.Sprintf("cannot make a call of %v: %v", it.id, e1)
			}
			x, e2 := r.GetAggregateFunctionByInvocation(inv)
			if e2 == nil {
				got = x
			}
			err = e2
		default:
			v, _ := c.GetWindowFunc(it.id)
			inv, e1 := expr.NewCustomWindowFunc(reg, v, &types.BooleanType{}, opts, types.AggInvocationAll, types.AggPhaseInitialToResult, args...)
			if e1 != nil {
				return fmt.Sprintf("cannot make a call of %v: %v", it.id, e1)
			}
			x, e2 := r.GetWindowFunctionByInvocation(inv)
			if e2 == nil {
				got = x
			}
			err = e2
		}
		if (err == nil) != expect {
			return fmt.Sprintf("call of %s %v with %d arguments and options %v: error %v; declared %v, types supported %v, options supported %v", it.kind, it.id, len(args), opts, err, declared, typesOK, optsOK)
		}
		if err == nil && localText(got) != f.text() {
			return fmt.Sprintf("call of %s %v finds %s, declared %s", it.kind, it.id, localText(got), f.text())
		}
	}
	return ""
}

// c12Concurrent: several sessions localize one dialect at the same time.
func c12Concurrent(e *eng.Ep) {
	regs := c12Registries(e)
	m := drawDialect(e, regs[0].c, e.Bool("cfg", 1, 4))
	d := c12Load(e, m)
	if d == nil {
		return
	}
	n := 2 + e.Int("ops", 3)
	res := make([]string, n)
	var fns []func()
	for i := 0; i < n; i++ {
		k := e.Int("ops", 4)
		r := regs[e.Int("ops", len(regs))]
		mm := m.modelFor(r)
		e.Trace("task %d: %d", i, k)
		fns = append(fns, func() {
			switch k {
			case 0:
				lr, err := d.LocalizeFunctionRegistry(r.reg)
				if (err == nil) != (len(mm.Missing) == 0) {
					res[i] = fmt.Sprintf("localizing functions: error %v; missing %v", err, mm.Missing)
				} else if err == nil {
					_, res[i] = mm.checkFns(r.c, lr)
				}
			case 1:
				tr, err := d.LocalizeTypeRegistry(functions.NewTypeRegistry())
				if err != nil {
					res[i] = err.Error()
				} else {
					res[i] = m.checkTypes(tr)
				}
			case 2:
				tr, err := d.GetLocalTypeRegistry()
				if err != nil {
					res[i] = err.Error()
				} else {
					res[i] = m.checkTypes(tr)
				}
			default:
				res[i] = mm.check(d, r.c, r.reg)
			}
		})
	}
	e.Concurrent(20000, fns)
	for i, s := range res {
		if s != "" {
			e.Fail("dialect", "concurrent", "task %d: %s\n%s", i, s, m.Text)
			return
		}
	}
	r := regs[0]
	if s := m.modelFor(r).check(d, r.c, r.reg); s != "" {
		e.Fail("dialect", "afterwards", "after the concurrent phase: %s\n%s", s, m.Text)
	}
}
