package scen

import (
	"errors"
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/eng"
	"verifsim/fix"
	"verifsim/obs"
)

func init() {
	register("C11", Scenario{Name: "function-builders", Weight: 2, Run: c11Functions})
}

// fnSet is what a caller has set in a builder of a function.
type fnSet struct {
	kind, name string
	opts       []string
	args       []*bnode
	parts      []*bnode
	sorts      []int
	phase      types.AggregationPhase
	inv        types.AggregationInvocation
	lo, hi     int // 0: not set
	bt         types.BoundsType
}

func (s *fnSet) text() string {
	var l []string
	for _, a := range s.args {
		l = append(l, a.text())
	}
	for _, p := range s.parts {
		l = append(l, "by "+p.text())
	}
	return fmt.Sprintf("%s %s(%s) %v sorts %v %v/%v %d..%d %v", s.kind, s.name, strings.Join(l, ", "), s.opts, s.sorts, s.phase, s.inv, s.lo, s.hi, s.bt)
}

// fnBuilder is the builder the library gave, behind one face.
type fnBuilder struct {
	build func() (any, error)
	args  func([]expr.FuncArgBuilder)
	parts func([]expr.Builder)
	sorts func([]expr.SortField)
	phase func(types.AggregationPhase)
	inv   func(types.AggregationInvocation)
	bound func(lo, hi expr.Bound)
	bt    func(types.BoundsType)
}

func fnBound(k int) expr.Bound {
	switch {
	case k == 1:
		return expr.Unbounded{}
	case k == 2:
		return expr.CurrentRow{}
	case k < 6:
		return expr.PrecedingBound(k - 2)
	}
	return expr.FollowingBound(k - 5)
}

func fnSorts(b *expr.ExprBuilder, l []int) []expr.SortField {
	var out []expr.SortField
	for _, k := range l {
		r, err := b.RootRef(expr.NewStructFieldRef(int32(k % 3))).Build()
		if err != nil {
			panic(err)
		}
		out = append(out, expr.SortField{Expr: r, Kind: types.SortDirection(1 + k/3)})
	}
	return out
}

func fnOptions(l []string) []*types.FunctionOption {
	var out []*types.FunctionOption
	for _, o := range l {
		n, p, _ := strings.Cut(o, "=")
		out = append(out, &types.FunctionOption{Name: n, Preference: strings.Split(p, "|")})
	}
	return out
}

// newFn asks the library for a builder with only the function and options.
func newFn(b *expr.ExprBuilder, s *fnSet) *fnBuilder {
	opts := fnOptions(s.opts)
	switch s.kind {
	case "scalar":
		w := b.ScalarFunc(extensions.FunctionID{URN: "extension:sim:base", Name: s.name}, opts...)
		return &fnBuilder{build: func() (any, error) {
			x, err := w.Build()
			return x, err
		}, args: func(l []expr.FuncArgBuilder) { w.Args(l...) }}
	case "aggregate":
		w := b.AggFunc(extensions.FunctionID{URN: "extension:sim:agg", Name: s.name}, opts...)
		return &fnBuilder{build: func() (any, error) {
			x, err := w.Build()
			return x, err
		}, args: func(l []expr.FuncArgBuilder) { w.Args(l...) }, sorts: func(l []expr.SortField) { w.Sorts(l...) },
			phase: func(p types.AggregationPhase) { w.Phase(p) }, inv: func(i types.AggregationInvocation) { w.Invocation(i) }}
	}
	w := b.WindowFunc(extensions.FunctionID{URN: "extension:sim:agg", Name: s.name}, opts...)
	return &fnBuilder{build: func() (any, error) {
		x, err := w.Build()
		return x, err
	}, args: func(l []expr.FuncArgBuilder) { w.Args(l...) }, sorts: func(l []expr.SortField) { w.Sort(l...) }, parts: func(l []expr.Builder) { w.Partitions(l...) },
		phase: func(p types.AggregationPhase) { w.Phase(p) }, inv: func(i types.AggregationInvocation) { w.Invocation(i) },
		bound: func(lo, hi expr.Bound) { w.Bounds(lo, hi) }, bt: func(t types.BoundsType) { w.BoundsType(t) }}
}

func (f *fnBuilder) setArgs(b *expr.ExprBuilder, s *fnSet, c *callerCtl) {
	var l []expr.FuncArgBuilder
	for _, a := range s.args {
		l = append(l, a.make(b, c))
	}
	f.args(l)
}

func (f *fnBuilder) setParts(b *expr.ExprBuilder, s *fnSet, c *callerCtl) {
	var l []expr.Builder
	for _, a := range s.parts {
		l = append(l, a.make(b, c))
	}
	f.parts(l)
}

// fnCanon is what a function built is.
func fnCanon(x any, reg expr.ExtensionRegistry) string {
	switch f := x.(type) {
	case *expr.AggregateFunction:
		id, ok := reg.DecodeFunc(f.ToProto().FunctionReference)
		var args, sorts []string
		for i := 0; i < f.NArgs(); i++ {
			a := f.Arg(i)
			if y, ok := a.(expr.Expression); ok {
				args = append(args, canonExpr(y, reg))
			} else {
				args = append(args, obs.Text(a.ToProtoFuncArg()))
			}
		}
		for _, s := range f.Sorts {
			sorts = append(sorts, canonExpr(s.Expr, reg)+fmt.Sprint(s.Kind))
		}
		var opts []string
		for _, o := range f.GetOptions() {
			opts = append(opts, obs.Text(o))
		}
		return fmt.Sprintf("%v %v %v sorts %v opts %v %v %v %v", id, ok, args, sorts, opts, f.Phase(), f.Invocation(), f.GetType())
	case expr.Expression:
		return canonExpr(f, reg)
	}
	return fmt.Sprintf("%T", x)
}

func drawArgs(e *eng.Ep, s *fnSet) {
	s.args = nil
	n := 1
	if s.name == "add:i64_i64" {
		n = 2
	}
	if e.Int("b", 10) == 9 {
		n++ // one too many
	}
	for i := 0; i < n; i++ {
		s.args = append(s.args, drawBNode(e, []string{"i64", "i64", "i64", "i64", "str"}[e.Int("b", 5)], e.Int("b", 3), nil))
	}
}

// c11Functions: builders of functions are set up step by step and built after
// any of the steps, with callers' builders among their arguments that fail.  A
// builder builds what was set last, as a new one with the same settings does.
func c11Functions(e *eng.Ep) {
	coll := fix.Sim()
	schema := recordOf(e05Schema)
	reg := expr.NewEmptyExtensionRegistry(coll)
	a := &expr.ExprBuilder{Reg: reg, BaseSchema: schema}
	ctl := &callerCtl{}
	type live struct {
		b   *fnBuilder
		set *fnSet
	}
	var all []*live
	var kept []any
	var texts []string
	view := func(x any) string { return fnCanon(x, reg) + obs.Dump(x) }
	optPool := []string{"overflow=SILENT", "overflow=ERROR|SATURATE", "rounding=FLOOR", "x="}
	steps := 4 + e.Count("cfg", 14)
	for i := 0; i < steps; i++ {
		if len(all) == 0 || (len(all) < 4 && e.Bool("hist", 1, 5)) {
			s := &fnSet{}
			switch e.Int("hist", 3) {
			case 0:
				s.kind, s.name = "scalar", "add:i64_i64"
			case 1:
				s.kind, s.name = "aggregate", "sum:i64"
			default:
				s.kind, s.name = "window", "sum:i64"
			}
			if e.Int("hist", 8) == 7 {
				s.name = "none:i64"
			}
			for k := e.Int("hist", 3); k > 0; k-- {
				s.opts = append(s.opts, optPool[e.Int("hist", len(optPool))])
			}
			l := &live{newFn(a, s), s}
			drawArgs(e, s)
			l.b.setArgs(a, s, ctl)
			if s.kind != "scalar" {
				s.phase, s.inv = types.AggPhaseInitialToResult, types.AggInvocationAll
				l.b.phase(s.phase)
				l.b.inv(s.inv)
			}
			all = append(all, l)
			e.Trace("new %s", s.text())
		}
		l := all[e.Int("hist", len(all))]
		s := l.set
		switch k := e.Int("hist", 8); {
		case k == 0:
			drawArgs(e, s)
			l.b.setArgs(a, s, ctl)
		case k == 1 && l.b.parts != nil:
			s.parts = nil
			for n := e.Int("b", 3); n > 0; n-- {
				s.parts = append(s.parts, drawBNode(e, "", e.Int("b", 3), nil))
			}
			l.b.setParts(a, s, ctl)
		case k == 2 && l.b.sorts != nil:
			s.sorts = nil
			for n := e.Int("b", 3); n > 0; n-- {
				s.sorts = append(s.sorts, e.Int("b", 12))
			}
			l.b.sorts(fnSorts(a, s.sorts))
		case k == 3 && l.b.phase != nil:
			s.phase = types.AggregationPhase(1 + e.Int("b", 4))
			l.b.phase(s.phase)
		case k == 4 && l.b.inv != nil:
			s.inv = types.AggregationInvocation(1 + e.Int("b", 2))
			l.b.inv(s.inv)
		case k == 5 && l.b.bound != nil:
			s.lo, s.hi = 1+e.Int("b", 8), 1+e.Int("b", 8)
			l.b.bound(fnBound(s.lo), fnBound(s.hi))
		case k == 6 && l.b.bt != nil:
			s.bt = types.BoundsType(1 + e.Int("b", 2))
			l.b.bt(s.bt)
		}
		if e.Int("hist", 3) == 0 {
			continue
		}
		callers := 0
		for _, n := range append(append([]*bnode{}, s.args...), s.parts...) {
			callers += n.callers()
		}
		*ctl = callerCtl{fault: -1}
		if callers > 0 && e.Bool("hist", 1, 2) {
			*ctl = callerCtl{fault: e.Int("hist", callers), panic: e.Bool("hist", 1, 2), on: true}
		}
		e.Trace("build %s fault %d panic %v", s.text(), ctl.fault, ctl.panic)
		var x any
		got := obs.Call(func() string {
			var err error
			if x, err = l.b.build(); err != nil {
				if ctl.fired && !errors.Is(err, errCallback) {
					e.Fail("mismatch", "cause", "the failure of a caller's builder was not passed on: %v", err)
				}
				x = nil
				return "error"
			}
			return fnCanon(x, reg)
		})
		if ctl.fired {
			e.Fault(map[bool]string{true: "caller_panic", false: "caller_error"}[ctl.panic])
			e.Nontrivial = true
			if got != "error" && !strings.HasPrefix(got, "PANIC") {
				e.Fail("mismatch", "swallowed", "the failure of a caller's builder was ignored: %s", clip(got, 300))
				return
			}
			continue
		}
		freshReg := expr.NewEmptyExtensionRegistry(coll)
		fb := &expr.ExprBuilder{Reg: freshReg, BaseSchema: schema}
		want := obs.Call(func() string {
			f := newFn(fb, s)
			c := &callerCtl{}
			f.setArgs(fb, s, c)
			if f.parts != nil {
				f.setParts(fb, s, c)
				if s.lo > 0 {
					f.bound(fnBound(s.lo), fnBound(s.hi))
				}
				f.bt(s.bt)
			}
			if f.sorts != nil {
				f.sorts(fnSorts(fb, s.sorts))
				f.phase(s.phase)
				f.inv(s.inv)
			}
			y, err := f.build()
			if err != nil {
				return "error"
			}
			return fnCanon(y, freshReg)
		})
		e.Digest(want)
		e.State("fn", s.kind, want == "error", len(s.parts), len(s.sorts), s.lo, s.hi)
		if want != "error" {
			e.Probe("built:" + s.kind)
			e.Nontrivial = true
		} else {
			e.Probe("rejected:" + s.kind)
		}
		if got != want {
			e.Fail("mismatch", "builder", "%s: with a new builder / with this one: %s", s.text(), firstDiff(want, got))
			return
		}
		if x != nil {
			kept, texts = append(kept, x), append(texts, view(x))
		}
	}
	for i, x := range kept {
		if s := view(x); s != texts[i] {
			e.Fail("altered", "expression", "an expression built earlier changed: %s", firstDiff(texts[i], s))
			return
		}
	}
}
