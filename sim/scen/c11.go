package scen

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/testcases/parser"
	"github.com/substrait-io/substrait-go/v8/types"
	tparser "github.com/substrait-io/substrait-go/v8/types/parser"

	"verifsim/api"
	"verifsim/eng"
	"verifsim/fix"
	"verifsim/flt"
	"verifsim/gen"
	"verifsim/obs"
)

func init() {
	register("C11", Scenario{Name: "failed-operations", Weight: 4, Run: c11Failures})
	register("C11", Scenario{Name: "failed-steps", Weight: 3, Run: c11Steps})
	register("C11", Scenario{Name: "failed-builders", Weight: 3, Run: c11Builders})
	register("C11", Scenario{Name: "owned-objects", Weight: 2, Run: c11Owned})
}

// c11Failures runs operations on a set of live objects with failing ones in
// between and compares them with the same operations without any failure.
func c11Failures(e *eng.Ep) {
	spec := drawSpec(e, 1)
	var good, bad []op
	for i := 2 + e.Int("cfg", 6); i > 0; i-- {
		good = append(good, spec.drawOf(e, nil))
	}
	for i := 1 + e.Count("cfg", 8); i > 0; i-- {
		bad = append(bad, spec.drawBad(e))
	}
	var want, got []string
	var before, after map[string]string
	e.Serial("operations without failures", 200_000_000, func() {
		b := spec.make()
		for _, o := range good {
			want = append(want, o.run(b))
		}
	})
	if e.Failed() {
		return
	}
	e.Serial("operations with failures", 200_000_000, func() {
		a := spec.make()
		before = a.snapshot()
		k := 0
		for i, o := range good {
			for k < len(bad) && (i == len(good)-1 || e.Bool("hist", 1, 2)) {
				e.Trace("failing: %s", bad[k].name)
				r := bad[k].run(a)
				e.Digest(r)
				if strings.Contains(r, "error") || strings.Contains(r, "PANIC") {
					e.Fault("failed_" + bad[k].kind)
					e.Nontrivial = true
				} else {
					e.Probe("succeeded_" + bad[k].kind)
				}
				k++
			}
			e.Trace("%s", o.name)
			got = append(got, o.run(a))
		}
		after = a.snapshot()
	})
	if e.Failed() {
		return
	}
	for i, o := range good {
		e.Digest(got[i])
		if got[i] != want[i] {
			e.Fail("mismatch", "after-failure:"+o.kind, "%s: without / after failures: %s", o.name, firstDiff(want[i], got[i]))
			return
		}
	}
	for k := range before {
		// declarations that were registered for nothing are allowed
		if strings.HasPrefix(k, "registry") {
			delete(before, k)
			delete(after, k)
		}
	}
	if s, d := diffMaps(before, after); s != "" {
		e.Fail("altered", "altered:"+objKind(s), "a failed operation changed %s: %s", s, d)
	}
}

var badKinds = []struct {
	name   string
	weight int
	draw   func(s *opSpec, e *eng.Ep) *op
}{
	{"rewrite", 4, (*opSpec).badRewrite},
	{"visit", 3, (*opSpec).badVisit},
	{"plan", 5, (*opSpec).badPlan},
	{"decoder", 3, (*opSpec).badDecoder},
	{"expr", 4, (*opSpec).badExpr},
	{"type", 3, (*opSpec).badType},
	{"load", 3, (*opSpec).badLoad},
	{"dialect", 2, (*opSpec).badDialect},
	{"testfile", 2, (*opSpec).badTestFile},
	{"build", 4, (*opSpec).badBuild},
	{"literal", 2, (*opSpec).badLiteral},
	{"remap", 3, (*opSpec).badRemap},
	{"lookup", 2, (*opSpec).badLookup},
}

func (s *opSpec) drawBad(e *eng.Ep) op {
	total := 0
	for _, k := range badKinds {
		total += k.weight
	}
	for try := 0; ; try++ {
		n := e.Int("op", total)
		if try > 20 {
			n = (n + try) % total
		}
		for _, k := range badKinds {
			if n < k.weight {
				if o := k.draw(s, e); o != nil {
					return o.wrap(k.name)
				}
				break
			}
			n -= k.weight
		}
	}
}

// dropOne removes or corrupts something inside a message.
func dropOne(e *eng.Ep, m proto.Message) string {
	type place struct {
		m protoreflect.Message
		f protoreflect.FieldDescriptor
	}
	var l []place
	obs.Walk(m.ProtoReflect(), func(x protoreflect.Message) {
		if x.Descriptor().FullName() == "google.protobuf.Any" {
			return
		}
		fds := x.Descriptor().Fields()
		for i := 0; i < fds.Len(); i++ {
			if f := fds.Get(i); x.Has(f) {
				l = append(l, place{x, f})
			}
		}
	})
	if len(l) == 0 {
		return ""
	}
	p := l[e.Int("op", len(l))]
	d := string(p.f.FullName())
	switch {
	case p.f.Kind() == protoreflect.Uint32Kind && !p.f.IsList() && e.Bool("op", 2, 3):
		p.m.Set(p.f, protoreflect.ValueOfUint32(uint32(p.m.Get(p.f).Uint())+7777))
		return d + "+7777"
	case p.f.Kind() == protoreflect.Int32Kind && !p.f.IsList() && e.Bool("op", 2, 3):
		p.m.Set(p.f, protoreflect.ValueOfInt32(1<<29))
		return d + "=2^29"
	case p.f.IsList() && e.Bool("op", 1, 2):
		v := p.m.Mutable(p.f).List()
		v.Truncate(v.Len() - 1)
		return d + "-last"
	}
	p.m.Clear(p.f)
	return d + " cleared"
}

func (s *opSpec) badRewrite(e *eng.Ep) *op {
	i, at, mode := e.Int("op", 64), e.Int("op", 4), e.Int("op", 3)
	return &op{name: fmt.Sprint("rewrite rel ", i, " failing at ", at, " ", mode), run: func(w *world) string {
		if len(w.rels) == 0 {
			return ""
		}
		r := w.rels[i%len(w.rels)]
		n := 0
		_, err := r.CopyWithExpressionRewrite(func(x expr.Expression) (expr.Expression, error) {
			if x == nil {
				return nil, nil
			}
			if n++; n > at {
				if mode == 0 {
					panic(errCallback)
				}
				return nil, errCallback
			}
			return nullOf(x), nil
		}, r.GetInputs()...)
		if err != nil && mode != 0 && !errors.Is(err, errCallback) {
			return "error"
		}
		return errText(err)
	}}
}

func (s *opSpec) badVisit(e *eng.Ep) *op {
	i, at := e.Int("op", len(s.exprs)), 1+e.Int("op", 4)
	return &op{name: fmt.Sprint("visit ", i, " panicking at ", at), run: func(w *world) string {
		n := 0
		var f expr.VisitFunc
		f = func(y expr.Expression) expr.Expression {
			if n++; n > at {
				panic(errCallback)
			}
			if y == nil {
				return nil
			}
			if z := y.Visit(f); n%2 == 0 || y.GetType() == nil {
				return z
			}
			return nullOf(y)
		}
		w.exprs[i].Visit(f)
		return ""
	}}
}

func (s *opSpec) badPlan(e *eng.Ep) *op {
	m := clone(s.plans[e.Int("op", len(s.plans))]).(*pb.Plan)
	d := dropOne(e, m)
	if e.Bool("op", 1, 3) {
		d += dropOne(e, m)
	}
	return &op{name: "decode a plan with " + d, run: func(w *world) string {
		p, err := plan.FromProtoWithDecoder(clone(m).(*pb.Plan), w.coll, fix.Decoders())
		if err != nil {
			return "error"
		}
		return planText(p)
	}}
}

type badExtDecoder struct {
	n, at int
	panic bool
}

func (d *badExtDecoder) DecodeExtensionRel(a *anypb.Any) (any, error) {
	if d.n++; d.n > d.at {
		if d.panic {
			panic(errCallback)
		}
		return nil, errCallback
	}
	return fix.SchemaDecoder{}.DecodeExtensionRel(a)
}

func (s *opSpec) badDecoder(e *eng.Ep) *op {
	i, at, pan := e.Int("op", len(s.plans)), e.Int("op", 3), e.Bool("op", 1, 2)
	return &op{name: fmt.Sprint("decode plan ", i, " with a decoder failing at ", at), run: func(w *world) string {
		m := map[string]expr.ExtensionRelDecoder{}
		for u := range fix.Decoders() {
			m[u] = &badExtDecoder{at: at, panic: pan}
		}
		_, err := plan.FromProtoWithDecoder(clone(s.plans[i]).(*pb.Plan), w.coll, m)
		return errText(err)
	}}
}

func (s *opSpec) badExpr(e *eng.Ep) *op {
	i := e.Int("op", len(s.exprs))
	m := clone(s.exprs[i].m).(*pb.Expression)
	d := dropOne(e, m)
	empty, build := e.Bool("op", 1, 4), e.Bool("op", 1, 3)
	return &op{name: "decode an expression with " + d, run: func(w *world) string {
		sc := w.schemas[i]
		if empty {
			sc = recordOf(nil)
		}
		if build {
			b := &api.B{Reg: w.regs[i], Schema: sc, Used: map[string]int{}}
			_, err := b.Expr(clone(m).(*pb.Expression))
			return errText(err)
		}
		_, err := expr.ExprFromProto(clone(m).(*pb.Expression), sc, w.regs[i])
		return errText(err)
	}}
}

func (s *opSpec) badType(e *eng.Ep) *op {
	txt := []byte(typeTexts[e.Int("op", len(typeTexts))])
	for i := 1 + e.Int("op", 2); i > 0 && len(txt) > 0; i-- {
		k := e.Int("op", len(txt))
		switch e.Int("op", 3) {
		case 0:
			txt = append(txt[:k:k], txt[k+1:]...)
		case 1:
			txt[k] = "<>?,:)@\n"[e.Int("op", 8)]
		default:
			txt = txt[:k]
		}
	}
	return &op{name: fmt.Sprintf("parse %q", txt), run: func(w *world) string {
		_, err := tparser.ParseType(string(txt))
		_, err2 := w.treg.GetTypeFromTypeString(string(txt))
		return errText(err) + errText(err2)
	}}
}

func (s *opSpec) badLoad(e *eng.Ep) *op {
	if s.shared != nil {
		return nil
	}
	f := fix.Files[e.Int("op", len(fix.Files))]
	txt := strings.ReplaceAll(f.Text, f.URN, f.URN+"2")
	var p *flt.Plan
	k := e.Int("op", 4)
	switch k {
	case 0: // loaded already
		txt = f.Text
	case 1: // broken text
		n := e.Int("op", len(txt))
		txt = txt[:n] + "\n  : [" + txt[n:]
	case 2: // broken definitions
		txt = strings.Replace(txt, "value: i64}", "value: \"lst<\"}", 1+e.Int("op", 3))
		txt += "\nscalar_functions: 3\n"
	}
	p = flt.Draw(e, len(txt), true)
	if k == 3 && p.ErrAt < 0 {
		p.ErrAt = e.Int("op", len(txt))
		p.Err = &flt.InjectedError{Op: "read"}
	}
	return &op{name: fmt.Sprint("load ", f.URN, " badly ", k), run: func(w *world) string {
		return errText(w.coll.Load(flt.NewReader(e, []byte(txt), p.Fresh())))
	}}
}

func (s *opSpec) badDialect(e *eng.Ep) *op {
	if s.dl == nil {
		return nil
	}
	txt, k := s.dl.Text, e.Int("op", 3)
	switch k {
	case 0:
		txt = txt[:e.Int("op", len(txt))] + "\n ]{"
	case 1:
		txt += "\nscalar_functions:\n- name: NOT.THERE\n"
	}
	p := flt.Draw(e, len(txt), k == 2)
	return &op{name: fmt.Sprint("bad dialect ", k), run: func(w *world) string {
		d, err := functions.LoadDialect("bad", flt.NewReader(e, []byte(txt), p.Fresh()))
		if err != nil {
			return "error"
		}
		_, err = d.LocalizeFunctionRegistry(functions.NewFunctionRegistry(fix.Load(fix.Files[0])))
		_, err2 := d.LocalizeTypeRegistry(w.treg)
		_, err3 := w.dialect.LocalizeFunctionRegistry(functions.NewFunctionRegistry(fix.Load(fix.Files[0])))
		return errText(err) + errText(err2) + errText(err3)
	}}
}

func (s *opSpec) badTestFile(e *eng.Ep) *op {
	if s.tf == nil {
		return nil
	}
	n := e.Int("op", len(s.tf.Text))
	txt := s.tf.Text[:n] + []string{"", "\x00", "f(", "::", "<!ERROR", "'"}[e.Int("op", 6)]
	return &op{name: "bad test file", run: func(w *world) string {
		t, err := parser.ParseTestCasesFromString(txt)
		if err != nil {
			return "error"
		}
		reg := expr.NewEmptyExtensionRegistry(extensions.GetDefaultCollectionWithNoError())
		for _, tc := range t.TestCases {
			_, err = tc.GetScalarFunctionInvocation(&reg, w.freg)
		}
		return errText(err)
	}}
}

func (s *opSpec) badLiteral(e *eng.Ep) *op {
	k := e.Int("op", 10)
	txt := []string{"nope", "", "2023-13-01", "P", "1.2.3", "99:99:99", "\x00", "123456789012345678901234567890123456789012"}[e.Int("op", 8)]
	return &op{name: fmt.Sprintf("literal %d %q", k, txt), run: func(w *world) string {
		_, err := literalOf(k, txt, 12, true)
		_, err2 := expr.NewLiteral(&types.Decimal{Value: make([]byte, 3), Precision: 50, Scale: 60}, false)
		return errText(err) + errText(err2)
	}}
}

func (s *opSpec) badRemap(e *eng.Ep) *op {
	i, k := e.Int("op", 64), e.Int("op", 4)
	return &op{name: fmt.Sprint("bad change of rel ", i, " ", k), run: func(w *world) string {
		if len(w.rels) == 0 {
			return ""
		}
		r := w.rels[i%len(w.rels)]
		n := r.RecordType().FieldCount()
		var err error
		switch k {
		case 0:
			_, err = r.Remap(0, n)
		case 1:
			_, err = r.Remap(-1)
		case 2:
			_, err = r.Copy(append(append([]plan.Rel{}, r.GetInputs()...), r, r)...)
		default:
			_, err = r.CopyWithExpressionRewrite(rewriter(0))
		}
		return errText(err)
	}}
}

// badLookup asks for what is not there or does not fit.
func (s *opSpec) badLookup(e *eng.Ep) *op {
	it := s.item(e)
	k := e.Int("op", len(probeTypes))
	return &op{name: "bad call of " + it.Name, run: func(w *world) string {
		reg := w.regs[0]
		args := []types.FuncArg{expr.NewNullLiteral(probeTypes[k].WithNullability(types.NullabilityNullable)), types.Enum("NONE")}
		var out []string
		try := func(f func() error) { out = append(out, obs.Call(func() string { return errText(f()) })) }
		id := extensions.FunctionID{URN: it.URN, Name: it.Name}
		short := extensions.FunctionID{URN: it.URN}
		short.Name, _, _ = strings.Cut(it.Name, ":")
		opts := []*types.FunctionOption{{Name: "nope"}}
		for _, id := range []extensions.FunctionID{id, short} {
			try(func() error { _, err := expr.NewScalarFunc(reg, id, opts, args...); return err })
			try(func() error {
				_, err := expr.NewAggregateFunc(reg, id, opts, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, args...)
				return err
			})
			try(func() error {
				_, err := expr.NewWindowFunc(reg, id, opts, types.AggInvocationAll, types.AggPhaseInitialToResult, args...)
				return err
			})
		}
		reg.LookupScalarFunction(9999)
		reg.LookupType(9999)
		reg.DecodeFunc(9999)
		return fmt.Sprint(out)
	}}
}

// badSteps are rejected calls of a plan builder on relations built so far.
var badSteps = []struct {
	name string
	run  func(b plan.Builder, r plan.Rel, v int) error
}{
	{"remap", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := r.Remap(int32(v), r.RecordType().FieldCount())
		return err
	}},
	{"project nothing", func(b plan.Builder, r plan.Rel, v int) error { _, err := b.Project(r); return err }},
	{"project nil", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.Project(nil, expr.NewPrimitiveLiteral(true, false))
		return err
	}},
	{"project remap", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.ProjectRemap(r, []int32{0, 999}, expr.NewPrimitiveLiteral(int32(v), false))
		return err
	}},
	{"filter", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.Filter(r, expr.NewPrimitiveLiteral(int32(v), false))
		return err
	}},
	{"filter remap", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.FilterRemap(r, expr.NewPrimitiveLiteral(true, false), []int32{-1})
		return err
	}},
	{"sort nothing", func(b plan.Builder, r plan.Rel, v int) error { _, err := b.Sort(r); return err }},
	{"sort", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.SortRemap(r, []int32{77}, expr.SortField{Expr: expr.NewPrimitiveLiteral(int32(v), false), Kind: types.SortAscNullsFirst})
		return err
	}},
	{"join", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.Join(r, r, expr.NewPrimitiveLiteral(int32(1), false), plan.JoinTypeInner)
		return err
	}},
	{"join type", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.Join(r, r, expr.NewPrimitiveLiteral(true, false), plan.JoinTypeUnspecified)
		return err
	}},
	{"join filter", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.JoinAndFilter(r, r, expr.NewPrimitiveLiteral(true, false), expr.NewPrimitiveLiteral("x", false), plan.JoinTypeOuter)
		return err
	}},
	{"cross", func(b plan.Builder, r plan.Rel, v int) error { _, err := b.CrossRemap(r, r, []int32{-2}); return err }},
	{"set", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.Set(plan.SetOpUnspecified, r, r)
		return err
	}},
	{"set types", func(b plan.Builder, r plan.Rel, v int) error {
		p, err := b.Project(r, expr.NewPrimitiveLiteral(true, false))
		if err != nil {
			return err
		}
		_, err = b.Set(plan.SetOpUnionAll, r, p)
		return err
	}},
	{"fetch", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.FetchRemap(r, -1, int64(v), []int32{55})
		return err
	}},
	{"scan", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.NamedScanRemap([]string{"x"}, namedStruct(r), []int32{88})
		return err
	}},
	{"field", func(b plan.Builder, r plan.Rel, v int) error { _, err := b.RootFieldRef(r, 4000); return err }},
	{"joined field", func(b plan.Builder, r plan.Rel, v int) error { _, err := b.JoinedRecordFieldRef(r, r, -1); return err }},
	{"sort fields", func(b plan.Builder, r plan.Rel, v int) error { _, err := b.SortFields(r, 0, 4000); return err }},
	{"function", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.ScalarFn("extension:sim:base", "add:i64_i64", nil, expr.NewPrimitiveLiteral("x", false))
		return err
	}},
	{"no function", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.ScalarFn("extension:sim:none", fmt.Sprint("f", v), nil)
		return err
	}},
	{"aggregate function", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.AggregateFn("extension:sim:agg", "sum:i64", nil)
		return err
	}},
	{"aggregate nothing", func(b plan.Builder, r plan.Rel, v int) error { _, err := b.AggregateColumns(r, nil); return err }},
	{"aggregate column", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.AggregateColumns(r, nil, 0, 5000)
		return err
	}},
	{"grouping set", func(b plan.Builder, r plan.Rel, v int) error {
		a := b.GetRelBuilder().AggregateRel(r, nil)
		a.AddExpression(expr.NewPrimitiveLiteral(true, false))
		a.AddGroupingSet([]uint32{0, 9})
		_, err := a.Build()
		return err
	}},
	{"virtual table", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.VirtualTable([]string{"a", "b"}, expr.StructLiteralValue{expr.NewPrimitiveLiteral(true, false)})
		return err
	}},
	{"virtual rows", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.VirtualTableFromExpr([]string{"a"}, expr.VirtualTableExpressionValue{expr.NewPrimitiveLiteral(true, false)}, expr.VirtualTableExpressionValue{expr.NewPrimitiveLiteral("x", false)})
		return err
	}},
	{"create", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.CreateTableAsSelect(nil, nil, types.NamedStruct{})
		return err
	}},
	{"write", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.NamedWriteRemap(r, plan.WriteOpUnspecified, []string{"t"}, namedStruct(r), []int32{99})
		return err
	}},
	{"plan names", func(b plan.Builder, r plan.Rel, v int) error {
		n := r.RecordType()
		_, err := b.Plan(r, make([]string, n.AsStructType().DepthFirstNameCount()+1))
		return err
	}},
	{"plan bindings", func(b plan.Builder, r plan.Rel, v int) error {
		n := r.RecordType()
		_, err := b.PlanWithBindings(r, make([]string, n.AsStructType().DepthFirstNameCount()), nil, []plan.DynamicParameterBinding{{ParameterAnchor: 1, Value: expr.NewPrimitiveLiteral(true, false)}, {ParameterAnchor: 1, Value: expr.NewPrimitiveLiteral(true, false)}})
		return err
	}},
	{"subquery", func(b plan.Builder, r plan.Rel, v int) error { _, err := b.ScalarSubquery(nil); return err }},
	{"in subquery", func(b plan.Builder, r plan.Rel, v int) error { _, err := b.InPredicateSubquery(nil, r); return err }},
	{"extension", func(b plan.Builder, r plan.Rel, v int) error { _, err := b.ExtensionLeaf(panicDef{}); return err }},
	{"extensions", func(b plan.Builder, r plan.Rel, v int) error {
		x, err := b.ExtensionMulti([]plan.Rel{r, r}, panicDef{})
		if err == nil {
			_ = x.RecordType()
		}
		return err
	}},
	{"rewrite", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := r.CopyWithExpressionRewrite(rewriter(3), r.GetInputs()...)
		return err
	}},
	{"rewrite panic", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := r.CopyWithExpressionRewrite(func(expr.Expression) (expr.Expression, error) { panic(errCallback) }, r.GetInputs()...)
		return err
	}},
	{"lambda", func(b plan.Builder, r plan.Rel, v int) error {
		x := b.GetExprBuilder()
		_, err := x.Lambda(&types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{&types.Int64Type{Nullability: types.NullabilityRequired}}}, failing{v&1 == 0}).Build()
		return err
	}},
	{"lambda reference", func(b plan.Builder, r plan.Rel, v int) error {
		_, err := b.GetExprBuilder().LambdaParamRef(expr.StructFieldRef{Field: 0}, 0).Build()
		return err
	}},
}

// panicDef is a caller's relation definition that panics.
type panicDef struct{}

func (panicDef) Schema([]plan.Rel) types.RecordType       { panic(errCallback) }
func (panicDef) Build([]plan.Rel) *anypb.Any              { panic(errCallback) }
func (panicDef) Expressions([]plan.Rel) []expr.Expression { panic(errCallback) }

// failing is a caller's expression builder that fails.
type failing struct{ panic bool }

func (f failing) BuildExpr() (expr.Expression, error) {
	if f.panic {
		panic(errCallback)
	}
	return nil, errCallback
}

func (f failing) BuildFuncArg() (types.FuncArg, error) { return f.BuildExpr() }

func (s *opSpec) badBuild(e *eng.Ep) *op {
	i, k, v := e.Int("op", 64), e.Int("op", len(badSteps)), e.Int("op", 9)
	return &op{name: "rejected step " + badSteps[k].name, run: func(w *world) string {
		if len(w.rels) == 0 {
			return ""
		}
		return errText(badSteps[k].run(plan.NewBuilder(w.coll), w.rels[i%len(w.rels)], v))
	}}
}

// c11Steps builds a plan with rejected steps in between and compares it with
// the plan built without them.
func c11Steps(e *eng.Ep) {
	coll, cat := worldCat(e)
	pr := drawProg(e, cat)
	e.State(len(pr.nodes))
	a, b := pr.session(coll), pr.session(coll)
	run := func(what string, f func() error) string {
		return obs.Call(func() string { return what + errText(f()) })
	}
	for i := range pr.nodes {
		for k := e.Int("hist", 4); k > 0; k-- {
			var r plan.Rel
			if i > 0 {
				r = a.rels[e.Int("hist", i)]
			} else {
				r = plan.NewBuilder(coll).NamedScan([]string{"x"}, types.NamedStruct{Names: []string{"a"}, Struct: types.StructType{Types: []types.Type{&types.Int64Type{Nullability: types.NullabilityRequired}}, Nullability: types.NullabilityRequired}})
			}
			bs := badSteps[e.Int("hist", len(badSteps))]
			v := e.Int("hist", 9)
			before := relText(r)
			s := run("", func() error { return bs.run(a.b, r, v) })
			if s == "ok" {
				e.Probe("accepted:" + bs.name)
			} else {
				e.Fault("rejected_step")
				e.Nontrivial = true
			}
			e.Trace("%s on a built relation: %s", bs.name, clip(s, 60))
			if after := relText(r); after != before {
				e.Fail("altered", "altered:"+bs.name, "the rejected step %s changed its relation: %s", bs.name, firstDiff(before, after))
				return
			}
		}
		if e.Bool("hist", 1, 4) {
			// the step itself fails first: one of its inputs is not there, or
			// its expressions are broken
			bad := *a
			bad.rels = map[int]plan.Rel{}
			for k, r := range a.rels {
				bad.rels[k] = r
			}
			n := pr.nodes[i]
			m := clone(n.rel).(*pb.Rel)
			d := dropOne(e, m)
			p2 := *pr
			p2.nodes = append([]progNode{}, pr.nodes...)
			p2.nodes[i].rel = m
			bad.pr = &p2
			if len(n.kids) > 0 && e.Bool("hist", 1, 3) {
				delete(bad.rels, n.kids[0])
				d += " and without an input"
			}
			s := run("", func() error { return bad.step(i) })
			e.Trace("step %d with %s: %s", i, d, clip(s, 60))
			if s != "ok" {
				e.Fault("rejected_step")
				e.Nontrivial = true
			}
		}
		sa := run("", func() error { return a.step(i) })
		sb := run("", func() error { return b.step(i) })
		e.Trace("step %d: %s", i, clip(sb, 60))
		if sa != sb {
			e.Fail("mismatch", "step", "step %d (%s): %s without failures, %s after some", i, featRel(pr.nodes[i].rel), sb, sa)
			return
		}
		if sb != "ok" {
			e.Probe("step_not_built")
			return
		}
		ta, tb := a.rels[i].RecordType(), b.rels[i].RecordType()
		if x, y := ta.String(), tb.String(); x != y && !strings.Contains(x, "u!") {
			e.Fail("mismatch", "schema", "step %d: schema %s without failures, %s after some", i, y, x)
			return
		}
	}
	ma, _, ea := a.finish()
	mb, _, eb := b.finish()
	if (ea == nil) != (eb == nil) {
		e.Fail("mismatch", "finish", "finishing the plan: error %v without failures, %v after some", eb, ea)
		return
	}
	if ea != nil {
		e.Probe("plan_rejected")
		return
	}
	samePlan(e, "after failures", mb, ma, true)
}

func drawProg(e *eng.Ep, cat *gen.Catalog) *prog {
	g := gen.New(e, "gen", cat, budget(e, 4, 16))
	return newProg(e, "prog", g.APIPlan(1+e.Int("cfg", 3)).Plan)
}

func namedStruct(r plan.Rel) types.NamedStruct {
	rt := r.RecordType()
	n := types.NamedStruct{Struct: *rt.AsStructType()}
	for i := n.Struct.DepthFirstNameCount(); i > 0; i-- {
		n.Names = append(n.Names, fmt.Sprint("c", i))
	}
	return n
}

func featRel(r *pb.Rel) string { return fmt.Sprintf("%T", r.RelType) }

// c11Builders: expression builders are built, with callers' builders among
// their arguments that fail now and then, and built again.
func c11Builders(e *eng.Ep) {
	coll := fix.Sim()
	schema := recordOf(e05Schema)
	type attempt struct {
		node  *bnode
		fault int // -1: none
		panic bool
	}
	var nodes []*bnode
	for i := 1 + e.Int("cfg", 4); i > 0; i-- {
		nodes = append(nodes, drawBNode(e, "", 1+e.Int("cfg", 3), nil))
	}
	var atts []attempt
	for i := 2 + e.Int("cfg", 6); i > 0; i-- {
		t := attempt{node: nodes[e.Int("cfg", len(nodes))], fault: -1}
		if n := t.node.callers(); n > 0 && e.Bool("cfg", 1, 2) {
			t.fault, t.panic = e.Int("cfg", n), e.Bool("cfg", 1, 2)
		}
		atts = append(atts, t)
	}
	reg := expr.NewEmptyExtensionRegistry(coll)
	a := &expr.ExprBuilder{Reg: reg, BaseSchema: schema}
	built := map[*bnode]expr.Builder{}
	ctl := &callerCtl{}
	var kept []expr.Expression
	var texts []string
	for i, t := range atts {
		e.Trace("attempt %d: %s fault %d panic %v", i, t.node.text(), t.fault, t.panic)
		ob, ok := built[t.node]
		if !ok || e.Bool("cfg", 1, 3) {
			ob = t.node.make(a, ctl)
			built[t.node] = ob
		}
		*ctl = callerCtl{fault: t.fault, panic: t.panic, on: t.fault >= 0}
		var x expr.Expression
		got := obs.Call(func() string {
			var err error
			if x, err = ob.BuildExpr(); err != nil {
				if ctl.fired && !errors.Is(err, errCallback) {
					e.Fail("mismatch", "cause", "the failure of a caller's builder was not passed on: %v", err)
				}
				return "error"
			}
			return canonExpr(x, reg)
		})
		if ctl.fired {
			e.Fault(map[bool]string{true: "caller_panic", false: "caller_error"}[t.panic])
			e.Nontrivial = true
			if got != "error" && !strings.HasPrefix(got, "PANIC") {
				e.Fail("mismatch", "swallowed", "the failure of a caller's builder was ignored: %s", clip(got, 300))
				return
			}
			continue
		}
		freshReg := expr.NewEmptyExtensionRegistry(coll)
		b := &expr.ExprBuilder{Reg: freshReg, BaseSchema: schema}
		want := obs.Call(func() string {
			y, err := t.node.make(b, &callerCtl{}).BuildExpr()
			if err != nil {
				return "error"
			}
			return canonExpr(y, freshReg)
		})
		e.Digest(want)
		e.State(t.node.kind, want == "error")
		if want != "error" {
			e.Probe("built:" + t.node.kind)
		}
		if got != want {
			e.Fail("mismatch", "builder", "%s: with a new builder / after failures: %s", t.node.text(), firstDiff(want, got))
			return
		}
		if x != nil && want != "error" {
			kept, texts = append(kept, x), append(texts, obs.Dump(x)+exprText(x))
		}
	}
	for i, x := range kept {
		if s := obs.Dump(x) + exprText(x); s != texts[i] {
			e.Fail("altered", "expression", "an expression built earlier changed: %s", firstDiff(texts[i], s))
			return
		}
	}
}

// canonExpr is the encoding of an expression with references numbered by name.
func canonExpr(x expr.Expression, reg expr.ExtensionRegistry) string {
	us, ds := reg.ExtensionsToProto()
	m, bad := canonPlan(&pb.Plan{ExtensionUrns: us, Extensions: ds, Relations: []*pb.PlanRel{{RelType: &pb.PlanRel_Rel{Rel: &pb.Rel{RelType: &pb.Rel_Project{Project: &pb.ProjectRel{Expressions: []*pb.Expression{x.ToProto()}}}}}}}})
	return bad + obs.Text(m) + typeName(x.GetType())
}

func typeName(t types.Type) string {
	if t == nil {
		return "<nil>"
	}
	return t.String()
}

var e05Schema = []*pb.Type{
	types.TypeToProto(&types.Int64Type{Nullability: types.NullabilityRequired}),
	types.TypeToProto(&types.BooleanType{Nullability: types.NullabilityNullable}),
	types.TypeToProto(&types.StringType{Nullability: types.NullabilityRequired}),
}

// callerCtl makes a caller's builder fail.
type callerCtl struct {
	fault int
	panic bool
	on    bool
	seen  int
	fired bool
}

type callerBuilder struct {
	inner expr.Builder
	c     *callerCtl
}

func (b callerBuilder) BuildExpr() (expr.Expression, error) {
	c := b.c
	if c.on && !c.fired {
		if c.seen == c.fault {
			c.fired = true
			if c.panic {
				panic(errCallback)
			}
			return nil, errCallback
		}
		c.seen++
	}
	return b.inner.BuildExpr()
}

func (b callerBuilder) BuildFuncArg() (types.FuncArg, error) { return b.BuildExpr() }

// bnode is a tree of builder calls.
type bnode struct {
	kind, typ string
	n         int
	kids      []*bnode
	params    []string
}

var bTypes = map[string]func() types.Type{
	"i64":  func() types.Type { return &types.Int64Type{Nullability: types.NullabilityRequired} },
	"bool": func() types.Type { return &types.BooleanType{Nullability: types.NullabilityNullable} },
	"str":  func() types.Type { return &types.StringType{Nullability: types.NullabilityRequired} },
}

// drawBNode draws a tree of a type; lam lists the parameters of the lambdas
// around it, innermost last.  Now and then it does not fit.
func drawBNode(e *eng.Ep, typ string, depth int, lam [][]string) *bnode {
	if typ == "" {
		typ = []string{"i64", "bool", "str"}[e.Int("b", 3)]
	}
	d := func(t string) *bnode { return drawBNode(e, t, depth-1, lam) }
	if depth > 0 && e.Bool("b", 1, 4) {
		return &bnode{kind: "caller", typ: typ, kids: []*bnode{d(typ)}}
	}
	if len(lam) > 0 && e.Bool("b", 1, 3) {
		out := e.Int("b", len(lam)+1) // one too many is rejected
		if out == len(lam) && !e.Bool("b", 1, 2) {
			out = 0
		}
		n := e.Int("b", 3)
		return &bnode{kind: "lamref", typ: typ, n: out*10 + n}
	}
	if depth <= 0 {
		return &bnode{kind: []string{"lit", "ref", "param"}[e.Int("b", 3)], typ: typ, n: e.Int("b", 5)}
	}
	switch k := e.Int("b", 8); {
	case k == 0:
		return &bnode{kind: "cast", typ: typ, n: e.Int("b", 3), kids: []*bnode{d("")}}
	case k == 1 || k == 2:
		p := []string{"i64"}
		body := drawBNode(e, "", depth-1, append(append([][]string{}, lam...), p))
		return &bnode{kind: "apply", typ: typ, kids: []*bnode{{kind: "caller", typ: "list", kids: []*bnode{{kind: "list", typ: "list", n: e.Int("b", 3)}}}, {kind: "lambda", params: p, kids: []*bnode{body}}}}
	case k == 3:
		p := [][]string{{"i64"}, {"i64", "bool"}, {}}[e.Int("b", 3)]
		return &bnode{kind: "lambda", typ: typ, params: p, kids: []*bnode{drawBNode(e, "", depth-1, append(append([][]string{}, lam...), p))}}
	case k == 4:
		return &bnode{kind: "window", typ: typ, n: e.Int("b", 4), kids: []*bnode{d("i64"), d("i64")}}
	case k == 5 && e.Bool("b", 1, 2):
		return &bnode{kind: "badfn", typ: typ, kids: []*bnode{d("")}}
	case typ == "i64":
		return &bnode{kind: "add", typ: typ, kids: []*bnode{d("i64"), d("i64")}}
	case typ == "bool":
		t := []string{"i64", "bool", "str"}[e.Int("b", 3)]
		return &bnode{kind: "equal", typ: typ, kids: []*bnode{d(t), d(t)}}
	}
	return &bnode{kind: "cast", typ: typ, n: e.Int("b", 3), kids: []*bnode{d("")}}
}

func (n *bnode) callers() int {
	c := 0
	if n.kind == "caller" {
		c++
	}
	for _, k := range n.kids {
		c += k.callers()
	}
	return c
}

func (n *bnode) text() string {
	var l []string
	for _, k := range n.kids {
		l = append(l, k.text())
	}
	return fmt.Sprintf("%s.%s%d%v(%s)", n.kind, n.typ, n.n, n.params, strings.Join(l, ","))
}

type argBuilder interface {
	expr.Builder
	expr.FuncArgBuilder
}

func (n *bnode) make(b *expr.ExprBuilder, c *callerCtl) argBuilder {
	var ks []argBuilder
	for _, k := range n.kids {
		ks = append(ks, k.make(b, c))
	}
	const base, agg = "extension:sim:base", "extension:sim:agg"
	switch n.kind {
	case "caller":
		return callerBuilder{ks[0], c}
	case "lamref":
		return b.LambdaParamRef(expr.StructFieldRef{Field: int32(n.n % 10)}, uint32(n.n/10))
	case "lit":
		switch n.typ {
		case "i64":
			return b.Wrap(expr.NewLiteral(int64(n.n), false))
		case "bool":
			return b.Wrap(expr.NewLiteral(n.n%2 == 0, true))
		}
		return b.Literal(expr.NewPrimitiveLiteral(fmt.Sprint("s", n.n), false))
	case "list":
		var l expr.ListLiteralValue
		for i := 0; i <= n.n; i++ {
			l = append(l, expr.NewPrimitiveLiteral(int64(i), false))
		}
		return b.Wrap(expr.NewLiteral(l, false))
	case "ref":
		f := map[string]int32{"i64": 0, "bool": 1, "str": 2}[n.typ]
		if n.n == 4 {
			f = 9
		}
		return b.RootRef(expr.NewStructFieldRef(f))
	case "param":
		return b.DynamicParam(bTypes[n.typ](), uint32(n.n))
	case "cast":
		return b.Cast(ks[0], bTypes[n.typ]()).FailBehavior(types.CastFailBehavior(n.n))
	case "lambda":
		p := &types.StructType{Nullability: types.NullabilityRequired}
		for _, t := range n.params {
			p.Types = append(p.Types, bTypes[t]())
		}
		return b.Lambda(p, ks[0])
	case "apply":
		return b.ScalarFunc(extensions.FunctionID{URN: base, Name: "apply:list_func"}).Args(ks[0], ks[1])
	case "add":
		return b.ScalarFunc(extensions.FunctionID{URN: base, Name: "add:i64_i64"}).Args(ks[0], ks[1])
	case "equal":
		return b.ScalarFunc(extensions.FunctionID{URN: base, Name: "equal:any_any"}).Args(ks[0], ks[1])
	case "badfn":
		return b.ScalarFunc(extensions.FunctionID{URN: base, Name: "none:any"}).Args(ks[0])
	}
	w := b.WindowFunc(extensions.FunctionID{URN: agg, Name: "sum:i64"}).Args(ks[0]).Partitions(ks[1]).Phase(types.AggPhaseInitialToResult).Invocation(types.AggInvocationAll)
	if n.n > 0 {
		w.BoundsType(types.BoundsTypeRows).Bounds(expr.PrecedingBound(n.n), expr.CurrentRow{})
	}
	if n.n == 3 {
		w.Bounds(expr.FollowingBound(1), expr.PrecedingBound(1))
	}
	return w
}

// scramble changes everything a caller can change in a type it owns.
func scramble(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.CanInterface() {
			if v.Interface() == any(types.CommonEnumType) {
				return
			}
			if m, ok := v.Interface().(interface {
				SetNullability(types.Nullability) types.FuncDefArgType
			}); ok {
				m.SetNullability(types.NullabilityUnspecified)
			}
		}
		scramble(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scramble(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i), depth+1)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 1)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "!")
		}
	}
}

// c11Owned: callers change types they were given, and unrelated callers ask
// for the same again.
func c11Owned(e *eng.Ep) {
	spec := drawSpec(e, 1)
	w := spec.make()
	type maker struct {
		name string
		make func() any
	}
	var l []maker
	for i := 2 + e.Int("cfg", 5); i > 0; i-- {
		switch e.Int("cfg", 9) {
		case 0, 1:
			txt := typeTexts[e.Int("cfg", len(typeTexts))]
			l = append(l, maker{"parse " + txt, func() any {
				t, err := tparser.ParseType(txt)
				if err != nil {
					return nil
				}
				return t
			}})
		case 2:
			txt := registryTexts[e.Int("cfg", len(registryTexts))]
			l = append(l, maker{"type registry " + txt, func() any {
				t, err := w.treg.GetTypeFromTypeString(txt)
				if err != nil {
					return nil
				}
				return t
			}})
		case 3:
			m := spec.types[e.Int("cfg", len(spec.types))]
			l = append(l, maker{"decode type", func() any { return types.TypeFromProto(clone(m).(*pb.Type)) }})
		case 4:
			t, n := w.types[e.Int("cfg", len(w.types))], types.Nullability(1+e.Int("cfg", 2))
			if e.Bool("cfg", 1, 2) {
				t = probeTypes[e.Int("cfg", len(probeTypes))]
			}
			if t.GetNullability() == n {
				n = 3 - n
			}
			l = append(l, maker{"WithNullability of a type", func() any { return shallow(t.WithNullability(n)) }})
		case 5:
			k, txt, n, null := drawLiteral(e)
			l = append(l, maker{fmt.Sprintf("literal %d %q", k, txt), func() any {
				x, err := literalOf(k, txt, n, null)
				if err != nil {
					return nil
				}
				return x.GetType()
			}})
		case 6:
			it, ts := spec.item(e), spec.drawTypes(e)
			l = append(l, maker{"return type of " + it.Name, func() any {
				var out any
				obs.Call(func() string {
					for _, kind := range []string{"scalar", "aggregate", "window"} {
						if v, ok := variantOf(w.coll, kind, extensions.FunctionID{URN: it.URN, Name: it.Name}); ok {
							// other functions give away the type of their
							// declaration, which callers do not own
							if n := v.Nullability(); n != "" && n != extensions.MirrorNullability {
								return ""
							}
							if t, err := v.ResolveType(ts(), extensions.NewSet()); err == nil {
								out = shallow(t)
								return ""
							}
						}
					}
					return ""
				})
				return out
			}})
		case 7:
			x := spec.exprs[e.Int("cfg", len(spec.exprs))]
			l = append(l, maker{"decode an expression", func() any {
				y, err := expr.ExprFromProto(clone(x.m).(*pb.Expression), recordOf(x.schema), x.registry(w.coll))
				if err != nil {
					return nil
				}
				return y.GetType()
			}})
		default:
			if spec.tf == nil {
				continue
			}
			l = append(l, maker{"test file", func() any {
				t, err := parser.ParseTestCasesFromString(spec.tf.Text)
				if err != nil {
					return nil
				}
				var out []types.Type
				for _, tc := range t.TestCases {
					out = append(out, tc.GetArgTypes()...)
				}
				return out
			}})
		}
	}
	text := func(v any) string {
		if v == nil {
			return "none"
		}
		if t, ok := v.(types.FuncDefArgType); ok {
			if _, full := v.(types.Type); !full {
				return typeText(t)
			}
		}
		return obs.Dump(v)
	}
	want := make([]string, len(l))
	for i, m := range l {
		want[i] = text(m.make())
	}
	before := w.snapshot()
	for i, m := range l {
		v := m.make()
		if s := text(v); s != want[i] {
			e.Fail("mismatch", "again:"+firstWord(m.name), "%s gives something else the second time: %s", m.name, firstDiff(want[i], s))
			return
		}
		if v == nil {
			continue
		}
		e.Trace("the caller changes: %s", m.name)
		e.Fault("caller_mutation")
		e.Nontrivial = true
		scramble(reflect.ValueOf(v), 0)
		for j, o := range l {
			if s := text(o.make()); s != want[j] {
				e.Fail("mismatch", "owned:"+firstWord(m.name)+":"+firstWord(o.name), "after the caller changed the type it got from %q, %q gives: %s", m.name, o.name, firstDiff(want[j], s))
				return
			}
		}
	}
	if s, d := diffMaps(before, w.snapshot()); s != "" {
		e.Fail("altered", "owned:"+objKind(s), "changing types that were given away changed %s: %s", s, d)
	}
}

// shallow hides the parts of a type that it may share with the one it was
// derived from.
func shallow(t types.Type) any {
	if len(t.GetParameters()) > 0 {
		return nil
	}
	return t
}

func firstWord(s string) string {
	w, _, _ := strings.Cut(s, " ")
	return w
}

var registryTexts = []string{"i8", "i32?", "string", "str", "boolean", "bool?", "varchar<5>", "decimal<10,2>", "dec<10,2>?", "precision_timestamp<6>", "pts<3>?", "precision_time<2>", "interval_day<4>",
	"timestamp", "ts", "uuid?", "interval_year", "fixedbinary<3>", "date", "binary", "vbin?", "fp32", "i64"}
