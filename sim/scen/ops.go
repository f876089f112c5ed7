package scen

import (
	"fmt"
	"sort"
	"strings"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/testcases/parser"
	"github.com/substrait-io/substrait-go/v8/types"
	tparser "github.com/substrait-io/substrait-go/v8/types/parser"

	"verifsim/api"
	"verifsim/eng"
	"verifsim/fix"
	"verifsim/gen"
	"verifsim/obs"
)

// An opSpec is the wire-level description of a set of live library objects.
// make builds a fresh, identical set of objects from it every time; an op is
// one library call (or a short private sequence of them) on such a set whose
// result is a text.  The text leaves out what the library does not promise:
// the wording of errors and the order of unordered listings.
type opSpec struct {
	shared *extensions.Collection // nil: every world loads its own
	files  []fix.File
	cat    *gen.Catalog
	plans  []*pb.Plan
	exprs  []wireExpr
	exts   []*pb.ExtendedExpression
	progs  []*prog
	types  []*pb.Type
	dl     *dlModel
	tf     *tfModel
	lists  bool // ops may list whole collections
}

// wireExpr is an expression with what is needed to decode it.
type wireExpr struct {
	us     []*extpb.SimpleExtensionURN
	ds     []*extpb.SimpleExtensionDeclaration
	m      *pb.Expression
	schema []*pb.Type
}

// world is one set of live objects.
type world struct {
	coll    *extensions.Collection
	freg    functions.FunctionRegistry
	plans   []*plan.Plan
	rels    []plan.Rel
	exprs   []expr.Expression
	schemas []*types.RecordType
	regs    []expr.ExtensionRegistry
	exts    []*expr.Extended
	types   []types.Type
	dialect functions.Dialect
	lfreg   functions.LocalFunctionRegistry
	ltreg   functions.LocalTypeRegistry
	treg    functions.TypeRegistry
	tf      *parser.TestFile
}

type op struct {
	name, kind string
	run        func(w *world) string
}

// drawSpec draws the objects of an episode.
func drawSpec(e *eng.Ep, size int) *opSpec {
	s := &opSpec{}
	switch e.Int("cfg", 5) {
	case 0:
		s.shared, s.cat = fix.Default(), fix.CatDefault()
	case 1, 2:
		s.shared, s.cat = fix.Sim(), fix.CatSim()
	default:
		s.files, s.cat = loadOrder(e, fix.Files), fix.CatSim()
	}
	g := func(b int) *gen.G { return gen.New(e, "gen", s.cat, b) }
	for i := 1 + e.Int("cfg", 2); i > 0; i-- {
		x := g(2 + e.Int("cfg", 4*size))
		s.plans = append(s.plans, x.Plan(1+e.Int("cfg", 3)).Plan)
		e.State(featKey(x.Feat))
	}
	for i := 1 + e.Int("cfg", 2); i > 0; i-- {
		x := g(2 + e.Int("cfg", 3*size))
		sc := x.Schema(5)
		var m *pb.Expression
		if e.Bool("cfg", 1, 2) {
			x.Sub = e.Bool("cfg", 1, 2)
			m, _ = x.Top(sc, 1+e.Int("cfg", 4))
		} else {
			m = x.Expr(sc, x.WantType(sc), 1+e.Int("cfg", 4))
		}
		us, ds := x.Refs.Proto()
		s.exprs = append(s.exprs, wireExpr{us, ds, m, sc})
		e.State(featKey(x.Feat))
	}
	if e.Bool("cfg", 1, 2) {
		x := g(2 + e.Int("cfg", 4*size))
		s.progs = append(s.progs, newProg(e, "gen", x.APIPlan(1+e.Int("cfg", 3)).Plan))
		e.State(featKey(x.Feat))
	}
	if e.Bool("cfg", 1, 2) {
		m, _ := g(2 + e.Int("cfg", 3*size)).Extended()
		s.exts = append(s.exts, m)
	}
	for i := 1 + e.Int("cfg", 3); i > 0; i-- {
		if e.Bool("cfg", 1, 4) {
			s.types = append(s.types, g(9).StructType(1+e.Int("cfg", 2), gen.Req, 2+e.Int("cfg", 8)))
			continue
		}
		s.types = append(s.types, g(6).Type(1+e.Int("cfg", 3)))
	}
	if e.Bool("cfg", 1, 2) {
		c := s.shared
		if c == nil {
			c = fix.Sim()
		}
		s.dl = drawDialect(e, c, false)
	}
	if e.Bool("cfg", 1, 3) {
		s.tf = drawTestFile(e)
	}
	return s
}

func recordOf(ts []*pb.Type) *types.RecordType {
	m := &pb.Type{Kind: &pb.Type_Struct_{Struct: &pb.Type_Struct{Types: ts, Nullability: gen.Req}}}
	return types.NewRecordTypeFromStruct(*types.TypeFromProto(clone(m).(*pb.Type)).(*types.StructType))
}

func (x wireExpr) decls() decls {
	p := clone(&pb.Plan{ExtensionUrns: x.us, Extensions: x.ds}).(*pb.Plan)
	return decls{p.ExtensionUrns, p.Extensions}
}

// registry makes a registry of its own for the declarations of an expression.
func (x wireExpr) registry(c *extensions.Collection) expr.ExtensionRegistry {
	set, err := extensions.GetExtensionSet(x.decls(), c)
	if err != nil {
		panic(err)
	}
	reg := expr.NewExtensionRegistry(set, c)
	reg.SetSubqueryConverter(&plan.ExpressionConverter{ExtensionRegistry: reg})
	return reg
}

func (s *opSpec) collection() *extensions.Collection {
	if s.shared != nil {
		return s.shared
	}
	return fix.Load(s.files...)
}

// make builds the objects.
func (s *opSpec) make() *world {
	w := &world{coll: s.collection()}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	w.freg = functions.NewFunctionRegistry(w.coll)
	for _, m := range s.plans {
		p, err := plan.FromProtoWithDecoder(clone(m).(*pb.Plan), w.coll, fix.Decoders())
		must(err)
		w.plans = append(w.plans, p)
		for _, r := range p.Relations() {
			w.rels = relTree(relOf(r), w.rels)
		}
	}
	for _, x := range s.exprs {
		reg, rt := x.registry(w.coll), recordOf(x.schema)
		d, err := expr.ExprFromProto(clone(x.m).(*pb.Expression), rt, reg)
		must(err)
		w.exprs, w.schemas, w.regs = append(w.exprs, d), append(w.schemas, rt), append(w.regs, reg)
	}
	for _, m := range s.exts {
		x, err := expr.ExtendedFromProto(clone(m).(*pb.ExtendedExpression), w.coll)
		must(err)
		w.exts = append(w.exts, x)
	}
	for _, m := range s.types {
		w.types = append(w.types, types.TypeFromProto(clone(m).(*pb.Type)))
	}
	w.treg = functions.NewTypeRegistry()
	if s.dl != nil {
		var err error
		w.dialect, err = functions.LoadDialect("dl", strings.NewReader(s.dl.Text))
		must(err)
		w.lfreg, err = w.dialect.LocalizeFunctionRegistry(w.freg)
		must(err)
		w.ltreg, err = w.dialect.LocalizeTypeRegistry(w.treg)
		must(err)
	}
	if s.tf != nil {
		var err error
		w.tf, err = parser.ParseTestCasesFromString(s.tf.Text)
		must(err)
	}
	return w
}

func relTree(r plan.Rel, out []plan.Rel) []plan.Rel {
	if r == nil {
		return out
	}
	out = append(out, r)
	for _, i := range r.GetInputs() {
		out = relTree(i, out)
	}
	return out
}

// snapshot is everything observable about the live objects.
func (w *world) snapshot() map[string]string {
	out := map[string]string{}
	for i, p := range w.plans {
		out[fmt.Sprint("plan ", i)] = planText(p)
	}
	for i, x := range w.exprs {
		out[fmt.Sprint("expr ", i)] = obs.Dump(x) + exprText(x)
		out[fmt.Sprint("schema ", i)] = obs.Dump(w.schemas[i])
		us, ds := w.regs[i].ExtensionsToProto()
		out[fmt.Sprint("registry ", i)] = declText(us, ds)
	}
	for i, x := range w.exts {
		out[fmt.Sprint("extended ", i)] = extText(x)
	}
	for i, t := range w.types {
		out[fmt.Sprint("type ", i)] = obs.Dump(t)
	}
	return out
}

func planText(p *plan.Plan) string {
	return obs.Dump(p) + obs.Call(func() string {
		m, err := p.ToProto()
		if err != nil {
			return "error"
		}
		m = clone(m).(*pb.Plan)
		return obs.Text(m)
	})
}

func relText(r plan.Rel) string {
	return obs.Dump(r) + obs.Call(func() string { return obs.Text(r.ToProto()) })
}

func exprText(x expr.Expression) string {
	return obs.Call(func() string { return obs.Text(x.ToProto()) })
}

func extText(x *expr.Extended) string {
	return obs.Dump(x) + obs.Call(func() string { return obs.Text(x.ToProto()) })
}

func declText(us []*extpb.SimpleExtensionURN, ds []*extpb.SimpleExtensionDeclaration) string {
	return obs.Text(&pb.Plan{ExtensionUrns: us, Extensions: ds})
}

// errText records failure without its wording.
func errText(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

func sortedIDs[V variant](l []V) string {
	var out []string
	for _, f := range l {
		out = append(out, f.URN()+" "+f.CompoundName())
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// pick of a list; list must not be empty.
func pickOf[T any](e *eng.Ep, l []T) T { return l[e.Int("op", len(l))] }

// drawTypes draws argument types for matching and derivation.
func (s *opSpec) drawTypes(e *eng.Ep) func() []types.Type {
	var ms []*pb.Type
	g := gen.New(e, "op", s.cat, 4)
	var fixed []types.Type
	if e.Bool("op", 2, 3) {
		for i := e.Count("op", 4); i > 0; i-- {
			fixed = append(fixed, pickOf(e, probeTypes))
		}
		return func() []types.Type { return append([]types.Type{}, fixed...) }
	}
	for i := e.Count("op", 4); i > 0; i-- {
		ms = append(ms, g.Type(1))
	}
	return func() []types.Type {
		var out []types.Type
		for _, m := range ms {
			out = append(out, types.TypeFromProto(clone(m).(*pb.Type)))
		}
		return out
	}
}

func variantOf(c *extensions.Collection, kind string, id extensions.FunctionID) (variant, bool) {
	switch kind {
	case "scalar":
		v, ok := c.GetScalarFunc(id)
		return v, ok
	case "aggregate":
		v, ok := c.GetAggregateFunc(id)
		return v, ok
	}
	v, ok := c.GetWindowFunc(id)
	return v, ok
}

func (s *opSpec) item(e *eng.Ep) gen.Item {
	l := s.cat.Scalar
	switch e.Int("op", 4) {
	case 1:
		l = s.cat.Aggregate
	case 2:
		l = s.cat.Window
	}
	it := pickOf(e, l)
	switch e.Int("op", 8) {
	case 1:
		it.Name, _, _ = strings.Cut(it.Name, ":")
	case 2:
		it.Name += "_none"
	case 3:
		it.URN = pickOf(e, append([]string{"extension:sim:none"}, s.cat.URNs...))
	}
	return it
}

func (o *op) wrap(kind string) op {
	r := o.run
	return op{o.name, kind, func(w *world) string { return obs.Call(func() string { return r(w) }) }}
}

// opKinds are the drawable operations that only read shared objects.
var opKinds = []struct {
	name   string
	weight int
	draw   func(s *opSpec, e *eng.Ep) *op
}{
	{"lookup", 4, (*opSpec).opLookup},
	{"match", 5, (*opSpec).opMatch},
	{"list", 1, (*opSpec).opList},
	{"registry", 3, (*opSpec).opRegistry},
	{"parse-type", 4, (*opSpec).opParseType},
	{"type-text", 3, (*opSpec).opTypeText},
	{"types", 4, (*opSpec).opTypes},
	{"plan-decode", 3, (*opSpec).opPlanDecode},
	{"plan-read", 5, (*opSpec).opPlanRead},
	{"rel", 8, (*opSpec).opRel},
	{"expr-read", 5, (*opSpec).opExprRead},
	{"expr-decode", 4, (*opSpec).opExprDecode},
	{"expr-build", 6, (*opSpec).opExprBuild},
	{"extended", 3, (*opSpec).opExtended},
	{"dialect", 4, (*opSpec).opDialect},
	{"testfile", 3, (*opSpec).opTestFile},
	{"literal", 4, (*opSpec).opLiteral},
	{"program", 6, (*opSpec).opProgram},
	{"references", 2, (*opSpec).opReference},
}

// draw draws one operation.
func (s *opSpec) draw(e *eng.Ep) op { return s.drawOf(e, nil) }

// drawOf draws an operation of the given kinds if the objects allow one.
func (s *opSpec) drawOf(e *eng.Ep, only map[string]bool) op {
	total := 0
	for _, k := range opKinds {
		total += k.weight
	}
	if only != nil {
		for _, k := range opKinds {
			if !only[k.name] {
				continue
			}
			if o := k.draw(s, e); o != nil {
				e.Probe("op:" + k.name)
				return o.wrap(k.name)
			}
		}
	}
	for try := 0; ; try++ {
		n := e.Int("op", total)
		if try > 20 {
			n = (n + try) % total
		}
		for _, k := range opKinds {
			if n < k.weight {
				if o := k.draw(s, e); o != nil {
					e.Probe("op:" + k.name)
					return o.wrap(k.name)
				}
				break
			}
			n -= k.weight
		}
	}
}

func (s *opSpec) opLookup(e *eng.Ep) *op {
	it := s.item(e)
	ty := pickOf(e, []string{"point", "line", "money", "shape", "nope"})
	tv := pickOf(e, []string{"utf8view", "dict4", "packed", "nope"})
	deep := e.Bool("op", 1, 3)
	return &op{name: fmt.Sprintf("lookup %s %s", it.URN, it.Name), run: func(w *world) string {
		n := names{funcs: []string{it.Name}, types: []string{ty}, variations: []string{tv}}
		return obs.Dump(urnView(w.coll, it.URN, n, deep))
	}}
}

func (s *opSpec) opMatch(e *eng.Ep) *op {
	it := s.item(e)
	ts := s.drawTypes(e)
	pos := e.Int("op", 4) - 1
	fits := e.Bool("op", 3, 4)
	pick := drawPick(e)
	return &op{name: fmt.Sprintf("match %s %s", it.URN, it.Name), run: func(w *world) string {
		var sb strings.Builder
		for _, kind := range []string{"scalar", "aggregate", "window"} {
			v, ok := variantOf(w.coll, kind, extensions.FunctionID{URN: it.URN, Name: it.Name})
			if !ok {
				continue
			}
			var at []types.Type
			if fits {
				at = pick.types(v.Args(), v.Variadic() != nil)
			} else {
				at = ts()
			}
			sb.WriteString(kind + obs.Call(func() string {
				m, err := v.Match(at)
				return fmt.Sprint(m, errText(err))
			}))
			if len(at) > 0 {
				sb.WriteString(obs.Call(func() string {
					m, err := v.MatchAt(at[0], pos)
					return fmt.Sprint(m, errText(err))
				}))
			}
			sb.WriteString(obs.Call(func() string {
				t, err := v.ResolveType(at, extensions.NewSet())
				if err != nil {
					return "error"
				}
				return obs.Dump(t)
			}))
			fmt.Fprint(&sb, v.MinArgumentCount(), v.MaxArgumentCount())
		}
		return sb.String()
	}}
}

func (s *opSpec) opList(e *eng.Ep) *op {
	if s.shared == fix.Default() && !e.Bool("op", 1, 4) {
		return nil
	}
	k := e.Int("op", 4)
	return &op{name: "list", run: func(w *world) string {
		switch k {
		case 0:
			return sortedIDs(w.coll.GetAllScalarFunctions())
		case 1:
			return sortedIDs(w.coll.GetAllAggregateFunctions())
		case 2:
			return sortedIDs(w.coll.GetAllWindowFunctions())
		}
		return obs.Dump(registryView(w.coll, nil))
	}}
}

func (s *opSpec) opRegistry(e *eng.Ep) *op {
	it := s.item(e)
	n, _, _ := strings.Cut(it.Name, ":")
	k := e.Int("op", 5)
	return &op{name: fmt.Sprintf("registry %s %d", n, k), run: func(w *world) string {
		return sortedIDs(w.freg.GetScalarFunctions(n, k)) + "|" + sortedIDs(w.freg.GetAggregateFunctions(n, k)) + "|" + sortedIDs(w.freg.GetWindowFunctions(n, k)) + "|" +
			sortedIDs(w.freg.GetScalarFunctionsByName(n)) + "|" + sortedIDs(w.freg.GetAggregateFunctionsByName(n)) + "|" + sortedIDs(w.freg.GetWindowFunctionsByName(n))
	}}
}

var typeTexts = []string{"i8", "i16?", "i32", "i64?", "fp32", "fp64?", "string", "binary?", "boolean", "bool?", "date", "time?", "timestamp", "timestamp_tz?",
	"interval_year", "uuid?", "decimal<38,10>", "decimal<P,S>?", "dec<9,2>", "varchar<10>", "varchar<L>?", "fixedchar<5>", "fchar<L>", "fixedbinary<16>?", "list<i32?>", "list<any1>?",
	"map<string,i64?>", "struct<i8,string?,list<boolean>>", "precision_time<3>", "precision_timestamp<6>?", "precision_timestamp_tz<P>", "pts<9>", "interval_day<6>?", "interval_day<3>", "interval_compound<2>",
	"any", "any1?", "u!point", "u!point?", "func<any1 -> boolean?>", "func<(any1, any2) -> any3>", "P1 = 38\nS1 = min(P1, 2)\ndecimal<P1,S1>", "a = 3\nvarchar<a>",
	"a = abs(0 - 4) * 2\nb = a / 3\nc = a >= b and !(b = 2) ? a : b\nd = if c < 3 or c <= 1 then 1 else min(c, 8)\ndecimal<d,1>", "a = 1 != 2\nb = if a then 5 else 6\nvarchar?<b>",
	"u!matrix<3, list<any1>>", "u!matrix?<L, i32?>", "list<decimal<P,S>>", "map<varchar<L>?,decimal?<P,2>>", "struct<decimal<P,S>,fixedchar<L>?>", "func?<(i32, list<any1>) -> map<any1,any2>>", "map<any1,list<any2>>?", "func<varchar<L> -> u!point>",
	"decimal<38>", "i32<4>", "lst<i32>", "list<", "map<string>", "nosuch", "struct<>", "varchar<-1>", "", "1 + 2", "i32 i64"}

func (s *opSpec) opParseType(e *eng.Ep) *op {
	txt := pickOf(e, typeTexts)
	ts := s.drawTypes(e)
	return &op{name: "parse " + fmt.Sprintf("%q", txt), run: func(w *world) string {
		var sb strings.Builder
		sb.WriteString(s.parseText(txt))
		t, err := tparser.ParseType(txt)
		if err != nil {
			return sb.String()
		}
		for _, a := range ts() {
			sb.WriteString(obs.Call(func() string { return fmt.Sprint(t.MatchWithNullability(a), t.MatchWithoutNullability(a)) }))
		}
		return sb.String()
	}}
}

// parseText is what parsing a type expression gives.
func (*opSpec) parseText(txt string) string {
	t, err := tparser.ParseType(txt)
	if err != nil {
		return "error"
	}
	return defView(t) + typeText(t)
}

func (s *opSpec) opTypeText(e *eng.Ep) *op {
	txt := pickOf(e, []string{"i8", "i32?", "string", "str", "boolean", "bool?", "varchar<5>", "vchar<5>", "decimal<10,2>", "dec<10,2>?", "precision_timestamp<6>", "pts<3>?", "precision_time<2>", "interval_day<4>", "iday<1>?",
		"timestamp", "ts", "uuid?", "interval_year", "fixedbinary<3>", "list<i32>", "map<i32,string>", "nope", "decimal<1>", "u!point", "date", "binary", "vbin?"})
	return &op{name: "type registry " + txt, run: func(w *world) string {
		t, err := w.treg.GetTypeFromTypeString(txt)
		if err != nil {
			return "error"
		}
		return obs.Dump(t)
	}}
}

func (s *opSpec) opTypes(e *eng.Ep) *op {
	i, j := e.Int("op", len(s.types)), e.Int("op", len(s.types))
	n := types.Nullability(e.Int("op", 3))
	return &op{name: fmt.Sprintf("type %d with %d, %d", i, j, n), run: func(w *world) string {
		t, u := w.types[i], w.types[j]
		x := t.WithNullability(n)
		return obs.Dump(t) + t.ShortString() + t.String() + x.String() + obs.Text(t.ToProtoFuncArg()) + fmt.Sprint(t.Equals(u), u.Equals(t), x.Equals(t), t.Equals(x)) + obs.Dump(x) +
			obs.Call(func() string { return fmt.Sprintf("%d", len(t.GetParameters())) })
	}}
}

func (s *opSpec) opPlanDecode(e *eng.Ep) *op {
	i := e.Int("op", len(s.plans))
	return &op{name: fmt.Sprint("decode plan ", i), run: func(w *world) string {
		p, err := plan.FromProtoWithDecoder(clone(s.plans[i]).(*pb.Plan), w.coll, fix.Decoders())
		if err != nil {
			return "error"
		}
		return planText(p)
	}}
}

func (s *opSpec) opPlanRead(e *eng.Ep) *op {
	i, k := e.Int("op", len(s.plans)), e.Int("op", 4)
	a := uint32(e.Int("op", 12))
	urn := s.item(e).URN
	return &op{name: fmt.Sprint("read plan ", i, " ", k), run: func(w *world) string {
		p := w.plans[i]
		switch k {
		case 0:
			m, err := p.ToProto()
			if err != nil {
				return "error"
			}
			return obs.Text(m)
		case 1:
			return obs.Dump(p)
		case 2:
			r := p.ExtensionRegistry()
			us, ds := r.ExtensionsToProto()
			var sb strings.Builder
			sb.WriteString(declText(us, ds))
			if f, ok := r.LookupScalarFunction(a); ok {
				sb.WriteString(fnView(f, false))
			}
			if f, ok := r.LookupAggregateFunction(a); ok {
				sb.WriteString(fnView(f, false))
			}
			if f, ok := r.LookupWindowFunction(a); ok {
				sb.WriteString(fnView(f, false))
			}
			fmt.Fprintln(&sb, fmt.Sprint(r.FindURN(urn)), fmt.Sprint(r.FindURN("extension:none:none")))
			if t, ok := r.DecodeType(a); ok {
				fmt.Fprint(&sb, t)
			}
			if t, ok := r.DecodeFunc(a); ok {
				fmt.Fprint(&sb, t)
			}
			if t, ok := r.DecodeTypeVariation(a); ok {
				fmt.Fprint(&sb, t)
			}
			return sb.String()
		}
		b := p.ParameterBindings()
		var sb strings.Builder
		for _, r := range p.Relations() {
			sb.WriteString(obs.Call(func() string { return errText(plan.ValidateParameterBindings(relOf(r), b)) }))
		}
		return sb.String()
	}}
}

// rewriter replaces some expressions by others of the same type, changes none
// or fails, as drawn.
func rewriter(mode int) plan.RewriteFunc {
	n := 0
	return func(x expr.Expression) (expr.Expression, error) {
		n++
		if x == nil {
			return nil, nil
		}
		switch mode {
		case 1:
			return nullOf(x), nil
		case 2:
			if n%2 == 0 {
				return nullOf(x), nil
			}
		case 3:
			if n >= 2 {
				return nil, fmt.Errorf("rewriter: %w", errCallback)
			}
			return nullOf(x), nil
		}
		return x, nil
	}
}

var errCallback = fmt.Errorf("callback failed")

func nullOf(x expr.Expression) expr.Expression {
	return expr.NewNullLiteral(x.GetType().WithNullability(types.NullabilityNullable))
}

func (s *opSpec) opRel(e *eng.Ep) *op {
	i, k, mode := e.Int("op", 64), e.Int("op", 6), e.Int("op", 4)
	var m []int
	for n := e.Int("op", 4); n > 0; n-- {
		m = append(m, e.Int("op", 8))
	}
	return &op{name: fmt.Sprint("rel ", i, " ", k, " ", mode, " ", m), run: func(w *world) string {
		if len(w.rels) == 0 {
			return ""
		}
		r := w.rels[i%len(w.rels)]
		switch k {
		case 0:
			return relText(r)
		case 1:
			t := r.RecordType()
			return obs.Dump(t) + fmt.Sprint(len(r.GetInputs()), r.OutputMapping(), t.Types(), t.AsStructType())
		case 2:
			var mm []int32
			n := int(r.RecordType().FieldCount())
			for _, x := range m {
				if n > 0 && mode != 3 {
					x %= n
				}
				mm = append(mm, int32(x))
			}
			x, err := r.Remap(mm...)
			if err != nil {
				return "error"
			}
			return relText(x)
		case 3:
			x, err := r.Copy(r.GetInputs()...)
			if err != nil {
				return "error"
			}
			return relText(x)
		case 4:
			x, err := r.CopyWithExpressionRewrite(rewriter(mode), r.GetInputs()...)
			if err != nil {
				return "error"
			}
			return relText(x)
		}
		return obs.Dump(r)
	}}
}

func visitText(x expr.Expression, replace int) string {
	n := 0
	var sb strings.Builder
	var f expr.VisitFunc
	f = func(y expr.Expression) expr.Expression {
		n++
		if y == nil {
			return nil
		}
		sb.WriteString(fmt.Sprintf("%T;", y))
		if replace > 0 && n == replace {
			if t := y.GetType(); t != nil {
				return nullOf(y)
			}
		}
		return y.Visit(f)
	}
	z := x.Visit(f)
	return sb.String() + exprText(z) + z.String()
}

func (s *opSpec) opExprRead(e *eng.Ep) *op {
	i, j, k, rep := e.Int("op", len(s.exprs)), e.Int("op", len(s.exprs)), e.Int("op", 4), e.Int("op", 4)
	return &op{name: fmt.Sprint("read expr ", i, " ", k), run: func(w *world) string {
		x := w.exprs[i]
		switch k {
		case 0:
			return exprText(x) + exprView(x)
		case 1:
			return obs.Dump(x)
		case 2:
			return visitText(x, rep)
		}
		a, wa := equalSafe(x, w.exprs[j])
		return fmt.Sprint(a, wa != "")
	}}
}

func (s *opSpec) opExprDecode(e *eng.Ep) *op {
	i, own := e.Int("op", len(s.exprs)), e.Bool("op", 1, 2)
	return &op{name: fmt.Sprint("decode expr ", i), run: func(w *world) string {
		reg := w.regs[i]
		if own {
			reg = s.exprs[i].registry(w.coll)
		}
		x, err := expr.ExprFromProto(clone(s.exprs[i].m).(*pb.Expression), w.schemas[i], reg)
		if err != nil {
			return "error"
		}
		eq, why := equalSafe(x, w.exprs[i])
		return exprText(x) + exprView(x) + fmt.Sprint(eq, why != "")
	}}
}

func (s *opSpec) opExprBuild(e *eng.Ep) *op {
	i := e.Int("op", len(s.exprs))
	return &op{name: fmt.Sprint("build expr ", i), run: func(w *world) string {
		b := &api.B{Reg: s.exprs[i].registry(w.coll), Schema: w.schemas[i], Used: map[string]int{}}
		x, err := b.Expr(clone(s.exprs[i].m).(*pb.Expression))
		if err != nil {
			return "error"
		}
		us, ds := b.Reg.ExtensionsToProto()
		return exprText(x) + exprView(x) + declText(us, ds)
	}}
}

func (s *opSpec) opExtended(e *eng.Ep) *op {
	if len(s.exts) == 0 {
		return nil
	}
	k := e.Int("op", 3)
	return &op{name: fmt.Sprint("extended ", k), run: func(w *world) string {
		switch k {
		case 0:
			return obs.Text(w.exts[0].ToProto())
		case 1:
			return extText(w.exts[0])
		}
		x, err := expr.ExtendedFromProto(clone(s.exts[0]).(*pb.ExtendedExpression), w.coll)
		if err != nil {
			return "error"
		}
		return extText(x)
	}}
}

func (s *opSpec) opDialect(e *eng.Ep) *op {
	if s.dl == nil {
		return nil
	}
	k := e.Int("op", 6)
	return &op{name: fmt.Sprint("dialect ", k), run: func(w *world) string {
		switch k {
		case 0:
			r, err := w.dialect.LocalizeFunctionRegistry(w.freg)
			if err != nil {
				return "error"
			}
			return obs.Dump(dlFnView(r, s.dl.Names))
		case 1:
			r, err := w.dialect.LocalizeTypeRegistry(w.treg)
			if err != nil {
				return "error"
			}
			return obs.Dump(dlTypeView(r, s.dl.locals()))
		case 2:
			r, err := w.dialect.GetLocalTypeRegistry()
			if err != nil {
				return "error"
			}
			return obs.Dump(dlTypeView(r, s.dl.locals()))
		case 3:
			return obs.Dump(dlFnView(w.lfreg, s.dl.Names)) + w.lfreg.GetDialect().Name()
		case 4:
			return obs.Dump(dlTypeView(w.ltreg, s.dl.locals()))
		}
		d, err := functions.LoadDialect("x", strings.NewReader(s.dl.Text))
		if err != nil {
			return "error"
		}
		r, err := d.LocalizeFunctionRegistry(w.freg)
		if err != nil {
			return "error"
		}
		return obs.Dump(dlFnView(r, s.dl.Names))
	}}
}

func (s *opSpec) opTestFile(e *eng.Ep) *op {
	if s.tf == nil {
		return nil
	}
	k := e.Int("op", 3)
	return &op{name: fmt.Sprint("testfile ", k), run: func(w *world) string {
		switch k {
		case 0:
			return testFileView(w.tf)
		case 1:
			t, err := parser.ParseTestCasesFromString(s.tf.Text)
			if err != nil {
				return "error"
			}
			return testFileView(t)
		}
		reg := expr.NewEmptyExtensionRegistry(w.coll)
		var sb strings.Builder
		for _, tc := range w.tf.TestCases {
			sb.WriteString(obs.Call(func() string {
				if s.tf.Agg {
					f, err := tc.GetAggregateFunctionInvocation(&reg, w.freg)
					if err != nil {
						return "error;"
					}
					return obs.Text(f.ToProto())
				}
				f, err := tc.GetScalarFunctionInvocation(&reg, w.freg)
				if err != nil {
					return "error;"
				}
				return obs.Text(f.ToProto()) + f.String()
			}))
			sb.WriteString(obs.Call(func() string {
				var l []string
				for _, o := range tc.GetFunctionOptions() {
					l = append(l, obs.Text(o))
				}
				return fmt.Sprint(l, tc.CompoundFunctionName(), tc.ID(), len(tc.GetArgTypes()))
			}))
		}
		return sb.String()
	}}
}
