package scen

import (
	"fmt"
	"math"
	"sort"
	"strings"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/eng"
	"verifsim/fix"
	"verifsim/gen"
	"verifsim/obs"
	"verifsim/simrt"
)

func init() {
	register("C08", Scenario{Name: "reference-history", Weight: 4, Run: c08History})
}

const (
	clsType = iota
	clsVar
	clsFunc
)

var clsName = [3]string{"type", "variation", "function"}

// item identifies one extension definition in the reference model.
type item struct{ urn, name string }

// refModel is the reference model of an extension set: plain maps.
type refModel struct {
	dec [3]map[uint32]item // every anchor that was ever given out or received
	enc [3]map[item]uint32 // the anchor the set answered for an item
}

func newRefModel() *refModel {
	m := &refModel{}
	for i := range m.dec {
		m.dec[i], m.enc[i] = map[uint32]item{}, map[item]uint32{}
	}
	return m
}

func (m *refModel) clone() *refModel {
	n := newRefModel()
	for i := range m.dec {
		for k, v := range m.dec[i] {
			n.dec[i][k] = v
		}
		for k, v := range m.enc[i] {
			n.enc[i][k] = v
		}
	}
	return n
}

func (m *refModel) key() string {
	var l []string
	for i := range m.dec {
		var as []int
		for a := range m.dec[i] {
			as = append(as, int(a))
		}
		sort.Ints(as)
		l = append(l, fmt.Sprint(as))
	}
	return strings.Join(l, "/")
}

// learn checks and records the anchor given for an item.
func (m *refModel) learn(e *eng.Ep, what string, cls int, it item, a uint32) bool {
	if prev, ok := m.enc[cls][it]; ok && prev != a {
		e.Fail("reference", what+":moved-"+clsName[cls], "%s: %s %v had reference %d and now has %d", what, clsName[cls], it, prev, a)
		return false
	}
	if other, ok := m.dec[cls][a]; ok && other != it {
		e.Fail("reference", what+":reused-"+clsName[cls], "%s: %s reference %d of %v was given to %v as well", what, clsName[cls], a, other, it)
		return false
	}
	if _, ok := m.dec[cls][a]; !ok {
		for b, x := range m.dec[cls] {
			if x == it {
				e.Fail("reference", what+":second-"+clsName[cls], "%s: %s %v already had reference %d and got another one, %d", what, clsName[cls], it, b, a)
				return false
			}
		}
	}
	if cls == clsVar && a == 0 {
		e.Fail("reference", what+":zero-variation", "%s: type variation %v got reference 0, which means no variation", what, it)
		return false
	}
	m.enc[cls][it] = a
	m.dec[cls][a] = it
	return true
}

// node is one process holding an extension set.
type refNode struct {
	name string
	coll *extensions.Collection
	set  extensions.Set
	reg  expr.ExtensionRegistry
	eb   *expr.ExprBuilder
	pb   plan.Builder
	pl   *plan.Plan
	m    *refModel
}

func (n *refNode) encode(e *eng.Ep) ([]*extpb.SimpleExtensionURN, []*extpb.SimpleExtensionDeclaration) {
	switch k := e.Int("op", 3); {
	case k == 1 && n.pl != nil:
		p, err := n.pl.ToProto()
		if err != nil {
			e.Fail("encode", "encode-plan", "%v", err)
			return nil, nil
		}
		return p.ExtensionUrns, p.Extensions
	case k == 1 && n.eb != nil:
		x := &expr.Extended{BaseSchema: types.NamedStruct{Struct: types.StructType{Nullability: types.NullabilityRequired}}, Extensions: n.reg.Set, ReferredExpr: []expr.ExpressionReference{expr.NewExpressionReference([]string{"a"}, expr.NewPrimitiveLiteral(int32(1), false))}}
		m := x.ToProto()
		return m.ExtensionUrns, m.Extensions
	case k == 2:
		return n.reg.ExtensionsToProto()
	}
	return n.set.ToProto(n.coll)
}

// declView is the independent reading of encoded declarations.
func declView(e *eng.Ep, us []*extpb.SimpleExtensionURN, ds []*extpb.SimpleExtensionDeclaration) ([3]map[uint32]item, map[uint32]string, bool) {
	var out [3]map[uint32]item
	for i := range out {
		out[i] = map[uint32]item{}
	}
	urns := map[uint32]string{}
	for _, u := range us {
		if o, dup := urns[u.ExtensionUrnAnchor]; dup {
			e.Fail("encoding", "urn-anchor-twice", "URN anchor %d is listed for %q and %q", u.ExtensionUrnAnchor, o, u.Urn)
			return out, nil, false
		}
		urns[u.ExtensionUrnAnchor] = u.Urn
	}
	for _, d := range ds {
		var cls int
		var a, ref uint32
		var name string
		switch m := d.MappingType.(type) {
		case *extpb.SimpleExtensionDeclaration_ExtensionType_:
			cls, a, ref, name = clsType, m.ExtensionType.TypeAnchor, m.ExtensionType.ExtensionUrnReference, m.ExtensionType.Name
		case *extpb.SimpleExtensionDeclaration_ExtensionTypeVariation_:
			cls, a, ref, name = clsVar, m.ExtensionTypeVariation.TypeVariationAnchor, m.ExtensionTypeVariation.ExtensionUrnReference, m.ExtensionTypeVariation.Name
		case *extpb.SimpleExtensionDeclaration_ExtensionFunction_:
			cls, a, ref, name = clsFunc, m.ExtensionFunction.FunctionAnchor, m.ExtensionFunction.ExtensionUrnReference, m.ExtensionFunction.Name
		default:
			e.Fail("encoding", "unknown-declaration", "declaration %v of no kind", d)
			return out, nil, false
		}
		u, ok := urns[ref]
		if !ok {
			e.Fail("encoding", "dangling-urn", "%s %d %q refers to URN anchor %d, which is not listed", clsName[cls], a, name, ref)
			return out, nil, false
		}
		if o, dup := out[cls][a]; dup {
			e.Fail("encoding", "listed-twice", "%s reference %d is listed for %v and %v", clsName[cls], a, o, item{u, name})
			return out, nil, false
		}
		out[cls][a] = item{u, name}
	}
	return out, urns, true
}

// check compares the whole set with the model.
func (n *refNode) check(e *eng.Ep, what string) bool {
	us, ds := n.encode(e)
	if e.Failed() {
		return false
	}
	got, urns, ok := declView(e, us, ds)
	if !ok {
		return false
	}
	for cls := range got {
		for a, it := range n.m.dec[cls] {
			g, ok := got[cls][a]
			if !ok {
				e.Fail("encoding", "missing-"+clsName[cls], "%s: %s: %s %d %v is not listed", what, n.name, clsName[cls], a, it)
				return false
			}
			if g != it {
				e.Fail("encoding", "wrong-"+clsName[cls], "%s: %s: %s %d is %v but listed as %v", what, n.name, clsName[cls], a, it, g)
				return false
			}
		}
		for a, it := range got[cls] {
			if _, ok := n.m.dec[cls][a]; !ok {
				e.Fail("encoding", "extra-"+clsName[cls], "%s: %s: %s %d %v is listed but was never registered", what, n.name, clsName[cls], a, it)
				return false
			}
		}
	}
	for cls := range n.m.dec {
		for a, it := range n.m.dec[cls] {
			if !n.decode(e, cls, a, it) {
				return false
			}
		}
	}
	for a, u := range urns {
		f, ok := n.set.FindURN(u)
		if !ok || urns[f] != u {
			e.Fail("reference", "find-urn", "%s: FindURN(%q) gives %d, %v; listed under %d", n.name, u, f, ok, a)
			return false
		}
	}
	return true
}

// decode looks one reference up in every way.
func (n *refNode) decode(e *eng.Ep, cls int, a uint32, want item) bool {
	var got item
	var ok bool
	switch cls {
	case clsType:
		id, o := n.set.DecodeType(a)
		got, ok = item{id.URN, id.Name}, o
		t, found := n.reg.LookupType(a)
		w, exists := n.coll.GetType(id)
		if found != exists || found && obs.Dump(t) != obs.Dump(w) {
			e.Fail("reference", "lookup-type", "type %d %v: lookup found=%v, collection has it=%v", a, want, found, exists)
			return false
		}
	case clsVar:
		id, o := n.set.DecodeTypeVariation(a)
		got, ok = item{id.URN, id.Name}, o
		t, found := n.reg.LookupTypeVariation(a)
		w, exists := n.coll.GetTypeVariation(id)
		if found != exists || t != w {
			e.Fail("reference", "lookup-variation", "variation %d %v: lookup %v %v, collection %v %v", a, want, t, found, w, exists)
			return false
		}
	default:
		id, o := n.set.DecodeFunc(a)
		got, ok = item{id.URN, id.Name}, o
		sf, f1 := n.reg.LookupScalarFunction(a)
		ws, x1 := n.coll.GetScalarFunc(id)
		af, f2 := n.reg.LookupAggregateFunction(a)
		wa, x2 := n.coll.GetAggregateFunc(id)
		wf, f3 := n.reg.LookupWindowFunction(a)
		ww, x3 := n.coll.GetWindowFunc(id)
		if f1 != x1 || f2 != x2 || f3 != x3 || sf != ws || af != wa || wf != ww {
			e.Fail("reference", "lookup-function", "function %d %v: lookups disagree with the collection", a, want)
			return false
		}
	}
	if !ok || got != want {
		e.Fail("reference", "decode-"+clsName[cls], "%s: %s %d must be %v, decodes to %v %v", n.name, clsName[cls], a, want, got, ok)
		return false
	}
	return true
}

func fromReg(name string, coll *extensions.Collection, set extensions.Set, m *refModel) *refNode {
	n := &refNode{name: name, coll: coll, set: set, reg: expr.NewExtensionRegistry(set, coll), m: m}
	n.eb = &expr.ExprBuilder{Reg: n.reg}
	return n
}

// c08Lit makes an argument of a builder call.
func c08Lit(k string) expr.Expression {
	switch k {
	case "i32":
		return expr.NewPrimitiveLiteral(int32(3), false)
	case "i64":
		return expr.NewPrimitiveLiteral(int64(3), false)
	case "fp64":
		return expr.NewPrimitiveLiteral(float64(3), false)
	case "bool":
		return expr.NewPrimitiveLiteral(true, true)
	case "str":
		return expr.NewPrimitiveLiteral("x", false)
	}
	return expr.NewByteSliceLiteral([]byte{1}, false)
}

// calls lists function builder calls on the simulated files: by what they are
// asked for, and what they register.
var c08Calls = []struct {
	kind, urn, ask string
	args           []string
	fn             string
	typ            string
}{
	{"s", "extension:sim:base", "add", []string{"i32", "i32"}, "add:i32_i32", ""},
	{"s", "extension:sim:base", "add:i64_i64", []string{"i64", "i64"}, "add:i64_i64", ""},
	{"s", "extension:sim:base", "equal", []string{"i64", "i64"}, "equal:any_any", ""},
	{"s", "extension:sim:base", "is_null:any", []string{"str"}, "is_null:any", ""},
	{"s", "extension:sim:base", "now", nil, "now:", ""},
	{"s", "extension:sim:misc", "add", []string{"i32", "i32"}, "add:i32_i32", ""},
	{"s", "extension:sim:misc", "Add", []string{"i32", "i32"}, "Add:i32_i32", ""},
	{"s", "extension:sim:misc", "toText_2:any", []string{"bool"}, "toText_2:any", ""},
	{"s", "extension:sim:misc", "invert", []string{"bool"}, "invert:bool", ""},
	{"s", "extension:sim:misc", "make_geo", []string{"str"}, "make_geo:str", "geo"},
	{"s", "extension:sim:derived", "join_points", []string{"i64", "i64"}, "join_points:i64_i64", "segment"},
	{"a", "extension:sim:agg", "sum", []string{"i32"}, "sum:i32", ""},
	{"a", "extension:sim:agg", "sum:i64", []string{"i64"}, "sum:i64", ""},
	{"a", "extension:sim:misc", "collect:any", []string{"fp64"}, "collect:any", ""},
	{"w", "extension:sim:agg", "ntile", []string{"i32"}, "ntile:i32", ""},
	{"w", "extension:sim:agg", "sum", []string{"i32"}, "sum:i32", ""},
	{"w", "extension:sim:misc", "lead:any", []string{"fp64"}, "lead:any", ""},
	{"w", "extension:sim:misc", "row_rank", nil, "row_rank:", ""},
}

func c08History(e *eng.Ep) {
	coll, cat := worldCat(e)
	sim := coll == fix.Sim()
	funcs := append(append(append([]gen.Item{}, cat.Scalar...), cat.Aggregate...), cat.Window...)
	// a small working set makes collisions likely
	pickItem := func(cls int) item {
		l := funcs
		switch cls {
		case clsType:
			l = cat.Types
		case clsVar:
			l = cat.Variations
		}
		k := l[e.Int("op", min(len(l), 40))]
		if e.Bool("op", 1, 10) {
			return item{k.URN, k.Name + "_custom"}
		}
		return item{k.URN, k.Name}
	}
	var nodes []*refNode
	nodes = append(nodes, fromReg("n0", coll, extensions.NewSet(), newRefModel()))
	ops := 6 + e.Count("cfg", 40)
	sent := 0
	for op := 0; op < ops && !e.Failed(); op++ {
		n := nodes[e.Int("op", len(nodes))]
		switch k := e.Int("op", 16); {
		case k < 5: // register or look up by identity
			cls := e.Int("op", 3)
			it := pickItem(cls)
			var a uint32
			set := n.set
			if e.Bool("op", 1, 3) {
				set = n.reg.Set
			}
			what := "register"
			switch cls {
			case clsType:
				if n.pb != nil && e.Bool("op", 1, 2) {
					what = "UserDefinedType"
					t := n.pb.UserDefinedType(it.urn, it.name)
					a = t.TypeReference
				} else {
					a = set.GetTypeAnchor(extensions.TypeID{URN: it.urn, Name: it.name})
				}
			case clsVar:
				a = set.GetTypeVariationAnchor(extensions.TypeVariationID{URN: it.urn, Name: it.name})
			default:
				switch {
				case n.pb != nil && e.Bool("op", 1, 2):
					what = "GetFunctionRef"
					a = uint32(n.pb.GetFunctionRef(it.urn, it.name))
				case strings.Contains(it.name, ":") && e.Bool("op", 1, 4):
					what = "NewCustomScalarFunc"
					v := extensions.NewScalarFuncVariant(extensions.FunctionID{URN: it.urn, Name: it.name})
					f, err := expr.NewCustomScalarFunc(n.reg, v, &types.Int32Type{Nullability: types.NullabilityRequired}, nil, c08Lit("i32"))
					if err != nil {
						e.Fail("rejected", "custom:"+errSig(err), "%v", err)
						return
					}
					a = f.ToProto().GetScalarFunction().FunctionReference
				default:
					a = set.GetFuncAnchor(extensions.FunctionID{URN: it.urn, Name: it.name})
				}
			}
			e.Trace("%s %s %v -> %d", n.name, what, it, a)
			if !n.m.learn(e, what, cls, it, a) {
				return
			}
		case k < 8 && sim: // register through the builders
			c := c08Calls[e.Int("op", len(c08Calls))]
			id := extensions.FunctionID{URN: c.urn, Name: c.ask}
			var args []types.FuncArg
			for _, s := range c.args {
				args = append(args, c08Lit(s))
			}
			var a uint32
			var out types.Type
			var err error
			if n.pb != nil && e.Bool("op", 1, 2) && c.kind != "w" {
				if c.kind == "s" {
					var f *expr.ScalarFunction
					if f, err = n.pb.ScalarFn(c.urn, c.ask, nil, args...); err == nil {
						a, out = f.ToProto().GetScalarFunction().FunctionReference, f.GetType()
					}
				} else {
					var f *expr.AggregateFunction
					if f, err = n.pb.AggregateFn(c.urn, c.ask, nil, args...); err == nil {
						a, out = f.ToProto().FunctionReference, f.GetType()
					}
				}
			} else {
				switch c.kind {
				case "s":
					var f *expr.ScalarFunction
					if f, err = expr.NewScalarFunc(n.reg, id, nil, args...); err == nil {
						a, out = f.ToProto().GetScalarFunction().FunctionReference, f.GetType()
					}
				case "a":
					var f *expr.AggregateFunction
					if f, err = expr.NewAggregateFunc(n.reg, id, nil, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, args...); err == nil {
						a, out = f.ToProto().FunctionReference, f.GetType()
					}
				default:
					var x expr.Expression
					b := n.eb.WindowFunc(id).Phase(types.AggPhaseInitialToResult).Invocation(types.AggInvocationAll)
					var fa []expr.FuncArgBuilder
					for _, s := range c.args {
						fa = append(fa, n.eb.Expression(c08Lit(s)))
					}
					if x, err = b.Args(fa...).BuildExpr(); err == nil {
						a, out = x.ToProto().GetWindowFunction().FunctionReference, x.GetType()
					}
				}
			}
			if err != nil {
				e.Fail("rejected", "build:"+c.kind+c.ask+":"+errSig(err), "%s %s %v: %v", c.urn, c.ask, c.args, err)
				return
			}
			e.Trace("%s build %s/%s -> %d %v", n.name, c.urn, c.ask, a, out)
			e.Probe("builder_registration")
			if !n.m.learn(e, "build", clsFunc, item{c.urn, c.fn}, a) {
				return
			}
			if c.typ != "" {
				u, ok := out.(*types.UserDefinedType)
				if !ok {
					e.Fail("reference", "build:return-type", "%s returns %v", c.fn, out)
					return
				}
				if !n.m.learn(e, "build", clsType, item{c.urn, c.typ}, u.TypeReference) {
					return
				}
			}
		case k < 10: // decode unknown references: they must stay unknown
			a := []uint32{0, 1, uint32(e.Int("op", 50)), math.MaxUint32, uint32(e.Int("op", 1<<30))}[e.Int("op", 5)]
			_, ok1 := n.set.DecodeType(a)
			_, ok2 := n.set.DecodeTypeVariation(a)
			_, ok3 := n.set.DecodeFunc(a)
			for cls, ok := range []bool{ok1, ok2, ok3} {
				if _, known := n.m.dec[cls][a]; known != ok {
					e.Fail("reference", "decode-unknown-"+clsName[cls], "%s: %s %d decodes=%v, registered=%v", n.name, clsName[cls], a, ok, known)
					return
				}
			}
		case k < 12: // encode
			simrt.SeedHash(e.Seed ^ uint64(op)<<20)
			if !n.check(e, "encode") {
				return
			}
		case k < 14: // send the declarations to another process (or a crashed one restarts from them)
			us, ds := n.encode(e)
			if e.Failed() {
				return
			}
			msg := transmit(e, &pb.Plan{ExtensionUrns: us, Extensions: ds}, func() *pb.Plan { return &pb.Plan{} })
			shuffleDecls(e, msg.ExtensionUrns, msg.Extensions)
			if m := c08Receive(e, nodes, coll, msg, n.m, fmt.Sprintf("n%d", len(nodes))); m != nil {
				if e.Bool("net", 1, 3) {
					e.Fault("crash_restart")
					for i := range nodes {
						if nodes[i] == n {
							nodes[i] = m
						}
					}
				} else if len(nodes) < 5 {
					nodes = append(nodes, m)
				} else {
					nodes[e.Int("net", len(nodes))] = m
				}
			}
			sent++
			if !e.Failed() && !n.check(e, "after-send") {
				return
			}
		default: // a plan from a foreign system with its own numbering
			msg, m := c08Foreign(e, cat)
			e.Fault("foreign_numbering")
			if x := c08Receive(e, nodes, coll, msg, m, fmt.Sprintf("n%d", len(nodes))); x != nil {
				if len(nodes) < 5 {
					nodes = append(nodes, x)
				} else {
					nodes[e.Int("net", len(nodes))] = x
				}
			}
			sent++
		}
		e.State(n.m.key())
	}
	if e.Failed() {
		return
	}
	for _, n := range nodes {
		if !n.check(e, "final") {
			return
		}
	}
	e.Nontrivial = ops > 0
	if sent > 0 {
		e.Probe("history_with_decoded_set")
	}
}

// c08Receive decodes declarations in one of the ways the library offers and
// checks the resulting set against the sender's model.
func c08Receive(e *eng.Ep, nodes []*refNode, coll *extensions.Collection, msg *pb.Plan, m *refModel, name string) *refNode {
	before := clone(msg).(*pb.Plan)
	mm := m.clone()
	// which of several references an item answers with is open again
	for cls := range mm.enc {
		mm.enc[cls] = map[item]uint32{}
	}
	var n *refNode
	switch e.Int("net", 4) {
	case 0:
		set, err := extensions.GetExtensionSet(msg, coll)
		if err != nil {
			e.Fail("rejected", "decode-set:"+errSig(err), "%v\n%s", err, obs.Text(before))
			return nil
		}
		n = fromReg(name, coll, set, mm)
	case 1:
		x, err := expr.ExtendedFromProto(&pb.ExtendedExpression{ExtensionUrns: msg.ExtensionUrns, Extensions: msg.Extensions, BaseSchema: &pb.NamedStruct{Struct: &pb.Type_Struct{Nullability: gen.Req}}}, coll)
		if err != nil {
			e.Fail("rejected", "decode-extended:"+errSig(err), "%v\n%s", err, obs.Text(before))
			return nil
		}
		n = fromReg(name, coll, x.Extensions, mm)
	case 2:
		p, err := plan.FromProto(msg, coll)
		if err != nil {
			e.Fail("rejected", "decode-plan:"+errSig(err), "%v\n%s", err, obs.Text(before))
			return nil
		}
		reg := p.ExtensionRegistry()
		n = fromReg(name, coll, reg.Set, mm)
		n.reg, n.pl = reg, p
		n.eb = &expr.ExprBuilder{Reg: reg}
	default:
		// a builder session: its set starts empty
		if len(m.dec[0])+len(m.dec[1])+len(m.dec[2]) > 0 {
			b := plan.NewBuilder(coll)
			n = &refNode{name: name, coll: coll, pb: b, m: newRefModel()}
			n.eb = b.GetExprBuilder()
			n.reg = n.eb.Reg
			n.set = n.reg.Set
			e.Probe("builder_session")
			return n
		}
		set, err := extensions.GetExtensionSet(msg, coll)
		if err != nil {
			e.Fail("rejected", "decode-set:"+errSig(err), "%v", err)
			return nil
		}
		n = fromReg(name, coll, set, mm)
	}
	if _, d := obs.Diff(before, msg); d != "" {
		e.Fail("message-altered", "decode-alters-declarations", "%s", d)
		return nil
	}
	if !n.check(e, "received") {
		return nil
	}
	e.Probe("received_set")
	return n
}

// c08Foreign draws declarations with arbitrary numbering, the same URN or item
// declared more than once included.
func c08Foreign(e *eng.Ep, cat *gen.Catalog) (*pb.Plan, *refModel) {
	m := newRefModel()
	anchor := func(used func(uint32) bool, zero bool) uint32 {
		for try := uint32(0); ; try++ {
			var a uint32
			switch e.Int("net", 5) {
			case 0:
				a = uint32(e.Int("net", 6))
			case 1:
				a = uint32(e.Int("net", 40))
			case 2:
				a = math.MaxUint32 - uint32(e.Int("net", 4))
			case 3:
				a = uint32(e.Int("net", 1<<30))
			default:
				a = 1<<31 + uint32(e.Int("net", 3))
			}
			if try > 40 {
				a += try - 40
			}
			if (a != 0 || zero) && !used(a) {
				return a
			}
		}
	}
	msg := &pb.Plan{}
	urnOf := map[uint32]string{}
	anchors := map[string][]uint32{}
	for i, k := 0, 1+e.Int("net", 4); i < k; i++ {
		u := cat.URNs[e.Int("net", len(cat.URNs))]
		if len(anchors[u]) > 0 {
			if !e.Bool("net", 1, 3) {
				continue
			}
			e.Fault("urn_declared_twice")
		}
		a := anchor(func(a uint32) bool { return urnOf[a] != "" }, true)
		urnOf[a] = u
		anchors[u] = append(anchors[u], a)
		msg.ExtensionUrns = append(msg.ExtensionUrns, &extpb.SimpleExtensionURN{ExtensionUrnAnchor: a, Urn: u})
	}
	funcs := append(append(append([]gen.Item{}, cat.Scalar...), cat.Aggregate...), cat.Window...)
	for i, k := 0, e.Int("net", 10); i < k; i++ {
		cls := e.Int("net", 3)
		l := funcs
		if cls == clsType {
			l = cat.Types
		} else if cls == clsVar {
			l = cat.Variations
		}
		g := l[e.Int("net", min(len(l), 40))]
		if len(anchors[g.URN]) == 0 {
			// attribute it to a declared URN: an item the collection lacks
			var us []string
			for u := range anchors {
				us = append(us, u)
			}
			sort.Strings(us)
			g.URN = us[e.Int("net", len(us))]
		}
		it := item{g.URN, g.Name}
		dup := false
		for _, x := range m.dec[cls] {
			dup = dup || x == it
		}
		if dup {
			if !e.Bool("net", 1, 3) {
				continue
			}
			e.Fault("item_declared_twice")
		}
		a := anchor(func(a uint32) bool { _, ok := m.dec[cls][a]; return ok }, cls != clsVar)
		m.dec[cls][a] = it
		us := anchors[g.URN]
		ref := us[e.Int("net", len(us))]
		var d *extpb.SimpleExtensionDeclaration
		switch cls {
		case clsType:
			d = &extpb.SimpleExtensionDeclaration{MappingType: &extpb.SimpleExtensionDeclaration_ExtensionType_{ExtensionType: &extpb.SimpleExtensionDeclaration_ExtensionType{ExtensionUrnReference: ref, TypeAnchor: a, Name: g.Name}}}
		case clsVar:
			d = &extpb.SimpleExtensionDeclaration{MappingType: &extpb.SimpleExtensionDeclaration_ExtensionTypeVariation_{ExtensionTypeVariation: &extpb.SimpleExtensionDeclaration_ExtensionTypeVariation{ExtensionUrnReference: ref, TypeVariationAnchor: a, Name: g.Name}}}
		default:
			d = &extpb.SimpleExtensionDeclaration{MappingType: &extpb.SimpleExtensionDeclaration_ExtensionFunction_{ExtensionFunction: &extpb.SimpleExtensionDeclaration_ExtensionFunction{ExtensionUrnReference: ref, FunctionAnchor: a, Name: g.Name}}}
		}
		msg.Extensions = append(msg.Extensions, d)
	}
	return msg, m
}
