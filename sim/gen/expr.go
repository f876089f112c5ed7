package gen

import (
	"math"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

func lit(l *pb.Expression_Literal) *pb.Expression {
	return &pb.Expression{RexType: &pb.Expression_Literal_{Literal: l}}
}

// Leaf builds a literal, typed null or dynamic parameter of type t.
func (g *G) Leaf(t *pb.Type) *pb.Expression {
	k := g.n(8)
	if k >= 6 && len(g.Params) < 5 && NullOf(t) != pb.Type_NULLABILITY_UNSPECIFIED {
		g.feat("dynamic_parameter")
		a := uint32(len(g.Params))
		if g.p(1, 3) {
			a = uint32(100 + g.n(1000)*10 + len(g.Params))
		}
		g.Params = append(g.Params, Param{a, t})
		return &pb.Expression{RexType: &pb.Expression_DynamicParameter{DynamicParameter: &pb.DynamicParameter{Type: t, ParameterReference: a}}}
	}
	if k >= 1 || NullOf(t) == Req {
		if l, ok := g.Literal(t, 2); ok {
			g.feat("literal")
			return lit(l)
		}
	}
	g.feat("null_literal")
	return lit(NullLit(t))
}

type refPath struct {
	seg *pb.Expression_ReferenceSegment
	typ *pb.Type
}

// Paths lists the direct references reachable from a struct, to a depth.
func (g *G) paths(fields []*pb.Type, depth int) []refPath {
	var out []refPath
	for i, f := range fields {
		mk := func(c *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment {
			return &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_StructField_{StructField: &pb.Expression_ReferenceSegment_StructField{Field: int32(i), Child: c}}}
		}
		out = append(out, refPath{mk(nil), f})
		if depth > 0 {
			for _, p := range g.inner(f, depth) {
				out = append(out, refPath{mk(p.seg), p.typ})
			}
		}
	}
	return out
}

func (g *G) inner(t *pb.Type, depth int) []refPath {
	var out []refPath
	switch k := t.Kind.(type) {
	case *pb.Type_Struct_:
		return g.paths(k.Struct.Types, depth-1)
	case *pb.Type_List_:
		o := int32(g.n(5) - 1)
		mk := func(c *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment {
			return &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_ListElement_{ListElement: &pb.Expression_ReferenceSegment_ListElement{Offset: o, Child: c}}}
		}
		out = append(out, refPath{mk(nil), k.List.Type})
		if depth > 1 {
			for _, p := range g.inner(k.List.Type, depth-1) {
				out = append(out, refPath{mk(p.seg), p.typ})
			}
		}
	case *pb.Type_Map_:
		key, ok := g.Literal(k.Map.Key, 0)
		if !ok {
			return nil
		}
		mk := func(c *pb.Expression_ReferenceSegment) *pb.Expression_ReferenceSegment {
			return &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_MapKey_{MapKey: &pb.Expression_ReferenceSegment_MapKey{MapKey: key, Child: c}}}
		}
		out = append(out, refPath{mk(nil), k.Map.Value})
		if depth > 1 {
			for _, p := range g.inner(k.Map.Value, depth-1) {
				out = append(out, refPath{mk(p.seg), p.typ})
			}
		}
	}
	return out
}

func rootRef(seg *pb.Expression_ReferenceSegment) *pb.Expression_FieldReference {
	return &pb.Expression_FieldReference{
		ReferenceType: &pb.Expression_FieldReference_DirectReference{DirectReference: seg},
		RootType:      &pb.Expression_FieldReference_RootReference_{RootReference: &pb.Expression_FieldReference_RootReference{}},
	}
}

func sel(f *pb.Expression_FieldReference) *pb.Expression {
	return &pb.Expression{RexType: &pb.Expression_Selection{Selection: f}}
}

// fieldOf returns a root reference to a field of type want, if there is one.
func (g *G) fieldOf(schema []*pb.Type, want *pb.Type) *pb.Expression_FieldReference {
	var c []refPath
	for _, p := range g.paths(schema, 3) {
		if proto.Equal(p.typ, want) {
			c = append(c, p)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return rootRef(c[g.n(len(c))].seg)
}

// AnyField returns a root reference to some column.
func (g *G) AnyField(schema []*pb.Type) (*pb.Expression_FieldReference, *pb.Type) {
	c := g.paths(schema, 2)
	if len(c) == 0 {
		return nil, nil
	}
	p := c[g.n(len(c))]
	return rootRef(p.seg), p.typ
}

// WantType chooses a type worth asking for.
func (g *G) WantType(schema []*pb.Type) *pb.Type {
	if len(schema) > 0 && g.p(1, 2) {
		c := g.paths(schema, 2)
		return c[g.n(len(c))].typ
	}
	return g.Type(2)
}

func boolReq() *pb.Type { return Bool(Req) }

// Expr builds an expression of exactly type want over schema.
func (g *G) Expr(schema []*pb.Type, want *pb.Type, depth int) *pb.Expression {
	if len(schema) > 0 && g.p(1, 2) {
		if f := g.fieldOf(schema, want); f != nil {
			g.feat("field_ref")
			return sel(f)
		}
	}
	if depth <= 0 || !g.spend() {
		return g.Leaf(want)
	}
	isBool := proto.Equal(want, boolReq())
	for try := 0; try < 4; try++ {
		switch g.n(16) {
		case 0:
			return g.Leaf(want)
		case 1, 2, 3:
			if e := g.scalarFunc(schema, want, depth); e != nil {
				return e
			}
		case 4:
			g.feat("cast")
			from := g.WantType(schema)
			return &pb.Expression{RexType: &pb.Expression_Cast_{Cast: &pb.Expression_Cast{Type: want, Input: g.Expr(schema, from, depth-1), FailureBehavior: pb.Expression_Cast_FailureBehavior(g.n(3))}}}
		case 5:
			g.feat("if_then")
			e := &pb.Expression_IfThen{Else: g.Expr(schema, want, depth-1)}
			for i := 1 + g.cnt(2); i > 0; i-- {
				e.Ifs = append(e.Ifs, &pb.Expression_IfThen_IfClause{If: g.Expr(schema, Bool(g.nullab()), depth-1), Then: g.Expr(schema, want, depth-1)})
			}
			return &pb.Expression{RexType: &pb.Expression_IfThen_{IfThen: e}}
		case 6:
			m := g.ScalarKind(g.n(12), g.nullab(), 0)
			e := &pb.Expression_SwitchExpression{Match: g.Expr(schema, m, depth-1), Else: g.Expr(schema, want, depth-1)}
			ok := true
			for i := 1 + g.cnt(3); i > 0; i-- {
				l, o := g.Literal(m, 1)
				if !o {
					ok = false
					break
				}
				e.Ifs = append(e.Ifs, &pb.Expression_SwitchExpression_IfValue{If: l, Then: g.Expr(schema, want, depth-1)})
			}
			if !ok {
				continue
			}
			g.feat("switch")
			return &pb.Expression{RexType: &pb.Expression_SwitchExpression_{SwitchExpression: e}}
		case 7:
			if e := g.windowFunc(schema, want, depth); e != nil {
				return e
			}
		case 8:
			if e := g.nested(schema, want, depth); e != nil {
				return e
			}
		case 9:
			if e := g.refOnExpr(schema, want, depth); e != nil {
				return e
			}
		case 10:
			if isBool {
				return g.orList(schema, depth)
			}
		case 11, 12:
			if g.Sub && g.Budget > 4 {
				if e := g.subquery(schema, want, isBool, depth); e != nil {
					return e
				}
			}
		case 13:
			if f, ok := want.Kind.(*pb.Type_Func_); ok && f.Func.Nullability == Req {
				if e := g.Lambda(schema, f.Func, depth); e != nil {
					return e
				}
			}
		}
	}
	return g.Leaf(want)
}

// Lambda builds a lambda of the given function type.
func (g *G) Lambda(schema []*pb.Type, f *pb.Type_Func, depth int) *pb.Expression {
	g.feat("lambda")
	g.lambda = append(g.lambda, f.ParameterTypes)
	body := g.Expr(schema, f.ReturnType, depth-1)
	g.lambda = g.lambda[:len(g.lambda)-1]
	return &pb.Expression{RexType: &pb.Expression_Lambda_{Lambda: &pb.Expression_Lambda{Parameters: &pb.Type_Struct{Types: f.ParameterTypes, Nullability: Req}, Body: body}}}
}

func (g *G) refOnExpr(schema []*pb.Type, want *pb.Type, depth int) *pb.Expression {
	// build a struct, list or map expression holding want and select from it
	g.feat("ref_on_expression")
	switch g.n(3) {
	case 0:
		n := 1 + g.n(3)
		at := g.n(n)
		s := &pb.Expression_Nested_Struct{}
		for i := 0; i < n; i++ {
			if i == at {
				s.Fields = append(s.Fields, g.Expr(schema, want, depth-1))
			} else {
				s.Fields = append(s.Fields, g.Expr(schema, g.ScalarKind(g.n(10), Req, 0), depth-1))
			}
		}
		root := &pb.Expression{RexType: &pb.Expression_Nested_{Nested: &pb.Expression_Nested{Nullable: g.p(1, 3), NestedType: &pb.Expression_Nested_Struct_{Struct: s}}}}
		return sel(&pb.Expression_FieldReference{
			ReferenceType: &pb.Expression_FieldReference_DirectReference{DirectReference: &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_StructField_{StructField: &pb.Expression_ReferenceSegment_StructField{Field: int32(at)}}}},
			RootType:      &pb.Expression_FieldReference_Expression{Expression: root}})
	case 1:
		root := g.Expr(schema, &pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Type: want, Nullability: Req}}}, depth-1)
		return sel(&pb.Expression_FieldReference{
			ReferenceType: &pb.Expression_FieldReference_DirectReference{DirectReference: &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_ListElement_{ListElement: &pb.Expression_ReferenceSegment_ListElement{Offset: int32(g.n(4))}}}},
			RootType:      &pb.Expression_FieldReference_Expression{Expression: root}})
	}
	kt := g.keyType()
	kl, ok := g.Literal(kt, 0)
	if !ok {
		return nil
	}
	root := g.Expr(schema, &pb.Type{Kind: &pb.Type_Map_{Map: &pb.Type_Map{Key: kt, Value: want, Nullability: Req}}}, depth-1)
	return sel(&pb.Expression_FieldReference{
		ReferenceType: &pb.Expression_FieldReference_DirectReference{DirectReference: &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_MapKey_{MapKey: &pb.Expression_ReferenceSegment_MapKey{MapKey: kl}}}},
		RootType:      &pb.Expression_FieldReference_Expression{Expression: root}})
}

func (g *G) nested(schema []*pb.Type, want *pb.Type, depth int) *pb.Expression {
	if NullOf(want) == pb.Type_NULLABILITY_UNSPECIFIED {
		return nil
	}
	n := &pb.Expression_Nested{Nullable: NullOf(want) == Null, TypeVariationReference: varOf(want)}
	switch k := want.Kind.(type) {
	case *pb.Type_Struct_:
		s := &pb.Expression_Nested_Struct{}
		for _, f := range k.Struct.Types {
			s.Fields = append(s.Fields, g.Expr(schema, f, depth-1))
		}
		n.NestedType = &pb.Expression_Nested_Struct_{Struct: s}
	case *pb.Type_List_:
		s := &pb.Expression_Nested_List{}
		for i := 1 + g.cnt(3); i > 0; i-- {
			s.Values = append(s.Values, g.Expr(schema, k.List.Type, depth-1))
		}
		n.NestedType = &pb.Expression_Nested_List_{List: s}
	case *pb.Type_Map_:
		s := &pb.Expression_Nested_Map{}
		for i := 1 + g.cnt(3); i > 0; i-- {
			s.KeyValues = append(s.KeyValues, &pb.Expression_Nested_Map_KeyValue{Key: g.Expr(schema, k.Map.Key, depth-1), Value: g.Expr(schema, k.Map.Value, depth-1)})
		}
		n.NestedType = &pb.Expression_Nested_Map_{Map: s}
	default:
		return nil
	}
	g.feat("nested")
	return &pb.Expression{RexType: &pb.Expression_Nested_{Nested: n}}
}

func (g *G) orList(schema []*pb.Type, depth int) *pb.Expression {
	if g.p(1, 2) {
		g.feat("singular_or_list")
		t := g.WantType(schema)
		e := &pb.Expression_SingularOrList{Value: g.Expr(schema, t, depth-1)}
		for i := 1 + g.cnt(3); i > 0; i-- {
			e.Options = append(e.Options, g.Expr(schema, t, depth-1))
		}
		return &pb.Expression{RexType: &pb.Expression_SingularOrList_{SingularOrList: e}}
	}
	g.feat("multi_or_list")
	e := &pb.Expression_MultiOrList{}
	var ts []*pb.Type
	for i := 1 + g.cnt(3); i > 0; i-- {
		t := g.WantType(schema)
		ts = append(ts, t)
		e.Value = append(e.Value, g.Expr(schema, t, depth-1))
	}
	for i := 1 + g.cnt(2); i > 0; i-- {
		r := &pb.Expression_MultiOrList_Record{}
		for _, t := range ts {
			r.Fields = append(r.Fields, g.Expr(schema, t, depth-2))
		}
		e.Options = append(e.Options, r)
	}
	return &pb.Expression{RexType: &pb.Expression_MultiOrList_{MultiOrList: e}}
}

func (g *G) subquery(schema []*pb.Type, want *pb.Type, isBool bool, depth int) *pb.Expression {
	save := g.lambda
	g.lambda = nil
	g.outer = append(g.outer, schema)
	defer func() { g.lambda = save; g.outer = g.outer[:len(g.outer)-1] }()
	wrap := func(s *pb.Expression_Subquery) *pb.Expression {
		return &pb.Expression{RexType: &pb.Expression_Subquery_{Subquery: s}}
	}
	if !isBool || g.p(1, 4) {
		g.feat("scalar_subquery")
		rel := g.RelOf([]*pb.Type{want}, 1)
		return wrap(&pb.Expression_Subquery{SubqueryType: &pb.Expression_Subquery_Scalar_{Scalar: &pb.Expression_Subquery_Scalar{Input: rel}}})
	}
	switch g.n(3) {
	case 0:
		g.feat("in_predicate")
		e := &pb.Expression_Subquery_InPredicate{}
		var ts []*pb.Type
		for i := 1 + g.cnt(2); i > 0; i-- {
			t := g.WantType(schema)
			ts = append(ts, t)
			e.Needles = append(e.Needles, g.Expr(schema, t, depth-1))
		}
		e.Haystack = g.RelOf(ts, 1)
		return wrap(&pb.Expression_Subquery{SubqueryType: &pb.Expression_Subquery_InPredicate_{InPredicate: e}})
	case 1:
		g.feat("set_predicate")
		r, _ := g.Rel(1)
		return wrap(&pb.Expression_Subquery{SubqueryType: &pb.Expression_Subquery_SetPredicate_{SetPredicate: &pb.Expression_Subquery_SetPredicate{PredicateOp: pb.Expression_Subquery_SetPredicate_PredicateOp(1 + g.n(2)), Tuples: r}}})
	}
	g.feat("set_comparison")
	t := g.WantType(schema)
	return wrap(&pb.Expression_Subquery{SubqueryType: &pb.Expression_Subquery_SetComparison_{SetComparison: &pb.Expression_Subquery_SetComparison{
		ReductionOp: pb.Expression_Subquery_SetComparison_ReductionOp(1 + g.n(2)), ComparisonOp: pb.Expression_Subquery_SetComparison_ComparisonOp(1 + g.n(6)),
		Left: g.Expr(schema, t, depth-1), Right: g.RelOf([]*pb.Type{t}, 1)}}})
}

// Args builds function arguments.
func (g *G) Args(schema []*pb.Type, depth int) []*pb.FunctionArgument {
	var out []*pb.FunctionArgument
	for i := g.cnt(4); i > 0; i-- {
		switch g.n(8) {
		case 0:
			g.feat("enum_arg")
			out = append(out, &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Enum{Enum: g.pick([]string{"YEAR", "MONTH", "SUBSECOND", "lower", "", "ISO_YEAR"})}})
		case 1:
			g.feat("type_arg")
			out = append(out, &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Type{Type: g.Type(1)}})
		case 2:
			if len(g.lambda) > 0 {
				ps := g.lambda[len(g.lambda)-1]
				if len(ps) > 0 {
					g.feat("lambda_param_ref")
					so := uint32(0)
					if len(g.lambda) > 1 && g.p(1, 2) {
						so = 1
						ps = g.lambda[len(g.lambda)-2]
					}
					if len(ps) == 0 {
						continue
					}
					out = append(out, val(sel(&pb.Expression_FieldReference{
						ReferenceType: &pb.Expression_FieldReference_DirectReference{DirectReference: &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_StructField_{StructField: &pb.Expression_ReferenceSegment_StructField{Field: int32(g.n(len(ps)))}}}},
						RootType:      &pb.Expression_FieldReference_LambdaParameterReference_{LambdaParameterReference: &pb.Expression_FieldReference_LambdaParameterReference{StepsOut: so}}})))
					continue
				}
			}
			fallthrough
		case 3:
			if len(g.outer) > 0 && g.p(1, 2) {
				so := 1 + g.n(len(g.outer))
				os := g.outer[len(g.outer)-so]
				if len(os) > 0 {
					g.feat("outer_ref")
					out = append(out, val(sel(&pb.Expression_FieldReference{
						ReferenceType: &pb.Expression_FieldReference_DirectReference{DirectReference: &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_StructField_{StructField: &pb.Expression_ReferenceSegment_StructField{Field: int32(g.n(len(os)))}}}},
						RootType:      &pb.Expression_FieldReference_OuterReference_{OuterReference: &pb.Expression_FieldReference_OuterReference{StepsOut: uint32(so)}}})))
					continue
				}
			}
			if depth > 1 && g.p(1, 2) {
				f := &pb.Type_Func{Nullability: Req, ReturnType: g.Type(1)}
				for k := 1 + g.cnt(2); k > 0; k-- {
					f.ParameterTypes = append(f.ParameterTypes, g.ScalarKind(g.n(10), Req, 0))
				}
				out = append(out, val(g.Lambda(schema, f, depth)))
				continue
			}
			fallthrough
		default:
			out = append(out, val(g.Expr(schema, g.WantType(schema), depth-1)))
		}
	}
	return out
}

func val(e *pb.Expression) *pb.FunctionArgument {
	return &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Value{Value: e}}
}

// Options builds function options.
func (g *G) Options() []*pb.FunctionOption {
	var out []*pb.FunctionOption
	if !g.p(1, 3) {
		return nil
	}
	g.feat("function_options")
	for i := 1 + g.cnt(2); i > 0; i-- {
		o := &pb.FunctionOption{Name: g.pick([]string{"overflow", "rounding", "on_domain_error", "case_sensitivity", "x"})}
		for k := g.cnt(3); k > 0; k-- {
			o.Preference = append(o.Preference, g.pick([]string{"SILENT", "ERROR", "SATURATE", "TIE_TO_EVEN", ""}))
		}
		out = append(out, o)
	}
	return out
}

func (g *G) item(l []Item, def string) (Item, bool) {
	if len(l) == 0 {
		return Item{}, false
	}
	if g.p(1, 12) {
		g.feat("custom_function")
		// a function the receiver's extension files do not define
		return Item{URN: l[g.n(len(l))].URN, Name: "sim_custom_" + def + ":i64_str", Kind: def}, true
	}
	return l[g.n(len(l))], true
}

func (g *G) scalarFunc(schema []*pb.Type, want *pb.Type, depth int) *pb.Expression {
	it, ok := g.item(g.Cat.Scalar, "scalar")
	if !ok {
		return nil
	}
	g.feat("scalar_function")
	return &pb.Expression{RexType: &pb.Expression_ScalarFunction_{ScalarFunction: &pb.Expression_ScalarFunction{
		FunctionReference: g.Refs.Ref("func", it.URN, it.Name), Arguments: g.Args(schema, depth), Options: g.Options(), OutputType: want}}}
}

// Sorts builds sort fields.
func (g *G) Sorts(schema []*pb.Type, n, depth int) []*pb.SortField {
	var out []*pb.SortField
	for ; n > 0; n-- {
		s := &pb.SortField{Expr: g.Expr(schema, g.WantType(schema), depth-1)}
		if g.p(1, 5) && len(g.Cat.Scalar) > 0 {
			g.feat("sort_function")
			it := g.Cat.Scalar[g.n(len(g.Cat.Scalar))]
			s.SortKind = &pb.SortField_ComparisonFunctionReference{ComparisonFunctionReference: g.Refs.Ref("func", it.URN, it.Name)}
		} else {
			s.SortKind = &pb.SortField_Direction{Direction: pb.SortField_SortDirection(1 + g.n(5))}
		}
		out = append(out, s)
	}
	return out
}

func (g *G) bound() *pb.Expression_WindowFunction_Bound {
	off := []int64{1, 0, 5, math.MaxInt64, 1 << 33}
	switch g.n(5) {
	case 0:
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_Unbounded_{Unbounded: &pb.Expression_WindowFunction_Bound_Unbounded{}}}
	case 1:
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_CurrentRow_{CurrentRow: &pb.Expression_WindowFunction_Bound_CurrentRow{}}}
	case 2:
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_Preceding_{Preceding: &pb.Expression_WindowFunction_Bound_Preceding{Offset: off[g.n(5)]}}}
	case 3:
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_Following_{Following: &pb.Expression_WindowFunction_Bound_Following{Offset: off[g.n(5)]}}}
	}
	return nil
}

func (g *G) phase() pb.AggregationPhase { return pb.AggregationPhase(1 + g.n(4)) }
func (g *G) invocation() pb.AggregateFunction_AggregationInvocation {
	return pb.AggregateFunction_AggregationInvocation(g.n(3))
}

func (g *G) windowFunc(schema []*pb.Type, want *pb.Type, depth int) *pb.Expression {
	it, ok := g.item(g.Cat.Window, "window")
	if !ok {
		return nil
	}
	g.feat("window_function")
	w := &pb.Expression_WindowFunction{FunctionReference: g.Refs.Ref("func", it.URN, it.Name), Arguments: g.Args(schema, depth-1), Options: g.Options(), OutputType: want,
		Phase: g.phase(), Invocation: g.invocation(), Sorts: g.Sorts(schema, g.n(3), depth-1), BoundsType: pb.Expression_WindowFunction_BoundsType(g.n(3)), LowerBound: g.bound(), UpperBound: g.bound()}
	for i := g.cnt(3); i > 0; i-- {
		w.Partitions = append(w.Partitions, g.Expr(schema, g.WantType(schema), depth-1))
	}
	return &pb.Expression{RexType: &pb.Expression_WindowFunction_{WindowFunction: w}}
}

// AggFunc builds an aggregate function with output type want.
func (g *G) AggFunc(schema []*pb.Type, want *pb.Type, depth int) *pb.AggregateFunction {
	it, ok := g.item(g.Cat.Aggregate, "aggregate")
	if !ok {
		return nil
	}
	g.feat("aggregate_function")
	return &pb.AggregateFunction{FunctionReference: g.Refs.Ref("func", it.URN, it.Name), Arguments: g.Args(schema, depth), Options: g.Options(), OutputType: want,
		Phase: g.phase(), Invocation: g.invocation(), Sorts: g.Sorts(schema, g.n(3), depth-1)}
}

// Top builds an expression whose outermost node is drawn evenly among the
// kinds of expressions that have children.
func (g *G) Top(schema []*pb.Type, depth int) (*pb.Expression, *pb.Type) {
	for {
		want := g.WantType(schema)
		var x *pb.Expression
		switch g.n(12) {
		case 0:
			x = g.scalarFunc(schema, want, depth)
		case 1:
			x = g.windowFunc(schema, want, depth)
		case 2, 3:
			want = boolReq()
			x = g.orList(schema, depth)
		case 4:
			want = &pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Type: g.Type(1), Nullability: g.nullab()}}}
			x = g.nested(schema, want, depth)
		case 5:
			want = &pb.Type{Kind: &pb.Type_Map_{Map: &pb.Type_Map{Key: g.ScalarKind(g.n(12), g.nullab(), 0), Value: g.Type(1), Nullability: g.nullab()}}}
			x = g.nested(schema, want, depth)
		case 6:
			want = &pb.Type{Kind: &pb.Type_Struct_{Struct: &pb.Type_Struct{Types: []*pb.Type{g.Type(1), g.Type(0), g.Type(1)}, Nullability: g.nullab()}}}
			x = g.nested(schema, want, depth)
		case 7:
			x = g.refOnExpr(schema, want, depth)
		case 8:
			f := &pb.Type_Func{ParameterTypes: []*pb.Type{g.Type(1)}, ReturnType: g.Type(1), Nullability: Req}
			want = &pb.Type{Kind: &pb.Type_Func_{Func: f}}
			x = g.Lambda(schema, f, depth)
		case 9, 10:
			if g.Sub {
				isBool := g.p(3, 4)
				if isBool {
					want = boolReq()
				}
				x = g.subquery(schema, want, isBool, depth)
			}
		default:
			x = g.Expr(schema, want, depth)
		}
		if x != nil {
			return x, want
		}
	}
}
