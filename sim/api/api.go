// Package api rebuilds wire expressions through the library's constructors, so
// that an object made by calls can be compared with the message it should
// encode to.
package api

import (
	"fmt"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
)

// B builds expressions against a registry and a schema.
type B struct {
	Reg expr.ExtensionRegistry
	// Names resolves the function references of the messages; Reg if unset
	Names *expr.ExtensionRegistry
	// Subquery rebuilds subqueries
	Subquery func(*B, *pb.Expression_Subquery) (expr.Expression, error)
	Schema   *types.RecordType
	// Used names the constructors exercised.
	Used map[string]int
}

// Skip is returned for messages that no constructor can make.
type Skip struct{ Why string }

func (s Skip) Error() string { return "no constructor: " + s.Why }

func skip(f string, a ...any) error { return Skip{fmt.Sprintf(f, a...)} }

func (b *B) names() *expr.ExtensionRegistry {
	if b.Names != nil {
		return b.Names
	}
	return &b.Reg
}

func (b *B) use(s string) { b.Used[s]++ }

// Literal rebuilds a literal.
func (b *B) Literal(l *pb.Expression_Literal) (expr.Literal, error) {
	if n, ok := l.LiteralType.(*pb.Expression_Literal_Null); ok {
		t := types.TypeFromProto(n.Null)
		if t.GetNullability() != types.NullabilityNullable {
			return nil, skip("null literal of a type that is not nullable")
		}
		b.use("NewNullLiteral")
		return expr.NewNullLiteral(t), nil
	}
	if l.TypeVariationReference != 0 {
		return b.varied(l)
	}
	nl := l.Nullable
	b.use("NewLiteral")
	switch v := l.LiteralType.(type) {
	case *pb.Expression_Literal_Boolean:
		return expr.NewLiteral(v.Boolean, nl)
	case *pb.Expression_Literal_I8:
		return expr.NewLiteral(int8(v.I8), nl)
	case *pb.Expression_Literal_I16:
		return expr.NewLiteral(int16(v.I16), nl)
	case *pb.Expression_Literal_I32:
		return expr.NewLiteral(v.I32, nl)
	case *pb.Expression_Literal_I64:
		return expr.NewLiteral(v.I64, nl)
	case *pb.Expression_Literal_Fp32:
		return expr.NewLiteral(v.Fp32, nl)
	case *pb.Expression_Literal_Fp64:
		return expr.NewLiteral(v.Fp64, nl)
	case *pb.Expression_Literal_String_:
		return expr.NewLiteral(v.String_, nl)
	case *pb.Expression_Literal_Binary:
		return expr.NewLiteral(v.Binary, nl)
	case *pb.Expression_Literal_Timestamp:
		return expr.NewLiteral(types.Timestamp(v.Timestamp), nl)
	case *pb.Expression_Literal_TimestampTz:
		return expr.NewLiteral(types.TimestampTz(v.TimestampTz), nl)
	case *pb.Expression_Literal_Date:
		return expr.NewLiteral(types.Date(v.Date), nl)
	case *pb.Expression_Literal_Time:
		return expr.NewLiteral(types.Time(v.Time), nl)
	case *pb.Expression_Literal_Uuid:
		return expr.NewLiteral(types.UUID(v.Uuid), nl)
	case *pb.Expression_Literal_FixedChar:
		return expr.NewLiteral(types.FixedChar(v.FixedChar), nl)
	case *pb.Expression_Literal_FixedBinary:
		return expr.NewLiteral(types.FixedBinary(v.FixedBinary), nl)
	case *pb.Expression_Literal_VarChar_:
		return expr.NewLiteral(&types.VarChar{Value: v.VarChar.Value, Length: v.VarChar.Length}, nl)
	case *pb.Expression_Literal_Decimal_:
		return expr.NewLiteral(&types.Decimal{Value: append([]byte{}, v.Decimal.Value...), Precision: v.Decimal.Precision, Scale: v.Decimal.Scale}, nl)
	case *pb.Expression_Literal_IntervalYearToMonth_:
		return expr.NewLiteral(&types.IntervalYearToMonth{Years: v.IntervalYearToMonth.Years, Months: v.IntervalYearToMonth.Months}, nl)
	case *pb.Expression_Literal_IntervalDayToSecond_:
		d := v.IntervalDayToSecond
		c := &types.IntervalDayToSecond{Days: d.Days, Seconds: d.Seconds, Subseconds: d.Subseconds}
		switch m := d.PrecisionMode.(type) {
		case *pb.Expression_Literal_IntervalDayToSecond_Precision:
			c.PrecisionMode = &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: m.Precision}
		case *pb.Expression_Literal_IntervalDayToSecond_Microseconds:
			c.PrecisionMode = &pb.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: m.Microseconds}
		}
		return expr.NewLiteral(c, nl)
	case *pb.Expression_Literal_IntervalCompound_:
		return b.compound(l), nil
	case *pb.Expression_Literal_PrecisionTime_:
		return expr.NewPrecisionTimeLiteral(v.PrecisionTime.Value, types.TimePrecision(v.PrecisionTime.Precision), null(nl)), nil
	case *pb.Expression_Literal_PrecisionTimestamp_:
		return expr.NewPrecisionTimestampLiteral(v.PrecisionTimestamp.Value, types.TimePrecision(v.PrecisionTimestamp.Precision), null(nl)), nil
	case *pb.Expression_Literal_PrecisionTimestampTz:
		return expr.NewPrecisionTimestampTzLiteral(v.PrecisionTimestampTz.Value, types.TimePrecision(v.PrecisionTimestampTz.Precision), null(nl)), nil
	case *pb.Expression_Literal_UserDefined_:
		u := &types.UserDefinedLiteral{TypeAnchorType: &pb.Expression_Literal_UserDefined_TypeReference{TypeReference: v.UserDefined.GetTypeReference()},
			TypeParameters: v.UserDefined.TypeParameters, Val: v.UserDefined.Val}
		return expr.NewLiteral(u, nl)
	case *pb.Expression_Literal_Struct_:
		s, err := b.fields(v.Struct.Fields)
		if err != nil {
			return nil, err
		}
		return expr.NewNestedLiteral(expr.StructLiteralValue(s), nl), nil
	case *pb.Expression_Literal_List_:
		s, err := b.fields(v.List.Values)
		if err != nil {
			return nil, err
		}
		return expr.NewNestedLiteral(expr.ListLiteralValue(s), nl), nil
	case *pb.Expression_Literal_EmptyList:
		if v.EmptyList.TypeVariationReference != 0 || v.EmptyList.Nullability == pb.Type_NULLABILITY_UNSPECIFIED {
			return nil, skip("empty list of odd type")
		}
		return expr.NewEmptyListLiteral(types.TypeFromProto(v.EmptyList.Type), nl), nil
	case *pb.Expression_Literal_Map_:
		var m expr.MapLiteralValue
		for _, kv := range v.Map.KeyValues {
			k, err := b.Literal(kv.Key)
			if err != nil {
				return nil, err
			}
			x, err := b.Literal(kv.Value)
			if err != nil {
				return nil, err
			}
			m = append(m, struct {
				Key   expr.Literal
				Value expr.Literal
			}{k, x})
		}
		return expr.NewNestedLiteral(m, nl), nil
	case *pb.Expression_Literal_EmptyMap:
		if v.EmptyMap.TypeVariationReference != 0 || v.EmptyMap.Nullability == pb.Type_NULLABILITY_UNSPECIFIED {
			return nil, skip("empty map of odd type")
		}
		return expr.NewEmptyMapLiteral(types.TypeFromProto(v.EmptyMap.Key), types.TypeFromProto(v.EmptyMap.Value), nl), nil
	}
	return nil, skip("literal %T", l.LiteralType)
}

func (b *B) fields(l []*pb.Expression_Literal) ([]expr.Literal, error) {
	out := make([]expr.Literal, len(l))
	for i, f := range l {
		x, err := b.Literal(f)
		if err != nil {
			return nil, err
		}
		out[i] = x
	}
	return out, nil
}

func null(b bool) types.Nullability {
	if b {
		return types.NullabilityNullable
	}
	return types.NullabilityRequired
}

func (b *B) compound(l *pb.Expression_Literal) expr.Literal {
	b.use("IntervalCompoundLiteral")
	c := l.GetIntervalCompound()
	y, d := c.GetIntervalYearToMonth(), c.GetIntervalDayToSecond()
	prec, sub := d.GetPrecision(), d.GetSubseconds()
	if m, ok := d.GetPrecisionMode().(*pb.Expression_Literal_IntervalDayToSecond_Microseconds); ok {
		prec, sub = 6, int64(m.Microseconds)
	}
	return expr.IntervalCompoundLiteral{Years: y.GetYears(), Months: y.GetMonths(), Days: d.GetDays(), Seconds: d.GetSeconds(), SubSeconds: sub,
		SubSecondPrecision: types.TimePrecision(prec), Nullability: null(l.Nullable), TypeVariationRef: l.TypeVariationReference}
}

// varied rebuilds literals whose type has a variation, which takes the exported
// struct forms.
func (b *B) varied(l *pb.Expression_Literal) (expr.Literal, error) {
	b.use("literal structs with variation")
	n, v := null(l.Nullable), l.TypeVariationReference
	switch x := l.LiteralType.(type) {
	case *pb.Expression_Literal_Boolean:
		return &expr.PrimitiveLiteral[bool]{Value: x.Boolean, Type: &types.BooleanType{Nullability: n, TypeVariationRef: v}}, nil
	case *pb.Expression_Literal_I8:
		return &expr.PrimitiveLiteral[int8]{Value: int8(x.I8), Type: &types.Int8Type{Nullability: n, TypeVariationRef: v}}, nil
	case *pb.Expression_Literal_I16:
		return &expr.PrimitiveLiteral[int16]{Value: int16(x.I16), Type: &types.Int16Type{Nullability: n, TypeVariationRef: v}}, nil
	case *pb.Expression_Literal_I32:
		return &expr.PrimitiveLiteral[int32]{Value: x.I32, Type: &types.Int32Type{Nullability: n, TypeVariationRef: v}}, nil
	case *pb.Expression_Literal_I64:
		return &expr.PrimitiveLiteral[int64]{Value: x.I64, Type: &types.Int64Type{Nullability: n, TypeVariationRef: v}}, nil
	case *pb.Expression_Literal_String_:
		return &expr.PrimitiveLiteral[string]{Value: x.String_, Type: &types.StringType{Nullability: n, TypeVariationRef: v}}, nil
	case *pb.Expression_Literal_Date:
		return &expr.PrimitiveLiteral[types.Date]{Value: types.Date(x.Date), Type: &types.DateType{Nullability: n, TypeVariationRef: v}}, nil
	case *pb.Expression_Literal_Time:
		return &expr.PrimitiveLiteral[types.Time]{Value: types.Time(x.Time), Type: &types.TimeType{Nullability: n, TypeVariationRef: v}}, nil
	case *pb.Expression_Literal_Timestamp:
		return &expr.PrimitiveLiteral[types.Timestamp]{Value: types.Timestamp(x.Timestamp), Type: &types.TimestampType{Nullability: n, TypeVariationRef: v}}, nil
	case *pb.Expression_Literal_TimestampTz:
		return &expr.PrimitiveLiteral[types.TimestampTz]{Value: types.TimestampTz(x.TimestampTz), Type: &types.TimestampTzType{Nullability: n, TypeVariationRef: v}}, nil
	case *pb.Expression_Literal_Binary:
		return &expr.ByteSliceLiteral[[]byte]{Value: x.Binary, Type: &types.BinaryType{Nullability: n, TypeVariationRef: v}}, nil
	case *pb.Expression_Literal_Uuid:
		return &expr.ByteSliceLiteral[types.UUID]{Value: x.Uuid, Type: &types.UUIDType{Nullability: n, TypeVariationRef: v}}, nil
	case *pb.Expression_Literal_VarChar_:
		return &expr.ProtoLiteral{Value: x.VarChar.Value, Type: &types.VarCharType{Nullability: n, TypeVariationRef: v, Length: int32(x.VarChar.Length)}}, nil
	case *pb.Expression_Literal_Decimal_:
		return &expr.ProtoLiteral{Value: x.Decimal.Value, Type: &types.DecimalType{Nullability: n, TypeVariationRef: v, Precision: x.Decimal.Precision, Scale: x.Decimal.Scale}}, nil
	case *pb.Expression_Literal_IntervalCompound_:
		return b.compound(l), nil
	case *pb.Expression_Literal_IntervalYearToMonth_:
		return expr.IntervalYearToMonthLiteral{Years: x.IntervalYearToMonth.Years, Months: x.IntervalYearToMonth.Months, Nullability: n, TypeVariationRef: v}, nil
	case *pb.Expression_Literal_PrecisionTimestamp_:
		return &expr.ProtoLiteral{Value: x.PrecisionTimestamp.Value, Type: &types.PrecisionTimestampType{Nullability: n, TypeVariationRef: v, Precision: types.TimePrecision(x.PrecisionTimestamp.Precision)}}, nil
	}
	return nil, skip("varied literal %T", l.LiteralType)
}

func segment(s *pb.Expression_ReferenceSegment, b *B) (expr.ReferenceSegment, error) {
	if s == nil {
		return nil, nil
	}
	switch r := s.ReferenceType.(type) {
	case *pb.Expression_ReferenceSegment_StructField_:
		c, err := segment(r.StructField.Child, b)
		x := expr.NewStructFieldRef(r.StructField.Field)
		if c != nil {
			x.Child = c
		}
		return x, err
	case *pb.Expression_ReferenceSegment_ListElement_:
		c, err := segment(r.ListElement.Child, b)
		x := expr.NewListElemRef(r.ListElement.Offset)
		if c != nil {
			x.Child = c
		}
		return x, err
	case *pb.Expression_ReferenceSegment_MapKey_:
		k, err := b.Literal(r.MapKey.MapKey)
		if err != nil {
			return nil, err
		}
		c, err := segment(r.MapKey.Child, b)
		x := expr.NewMapKeyRef(k)
		if c != nil {
			x.Child = c
		}
		return x, err
	}
	return nil, skip("segment")
}

// Expr rebuilds an expression.
func (b *B) Expr(e *pb.Expression) (expr.Expression, error) {
	switch x := e.RexType.(type) {
	case *pb.Expression_Literal_:
		l, err := b.Literal(x.Literal)
		if err != nil {
			return nil, err
		}
		return l, nil
	case *pb.Expression_Selection:
		f := x.Selection
		seg, err := segment(f.GetDirectReference(), b)
		if err != nil {
			return nil, err
		}
		switch r := f.RootType.(type) {
		case *pb.Expression_FieldReference_RootReference_:
			b.use("NewRootFieldRef")
			return wrap(expr.NewRootFieldRef(seg, b.Schema))
		case *pb.Expression_FieldReference_Expression:
			root, err := b.Expr(r.Expression)
			if err != nil {
				return nil, err
			}
			b.use("NewFieldRef")
			rr, ok := root.(expr.RootRefType)
			if !ok {
				return nil, skip("root %T", root)
			}
			return wrap(expr.NewFieldRef(rr, seg, b.Schema))
		}
		return nil, skip("root type %T", f.RootType)
	case *pb.Expression_ScalarFunction_:
		f := x.ScalarFunction
		args, err := b.Args(f.Arguments)
		if err != nil {
			return nil, err
		}
		v, ok := b.names().LookupScalarFunction(f.FunctionReference)
		if !ok {
			id, ok := b.names().DecodeFunc(f.FunctionReference)
			if !ok {
				return nil, skip("undeclared function")
			}
			v = extensions.NewScalarFuncVariant(id)
			b.use("NewScalarFuncVariant")
		}
		b.use("NewCustomScalarFunc")
		return wrap(expr.NewCustomScalarFunc(b.Reg, v, types.TypeFromProto(f.OutputType), f.Options, args...))
	case *pb.Expression_WindowFunction_:
		f := x.WindowFunction
		args, err := b.Args(f.Arguments)
		if err != nil {
			return nil, err
		}
		v, ok := b.names().LookupWindowFunction(f.FunctionReference)
		if !ok {
			id, ok := b.names().DecodeFunc(f.FunctionReference)
			if !ok {
				return nil, skip("undeclared function")
			}
			v = extensions.NewWindowFuncVariant(id)
			b.use("NewWindowFuncVariant")
		}
		b.use("NewCustomWindowFunc")
		w, err := expr.NewCustomWindowFunc(b.Reg, v, types.TypeFromProto(f.OutputType), f.Options, f.Invocation, f.Phase, args...)
		if err != nil {
			return nil, err
		}
		if w.Sorts, err = b.Sorts(f.Sorts); err != nil {
			return nil, err
		}
		for _, p := range f.Partitions {
			q, err := b.Expr(p)
			if err != nil {
				return nil, err
			}
			w.Partitions = append(w.Partitions, q)
		}
		w.BoundsType = f.BoundsType
		w.LowerBound, w.UpperBound = Bound(f.LowerBound), Bound(f.UpperBound)
		return w, nil
	case *pb.Expression_Cast_:
		in, err := b.Expr(x.Cast.Input)
		if err != nil {
			return nil, err
		}
		b.use("Cast")
		return &expr.Cast{Type: types.TypeFromProto(x.Cast.Type), Input: in, FailureBehavior: x.Cast.FailureBehavior}, nil
	case *pb.Expression_IfThen_:
		var ps []expr.IfThenPair
		for _, c := range x.IfThen.Ifs {
			i, err := b.Expr(c.If)
			if err != nil {
				return nil, err
			}
			t, err := b.Expr(c.Then)
			if err != nil {
				return nil, err
			}
			ps = append(ps, expr.IfThenPair{If: i, Then: t})
		}
		el, err := b.Expr(x.IfThen.Else)
		if err != nil {
			return nil, err
		}
		b.use("NewIfThen")
		return wrap(expr.NewIfThen(ps[0], el, ps[1:]...))
	case *pb.Expression_SwitchExpression_:
		m, err := b.Expr(x.SwitchExpression.Match)
		if err != nil {
			return nil, err
		}
		el, err := b.Expr(x.SwitchExpression.Else)
		if err != nil {
			return nil, err
		}
		type cs = struct {
			If   expr.Literal
			Then expr.Expression
		}
		var l []cs
		for _, c := range x.SwitchExpression.Ifs {
			i, err := b.Literal(c.If)
			if err != nil {
				return nil, err
			}
			t, err := b.Expr(c.Then)
			if err != nil {
				return nil, err
			}
			l = append(l, cs{i, t})
		}
		b.use("NewSwitch")
		return wrap(expr.NewSwitch(m, el, l...))
	case *pb.Expression_SingularOrList_:
		v, err := b.Expr(x.SingularOrList.Value)
		if err != nil {
			return nil, err
		}
		o, err := b.exprs(x.SingularOrList.Options)
		if err != nil {
			return nil, err
		}
		b.use("SingularOrList")
		return &expr.SingularOrList{Value: v, Options: o}, nil
	case *pb.Expression_MultiOrList_:
		v, err := b.exprs(x.MultiOrList.Value)
		if err != nil {
			return nil, err
		}
		m := &expr.MultiOrList{Value: v}
		for _, r := range x.MultiOrList.Options {
			o, err := b.exprs(r.Fields)
			if err != nil {
				return nil, err
			}
			m.Options = append(m.Options, o)
		}
		b.use("MultiOrList")
		return m, nil
	case *pb.Expression_Nested_:
		n := x.Nested
		switch k := n.NestedType.(type) {
		case *pb.Expression_Nested_Struct_:
			f, err := b.exprs(k.Struct.Fields)
			b.use("StructExpr")
			return &expr.StructExpr{Nullable: n.Nullable, TypeVariationRef: n.TypeVariationReference, Fields: f}, err
		case *pb.Expression_Nested_List_:
			f, err := b.exprs(k.List.Values)
			if err != nil {
				return nil, err
			}
			b.use("NewListExpr")
			l := expr.NewListExpr(n.Nullable, f...)
			l.TypeVariationRef = n.TypeVariationReference
			return l, nil
		case *pb.Expression_Nested_Map_:
			m := &expr.MapExpr{Nullable: n.Nullable, TypeVariationRef: n.TypeVariationReference}
			for _, kv := range k.Map.KeyValues {
				kk, err := b.Expr(kv.Key)
				if err != nil {
					return nil, err
				}
				v, err := b.Expr(kv.Value)
				if err != nil {
					return nil, err
				}
				m.KeyValues = append(m.KeyValues, struct{ Key, Value expr.Expression }{kk, v})
			}
			b.use("MapExpr")
			return m, nil
		}
		return nil, skip("nested")
	case *pb.Expression_Subquery_:
		if b.Subquery == nil {
			return nil, skip("subquery")
		}
		return b.Subquery(b, x.Subquery)
	case *pb.Expression_DynamicParameter:
		b.use("DynamicParameter")
		return &expr.DynamicParameter{OutputType: types.TypeFromProto(x.DynamicParameter.Type), ParameterReference: x.DynamicParameter.ParameterReference}, nil
	}
	return nil, skip("%T", e.RexType)
}

func wrap[T expr.Expression](e T, err error) (expr.Expression, error) {
	if err != nil {
		return nil, err
	}
	return e, nil
}

func (b *B) exprs(l []*pb.Expression) ([]expr.Expression, error) {
	out := make([]expr.Expression, len(l))
	for i, e := range l {
		x, err := b.Expr(e)
		if err != nil {
			return nil, err
		}
		out[i] = x
	}
	return out, nil
}

// Args rebuilds function arguments.
func (b *B) Args(l []*pb.FunctionArgument) ([]types.FuncArg, error) {
	out := make([]types.FuncArg, 0, 2*len(l)+4)
	for _, a := range l {
		switch x := a.ArgType.(type) {
		case *pb.FunctionArgument_Enum:
			out = append(out, types.Enum(x.Enum))
		case *pb.FunctionArgument_Type:
			out = append(out, types.TypeFromProto(x.Type))
		case *pb.FunctionArgument_Value:
			e, err := b.Expr(x.Value)
			if err != nil {
				return nil, err
			}
			out = append(out, e)
		default:
			return nil, skip("argument")
		}
	}
	return out, nil
}

// Sorts rebuilds sort fields.
func (b *B) Sorts(l []*pb.SortField) ([]expr.SortField, error) {
	out := make([]expr.SortField, 0, 2*len(l)+4)
	for _, s := range l {
		e, err := b.Expr(s.Expr)
		if err != nil {
			return nil, err
		}
		f := expr.SortField{Expr: e}
		switch k := s.SortKind.(type) {
		case *pb.SortField_Direction:
			f.Kind = types.SortDirection(k.Direction)
		case *pb.SortField_ComparisonFunctionReference:
			ref := k.ComparisonFunctionReference
			if b.Names != nil {
				id, ok := b.Names.DecodeFunc(ref)
				if !ok {
					return nil, skip("undeclared function")
				}
				ref = b.Reg.GetFuncAnchor(id)
			}
			f.Kind = types.FunctionRef(ref)
		default:
			return nil, skip("sort kind")
		}
		out = append(out, f)
	}
	return out, nil
}

// Bound rebuilds a window bound.
func Bound(b *pb.Expression_WindowFunction_Bound) expr.Bound {
	switch k := b.GetKind().(type) {
	case *pb.Expression_WindowFunction_Bound_Preceding_:
		return expr.PrecedingBound(k.Preceding.Offset)
	case *pb.Expression_WindowFunction_Bound_Following_:
		return expr.FollowingBound(k.Following.Offset)
	case *pb.Expression_WindowFunction_Bound_CurrentRow_:
		return expr.CurrentRow{}
	case *pb.Expression_WindowFunction_Bound_Unbounded_:
		return expr.Unbounded{}
	}
	return nil
}

// Agg rebuilds an aggregate function.
func (b *B) Agg(f *pb.AggregateFunction) (*expr.AggregateFunction, error) {
	args, err := b.Args(f.Arguments)
	if err != nil {
		return nil, err
	}
	sorts, err := b.Sorts(f.Sorts)
	if err != nil {
		return nil, err
	}
	v, ok := b.names().LookupAggregateFunction(f.FunctionReference)
	if !ok {
		id, ok := b.names().DecodeFunc(f.FunctionReference)
		if !ok {
			return nil, skip("undeclared function")
		}
		v = extensions.NewAggFuncVariant(id)
	}
	b.use("NewCustomAggregateFunc")
	return expr.NewCustomAggregateFunc(b.Reg, v, types.TypeFromProto(f.OutputType), f.Options, f.Invocation, f.Phase, sorts, args...)
}
