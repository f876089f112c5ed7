package scen

import (
	"fmt"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/obs"
)

// access compares what the accessors of a decoded object answer with the
// message it was decoded from.
type access struct {
	funcs map[uint32]extensions.FunctionID
	what  string // the first accessor that differs
	diff  string
	n     int
}

func newAccess(us []*extpb.SimpleExtensionURN, ds []*extpb.SimpleExtensionDeclaration) *access {
	a := &access{funcs: map[uint32]extensions.FunctionID{}}
	urn := map[uint32]string{}
	for _, u := range us {
		urn[u.ExtensionUrnAnchor] = u.Urn
	}
	for _, d := range ds {
		if f := d.GetExtensionFunction(); f != nil {
			a.funcs[f.FunctionAnchor] = extensions.FunctionID{URN: urn[f.ExtensionUrnReference], Name: f.Name}
		}
	}
	return a
}

func (a *access) ok() bool { return a.what == "" }

func (a *access) msg(what string, want, got proto.Message) {
	a.n++
	if !a.ok() {
		return
	}
	if want == nil || !want.ProtoReflect().IsValid() {
		if got != nil && got.ProtoReflect().IsValid() {
			a.what, a.diff = what, "nothing was sent, the accessor answers "+obs.Text(got)
		}
		return
	}
	if got == nil || !got.ProtoReflect().IsValid() {
		a.what, a.diff = what, "the accessor answers nothing, sent was "+obs.Text(want)
		return
	}
	if _, d := obs.Diff(want, got); d != "" {
		a.what, a.diff = what, "sent / accessor: "+d
	}
}

func (a *access) val(what string, want, got any) {
	a.n++
	if s, g := fmt.Sprint(want), fmt.Sprint(got); a.ok() && s != g {
		a.what, a.diff = what, fmt.Sprintf("sent %s, the accessor answers %s", clip(s, 300), clip(g, 300))
	}
}

// opt compares an optional condition; an absent one may be answered by none or
// by one that is always true.
func (a *access) opt(what string, want *pb.Expression, got expr.Expression) {
	if want == nil {
		if got != nil && got.String() != expr.NewPrimitiveLiteral(true, false).String() {
			a.val(what, "nothing", got)
		}
		return
	}
	a.expr(what, want, got)
}

func (a *access) list(what string, want []*pb.Expression, got []expr.Expression) {
	a.val(what+".len", len(want), len(got))
	for i := range want {
		if !a.ok() {
			return
		}
		a.expr(what, want[i], got[i])
	}
}

func (a *access) expr(what string, m *pb.Expression, x expr.Expression) {
	if !a.ok() {
		return
	}
	if x == nil {
		a.what, a.diff = what, "the accessor answers nothing, sent was "+obs.Text(m)
		return
	}
	a.msg(what, m, x.ToProto())
	if !a.ok() {
		return
	}
	switch m := m.RexType.(type) {
	case *pb.Expression_ScalarFunction_:
		f, _ := x.(*expr.ScalarFunction)
		if f == nil {
			a.val(what, "a ScalarFunction", fmt.Sprintf("%T", x))
			return
		}
		k := m.ScalarFunction
		a.function("ScalarFunction", k.FunctionReference, f.ID(), f.Name(), f.CompoundName())
		a.val("ScalarFunction.FuncRef", k.FunctionReference, f.FuncRef())
		a.args("ScalarFunction", k.Arguments, f.NArgs(), f.Arg, f.GetArgTypes)
		a.options("ScalarFunction", k.Options, f.GetOptions(), f.GetOption)
		a.msg("ScalarFunction.GetType", k.OutputType, types.TypeToProto(f.GetType()))
	case *pb.Expression_WindowFunction_:
		f, _ := x.(*expr.WindowFunction)
		if f == nil {
			a.val(what, "a WindowFunction", fmt.Sprintf("%T", x))
			return
		}
		k := m.WindowFunction
		a.function("WindowFunction", k.FunctionReference, f.ID(), f.Name(), f.CompoundName())
		a.args("WindowFunction", k.Arguments, f.NArgs(), f.Arg, f.GetArgTypes)
		a.options("WindowFunction", k.Options, f.GetOptions(), nil)
		a.val("WindowFunction.Phase", k.Phase, f.Phase())
		a.val("WindowFunction.Invocation", k.Invocation, f.Invocation())
		a.val("WindowFunction.BoundsType", k.BoundsType, f.BoundsType)
		a.list("WindowFunction.Partitions", k.Partitions, f.Partitions)
		a.sorts("WindowFunction.Sorts", k.Sorts, f.Sorts)
		if f.LowerBound == nil || f.UpperBound == nil {
			a.val("WindowFunction bounds", k.LowerBound != nil || k.UpperBound != nil, f.LowerBound != nil || f.UpperBound != nil)
		} else {
			a.msg("WindowFunction.LowerBound", k.LowerBound, f.LowerBound.ToProto())
			a.msg("WindowFunction.UpperBound", k.UpperBound, f.UpperBound.ToProto())
		}
		a.msg("WindowFunction.GetType", k.OutputType, types.TypeToProto(f.GetType()))
	case *pb.Expression_IfThen_:
		f, _ := x.(*expr.IfThen)
		if f == nil {
			a.val(what, "an IfThen", fmt.Sprintf("%T", x))
			return
		}
		a.val("IfThen.NIfs", len(m.IfThen.Ifs), f.NIfs())
		for i, c := range m.IfThen.Ifs {
			if a.ok() {
				a.expr("IfThen.IfPair.If", c.If, f.IfPair(i).If)
				a.expr("IfThen.IfPair.Then", c.Then, f.IfPair(i).Then)
			}
		}
		a.expr("IfThen.Else", m.IfThen.Else, f.Else())
	case *pb.Expression_SwitchExpression_:
		f, _ := x.(*expr.SwitchExpr)
		if f == nil {
			a.val(what, "a SwitchExpr", fmt.Sprintf("%T", x))
			return
		}
		k := m.SwitchExpression
		a.expr("SwitchExpr.MatchExpr", k.Match, f.MatchExpr())
		a.val("SwitchExpr.NCases", len(k.Ifs), f.NCases())
		for i, c := range k.Ifs {
			if a.ok() {
				a.msg("SwitchExpr.Case.If", c.If, f.Case(i).If.ToProtoLiteral())
				a.expr("SwitchExpr.Case.Then", c.Then, f.Case(i).Then)
			}
		}
		a.expr("SwitchExpr.Else", k.Else, f.Else())
	case *pb.Expression_SingularOrList_:
		if f, ok := x.(*expr.SingularOrList); ok {
			a.expr("SingularOrList.Value", m.SingularOrList.Value, f.Value)
			a.list("SingularOrList.Options", m.SingularOrList.Options, f.Options)
		}
	case *pb.Expression_Cast_:
		if f, ok := x.(*expr.Cast); ok {
			a.expr("Cast.Input", m.Cast.Input, f.Input)
			a.val("Cast.FailureBehavior", m.Cast.FailureBehavior, f.FailureBehavior)
			a.msg("Cast.GetType", m.Cast.Type, types.TypeToProto(f.GetType()))
		}
	case *pb.Expression_Lambda_:
		if f, ok := x.(*expr.Lambda); ok {
			a.expr("Lambda.Body", m.Lambda.Body, f.Body)
		}
	case *pb.Expression_Nested_:
		if f, ok := x.(interface {
			IsNullable() bool
			TypeVariation() uint32
		}); ok {
			a.val("Nested.IsNullable", m.Nested.Nullable, f.IsNullable())
			a.val("Nested.TypeVariation", m.Nested.TypeVariationReference, f.TypeVariation())
		}
	case *pb.Expression_Subquery_:
		switch k := m.Subquery.SubqueryType.(type) {
		case *pb.Expression_Subquery_Scalar_:
			if f, ok := x.(*plan.ScalarSubquery); ok {
				a.val("ScalarSubquery.GetSubqueryType", "scalar", f.GetSubqueryType())
				a.rel(k.Scalar.Input, f.Input)
			}
		case *pb.Expression_Subquery_InPredicate_:
			if f, ok := x.(*plan.InPredicateSubquery); ok {
				a.val("InPredicateSubquery.GetSubqueryType", "in_predicate", f.GetSubqueryType())
				a.list("InPredicateSubquery.Needles", k.InPredicate.Needles, f.Needles)
				a.rel(k.InPredicate.Haystack, f.Haystack)
			}
		case *pb.Expression_Subquery_SetPredicate_:
			if f, ok := x.(*plan.SetPredicateSubquery); ok {
				a.val("SetPredicateSubquery.GetSubqueryType", "set_predicate", f.GetSubqueryType())
				a.val("SetPredicateSubquery.Operation", k.SetPredicate.PredicateOp, f.Operation)
				a.rel(k.SetPredicate.Tuples, f.Tuples)
			}
		case *pb.Expression_Subquery_SetComparison_:
			if f, ok := x.(*plan.SetComparisonSubquery); ok {
				a.val("SetComparisonSubquery.GetSubqueryType", "set_comparison", f.GetSubqueryType())
				a.val("SetComparisonSubquery.ReductionOp", k.SetComparison.ReductionOp, f.ReductionOp)
				a.val("SetComparisonSubquery.ComparisonOp", k.SetComparison.ComparisonOp, f.ComparisonOp)
				a.expr("SetComparisonSubquery.Left", k.SetComparison.Left, f.Left)
				a.rel(k.SetComparison.Right, f.Right)
			}
		}
	}
}

func (a *access) function(what string, ref uint32, id extensions.FunctionID, name, compound string) {
	want := a.funcs[ref]
	a.val(what+".ID", want, id)
	a.val(what+".CompoundName", want.Name, compound)
	short := want.Name
	for i, c := range short {
		if c == ':' {
			short = short[:i]
			break
		}
	}
	a.val(what+".Name", short, name)
}

func (a *access) args(what string, want []*pb.FunctionArgument, n int, arg func(int) types.FuncArg, argTypes func() []types.Type) {
	a.val(what+".NArgs", len(want), n)
	if !a.ok() {
		return
	}
	ts := argTypes()
	a.val(what+".GetArgTypes.len", len(want), len(ts))
	for i, m := range want {
		if !a.ok() {
			return
		}
		x := arg(i)
		a.msg(what+".Arg", m, x.ToProtoFuncArg())
		if !a.ok() {
			return
		}
		switch k := m.ArgType.(type) {
		case *pb.FunctionArgument_Value:
			y, _ := x.(expr.Expression)
			a.expr(what+".Arg", k.Value, y)
			if t := y.GetType(); a.ok() && t != nil && ts[i] != nil {
				a.msg(what+".GetArgTypes", types.TypeToProto(t), types.TypeToProto(ts[i]))
			}
		case *pb.FunctionArgument_Type:
			a.msg(what+".GetArgTypes", k.Type, types.TypeToProto(ts[i]))
		}
	}
}

func (a *access) options(what string, want []*pb.FunctionOption, got []*types.FunctionOption, by func(string) []string) {
	a.val(what+".GetOptions.len", len(want), len(got))
	seen := map[string]bool{}
	for i, o := range want {
		if !a.ok() {
			return
		}
		a.msg(what+".GetOptions", o, got[i])
		if by != nil && !seen[o.Name] {
			a.val(what+".GetOption", o.Preference, by(o.Name))
		}
		seen[o.Name] = true
	}
	if by != nil && !seen["no such option"] {
		a.val(what+".GetOption", 0, len(by("no such option")))
	}
}

func (a *access) sorts(what string, want []*pb.SortField, got []expr.SortField) {
	a.val(what+".len", len(want), len(got))
	for i, s := range want {
		if !a.ok() {
			return
		}
		a.msg(what, s, got[i].ToProto())
		if a.ok() {
			a.expr(what+".Expr", s.Expr, got[i].Expr)
		}
	}
}

func (a *access) aggregate(m *pb.AggregateFunction, f *expr.AggregateFunction) {
	if f == nil {
		a.val("AggregateFunction", "a function", "nil")
		return
	}
	a.function("AggregateFunction", m.FunctionReference, f.ID(), f.Name(), f.CompoundName())
	a.args("AggregateFunction", m.Arguments, f.NArgs(), f.Arg, f.GetArgTypes)
	a.options("AggregateFunction", m.Options, f.GetOptions(), f.GetOption)
	a.val("AggregateFunction.Phase", m.Phase, f.Phase())
	a.val("AggregateFunction.Invocation", m.Invocation, f.Invocation())
	a.sorts("AggregateFunction.Sorts", m.Sorts, f.Sorts)
	if a.ok() {
		a.msg("AggregateFunction.GetType", m.OutputType, types.TypeToProto(f.GetType()))
	}
}

func (a *access) schema(what string, want *pb.NamedStruct, got types.NamedStruct) {
	a.val(what+".Names", want.GetNames(), got.Names)
	a.msg(what, want, got.ToProto())
}

func (a *access) keys(what string, want []*pb.ComparisonJoinKey, got []*plan.ComparisonJoinKey, left, right []*expr.FieldReference) {
	a.val(what+".Keys.len", len(want), len(got))
	a.val(what+".LeftKeys.len", len(want), len(left))
	a.val(what+".RightKeys.len", len(want), len(right))
	for i, k := range want {
		if !a.ok() {
			return
		}
		for _, l := range []*expr.FieldReference{got[i].Left(), left[i]} {
			a.msg(what+".LeftKeys", k.Left, l.ToProtoFieldRef())
		}
		for _, r := range []*expr.FieldReference{got[i].Right(), right[i]} {
			a.msg(what+".RightKeys", k.Right, r.ToProtoFieldRef())
		}
		switch c := got[i].Comparison().(type) {
		case plan.SimpleComparison:
			a.val(what+".Comparison", k.Comparison.GetSimple(), c.Type)
		case plan.CustomComparison:
			a.val(what+".Comparison", k.Comparison.GetCustomFunctionReference(), c.FunctionReference)
		default:
			a.val(what+".Comparison", "a comparison", fmt.Sprintf("%T", c))
		}
	}
}

func (a *access) rel(m *pb.Rel, r plan.Rel) {
	if !a.ok() {
		return
	}
	if r == nil {
		a.val("input", "a relation", "nil")
		return
	}
	kind := kindOf(r)
	in := func(ms ...*pb.Rel) {
		l := r.GetInputs()
		a.val(kind+".GetInputs.len", len(ms), len(l))
		for i := range ms {
			if a.ok() {
				a.rel(ms[i], l[i])
			}
		}
	}
	single := func(x plan.Rel) {
		if l := r.GetInputs(); len(l) == 0 || l[0] != x {
			a.val(kind+".Input", "the first input", "another")
		}
	}
	var c *pb.RelCommon
	var adv *extpb.AdvancedExtension
	switch k := m.RelType.(type) {
	case *pb.Rel_Read:
		f, ok := r.(plan.ReadRel)
		if !ok {
			a.val("Read", "a ReadRel", kind)
			return
		}
		c, adv = k.Read.Common, k.Read.AdvancedExtension
		in()
		a.schema("BaseSchema", k.Read.BaseSchema, f.BaseSchema())
		a.opt("Filter", k.Read.Filter, f.Filter())
		a.opt("BestEffortFilter", k.Read.BestEffortFilter, f.BestEffortFilter())
		if p := f.Projection(); p != nil || k.Read.Projection != nil {
			if p == nil {
				a.val("Projection", "a projection", "nil")
			} else {
				a.msg("Projection", k.Read.Projection, p.ToProto())
			}
		}
		switch t := k.Read.ReadType.(type) {
		case *pb.ReadRel_NamedTable_:
			if f, ok := r.(*plan.NamedTableReadRel); ok {
				a.val("NamedTableReadRel.Names", t.NamedTable.Names, f.Names())
				a.msg("NamedTableAdvancedExtension", t.NamedTable.AdvancedExtension, f.NamedTableAdvancedExtension())
			}
		case *pb.ReadRel_VirtualTable_:
			if f, ok := r.(*plan.VirtualTableReadRel); ok {
				a.val("VirtualTableReadRel.Values.len", max(len(t.VirtualTable.Expressions), len(t.VirtualTable.Values)), len(f.Values()))
				for i, row := range t.VirtualTable.Expressions {
					if a.ok() {
						a.list("VirtualTableReadRel.Values", row.Fields, f.Values()[i])
					}
				}
			}
		case *pb.ReadRel_ExtensionTable_:
			if f, ok := r.(*plan.ExtensionTableReadRel); ok {
				a.msg("ExtensionTableReadRel.Detail", t.ExtensionTable.Detail, f.Detail())
			}
		case *pb.ReadRel_LocalFiles_:
			if f, ok := r.(*plan.LocalFileReadRel); ok {
				adv = nil // shadowed by the advanced extension of the files
				a.msg("LocalFileReadRel.GetAdvancedExtension", t.LocalFiles.AdvancedExtension, f.GetAdvancedExtension())
			}
		}
		if _, ok := r.(*plan.LocalFileReadRel); ok {
			a.common(kind, c, r)
			return
		}
	case *pb.Rel_Filter:
		c, adv = k.Filter.Common, k.Filter.AdvancedExtension
		in(k.Filter.Input)
		if f, ok := r.(*plan.FilterRel); ok {
			single(f.Input())
			a.expr("FilterRel.Condition", k.Filter.Condition, f.Condition())
		}
	case *pb.Rel_Fetch:
		c, adv = k.Fetch.Common, k.Fetch.AdvancedExtension
		in(k.Fetch.Input)
		if f, ok := r.(*plan.FetchRel); ok {
			single(f.Input())
			a.val("FetchRel.Offset", k.Fetch.GetOffset(), f.Offset())
			a.val("FetchRel.Count", k.Fetch.GetCount(), f.Count())
		}
	case *pb.Rel_Project:
		c, adv = k.Project.Common, k.Project.AdvancedExtension
		in(k.Project.Input)
		if f, ok := r.(*plan.ProjectRel); ok {
			single(f.Input())
			a.list("ProjectRel.Expressions", k.Project.Expressions, f.Expressions())
		}
	case *pb.Rel_Sort:
		c, adv = k.Sort.Common, k.Sort.AdvancedExtension
		in(k.Sort.Input)
		if f, ok := r.(*plan.SortRel); ok {
			single(f.Input())
			a.sorts("SortRel.Sorts", k.Sort.Sorts, f.Sorts())
		}
	case *pb.Rel_Cross:
		c, adv = k.Cross.Common, k.Cross.AdvancedExtension
		in(k.Cross.Left, k.Cross.Right)
		if f, ok := r.(*plan.CrossRel); ok && a.ok() {
			a.val("CrossRel.Left", true, f.Left() == r.GetInputs()[0])
			a.val("CrossRel.Right", true, f.Right() == r.GetInputs()[1])
		}
	case *pb.Rel_Join:
		c, adv = k.Join.Common, k.Join.AdvancedExtension
		in(k.Join.Left, k.Join.Right)
		if f, ok := r.(*plan.JoinRel); ok && a.ok() {
			a.val("JoinRel.Left", true, f.Left() == r.GetInputs()[0])
			a.val("JoinRel.Right", true, f.Right() == r.GetInputs()[1])
			a.opt("JoinRel.Expr", k.Join.Expression, f.Expr())
			a.opt("JoinRel.PostJoinFilter", k.Join.PostJoinFilter, f.PostJoinFilter())
			a.val("JoinRel.Type", k.Join.Type, f.Type())
		}
	case *pb.Rel_HashJoin:
		c, adv = k.HashJoin.Common, k.HashJoin.AdvancedExtension
		in(k.HashJoin.Left, k.HashJoin.Right)
		if f, ok := r.(*plan.HashJoinRel); ok && a.ok() {
			a.val("HashJoinRel.Left", true, f.Left() == r.GetInputs()[0])
			a.val("HashJoinRel.Right", true, f.Right() == r.GetInputs()[1])
			if len(k.HashJoin.Keys) > 0 {
				a.keys("HashJoinRel", k.HashJoin.Keys, f.Keys(), f.LeftKeys(), f.RightKeys())
			}
			a.opt("HashJoinRel.PostJoinFilter", k.HashJoin.PostJoinFilter, f.PostJoinFilter())
			a.val("HashJoinRel.Type", int32(k.HashJoin.Type), int32(f.Type()))
		}
	case *pb.Rel_MergeJoin:
		c, adv = k.MergeJoin.Common, k.MergeJoin.AdvancedExtension
		in(k.MergeJoin.Left, k.MergeJoin.Right)
		if f, ok := r.(*plan.MergeJoinRel); ok && a.ok() {
			a.val("MergeJoinRel.Left", true, f.Left() == r.GetInputs()[0])
			a.val("MergeJoinRel.Right", true, f.Right() == r.GetInputs()[1])
			if len(k.MergeJoin.Keys) > 0 {
				a.keys("MergeJoinRel", k.MergeJoin.Keys, f.Keys(), f.LeftKeys(), f.RightKeys())
			}
			a.opt("MergeJoinRel.PostJoinFilter", k.MergeJoin.PostJoinFilter, f.PostJoinFilter())
			a.val("MergeJoinRel.Type", int32(k.MergeJoin.Type), int32(f.Type()))
		}
	case *pb.Rel_Set:
		c, adv = k.Set.Common, k.Set.AdvancedExtension
		in(k.Set.Inputs...)
		if f, ok := r.(*plan.SetRel); ok {
			a.val("SetRel.Op", k.Set.Op, f.Op())
			a.val("SetRel.Inputs", fmt.Sprintf("%p", r.GetInputs()), fmt.Sprintf("%p", f.Inputs()))
		}
	case *pb.Rel_Aggregate:
		c, adv = k.Aggregate.Common, k.Aggregate.AdvancedExtension
		in(k.Aggregate.Input)
		f, ok := r.(*plan.AggregateRel)
		if !ok {
			a.val("Aggregate", "an AggregateRel", kind)
			return
		}
		single(f.Input())
		if len(k.Aggregate.GroupingExpressions) > 0 {
			a.list("AggregateRel.GroupingExpressions", k.Aggregate.GroupingExpressions, f.GroupingExpressions())
			a.val("AggregateRel.GroupingReferences.len", len(k.Aggregate.Groupings), len(f.GroupingReferences()))
			for i, g := range k.Aggregate.Groupings {
				if a.ok() {
					a.val("AggregateRel.GroupingReferences", g.ExpressionReferences, f.GroupingReferences()[i])
				}
			}
		}
		ms := f.Measures()
		a.val("AggregateRel.Measures.len", len(k.Aggregate.Measures), len(ms))
		for i, m := range k.Aggregate.Measures {
			if a.ok() {
				a.aggregate(m.Measure, ms[i].Measure())
				a.opt("AggRelMeasure.Filter", m.Filter, ms[i].Filter())
			}
		}
	case *pb.Rel_Write:
		c = k.Write.Common
		in(k.Write.Input)
		if f, ok := r.(*plan.NamedTableWriteRel); ok {
			a.val("NamedTableWriteRel.Names", k.Write.GetNamedTable().GetNames(), f.Names())
			a.msg("NamedTableAdvancedExtension", k.Write.GetNamedTable().GetAdvancedExtension(), f.NamedTableAdvancedExtension())
			a.schema("TableSchema", k.Write.TableSchema, f.TableSchema())
			a.val("NamedTableWriteRel.Op", k.Write.Op, f.Op())
			single(f.Input())
		}
		a.common(kind, c, r)
		return
	case *pb.Rel_ExtensionLeaf:
		in()
		if f, ok := r.(*plan.ExtensionLeafRel); ok {
			a.msg("ExtensionLeafRel.Detail", k.ExtensionLeaf.Detail, f.Detail())
		}
		a.common(kind, k.ExtensionLeaf.Common, r)
		return
	case *pb.Rel_ExtensionSingle:
		in(k.ExtensionSingle.Input)
		if f, ok := r.(*plan.ExtensionSingleRel); ok {
			single(f.Input())
			a.msg("ExtensionSingleRel.Detail", k.ExtensionSingle.Detail, f.Detail())
		}
		a.common(kind, k.ExtensionSingle.Common, r)
		return
	case *pb.Rel_ExtensionMulti:
		in(k.ExtensionMulti.Inputs...)
		if f, ok := r.(*plan.ExtensionMultiRel); ok {
			a.val("ExtensionMultiRel.Inputs.len", len(k.ExtensionMulti.Inputs), len(f.Inputs()))
			a.msg("ExtensionMultiRel.Detail", k.ExtensionMulti.Detail, f.Detail())
		}
		a.common(kind, k.ExtensionMulti.Common, r)
		return
	default:
		return
	}
	if x, ok := r.(interface {
		GetAdvancedExtension() *extensions.AdvancedExtension
	}); ok {
		a.msg(kind+".GetAdvancedExtension", adv, x.GetAdvancedExtension())
	}
	a.common(kind, c, r)
}

func (a *access) common(kind string, c *pb.RelCommon, r plan.Rel) {
	a.msg(kind+".Hint", c.GetHint(), r.Hint())
	switch k := c.GetEmitKind().(type) {
	case *pb.RelCommon_Emit_:
		a.val(kind+".OutputMapping", k.Emit.OutputMapping, r.OutputMapping())
	case *pb.RelCommon_Direct_:
		a.val(kind+".OutputMapping", 0, len(r.OutputMapping()))
	}
}

// plan compares a decoded plan with its message.
func (a *access) plan(m *pb.Plan, p *plan.Plan) {
	v := p.Version()
	a.val("Version", fmt.Sprint(m.Version.GetMajorNumber(), m.Version.GetMinorNumber(), m.Version.GetPatchNumber(), m.Version.GetGitHash(), m.Version.GetProducer()),
		fmt.Sprint(v.GetMajorNumber(), v.GetMinorNumber(), v.GetPatchNumber(), v.GetGitHash(), v.GetProducer()))
	a.val("ExpectedTypeURLs", m.ExpectedTypeUrls, p.ExpectedTypeURLs())
	rels := p.Relations()
	a.val("Relations.len", len(m.Relations), len(rels))
	if !a.ok() {
		return
	}
	roots, others := p.GetRoots(), p.GetNonRootRelations()
	for i, pr := range m.Relations {
		if !a.ok() {
			return
		}
		r := rels[i]
		switch k := pr.RelType.(type) {
		case *pb.PlanRel_Root:
			a.val("IsRoot", true, r.IsRoot())
			if len(roots) == 0 || roots[0] != r.Root() {
				a.val("GetRoots", "the root relation", roots)
				return
			}
			roots = roots[1:]
			a.val("Root.Names", k.Root.Names, r.Root().Names())
			a.rel(k.Root.Input, r.Root().Input())
		case *pb.PlanRel_Rel:
			a.val("IsRoot", false, r.IsRoot())
			if len(others) == 0 || others[0] != r.Rel() {
				a.val("GetNonRootRelations", "the relation", others)
				return
			}
			others = others[1:]
			a.rel(k.Rel, r.Rel())
		}
	}
	a.val("GetRoots.len", 0, len(roots))
	a.val("GetNonRootRelations.len", 0, len(others))
	bs := p.ParameterBindings()
	a.val("ParameterBindings.len", len(m.ParameterBindings), len(bs))
	for i, b := range m.ParameterBindings {
		if a.ok() {
			a.val("ParameterBindings.ParameterAnchor", b.ParameterAnchor, bs[i].ParameterAnchor)
			a.msg("ParameterBindings.Value", b.Value, bs[i].Value.ToProtoLiteral())
		}
	}
}
