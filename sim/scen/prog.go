package scen

import (
	"errors"
	"fmt"
	"sort"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/api"
	"verifsim/eng"
	"verifsim/fix"
	"verifsim/gen"
)

// A prog is the construction of a plan: the plan that is meant (with reference
// numbers of its own) and its relations in an order in which they can be built.
type prog struct {
	m     *pb.Plan
	nodes []progNode
	roots []int
}

type progNode struct {
	rel  *pb.Rel // without its inputs
	kids []int
	v    int // which of the equivalent builder calls to use
	uses int
}

// relInputs lists the inputs of a relation.
func relInputs(r *pb.Rel) []*pb.Rel {
	switch x := r.RelType.(type) {
	case *pb.Rel_Filter:
		return []*pb.Rel{x.Filter.Input}
	case *pb.Rel_Fetch:
		return []*pb.Rel{x.Fetch.Input}
	case *pb.Rel_Aggregate:
		return []*pb.Rel{x.Aggregate.Input}
	case *pb.Rel_Sort:
		return []*pb.Rel{x.Sort.Input}
	case *pb.Rel_Join:
		return []*pb.Rel{x.Join.Left, x.Join.Right}
	case *pb.Rel_Project:
		return []*pb.Rel{x.Project.Input}
	case *pb.Rel_Set:
		return x.Set.Inputs
	case *pb.Rel_Cross:
		return []*pb.Rel{x.Cross.Left, x.Cross.Right}
	case *pb.Rel_ExtensionSingle:
		return []*pb.Rel{x.ExtensionSingle.Input}
	case *pb.Rel_ExtensionMulti:
		return x.ExtensionMulti.Inputs
	case *pb.Rel_Write:
		return []*pb.Rel{x.Write.Input}
	}
	return nil
}

// bare copies a relation without its inputs.
func bare(r *pb.Rel) *pb.Rel {
	c := clone(r).(*pb.Rel)
	switch x := c.RelType.(type) {
	case *pb.Rel_Filter:
		x.Filter.Input = nil
	case *pb.Rel_Fetch:
		x.Fetch.Input = nil
	case *pb.Rel_Aggregate:
		x.Aggregate.Input = nil
	case *pb.Rel_Sort:
		x.Sort.Input = nil
	case *pb.Rel_Join:
		x.Join.Left, x.Join.Right = nil, nil
	case *pb.Rel_Project:
		x.Project.Input = nil
	case *pb.Rel_Set:
		x.Set.Inputs = nil
	case *pb.Rel_Cross:
		x.Cross.Left, x.Cross.Right = nil, nil
	case *pb.Rel_ExtensionSingle:
		x.ExtensionSingle.Input = nil
	case *pb.Rel_ExtensionMulti:
		x.ExtensionMulti.Inputs = nil
	case *pb.Rel_Write:
		x.Write.Input = nil
	}
	return c
}

// newProg lays out the construction of a plan made by gen's APIPlan.
func newProg(e *eng.Ep, stream string, m *pb.Plan) *prog {
	pr := &prog{m: m}
	var add func(r *pb.Rel) int
	add = func(r *pb.Rel) int {
		n := progNode{rel: bare(r), v: e.Int(stream, 1<<12)}
		for _, i := range relInputs(r) {
			n.kids = append(n.kids, add(i))
		}
		pr.nodes = append(pr.nodes, n)
		return len(pr.nodes) - 1
	}
	for _, r := range m.Relations {
		x := r.GetRel()
		if x == nil {
			x = r.GetRoot().Input
		}
		pr.roots = append(pr.roots, add(x))
	}
	return pr
}

// session builds the relations of a prog in one process.
type session struct {
	pr    *prog
	b     plan.Builder
	reg   expr.ExtensionRegistry
	names *expr.ExtensionRegistry
	rels  map[int]plan.Rel
	used  map[string]int
	// foreign sessions register what expressions need in the set of a decoded
	// checkpoint instead of the builder's
	foreign bool
}

func (pr *prog) decls() decls {
	p := clone(&pb.Plan{ExtensionUrns: pr.m.ExtensionUrns, Extensions: pr.m.Extensions}).(*pb.Plan)
	return decls{p.ExtensionUrns, p.Extensions}
}

// session starts a construction on a collection.
func (pr *prog) session(c *extensions.Collection) *session {
	b := plan.NewBuilder(c)
	return pr.sessionWith(c, b, b.GetExprBuilder().Reg, false)
}

func (pr *prog) sessionWith(c *extensions.Collection, b plan.Builder, reg expr.ExtensionRegistry, foreign bool) *session {
	set, err := extensions.GetExtensionSet(pr.decls(), c)
	if err != nil {
		panic(err)
	}
	names := expr.NewExtensionRegistry(set, c)
	if !foreign {
		for u, d := range fix.Decoders() {
			if err := reg.SetExtensionRelDecoder(u, d); err != nil {
				panic(err)
			}
		}
	}
	reg.SetSubqueryConverter(&plan.ExpressionConverter{ExtensionRegistry: reg})
	return &session{pr: pr, b: b, reg: reg, names: &names, rels: map[int]plan.Rel{}, used: map[string]int{}, foreign: foreign}
}

// localize gives the types of m (and its functions, if asked) the numbers of
// the session.
func (s *session) localize(m proto.Message, funcs, tys bool) {
	gen.Renumber(m, func(class string, ref uint32) uint32 {
		switch class {
		case "func":
			if !funcs {
				return ref
			}
			id, ok := s.names.DecodeFunc(ref)
			if !ok {
				panic(fmt.Sprintf("function %d of the program is not declared", ref))
			}
			return s.reg.GetFuncAnchor(id)
		case "type":
			if !tys {
				return ref
			}
			id, ok := s.names.DecodeType(ref)
			if !ok {
				panic(fmt.Sprintf("type %d of the program is not declared", ref))
			}
			return s.reg.GetTypeAnchor(id)
		}
		if !tys {
			return ref
		}
		id, ok := s.names.DecodeTypeVariation(ref)
		if !ok {
			panic(fmt.Sprintf("type variation %d of the program is not declared", ref))
		}
		return s.reg.GetTypeVariationAnchor(id)
	})
}

// step builds node i from the relations built so far.
func (s *session) step(i int) error {
	n := s.pr.nodes[i]
	m := clone(n.rel).(*pb.Rel)
	s.localize(m, false, true)
	var ins []plan.Rel
	for _, k := range n.kids {
		ins = append(ins, s.rels[k])
	}
	r, err := s.build(m, ins, n.v)
	if err != nil {
		return err
	}
	s.rels[i] = r
	return nil
}

// tree builds a whole relation tree whose types are localized already.
func (s *session) tree(m *pb.Rel, v int) (plan.Rel, error) {
	var ins []plan.Rel
	for _, i := range relInputs(m) {
		r, err := s.tree(i, v)
		if err != nil {
			return nil, err
		}
		ins = append(ins, r)
	}
	return s.build(m, ins, v)
}

func (s *session) builder(schema *types.RecordType, v int) *api.B {
	return &api.B{Reg: s.reg, Names: s.names, Schema: schema, Used: s.used,
		Subquery: func(b *api.B, m *pb.Expression_Subquery) (expr.Expression, error) { return s.subquery(b, m, v) }}
}

func isSkip(err error) bool {
	var k api.Skip
	return errors.As(err, &k)
}

func (s *session) expr(m *pb.Expression, schema *types.RecordType, v int) (expr.Expression, error) {
	if v&1 == 0 {
		x, err := s.builder(schema, v).Expr(m)
		if err == nil || !isSkip(err) {
			return x, err
		}
	}
	c := clone(m).(*pb.Expression)
	s.localize(c, true, false)
	return expr.ExprFromProto(c, schema, s.reg)
}

func (s *session) exprs(l []*pb.Expression, schema *types.RecordType, v int) ([]expr.Expression, error) {
	out := make([]expr.Expression, 0, 2*len(l)+4)
	for _, m := range l {
		x, err := s.expr(m, schema, v)
		if err != nil {
			return nil, err
		}
		out = append(out, x)
		v = v>>1 | v&1<<11
	}
	return out, nil
}

func (s *session) sorts(l []*pb.SortField, schema *types.RecordType, v int) ([]expr.SortField, error) {
	if v&1 == 0 {
		x, err := s.builder(schema, v).Sorts(l)
		if err == nil || !isSkip(err) {
			return x, err
		}
	}
	out := make([]expr.SortField, 0, 2*len(l)+4)
	for _, m := range l {
		c := clone(m).(*pb.SortField)
		s.localize(c, true, false)
		x, err := expr.SortFieldFromProto(c, schema, s.reg)
		if err != nil {
			return nil, err
		}
		out = append(out, x)
	}
	return out, nil
}

func (s *session) agg(m *pb.AggregateFunction, schema *types.RecordType, v int) (*expr.AggregateFunction, error) {
	if v&1 == 0 {
		x, err := s.builder(schema, v).Agg(m)
		if err == nil || !isSkip(err) {
			return x, err
		}
	}
	c := clone(m).(*pb.AggregateFunction)
	s.localize(c, true, false)
	return expr.NewAggregateFunctionFromProto(c, schema, s.reg)
}

func (s *session) subquery(b *api.B, m *pb.Expression_Subquery, v int) (expr.Expression, error) {
	switch x := m.SubqueryType.(type) {
	case *pb.Expression_Subquery_Scalar_:
		r, err := s.tree(x.Scalar.Input, v)
		if err != nil {
			return nil, err
		}
		return some(s.b.ScalarSubquery(r))
	case *pb.Expression_Subquery_InPredicate_:
		r, err := s.tree(x.InPredicate.Haystack, v)
		if err != nil {
			return nil, err
		}
		var needles []expr.Expression
		for _, n := range x.InPredicate.Needles {
			y, err := b.Expr(n)
			if err != nil {
				return nil, err
			}
			needles = append(needles, y)
		}
		return some(s.b.InPredicateSubquery(needles, r))
	case *pb.Expression_Subquery_SetPredicate_:
		r, err := s.tree(x.SetPredicate.Tuples, v)
		if err != nil {
			return nil, err
		}
		return some(s.b.SetPredicateSubquery(r, x.SetPredicate.PredicateOp))
	case *pb.Expression_Subquery_SetComparison_:
		r, err := s.tree(x.SetComparison.Right, v)
		if err != nil {
			return nil, err
		}
		l, err := b.Expr(x.SetComparison.Left)
		if err != nil {
			return nil, err
		}
		return some(s.b.SetComparisonSubquery(l, r, x.SetComparison.ReductionOp, x.SetComparison.ComparisonOp))
	}
	return nil, fmt.Errorf("unknown subquery %T", m.SubqueryType)
}

func some[T expr.Expression](x T, err error) (expr.Expression, error) {
	if err != nil {
		return nil, err
	}
	return x, nil
}

func someRel[T plan.Rel](x T, err error) (plan.Rel, error) {
	if err != nil {
		return nil, err
	}
	return x, nil
}

// remap gives a relation its output mapping, in one or two steps.
func remap(r plan.Rel, c *pb.RelCommon, v int) (plan.Rel, error) {
	m := c.GetEmit().GetOutputMapping()
	if c.GetEmit() == nil {
		return r, nil
	}
	if v&16 != 0 {
		// first reverse the columns
		n := r.RecordType()
		k := n.FieldCount()
		var rev, then []int32
		for i := k - 1; i >= 0; i-- {
			rev = append(rev, i)
		}
		for _, i := range m {
			then = append(then, k-1-i)
		}
		x, err := r.Remap(room(rev)...)
		if err != nil {
			return nil, err
		}
		return x.Remap(room(then)...)
	}
	return r.Remap(room(m)...)
}

// build makes one relation from its inputs with the plan builder.
func (s *session) build(m *pb.Rel, ins []plan.Rel, v int) (plan.Rel, error) {
	b := s.b
	var out plan.Rel
	var err error
	var c *pb.RelCommon
	var ext *extpb.AdvancedExtension
	in := func() *types.RecordType {
		if len(ins) == 0 {
			return nil
		}
		t := ins[0].RecordType()
		for _, i := range ins[1:] {
			t = t.Concat(i.RecordType())
		}
		return &t
	}
	emitted := false
	mapping := func() []int32 {
		emitted = true
		return c.GetEmit().GetOutputMapping()
	}
	direct := v&2 != 0 // pass the mapping to the builder
	sv := v >> 5
	switch x := m.RelType.(type) {
	case *pb.Rel_Read:
		r := x.Read
		c, ext = r.Common, r.AdvancedExtension
		base := types.NewNamedStructFromProto(r.BaseSchema)
		switch t := r.ReadType.(type) {
		case *pb.ReadRel_NamedTable_:
			if direct {
				out, err = someRel(b.NamedScanRemap(t.NamedTable.Names, base, mapping()))
			} else {
				out = b.NamedScan(t.NamedTable.Names, base)
			}
		case *pb.ReadRel_VirtualTable_:
			if len(t.VirtualTable.Expressions) == 0 {
				out, err = someRel(b.EmptyVirtualTable(base.Names, base.Struct.Types))
				break
			}
			var rows []expr.VirtualTableExpressionValue
			var lits []expr.StructLiteralValue
			for _, e := range t.VirtualTable.Expressions {
				row, err := s.exprs(e.Fields, &types.RecordType{}, sv)
				if err != nil {
					return nil, err
				}
				rows = append(rows, row)
				var l expr.StructLiteralValue
				for _, x := range row {
					l = append(l, x.(expr.Literal))
				}
				lits = append(lits, l)
			}
			switch {
			case direct && v&4 != 0:
				out, err = someRel(b.VirtualTableRemap(base.Names, mapping(), lits...))
			case direct:
				out, err = someRel(b.VirtualTableFromExprRemap(base.Names, mapping(), rows...))
			case v&4 != 0:
				out, err = someRel(b.VirtualTable(base.Names, lits...))
			default:
				out, err = someRel(b.VirtualTableFromExpr(base.Names, rows...))
			}
		case *pb.ReadRel_ExtensionTable_:
			out = b.ExtensionTable(t.ExtensionTable.Detail, base)
		case *pb.ReadRel_IcebergTable_:
			d := t.IcebergTable.GetDirect()
			var snap plan.IcebergSnapshot
			switch k := d.Snapshot.(type) {
			case *pb.ReadRel_IcebergTable_MetadataFileRead_SnapshotId:
				snap = plan.SnapshotId(k.SnapshotId)
			case *pb.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp:
				snap = plan.SnapshotTimestamp(k.SnapshotTimestamp)
			}
			out, err = someRel(b.IcebergTableFromMetadataFile(d.MetadataUri, snap, base))
		default:
			return nil, fmt.Errorf("program cannot build %T", t)
		}
		if err == nil && r.Projection != nil {
			out.(interface{ SetProjection(*expr.MaskExpression) }).SetProjection(expr.MaskExpressionFromProto(r.Projection))
		}
	case *pb.Rel_Filter:
		r := x.Filter
		c, ext = r.Common, r.AdvancedExtension
		cond, err1 := s.expr(r.Condition, in(), sv)
		if err1 != nil {
			return nil, err1
		}
		if direct {
			out, err = someRel(b.FilterRemap(ins[0], cond, mapping()))
		} else {
			out, err = someRel(b.Filter(ins[0], cond))
		}
	case *pb.Rel_Fetch:
		r := x.Fetch
		c, ext = r.Common, r.AdvancedExtension
		if direct {
			out, err = someRel(b.FetchRemap(ins[0], r.GetOffset(), r.GetCount(), mapping()))
		} else {
			out, err = someRel(b.Fetch(ins[0], r.GetOffset(), r.GetCount()))
		}
	case *pb.Rel_Project:
		r := x.Project
		c, ext = r.Common, r.AdvancedExtension
		l, err1 := s.exprs(r.Expressions, in(), sv)
		if err1 != nil {
			return nil, err1
		}
		if direct {
			out, err = someRel(b.ProjectRemap(ins[0], mapping(), l...))
		} else {
			out, err = someRel(b.Project(ins[0], l...))
		}
	case *pb.Rel_Sort:
		r := x.Sort
		c, ext = r.Common, r.AdvancedExtension
		l, err1 := s.sorts(r.Sorts, in(), sv)
		if err1 != nil {
			return nil, err1
		}
		if direct {
			out, err = someRel(b.SortRemap(ins[0], mapping(), l...))
		} else {
			out, err = someRel(b.Sort(ins[0], l...))
		}
	case *pb.Rel_Join:
		r := x.Join
		c, ext = r.Common, r.AdvancedExtension
		cond, err1 := s.expr(r.Expression, in(), sv)
		if err1 != nil {
			return nil, err1
		}
		var post expr.Expression
		if r.PostJoinFilter != nil {
			if post, err1 = s.expr(r.PostJoinFilter, in(), sv>>1); err1 != nil {
				return nil, err1
			}
		}
		switch {
		case post == nil && direct && v&4 != 0:
			out, err = someRel(b.JoinRemap(ins[0], ins[1], cond, r.Type, mapping()))
		case direct:
			out, err = someRel(b.JoinAndFilterRemap(ins[0], ins[1], cond, post, r.Type, mapping()))
		case post == nil && v&4 != 0:
			out, err = someRel(b.Join(ins[0], ins[1], cond, r.Type))
		default:
			out, err = someRel(b.JoinAndFilter(ins[0], ins[1], cond, post, r.Type))
		}
	case *pb.Rel_Cross:
		r := x.Cross
		c, ext = r.Common, r.AdvancedExtension
		if direct {
			out, err = someRel(b.CrossRemap(ins[0], ins[1], mapping()))
		} else {
			out, err = someRel(b.Cross(ins[0], ins[1]))
		}
	case *pb.Rel_Aggregate:
		r := x.Aggregate
		c, ext = r.Common, r.AdvancedExtension
		var ms []plan.AggRelMeasure
		for i, m := range r.Measures {
			a, err := s.agg(m.Measure, in(), sv>>i)
			if err != nil {
				return nil, err
			}
			var f expr.Expression
			if m.Filter != nil {
				if f, err = s.expr(m.Filter, in(), sv>>i); err != nil {
					return nil, err
				}
			}
			ms = append(ms, b.Measure(a, f))
		}
		l, err1 := s.exprs(r.GroupingExpressions, in(), sv)
		if err1 != nil {
			return nil, err1
		}
		if v&8 != 0 {
			if cols, ok := groupColumns(r); ok && v&4 != 0 {
				out, err = someRel(b.AggregateColumns(ins[0], ms, cols...))
				break
			}
			if appearsInOrder(r) {
				groups := make([][]expr.Expression, len(r.Groupings))
				for i, g := range r.Groupings {
					for _, k := range g.ExpressionReferences {
						groups[i] = append(groups[i], l[k])
					}
				}
				out, err = someRel(b.AggregateExprs(ins[0], ms, groups...))
				break
			}
		}
		arb := b.GetRelBuilder().AggregateRel(ins[0], ms)
		if v&4 != 0 {
			// the builder is reused for another input, then cleared
			arb.AddExpression(expr.NewPrimitiveLiteral(true, false))
			arb.AddGroupingSet([]uint32{0})
			arb.ClearGrouping()
		}
		for _, x := range l {
			arb.AddExpression(x)
		}
		for _, g := range r.Groupings {
			arb.AddGroupingSet(append([]uint32{}, g.ExpressionReferences...))
		}
		out, err = someRel(arb.Build())
	case *pb.Rel_Set:
		r := x.Set
		c, ext = r.Common, r.AdvancedExtension
		if direct {
			out, err = someRel(b.SetRemap(r.Op, mapping(), ins...))
		} else {
			out, err = someRel(b.Set(r.Op, ins...))
		}
	case *pb.Rel_ExtensionLeaf:
		c = x.ExtensionLeaf.Common
		out, err = someRel(b.ExtensionLeaf(schemaDef(x.ExtensionLeaf.Detail)))
	case *pb.Rel_ExtensionSingle:
		c = x.ExtensionSingle.Common
		out, err = someRel(b.ExtensionSingle(ins[0], schemaDef(x.ExtensionSingle.Detail)))
	case *pb.Rel_ExtensionMulti:
		c = x.ExtensionMulti.Common
		out, err = someRel(b.ExtensionMulti(ins, schemaDef(x.ExtensionMulti.Detail)))
	case *pb.Rel_Write:
		r := x.Write
		c, ext = r.Common, r.AdvancedExtension
		names, schema := r.GetNamedTable().Names, types.NewNamedStructFromProto(r.TableSchema)
		switch {
		case r.Op == pb.WriteRel_WRITE_OP_CTAS:
			out, err = someRel(b.CreateTableAsSelect(ins[0], names, schema))
		case r.Op == pb.WriteRel_WRITE_OP_INSERT && direct:
			out, err = someRel(b.NamedInsert(ins[0], names, schema))
		case r.Op == pb.WriteRel_WRITE_OP_DELETE && direct:
			out, err = someRel(b.NamedDelete(ins[0], names, schema))
		default:
			out, err = someRel(b.NamedWrite(ins[0], r.Op, names, schema))
		}
	default:
		return nil, fmt.Errorf("program cannot build %T", x)
	}
	if err != nil {
		return nil, err
	}
	if !emitted {
		if out, err = remap(out, c, v); err != nil {
			return nil, err
		}
	}
	if ext != nil {
		out.SetAdvancedExtension(ext)
	}
	return out, nil
}

// appearsInOrder: listing the grouping sets in turn mentions the expressions in
// their order, and all of them.
func appearsInOrder(r *pb.AggregateRel) bool {
	next := uint32(0)
	for _, g := range r.Groupings {
		for _, k := range g.ExpressionReferences {
			if k > next {
				return false
			}
			if k == next {
				next++
			}
		}
	}
	return int(next) == len(r.GroupingExpressions)
}

// groupColumns are the columns an aggregation with one grouping set groups by.
func groupColumns(r *pb.AggregateRel) (cols []int32, ok bool) {
	if len(r.Groupings) != 1 || !appearsInOrder(r) || len(r.Groupings[0].ExpressionReferences) != len(r.GroupingExpressions) {
		return nil, false
	}
	for _, x := range r.GroupingExpressions {
		f := x.GetSelection()
		if f.GetRootReference() == nil {
			return nil, false
		}
		s := f.GetDirectReference().GetStructField()
		if s == nil || s.Child != nil {
			return nil, false
		}
		cols = append(cols, s.Field)
	}
	return cols, len(cols) > 0
}

func schemaDef(a *anypb.Any) *fix.SchemaDef {
	d, err := fix.SchemaDecoder{}.DecodeExtensionRel(a)
	if err != nil {
		panic(err)
	}
	return d.(*fix.SchemaDef)
}

// finish assembles the plan and returns its encoding.
func (s *session) finish() (*pb.Plan, *plan.Plan, error) {
	names := append([]string{}, s.pr.m.Relations[0].GetRoot().Names...)
	var others []plan.Rel
	for _, i := range s.pr.roots[1:] {
		others = append(others, s.rels[i])
	}
	return s.plan(s.rels[s.pr.roots[0]], names, s.pr.m.ExpectedTypeUrls, others...)
}

func (s *session) plan(root plan.Rel, names, urls []string, others ...plan.Rel) (*pb.Plan, *plan.Plan, error) {
	if !s.foreign {
		p, err := s.b.PlanWithTypes(root, names, urls, others...)
		if err != nil {
			return nil, nil, err
		}
		m, err := p.ToProto()
		return m, p, err
	}
	v := plan.CurrentVersion
	m := &pb.Plan{Version: &v, ExpectedTypeUrls: urls}
	m.Relations = append(m.Relations, &pb.PlanRel{RelType: &pb.PlanRel_Root{Root: &pb.RelRoot{Input: root.ToProto(), Names: names}}})
	for _, o := range others {
		m.Relations = append(m.Relations, o.ToProtoPlanRel())
	}
	m.ExtensionUrns, m.Extensions = s.reg.ExtensionsToProto()
	return m, nil, nil
}

// all builds every node in order.
func (s *session) all() error {
	for i := range s.pr.nodes {
		if err := s.step(i); err != nil {
			return fmt.Errorf("node %d: %w", i, err)
		}
	}
	return nil
}

// canonPlan rewrites the references of a plan to numbers that depend only on
// what they denote, drops unused declarations and the version, and reports
// references without or with two declarations.
func canonPlan(src *pb.Plan) (*pb.Plan, string) {
	m := clone(src).(*pb.Plan)
	urns := map[uint32]string{}
	bad := ""
	for _, u := range m.ExtensionUrns {
		if o, ok := urns[u.ExtensionUrnAnchor]; ok && o != u.Urn {
			bad = fmt.Sprintf("URN anchor %d declared twice", u.ExtensionUrnAnchor)
		}
		urns[u.ExtensionUrnAnchor] = u.Urn
	}
	type key struct {
		class string
		ref   uint32
	}
	ids := map[key]string{}
	for _, d := range m.Extensions {
		var k key
		var name string
		var u uint32
		switch x := d.MappingType.(type) {
		case *extpb.SimpleExtensionDeclaration_ExtensionFunction_:
			k, name, u = key{"func", x.ExtensionFunction.FunctionAnchor}, x.ExtensionFunction.Name, x.ExtensionFunction.ExtensionUrnReference
		case *extpb.SimpleExtensionDeclaration_ExtensionType_:
			k, name, u = key{"type", x.ExtensionType.TypeAnchor}, x.ExtensionType.Name, x.ExtensionType.ExtensionUrnReference
		case *extpb.SimpleExtensionDeclaration_ExtensionTypeVariation_:
			k, name, u = key{"variation", x.ExtensionTypeVariation.TypeVariationAnchor}, x.ExtensionTypeVariation.Name, x.ExtensionTypeVariation.ExtensionUrnReference
		}
		urn, ok := urns[u]
		if !ok {
			bad = fmt.Sprintf("declaration of %s refers to the unknown URN anchor %d", name, u)
		}
		id := urn + " " + name
		if o, ok := ids[k]; ok && o != id {
			bad = fmt.Sprintf("%s anchor %d declared twice: %s and %s", k.class, k.ref, o, id)
		}
		ids[k] = id
	}
	used := map[key]bool{}
	gen.Renumber(m, func(class string, ref uint32) uint32 {
		k := key{class, ref}
		if _, ok := ids[k]; !ok && bad == "" {
			bad = fmt.Sprintf("%s reference %d is not declared", class, ref)
		}
		used[k] = true
		return ref
	})
	var l []string
	seen := map[string]bool{}
	for k := range used {
		s := k.class + " " + ids[k]
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	sort.Strings(l)
	num := map[string]uint32{}
	m.ExtensionUrns, m.Extensions, m.Version = nil, nil, nil
	for i, s := range l {
		num[s] = uint32(i + 1)
		m.ExtensionUrns = append(m.ExtensionUrns, &extpb.SimpleExtensionURN{ExtensionUrnAnchor: uint32(i + 1), Urn: s})
	}
	gen.Renumber(m, func(class string, ref uint32) uint32 { return num[class+" "+ids[key{class, ref}]] })
	return m, bad
}

// inputSchemas describes the inputs of a node.
func inputSchemas(s *session, i int) string {
	out := ""
	for _, k := range s.pr.nodes[i].kids {
		t := s.rels[k].RecordType()
		out += fmt.Sprintf("node %d %v: %s; ", k, s.pr.nodes[k].rel, t.String())
	}
	return out
}
