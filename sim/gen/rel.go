package gen

import (
	"math"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
)

// SchemaURL is the type URL of extension relation details that carry their own
// output schema (a serialised Type.Struct after the prefix).
const SchemaURL = "type.sim/schema_rel"

// SchemaDetail packs a schema.
func SchemaDetail(ts []*pb.Type) *anypb.Any {
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(&pb.Type_Struct{Types: ts, Nullability: Req})
	return &anypb.Any{TypeUrl: SchemaURL, Value: b}
}

// Common builds the common part and applies the output mapping to the schema.
func (g *G) Common(direct []*pb.Type) (*pb.RelCommon, []*pb.Type) {
	c := &pb.RelCommon{EmitKind: &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}}
	out := direct
	if len(direct) > 0 && g.p(1, 4) {
		g.feat("emit")
		e := &pb.RelCommon_Emit{}
		out = nil
		same := true
		n := len(direct)
		add := func(k int) {
			same = same && k == len(out)
			e.OutputMapping = append(e.OutputMapping, int32(k))
			out = append(out, direct[k])
		}
		switch shape := g.n(10); shape {
		default:
			for i := 1 + g.cnt(n+1); i > 0; i-- {
				add(g.n(n))
			}
		case 4, 5: // the first columns, or all
			for i, k := 0, 1+g.n(n); i < k; i++ {
				add(i)
			}
		case 6: // the last columns
			for i := g.n(n); i < n; i++ {
				add(i)
			}
		case 7: // in reverse
			for i := n - 1; i >= 0; i-- {
				add(i)
			}
		case 8: // all, then some again
			for i := 0; i < n+1+g.n(2); i++ {
				add(i % n)
			}
		case 9: // the same column again and again
			for i, k := 1+g.n(4), g.n(n); i > 0; i-- {
				add(k)
			}
		}
		if g.API && same && len(out) == len(direct) {
			// remapping to the same columns is no remapping
			return c, out
		}
		c.EmitKind = &pb.RelCommon_Emit_{Emit: e}
	}
	if !g.API && g.p(1, 8) {
		c.Hint = g.hint()
	}
	if !g.API {
		c.AdvancedExtension = g.AdvExt(1, 10)
	}
	return c, out
}

func (g *G) emitTo(c *pb.RelCommon, m ...int32) {
	c.EmitKind = &pb.RelCommon_Emit_{Emit: &pb.RelCommon_Emit{OutputMapping: m}}
}

func (g *G) hint() *pb.RelCommon_Hint {
	g.feat("hint")
	h := &pb.RelCommon_Hint{AdvancedExtension: g.AdvExt(1, 4)}
	if g.p(1, 2) {
		h.Stats = &pb.RelCommon_Hint_Stats{RowCount: float64(g.n(100)) + 0.5, RecordSize: float64(g.n(9)), AdvancedExtension: g.AdvExt(1, 4)}
	}
	if g.p(1, 3) {
		h.Constraint = &pb.RelCommon_Hint_RuntimeConstraint{AdvancedExtension: g.AdvExt(1, 2)}
	}
	if g.p(1, 2) {
		h.Alias = g.word()
	}
	for i := g.cnt(3); i > 0; i-- {
		h.OutputNames = append(h.OutputNames, g.word())
	}
	if g.p(1, 3) {
		h.SavedComputations = append(h.SavedComputations, &pb.RelCommon_Hint_SavedComputation{ComputationId: g.i32(), Type: pb.RelCommon_Hint_ComputationType(g.n(3)), AdvancedExtension: g.AdvExt(1, 4)})
	}
	if g.p(1, 3) {
		h.LoadedComputations = append(h.LoadedComputations, &pb.RelCommon_Hint_LoadedComputation{ComputationIdReference: g.i32(), Type: pb.RelCommon_Hint_ComputationType(g.n(3))})
	}
	return h
}

// Schema generates column types.
func (g *G) Schema(max int) []*pb.Type {
	var out []*pb.Type
	for i := 1 + g.cnt(max); i > 0; i-- {
		out = append(out, g.Type(2))
	}
	return out
}

// NameCount is the depth-first field count of a list of columns.
func NameCount(ts []*pb.Type) int {
	n := 0
	for _, t := range ts {
		n += 1 + innerCount(t)
	}
	return n
}

func innerCount(t *pb.Type) int {
	switch k := t.Kind.(type) {
	case *pb.Type_Struct_:
		return NameCount(k.Struct.Types)
	case *pb.Type_List_:
		return innerCount(k.List.Type)
	case *pb.Type_Map_:
		return innerCount(k.Map.Key) + innerCount(k.Map.Value)
	}
	return 0
}

// Names generates depth-first names.
func (g *G) Names(ts []*pb.Type) []string {
	var out []string
	for i := NameCount(ts); i > 0; i-- {
		if g.p(1, 12) {
			out = append(out, g.word())
		} else {
			out = append(out, g.ident())
		}
	}
	return out
}

// NamedStruct builds a base schema.
func (g *G) NamedStruct(ts []*pb.Type) *pb.NamedStruct {
	n := &pb.NamedStruct{Names: g.Names(ts), Struct: &pb.Type_Struct{Types: ts, Nullability: Req}}
	if !g.API {
		n.Struct.TypeVariationReference = g.variation()
	}
	return n
}

func (g *G) tableNames() []string {
	out := []string{g.ident()}
	for i := g.cnt(3); i > 0; i-- {
		out = append(out, g.word())
	}
	return out
}

// Read builds a read relation with the given base schema.
func (g *G) Read(base []*pb.Type) (*pb.Rel, []*pb.Type) {
	c, out := g.Common(base)
	r := &pb.ReadRel{Common: c, BaseSchema: g.NamedStruct(base), AdvancedExtension: g.AdvExt(1, 12)}
	if !g.API && g.p(1, 4) {
		g.feat("read_filter")
		r.Filter = g.Expr(base, Bool(g.nullab()), 2)
	}
	if !g.API && g.p(1, 8) {
		g.feat("read_best_effort_filter")
		r.BestEffortFilter = g.Expr(base, Bool(g.nullab()), 2)
	}
	if g.p(1, 8) {
		g.feat("read_projection")
		r.Projection = &pb.Expression_MaskExpression{Select: g.maskStruct(base, 2), MaintainSingularStruct: g.p(1, 2)}
	}
	kind := g.n(7)
	if g.API && (kind == 4 || kind == 3 && NameCount(base) != len(base)) {
		kind = 0
	}
	switch kind {
	default:
		g.feat("named_table")
		t := &pb.ReadRel_NamedTable{Names: g.tableNames()}
		if !g.API {
			t.AdvancedExtension = g.AdvExt(1, 8)
		}
		r.ReadType = &pb.ReadRel_NamedTable_{NamedTable: t}
	case 3:
		g.feat("virtual_table")
		v := &pb.ReadRel_VirtualTable{}
		for i := g.cnt(4); i > 0; i-- {
			row := &pb.Expression_Nested_Struct{}
			for _, t := range base {
				x := g.rowValue(t)
				if x == nil {
					break
				}
				row.Fields = append(row.Fields, x)
			}
			if len(row.Fields) < len(base) {
				// no value of exactly this type
				v.Expressions = nil
				break
			}
			v.Expressions = append(v.Expressions, row)
		}
		r.ReadType = &pb.ReadRel_VirtualTable_{VirtualTable: v}
	case 4:
		g.feat("local_files")
		l := &pb.ReadRel_LocalFiles{}
		if g.p(1, 6) {
			l.AdvancedExtension = g.AdvExt(1, 1)
		}
		for i := g.cnt(4); i > 0; i-- {
			l.Items = append(l.Items, g.fileItem())
		}
		r.ReadType = &pb.ReadRel_LocalFiles_{LocalFiles: l}
	case 5:
		g.feat("extension_table")
		r.ReadType = &pb.ReadRel_ExtensionTable_{ExtensionTable: &pb.ReadRel_ExtensionTable{Detail: g.Any()}}
	case 6:
		g.feat("iceberg")
		d := &pb.ReadRel_IcebergTable_MetadataFileRead{MetadataUri: "s3://" + g.word()}
		switch g.n(3) {
		case 0:
			d.Snapshot = &pb.ReadRel_IcebergTable_MetadataFileRead_SnapshotId{SnapshotId: g.ident()}
		case 1:
			d.Snapshot = &pb.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp{SnapshotTimestamp: 1 + int64(g.n(1<<30))<<11}
		}
		r.ReadType = &pb.ReadRel_IcebergTable_{IcebergTable: &pb.ReadRel_IcebergTable{TableType: &pb.ReadRel_IcebergTable_Direct{Direct: d}}}
	}
	return &pb.Rel{RelType: &pb.Rel_Read{Read: r}}, out
}

// rowValue is a virtual table cell: no field references (rows have no schema).
func (g *G) rowValue(t *pb.Type) *pb.Expression {
	if g.API {
		if l, ok := g.Literal(t, 1); ok {
			return lit(l)
		}
		if NullOf(t) == Null {
			return lit(NullLit(t))
		}
		return nil
	}
	if g.p(1, 3) {
		return g.Expr(nil, t, 1)
	}
	if l, ok := g.Literal(t, 1); ok {
		return lit(l)
	}
	return lit(NullLit(t))
}

func (g *G) maskStruct(fields []*pb.Type, depth int) *pb.Expression_MaskExpression_StructSelect {
	s := &pb.Expression_MaskExpression_StructSelect{}
	for i, f := range fields {
		if g.p(1, 3) {
			continue
		}
		it := &pb.Expression_MaskExpression_StructItem{Field: int32(i)}
		if depth > 0 {
			it.Child = g.maskSelect(f, depth-1)
		}
		s.StructItems = append(s.StructItems, it)
	}
	return s
}

// maskSelect selects inside a nested type; nil for the whole value.
func (g *G) maskSelect(t *pb.Type, depth int) *pb.Expression_MaskExpression_Select {
	switch k := t.Kind.(type) {
	case *pb.Type_Struct_:
		g.feat("mask_struct")
		return &pb.Expression_MaskExpression_Select{Type: &pb.Expression_MaskExpression_Select_Struct{Struct: g.maskStruct(k.Struct.Types, depth)}}
	case *pb.Type_List_:
		c := g.maskSelect(k.List.Type, depth)
		if c == nil {
			return nil
		}
		g.feat("mask_list")
		l := &pb.Expression_MaskExpression_ListSelect{Child: c}
		for i := 1 + g.cnt(2); i > 0; i-- {
			if g.p(1, 2) {
				l.Selection = append(l.Selection, &pb.Expression_MaskExpression_ListSelect_ListSelectItem{Type: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_Item{Item: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_ListElement{Field: int32(g.n(5))}}})
			} else {
				l.Selection = append(l.Selection, &pb.Expression_MaskExpression_ListSelect_ListSelectItem{Type: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_Slice{Slice: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_ListSlice{Start: int32(g.n(3)), End: int32(3 + g.n(5))}}})
			}
		}
		return &pb.Expression_MaskExpression_Select{Type: &pb.Expression_MaskExpression_Select_List{List: l}}
	case *pb.Type_Map_:
		c := g.maskSelect(k.Map.Value, depth)
		if c == nil {
			return nil
		}
		g.feat("mask_map")
		m := &pb.Expression_MaskExpression_MapSelect{Child: c}
		if g.p(1, 2) {
			m.Select = &pb.Expression_MaskExpression_MapSelect_Key{Key: &pb.Expression_MaskExpression_MapSelect_MapKey{MapKey: g.word()}}
		} else {
			m.Select = &pb.Expression_MaskExpression_MapSelect_Expression{Expression: &pb.Expression_MaskExpression_MapSelect_MapKeyExpression{MapKeyExpression: g.word()}}
		}
		return &pb.Expression_MaskExpression_Select{Type: &pb.Expression_MaskExpression_Select_Map{Map: m}}
	}
	return nil
}

func (g *G) fileItem() *pb.ReadRel_LocalFiles_FileOrFiles {
	f := &pb.ReadRel_LocalFiles_FileOrFiles{PartitionIndex: uint64(g.n(5)), Start: uint64(g.n(1 << 30)), Length: math.MaxUint64 - uint64(g.n(3))}
	switch g.n(4) {
	case 0:
		f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriPath{UriPath: "p" + g.word()}
	case 1:
		f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriPathGlob{UriPathGlob: "*" + g.word()}
	case 2:
		f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriFile{UriFile: "f" + g.word()}
	case 3:
		f.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriFolder{UriFolder: "d" + g.word()}
	}
	switch g.n(5) {
	case 0:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Parquet{Parquet: &pb.ReadRel_LocalFiles_FileOrFiles_ParquetReadOptions{}}
	case 1:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Arrow{Arrow: &pb.ReadRel_LocalFiles_FileOrFiles_ArrowReadOptions{}}
	case 2:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Orc{Orc: &pb.ReadRel_LocalFiles_FileOrFiles_OrcReadOptions{}}
	case 3:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Dwrf{Dwrf: &pb.ReadRel_LocalFiles_FileOrFiles_DwrfReadOptions{}}
	case 4:
		f.FileFormat = &pb.ReadRel_LocalFiles_FileOrFiles_Extension{Extension: g.Any()}
	}
	return f
}

func nullable(ts []*pb.Type) []*pb.Type {
	out := make([]*pb.Type, len(ts))
	for i, t := range ts {
		out[i] = SetNull(t, Null)
	}
	return out
}

func concat(a, b []*pb.Type) []*pb.Type {
	return append(append([]*pb.Type{}, a...), b...)
}

// JoinSchema is the output schema of a join by type.
func JoinSchema(t pb.JoinRel_JoinType, l, r []*pb.Type) ([]*pb.Type, bool) {
	switch t {
	case pb.JoinRel_JOIN_TYPE_INNER:
		return concat(l, r), true
	case pb.JoinRel_JOIN_TYPE_OUTER:
		return nullable(concat(l, r)), true
	case pb.JoinRel_JOIN_TYPE_LEFT, pb.JoinRel_JOIN_TYPE_LEFT_SINGLE:
		return concat(l, nullable(r)), true
	case pb.JoinRel_JOIN_TYPE_RIGHT, pb.JoinRel_JOIN_TYPE_RIGHT_SINGLE:
		return concat(nullable(l), r), true
	case pb.JoinRel_JOIN_TYPE_LEFT_SEMI, pb.JoinRel_JOIN_TYPE_LEFT_ANTI:
		return l, true
	case pb.JoinRel_JOIN_TYPE_RIGHT_SEMI, pb.JoinRel_JOIN_TYPE_RIGHT_ANTI:
		return r, true
	}
	return nil, false
}

var joinTypes = []pb.JoinRel_JoinType{pb.JoinRel_JOIN_TYPE_INNER, pb.JoinRel_JOIN_TYPE_OUTER, pb.JoinRel_JOIN_TYPE_LEFT, pb.JoinRel_JOIN_TYPE_RIGHT, pb.JoinRel_JOIN_TYPE_LEFT_SEMI, pb.JoinRel_JOIN_TYPE_LEFT_ANTI,
	pb.JoinRel_JOIN_TYPE_RIGHT_SEMI, pb.JoinRel_JOIN_TYPE_RIGHT_ANTI, pb.JoinRel_JOIN_TYPE_LEFT_SINGLE, pb.JoinRel_JOIN_TYPE_RIGHT_SINGLE}

// Rel builds a relation tree.
func (g *G) Rel(depth int) (*pb.Rel, []*pb.Type) {
	if depth <= 0 || !g.spend() {
		return g.Read(g.Schema(4))
	}
	switch g.n(15) {
	case 0:
		return g.Read(g.Schema(6))
	case 1:
		g.feat("filter")
		in, s := g.Rel(depth - 1)
		c, out := g.Common(s)
		return &pb.Rel{RelType: &pb.Rel_Filter{Filter: &pb.FilterRel{Common: c, Input: in, Condition: g.Expr(s, Bool(g.nullab()), 3), AdvancedExtension: g.AdvExt(1, 10)}}}, out
	case 2:
		g.feat("fetch")
		in, s := g.Rel(depth - 1)
		c, out := g.Common(s)
		return &pb.Rel{RelType: &pb.Rel_Fetch{Fetch: &pb.FetchRel{Common: c, Input: in, OffsetMode: &pb.FetchRel_Offset{Offset: int64(g.n(3)) * math.MaxInt32}, CountMode: &pb.FetchRel_Count{Count: []int64{10, 0, -1, math.MaxInt64}[g.n(4)]}, AdvancedExtension: g.AdvExt(1, 10)}}}, out
	case 3, 4:
		g.feat("project")
		in, s := g.Rel(depth - 1)
		p := &pb.ProjectRel{Input: in, AdvancedExtension: g.AdvExt(1, 10)}
		out := append([]*pb.Type{}, s...)
		for i := 1 + g.cnt(4); i > 0; i-- {
			w := g.WantType(s)
			p.Expressions = append(p.Expressions, g.Expr(s, w, 3))
			out = append(out, w)
		}
		p.Common, out = g.Common(out)
		return &pb.Rel{RelType: &pb.Rel_Project{Project: p}}, out
	case 5:
		g.feat("sort")
		in, s := g.Rel(depth - 1)
		c, out := g.Common(s)
		return &pb.Rel{RelType: &pb.Rel_Sort{Sort: &pb.SortRel{Common: c, Input: in, Sorts: g.Sorts(s, 1+g.n(3), 3), AdvancedExtension: g.AdvExt(1, 10)}}}, out
	case 6, 7:
		g.feat("join")
		l, ls := g.Rel(depth - 1)
		r, rs := g.Rel(depth - 1)
		j := &pb.JoinRel{Left: l, Right: r, Type: joinTypes[g.n(len(joinTypes))], AdvancedExtension: g.AdvExt(1, 10)}
		both := concat(ls, rs)
		j.Expression = g.Expr(both, Bool(g.nullab()), 3)
		if g.p(1, 3) {
			g.feat("join_post_filter")
			j.PostJoinFilter = g.Expr(both, Bool(g.nullab()), 2)
		}
		out, _ := JoinSchema(j.Type, ls, rs)
		j.Common, out = g.Common(out)
		return &pb.Rel{RelType: &pb.Rel_Join{Join: j}}, out
	case 8:
		g.feat("cross")
		l, ls := g.Rel(depth - 1)
		r, rs := g.Rel(depth - 1)
		c, out := g.Common(concat(ls, rs))
		return &pb.Rel{RelType: &pb.Rel_Cross{Cross: &pb.CrossRel{Common: c, Left: l, Right: r, AdvancedExtension: g.AdvExt(1, 10)}}}, out
	case 9:
		if g.API {
			return g.Read(g.Schema(4))
		}
		return g.hashMerge(depth)
	case 10, 11:
		return g.aggregate(depth)
	case 12:
		g.feat("set")
		in, s := g.Rel(depth - 1)
		x := &pb.SetRel{Inputs: []*pb.Rel{in}, Op: pb.SetRel_SetOp(1 + g.n(6)), AdvancedExtension: g.AdvExt(1, 10)}
		for i := 1 + g.cnt(2); i > 0; i-- {
			x.Inputs = append(x.Inputs, g.RelOf(s, depth-1))
		}
		var out []*pb.Type
		x.Common, out = g.Common(s)
		return &pb.Rel{RelType: &pb.Rel_Set{Set: x}}, out
	case 13:
		switch g.n(3) {
		case 0:
			g.feat("extension_leaf")
			s := g.Schema(3)
			c, out := g.Common(s)
			return &pb.Rel{RelType: &pb.Rel_ExtensionLeaf{ExtensionLeaf: &pb.ExtensionLeafRel{Common: c, Detail: SchemaDetail(s)}}}, out
		case 1:
			g.feat("extension_single")
			in, s := g.Rel(depth - 1)
			d := g.Any() // undecoded: keeps the input schema
			if g.API || g.p(1, 2) {
				s = g.Schema(3)
				d = SchemaDetail(s)
			}
			c, out := g.Common(s)
			return &pb.Rel{RelType: &pb.Rel_ExtensionSingle{ExtensionSingle: &pb.ExtensionSingleRel{Common: c, Input: in, Detail: d}}}, out
		}
		g.feat("extension_multi")
		s := g.Schema(3)
		x := &pb.ExtensionMultiRel{Detail: SchemaDetail(s)}
		for i := 1 + g.cnt(3); i > 0; i-- {
			in, _ := g.Rel(depth - 1)
			x.Inputs = append(x.Inputs, in)
		}
		var out []*pb.Type
		x.Common, out = g.Common(s)
		return &pb.Rel{RelType: &pb.Rel_ExtensionMulti{ExtensionMulti: x}}, out
	}
	return g.Read(g.Schema(4))
}

func (g *G) hashMerge(depth int) (*pb.Rel, []*pb.Type) {
	l, ls := g.Rel(depth - 1)
	r, rs := g.Rel(depth - 1)
	direct := concat(ls, rs)
	c, out := g.Common(direct)
	var keys []*pb.ComparisonJoinKey
	var lk, rk []*pb.Expression_FieldReference
	allEq := true
	for i := g.cnt(3); i > 0; i-- {
		a, _ := g.AnyField(ls)
		b, _ := g.AnyField(rs)
		if a == nil || b == nil {
			continue
		}
		k := &pb.ComparisonJoinKey{Left: a, Right: b}
		cmp := &pb.ComparisonJoinKey_ComparisonType{InnerType: &pb.ComparisonJoinKey_ComparisonType_Simple{Simple: pb.ComparisonJoinKey_SIMPLE_COMPARISON_TYPE_EQ}}
		switch g.n(4) {
		case 1:
			allEq = false
			cmp.InnerType = &pb.ComparisonJoinKey_ComparisonType_Simple{Simple: []pb.ComparisonJoinKey_SimpleComparisonType{pb.ComparisonJoinKey_SIMPLE_COMPARISON_TYPE_IS_NOT_DISTINCT_FROM, pb.ComparisonJoinKey_SIMPLE_COMPARISON_TYPE_MIGHT_EQUAL}[g.n(2)]}
		case 2:
			if len(g.Cat.Scalar) > 0 {
				allEq = false
				it := g.Cat.Scalar[g.n(len(g.Cat.Scalar))]
				cmp.InnerType = &pb.ComparisonJoinKey_ComparisonType_CustomFunctionReference{CustomFunctionReference: g.Refs.Ref("func", it.URN, it.Name)}
			}
		}
		k.Comparison = cmp
		keys = append(keys, k)
		lk = append(lk, a)
		rk = append(rk, b)
	}
	if !allEq {
		lk, rk = nil, nil
	}
	var post *pb.Expression
	if g.p(1, 3) {
		post = g.Expr(out, Bool(g.nullab()), 2)
	}
	if g.p(1, 2) {
		g.feat("hash_join")
		return &pb.Rel{RelType: &pb.Rel_HashJoin{HashJoin: &pb.HashJoinRel{Common: c, Left: l, Right: r, Keys: keys, LeftKeys: lk, RightKeys: rk, PostJoinFilter: post, Type: pb.HashJoinRel_JoinType(1 + g.n(10)), AdvancedExtension: g.AdvExt(1, 10)}}}, out
	}
	g.feat("merge_join")
	return &pb.Rel{RelType: &pb.Rel_MergeJoin{MergeJoin: &pb.MergeJoinRel{Common: c, Left: l, Right: r, Keys: keys, LeftKeys: lk, RightKeys: rk, PostJoinFilter: post, Type: pb.MergeJoinRel_JoinType(1 + g.n(10)), AdvancedExtension: g.AdvExt(1, 10)}}}, out
}

func (g *G) aggregate(depth int) (*pb.Rel, []*pb.Type) {
	g.feat("aggregate")
	in, s := g.Rel(depth - 1)
	a := &pb.AggregateRel{Input: in, AdvancedExtension: g.AdvExt(1, 10)}
	var ts []*pb.Type
	for i := g.cnt(4); i > 0; i-- {
		if k := len(ts); k > 0 && g.p(1, 4) {
			if x := g.twin(a.GroupingExpressions[k-1]); x != nil && !among(x, a.GroupingExpressions) {
				ts = append(ts, ts[k-1])
				a.GroupingExpressions = append(a.GroupingExpressions, x)
				continue
			}
		}
		w := g.WantType(s)
		x := g.Expr(s, w, 2)
		if x.GetLiteral() != nil && among(x, a.GroupingExpressions) {
			continue // the builder merges literals that are the same value
		}
		ts = append(ts, w)
		a.GroupingExpressions = append(a.GroupingExpressions, x)
	}
	var out []*pb.Type
	if len(ts) > 0 {
		for i := 1 + g.cnt(3); i > 0; i-- {
			gr := &pb.AggregateRel_Grouping{}
			for k := 0; k < len(ts); k++ {
				if g.p(2, 3) {
					gr.ExpressionReferences = append(gr.ExpressionReferences, uint32(g.n(len(ts))))
				}
			}
			for _, r := range gr.ExpressionReferences {
				out = append(out, ts[r])
			}
			a.Groupings = append(a.Groupings, gr)
		}
		if g.p(1, 3) {
			ts, out = g.firstUse(a, ts)
		}
	}
	n := g.n(3)
	if len(out) == 0 {
		n++
	}
	for ; n > 0; n-- {
		w := g.Type(1)
		m := &pb.AggregateRel_Measure{Measure: g.AggFunc(s, w, 2)}
		if m.Measure == nil {
			continue
		}
		if g.p(1, 3) {
			g.feat("measure_filter")
			m.Filter = g.Expr(s, Bool(g.nullab()), 2)
		}
		a.Measures = append(a.Measures, m)
		out = append(out, w)
	}
	a.Common, out = g.Common(out)
	return &pb.Rel{RelType: &pb.Rel_Aggregate{Aggregate: a}}, out
}

func among(x *pb.Expression, l []*pb.Expression) bool {
	for _, y := range l {
		if proto.Equal(x, y) {
			return true
		}
	}
	return false
}

// twin builds an expression that differs from x in one detail only and has
// the same type.
func (g *G) twin(x *pb.Expression) *pb.Expression {
	x = proto.Clone(x).(*pb.Expression)
	var ms []func()
	details(x.ProtoReflect(), func(what string, change func()) {
		ms = append(ms, func() { change(); g.feat("twin_" + what) })
	})
	if len(ms) == 0 {
		return nil
	}
	ms[g.n(len(ms))]()
	return x
}

// details offers every change of one detail of m that keeps all types.
func details(m protoreflect.Message, offer func(string, func())) {
	if !m.IsValid() {
		return
	}
	opt := func(o *[]*pb.FunctionOption) {
		offer("option", func() {
			if n := len(*o); n > 0 {
				(*o)[n-1].Preference = append((*o)[n-1].Preference, "TWIN")
			} else {
				*o = []*pb.FunctionOption{{Name: "twin", Preference: []string{"A"}}}
			}
		})
	}
	invocation := func(i *pb.AggregateFunction_AggregationInvocation) {
		offer("invocation", func() { *i = 1 + *i%2 })
	}
	phase := func(p *pb.AggregationPhase) { offer("phase", func() { *p = 1 + *p%4 }) }
	switch k := m.Interface().(type) {
	case *pb.Expression_ScalarFunction:
		opt(&k.Options)
	case *pb.AggregateFunction:
		opt(&k.Options)
		invocation(&k.Invocation)
		phase(&k.Phase)
	case *pb.Expression_WindowFunction:
		opt(&k.Options)
		invocation(&k.Invocation)
		phase(&k.Phase)
		offer("bounds_type", func() { k.BoundsType = 1 + k.BoundsType%2 })
		if n := len(k.Partitions); n > 0 {
			offer("partition", func() { k.Partitions = k.Partitions[:n-1] })
		}
		if n := len(k.Sorts); n > 0 {
			offer("sort", func() { k.Sorts = k.Sorts[:n-1] })
		}
	case *pb.Expression_WindowFunction_Bound_Preceding:
		offer("preceding", func() { k.Offset++ })
	case *pb.Expression_WindowFunction_Bound_Following:
		offer("following", func() { k.Offset++ })
	case *pb.SortField:
		if d, ok := k.SortKind.(*pb.SortField_Direction); ok {
			offer("direction", func() { d.Direction = 1 + d.Direction%4 })
		}
	case *pb.Expression_Cast:
		offer("cast", func() { k.FailureBehavior = 1 + k.FailureBehavior%2 })
	case *pb.Expression_IfThen:
		if n := len(k.Ifs); n > 1 {
			offer("if", func() { k.Ifs = k.Ifs[:n-1] })
		}
	case *pb.Expression_SwitchExpression:
		if n := len(k.Ifs); n > 1 {
			offer("case", func() { k.Ifs = k.Ifs[:n-1] })
		}
	case *pb.Expression_SingularOrList:
		if n := len(k.Options); n > 1 {
			offer("option_list", func() { k.Options = k.Options[:n-1] })
		}
	case *pb.Expression_MultiOrList:
		if n := len(k.Options); n > 1 {
			offer("option_lists", func() { k.Options = k.Options[:n-1] })
		}
	case *pb.Expression_ReferenceSegment_ListElement:
		offer("element", func() { k.Offset ^= 1 })
	case *pb.Expression_Literal:
		literalDetails(k, offer)
	case *pb.Expression_Literal_Map:
		for _, kv := range k.KeyValues { // keys may not become equal
			details(kv.Value.ProtoReflect(), offer)
		}
		return
	case *pb.Type:
		return
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap() || fd.Kind() != protoreflect.MessageKind:
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				details(v.List().Get(i).Message(), offer)
			}
		default:
			details(v.Message(), offer)
		}
		return true
	})
}

func literalDetails(l *pb.Expression_Literal, offer func(string, func())) {
	lit := func(f func()) { offer("literal", f) }
	switch v := l.LiteralType.(type) {
	case *pb.Expression_Literal_Boolean:
		lit(func() { v.Boolean = !v.Boolean })
	case *pb.Expression_Literal_I8:
		lit(func() { v.I8 ^= 1 })
	case *pb.Expression_Literal_I16:
		lit(func() { v.I16 ^= 1 })
	case *pb.Expression_Literal_I32:
		lit(func() { v.I32 ^= 1 })
	case *pb.Expression_Literal_I64:
		lit(func() { v.I64 ^= 1 })
	case *pb.Expression_Literal_Date:
		lit(func() { v.Date ^= 1 })
	case *pb.Expression_Literal_Fp32:
		if !math.IsInf(float64(v.Fp32), 0) {
			lit(func() { v.Fp32 = math.Float32frombits(math.Float32bits(v.Fp32) ^ 1) })
		}
	case *pb.Expression_Literal_Fp64:
		if !math.IsInf(v.Fp64, 0) {
			lit(func() { v.Fp64 = math.Float64frombits(math.Float64bits(v.Fp64) ^ 1) })
		}
	case *pb.Expression_Literal_String_:
		lit(func() { v.String_ += "'" })
	case *pb.Expression_Literal_Binary:
		lit(func() { v.Binary = append(v.Binary, 0) })
	case *pb.Expression_Literal_Uuid:
		lit(func() { v.Uuid[len(v.Uuid)-1] ^= 1 })
	case *pb.Expression_Literal_FixedBinary:
		if len(v.FixedBinary) > 0 {
			lit(func() { v.FixedBinary[len(v.FixedBinary)-1] ^= 1 })
		}
	case *pb.Expression_Literal_PrecisionTimestamp_:
		lit(func() { v.PrecisionTimestamp.Value ^= 1 })
	case *pb.Expression_Literal_PrecisionTimestampTz:
		lit(func() { v.PrecisionTimestampTz.Value ^= 1 })
	case *pb.Expression_Literal_IntervalYearToMonth_:
		lit(func() { v.IntervalYearToMonth.Months ^= 1 })
	case *pb.Expression_Literal_IntervalDayToSecond_:
		lit(func() { v.IntervalDayToSecond.Seconds ^= 1 })
	}
}

// firstUse orders the grouping expressions by first use and drops the others.
func (g *G) firstUse(a *pb.AggregateRel, ts []*pb.Type) (kept, out []*pb.Type) {
	at := map[uint32]uint32{}
	var xs []*pb.Expression
	for _, gr := range a.Groupings {
		for i, r := range gr.ExpressionReferences {
			k, ok := at[r]
			if !ok {
				k = uint32(len(xs))
				at[r] = k
				xs = append(xs, a.GroupingExpressions[r])
				kept = append(kept, ts[r])
			}
			gr.ExpressionReferences[i] = k
			out = append(out, ts[r])
		}
	}
	if len(xs) == 0 {
		return ts, nil
	}
	a.GroupingExpressions = xs
	return kept, out
}

// RelOf builds a relation with exactly the given output schema.
func (g *G) RelOf(want []*pb.Type, depth int) *pb.Rel {
	if depth > 0 && g.p(1, 2) && g.spend() {
		in, s := g.Rel(depth - 1)
		p := &pb.ProjectRel{Input: in, Common: &pb.RelCommon{}}
		var m []int32
		for i, w := range want {
			p.Expressions = append(p.Expressions, g.Expr(s, w, 2))
			m = append(m, int32(len(s)+i))
		}
		if len(m) > 0 {
			g.emitTo(p.Common, m...)
			return &pb.Rel{RelType: &pb.Rel_Project{Project: p}}
		}
	}
	r := &pb.ReadRel{Common: &pb.RelCommon{EmitKind: &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}}, BaseSchema: g.NamedStruct(want),
		ReadType: &pb.ReadRel_NamedTable_{NamedTable: &pb.ReadRel_NamedTable{Names: g.tableNames()}}}
	return &pb.Rel{RelType: &pb.Rel_Read{Read: r}}
}

// Write builds a write relation.
func (g *G) Write(depth int) (*pb.Rel, []*pb.Type, bool) {
	g.feat("write")
	in, s := g.Rel(depth - 1)
	ops := []pb.WriteRel_WriteOp{pb.WriteRel_WRITE_OP_CTAS, pb.WriteRel_WRITE_OP_INSERT, pb.WriteRel_WRITE_OP_DELETE}
	w := &pb.WriteRel{Input: in, Op: ops[g.n(3)], TableSchema: g.NamedStruct(s), Common: &pb.RelCommon{EmitKind: &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}},
		WriteType:         &pb.WriteRel_NamedTable{NamedTable: &pb.NamedObjectWrite{Names: g.tableNames(), AdvancedExtension: g.AdvExt(1, 6)}},
		Output:            []pb.WriteRel_OutputMode{pb.WriteRel_OUTPUT_MODE_NO_OUTPUT, pb.WriteRel_OUTPUT_MODE_MODIFIED_RECORDS}[g.n(2)],
		AdvancedExtension: g.AdvExt(1, 6)}
	if w.Op == pb.WriteRel_WRITE_OP_CTAS {
		w.CreateMode = pb.WriteRel_CreateMode(g.n(5))
	}
	if g.p(1, 6) {
		w.Common.Hint = g.hint()
	}
	return &pb.Rel{RelType: &pb.Rel_Write{Write: w}}, s, w.Output == pb.WriteRel_OUTPUT_MODE_MODIFIED_RECORDS
}

// APIPlan builds a plan that the plan builder can make: a root, other
// relations, type URLs and parameter bindings.
func (g *G) APIPlan(depth int) *PlanInfo {
	g.API, g.Sub = true, true
	pi := &PlanInfo{Plan: &pb.Plan{}}
	p := pi.Plan
	r, s := g.Rel(depth)
	p.Relations = append(p.Relations, &pb.PlanRel{RelType: &pb.PlanRel_Root{Root: &pb.RelRoot{Input: r, Names: g.Names(s)}}})
	pi.Schemas = append(pi.Schemas, s)
	for g.p(1, 3) && len(p.Relations) < 4 {
		var r *pb.Rel
		var s []*pb.Type
		if g.p(1, 4) {
			g.feat("api_write")
			in, ws := g.Rel(depth - 1)
			w := &pb.WriteRel{Input: in, Op: []pb.WriteRel_WriteOp{pb.WriteRel_WRITE_OP_CTAS, pb.WriteRel_WRITE_OP_INSERT, pb.WriteRel_WRITE_OP_DELETE, pb.WriteRel_WRITE_OP_UPDATE}[g.n(4)], TableSchema: g.NamedStruct(ws),
				Common:    &pb.RelCommon{EmitKind: &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}},
				WriteType: &pb.WriteRel_NamedTable{NamedTable: &pb.NamedObjectWrite{Names: g.tableNames()}}, Output: pb.WriteRel_OUTPUT_MODE_NO_OUTPUT}
			if w.Op == pb.WriteRel_WRITE_OP_CTAS {
				w.Output = pb.WriteRel_OUTPUT_MODE_MODIFIED_RECORDS
			}
			r, s = &pb.Rel{RelType: &pb.Rel_Write{Write: w}}, nil
		} else {
			r, s = g.Rel(depth)
		}
		p.Relations = append(p.Relations, &pb.PlanRel{RelType: &pb.PlanRel_Rel{Rel: r}})
		pi.Schemas = append(pi.Schemas, s)
	}
	for i := g.cnt(3); i > 0; i-- {
		p.ExpectedTypeUrls = append(p.ExpectedTypeUrls, "type.googleapis.com/"+g.word())
	}
	p.ExtensionUrns, p.Extensions = g.Refs.Proto()
	return pi
}

// PlanInfo is the generated plan with its model.
type PlanInfo struct {
	Plan    *pb.Plan
	Schemas [][]*pb.Type // nil entry: not modelled
}

// Version builds a version.
func (g *G) Version() *pb.Version {
	v := &pb.Version{MajorNumber: uint32(g.n(3)), MinorNumber: uint32(g.n(100)), PatchNumber: uint32(g.n(10))}
	if g.p(1, 2) {
		v.GitHash = "0123456789abcdef0123456789abcdef01234567"
	}
	if g.p(1, 2) {
		v.Producer = "sim " + g.word()
	}
	return v
}

// Plan builds a whole plan in canonical form.
func (g *G) Plan(depth int) *PlanInfo {
	g.Sub = true
	pi := &PlanInfo{Plan: &pb.Plan{Version: g.Version()}}
	p := pi.Plan
	n := 1
	if g.p(1, 3) {
		n += g.n(3)
	}
	for i := 0; i < n; i++ {
		var r *pb.Rel
		var s []*pb.Type
		isWrite := false
		if g.p(1, 12) {
			r, s, _ = g.Write(depth)
			isWrite = true
		} else {
			r, s = g.Rel(depth)
		}
		if isWrite || g.p(1, 5) {
			g.feat("plain_relation")
			p.Relations = append(p.Relations, &pb.PlanRel{RelType: &pb.PlanRel_Rel{Rel: r}})
		} else {
			g.feat("root")
			p.Relations = append(p.Relations, &pb.PlanRel{RelType: &pb.PlanRel_Root{Root: &pb.RelRoot{Input: r, Names: g.Names(s)}}})
		}
		if isWrite {
			s = nil
		}
		pi.Schemas = append(pi.Schemas, s)
	}
	p.AdvancedExtensions = g.AdvExt(1, 4)
	for i := g.cnt(3); i > 0; i-- {
		p.ExpectedTypeUrls = append(p.ExpectedTypeUrls, "type.googleapis.com/"+g.word())
	}
	for _, q := range g.Params {
		if g.p(1, 2) {
			continue
		}
		if l, ok := g.Literal(q.Type, 1); ok {
			g.feat("parameter_binding")
			p.ParameterBindings = append(p.ParameterBindings, &pb.DynamicParameterBinding{ParameterAnchor: q.Anchor, Value: l})
		}
	}
	if b := p.ParameterBindings; g.p(1, 3) {
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
	g.extraDecls()
	p.ExtensionUrns, p.Extensions = g.Refs.Proto()
	return pi
}

// extraDecls declares a few items no expression uses.
func (g *G) extraDecls() {
	if !g.p(1, 3) {
		return
	}
	g.feat("unused_declarations")
	for i := 1 + g.cnt(4); i > 0; i-- {
		switch g.n(3) {
		case 0:
			if len(g.Cat.Types) > 0 {
				it := g.Cat.Types[g.n(len(g.Cat.Types))]
				g.Refs.Ref("type", it.URN, it.Name)
			}
		case 1:
			if len(g.Cat.Variations) > 0 {
				it := g.Cat.Variations[g.n(len(g.Cat.Variations))]
				g.Refs.Ref("variation", it.URN, it.Name)
			}
		default:
			l := [][]Item{g.Cat.Scalar, g.Cat.Aggregate, g.Cat.Window}[g.n(3)]
			if len(l) > 0 {
				it := l[g.n(len(l))]
				g.Refs.Ref("func", it.URN, it.Name)
			}
		}
	}
}

// Extended builds an extended expression in canonical form.
func (g *G) Extended() (*pb.ExtendedExpression, []*pb.Type) {
	s := g.Schema(5)
	x := &pb.ExtendedExpression{Version: g.Version(), BaseSchema: g.NamedStruct(s), AdvancedExtensions: g.AdvExt(1, 4)}
	for i := 1 + g.cnt(3); i > 0; i-- {
		w := g.WantType(s)
		r := &pb.ExpressionReference{OutputNames: g.Names([]*pb.Type{w})}
		if g.p(1, 3) {
			r.ExprType = &pb.ExpressionReference_Measure{Measure: g.AggFunc(s, w, 3)}
		} else {
			r.ExprType = &pb.ExpressionReference_Expression{Expression: g.Expr(s, w, 4)}
		}
		x.ReferredExpr = append(x.ReferredExpr, r)
	}
	for i := g.cnt(3); i > 0; i-- {
		x.ExpectedTypeUrls = append(x.ExpectedTypeUrls, "type.googleapis.com/"+g.word())
	}
	g.extraDecls()
	x.ExtensionUrns, x.Extensions = g.Refs.Proto()
	return x, s
}
