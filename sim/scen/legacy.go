package scen

import (
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verifsim/eng"
	"verifsim/obs"
)

// oldPeer rewrites a message the way a producer of an earlier release writes
// it: with the fields that have been replaced since.
func oldPeer(e *eng.Ep, m proto.Message) {
	if !e.Bool("net", 1, 4) {
		return
	}
	n := 0
	hit := func() bool {
		if e.Bool("net", 1, 4) {
			return false
		}
		n++
		return true
	}
	obs.Walk(m.ProtoReflect(), func(x protoreflect.Message) {
		switch r := x.Interface().(type) {
		case *pb.AggregateRel:
			if oldGrouping(r) && hit() {
				e.Probe("old:grouping")
				for _, g := range r.Groupings {
					for _, k := range g.ExpressionReferences {
						g.GroupingExpressions = append(g.GroupingExpressions, clone(r.GroupingExpressions[k]).(*pb.Expression))
					}
					g.ExpressionReferences = nil
				}
				r.GroupingExpressions = nil
			}
		case *pb.HashJoinRel:
			if len(r.LeftKeys) > 0 && len(r.Keys) > 0 && hit() {
				e.Probe("old:hash_join_keys")
				r.Keys = nil
			}
		case *pb.MergeJoinRel:
			if len(r.LeftKeys) > 0 && len(r.Keys) > 0 && hit() {
				e.Probe("old:merge_join_keys")
				r.Keys = nil
			}
		case *pb.ReadRel_VirtualTable:
			var rows []*pb.Expression_Literal_Struct
			for _, w := range r.Expressions {
				row := &pb.Expression_Literal_Struct{}
				for _, f := range w.Fields {
					l := f.GetLiteral()
					if l == nil {
						return
					}
					row.Fields = append(row.Fields, l)
				}
				rows = append(rows, row)
			}
			if len(rows) > 0 && hit() {
				e.Probe("old:virtual_table")
				r.Expressions, r.Values = nil, rows
			}
		case *pb.Expression_Literal_IntervalCompound:
			d := r.IntervalDayToSecond
			if d == nil {
				return
			}
			if p, ok := d.PrecisionMode.(*pb.Expression_Literal_IntervalDayToSecond_Precision); ok && p.Precision == 6 && d.Subseconds < 1<<31 && d.Subseconds >= 0 && hit() {
				e.Probe("old:microseconds")
				d.PrecisionMode = &pb.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: int32(d.Subseconds)}
				d.Subseconds = 0
			}
		}
	})
	if n > 0 {
		e.Fault("old_wire_form")
	}
}

// oldGrouping tells whether writing the grouping expressions in place and
// collecting them again, in the order of first use, gives the same relation.
func oldGrouping(r *pb.AggregateRel) bool {
	next := 0
	for _, g := range r.Groupings {
		for _, k := range g.ExpressionReferences {
			if int(k) > next || int(k) >= len(r.GroupingExpressions) {
				return false
			}
			if int(k) == next {
				next++
			} else if hasSubquery(r.GroupingExpressions[k]) {
				// copies of a subquery compare as different expressions
				return false
			}
		}
	}
	if next != len(r.GroupingExpressions) || next == 0 {
		return false
	}
	for i, a := range r.GroupingExpressions {
		for _, b := range r.GroupingExpressions[:i] {
			if proto.Equal(a, b) {
				return false
			}
		}
	}
	return true
}

func hasSubquery(x *pb.Expression) (found bool) {
	obs.Walk(x.ProtoReflect(), func(m protoreflect.Message) {
		if _, ok := m.Interface().(*pb.Expression_Subquery); ok {
			found = true
		}
	})
	return found
}
