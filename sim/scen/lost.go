package scen

import (
	"fmt"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verifsim/eng"
	"verifsim/obs"
)

// losePart removes one thing a plan cannot do without: the declaration of a
// function in use, an expression or a relation. It returns what was removed,
// "" if there is nothing.
func losePart(e *eng.Ep, m proto.Message, decls *[]*extpb.SimpleExtensionDeclaration) string {
	type part struct {
		what string
		drop func()
	}
	var xs, rs, fs []part
	used := map[uint32]string{}
	var order []uint32
	use := func(a uint32, what string) {
		if _, ok := used[a]; !ok {
			used[a] = what
			order = append(order, a)
		}
	}
	obs.Walk(m.ProtoReflect(), func(x protoreflect.Message) {
		switch k := x.Interface().(type) {
		case *pb.Expression:
			if k.RexType != nil {
				xs = append(xs, part{fmt.Sprintf("the %T", k.RexType), func() { k.RexType = nil }})
			}
		case *pb.Rel:
			if k.RelType != nil {
				rs = append(rs, part{fmt.Sprintf("the %T", k.RelType), func() { k.RelType = nil }})
			}
		case *pb.Expression_ScalarFunction:
			use(k.FunctionReference, "scalar")
		case *pb.Expression_WindowFunction:
			use(k.FunctionReference, "window")
		case *pb.ConsistentPartitionWindowRel_WindowRelFunction:
			use(k.FunctionReference, "window rel")
		case *pb.AggregateFunction:
			use(k.FunctionReference, "aggregate")
		}
	})
	for _, a := range order {
		fs = append(fs, part{"the declaration of a " + used[a] + " function", func() {
			for i, d := range *decls {
				if f := d.GetExtensionFunction(); f != nil && f.FunctionAnchor == a {
					*decls = append((*decls)[:i:i], (*decls)[i+1:]...)
					return
				}
			}
			panic("a function in use is not declared")
		}})
	}
	for _, l := range [][]part{{}, xs, rs, fs}[1+e.Int("net", 3):] {
		if len(l) > 0 {
			p := l[e.Int("net", len(l))]
			p.drop()
			return p.what
		}
	}
	return ""
}
