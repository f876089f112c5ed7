package gen

import (
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
)

var refFields = map[protoreflect.Name]string{
	"function_reference":            "func",
	"custom_function_reference":     "func",
	"comparison_function_reference": "func",
	"type_reference":                "type",
	"user_defined_type_reference":   "type",
	"type_variation_reference":      "variation",
}

// Renumber rewrites every extension reference of m in place, also inside the
// schemas of extension relations.  Variation 0 means none and stays.
func Renumber(m proto.Message, f func(class string, ref uint32) uint32) {
	renumber(m.ProtoReflect(), f)
}

func renumber(m protoreflect.Message, f func(string, uint32) uint32) {
	if a, ok := m.Interface().(*anypb.Any); ok {
		if a.TypeUrl != SchemaURL {
			return
		}
		var s pb.Type_Struct
		if err := proto.Unmarshal(a.Value, &s); err != nil {
			panic(err)
		}
		renumber(s.ProtoReflect(), f)
		a.Value, _ = proto.MarshalOptions{Deterministic: true}.Marshal(&s)
		return
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		d := fs.Get(i)
		if c, ok := refFields[d.Name()]; ok && d.Kind() == protoreflect.Uint32Kind && !d.IsList() {
			if d.ContainingOneof() != nil && !m.Has(d) {
				continue
			}
			v := uint32(m.Get(d).Uint())
			if c == "variation" && v == 0 {
				continue
			}
			m.Set(d, protoreflect.ValueOfUint32(f(c, v)))
			continue
		}
		if d.Kind() != protoreflect.MessageKind || !m.Has(d) {
			continue
		}
		switch {
		case d.IsMap():
			if d.MapValue().Kind() == protoreflect.MessageKind {
				m.Get(d).Map().Range(func(_ protoreflect.MapKey, v protoreflect.Value) bool {
					renumber(v.Message(), f)
					return true
				})
			}
		case d.IsList():
			l := m.Get(d).List()
			for j := 0; j < l.Len(); j++ {
				renumber(l.Get(j).Message(), f)
			}
		default:
			renumber(m.Get(d).Message(), f)
		}
	}
}
