package gen

import (
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func protoEnum(n pb.Type_Nullability) protoreflect.Value {
	return protoreflect.ValueOfEnum(protoreflect.EnumNumber(n))
}
