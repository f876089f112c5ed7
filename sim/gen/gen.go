// Package gen is the wire-side workload generator: it builds substrait messages
// directly (never through the library), together with an independent model of
// the output schema of every relation it produces.
package gen

import (
	"fmt"
	"math"
	"sort"
	"strings"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
)

// Rnd is the choice source.
type Rnd interface {
	Int(stream string, n int) int
}

// Item names one definition of the extension catalogue.
type Item struct {
	URN, Name string
	Kind      string // scalar aggregate window type variation
}

// Catalog is what the sender knows to exist.
type Catalog struct {
	Scalar, Aggregate, Window, Types, Variations []Item
	URNs                                         []string
}

// Sort orders the catalogue canonically.
func (c *Catalog) Sort() {
	for _, l := range [][]Item{c.Scalar, c.Aggregate, c.Window, c.Types, c.Variations} {
		sort.Slice(l, func(i, j int) bool {
			if l[i].URN != l[j].URN {
				return l[i].URN < l[j].URN
			}
			return l[i].Name < l[j].Name
		})
	}
	sort.Strings(c.URNs)
}

// Decl is one declared reference.
type Decl struct {
	Class     string // type variation func
	URN, Name string
	Anchor    uint32
}

// Refs is the sender's table of declared references.
type Refs struct {
	g        *G
	URNs     map[string]uint32
	usedURN  map[uint32]bool
	Decls    []Decl
	byKey    map[string]uint32
	used     map[string]map[uint32]bool
	Strategy int // 0 dense from 1, 1 sparse small, 2 sparse large, 3 dense from 0 (functions), descending for 4
}

func newRefs(g *G) *Refs {
	return &Refs{g: g, URNs: map[string]uint32{}, usedURN: map[uint32]bool{}, byKey: map[string]uint32{},
		used: map[string]map[uint32]bool{"type": {}, "variation": {}, "func": {}}, Strategy: g.n(4)}
}

func (r *Refs) fresh(used map[uint32]bool, zero bool) uint32 {
	for try := uint32(0); ; try++ {
		var a uint32
		if try <= 20 {
			a = r.draw(r.Strategy, used)
		} else {
			a = uint32(len(used)) + try
		}
		if a == 0 && !zero {
			continue
		}
		if !used[a] {
			used[a] = true
			return a
		}
	}
}

func (r *Refs) draw(strategy int, used map[uint32]bool) (a uint32) {
	switch strategy {
	case 0:
		a = uint32(len(used) + 1)
		for used[a] {
			a++
		}
	case 1:
		a = uint32(1 + r.g.n(40))
	case 2:
		a = []uint32{uint32(1 + r.g.n(1000)), uint32(r.g.n(1 << 30)), math.MaxUint32 - uint32(r.g.n(3)), 1<<31 + uint32(r.g.n(4))}[r.g.n(4)]
	default:
		a = uint32(1000 - len(used)*7)
	}
	return a
}

func (r *Refs) urn(u string) uint32 {
	a, ok := r.URNs[u]
	if !ok {
		a = r.fresh(r.usedURN, false)
		r.URNs[u] = a
	}
	return a
}

// Ref returns the anchor of an item, declaring it when needed.
func (r *Refs) Ref(class, urn, name string) uint32 {
	k := class + "\x00" + urn + "\x00" + name
	if a, ok := r.byKey[k]; ok {
		return a
	}
	r.urn(urn)
	a := r.fresh(r.used[class], false)
	r.byKey[k] = a
	r.Decls = append(r.Decls, Decl{class, urn, name, a})
	return a
}

// Proto lists the declarations in the canonical order: URNs, and within types,
// type variations and functions, by anchor.
func (r *Refs) Proto() ([]*extpb.SimpleExtensionURN, []*extpb.SimpleExtensionDeclaration) {
	var us []*extpb.SimpleExtensionURN
	for u, a := range r.URNs {
		us = append(us, &extpb.SimpleExtensionURN{ExtensionUrnAnchor: a, Urn: u})
	}
	var ds []*extpb.SimpleExtensionDeclaration
	for _, d := range r.Decls {
		ds = append(ds, r.decl(d))
	}
	SortDecls(us, ds)
	return us, ds
}

func (r *Refs) decl(d Decl) *extpb.SimpleExtensionDeclaration {
	u := r.urn(d.URN)
	switch d.Class {
	case "type":
		return &extpb.SimpleExtensionDeclaration{MappingType: &extpb.SimpleExtensionDeclaration_ExtensionType_{ExtensionType: &extpb.SimpleExtensionDeclaration_ExtensionType{ExtensionUrnReference: u, TypeAnchor: d.Anchor, Name: d.Name}}}
	case "variation":
		return &extpb.SimpleExtensionDeclaration{MappingType: &extpb.SimpleExtensionDeclaration_ExtensionTypeVariation_{ExtensionTypeVariation: &extpb.SimpleExtensionDeclaration_ExtensionTypeVariation{ExtensionUrnReference: u, TypeVariationAnchor: d.Anchor, Name: d.Name}}}
	}
	return &extpb.SimpleExtensionDeclaration{MappingType: &extpb.SimpleExtensionDeclaration_ExtensionFunction_{ExtensionFunction: &extpb.SimpleExtensionDeclaration_ExtensionFunction{ExtensionUrnReference: u, FunctionAnchor: d.Anchor, Name: d.Name}}}
}

// DeclKey returns class rank and anchor of a declaration.
func DeclKey(d *extpb.SimpleExtensionDeclaration) (int, uint32) {
	switch m := d.MappingType.(type) {
	case *extpb.SimpleExtensionDeclaration_ExtensionType_:
		return 0, m.ExtensionType.TypeAnchor
	case *extpb.SimpleExtensionDeclaration_ExtensionTypeVariation_:
		return 1, m.ExtensionTypeVariation.TypeVariationAnchor
	case *extpb.SimpleExtensionDeclaration_ExtensionFunction_:
		return 2, m.ExtensionFunction.FunctionAnchor
	}
	return 3, 0
}

// SortDecls puts declaration lists into canonical order.
func SortDecls(us []*extpb.SimpleExtensionURN, ds []*extpb.SimpleExtensionDeclaration) {
	sort.SliceStable(us, func(i, j int) bool { return us[i].ExtensionUrnAnchor < us[j].ExtensionUrnAnchor })
	sort.SliceStable(ds, func(i, j int) bool {
		a, x := DeclKey(ds[i])
		b, y := DeclKey(ds[j])
		if a != b {
			return a < b
		}
		return x < y
	})
}

// G generates.
type G struct {
	R      Rnd
	S      string
	Cat    *Catalog
	Refs   *Refs
	Budget int
	Sub    bool   // subqueries allowed
	ExtURL string // type URL the receiver has a schema decoder for
	Params []Param
	uniq   int
	lambda [][]*pb.Type
	outer  [][]*pb.Type
	Feat   map[string]int
	// Strict makes expressions carry exactly the wanted type (for set inputs)
	NoVariations bool
	// API keeps to relations that the plan builder can make
	API bool
}

// Param is a dynamic parameter in use.
type Param struct {
	Anchor uint32
	Type   *pb.Type
}

// New returns a generator drawing from stream s.
func New(r Rnd, s string, cat *Catalog, budget int) *G {
	g := &G{R: r, S: s, Cat: cat, Budget: budget, Feat: map[string]int{}}
	g.Refs = newRefs(g)
	return g
}

func (g *G) n(k int) int { return g.R.Int(g.S, k) }

// cnt is how many entries a list has: below k, and now and then a good many.
func (g *G) cnt(k int) int {
	if g.n(40) == 39 {
		g.feat("long_list")
		return k + g.n(14)
	}
	return g.n(k)
}
func (g *G) p(num, den int) bool    { return g.R.Int(g.S, den) >= den-num }
func (g *G) N(k int) int            { return g.n(k) }
func (g *G) P(num, den int) bool    { return g.p(num, den) }
func (g *G) feat(s string)          { g.Feat[s]++ }
func (g *G) pick(l []string) string { return l[g.n(len(l))] }

func (g *G) spend() bool {
	if g.Budget <= 0 {
		return false
	}
	g.Budget--
	return true
}

var words = []string{"a", "b", "col", "x.y", "", "naïve", "日本", "with space", "\"quoted\"", "UPPER", "very_long_identifier_name_for_a_column_0123456789", "tab\tnl\n", "%s%d", "null", strings.Repeat("long text, ", 30), "nul\x00byte", "ǅ ſ K"}

func (g *G) word() string { return words[g.n(len(words))] }

func (g *G) ident() string {
	g.uniq++
	return fmt.Sprintf("%s%d", []string{"c", "t", "日", "F_"}[g.n(4)], g.uniq)
}

func (g *G) i64() int64 {
	switch g.n(7) {
	case 0:
		return int64(g.n(10))
	case 1:
		return -int64(g.n(10)) - 1
	case 2:
		return math.MaxInt64 - int64(g.n(2))
	case 3:
		return math.MinInt64 + int64(g.n(2))
	case 4:
		return int64(math.MaxInt32) + int64(g.n(3)) - 1
	case 5:
		return int64(g.n(1<<30)) << 20
	}
	return -(int64(g.n(1<<30)) << 11)
}

func (g *G) i32() int32 {
	switch g.n(5) {
	case 0:
		return int32(g.n(10))
	case 1:
		return -int32(g.n(100)) - 1
	case 2:
		return math.MaxInt32
	case 3:
		return math.MinInt32
	}
	return int32(g.n(1 << 30))
}

// ---- types ----

const (
	Null = pb.Type_NULLABILITY_NULLABLE
	Req  = pb.Type_NULLABILITY_REQUIRED
)

func (g *G) nullab() pb.Type_Nullability {
	if g.p(1, 3) {
		return Null
	}
	return Req
}

// variation returns a declared type variation reference or 0.
func (g *G) variation() uint32 {
	if g.NoVariations || len(g.Cat.Variations) == 0 || !g.p(1, 6) {
		return 0
	}
	g.feat("type_variation")
	v := g.Cat.Variations[g.n(len(g.Cat.Variations))]
	return g.Refs.Ref("variation", v.URN, v.Name)
}

// NScalarKinds is the number of scalar kinds of ScalarType.
const NScalarKinds = 24

// Bool returns a boolean type.
func Bool(n pb.Type_Nullability) *pb.Type {
	return &pb.Type{Kind: &pb.Type_Bool{Bool: &pb.Type_Boolean{Nullability: n}}}
}

// I64 returns an i64 type.
func I64(n pb.Type_Nullability) *pb.Type {
	return &pb.Type{Kind: &pb.Type_I64_{I64: &pb.Type_I64{Nullability: n}}}
}

// Str returns a string type.
func Str(n pb.Type_Nullability) *pb.Type {
	return &pb.Type{Kind: &pb.Type_String_{String_: &pb.Type_String{Nullability: n}}}
}

// ScalarKind builds the scalar type of kind k.
func (g *G) ScalarKind(k int, n pb.Type_Nullability, v uint32) *pb.Type {
	switch k {
	case 0:
		return &pb.Type{Kind: &pb.Type_I64_{I64: &pb.Type_I64{Nullability: n, TypeVariationReference: v}}}
	case 1:
		return &pb.Type{Kind: &pb.Type_String_{String_: &pb.Type_String{Nullability: n, TypeVariationReference: v}}}
	case 2:
		return &pb.Type{Kind: &pb.Type_Bool{Bool: &pb.Type_Boolean{Nullability: n, TypeVariationReference: v}}}
	case 3:
		return &pb.Type{Kind: &pb.Type_I8_{I8: &pb.Type_I8{Nullability: n, TypeVariationReference: v}}}
	case 4:
		return &pb.Type{Kind: &pb.Type_I16_{I16: &pb.Type_I16{Nullability: n, TypeVariationReference: v}}}
	case 5:
		return &pb.Type{Kind: &pb.Type_I32_{I32: &pb.Type_I32{Nullability: n, TypeVariationReference: v}}}
	case 6:
		return &pb.Type{Kind: &pb.Type_Fp32{Fp32: &pb.Type_FP32{Nullability: n, TypeVariationReference: v}}}
	case 7:
		return &pb.Type{Kind: &pb.Type_Fp64{Fp64: &pb.Type_FP64{Nullability: n, TypeVariationReference: v}}}
	case 8:
		return &pb.Type{Kind: &pb.Type_Binary_{Binary: &pb.Type_Binary{Nullability: n, TypeVariationReference: v}}}
	case 9:
		return &pb.Type{Kind: &pb.Type_Timestamp_{Timestamp: &pb.Type_Timestamp{Nullability: n, TypeVariationReference: v}}}
	case 10:
		return &pb.Type{Kind: &pb.Type_Date_{Date: &pb.Type_Date{Nullability: n, TypeVariationReference: v}}}
	case 11:
		return &pb.Type{Kind: &pb.Type_Time_{Time: &pb.Type_Time{Nullability: n, TypeVariationReference: v}}}
	case 12:
		return &pb.Type{Kind: &pb.Type_IntervalYear_{IntervalYear: &pb.Type_IntervalYear{Nullability: n, TypeVariationReference: v}}}
	case 13:
		p := int32(g.n(10))
		return &pb.Type{Kind: &pb.Type_IntervalDay_{IntervalDay: &pb.Type_IntervalDay{Nullability: n, TypeVariationReference: v, Precision: &p}}}
	case 14:
		return &pb.Type{Kind: &pb.Type_TimestampTz{TimestampTz: &pb.Type_TimestampTZ{Nullability: n, TypeVariationReference: v}}}
	case 15:
		return &pb.Type{Kind: &pb.Type_Uuid{Uuid: &pb.Type_UUID{Nullability: n, TypeVariationReference: v}}}
	case 16:
		return &pb.Type{Kind: &pb.Type_FixedChar_{FixedChar: &pb.Type_FixedChar{Nullability: n, TypeVariationReference: v, Length: g.shortLength(20)}}}
	case 17:
		return &pb.Type{Kind: &pb.Type_Varchar{Varchar: &pb.Type_VarChar{Nullability: n, TypeVariationReference: v, Length: g.length(300)}}}
	case 18:
		return &pb.Type{Kind: &pb.Type_FixedBinary_{FixedBinary: &pb.Type_FixedBinary{Nullability: n, TypeVariationReference: v, Length: g.shortLength(20)}}}
	case 19:
		p := 1 + g.n(38)
		return &pb.Type{Kind: &pb.Type_Decimal_{Decimal: &pb.Type_Decimal{Nullability: n, TypeVariationReference: v, Precision: int32(p), Scale: int32(g.n(p + 1))}}}
	case 20:
		return &pb.Type{Kind: &pb.Type_PrecisionTimestamp_{PrecisionTimestamp: &pb.Type_PrecisionTimestamp{Nullability: n, TypeVariationReference: v, Precision: int32(g.n(10))}}}
	case 21:
		return &pb.Type{Kind: &pb.Type_PrecisionTimestampTz{PrecisionTimestampTz: &pb.Type_PrecisionTimestampTZ{Nullability: n, TypeVariationReference: v, Precision: int32(g.n(10))}}}
	case 22:
		return &pb.Type{Kind: &pb.Type_PrecisionTime_{PrecisionTime: &pb.Type_PrecisionTime{Nullability: n, TypeVariationReference: v, Precision: int32(g.n(10))}}}
	}
	return &pb.Type{Kind: &pb.Type_IntervalCompound_{IntervalCompound: &pb.Type_IntervalCompound{Nullability: n, TypeVariationReference: v, Precision: int32(g.n(10))}}}
}

// Type generates any type.
func (g *G) Type(depth int) *pb.Type {
	n := g.nullab()
	if g.p(1, 25) {
		n = pb.Type_NULLABILITY_UNSPECIFIED
	}
	return g.typeN(depth, n)
}

func (g *G) typeN(depth int, n pb.Type_Nullability) *pb.Type {
	if depth > 0 && g.p(1, 3) {
		switch g.n(5) {
		case 0:
			g.feat("t_struct")
			return g.StructType(depth-1, n, g.n(4))
		case 1:
			g.feat("t_list")
			return &pb.Type{Kind: &pb.Type_List_{List: &pb.Type_List{Nullability: n, TypeVariationReference: g.variation(), Type: g.Type(depth - 1)}}}
		case 2:
			g.feat("t_map")
			return &pb.Type{Kind: &pb.Type_Map_{Map: &pb.Type_Map{Nullability: n, TypeVariationReference: g.variation(), Key: g.keyType(), Value: g.Type(depth - 1)}}}
		case 3:
			if len(g.Cat.Types) > 0 {
				g.feat("t_udt")
				return g.UDT(depth-1, n)
			}
		case 4:
			g.feat("t_func")
			f := &pb.Type_Func{Nullability: n, ReturnType: g.Type(depth - 1)}
			for i := g.cnt(3); i > 0; i-- {
				f.ParameterTypes = append(f.ParameterTypes, g.Type(depth-1))
			}
			return &pb.Type{Kind: &pb.Type_Func_{Func: f}}
		}
	}
	return g.ScalarKind(g.n(NScalarKinds), n, g.variation())
}

// StructType builds a struct of k fields.
func (g *G) StructType(depth int, n pb.Type_Nullability, k int) *pb.Type {
	s := &pb.Type_Struct{Nullability: n, TypeVariationReference: g.variation()}
	for i := 0; i < k; i++ {
		s.Types = append(s.Types, g.Type(depth))
	}
	return &pb.Type{Kind: &pb.Type_Struct_{Struct: s}}
}

// UDT builds a user-defined type with parameters.
func (g *G) UDT(depth int, n pb.Type_Nullability) *pb.Type {
	it := g.Cat.Types[g.n(len(g.Cat.Types))]
	u := &pb.Type_UserDefined{Nullability: n, TypeVariationReference: g.variation(), TypeReference: g.Refs.Ref("type", it.URN, it.Name)}
	for i := g.cnt(4) - 1; i > 0; i-- {
		u.TypeParameters = append(u.TypeParameters, g.typeParam(depth))
	}
	return &pb.Type{Kind: &pb.Type_UserDefined_{UserDefined: u}}
}

func (g *G) typeParam(depth int) *pb.Type_Parameter {
	switch g.n(6) {
	case 0:
		return &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Integer{Integer: g.i64()}}
	case 1:
		return &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Boolean{Boolean: g.p(1, 2)}}
	case 2:
		return &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Enum{Enum: g.word()}}
	case 3:
		return &pb.Type_Parameter{Parameter: &pb.Type_Parameter_String_{String_: g.word()}}
	case 4:
		return &pb.Type_Parameter{Parameter: &pb.Type_Parameter_Null{Null: &emptypb.Empty{}}}
	}
	if depth < 0 {
		depth = 0
	}
	return &pb.Type_Parameter{Parameter: &pb.Type_Parameter_DataType{DataType: g.Type(depth)}}
}

func (g *G) keyType() *pb.Type {
	return g.ScalarKind([]int{1, 0, 5, 10, 17, 2, 15}[g.n(7)], Req, 0)
}

// SetNull returns a copy of t with another nullability.
func SetNull(t *pb.Type, n pb.Type_Nullability) *pb.Type {
	c := proto.Clone(t).(*pb.Type)
	m := c.ProtoReflect()
	fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("kind"))
	k := m.Mutable(fd).Message()
	k.Set(k.Descriptor().Fields().ByName("nullability"), protoEnum(n))
	return c
}

// NullOf returns the nullability of t.
func NullOf(t *pb.Type) pb.Type_Nullability {
	m := t.ProtoReflect()
	fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("kind"))
	k := m.Get(fd).Message()
	return pb.Type_Nullability(k.Get(k.Descriptor().Fields().ByName("nullability")).Enum())
}

func varOf(t *pb.Type) uint32 {
	m := t.ProtoReflect()
	fd := m.WhichOneof(m.Descriptor().Oneofs().ByName("kind"))
	k := m.Get(fd).Message()
	f := k.Descriptor().Fields().ByName("type_variation_reference")
	if f == nil {
		return 0
	}
	return uint32(k.Get(f).Uint())
}

// ---- literals ----

func (g *G) str(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + g.n(26))
	}
	return string(b)
}

func (g *G) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.n(256))
	}
	return b
}

// Any builds an Any value.
func (g *G) Any() *anypb.Any {
	var m proto.Message
	switch g.n(4) {
	case 0:
		m = wrapperspb.Int64(g.i64())
	case 1:
		m = wrapperspb.String(g.word())
	case 2:
		m = wrapperspb.Bytes(g.bytes(g.n(6)))
	default:
		return &anypb.Any{TypeUrl: "type.sim/unknown." + g.str(3), Value: g.bytes(1 + g.n(9))}
	}
	a, _ := anypb.New(m)
	return a
}

// AdvExt builds an advanced extension, possibly nil.
func (g *G) AdvExt(num, den int) *extpb.AdvancedExtension {
	if !g.p(num, den) {
		return nil
	}
	g.feat("advanced_extension")
	a := &extpb.AdvancedExtension{}
	for i := g.cnt(3); i > 0; i-- {
		a.Optimization = append(a.Optimization, g.Any())
	}
	if g.p(1, 2) {
		a.Enhancement = g.Any()
	}
	return a
}

// NullLit builds a typed null.
func NullLit(t *pb.Type) *pb.Expression_Literal {
	return &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Null{Null: t}, Nullable: true, TypeVariationReference: varOf(t)}
}

// Literal builds a literal whose type is t.  ok is false when no non-null
// literal of that type exists.
func (g *G) Literal(t *pb.Type, depth int) (*pb.Expression_Literal, bool) {
	n := NullOf(t)
	if n == pb.Type_NULLABILITY_UNSPECIFIED {
		return nil, false
	}
	l := &pb.Expression_Literal{Nullable: n == Null, TypeVariationReference: varOf(t)}
	switch k := t.Kind.(type) {
	case *pb.Type_Bool:
		l.LiteralType = &pb.Expression_Literal_Boolean{Boolean: g.p(1, 2)}
	case *pb.Type_I8_:
		l.LiteralType = &pb.Expression_Literal_I8{I8: int32(g.n(256) - 128)}
	case *pb.Type_I16_:
		l.LiteralType = &pb.Expression_Literal_I16{I16: int32(g.n(65536) - 32768)}
	case *pb.Type_I32_:
		l.LiteralType = &pb.Expression_Literal_I32{I32: g.i32()}
	case *pb.Type_I64_:
		l.LiteralType = &pb.Expression_Literal_I64{I64: g.i64()}
	case *pb.Type_Fp32:
		l.LiteralType = &pb.Expression_Literal_Fp32{Fp32: []float32{0, 1.5, -2.25, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), 3e-9}[g.n(7)]}
	case *pb.Type_Fp64:
		l.LiteralType = &pb.Expression_Literal_Fp64{Fp64: []float64{0, 1.5, -2.25, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(-1), 3e-19}[g.n(7)]}
	case *pb.Type_String_:
		l.LiteralType = &pb.Expression_Literal_String_{String_: g.word()}
	case *pb.Type_Binary_:
		l.LiteralType = &pb.Expression_Literal_Binary{Binary: g.bytes(g.n(9))}
	case *pb.Type_Timestamp_:
		l.LiteralType = &pb.Expression_Literal_Timestamp{Timestamp: g.i64()}
	case *pb.Type_TimestampTz:
		l.LiteralType = &pb.Expression_Literal_TimestampTz{TimestampTz: g.i64()}
	case *pb.Type_Date_:
		l.LiteralType = &pb.Expression_Literal_Date{Date: g.edge32(int32(g.n(100000) - 50000))}
	case *pb.Type_Time_:
		l.LiteralType = &pb.Expression_Literal_Time{Time: g.edge64(int64(g.n(1<<30))*80, 0, 86_399_999_999)}
	case *pb.Type_IntervalYear_:
		l.LiteralType = &pb.Expression_Literal_IntervalYearToMonth_{IntervalYearToMonth: g.ytm()}
	case *pb.Type_IntervalDay_:
		l.LiteralType = &pb.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: g.dts(k.IntervalDay.GetPrecision())}
		if d := l.GetIntervalDayToSecond(); k.IntervalDay.GetPrecision() == 6 && !g.API && g.p(1, 4) {
			// the form of earlier releases
			d.PrecisionMode = &pb.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: int32(d.Subseconds)}
			d.Subseconds = 0
		}
	case *pb.Type_IntervalCompound_:
		c := &pb.Expression_Literal_IntervalCompound{IntervalYearToMonth: g.ytm(), IntervalDayToSecond: g.dts(k.IntervalCompound.Precision)}
		if g.p(1, 4) {
			c.IntervalDayToSecond.Days, c.IntervalDayToSecond.Seconds, c.IntervalDayToSecond.Subseconds = 0, 0, 0
		}
		if c.IntervalYearToMonth.Years == 0 && c.IntervalYearToMonth.Months == 0 {
			c.IntervalYearToMonth = nil
		}
		if d := c.IntervalDayToSecond; d.Days == 0 && d.Seconds == 0 && d.Subseconds == 0 && k.IntervalCompound.Precision == 0 {
			c.IntervalDayToSecond = nil
		}
		l.LiteralType = &pb.Expression_Literal_IntervalCompound_{IntervalCompound: c}
	case *pb.Type_Uuid:
		l.LiteralType = &pb.Expression_Literal_Uuid{Uuid: g.bytes(16)}
	case *pb.Type_FixedChar_:
		l.LiteralType = &pb.Expression_Literal_FixedChar{FixedChar: g.str(int(k.FixedChar.Length))}
	case *pb.Type_Varchar:
		m := int(k.Varchar.Length)
		if m > 12 {
			m = 12
		}
		l.LiteralType = &pb.Expression_Literal_VarChar_{VarChar: &pb.Expression_Literal_VarChar{Length: uint32(k.Varchar.Length), Value: g.str(g.n(m + 1))}}
	case *pb.Type_FixedBinary_:
		l.LiteralType = &pb.Expression_Literal_FixedBinary{FixedBinary: g.bytes(int(k.FixedBinary.Length))}
	case *pb.Type_Decimal_:
		v := make([]byte, 16)
		switch g.n(4) {
		case 0:
			v[0] = byte(g.n(256))
		case 3:
			copy(v, g.bytes(16))
			if k.Decimal.Precision < 38 {
				clear(v[7:])
			}
		case 1:
			for i := range v {
				v[i] = 0xff
			}
			v[0] = byte(g.n(256))
		default:
			copy(v, g.bytes(7))
		}
		l.LiteralType = &pb.Expression_Literal_Decimal_{Decimal: &pb.Expression_Literal_Decimal{Value: v, Precision: k.Decimal.Precision, Scale: k.Decimal.Scale}}
	case *pb.Type_PrecisionTime_:
		l.LiteralType = &pb.Expression_Literal_PrecisionTime_{PrecisionTime: &pb.Expression_Literal_PrecisionTime{Precision: k.PrecisionTime.Precision, Value: g.edge64(int64(g.n(1<<30)), 0, math.MaxInt64)}}
	case *pb.Type_PrecisionTimestamp_:
		l.LiteralType = &pb.Expression_Literal_PrecisionTimestamp_{PrecisionTimestamp: &pb.Expression_Literal_PrecisionTimestamp{Precision: k.PrecisionTimestamp.Precision, Value: g.ptval()}}
	case *pb.Type_PrecisionTimestampTz:
		l.LiteralType = &pb.Expression_Literal_PrecisionTimestampTz{PrecisionTimestampTz: &pb.Expression_Literal_PrecisionTimestamp{Precision: k.PrecisionTimestampTz.Precision, Value: g.ptval()}}
	case *pb.Type_Struct_:
		s := &pb.Expression_Literal_Struct{}
		for _, ft := range k.Struct.Types {
			f, ok := g.Literal(ft, depth-1)
			if !ok {
				if NullOf(ft) == Req {
					return nil, false
				}
				f = NullLit(ft)
			}
			s.Fields = append(s.Fields, f)
		}
		l.LiteralType = &pb.Expression_Literal_Struct_{Struct: s}
	case *pb.Type_List_:
		c := g.cnt(3)
		if _, ok := g.Literal(k.List.Type, 0); !ok {
			c = 0
		}
		if c == 0 {
			g.feat("empty_list")
			l.LiteralType = &pb.Expression_Literal_EmptyList{EmptyList: &pb.Type_List{Type: k.List.Type, Nullability: n, TypeVariationReference: k.List.TypeVariationReference}}
			break
		}
		s := &pb.Expression_Literal_List{}
		for ; c > 0; c-- {
			f, ok := g.Literal(k.List.Type, depth-1)
			if !ok {
				return nil, false
			}
			s.Values = append(s.Values, f)
		}
		l.LiteralType = &pb.Expression_Literal_List_{List: s}
	case *pb.Type_Map_:
		c := g.cnt(3)
		if _, ok := g.Literal(k.Map.Value, 0); !ok {
			c = 0
		}
		if c == 0 {
			g.feat("empty_map")
			l.LiteralType = &pb.Expression_Literal_EmptyMap{EmptyMap: &pb.Type_Map{Key: k.Map.Key, Value: k.Map.Value, Nullability: n, TypeVariationReference: k.Map.TypeVariationReference}}
			break
		}
		s := &pb.Expression_Literal_Map{}
		for ; c > 0; c-- {
			kk, ok1 := g.Literal(k.Map.Key, depth-1)
			v, ok2 := g.Literal(k.Map.Value, depth-1)
			if !ok1 || !ok2 {
				return nil, false
			}
			s.KeyValues = append(s.KeyValues, &pb.Expression_Literal_Map_KeyValue{Key: kk, Value: v})
		}
		l.LiteralType = &pb.Expression_Literal_Map_{Map: s}
	case *pb.Type_UserDefined_:
		u := &pb.Expression_Literal_UserDefined{TypeAnchorType: &pb.Expression_Literal_UserDefined_TypeReference{TypeReference: k.UserDefined.TypeReference}, TypeParameters: k.UserDefined.TypeParameters}
		if g.p(1, 2) {
			u.Val = &pb.Expression_Literal_UserDefined_Value{Value: g.Any()}
		} else {
			s := &pb.Expression_Literal_Struct{}
			for i := g.cnt(3); i > 0; i-- {
				f, _ := g.Literal(g.ScalarKind(g.n(12), Req, 0), 0)
				s.Fields = append(s.Fields, f)
			}
			u.Val = &pb.Expression_Literal_UserDefined_Struct{Struct: s}
		}
		l.LiteralType = &pb.Expression_Literal_UserDefined_{UserDefined: u}
	default:
		return nil, false
	}
	return l, true
}

func (g *G) ptval() int64 {
	switch g.n(4) {
	case 0:
		return int64(g.n(100))
	case 1:
		return -int64(g.n(1<<30)) - 1
	case 2:
		return int64(g.n(1<<30)) << 20
	}
	return g.edge64(int64(g.n(1<<30)), math.MinInt64, math.MaxInt64)
}

// edge32 and edge64 put the ends of the range in place of x now and then.
func (g *G) edge32(x int32) int32 {
	switch g.n(20) {
	case 18:
		return math.MinInt32
	case 19:
		return math.MaxInt32
	}
	return x
}

func (g *G) edge64(x, lo, hi int64) int64 {
	switch g.n(16) {
	case 14:
		return lo
	case 15:
		return hi
	}
	return x
}

// orZero draws below n, with the middle, which stands for zero, more often.
func (g *G) orZero(n int) int {
	if g.p(1, 5) {
		return n / 2
	}
	return g.n(n)
}

// length is the length of a character or binary type.
func (g *G) length(max int) int32 {
	if g.p(1, 20) {
		return math.MaxInt32 - int32(g.n(2))
	}
	return int32(1 + g.n(max))
}

func (g *G) shortLength(max int) int32 {
	if g.p(1, 20) {
		return int32(1 + g.n(400))
	}
	return int32(1 + g.n(max))
}

func (g *G) ytm() *pb.Expression_Literal_IntervalYearToMonth {
	return &pb.Expression_Literal_IntervalYearToMonth{Years: []int32{int32(g.orZero(200) - 100), int32(g.n(20001) - 10000)}[g.n(8)/7], Months: int32(g.orZero(24) - 12)}
}

func (g *G) dts(p int32) *pb.Expression_Literal_IntervalDayToSecond {
	max := 1
	for i := int32(0); i < p; i++ {
		max *= 10
	}
	return &pb.Expression_Literal_IntervalDayToSecond{Days: []int32{int32(g.orZero(2000) - 1000), int32(g.n(7300001) - 3650000)}[g.n(8)/7], Seconds: int32(g.orZero(200000) - 100000), Subseconds: int64(g.n(max)),
		PrecisionMode: &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: p}}
}
