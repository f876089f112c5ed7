From 463d7ec77624287a2a62c3ff35fdbf308663d02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:18 +0000
Subject: [PATCH 01/41] fix: sort extension declarations of each kind among
 themselves

The second and third sort in set.ToProto sorted a sub-slice but compared
elements of the whole slice, so declarations of mixed kinds came out in map
order, and a set with types and type variations could panic.
---
 extensions/extension_mgr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 7eaa25a..3cb8071 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -422,7 +422,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	typeDecls := decls[typesCount:]
 	sort.Slice(typeDecls, func(i, j int) bool {
-		return decls[i].GetExtensionTypeVariation().TypeVariationAnchor < decls[j].GetExtensionTypeVariation().TypeVariationAnchor
+		return typeDecls[i].GetExtensionTypeVariation().TypeVariationAnchor < typeDecls[j].GetExtensionTypeVariation().TypeVariationAnchor
 	})
 
 	typeVarCount := len(decls)
@@ -440,7 +440,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	typeVarDecls := decls[typeVarCount:]
 	sort.Slice(typeVarDecls, func(i, j int) bool {
-		return decls[i].GetExtensionFunction().GetFunctionAnchor() < decls[j].GetExtensionFunction().GetFunctionAnchor()
+		return typeVarDecls[i].GetExtensionFunction().GetFunctionAnchor() < typeVarDecls[j].GetExtensionFunction().GetFunctionAnchor()
 	})
 
 	return urns, decls
-- 
2.43.0


From fb4621db8f3361fb7dce8ae4b644a53f25ffb219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 02/41] fix: never reuse an extension anchor that is already
 taken

Sets decoded from a plan keep the plan's anchors, which can be sparse or
arbitrary. Registering a further function, type or type variation used the
number of entries plus one without looking, which could overwrite a declared
item, and a taken URN anchor made registration panic.
---
 extensions/extension_mgr.go | 51 ++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 3cb8071..cbbd22b 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -511,11 +511,8 @@ func (e *set) DecodeType(anchor uint32) (id TypeID, ok bool) {
 func (e *set) GetTypeAnchor(id TypeID) uint32 {
 	a, ok := e.types[id]
 	if !ok {
-		_, err := e.addOrGetURN(id.URN)
-		if err != nil {
-			panic(err)
-		}
-		a = uint32(len(e.types)) + 1
+		e.addOrGetURN(id.URN)
+		a = nextAnchor(e.typesMap)
 		e.encodeType(a, id)
 	}
 	return a
@@ -524,11 +521,8 @@ func (e *set) GetTypeAnchor(id TypeID) uint32 {
 func (e *set) GetFuncAnchor(id FunctionID) uint32 {
 	a, ok := e.funcs[id]
 	if !ok {
-		_, err := e.addOrGetURN(id.URN)
-		if err != nil {
-			panic(err)
-		}
-		a = uint32(len(e.funcs)) + 1
+		e.addOrGetURN(id.URN)
+		a = nextAnchor(e.funcMap)
 		e.encodeFunc(a, id)
 	}
 	return a
@@ -537,14 +531,10 @@ func (e *set) GetFuncAnchor(id FunctionID) uint32 {
 func (e *set) GetTypeVariationAnchor(id TypeVariationID) uint32 {
 	a, ok := e.typeVariations[id]
 	if !ok {
-		_, err := e.addOrGetURN(id.URN)
-		if err != nil {
-			panic(err)
-		}
-		// add 1 to the length to avoid an anchor of 0
-		// so that it's easier to tell when there is no
-		// type variation.
-		a = uint32(len(e.typeVariations)) + 1
+		e.addOrGetURN(id.URN)
+		// nextAnchor never returns 0, so that it's easier
+		// to tell when there is no type variation.
+		a = nextAnchor(e.typeVariationMap)
 		e.encodeTypeVariation(a, id)
 	}
 	return a
@@ -574,19 +564,28 @@ func (e *set) FindURN(urn string) (uint32, bool) {
 	return 0, false
 }
 
-func (e *set) addOrGetURN(urn string) (uint32, error) {
+func (e *set) addOrGetURN(urn string) uint32 {
 	for k, v := range e.urns {
 		if v == urn {
-			return k, nil
+			return k
 		}
 	}
-	sz := uint32(len(e.urns)) + 1
-	if _, ok := e.urns[sz]; ok {
-		return 0, fmt.Errorf("%w: URN anchor %d already exists", substraitgo.ErrKeyExists, sz)
-	}
+	anchor := nextAnchor(e.urns)
+	e.urns[anchor] = urn
+	return anchor
+}
 
-	e.urns[sz] = urn
-	return sz, nil
+// nextAnchor returns the anchor for a new entry of m: one past the number of
+// entries or, when that anchor is already taken (the anchors of a decoded plan
+// can be arbitrary), the first free one after it. It never returns 0.
+func nextAnchor[V any](m map[uint32]V) uint32 {
+	anchor := uint32(len(m)) + 1
+	for {
+		if _, taken := m[anchor]; !taken && anchor != 0 {
+			return anchor
+		}
+		anchor++
+	}
 }
 
 type TopLevel interface {
-- 
2.43.0


From 02a468786bf1b29bc4c8d58dcca6253bd3a3987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 03/41] fix: resolve a URN declared twice to the same anchor
 every time

A decoded plan may declare one URN under several anchors. Which of them the
set used depended on map iteration order, so encoding the same plan twice
could give different messages.
---
 extensions/extension_mgr.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index cbbd22b..fc66142 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -380,7 +380,9 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 
 	urns := make([]*extensions.SimpleExtensionURN, 0, len(e.urns))
 	for anchor, urn := range e.urns {
-		urnBackRef[urn] = anchor
+		if ref, ok := urnBackRef[urn]; !ok || anchor < ref {
+			urnBackRef[urn] = anchor
+		}
 		urns = append(urns, &extensions.SimpleExtensionURN{
 			ExtensionUrnAnchor: anchor,
 			Urn:                urn,
@@ -555,20 +557,20 @@ func (e *set) encodeFunc(anchor uint32, id FunctionID) {
 	e.funcs[id] = anchor
 }
 
-func (e *set) FindURN(urn string) (uint32, bool) {
+// FindURN returns the anchor of urn. If a decoded plan declares the URN more
+// than once, that is its lowest anchor.
+func (e *set) FindURN(urn string) (anchor uint32, found bool) {
 	for k, v := range e.urns {
-		if v == urn {
-			return k, true
+		if v == urn && (!found || k < anchor) {
+			anchor, found = k, true
 		}
 	}
-	return 0, false
+	return anchor, found
 }
 
 func (e *set) addOrGetURN(urn string) uint32 {
-	for k, v := range e.urns {
-		if v == urn {
-			return k
-		}
+	if anchor, ok := e.FindURN(urn); ok {
+		return anchor
 	}
 	anchor := nextAnchor(e.urns)
 	e.urns[anchor] = urn
-- 
2.43.0


From b1bc7e02b8f41ef002bbac5d77e597681e2283b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:00 +0000
Subject: [PATCH 04/41] fix: keep every anchor of an item that a plan declares
 more than once

Encoding a decoded set listed each item once, under its last anchor, although
the plan's expressions may refer to any of the declared anchors.
---
 extensions/extension_mgr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index fc66142..ab159c9 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -392,8 +392,8 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 	// Sort URN extensions by the anchor for consistent output
 	sort.Slice(urns, func(i, j int) bool { return urns[i].ExtensionUrnAnchor < urns[j].ExtensionUrnAnchor })
 
-	decls := make([]*extensions.SimpleExtensionDeclaration, 0, len(e.types)+len(e.typeVariations)+len(e.funcs))
-	for id, anchor := range e.types {
+	decls := make([]*extensions.SimpleExtensionDeclaration, 0, len(e.typesMap)+len(e.typeVariationMap)+len(e.funcMap))
+	for anchor, id := range e.typesMap {
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionType_{
 				ExtensionType: &extensions.SimpleExtensionDeclaration_ExtensionType{
@@ -410,7 +410,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 	})
 	typesCount := len(decls)
 
-	for id, anchor := range e.typeVariations {
+	for anchor, id := range e.typeVariationMap {
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionTypeVariation_{
 				ExtensionTypeVariation: &extensions.SimpleExtensionDeclaration_ExtensionTypeVariation{
@@ -428,7 +428,7 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 	})
 
 	typeVarCount := len(decls)
-	for id, anchor := range e.funcs {
+	for anchor, id := range e.funcMap {
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionFunction_{
 				ExtensionFunction: &extensions.SimpleExtensionDeclaration_ExtensionFunction{
-- 
2.43.0


From af16facc84fe3e17fe95d202b58ae4c0c4fe9a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 05/41] fix: encode interval types in every form the library
 produces them

---
 types/types.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/types/types.go b/types/types.go
index 3407436..fc1f0e4 100644
--- a/types/types.go
+++ b/types/types.go
@@ -738,13 +738,14 @@ func TypeToProto(t Type) *proto.Type {
 				Precision:              &precision,
 				Nullability:            proto.Type_Nullability(t.Nullability),
 				TypeVariationReference: t.TypeVariationRef}}}
+	case IntervalYearToMonthType:
+		return t.ToProto()
+	case *IntervalYearToMonthType:
+		return t.ToProto()
 	case IntervalCompoundType:
-		precision := t.precision.ToProtoVal()
-		return &proto.Type{Kind: &proto.Type_IntervalCompound_{
-			IntervalCompound: &proto.Type_IntervalCompound{
-				Precision:              precision,
-				Nullability:            proto.Type_Nullability(t.nullability),
-				TypeVariationReference: t.typeVariationRef}}}
+		return t.ToProto()
+	case *IntervalCompoundType:
+		return t.ToProto()
 	case *UUIDType:
 		return &proto.Type{Kind: &proto.Type_Uuid{
 			Uuid: &proto.Type_UUID{
-- 
2.43.0


From 732cca2e8d1e914031bac400cf90a55670a1c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 06/41] fix: encode a null type parameter so that it survives
 decoding

---
 types/types.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/types/types.go b/types/types.go
index fc1f0e4..21828dd 100644
--- a/types/types.go
+++ b/types/types.go
@@ -14,6 +14,7 @@ import (
 	"cloud.google.com/go/civil"
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
+	"google.golang.org/protobuf/types/known/emptypb"
 )
 
 type Version = proto.Version
@@ -1474,11 +1475,6 @@ type TypeParam interface {
 	Equals(TypeParam) bool
 }
 
-// rather than creating a new one of these for every call ToProto which
-// will always be the same empty object we can just create this once
-// and return the same one every time.
-var nullTypeParam = &proto.Type_Parameter_Null{}
-
 // NullParameter is an explicitly null/unspecified parameter, to select
 // the default value (if any).
 type NullParameter struct{}
@@ -1489,7 +1485,8 @@ func (NullParameter) Equals(p TypeParam) bool {
 }
 
 func (NullParameter) ToProto() *proto.Type_Parameter {
-	return &proto.Type_Parameter{Parameter: nullTypeParam}
+	return &proto.Type_Parameter{Parameter: &proto.Type_Parameter_Null{
+		Null: &emptypb.Empty{}}}
 }
 
 // DataTypeParameter is like the i32 in LIST<i32>
-- 
2.43.0


From bc7d1cd5b150e740dfe7d20abc5f5641575305c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:09 +0000
Subject: [PATCH 07/41] fix: keep variation, precision and pre-epoch values of
 temporal literals when decoding

---
 expr/interval_compound_literal.go | 11 ++++++++---
 expr/interval_year_to_month.go    | 16 +++++++++-------
 expr/literals.go                  | 31 ++++++++++++++++++++++++-------
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/expr/interval_compound_literal.go b/expr/interval_compound_literal.go
index ec9790b..d6d830b 100644
--- a/expr/interval_compound_literal.go
+++ b/expr/interval_compound_literal.go
@@ -17,10 +17,12 @@ type IntervalCompoundLiteral struct {
 	SubSeconds         int64
 	SubSecondPrecision types.TimePrecision
 	Nullability        types.Nullability
+	TypeVariationRef   uint32
 }
 
 func (m IntervalCompoundLiteral) getType() types.Type {
-	return types.NewIntervalCompoundType().WithPrecision(m.SubSecondPrecision).WithNullability(m.Nullability)
+	return types.NewIntervalCompoundType().WithPrecision(m.SubSecondPrecision).
+		WithTypeVariationRef(m.TypeVariationRef).WithNullability(m.Nullability)
 }
 
 func (m IntervalCompoundLiteral) ToProtoLiteral() *proto.Expression_Literal {
@@ -35,7 +37,7 @@ func (m IntervalCompoundLiteral) ToProtoLiteral() *proto.Expression_Literal {
 		intrCompPB.IntervalYearToMonth = yearToMonthProto
 	}
 
-	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 {
+	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 || m.SubSecondPrecision != 0 {
 		dayToSecondProto := &proto.Expression_Literal_IntervalDayToSecond{
 			Days:          m.Days,
 			Seconds:       m.Seconds,
@@ -59,7 +61,10 @@ func (m IntervalCompoundLiteral) ToProto() *proto.Expression {
 }
 
 func intervalCompoundLiteralFromProto(l *proto.Expression_Literal) Literal {
-	icLiteral := IntervalCompoundLiteral{Nullability: getNullability(l.Nullable)}
+	icLiteral := IntervalCompoundLiteral{
+		Nullability:      getNullability(l.Nullable),
+		TypeVariationRef: l.TypeVariationReference,
+	}
 	yearToMonth := l.GetIntervalCompound().GetIntervalYearToMonth()
 	if yearToMonth != nil {
 		icLiteral.Years = yearToMonth.Years
diff --git a/expr/interval_year_to_month.go b/expr/interval_year_to_month.go
index 8006aa5..3464639 100644
--- a/expr/interval_year_to_month.go
+++ b/expr/interval_year_to_month.go
@@ -9,13 +9,14 @@ import (
 
 // IntervalYearToMonthLiteral implements Literal interface for interval year to month type
 type IntervalYearToMonthLiteral struct {
-	Years       int32
-	Months      int32
-	Nullability types.Nullability
+	Years            int32
+	Months           int32
+	Nullability      types.Nullability
+	TypeVariationRef uint32
 }
 
 func (m IntervalYearToMonthLiteral) getType() types.Type {
-	return types.NewIntervalYearToMonthType().WithNullability(m.Nullability)
+	return types.NewIntervalYearToMonthType().WithTypeVariationRef(m.TypeVariationRef).WithNullability(m.Nullability)
 }
 
 func (m IntervalYearToMonthLiteral) ToProtoLiteral() *proto.Expression_Literal {
@@ -40,9 +41,10 @@ func (m IntervalYearToMonthLiteral) ToProto() *proto.Expression {
 
 func intervalYearToMonthLiteralFromProto(l *proto.Expression_Literal) Literal {
 	return IntervalYearToMonthLiteral{
-		Years:       l.GetIntervalYearToMonth().Years,
-		Months:      l.GetIntervalYearToMonth().Months,
-		Nullability: getNullability(l.Nullable),
+		Years:            l.GetIntervalYearToMonth().Years,
+		Months:           l.GetIntervalYearToMonth().Months,
+		Nullability:      getNullability(l.Nullable),
+		TypeVariationRef: l.TypeVariationReference,
 	}
 }
 
diff --git a/expr/literals.go b/expr/literals.go
index f43e5cc..882a027 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1238,27 +1238,44 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if precTime.Value < 0 {
 			return nil
 		}
-		return NewPrecisionTimeLiteral(precTime.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTime.Value,
+			Type: &types.PrecisionTimeType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
+		}
 	case *proto.Expression_Literal_PrecisionTimestamp_:
 		precTimeStamp := lit.PrecisionTimestamp
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
 		}
-		return NewPrecisionTimestampLiteral(precTimeStamp.Value, precision, nullability)
 	case *proto.Expression_Literal_PrecisionTimestampTz:
 		precTimeStamp := lit.PrecisionTimestampTz
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampTzType{
+				PrecisionTimestampType: types.PrecisionTimestampType{
+					Precision:        precision,
+					Nullability:      nullability,
+					TypeVariationRef: l.TypeVariationReference,
+				},
+			},
 		}
-		return NewPrecisionTimestampTzLiteral(precTimeStamp.Value, precision, nullability)
 	case *proto.Expression_Literal_IntervalYearToMonth_:
 		return intervalYearToMonthLiteralFromProto(l)
 	case *proto.Expression_Literal_IntervalCompound_:
-- 
2.43.0


From 68c2d59c4a20eaf3c311de4a95683ed6ec70247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 08/41] fix: print subqueries without the memory address of
 their relation

---
 plan/subquery.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/plan/subquery.go b/plan/subquery.go
index 02516ec..048999e 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -89,7 +89,7 @@ func NewScalarSubquery(input Rel) *ScalarSubquery {
 func (s *ScalarSubquery) GetSubqueryType() string { return "scalar" }
 
 func (s *ScalarSubquery) String() string {
-	return fmt.Sprintf("SCALAR_SUBQUERY(%s)", s.Input)
+	return fmt.Sprintf("SCALAR_SUBQUERY(%s)", relString(s.Input))
 }
 
 func (s *ScalarSubquery) IsScalar() bool { return true }
@@ -167,7 +167,7 @@ func (s *InPredicateSubquery) String() string {
 		b.WriteByte(')')
 	}
 	b.WriteString(" IN (")
-	b.WriteString(fmt.Sprintf("%s", s.Haystack))
+	b.WriteString(relString(s.Haystack))
 	b.WriteByte(')')
 	return b.String()
 }
@@ -290,7 +290,7 @@ func (s *SetPredicateSubquery) String() string {
 	default:
 		opStr = "UNKNOWN"
 	}
-	return fmt.Sprintf("%s(%s)", opStr, s.Tuples)
+	return fmt.Sprintf("%s(%s)", opStr, relString(s.Tuples))
 }
 
 func (s *SetPredicateSubquery) IsScalar() bool { return true }
@@ -412,7 +412,7 @@ func (s *SetComparisonSubquery) String() string {
 		comparisonStr = "?"
 	}
 
-	return fmt.Sprintf("%s %s %s(%s)", s.Left, comparisonStr, reductionStr, s.Right)
+	return fmt.Sprintf("%s %s %s(%s)", s.Left, comparisonStr, reductionStr, relString(s.Right))
 }
 
 func (s *SetComparisonSubquery) IsScalar() bool {
@@ -483,6 +483,19 @@ func (s *SetComparisonSubquery) GetSubqueryType() string {
 	return "set_comparison"
 }
 
+// relString gives a short description of a relation which, unlike printing the
+// relation itself, does not depend on where it is located in memory.
+func relString(r Rel) string {
+	if r == nil {
+		return "<nil>"
+	}
+	if str, ok := r.(fmt.Stringer); ok {
+		return str.String()
+	}
+	schema := r.RecordType()
+	return fmt.Sprintf("%s %s", strings.TrimPrefix(fmt.Sprintf("%T", r), "*plan."), schema.String())
+}
+
 // TODO: Implement proper relation equality comparison
 // Currently using pointer equality as a temporary solution.
 // This should be replaced with proper deep equality comparison
-- 
2.43.0


From 0e88cd0a65ae27666feba3ceef1c23fc8109a6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 09/41] fix: keep create mode and advanced extension of a
 decoded write

---
 plan/plan.go      |  3 +++
 plan/relations.go | 13 ++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/plan/plan.go b/plan/plan.go
index 43fbb1b..9defea1 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -908,6 +908,9 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			op:          rel.Write.Op,
 			input:       input,
 			outputMode:  rel.Write.Output,
+			createMode:  rel.Write.CreateMode,
+
+			writeAdvExtension: rel.Write.AdvancedExtension,
 		}
 		if rel.Write.Common != nil {
 			out.fromProtoCommon(rel.Write.Common)
diff --git a/plan/relations.go b/plan/relations.go
index 4f501c6..4617d9d 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -2278,6 +2278,11 @@ type NamedTableWriteRel struct {
 	op          WriteOp
 	input       Rel
 	outputMode  OutputMode
+	createMode  proto.WriteRel_CreateMode
+
+	// advanced extension of the write itself, advExtension above is the one
+	// of the named table
+	writeAdvExtension *extensions.AdvancedExtension
 }
 
 func (wr *NamedTableWriteRel) directOutputSchema() types.RecordType {
@@ -2321,9 +2326,11 @@ func (wr *NamedTableWriteRel) ToProto() *proto.Rel {
 						AdvancedExtension: wr.advExtension,
 					},
 				},
-				TableSchema: wr.tableSchema.ToProto(),
-				Op:          wr.op,
-				Input:       wr.input.ToProto(),
+				TableSchema:       wr.tableSchema.ToProto(),
+				Op:                wr.op,
+				Input:             wr.input.ToProto(),
+				CreateMode:        wr.createMode,
+				AdvancedExtension: wr.writeAdvExtension,
 			},
 		},
 	}
-- 
2.43.0


From 62753412f1260380ca7cc2db74d7537dfedc18c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:49 +0000
Subject: [PATCH 10/41] fix: decode an absent relation common and an emit
 without fields

---
 plan/common.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plan/common.go b/plan/common.go
index 6890c0d..51ed772 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -132,11 +132,18 @@ type RelCommon struct {
 }
 
 func (rc *RelCommon) fromProtoCommon(c *proto.RelCommon) {
+	if c == nil {
+		return
+	}
 	rc.hint = c.Hint
 	rc.advExtension = c.AdvancedExtension
 
 	if emit, ok := c.GetEmitKind().(*proto.RelCommon_Emit_); ok {
-		rc.mapping = emit.Emit.OutputMapping
+		rc.mapping = emit.Emit.GetOutputMapping()
+		if rc.mapping == nil {
+			// an emit that keeps no field is not the same as no emit
+			rc.mapping = []int32{}
+		}
 	} else {
 		rc.mapping = nil
 	}
-- 
2.43.0


From d36db8daf0f29b80fafd9b0b630aaf62c8cc714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:02 +0000
Subject: [PATCH 11/41] fix: decode functions that are not in the collection
 under the reference they came with

---
 expr/expression.go     | 15 ++-------------
 expr/functions.go      | 17 +++++++++--------
 extensions/variants.go | 14 +++++++++++++-
 3 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 0ea24aa..9550a76 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -82,7 +82,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 		decl, ok := reg.LookupScalarFunction(et.ScalarFunction.FunctionReference)
 		if !ok {
-			return NewCustomScalarFunc(reg, extensions.NewScalarFuncVariant(id), types.TypeFromProto(et.ScalarFunction.OutputType), et.ScalarFunction.Options, args...)
+			decl = extensions.NewScalarFuncVariant(id)
 		}
 
 		return &ScalarFunction{
@@ -125,18 +125,7 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		}
 		decl, ok := reg.LookupWindowFunction(et.WindowFunction.FunctionReference)
 		if !ok {
-			fn, err := NewCustomWindowFunc(reg, extensions.NewWindowFuncVariant(id), types.TypeFromProto(et.WindowFunction.OutputType),
-				et.WindowFunction.Options, et.WindowFunction.Invocation, et.WindowFunction.Phase, args...)
-			if err != nil {
-				return nil, err
-			}
-
-			fn.Partitions = parts
-			fn.Sorts = sorts
-			fn.LowerBound = BoundFromProto(et.WindowFunction.LowerBound)
-			fn.BoundsType = et.WindowFunction.BoundsType
-			fn.UpperBound = BoundFromProto(et.WindowFunction.UpperBound)
-			return fn, nil
+			decl = extensions.NewWindowFuncVariant(id)
 		}
 
 		return &WindowFunction{
diff --git a/expr/functions.go b/expr/functions.go
index cd16c14..f9698f7 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -815,13 +815,14 @@ func NewCustomAggregateFunc(
 	}
 
 	return &AggregateFunction{
-		funcRef:    reg.GetFuncAnchor(v.ID()),
-		outputType: outputType,
-		options:    opts,
-		args:       args,
-		invocation: invoke,
-		phase:      phase,
-		Sorts:      sorts,
+		funcRef:     reg.GetFuncAnchor(v.ID()),
+		declaration: v,
+		outputType:  outputType,
+		options:     opts,
+		args:        args,
+		invocation:  invoke,
+		phase:       phase,
+		Sorts:       sorts,
 	}, nil
 }
 
@@ -853,7 +854,7 @@ func NewAggregateFunctionFromProto(
 	}
 	decl, ok := reg.LookupAggregateFunction(agg.FunctionReference)
 	if !ok {
-		return NewCustomAggregateFunc(reg, extensions.NewAggFuncVariant(id), types.TypeFromProto(agg.OutputType), agg.Options, agg.Invocation, agg.Phase, sorts, args...)
+		decl = extensions.NewAggFuncVariant(id)
 	}
 
 	return &AggregateFunction{
diff --git a/extensions/variants.go b/extensions/variants.go
index e8cb077..28946c8 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -270,6 +270,16 @@ func getFuncDefFromArgList(paramTypeList FuncParameterList) ([]types.FuncDefArgT
 	return out, nil
 }
 
+// opaqueArg is an argument of a function known only by its compound name, whose
+// type cannot be told from that name.
+type opaqueArg string
+
+func (o opaqueArg) toTypeString() string { return string(o) }
+func (opaqueArg) argumentMarker()        {}
+func (opaqueArg) GetTypeExpression() types.FuncDefArgType {
+	return &types.AnyType{Name: "any"}
+}
+
 func parseFuncName(compoundName string) (name string, args FuncParameterList) {
 	name, argsStr, _ := strings.Cut(compoundName, ":")
 	if len(argsStr) == 0 {
@@ -279,7 +289,9 @@ func parseFuncName(compoundName string) (name string, args FuncParameterList) {
 	for _, argStr := range splitArgs {
 		parsed, err := parser.ParseType(argStr)
 		if err != nil {
-			panic(err)
+			// not a type expression, such as the short name of a type
+			args = append(args, opaqueArg(argStr))
+			continue
 		}
 		exp := ValueArg{Name: name, Value: &parser.TypeExpression{ValueType: parsed}}
 		args = append(args, exp)
-- 
2.43.0


From fb3ee379899e7ae7a4df890ba28d0f49796942b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:36 +0000
Subject: [PATCH 12/41] fix: concatenate schemas without writing into the
 schema of an input

---
 plan/builders.go | 3 ++-
 types/types.go   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index b63af38..0e1e4b5 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -241,7 +241,8 @@ func (b *builder) UserDefinedType(nameSpace, typeName string, params ...types.Ty
 }
 
 func (b *builder) JoinedRecordFieldRef(left, right Rel, index int32) (*expr.FieldReference, error) {
-	baseTypes := append(left.RecordType().Types(), right.RecordType().Types()...)
+	joined := left.RecordType().Concat(right.RecordType())
+	baseTypes := joined.Types()
 	if index < 0 || index > int32(len(baseTypes)) {
 		return nil, fmt.Errorf("%w: cannot create field ref index %d, only %d fields to reference",
 			substraitgo.ErrInvalidArg, index, len(baseTypes))
diff --git a/types/types.go b/types/types.go
index 21828dd..ac05db2 100644
--- a/types/types.go
+++ b/types/types.go
@@ -7,6 +7,7 @@ package types
 import (
 	"fmt"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 	"time"
@@ -1811,7 +1812,7 @@ func (r RecordType) Types() []Type {
 }
 
 func (r RecordType) Concat(other RecordType) RecordType {
-	return RecordType{types: append(r.Types(), other.Types()...)}
+	return RecordType{types: slices.Concat(r.types, other.types)}
 }
 
 func (d Date) ToTimeString() string {
-- 
2.43.0


From 19d5720a77c828487d3a42afd200f0910e78486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 13/41] fix: WithNullability of an interval day type returns a
 changed copy

---
 types/interval_day_type.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/interval_day_type.go b/types/interval_day_type.go
index 0d0369b..3bf0401 100644
--- a/types/interval_day_type.go
+++ b/types/interval_day_type.go
@@ -19,8 +19,9 @@ func (m *IntervalDayType) GetPrecisionProtoVal() int32 {
 
 func (*IntervalDayType) isRootRef() {}
 func (m *IntervalDayType) WithNullability(n Nullability) Type {
-	m.Nullability = n
-	return m
+	out := *m
+	out.Nullability = n
+	return &out
 }
 
 func (m *IntervalDayType) GetType() Type                     { return m }
-- 
2.43.0


From 330383121c779b45ee24d144729364c2cf032435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 14/41] fix: WithPrecision of an interval compound type keeps
 its variation

---
 types/interval_compound_type.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/types/interval_compound_type.go b/types/interval_compound_type.go
index 0ff09d6..d729e85 100644
--- a/types/interval_compound_type.go
+++ b/types/interval_compound_type.go
@@ -37,10 +37,8 @@ func (m IntervalCompoundType) WithNullability(n Nullability) Type {
 }
 
 func (m IntervalCompoundType) WithPrecision(precision TimePrecision) IntervalCompoundType {
-	return IntervalCompoundType{
-		precision:   precision,
-		nullability: m.nullability,
-	}
+	m.precision = precision
+	return m
 }
 
 func (m IntervalCompoundType) GetType() Type                     { return m }
-- 
2.43.0


From 39d2f96c7703c491d126a4c8fb5504acfd822f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:08 +0000
Subject: [PATCH 15/41] fix: the type of a decoded interval year literal is the
 decoded interval year type

---
 expr/interval_year_to_month.go    |  2 +-
 types/interval_year_month_type.go |  7 ++++++-
 types/types.go                    | 14 ++++++++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/expr/interval_year_to_month.go b/expr/interval_year_to_month.go
index 3464639..21c0aaa 100644
--- a/expr/interval_year_to_month.go
+++ b/expr/interval_year_to_month.go
@@ -16,7 +16,7 @@ type IntervalYearToMonthLiteral struct {
 }
 
 func (m IntervalYearToMonthLiteral) getType() types.Type {
-	return types.NewIntervalYearToMonthType().WithTypeVariationRef(m.TypeVariationRef).WithNullability(m.Nullability)
+	return &types.IntervalYearType{Nullability: m.Nullability, TypeVariationRef: m.TypeVariationRef}
 }
 
 func (m IntervalYearToMonthLiteral) ToProtoLiteral() *proto.Expression_Literal {
diff --git a/types/interval_year_month_type.go b/types/interval_year_month_type.go
index 9300fd4..e54da5b 100644
--- a/types/interval_year_month_type.go
+++ b/types/interval_year_month_type.go
@@ -35,8 +35,13 @@ func (m IntervalYearToMonthType) GetType() Type                     { return m }
 func (m IntervalYearToMonthType) GetNullability() Nullability       { return m.nullability }
 func (m IntervalYearToMonthType) GetTypeVariationReference() uint32 { return m.typeVariationRef }
 func (m IntervalYearToMonthType) Equals(rhs Type) bool {
-	if o, ok := rhs.(IntervalYearToMonthType); ok {
+	switch o := rhs.(type) {
+	case IntervalYearToMonthType:
 		return o == m
+	case *IntervalYearToMonthType:
+		return *o == m
+	case *IntervalYearType:
+		return o.Nullability == m.nullability && o.TypeVariationRef == m.typeVariationRef
 	}
 	return false
 }
diff --git a/types/types.go b/types/types.go
index ac05db2..8c4ec9a 100644
--- a/types/types.go
+++ b/types/types.go
@@ -894,8 +894,14 @@ func (s *PrimitiveType[T]) GetType() Type                     { return s }
 func (s *PrimitiveType[T]) GetNullability() Nullability       { return s.Nullability }
 func (s *PrimitiveType[T]) GetTypeVariationReference() uint32 { return s.TypeVariationRef }
 func (s *PrimitiveType[T]) Equals(rhs Type) bool {
-	if o, ok := rhs.(*PrimitiveType[T]); ok {
+	switch o := rhs.(type) {
+	case *PrimitiveType[T]:
 		return *o == *s
+	case IntervalYearToMonthType, *IntervalYearToMonthType:
+		// the other representation of IntervalYearType
+		if iyear, ok := any(s).(*IntervalYearType); ok {
+			return o.Equals(iyear)
+		}
 	}
 
 	return false
@@ -946,8 +952,12 @@ func (s *PrimitiveType[T]) MatchWithNullability(ot Type) bool {
 }
 
 func (s *PrimitiveType[T]) MatchWithoutNullability(ot Type) bool {
-	if _, ok := ot.(*PrimitiveType[T]); ok {
+	switch ot.(type) {
+	case *PrimitiveType[T]:
 		return true
+	case IntervalYearToMonthType, *IntervalYearToMonthType:
+		_, ok := any(s).(*IntervalYearType)
+		return ok
 	}
 	return false
 }
-- 
2.43.0


From 42ad94745db15c2b52950a980670af0c500965bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 16/41] fix: compare the number of arguments and the bounds
 type of functions

---
 expr/functions.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expr/functions.go b/expr/functions.go
index f9698f7..94bc115 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -421,6 +421,8 @@ func (s *ScalarFunction) Equals(rhs Expression) bool {
 		return false
 	case !s.outputType.Equals(other.outputType):
 		return false
+	case len(s.args) != len(other.args):
+		return false
 	}
 
 	for i := range s.args {
@@ -651,7 +653,7 @@ func (w *WindowFunction) Equals(other Expression) bool {
 		return false
 	case w.phase != rhs.phase || w.invocation != rhs.invocation:
 		return false
-	case w.LowerBound != rhs.LowerBound || w.UpperBound != rhs.UpperBound:
+	case w.BoundsType != rhs.BoundsType || w.LowerBound != rhs.LowerBound || w.UpperBound != rhs.UpperBound:
 		return false
 	case !slices.EqualFunc(w.options, rhs.options, func(l, r *types.FunctionOption) bool {
 		return l.Name == r.Name && slices.Equal(l.Preference, r.Preference)
-- 
2.43.0


From 735f84dde350966ea4e99bbfd39e943ec7c13979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 17/41] fix: compare literals that hold messages by their
 content

---
 expr/interval_year_to_month.go |  7 ++++++-
 expr/literals.go               | 12 ++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/expr/interval_year_to_month.go b/expr/interval_year_to_month.go
index 21c0aaa..0b4457b 100644
--- a/expr/interval_year_to_month.go
+++ b/expr/interval_year_to_month.go
@@ -57,8 +57,13 @@ func (m IntervalYearToMonthLiteral) ValueString() string {
 	return fmt.Sprintf("%d years, %d months", m.Years, m.Months)
 }
 func (m IntervalYearToMonthLiteral) Equals(rhs Expression) bool {
-	if other, ok := rhs.(IntervalYearToMonthLiteral); ok {
+	switch other := rhs.(type) {
+	case IntervalYearToMonthLiteral:
 		return m.getType().Equals(other.GetType()) && (m == other)
+	case *ProtoLiteral:
+		// the form that NewLiteral gives an interval year literal
+		v, ok := other.Value.(*types.IntervalYearToMonth)
+		return ok && m.getType().Equals(other.Type) && m.Years == v.GetYears() && m.Months == v.GetMonths()
 	}
 	return false
 }
diff --git a/expr/literals.go b/expr/literals.go
index 882a027..f3785b0 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -9,7 +9,6 @@ import (
 	"encoding/hex"
 	"fmt"
 	"math"
-	"reflect"
 	"slices"
 	"strings"
 	"time"
@@ -18,6 +17,7 @@ import (
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/types"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
+	pb "google.golang.org/protobuf/proto"
 )
 
 // PrimitiveLiteralValue is a type constraint that represents
@@ -681,9 +681,13 @@ func (t *ProtoLiteral) ToProto() *proto.Expression {
 }
 
 func (t *ProtoLiteral) Equals(rhs Expression) bool {
-	if other, ok := rhs.(*ProtoLiteral); ok {
-		return t.Type.Equals(other.Type) &&
-			reflect.DeepEqual(t.Value, other.Value)
+	switch other := rhs.(type) {
+	case *ProtoLiteral:
+		// compare the encoded values: the Go structs of equal messages can differ
+		return t.Type.Equals(other.Type) && pb.Equal(t.ToProtoLiteral(), other.ToProtoLiteral())
+	case IntervalYearToMonthLiteral:
+		// the form that an interval year literal has after decoding
+		return other.Equals(t)
 	}
 	return false
 }
-- 
2.43.0


From 800fd0368191d0a76f578b2ac10f8898d61cb3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:49 +0000
Subject: [PATCH 18/41] fix: encode an extended expression that was built
 rather than decoded

---
 expr/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/expression.go b/expr/expression.go
index 9550a76..da770c5 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1700,7 +1700,7 @@ func ExtendedFromProto(ex *proto.ExtendedExpression, c *extensions.Collection) (
 }
 
 func (ex *Extended) ToProto() *proto.ExtendedExpression {
-	urns, decls := ex.reg.ExtensionsToProto()
+	urns, decls := ex.Extensions.ToProto(ex.reg.c)
 	refs := make([]*proto.ExpressionReference, len(ex.ReferredExpr))
 	for i, ref := range ex.ReferredExpr {
 		refs[i] = ref.ToProto()
-- 
2.43.0


From 623b7aa4e77e3ca021b717b681af998e4165d3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 19/41] fix: localize functions whose standard name is the
 local name of another function

---
 functions/dialect.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 3efba63..b22de0d 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -110,11 +110,7 @@ func makeLocalFunctionVariantMapAndSlice[T withID, V localFunctionVariant](
 	variantsMap := make(map[FunctionName][]V)
 	variantsSlice := make([]V, 0)
 	for _, dfi := range dialectFunctionInfos {
-		if _, nameAlreadyProcessed := variantsMap[LocalFunctionName(dfi.Name)]; nameAlreadyProcessed {
-			if _, ok := processedFunctions[dfi.ID]; !ok {
-				var invocationType V
-				return nil, fmt.Errorf("%w: no %s function variant found for '%s'", substraitgo.ErrInvalidDialect, invocationType.InvocationTypeName(), dfi.ID)
-			}
+		if processedFunctions[dfi.ID] {
 			continue
 		}
 
-- 
2.43.0


From c2febfcd76a4f1e0ca5222b786d036aaf6b89583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 20/41] fix: find functions a dialect supports both as
 aggregate and as window function by their kind

---
 functions/dialect.go         | 18 ++++++++++--------
 functions/local_functions.go | 34 +++++++++++++++-------------------
 functions/registries.go      |  1 +
 3 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index b22de0d..774860a 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -77,14 +77,16 @@ func (d *dialectImpl) LocalizeFunctionRegistry(registry FunctionRegistry) (Local
 	allVariants = appendVariants(allVariants, windowFunctions.variantsSlice)
 
 	return &localFunctionRegistryImpl{
-		dialect:              d,
-		scalarFunctions:      scalarFunctions.variantsMap,
-		aggregateFunctions:   aggregateFunctions.variantsMap,
-		windowFunctions:      windowFunctions.variantsMap,
-		allFunctions:         allVariants,
-		idToLocalFunctionMap: makeLocalFunctionVariantsMap(allVariants),
-		localTypeRegistry:    localTypeRegistry,
-		funcRegistry:         registry,
+		dialect:                  d,
+		scalarFunctions:          scalarFunctions.variantsMap,
+		aggregateFunctions:       aggregateFunctions.variantsMap,
+		windowFunctions:          windowFunctions.variantsMap,
+		allFunctions:             allVariants,
+		idToScalarFunctionMap:    makeLocalFunctionVariantsMap(scalarFunctions.variantsSlice),
+		idToAggregateFunctionMap: makeLocalFunctionVariantsMap(aggregateFunctions.variantsSlice),
+		idToWindowFunctionMap:    makeLocalFunctionVariantsMap(windowFunctions.variantsSlice),
+		localTypeRegistry:        localTypeRegistry,
+		funcRegistry:             registry,
 	}, nil
 }
 
diff --git a/functions/local_functions.go b/functions/local_functions.go
index 5213d43..7d564f3 100644
--- a/functions/local_functions.go
+++ b/functions/local_functions.go
@@ -17,22 +17,18 @@ type localFunctionRegistryImpl struct {
 
 	allFunctions []extensions.FunctionVariant
 
-	idToLocalFunctionMap map[extensions.FunctionID]localFunctionVariant
-	localTypeRegistry    LocalTypeRegistry
-	funcRegistry         FunctionRegistry
+	// A function can be supported both as an aggregate and as a window function under the same ID.
+	idToScalarFunctionMap    map[extensions.FunctionID]*LocalScalarFunctionVariant
+	idToAggregateFunctionMap map[extensions.FunctionID]*LocalAggregateFunctionVariant
+	idToWindowFunctionMap    map[extensions.FunctionID]*LocalWindowFunctionVariant
+	localTypeRegistry        LocalTypeRegistry
+	funcRegistry             FunctionRegistry
 }
 
-func makeLocalFunctionVariantsMap(functions []extensions.FunctionVariant) map[extensions.FunctionID]localFunctionVariant {
-	localFunctionVariants := make(map[extensions.FunctionID]localFunctionVariant)
+func makeLocalFunctionVariantsMap[V localFunctionVariant](functions []V) map[extensions.FunctionID]V {
+	localFunctionVariants := make(map[extensions.FunctionID]V)
 	for _, f := range functions {
-		switch variant := f.(type) {
-		case *LocalScalarFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		case *LocalAggregateFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		case *LocalWindowFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		}
+		localFunctionVariants[f.ID()] = f
 	}
 	return localFunctionVariants
 }
@@ -62,20 +58,20 @@ func (l *localFunctionRegistryImpl) GetWindowFunctions(name FunctionName, numArg
 }
 
 func (l *localFunctionRegistryImpl) GetScalarFunctionByInvocation(scalarFuncInvocation *expr.ScalarFunction) (*LocalScalarFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalScalarFunctionVariant](scalarFuncInvocation, l)
+	return getFunctionVariantByInvocation(scalarFuncInvocation, l.idToScalarFunctionMap, l)
 }
 
 func (l *localFunctionRegistryImpl) GetAggregateFunctionByInvocation(aggregateFuncInvocation *expr.AggregateFunction) (*LocalAggregateFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalAggregateFunctionVariant](aggregateFuncInvocation, l)
+	return getFunctionVariantByInvocation(aggregateFuncInvocation, l.idToAggregateFunctionMap, l)
 }
 
 func (l *localFunctionRegistryImpl) GetWindowFunctionByInvocation(windowFuncInvocation *expr.WindowFunction) (*LocalWindowFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalWindowFunctionVariant](windowFuncInvocation, l)
+	return getFunctionVariantByInvocation(windowFuncInvocation, l.idToWindowFunctionMap, l)
 }
 
-func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.FunctionInvocation, registry *localFunctionRegistryImpl) (V, error) {
+func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.FunctionInvocation, variants map[extensions.FunctionID]V, registry *localFunctionRegistryImpl) (V, error) {
 	var zeroV V
-	f, ok := registry.idToLocalFunctionMap[invocation.ID()]
+	f, ok := variants[invocation.ID()]
 	if !ok {
 		return zeroV, fmt.Errorf("function variant not found for function: %s", invocation.ID())
 	}
@@ -93,7 +89,7 @@ func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.Func
 			}
 		}
 	}
-	return f.(V), nil
+	return f, nil
 }
 
 var _ LocalFunctionRegistry = &localFunctionRegistryImpl{}
diff --git a/functions/registries.go b/functions/registries.go
index b366cc9..df18485 100644
--- a/functions/registries.go
+++ b/functions/registries.go
@@ -115,6 +115,7 @@ const (
 
 type localFunctionVariant interface {
 	extensions.FunctionVariant
+	ID() extensions.FunctionID
 	LocalName() string
 	Notation() FunctionNotation
 	IsOptionSupported(name string, value string) bool
-- 
2.43.0


From 7ff4a46e2cd30c824cf882812d27bcbb2a72a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 21/41] fix: create the type registry of a dialect once when
 first used concurrently

---
 functions/dialect.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 774860a..7d47c35 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"sync"
 
 	"github.com/creasty/defaults"
 	"github.com/goccy/go-yaml"
@@ -39,7 +40,9 @@ type dialectImpl struct {
 	localAggregateFunctions map[extensions.FunctionID]*dialectFunctionInfo
 	localWindowFunctions    map[extensions.FunctionID]*dialectFunctionInfo
 
-	localTypeRegistry LocalTypeRegistry
+	// localTypeRegistryMu guards localTypeRegistry, which is created on first use.
+	localTypeRegistryMu sync.Mutex
+	localTypeRegistry   LocalTypeRegistry
 }
 
 func (d *dialectImpl) Name() string {
@@ -160,6 +163,8 @@ func addToSliceMapWithLocalKey[V localFunctionVariant](m map[FunctionName][]V, v
 }
 
 func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, error) {
+	d.localTypeRegistryMu.Lock()
+	defer d.localTypeRegistryMu.Unlock()
 	if d.localTypeRegistry != nil {
 		return d.localTypeRegistry, nil
 	}
@@ -177,9 +182,6 @@ func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, err
 }
 
 func (d *dialectImpl) GetLocalTypeRegistry() (LocalTypeRegistry, error) {
-	if d.localTypeRegistry != nil {
-		return d.localTypeRegistry, nil
-	}
 	return d.LocalizeTypeRegistry(NewTypeRegistry())
 }
 
-- 
2.43.0


From a595ccc1e06d4ecb17440d4c98499b47885c807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 22/41] fix: resolve a local type name shared by several types
 to the same one every time

---
 functions/dialect.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 7d47c35..233790e 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -5,6 +5,7 @@ package functions
 import (
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 	"sync"
 
@@ -169,7 +170,15 @@ func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, err
 		return d.localTypeRegistry, nil
 	}
 	typeInfos := make([]typeInfo, 0, len(d.toLocalTypeMap))
-	for name, info := range d.toLocalTypeMap {
+	// Types can share a local name. Go through them in a fixed order so that it
+	// always denotes the same one.
+	names := make([]string, 0, len(d.toLocalTypeMap))
+	for name := range d.toLocalTypeMap {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		info := d.toLocalTypeMap[name]
 		// TODO use registry.GetTypeClasses
 		typ, err := getTypeFromBaseTypeName(name)
 		if err != nil {
-- 
2.43.0


From d087a03be753b25f30a0fa7b7d9da4bd53067004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 23/41] fix: list the options of a test case in the same order
 every time

---
 testcases/parser/nodes.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 6dfaae9..59297b0 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -231,8 +232,8 @@ func (tc *TestCase) getOptionString() string {
 	var b strings.Builder
 	b.WriteString(" [")
 	var options []string
-	for k, v := range tc.Options {
-		options = append(options, fmt.Sprintf("%s:%s", k, v))
+	for _, k := range tc.Options.names() {
+		options = append(options, fmt.Sprintf("%s:%s", k, tc.Options[k]))
 	}
 	b.WriteString(strings.Join(options, ","))
 	b.WriteByte(']')
@@ -244,10 +245,10 @@ func (tc *TestCase) GetFunctionOptions() []*types.FunctionOption {
 		return nil
 	}
 	funcOptions := make([]*types.FunctionOption, 0)
-	for key, value := range tc.Options {
+	for _, key := range tc.Options.names() {
 		funcOptions = append(funcOptions, &types.FunctionOption{
 			Name:       key,
-			Preference: []string{value},
+			Preference: []string{tc.Options[key]},
 		})
 	}
 	return funcOptions
@@ -446,6 +447,16 @@ type TestFile struct {
 
 type FuncOptions map[string]string
 
+// names returns the names of the options in a fixed order.
+func (o FuncOptions) names() []string {
+	names := make([]string, 0, len(o))
+	for name := range o {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 type AggregateArgument struct {
 	Argument    *CaseLiteral // This is used to store either a ScalarArgument or a ColumnArgument as List in the Value
 	TableName   string
-- 
2.43.0


From 57ce0179ba381a1045ae70a4b09abb79c1d485d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:10 +0000
Subject: [PATCH 24/41] fix: reject arguments of the wrong shape in an
 extension file instead of panicking

---
 extensions/simple_extension.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index 5a4a259..99afc9e 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -126,27 +126,38 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 			name, desc string
 		)
 		if n, ok := arg["name"]; ok {
-			name = n.(string)
+			if name, ok = n.(string); !ok {
+				return fmt.Errorf("%w: name of argument %d is not a string", substraitgo.ErrInvalidSimpleExtention, i)
+			}
 		}
 		if d, ok := arg["description"]; ok {
-			desc = d.(string)
+			if desc, ok = d.(string); !ok {
+				return fmt.Errorf("%w: description of argument %d is not a string", substraitgo.ErrInvalidSimpleExtention, i)
+			}
 		}
 
 		if opt, ok := arg["options"]; ok {
-			vals := opt.([]any)
+			vals, ok := opt.([]any)
+			if !ok {
+				return fmt.Errorf("%w: options of argument %d are not a list", substraitgo.ErrInvalidSimpleExtention, i)
+			}
 			values := make([]string, len(vals))
 			for j, v := range vals {
-				values[j] = v.(string)
+				if values[j], ok = v.(string); !ok {
+					return fmt.Errorf("%w: option %d of argument %d is not a string", substraitgo.ErrInvalidSimpleExtention, j, i)
+				}
 			}
 			(*a)[i] = EnumArg{
 				Name:        name,
 				Description: desc,
 				Options:     values,
 			}
-		} else if val, ok := arg["value"]; ok {
+		} else if val, ok := arg["value"]; ok && val != nil {
 			var constant bool
 			if c, ok := arg["constant"]; ok {
-				constant = c.(bool)
+				if constant, ok = c.(bool); !ok {
+					return fmt.Errorf("%w: constant of argument %d is not a boolean", substraitgo.ErrInvalidSimpleExtention, i)
+				}
 			}
 
 			arg := ValueArg{
@@ -169,7 +180,7 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 
 			(*a)[i] = arg
 
-		} else if typ, ok := arg["type"]; ok {
+		} else if typ, ok := arg["type"]; ok && typ != nil {
 			arg := TypeArg{
 				Name:        name,
 				Description: desc,
@@ -188,6 +199,8 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 			}
 
 			(*a)[i] = arg
+		} else {
+			return fmt.Errorf("%w: argument %d has neither options nor a value nor a type", substraitgo.ErrInvalidSimpleExtention, i)
 		}
 	}
 
-- 
2.43.0


From 5e72cb0177ac12741c2c5a0c21a0d97ee649cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 25/41] fix: translate types with a precision from their local
 and standard names

---
 functions/types.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/functions/types.go b/functions/types.go
index 1231556..836619e 100644
--- a/functions/types.go
+++ b/functions/types.go
@@ -3,6 +3,7 @@
 package functions
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 
@@ -98,6 +99,27 @@ func getTypeWithParameters(typ types.Type, parameters []int32) (types.Type, erro
 		case *types.VarCharType:
 			return &types.VarCharType{Length: parameters[0]}, nil
 		}
+	case *types.PrecisionTimeType, *types.PrecisionTimestampType, *types.PrecisionTimestampTzType, *types.IntervalDayType:
+		if len(parameters) == 0 {
+			return typ, nil
+		}
+		if len(parameters) != 1 {
+			return nil, substraitgo.ErrInvalidType
+		}
+		precision, err := types.ProtoToTimePrecision(parameters[0])
+		if err != nil {
+			return nil, fmt.Errorf("%w: %w", substraitgo.ErrInvalidType, err)
+		}
+		switch typ.(type) {
+		case *types.PrecisionTimeType:
+			return types.NewPrecisionTimeType(precision), nil
+		case *types.PrecisionTimestampType:
+			return types.NewPrecisionTimestampType(precision), nil
+		case *types.PrecisionTimestampTzType:
+			return types.NewPrecisionTimestampTzType(precision), nil
+		case *types.IntervalDayType:
+			return &types.IntervalDayType{Precision: precision}, nil
+		}
 	default:
 		if len(parameters) != 0 {
 			return nil, substraitgo.ErrInvalidType
-- 
2.43.0


From ede0080fa1ca4b5f427a4f5e25ca6c6f2b856ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:37 +0000
Subject: [PATCH 26/41] fix: report a panic of the YAML library on a malformed
 file as an error

---
 extensions/extension_mgr.go | 19 +++++++++++++++++--
 functions/dialect.go        | 21 ++++++++++++++++++---
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index ab159c9..d3daf5e 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -3,6 +3,7 @@
 package extensions
 
 import (
+	"bytes"
 	"embed"
 	"fmt"
 	"io"
@@ -196,12 +197,26 @@ func (c *Collection) init() {
 	}
 }
 
+// decode decodes the YAML in data. The YAML library panics on some malformed
+// documents, which is reported as an error.
+func (f *SimpleExtensionFile) decode(data []byte) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: malformed YAML: %v", substraitgo.ErrInvalidSimpleExtention, r)
+		}
+	}()
+	return yaml.NewDecoder(bytes.NewReader(data)).Decode(f)
+}
+
 func (c *Collection) Load(r io.Reader) error {
 	c.init()
 
 	var file SimpleExtensionFile
-	dec := yaml.NewDecoder(r)
-	if err := dec.Decode(&file); err != nil {
+	data, err := io.ReadAll(r)
+	if err != nil {
+		return err
+	}
+	if err := file.decode(data); err != nil {
 		return err
 	}
 
diff --git a/functions/dialect.go b/functions/dialect.go
index 233790e..b95656c 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -3,6 +3,7 @@
 package functions
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"sort"
@@ -204,12 +205,15 @@ func newDialect(name string, reader io.Reader) (Dialect, error) {
 }
 
 func (d *dialectImpl) Load(reader io.Reader) error {
-	dec := yaml.NewDecoder(reader)
-	if err := dec.Decode(&d.file); err != nil {
+	data, err := io.ReadAll(reader)
+	if err != nil {
+		return err
+	}
+	if err := d.file.decode(data); err != nil {
 		return err
 	}
 
-	err := d.file.validate()
+	err = d.file.validate()
 	if err != nil {
 		return err
 	}
@@ -253,6 +257,17 @@ type dialectFile struct {
 	Dependencies       map[string]string          `yaml:"dependencies,omitempty"`
 }
 
+// decode decodes the YAML in data. The YAML library panics on some malformed
+// documents, which is reported as an error.
+func (d *dialectFile) decode(data []byte) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: malformed YAML: %v", substraitgo.ErrInvalidDialect, r)
+		}
+	}()
+	return yaml.NewDecoder(bytes.NewReader(data)).Decode(d)
+}
+
 type dialectTypeInfo struct {
 	SqlTypeName       string `yaml:"sql_type_name"`
 	SupportedAsColumn bool   `yaml:"supported_as_column" default:"true"`
-- 
2.43.0


From 81ea523ef25ec1a56d8722fb57658d56f47c6524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:00 +0000
Subject: [PATCH 27/41] fix: reject a test case file with text that is not part
 of the language

---
 testcases/parser/parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/testcases/parser/parse.go b/testcases/parser/parse.go
index 42e0e2b..dd56565 100644
--- a/testcases/parser/parse.go
+++ b/testcases/parser/parse.go
@@ -38,6 +38,8 @@ func parseTestCasesFromStream(is *antlr.InputStream, debugStr string) (*TestFile
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := baseparser.NewFuncTestCaseParser(stream)
 	errorListener := util.NewSimpleErrorListener()
+	// text the lexer cannot read would be left out of the result otherwise
+	lexer.AddErrorListener(errorListener)
 	p.AddErrorListener(errorListener)
 	p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
 
-- 
2.43.0


From 2bea652fc979c79da405501a2384e65285ca1609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 28/41] fix: keep the other relations of a plan made with the
 builder

---
 plan/builders.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plan/builders.go b/plan/builders.go
index 0e1e4b5..f56bb54 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -782,7 +782,7 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 	}
 
 	for i, o := range others {
-		relations[i].rel = o
+		relations[i+1].rel = o
 	}
 
 	reg := b.reg
-- 
2.43.0


From ad1f95cc10a1847d14819602fd17aaef8cf50a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 29/41] fix: copy a relation without inputs instead of
 returning the original, so that Remap does not change it

---
 plan/relations.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index 4617d9d..6acba5d 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -243,7 +243,8 @@ func (n *NamedTableReadRel) ToProto() *proto.Rel {
 }
 
 func (n *NamedTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return n, nil
+	c := *n
+	return &c, nil
 }
 
 func (n *NamedTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -302,7 +303,8 @@ func (v *VirtualTableReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (v *VirtualTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return v, nil
+	c := *v
+	return &c, nil
 }
 
 func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -373,7 +375,8 @@ func (e *ExtensionTableReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (e *ExtensionTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return e, nil
+	c := *e
+	return &c, nil
 }
 
 func (e *ExtensionTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -479,7 +482,8 @@ func (n *IcebergTableReadRel) ToProto() *proto.Rel {
 }
 
 func (n *IcebergTableReadRel) Copy(_ ...Rel) (Rel, error) {
-	return n, nil
+	c := *n
+	return &c, nil
 }
 
 func (n *IcebergTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -672,7 +676,8 @@ func (lf *LocalFileReadRel) ToProtoPlanRel() *proto.PlanRel {
 }
 
 func (lf *LocalFileReadRel) Copy(_ ...Rel) (Rel, error) {
-	return lf, nil
+	c := *lf
+	return &c, nil
 }
 
 func (lf *LocalFileReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc, _ ...Rel) (Rel, error) {
@@ -1726,7 +1731,8 @@ func (el *ExtensionLeafRel) GetInputs() []Rel {
 }
 
 func (el *ExtensionLeafRel) Copy(_ ...Rel) (Rel, error) {
-	return el, nil
+	c := *el
+	return &c, nil
 }
 
 func (el *ExtensionLeafRel) CopyWithExpressionRewrite(_ RewriteFunc, _ ...Rel) (Rel, error) {
-- 
2.43.0


From b0945eb2a4eee8cb547e95aa053c8cb6eaf79e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:00 +0000
Subject: [PATCH 30/41] fix: rewrite the values of a virtual table that has no
 rewritten filter

---
 plan/relations.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index 6acba5d..0ee263a 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -312,11 +312,6 @@ func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc,
 	if err != nil {
 		return nil, err
 	}
-	if slices.Equal(newExprs, v.getExpressions()) {
-		return v, nil
-	}
-	vtr := *v
-	vtr.updateFilters(newExprs)
 	valuesUnchanged := true
 	newValues := make([]expr.VirtualTableExpressionValue, len(v.values))
 	for i, val := range v.values {
@@ -331,6 +326,11 @@ func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc,
 		}
 		newValues[i] = newExprs
 	}
+	if valuesUnchanged && slices.Equal(newExprs, v.getExpressions()) {
+		return v, nil
+	}
+	vtr := *v
+	vtr.updateFilters(newExprs)
 	if !valuesUnchanged {
 		vtr.values = newValues
 	}
-- 
2.43.0


From cb710f428099860f463b4ba9e37c577dddfc9a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:17 +0000
Subject: [PATCH 31/41] fix: check the output mapping of a filter against the
 columns its input emits

---
 plan/builders.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plan/builders.go b/plan/builders.go
index f56bb54..e9c178e 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -422,7 +422,7 @@ func (b *builder) FilterRemap(input Rel, condition expr.Expression, remap []int3
 			substraitgo.ErrInvalidArg, condition.GetType())
 	}
 
-	noutput := input.directOutputSchema().FieldCount()
+	noutput := input.RecordType().FieldCount()
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
 			return nil, errOutputMappingOutOfRange
-- 
2.43.0


From 995be39ed2d08290b2cbc3c3c6b303dcee2bc5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:17 +0000
Subject: [PATCH 32/41] fix: decode the update that NamedWrite builds

---
 plan/plan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plan/plan.go b/plan/plan.go
index 9defea1..304393c 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -916,7 +916,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			out.fromProtoCommon(rel.Write.Common)
 		}
 		switch rel.Write.Op {
-		case proto.WriteRel_WRITE_OP_CTAS, proto.WriteRel_WRITE_OP_INSERT, proto.WriteRel_WRITE_OP_DELETE:
+		case proto.WriteRel_WRITE_OP_CTAS, proto.WriteRel_WRITE_OP_INSERT, proto.WriteRel_WRITE_OP_DELETE, proto.WriteRel_WRITE_OP_UPDATE:
 			switch writeType := rel.Write.WriteType.(type) {
 			case *proto.WriteRel_NamedTable:
 				out.names = writeType.NamedTable.Names
-- 
2.43.0


From 935498754dfe6c50e55b3b8f9f9dfc095017f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:08 +0000
Subject: [PATCH 33/41] fix: a lambda whose body builder panicked left its
 parameters in the expression builder

---
 expr/builder.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/expr/builder.go b/expr/builder.go
index 14b515e..051dd7d 100644
--- a/expr/builder.go
+++ b/expr/builder.go
@@ -242,12 +242,10 @@ func (lb *lambdaBuilder) Build() (*Lambda, error) {
 	// This allows nested lambdas to validate stepsOut references against
 	// outer lambda parameters.
 	lb.b.pushLambdaContext(lb.params)
+	// Pop our params from context stack (always, even if the body fails or panics)
+	defer lb.b.popLambdaContext()
 
 	bodyExpr, err := lb.body.BuildExpr()
-
-	// Pop our params from context stack (always, even on error)
-	lb.b.popLambdaContext()
-
 	if err != nil {
 		return nil, fmt.Errorf("failed to build lambda body: %w", err)
 	}
-- 
2.43.0


From f747b8a55c3d35fea8f8b36b066eac7b60ff8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:59 +0000
Subject: [PATCH 34/41] fix: visiting an IfThen or Switch without an else must
 not visit nil

---
 expr/expression.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index da770c5..30a726d 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -592,7 +592,10 @@ func (ex *IfThen) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	afterElse := visit(ex.elseClause)
+	afterElse := ex.elseClause
+	if afterElse != nil {
+		afterElse = visit(afterElse)
+	}
 	if out == nil {
 		if afterElse == ex.elseClause {
 			return ex
@@ -952,7 +955,10 @@ func (ex *SwitchExpr) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	afterElse := visit(ex.elseClause)
+	afterElse := ex.elseClause
+	if afterElse != nil {
+		afterElse = visit(afterElse)
+	}
 	if out == nil {
 		if afterElse == ex.elseClause {
 			return ex
-- 
2.43.0


From da2680803eaad93de68aa8e61630adb1fbcc4a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:01 +0000
Subject: [PATCH 35/41] fix: MultiOrList.Visit panicked when an option was
 replaced

---
 expr/expression.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 30a726d..69753c0 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1200,8 +1200,8 @@ func (ex *MultiOrList) Visit(visit VisitFunc) Expression {
 	}
 
 	for i, opts := range ex.Options {
-		if out != nil && len(out.Options[i]) == 0 {
-			out.Options[i] = make([]Expression, len(ex.Options[i]))
+		if out != nil {
+			out.Options[i] = make([]Expression, len(opts))
 		}
 
 		for j, o := range opts {
@@ -1212,13 +1212,9 @@ func (ex *MultiOrList) Visit(visit VisitFunc) Expression {
 					Value:   slices.Clone(ex.Value),
 					Options: make([][]Expression, len(ex.Options)),
 				}
-				for k := 0; k < i; k++ {
+				for k := 0; k <= i; k++ {
 					out.Options[k] = slices.Clone(ex.Options[k])
 				}
-
-				for k := 0; k < j; k++ {
-					out.Options[i][k] = ex.Options[i][k]
-				}
 			}
 
 			if out != nil {
-- 
2.43.0


From 98572799bca1d1f1d38fe42c00f8fcc7868b231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 36/41] fix: WindowFunction.Visit skipped the sorts and
 partitions

---
 expr/functions.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/expr/functions.go b/expr/functions.go
index 94bc115..12342e5 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -760,12 +760,42 @@ func (w *WindowFunction) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	if args == nil {
+	var sorts []SortField
+	for i, s := range w.Sorts {
+		after := visit(s.Expr)
+		if sorts == nil && after != s.Expr {
+			sorts = slices.Clone(w.Sorts)
+		}
+		if sorts != nil {
+			sorts[i].Expr = after
+		}
+	}
+
+	var parts []Expression
+	for i, p := range w.Partitions {
+		after := visit(p)
+		if parts == nil && after != p {
+			parts = slices.Clone(w.Partitions)
+		}
+		if parts != nil {
+			parts[i] = after
+		}
+	}
+
+	if args == nil && sorts == nil && parts == nil {
 		return w
 	}
 
 	out := *w
-	out.args = args
+	if args != nil {
+		out.args = args
+	}
+	if sorts != nil {
+		out.Sorts = sorts
+	}
+	if parts != nil {
+		out.Partitions = parts
+	}
 	return &out
 }
 
-- 
2.43.0


From e6375031b93b9b0a532a9199c494f3b5a7ac0b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:03 +0000
Subject: [PATCH 37/41] fix: expression rewrite skipped the sorts of aggregate
 measures

---
 plan/relations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plan/relations.go b/plan/relations.go
index 0ee263a..7026239 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1259,6 +1259,14 @@ func (ar *AggregateRel) rewriteAggregateFunc(rewriteFunc RewriteFunc, f *expr.Ag
 			argsAreEqual = argsAreEqual && exp == newExp
 		}
 	}
+	for i, sort := range f.Sorts {
+		newExp, err := rewriteFunc(sort.Expr)
+		if err != nil {
+			return nil, err
+		}
+		newF.Sorts[i].Expr = newExp
+		argsAreEqual = argsAreEqual && sort.Expr == newExp
+	}
 	if argsAreEqual {
 		return f, nil
 	}
-- 
2.43.0


From 746a9704061419ad3856deffb5b8e06725ca1c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:39 +0000
Subject: [PATCH 38/41] fix: a literal made from an interval in microseconds
 had a type without precision

---
 expr/literals.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expr/literals.go b/expr/literals.go
index f3785b0..9945abb 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -949,11 +949,16 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 			},
 		}, nil
 	case *types.IntervalDayToSecond:
+		// without an explicit precision the value is in microseconds
+		precision := types.PrecisionMicroSeconds
+		if mode, ok := v.PrecisionMode.(*proto.Expression_Literal_IntervalDayToSecond_Precision); ok {
+			precision = types.TimePrecision(mode.Precision)
+		}
 		return &ProtoLiteral{
 			Value: v,
 			Type: &types.IntervalDayType{
 				Nullability: getNullability(nullable),
-				Precision:   types.TimePrecision(v.GetPrecision()),
+				Precision:   precision,
 			},
 		}, nil
 	case *types.Decimal:
-- 
2.43.0


From 3b35d9e5f6dc4d23ae27bceae8fac9a917ad7aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:01 +0000
Subject: [PATCH 39/41] fix: an empty list inside a list literal of a test case
 was rejected or given the wrong element type

---
 testcases/parser/visitor.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index d2b07e1..4db247b 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -778,10 +778,8 @@ func (v *TestCaseVisitor) VisitListElement(ctx *baseparser.ListElementContext) i
 		values := v.Visit(ctx.LiteralList()).([]expr.Literal)
 		if len(values) == 0 {
 			// For empty nested lists, use the element type from the parent list context
-			if elemType := v.getLiteralTypeInContext(); elemType != nil {
-				if lt, ok := elemType.(*types.ListType); ok {
-					return expr.NewEmptyListLiteral(lt.Type, false)
-				}
+			if lt, ok := parentType.(*types.ListType); ok {
+				return expr.NewEmptyListLiteral(lt.Type, false)
 			}
 			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("cannot determine element type for empty nested list"))
 			return nil
-- 
2.43.0


From 9f9768659338e4962b94f1d193cf63c6367ddf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 40/41] fix: a test case with a null in a column without
 declared type was rejected

---
 testcases/parser/visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 4db247b..10db09e 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -239,7 +239,7 @@ func (v *TestCaseVisitor) getColumnsFromRows(ctx antlr.ParserRuleContext, rows [
 		column := make([]expr.Literal, 0, len(rows))
 		for _, row := range rows {
 			cell := v.getLiteral(ctx, row[i], columnType)
-			if _, ok := cell.(*expr.NullLiteral); ok {
+			if _, ok := cell.(*expr.NullLiteral); ok && columnType != nil {
 				newColumnType = columnType.WithNullability(types.NullabilityNullable)
 				cell = expr.NewNullLiteral(newColumnType)
 			}
-- 
2.43.0


From d1eb9d0a2982ef6a053ae889e931c59b277cc6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:08 +0000
Subject: [PATCH 41/41] fix: changing the type of a time literal keeps values
 that do not fit time.Time

WithType converted the value through time.Time even when the precision stays
the same, which overflows for values far from the epoch and gave another value.
---
 expr/literals.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 9945abb..b3d8504 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -724,9 +724,18 @@ func newVarCharWithType(literal *ProtoLiteral, vcharType *types.VarCharType) (Li
 	return &ProtoLiteral{Value: literal.Value, Type: vcharType}, nil
 }
 
+// changePrecision converts a time value from one precision to another. A value
+// that keeps its precision is returned as is: not every value fits a time.Time.
+func changePrecision(value int64, from, to types.TimePrecision) int64 {
+	if from == to {
+		return value
+	}
+	return types.GetTimeValueByPrecision(types.Timestamp(value).ToPrecisionTime(from), to)
+}
+
 func newPrecisionTimeWithType(literal *ProtoLiteral, ptType *types.PrecisionTimeType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimeType); ok {
-		value := types.GetTimeValueByPrecision(types.Time(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptType.Precision)
+		value := changePrecision(literal.Value.(int64), litType.Precision, ptType.Precision)
 		return &ProtoLiteral{Value: value, Type: ptType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision time")
@@ -734,7 +743,7 @@ func newPrecisionTimeWithType(literal *ProtoLiteral, ptType *types.PrecisionTime
 
 func newPrecisionTimestampWithType(literal *ProtoLiteral, ptsType *types.PrecisionTimestampType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimestampType); ok {
-		value := types.GetTimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptsType.Precision)
+		value := changePrecision(literal.Value.(int64), litType.Precision, ptsType.Precision)
 		return &ProtoLiteral{Value: value, Type: ptsType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision timestamp")
@@ -742,7 +751,7 @@ func newPrecisionTimestampWithType(literal *ProtoLiteral, ptsType *types.Precisi
 
 func newPrecisionTimestampTzWithType(literal *ProtoLiteral, ptstzType *types.PrecisionTimestampTzType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimestampTzType); ok {
-		value := types.GetTimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptstzType.Precision)
+		value := changePrecision(literal.Value.(int64), litType.Precision, ptstzType.Precision)
 		return &ProtoLiteral{Value: value, Type: ptstzType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision timestamp tz")
-- 
2.43.0

