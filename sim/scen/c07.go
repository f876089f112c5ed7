package scen

import (
	"errors"
	"fmt"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/api"
	"verifsim/eng"
	"verifsim/gen"
	"verifsim/obs"
	"verifsim/simrt"
)

func init() {
	register("C07", Scenario{Name: "extended-relay", Weight: 3, Run: c07Extended})
	register("C07", Scenario{Name: "expression-relay", Weight: 4, Run: c07Expr})
	register("C07", Scenario{Name: "type-relay", Weight: 2, Run: c07Types})
}

type decls struct {
	us []*extpb.SimpleExtensionURN
	ds []*extpb.SimpleExtensionDeclaration
}

func (d decls) GetExtensionUrns() []*extpb.SimpleExtensionURN      { return d.us }
func (d decls) GetExtensions() []*extpb.SimpleExtensionDeclaration { return d.ds }

// exprView is everything observable about a decoded expression.
func exprView(x expr.Expression) string {
	return obs.Call(func() string {
		return fmt.Sprintf("%s | %v | scalar=%v | %T", x.String(), x.GetType(), x.IsScalar(), x)
	})
}

func typeOfExpr(x expr.Expression) (t types.Type, why string) {
	defer func() {
		if r := recover(); r != nil {
			why = fmt.Sprint("panic: ", r)
		}
	}()
	return x.GetType(), ""
}

func equalSafe(a, b expr.Expression) (eq bool, why string) {
	defer func() {
		if r := recover(); r != nil {
			why = fmt.Sprint("panic: ", r)
		}
	}()
	return a.Equals(b), ""
}

func funcRoots(m proto.Message) bool {
	sub := false
	obs.Walk(m.ProtoReflect(), func(x protoreflect.Message) {
		if _, ok := x.Interface().(*pb.Expression_Subquery); ok {
			sub = true
		}
	})
	return sub
}

func c07Expr(e *eng.Ep) {
	coll, cat := worldCat(e)
	g := gen.New(e, "gen", cat, budget(e, 2, 12))
	schema := g.Schema(5)
	want := g.WantType(schema)
	var canon *pb.Expression
	if e.Bool("cfg", 1, 3) {
		canon, want = g.Top(schema, 1+e.Int("cfg", 4))
	} else {
		canon = g.Expr(schema, want, 1+e.Int("cfg", 5))
	}
	us, ds := g.Refs.Proto()
	for f, n := range g.Feat {
		e.Probes["gen:"+f] += n
	}
	e.State(featKey(g.Feat))
	e.Trace("expression of %d bytes over %d columns, features %s", proto.Size(canon), len(schema), featKey(g.Feat))
	structT := &pb.Type_Struct{Types: schema, Nullability: gen.Req}
	hops := 1 + e.Int("net", 3)
	cur := clone(canon).(*pb.Expression)
	var firstEnc *pb.Expression
	var firstView string
	var prev expr.Expression
	for h := 0; h < hops; h++ {
		msg := transmit(e, cur, func() *pb.Expression { return &pb.Expression{} })
		oldPeer(e, msg)
		simrt.SeedHash(e.Seed ^ uint64(h+1)<<32 ^ uint64(e.Int("net", 1<<20)))
		c := nodeCollection(e, coll)
		hu, hd := clone(&pb.Plan{ExtensionUrns: us, Extensions: ds}).(*pb.Plan), 0
		_ = hd
		shuffleDecls(e, hu.ExtensionUrns, hu.Extensions)
		set, err := extensions.GetExtensionSet(decls{hu.ExtensionUrns, hu.Extensions}, c)
		if err != nil {
			e.Fail("rejected", "set:"+errSig(err), "declarations rejected: %v", err)
			return
		}
		reg := expr.NewExtensionRegistry(set, c)
		rt := types.NewRecordTypeFromStruct(*types.TypeFromProto(&pb.Type{Kind: &pb.Type_Struct_{Struct: structT}}).(*types.StructType))
		before := clone(msg).(*pb.Expression)
		for e.Bool("net", 1, 3) {
			part := clone(msg).(*pb.Expression)
			pd := append([]*extpb.SimpleExtensionDeclaration{}, hu.Extensions...)
			what := losePart(e, part, &pd)
			if what == "" {
				break
			}
			e.Fault("lost_part")
			ps, err := extensions.GetExtensionSet(decls{hu.ExtensionUrns, pd}, c)
			if err != nil {
				e.Fail("rejected", "set:"+errSig(err), "declarations rejected: %v", err)
				return
			}
			if _, err := expr.ExprFromProto(part, rt, expr.NewExtensionRegistry(ps, c)); err == nil {
				e.Fail("partial", "accepted without "+what, "hop %d: an expression without %s was accepted: %s", h, what, obs.Text(part))
				return
			}
		}
		x, err := expr.ExprFromProto(msg, rt, reg)
		if err != nil {
			e.Fail("rejected", "decode:"+errSig(err), "hop %d: expression rejected: %v\n%s", h, err, obs.Text(before))
			return
		}
		if _, d := obs.Diff(before, msg); d != "" {
			e.Fail("message-altered", "decode-alters", "decoding changed the message: %s", d)
			return
		}
		t, why := typeOfExpr(x)
		if t == nil {
			e.Fail("type", "notype", "hop %d: %T has no type (%s)\n%s", h, x, why, obs.Text(before))
			return
		}
		if s, d := obs.Diff(want, types.TypeToProto(t)); d != "" {
			e.Fail("type", "type:"+s, "hop %d: declared / decoded type: %s\n%s", h, d, obs.Text(before))
			return
		}
		if sc := scalarOf(canon); x.IsScalar() != sc {
			e.Fail("scalar", fmt.Sprintf("scalar:%T", x), "hop %d: IsScalar %v, should be %v: %s", h, x.IsScalar(), sc, obs.Text(before))
			return
		}
		if e.Bool("full", 1, 2) {
			a := newAccess(us, ds)
			if a.expr(fmt.Sprintf("%T", x), canon, x); !a.ok() {
				e.Fail("accessor", "accessor:"+a.what, "hop %d: %s: %s", h, a.what, a.diff)
				return
			}
			e.Probes["accessors"] += a.n
		}
		enc := x.ToProto()
		if s, d := obs.Diff(canon, enc); d != "" {
			e.Fail("meaning", "expr:"+s, "hop %d: sent / re-encoded: %s", h, d)
			return
		}
		if _, d := obs.Diff(before, msg); d != "" {
			e.Fail("message-altered", "encode-alters", "encoding changed the received message: %s", d)
			return
		}
		us2, ds2 := reg.ExtensionsToProto()
		p2 := &pb.Plan{ExtensionUrns: us2, Extensions: ds2}
		gen.SortDecls(p2.ExtensionUrns, p2.Extensions)
		if s, d := obs.Diff(&pb.Plan{ExtensionUrns: us, Extensions: ds}, p2); d != "" {
			e.Fail("meaning", "decls:"+s, "hop %d: declarations sent / re-encoded: %s", h, d)
			return
		}
		view := exprView(x)
		if firstEnc == nil {
			firstEnc, firstView = enc, view
		} else if view != firstView {
			e.Fail("drift", "drift:view", "hop %d observes differently: %s", h, firstDiff(firstView, view))
			return
		}
		// a second delivery is equal
		y, err := expr.ExprFromProto(transmit(e, before, func() *pb.Expression { return &pb.Expression{} }), rt, reg)
		if err != nil {
			e.Fail("rejected", "decode2:"+errSig(err), "second delivery rejected: %v", err)
			return
		}
		e.Fault("duplicate_delivery")
		for _, p := range [][2]expr.Expression{{x, y}, {y, x}, {x, x}, {prev, x}, {x, prev}} {
			if p[0] == nil || p[1] == nil {
				continue
			}
			if eq, why := equalSafe(p[0], p[1]); !eq {
				e.Fail("equality", "unequal:"+fmt.Sprintf("%T", x), "hop %d: two decodes of the same bytes are unequal %s\n%s\n%s", h, why, x, obs.Text(before))
				return
			}
		}
		// a different expression is unequal
		if m, what := mutateExpr(e, before); m != nil {
			z, err := safeDecode(m, rt, reg)
			if err == nil && z != nil {
				if encZ := safeEncode(z); encZ != nil && !proto.Equal(encZ, enc) {
					e.Probe("mutant compared")
					a, w1 := equalSafe(x, z)
					b, w2 := equalSafe(z, x)
					if w1 != "" || w2 != "" {
						e.Probe("mutant comparison panicked")
					} else if a || b {
						e.Fail("equality", "equal:"+what, "expressions that differ in %s compare as equal (%v, %v)\n%s\n%s", what, a, b, obs.Text(before), obs.Text(m))
						return
					}
				}
			}
		}
		// an expression differs from its parts
		for _, y := range partsOf(x) {
			if proto.Equal(y.ToProto(), enc) {
				continue
			}
			if a, b := x.Equals(y), y.Equals(x); a || b {
				e.Fail("equality", fmt.Sprintf("equal:%T", x), "an expression equals a part of it (%v, %v): %s / %s", a, b, x, y)
				return
			}
		}
		// the same expression made by calls
		b := &api.B{Reg: reg, Schema: rt, Used: map[string]int{}}
		built, err := b.Expr(before)
		for k, n := range b.Used {
			e.Probes["built:"+k] += n
		}
		var sk api.Skip
		if errors.As(err, &sk) {
			e.Probe("not buildable: " + sk.Why)
		} else if err != nil {
			e.Fail("construct", "build:"+errSig(err), "constructors reject what decoding accepts: %v\n%s", err, obs.Text(before))
			return
		} else {
			e.Probe("built by calls")
			if s, d := obs.Diff(canon, built.ToProto()); d != "" {
				e.Fail("meaning", "built:"+s, "constructed / encoded: %s", d)
				return
			}
			for _, p := range [][2]expr.Expression{{built, x}, {x, built}} {
				if eq, why := equalSafe(p[0], p[1]); !eq {
					e.Fail("equality", "built-unequal:"+fmt.Sprintf("%T", deepest(built, x)), "the constructed expression and its decoded copy are unequal %s\n%s\n%s", why, built, x)
					return
				}
			}
			bt, why := typeOfExpr(built)
			if bt == nil || !bt.Equals(t) || !t.Equals(bt) || built.IsScalar() != x.IsScalar() {
				e.Fail("type", "built-type", "constructed %v (%s) scalar %v, decoded %v scalar %v\n%s", bt, why, built.IsScalar(), t, x.IsScalar(), obs.Text(before))
				return
			}
			if s, d := obs.Diff(types.TypeToProto(t), types.TypeToProto(bt)); d != "" {
				e.Fail("type", "built-type:"+s, "constructed / decoded: %s", d)
				return
			}
		}
		prev = x
		cur = enc
	}
	e.Digest(string(obs.Bytes(cur)))
	e.Nontrivial = true
}

// deepest finds the smallest pair of unequal literals for a stable signature.
func deepest(a, b expr.Expression) any {
	var la, lb []expr.Expression
	collect := func(l *[]expr.Expression) expr.VisitFunc {
		return func(x expr.Expression) expr.Expression {
			if lit, ok := x.(expr.Literal); ok {
				*l = append(*l, lit)
			}
			return x
		}
	}
	if r := obs.Call(func() string {
		a.Visit(collect(&la))
		b.Visit(collect(&lb))
		return ""
	}); r != "" {
		return a
	}
	for i := range la {
		if i < len(lb) && !la[i].Equals(lb[i]) {
			return la[i]
		}
	}
	return a
}

func safeDecode(m *pb.Expression, rt *types.RecordType, reg expr.ExtensionRegistry) (x expr.Expression, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return expr.ExprFromProto(m, rt, reg)
}

func safeEncode(x expr.Expression) (m *pb.Expression) {
	defer func() {
		if recover() != nil {
			m = nil
		}
	}()
	return x.ToProto()
}

// mutateExpr changes one scalar field somewhere in a copy of the message.
func mutateExpr(e *eng.Ep, src *pb.Expression) (*pb.Expression, string) {
	m := clone(src).(*pb.Expression)
	type spot struct {
		m protoreflect.Message
		f protoreflect.FieldDescriptor
	}
	var spots []spot
	obs.Walk(m.ProtoReflect(), func(x protoreflect.Message) {
		if x.Descriptor().FullName() == "google.protobuf.Any" {
			return
		}
		fs := x.Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			f := fs.Get(i)
			if f.IsList() && x.Has(f) {
				spots = append(spots, spot{x, f})
			}
			if (f.Name() == "arguments" && x.Has(f)) || f.Name() == "outer_reference" {
				spots = append(spots, spot{x, f})
			}
			if f.Name() == "child" && x.Has(f) {
				spots = append(spots, spot{x, f})
				continue
			}
			if f.IsMap() || f.IsList() || f.Kind() == protoreflect.MessageKind {
				continue
			}
			if f.ContainingOneof() != nil && !x.Has(f) {
				continue
			}
			spots = append(spots, spot{x, f})
		}
	})
	if len(spots) == 0 {
		return nil, ""
	}
	s := spots[e.Int("mut", len(spots))]
	v := s.m.Get(s.f)
	what := string(s.m.Descriptor().Name()) + "." + string(s.f.Name())
	switch {
	case s.f.Name() == "outer_reference":
		s.m.Set(s.f, protoreflect.ValueOfMessage((&pb.Expression_FieldReference_OuterReference{}).ProtoReflect()))
		return m, what + " root"
	case s.f.Name() == "arguments" && e.Bool("mut", 1, 2):
		l := s.m.Mutable(s.f).List()
		a := &pb.FunctionArgument{}
		switch e.Int("mut", 3) {
		case 0:
			a.ArgType = &pb.FunctionArgument_Enum{Enum: "OTHER"}
		case 1:
			a.ArgType = &pb.FunctionArgument_Type{Type: gen.Bool(gen.Null)}
		default:
			a.ArgType = &pb.FunctionArgument_Value{Value: &pb.Expression{RexType: &pb.Expression_Literal_{Literal: &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_I8{I8: 1}}}}}
		}
		l.Set(e.Int("mut", l.Len()), protoreflect.ValueOfMessage(a.ProtoReflect()))
		return m, what + " replaced"
	}
	if s.f.IsList() {
		l := v.List()
		if n := l.Len(); n > 1 && e.Bool("mut", 1, 2) {
			l = s.m.Mutable(s.f).List()
			i := e.Int("mut", n-1)
			if l.Get(i).Equal(l.Get(i + 1)) {
				return nil, ""
			}
			if s.f.Kind() == protoreflect.MessageKind {
				a, b := clone(l.Get(i).Message().Interface()), clone(l.Get(i+1).Message().Interface())
				l.Set(i, protoreflect.ValueOfMessage(b.ProtoReflect()))
				l.Set(i+1, protoreflect.ValueOfMessage(a.ProtoReflect()))
			} else {
				a, b := l.Get(i), l.Get(i+1)
				l.Set(i, b)
				l.Set(i+1, a)
			}
			return m, what + " swapped"
		}
		s.m.Mutable(s.f).List().Truncate(l.Len() - 1)
		return m, what + " shortened"
	}
	if s.f.Kind() == protoreflect.MessageKind {
		s.m.Clear(s.f)
		return m, what + " removed"
	}
	switch s.f.Kind() {
	case protoreflect.BoolKind:
		s.m.Set(s.f, protoreflect.ValueOfBool(!v.Bool()))
	case protoreflect.EnumKind:
		vs := s.f.Enum().Values()
		s.m.Set(s.f, protoreflect.ValueOfEnum(vs.Get(e.Int("mut", vs.Len())).Number()))
	case protoreflect.StringKind:
		s.m.Set(s.f, protoreflect.ValueOfString(v.String()+"x"))
	case protoreflect.BytesKind:
		b := append([]byte{}, v.Bytes()...)
		if len(b) == 0 {
			b = []byte{1}
		} else {
			b[e.Int("mut", len(b))] ^= 1
		}
		s.m.Set(s.f, protoreflect.ValueOfBytes(b))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		if s.f.Name() == "precision" && v.Int() >= 9 {
			s.m.Set(s.f, protoreflect.ValueOfInt32(int32(v.Int())-1)) // larger ones are invalid
		} else {
			s.m.Set(s.f, protoreflect.ValueOfInt32(int32(v.Int())+1))
		}
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		s.m.Set(s.f, protoreflect.ValueOfInt64(v.Int()+1))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		s.m.Set(s.f, protoreflect.ValueOfUint32(uint32(v.Uint())+1))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		s.m.Set(s.f, protoreflect.ValueOfUint64(v.Uint()+1))
	case protoreflect.FloatKind:
		s.m.Set(s.f, protoreflect.ValueOfFloat32(float32(v.Float())+1))
	case protoreflect.DoubleKind:
		s.m.Set(s.f, protoreflect.ValueOfFloat64(v.Float()+1))
	}
	return m, what
}

func c07Types(e *eng.Ep) {
	_, cat := worldCat(e)
	g := gen.New(e, "gen", cat, 10)
	canon := g.Type(1 + e.Int("cfg", 4))
	e.State(featKey(g.Feat), fmt.Sprintf("%T", canon.Kind))
	e.Trace("type %s", obs.Text(canon))
	cur := clone(canon).(*pb.Type)
	var prev types.Type
	for h := 0; h < 2+e.Int("net", 2); h++ {
		msg := transmit(e, cur, func() *pb.Type { return &pb.Type{} })
		before := clone(msg).(*pb.Type)
		t := types.TypeFromProto(msg)
		if t == nil {
			e.Fail("rejected", "type-nil:"+fmt.Sprintf("%T", canon.Kind), "no type for %s", obs.Text(canon))
			return
		}
		enc := types.TypeToProto(t)
		if s, d := obs.Diff(canon, enc); d != "" {
			e.Fail("meaning", "type:"+s, "hop %d: sent / re-encoded: %s", h, d)
			return
		}
		if a, ok := t.ToProtoFuncArg().GetArgType().(*pb.FunctionArgument_Type); !ok || !proto.Equal(a.Type, canon) {
			e.Fail("meaning", "type-as-argument", "as function argument: %s", obs.Text(t.ToProtoFuncArg()))
			return
		}
		if _, d := obs.Diff(before, msg); d != "" {
			e.Fail("message-altered", "type-alters", "the message changed: %s", d)
			return
		}
		if t.GetNullability() != types.Nullability(gen.NullOf(canon)) {
			e.Fail("type", "type-nullability", "nullability %v of %s", t.GetNullability(), obs.Text(canon))
			return
		}
		u := types.TypeFromProto(before)
		if !t.Equals(u) || !u.Equals(t) || (prev != nil && (!prev.Equals(t) || !t.Equals(prev))) {
			e.Fail("equality", "type-unequal:"+fmt.Sprintf("%T", t), "decodes of the same type are unequal: %s", t)
			return
		}
		if prev != nil && (prev.String() != t.String() || prev.ShortString() != t.ShortString()) {
			e.Fail("drift", "type-text", "%s / %s", prev, t)
			return
		}
		// changing the nullability of a copy and back
		for _, n := range []types.Nullability{types.NullabilityNullable, types.NullabilityRequired, types.NullabilityUnspecified} {
			w := t.WithNullability(n)
			if s, d := obs.Diff(gen.SetNull(canon, pb.Type_Nullability(n)), types.TypeToProto(w)); d != "" {
				e.Fail("meaning", "withnull:"+s, "WithNullability(%v) of %s: %s", n, t, d)
				return
			}
			if (n == t.GetNullability()) != t.Equals(w) {
				e.Fail("equality", "withnull-equal:"+fmt.Sprintf("%T", t), "%s Equals its %v form: %v", t, n, t.Equals(w))
				return
			}
		}
		prev, cur = t, enc
	}
	e.Digest(string(obs.Bytes(cur)))
	e.Nontrivial = true
}

func c07Extended(e *eng.Ep) {
	coll, cat := worldCat(e)
	g := gen.New(e, "gen", cat, budget(e, 3, 14))
	canon, schema := g.Extended()
	for f, n := range g.Feat {
		e.Probes["gen:"+f] += n
	}
	e.State(featKey(g.Feat))
	e.Trace("extended expression with %d references over %d columns, %d declarations", len(canon.ReferredExpr), len(schema), len(canon.Extensions))
	stored := obs.Bytes(canon)
	cur := clone(canon).(*pb.ExtendedExpression)
	var first *expr.Extended
	var firstDump string
	hops := 1 + e.Int("net", 4)
	for h := 0; h < hops; h++ {
		if h > 0 && e.Bool("net", 1, 6) {
			e.Fault("loss_and_retransmit")
			cur = &pb.ExtendedExpression{}
			if err := proto.Unmarshal(stored, cur); err != nil {
				panic(err)
			}
		}
		msg := transmit(e, cur, func() *pb.ExtendedExpression { return &pb.ExtendedExpression{} })
		if h == 0 {
			shuffleDecls(e, msg.ExtensionUrns, msg.Extensions)
		}
		simrt.SeedHash(e.Seed ^ uint64(h+1)<<32 ^ uint64(e.Int("net", 1<<20)))
		c := nodeCollection(e, coll)
		before := clone(msg).(*pb.ExtendedExpression)
		for e.Bool("net", 1, 3) {
			part := clone(msg).(*pb.ExtendedExpression)
			what := losePart(e, part, &part.Extensions)
			if what == "" {
				break
			}
			e.Fault("lost_part")
			if _, err := expr.ExtendedFromProto(part, c); err == nil {
				e.Fail("partial", "accepted without "+what, "hop %d: an extended expression without %s was accepted: %s", h, what, obs.Text(part))
				return
			}
		}
		x, err := expr.ExtendedFromProto(msg, c)
		if err != nil {
			e.Fail("rejected", "decode:"+errSig(err), "hop %d: rejected: %v\n%s", h, err, obs.Text(before))
			return
		}
		if e.Bool("net", 1, 5) {
			e.Fault("duplicate_delivery")
			if x, err = expr.ExtendedFromProto(msg, c); err != nil {
				e.Fail("rejected", "decode2:"+errSig(err), "second delivery rejected: %v", err)
				return
			}
		}
		if _, d := obs.Diff(before, msg); d != "" {
			e.Fail("message-altered", "decode-alters", "decoding changed the message: %s", d)
			return
		}
		d1 := obs.Dump(x)
		enc := x.ToProto()
		if _, d := obs.Diff(before, msg); d != "" {
			e.Fail("message-altered", "encode-alters", "encoding changed the received message: %s", d)
			return
		}
		if _, d := obs.Diff(enc, x.ToProto()); d != "" {
			e.Fail("unstable", "encode-twice", "encoding twice differs: %s", d)
			return
		}
		if d2 := obs.Dump(x); d1 != d2 {
			e.Fail("altered", "encode-alters-object", "encoding changed the object: %s", firstDiff(d1, d2))
			return
		}
		cmp := clone(enc).(*pb.ExtendedExpression)
		gen.SortDecls(cmp.ExtensionUrns, cmp.Extensions)
		if s, d := obs.Diff(canon, cmp); d != "" {
			e.Fail("meaning", "ext:"+s, "hop %d: sent / re-encoded: %s", h, d)
			return
		}
		if first == nil {
			first, firstDump = x, d1
		} else {
			if firstDump != d1 {
				e.Fail("drift", "drift:dump", "hop %d observes differently: %s", h, firstDiff(firstDump, d1))
				return
			}
			for i := range x.ReferredExpr {
				if y := x.ReferredExpr[i].GetExpr(); y != nil {
					if eq, why := equalSafe(first.ReferredExpr[i].GetExpr(), y); !eq {
						e.Fail("equality", "unequal:"+fmt.Sprintf("%T", y), "hop %d: expression %d is unequal to the first decode %s\n%s", h, i, why, y)
						return
					}
				} else if y := x.ReferredExpr[i].GetMeasure(); y != nil {
					if first.ReferredExpr[i].GetMeasure().String() != y.String() {
						e.Fail("equality", "unequal:measure", "hop %d: measure %d is unequal to the first decode\n%s", h, i, y)
						return
					}
				}
			}
		}
		for i := range x.ReferredExpr {
			r := before.ReferredExpr[i]
			if m := x.ReferredExpr[i].GetMeasure(); m != nil {
				b := &api.B{Reg: expr.NewExtensionRegistry(x.Extensions, c), Schema: types.NewRecordTypeFromStruct(x.BaseSchema.Struct), Used: map[string]int{}}
				built, err := b.Agg(r.GetMeasure())
				var sk api.Skip
				if errors.As(err, &sk) {
					continue
				}
				if err != nil {
					e.Fail("construct", "buildagg:"+errSig(err), "constructors reject what decoding accepts: %v", err)
					return
				}
				if s, d := obs.Diff(r.GetMeasure(), built.ToProto()); d != "" {
					e.Fail("meaning", "builtagg:"+s, "constructed / encoded: %s", d)
					return
				}
				if built.String() != m.String() || !built.GetType().Equals(m.GetType()) {
					e.Fail("equality", "builtagg-unequal", "the constructed measure and its decoded copy are unequal\n%s\n%s", built, m)
					return
				}
			}
		}
		cur = enc
	}
	e.Digest(string(obs.Bytes(cur)))
	e.Nontrivial = true
}

// scalarOf tells whether no window function takes part in computing x row by
// row; what a reference selects from and lambdas are taken as the library
// documents them.
func scalarOf(x *pb.Expression) bool {
	all := func(l ...*pb.Expression) bool {
		for _, y := range l {
			if y != nil && !scalarOf(y) {
				return false
			}
		}
		return true
	}
	switch k := x.RexType.(type) {
	case *pb.Expression_WindowFunction_, *pb.Expression_Lambda_:
		return false
	case *pb.Expression_ScalarFunction_:
		for _, a := range k.ScalarFunction.Arguments {
			if v := a.GetValue(); v != nil && !scalarOf(v) {
				return false
			}
		}
	case *pb.Expression_Cast_:
		return scalarOf(k.Cast.Input)
	case *pb.Expression_IfThen_:
		for _, c := range k.IfThen.Ifs {
			if !all(c.If, c.Then) {
				return false
			}
		}
		return all(k.IfThen.Else)
	case *pb.Expression_SwitchExpression_:
		for _, c := range k.SwitchExpression.Ifs {
			if !scalarOf(c.Then) {
				return false
			}
		}
		return all(k.SwitchExpression.Match, k.SwitchExpression.Else)
	case *pb.Expression_SingularOrList_:
		return all(k.SingularOrList.Value) && all(k.SingularOrList.Options...)
	case *pb.Expression_MultiOrList_:
		for _, o := range k.MultiOrList.Options {
			if !all(o.Fields...) {
				return false
			}
		}
		return all(k.MultiOrList.Value...)
	case *pb.Expression_Nested_:
		switch n := k.Nested.NestedType.(type) {
		case *pb.Expression_Nested_Struct_:
			return all(n.Struct.Fields...)
		case *pb.Expression_Nested_List_:
			return all(n.List.Values...)
		case *pb.Expression_Nested_Map_:
			for _, kv := range n.Map.KeyValues {
				if !all(kv.Key, kv.Value) {
					return false
				}
			}
		}
	}
	return true
}

// partsOf lists the direct parts of an expression.
func partsOf(x expr.Expression) (l []expr.Expression) {
	x.Visit(func(y expr.Expression) expr.Expression {
		if y != nil {
			l = append(l, y)
		}
		return y
	})
	return l
}
