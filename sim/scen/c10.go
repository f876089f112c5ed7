package scen

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	tparser "github.com/substrait-io/substrait-go/v8/types/parser"

	"verifsim/eng"
	"verifsim/obs"
)

func init() {
	register("C10", Scenario{Name: "relations", Weight: 4, Run: func(e *eng.Ep) { c10Run(e, true) }})
	register("C10", Scenario{Name: "expressions-and-types", Weight: 3, Run: func(e *eng.Ep) { c10Run(e, false) }})
}

// c10 is the set of live objects of an episode.
type c10 struct {
	e     *eng.Ep
	w     *world
	rels  []plan.Rel
	exprs []expr.Expression
	types []types.Type
	defs  []types.FuncDefArgType
	recs  []types.RecordType
	lits  []expr.Literal
	live  []liveObj
	last  string // the last operation

	lastRel  plan.Rel
	lastOp   int
	lastExpr expr.Expression
}

type liveObj struct {
	name, was, wasAll string
	text              func() string // cheap, after each step
	all               func() string // in full, at the end
}

func (c *c10) keep(name string, text func() string) {
	c.live = append(c.live, liveObj{name: name, was: text(), text: text})
}

func (c *c10) keepRel(name string, r plan.Rel) {
	c.rels = append(c.rels, r)
	o := liveObj{name: name, text: func() string {
		return obs.Call(func() string { return string(obs.Bytes(r.ToProto())) }) + obs.Call(func() string { t := r.RecordType(); return t.String() })
	}}
	o.was = o.text()
	if c.e.Bool("full", 1, 4) {
		o.all = func() string { return relText(r) }
		o.wasAll = o.all()
	}
	c.live = append(c.live, o)
}

func (c *c10) keepExpr(name string, x expr.Expression) {
	c.exprs = append(c.exprs, x)
	if l, ok := x.(expr.Literal); ok {
		c.lits = append(c.lits, l)
	}
	c.keep(name, func() string { return obs.Dump(x) + exprText(x) })
}

func (c *c10) keepType(name string, t types.Type) {
	c.types = append(c.types, t)
	c.keep(name, func() string { return obs.Dump(t) })
}

func (c *c10) keepDef(name string, t types.FuncDefArgType) {
	if t == nil {
		return
	}
	c.defs = append(c.defs, t)
	c.keep(name, func() string { return obs.Dump(t) + typeText(t) })
}

func (c *c10) keepRecord(name string, r types.RecordType) {
	c.recs = append(c.recs, r)
	c.keep(name, func() string { return obs.Dump(&r) })
}

// unchanged checks every live object.
func (c *c10) unchanged() bool {
	for _, o := range c.live {
		if s := o.text(); s != o.was {
			what, _, _ := strings.Cut(o.name, ":")
			op, _, _ := strings.Cut(c.last, ":")
			d := ""
			if o.all != nil {
				o.was, s = o.wasAll, o.all()
			}
			d = firstDiff(o.was, s)
			c.e.Fail("altered", op+":"+what, "%s changed %s: %s", c.last, o.name, d)
			return false
		}
	}
	return true
}

// end compares everything observable.
func (c *c10) end() {
	for _, o := range c.live {
		if o.all == nil {
			continue
		}
		if s := o.all(); s != o.wasAll {
			what, _, _ := strings.Cut(o.name, ":")
			c.e.Fail("altered", "end:"+what, "the derivations changed %s: %s", o.name, firstDiff(o.wasAll, s))
			return
		}
	}
}

func c10Run(e *eng.Ep, rels bool) {
	spec := drawSpec(e, 1)
	var pr *prog
	if rels && e.Bool("cfg", 1, 2) {
		pr = drawProg(e, spec.cat)
	}
	n := 2 + e.Count("cfg", 9)
	e.Serial("derivations", 200_000_000, func() {
		c := &c10{e: e, w: spec.make()}
		c.fill(pr, rels)
		for ; n > 0 && !e.Failed(); n-- {
			if rels {
				c.relStep()
			} else {
				c.exprStep()
			}
			e.Digest(c.last)
			if e.Failed() || !c.unchanged() {
				return
			}
		}
		c.end()
	})
}

func (c *c10) fill(pr *prog, rels bool) {
	w := c.w
	if rels {
		for i, p := range w.plans {
			o := liveObj{name: fmt.Sprint("plan:", i), text: func() string {
				m, _ := p.ToProto()
				return string(obs.Bytes(m))
			}, all: func() string { return planText(p) }}
			o.was, o.wasAll = o.text(), o.all()
			c.live = append(c.live, o)
		}
		for i, r := range w.rels {
			c.keepRel(fmt.Sprintf("%T:%d", r, i), r)
		}
		if pr != nil {
			s := pr.session(w.coll)
			for i := range pr.nodes {
				if s.step(i) != nil {
					break
				}
				c.keepRel(fmt.Sprintf("%T:built %d", s.rels[i], i), s.rels[i])
			}
		}
		return
	}
	for _, x := range w.exprs {
		c.addExpr(x)
	}
	for i, x := range w.exts {
		c.keep(fmt.Sprint("extended:", i), func() string { return extText(x) })
		for _, r := range x.ReferredExpr {
			if y := r.GetExpr(); y != nil {
				c.addExpr(y)
			}
		}
	}
	for i, r := range w.schemas {
		c.keepRecord(fmt.Sprint("schema:", i), *r)
	}
	for i, t := range w.types {
		c.keepType(fmt.Sprintf("%T:%d", t, i), t)
	}
	for i, t := range probeTypes {
		if c.e.Bool("cfg", 1, 6) {
			c.keepType(fmt.Sprintf("%T:probe %d", t, i), t)
		}
	}
	for i := c.e.Int("cfg", 3); i > 0; i-- {
		if t, err := tparser.ParseType(pickOf(c.e, typeTexts)); err == nil {
			c.keepDef(fmt.Sprintf("%T:parsed", t), t)
		}
	}
	if fs := w.coll.GetAllScalarFunctions(); c.e.Bool("cfg", 1, 3) {
		sort.Slice(fs, func(i, j int) bool {
			return fs[i].URN()+" "+fs[i].CompoundName() < fs[j].URN()+" "+fs[j].CompoundName()
		})
		for _, a := range pickOf(c.e, fs).Args() {
			if v, ok := a.(extensions.ValueArg); ok {
				c.keepDef(fmt.Sprintf("%T:argument", v.Value.ValueType), v.Value.ValueType)
			}
		}
	}
	for i := c.e.Int("cfg", 3); i > 0; i-- {
		k, txt, n, null := drawLiteral(c.e)
		if x, err := literalOf(k, txt, n, null); err == nil {
			c.keepExpr(fmt.Sprintf("%T:built", x), x)
		}
	}
}

// addExpr keeps an expression and its children.
func (c *c10) addExpr(x expr.Expression) {
	if len(c.exprs) > 25 {
		return
	}
	c.keepExpr(fmt.Sprintf("%T:%d", x, len(c.exprs)), x)
	if t := x.GetType(); t != nil && len(c.types) < 12 {
		c.keepType(fmt.Sprintf("%T:of an expression", t), t)
	}
	x.Visit(func(y expr.Expression) expr.Expression {
		if y != nil {
			c.addExpr(y)
		}
		return y
	})
}

// rewrite is a caller's rewriting function and what it did.
type rewrite struct {
	e        *eng.Ep
	deep     bool
	pick     func(i int) bool
	mode     int // 0: wrap in a cast, 1: null of the type, 2: a literal
	failAt   int // -1: never
	panics   bool
	failWith int // what is returned next to an error: 0: nothing, 1: the original, 2: another expression
	n        int
	fired    bool
	seen     []string
	changes  map[[2]string]int
	count    int
	typed    bool // types are kept

	addsFilter bool
}

func (c *c10) drawRewrite(canErr bool) *rewrite {
	e := c.e
	r := &rewrite{e: e, failAt: -1, changes: map[[2]string]int{}, typed: true}
	r.deep = e.Bool("op", 1, 2)
	r.mode = e.Int("op", 2)
	r.addsFilter = e.Bool("op", 1, 5)
	switch e.Int("op", 5) {
	case 0: // nothing
		r.pick = func(int) bool { return false }
	case 1: // everything
		r.pick = func(int) bool { return true }
	default:
		k, m := e.Int("op", 6), 1+e.Int("op", 6)
		r.pick = func(i int) bool { return i%m == k%m }
	}
	if e.Bool("op", 1, 4) {
		r.failAt = e.Int("op", 4)
		r.panics = !canErr || e.Bool("op", 1, 2)
		r.failWith = e.Int("op", 3)
	}
	return r
}

// subst replaces an expression or goes into it.
func (r *rewrite) subst(x expr.Expression) expr.Expression {
	i := r.n
	r.n++
	if i == r.failAt {
		r.fired = true
		panic(errCallback)
	}
	if !r.pick(i) || x.GetType() == nil {
		if r.deep {
			return x.Visit(r.visit)
		}
		return x
	}
	var y expr.Expression
	if _, lit := x.(expr.Literal); lit || r.mode == 1 {
		y = nullOf(x)
		r.typed = false
	} else {
		y = &expr.Cast{Type: x.GetType(), Input: x, FailureBehavior: types.BehaviorReturnNil}
	}
	a, b := wireText(x.ToProto()), wireText(y.ToProto())
	if a != b {
		r.changes[[2]string{a, b}]++
		r.count++
	}
	return y
}

func (r *rewrite) visit(x expr.Expression) expr.Expression {
	if x == nil {
		r.e.Fail("mismatch", "nil-child", "a visitor was called without an expression")
		return nil
	}
	return r.subst(x)
}

func (r *rewrite) rel(x expr.Expression) (out expr.Expression, err error) {
	if x == nil {
		// the caller may give a relation a filter it did not have
		if !r.addsFilter {
			return nil, nil
		}
		y := expr.NewPrimitiveLiteral(fmt.Sprint("added ", r.count), false)
		r.changes[[2]string{"", wireText(y.ToProto())}]++
		r.count++
		r.e.Probe("added_filter")
		return y, nil
	}
	r.seen = append(r.seen, wireText(x.ToProto()))
	if !r.panics {
		defer func() {
			if p := recover(); p != nil {
				if p != any(errCallback) {
					panic(p)
				}
				// a failing function may return anything next to its error
				err = fmt.Errorf("rewriting: %w", errCallback)
				switch out = nil; r.failWith {
				case 1:
					out = x
				case 2:
					out = nullOf(x)
				}
			}
		}()
	}
	return r.subst(x), nil
}

func wireText(m proto.Message) string { return obs.Text(m) }

const (
	relName  = "substrait.Rel"
	exprName = "substrait.Expression"
	litName  = "substrait.Expression.Literal"
)

// splitRel separates a relation from its inputs.
func splitRel(m *pb.Rel) (*pb.Rel, []*pb.Rel) {
	c := clone(m).(*pb.Rel)
	var ins []*pb.Rel
	c.ProtoReflect().Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		in := v.Message()
		fds := in.Descriptor().Fields()
		for i := 0; i < fds.Len(); i++ {
			fd := fds.Get(i)
			if fd.Message() == nil || fd.Message().FullName() != relName || !in.Has(fd) {
				continue
			}
			if fd.IsList() {
				l := in.Get(fd).List()
				for k := 0; k < l.Len(); k++ {
					ins = append(ins, l.Get(k).Message().Interface().(*pb.Rel))
				}
			} else {
				ins = append(ins, in.Get(fd).Message().Interface().(*pb.Rel))
			}
			in.Clear(fd)
		}
		return true
	})
	return c, ins
}

// children lists the outermost expressions of a message, subqueries aside.
func children(m protoreflect.Message, top bool, out []protoreflect.Message) []protoreflect.Message {
	if !top {
		switch m.Descriptor().FullName() {
		case exprName:
			return append(out, m)
		case relName, litName, "google.protobuf.Any":
			return out
		}
	}
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if fd.Message() == nil || !m.Has(fd) || fd.IsMap() {
			continue
		}
		switch fd.FullName() {
		case "substrait.Expression.literal",
			// the documented order of visits leaves out what a reference refers into
			"substrait.Expression.FieldReference.expression":
			continue
		}
		if fd.IsList() {
			l := m.Get(fd).List()
			for k := 0; k < l.Len(); k++ {
				out = children(l.Get(k).Message(), false, out)
			}
		} else {
			out = children(m.Get(fd).Message(), false, out)
		}
	}
	return out
}

// lockstep compares a message with the one derived from it: wherever they
// differ, a recorded change must have been made.
func (r *rewrite) lockstep(a, b protoreflect.Message, path string) string {
	if proto.Equal(a.Interface(), b.Interface()) {
		return ""
	}
	if a.Descriptor() != b.Descriptor() {
		return path + ": another kind of message"
	}
	var k [2]string
	switch a.Descriptor().FullName() {
	case exprName:
		k = [2]string{wireText(a.Interface()), wireText(b.Interface())}
	case litName: // the condition of a switch clause
		k = [2]string{wireText(&pb.Expression{RexType: &pb.Expression_Literal_{Literal: a.Interface().(*pb.Expression_Literal)}}),
			wireText(&pb.Expression{RexType: &pb.Expression_Literal_{Literal: b.Interface().(*pb.Expression_Literal)}})}
	}
	if k[0] != "" && r.changes[k] > 0 {
		r.changes[k]--
		r.count--
		return ""
	}
	fds := a.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		p := path + "." + string(fd.Name())
		if !a.Has(fd) && b.Has(fd) && fd.Message() != nil && !fd.IsList() && fd.Message().FullName() == exprName {
			if k := [2]string{"", wireText(b.Get(fd).Message().Interface())}; r.changes[k] > 0 {
				r.changes[k]--
				r.count--
				continue
			}
		}
		if a.Has(fd) != b.Has(fd) {
			return fmt.Sprintf("%s: present %v, now %v", p, a.Has(fd), b.Has(fd))
		}
		if !a.Has(fd) {
			continue
		}
		va, vb := a.Get(fd), b.Get(fd)
		switch {
		case fd.Message() != nil && fd.IsList():
			la, lb := va.List(), vb.List()
			if la.Len() != lb.Len() {
				return fmt.Sprintf("%s: %d elements, now %d", p, la.Len(), lb.Len())
			}
			for j := 0; j < la.Len(); j++ {
				if s := r.lockstep(la.Get(j).Message(), lb.Get(j).Message(), fmt.Sprintf("%s[%d]", p, j)); s != "" {
					return s
				}
			}
		case fd.Message() != nil && !fd.IsMap():
			if s := r.lockstep(va.Message(), vb.Message(), p); s != "" {
				return s
			}
		default:
			if !va.Equal(vb) {
				return fmt.Sprintf("%s: %v, now %v", p, va, vb)
			}
		}
	}
	return ""
}

// settle compares original and derived and checks that each change was made.
func (r *rewrite) settle(what string, a, b protoreflect.Message) {
	if s := r.lockstep(a, b, ""); s != "" {
		r.e.Fail("mismatch", what+":elsewhere", "%s differs from the original where the caller made no change: %s\noriginal: %s\nderived: %s", what, s, clip(wireText(a.Interface()), 1500), clip(wireText(b.Interface()), 1500))
		return
	}
	for k, n := range r.changes {
		if n > 0 {
			r.e.Fail("mismatch", what+":lost", "%s lacks a change the caller made: %s became %s\noriginal: %s\nderived: %s", what, clip(k[0], 300), clip(k[1], 300), clip(wireText(a.Interface()), 1500), clip(wireText(b.Interface()), 1500))
			return
		}
	}
}

// covers checks that each of the expressions was given to the caller.
func (r *rewrite) covers(what string, want []protoreflect.Message) {
	have := map[string]int{}
	for _, s := range r.seen {
		have[s]++
	}
	for _, m := range want {
		s := wireText(m.Interface())
		if have[s] == 0 {
			r.e.Fail("mismatch", what+":skipped", "%s never gave the caller the expression %s", what, clip(s, 300))
			return
		}
		have[s]--
	}
}

func kindOf(v any) string { return strings.TrimPrefix(fmt.Sprintf("%T", v), "*") }

func (c *c10) inputsFor(r plan.Rel) []plan.Rel {
	ins := append([]plan.Rel{}, r.GetInputs()...)
	for i := range ins {
		if c.e.Bool("op", 1, 4) {
			ins[i] = pickOf(c.e, c.rels)
		} else if c.e.Bool("op", 1, 3) {
			if d, err := ins[i].Copy(ins[i].GetInputs()...); err == nil {
				ins[i] = d
			}
		}
	}
	return ins
}

// relProto encodes a relation, which may be impossible for ones put together
// from inputs that do not fit.
func relProto(r plan.Rel) (m *pb.Rel) {
	if s := obs.Call(func() string { m = r.ToProto(); return "" }); s != "" {
		return nil
	}
	return m
}

func (c *c10) sameInputs(what string, ins []plan.Rel, got []*pb.Rel) bool {
	if len(ins) != len(got) {
		c.e.Fail("mismatch", what+":inputs", "%s: %d inputs instead of %d", c.last, len(got), len(ins))
		return false
	}
	for i, in := range ins {
		m := relProto(in)
		if m == nil {
			return true
		}
		if s, d := obs.Diff(m, got[i]); d != "" {
			c.e.Fail("mismatch", what+":inputs", "%s: input %d is not the one given: %s: %s", c.last, i, s, d)
			return false
		}
	}
	return true
}

func schemaText(r plan.Rel) string {
	return obs.Call(func() string { t := r.RecordType(); return obs.Dump(t.Types()) })
}

func (c *c10) relStep() {
	e := c.e
	if len(c.rels) == 0 {
		return
	}
	// The same operation on the same relation again: what the first one
	// derived must not change either.
	r, k := pickOf(e, c.rels), e.Int("op", 16)
	if c.lastRel != nil && e.Bool("op", 1, 4) {
		r, k = c.lastRel, c.lastOp
	}
	c.lastRel, c.lastOp = r, k
	kind := kindOf(r)
	orig := relProto(r)
	if orig == nil {
		return
	}
	bareOrig, _ := splitRel(orig)
	e.Probe("rel:" + kind)
	switch {
	case k < 3: // Copy
		ins := c.inputsFor(r)
		c.last = "copy: of " + kind
		d, err := r.Copy(ins...)
		if err != nil {
			e.Fail("mismatch", "copy:rejected", "%s was rejected: %v", c.last, err)
			return
		}
		e.Nontrivial = true
		m := relProto(d)
		if m == nil {
			return
		}
		b, got := splitRel(m)
		if s, x := obs.Diff(bareOrig, b); x != "" {
			e.Fail("mismatch", "copy:"+kind, "%s differs from the original in more than its inputs: %s: %s", c.last, s, x)
			return
		}
		if !c.sameInputs("copy", ins, got) {
			return
		}
		if d == r {
			e.Fail("mismatch", "copy:same", "%s is the original", c.last)
			return
		}
		if e.Bool("op", 1, 2) {
			c.mutate(d)
			return
		}
		c.keepRel(kind+":copy", d)
	case k < 6: // Remap
		n := int(fieldCount(r))
		if n < 0 {
			return
		}
		var mapping []int32
		for i := e.Int("op", 5); i > 0; i-- {
			mapping = append(mapping, int32(e.Int("op", n+1)))
		}
		if e.Bool("op", 1, 5) {
			mapping = nil
			for i := 0; i < n; i++ {
				mapping = append(mapping, int32(i))
			}
		}
		if e.Bool("op", 1, 12) {
			mapping = append(mapping, -1)
		}
		bad := false
		for _, m := range mapping {
			bad = bad || m < 0 || int(m) >= n
		}
		c.last = fmt.Sprintf("remap: %v of %s", mapping, kind)
		given := append([]int32{}, mapping...)
		d, err := r.Remap(mapping...)
		for i := range mapping {
			if mapping[i] != given[i] {
				e.Fail("altered", "remap:argument", "%s changed the mapping it was given", c.last)
				return
			}
		}
		if (err != nil) != bad {
			e.Fail("mismatch", "remap:error", "%s: %v", c.last, err)
			return
		}
		if err != nil {
			e.Fault("rejected_remap")
			return
		}
		e.Nontrivial = true
		var want []types.Type
		have := r.RecordType()
		for _, m := range given {
			want = append(want, have.Types()[m])
		}
		if s := obs.Dump(want); len(want) > 0 && s != schemaText(d) || len(want) == 0 && fieldCount(d) != 0 {
			e.Fail("mismatch", "remap:schema", "%s: schema %s instead of %s", c.last, schemaText(d), s)
			return
		}
		m := clone(relProto(d)).(*pb.Rel)
		o := clone(orig).(*pb.Rel)
		for _, x := range []*pb.Rel{m, o} {
			if cm := commonOf(x); cm != nil {
				cm.EmitKind = nil
			}
		}
		if s, x := obs.Diff(o, m); x != "" {
			e.Fail("mismatch", "remap:"+kind, "%s changed more than the output mapping: %s: %s", c.last, s, x)
			return
		}
		// the caller uses its slice for something else
		for i := range mapping {
			mapping[i] = 0
		}
		c.keepRel(kind+":remapped", d)
		if om := d.OutputMapping(); len(om) > 0 {
			e.Fault("caller_mutation")
			om[0] += 3
		}
	case k < 13: // CopyWithExpressionRewrite
		ins := c.inputsFor(r)
		same := e.Bool("op", 1, 2)
		if same {
			ins = r.GetInputs()
		}
		rw := c.drawRewrite(true)
		c.last = fmt.Sprintf("rewrite: of %s failing at %d", kind, rw.failAt)
		before := schemaText(r)
		var d plan.Rel
		var err error
		p := catch(func() { d, err = r.CopyWithExpressionRewrite(rw.rel, ins...) })
		if e.Failed() {
			return
		}
		if rw.fired {
			e.Fault(map[bool]string{true: "callback_panic", false: "callback_error"}[rw.panics])
			e.Nontrivial = true
			if p == nil && !errors.Is(err, errCallback) || p != nil && p != any(errCallback) {
				e.Fail("mismatch", "rewrite:cause", "%s: the failure of the caller's function was not passed on: error %v, panic %v", c.last, err, p)
			}
			return
		}
		if p != nil || err != nil {
			e.Fail("mismatch", "rewrite:rejected", "%s: error %v, panic %v", c.last, err, p)
			return
		}
		e.Nontrivial = true
		if rw.count > 0 {
			e.Probe("rewritten:" + kind)
		}
		m := relProto(d)
		if m == nil {
			return
		}
		b, got := splitRel(m)
		rw.settle("the rewritten "+kind, bareOrig.ProtoReflect(), b.ProtoReflect())
		if e.Failed() || !c.sameInputs("rewrite", ins, got) {
			return
		}
		rw.covers("rewriting "+kind, children(firstField(bareOrig.ProtoReflect()), true, nil))
		if same && rw.typed {
			if after := schemaText(d); after != before {
				e.Fail("mismatch", "rewrite:schema", "%s changed the schema without changing a type: %s", c.last, firstDiff(before, after))
				return
			}
		}
		if d != r {
			if e.Bool("op", 1, 3) {
				c.mutate(d)
				return
			}
			c.keepRel(kind+":rewritten", d)
		}
	case k < 14:
		c.accessors()
	default:
		a, ok := r.(*plan.AggregateRel)
		if !ok {
			return
		}
		c.last = "builder: of an aggregation"
		b := a.ToBuilder()
		d, err := b.Build()
		if err != nil {
			e.Fail("mismatch", "builder:rejected", "the builder of an aggregation rejects it: %v", err)
			return
		}
		e.Nontrivial = true
		o, n := clone(orig).(*pb.Rel), relProto(d)
		for _, x := range []*pb.Rel{o, n} {
			x.GetAggregate().Common, x.GetAggregate().AdvancedExtension = nil, nil
		}
		if s, x := obs.Diff(o, n); x != "" {
			e.Fail("mismatch", "builder:aggregate", "the builder of an aggregation gives another one: %s: %s", s, x)
			return
		}
		c.keepRel(kind+":rebuilt", d)
		for i := 1 + e.Int("op", 4); i > 0; i-- {
			switch e.Int("op", 6) {
			case 0:
				b.AddExpression(expr.NewPrimitiveLiteral(int64(i), false))
			case 1:
				b.AddGroupingSet([]uint32{0})
			case 2:
				b.ClearMeasures()
			case 3:
				b.ClearGrouping()
			case 4:
				x := pickOf(e, c.rels)
				b.ReplaceInput(&x)
			default:
				b.AddRollup([]uint32{0})
			}
		}
		if d, err := b.Build(); err == nil {
			c.keepRel(kind+":rebuilt", d)
		}
	}
}

func firstField(m protoreflect.Message) protoreflect.Message {
	var out protoreflect.Message
	m.Range(func(_ protoreflect.FieldDescriptor, v protoreflect.Value) bool { out = v.Message(); return false })
	return out
}

func commonOf(m *pb.Rel) *pb.RelCommon {
	in := firstField(m.ProtoReflect())
	if fd := in.Descriptor().Fields().ByName("common"); fd != nil && in.Has(fd) {
		return in.Get(fd).Message().Interface().(*pb.RelCommon)
	}
	return nil
}

func catch(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func fieldCount(r plan.Rel) (n int32) {
	n = -1
	obs.Call(func() string { n = r.RecordType().FieldCount(); return "" })
	return n
}

// mutate changes a derived relation through its setters.
func (c *c10) mutate(r plan.Rel) {
	c.e.Fault("caller_mutation")
	c.last += ", changed afterwards"
	r.SetAdvancedExtension(&extpb.AdvancedExtension{Enhancement: &anypb.Any{TypeUrl: "sim/other"}})
	if a, ok := r.(*plan.AggregateRel); ok {
		a.SetInput(pickOf(c.e, c.rels))
		a.SetMeasures(nil)
		a.SetGroupingExpressions([]expr.Expression{expr.NewPrimitiveLiteral(true, false)})
		a.SetGroupingReferences([][]uint32{{0}})
	}
	if m := r.OutputMapping(); len(m) > 0 {
		m[0] = 77
	}
}

// accessors changes the slices that accessors hand out as copies.
func (c *c10) accessors() {
	if len(c.w.plans) == 0 {
		return
	}
	e := c.e
	p := pickOf(e, c.w.plans)
	c.last = "accessors: of a plan"
	e.Fault("caller_mutation")
	e.Nontrivial = true
	if l := p.ExpectedTypeURLs(); len(l) > 0 {
		l[0] = "changed"
	}
	if l := p.Relations(); len(l) > 0 {
		l[0] = plan.Relation{}
	}
	if l := p.GetRoots(); len(l) > 0 {
		l[0] = nil
	}
	if l := p.GetNonRootRelations(); len(l) > 0 {
		l[0] = nil
	}
	if l := p.ParameterBindings(); len(l) > 0 {
		l[0].ParameterAnchor += 5
		l[0].Value = nil
	}
	for _, r := range c.rels {
		if l := r.OutputMapping(); len(l) > 0 {
			l[0] = 99
		}
		if l := r.GetInputs(); len(l) > 0 {
			if _, multi := r.(plan.MultiRel); !multi { // those hand out what they hold
				l[0] = nil
			}
		}
	}
}

func (c *c10) exprStep() {
	e := c.e
	switch k := e.Int("op", 12); {
	case k < 7:
		if len(c.exprs) == 0 {
			return
		}
		x := pickOf(e, c.exprs)
		if e.Bool("op", 1, 2) { // by kind, so that rare ones get their share
			var kinds []string
			by := map[string][]expr.Expression{}
			for _, x := range c.exprs {
				k := kindOf(x)
				if by[k] == nil {
					kinds = append(kinds, k)
				}
				by[k] = append(by[k], x)
			}
			x = pickOf(e, by[pickOf(e, kinds)])
		}
		if c.lastExpr != nil && e.Bool("op", 1, 4) {
			x = c.lastExpr
		}
		c.lastExpr = x
		kind := kindOf(x)
		e.Probe("visit:" + kind)
		rw := c.drawRewrite(false)
		c.last = fmt.Sprintf("visit: of %s failing at %d", kind, rw.failAt)
		a := x.ToProto()
		var d expr.Expression
		p := catch(func() {
			d = x.Visit(func(y expr.Expression) expr.Expression {
				if y == nil {
					e.Fail("mismatch", "nil-child", "the visitor of %s was called without an expression", kind)
					return nil
				}
				rw.seen = append(rw.seen, wireText(y.ToProto()))
				return rw.subst(y)
			})
		})
		if e.Failed() {
			return
		}
		if rw.fired {
			e.Fault("callback_panic")
			e.Nontrivial = true
			if p != any(errCallback) {
				e.Fail("mismatch", "visit:cause", "%s: the panic of the caller's function was replaced by %v", c.last, p)
			}
			return
		}
		if p != nil {
			e.Fail("mismatch", "visit:panic:"+kind, "%s: %v", c.last, p)
			return
		}
		if rw.n > 0 {
			e.Nontrivial = true
		}
		if rw.count > 0 {
			e.Probe("rewritten:" + kind)
		}
		rw.settle("the visited "+kind, a.ProtoReflect(), d.ToProto().ProtoReflect())
		if e.Failed() {
			return
		}
		rw.covers("visiting "+kind, children(a.ProtoReflect(), true, nil))
		if t := x.GetType(); rw.typed && t != nil {
			if s, g := obs.Dump(t), obs.Dump(d.GetType()); s != g {
				e.Fail("mismatch", "visit:type", "%s changed its type without changing one: %s", c.last, firstDiff(s, g))
				return
			}
		}
		if d != x {
			c.keepExpr(kind+":visited", d)
		}
	case k < 10:
		if len(c.types) == 0 {
			return
		}
		if len(c.defs) > 0 && e.Bool("op", 1, 3) {
			c.defStep(pickOf(e, c.defs))
			return
		}
		c.typeStep(pickOf(e, c.types))
	case k < 11:
		if len(c.lits) == 0 {
			return
		}
		l := pickOf(e, c.lits)
		w, ok := l.(interface {
			WithType(types.Type) (expr.Literal, error)
		})
		if !ok || l.GetType() == nil {
			return
		}
		t := l.GetType()
		n := types.NullabilityNullable
		if t.GetNullability() == n {
			n = types.NullabilityRequired
		}
		nt := t.WithNullability(n)
		c.last = "retype: " + kindOf(l) + " " + t.String() + " as " + nt.String()
		var d expr.Literal
		obs.Call(func() string {
			var err error
			if d, err = w.WithType(nt); err != nil {
				d = nil
			}
			return ""
		})
		if d == nil {
			e.Probe("not_retyped:" + kindOf(l))
			return
		}
		e.Nontrivial = true
		e.Probe("retyped:" + kindOf(l))
		if d.GetType() == nil || d.GetType().String() != nt.String() {
			e.Fail("mismatch", "retype:type", "%s gives a literal of type %v", c.last, d.GetType())
			return
		}
		if a, b := l.ValueString(), d.ValueString(); a != b {
			e.Fail("mismatch", "retype:value", "%s changed the value %s to %s", c.last, a, b)
			return
		}
		c.keepExpr(kindOf(l)+":retyped", d)
	default:
		if len(c.recs) == 0 {
			return
		}
		a, b := pickOf(e, c.recs), pickOf(e, c.recs)
		c.last = "concat: " + a.String() + " " + b.String()
		d := a.Concat(b)
		e.Nontrivial = true
		want := obs.Dump(append(append([]types.Type{}, a.Types()...), b.Types()...))
		if got := obs.Dump(d.Types()); got != want && len(d.Types()) > 0 {
			e.Fail("mismatch", "concat", "%s gives %s", c.last, got)
			return
		}
		if len(d.Types()) < 40 {
			c.keepRecord("schema:concat", d)
		}
	}
}

// defStep derives a type from a type expression.
func (c *c10) defStep(t types.FuncDefArgType) {
	e := c.e
	kind := fmt.Sprintf("%T", t)
	p := pickOf(e, defParams)
	var args []types.Type
	for range p {
		args = append(args, probeTypes[e.Int("op", len(probeTypes))])
	}
	var d types.Type
	how := "with"
	if e.Bool("op", 1, 3) {
		how = "return"
	}
	c.last = fmt.Sprintf("expression: %s of %s %s %d", how, kind, t, len(p))
	obs.Call(func() string {
		var err error
		if how == "with" {
			d, err = t.WithParameters(p)
		} else {
			defs := make([]types.FuncDefArgType, len(args))
			for i := range defs {
				defs[i] = t
			}
			d, err = t.ReturnType(defs, args)
		}
		if err != nil {
			d = nil
		}
		return ""
	})
	if d == nil {
		return
	}
	e.Nontrivial = true
	e.Probe("expression:" + how + ":" + kind)
	c.keepType("expression:"+how, d)
}

// typeStep derives a type with one parameter changed.
func (c *c10) typeStep(t types.Type) {
	e := c.e
	kind := kindOf(t)
	a := types.TypeToProto(t)
	var d types.Type
	e.Nontrivial = true
	if e.Bool("op", 1, 2) {
		n := types.Nullability(e.Int("op", 3))
		c.last = fmt.Sprintf("nullability: %s with %v", kind, n)
		d = t.WithNullability(n)
		if d.GetNullability() != n {
			e.Fail("mismatch", "nullability:"+kind, "%s has nullability %v", c.last, d.GetNullability())
			return
		}
		// everything else is the same
		back := types.TypeToProto(d.WithNullability(t.GetNullability()))
		if s, x := obs.Diff(a, back); x != "" {
			e.Fail("mismatch", "nullability:"+kind, "%s and back is another type: %s: %s", c.last, s, x)
			return
		}
		m := types.TypeToProto(d)
		setNullability(m, pb.Type_Nullability(t.GetNullability()))
		if s, x := obs.Diff(a, m); x != "" {
			e.Fail("mismatch", "nullability:"+kind, "%s changed something else: %s: %s", c.last, s, x)
			return
		}
	} else {
		v := reflect.ValueOf(t)
		var ms []int
		for i := 0; i < v.NumMethod(); i++ {
			m := v.Type().Method(i)
			if strings.HasPrefix(m.Name, "With") && m.Name != "WithNullability" && m.Type.NumIn() == 2 && m.Type.NumOut() == 1 && m.Type.In(1).Kind() != reflect.Slice {
				ms = append(ms, i)
			}
		}
		if len(ms) == 0 {
			return
		}
		i := pickOf(e, ms)
		in := reflect.New(v.Type().Method(i).Type.In(1)).Elem()
		val := 1 + e.Int("op", 9)
		switch {
		case in.CanInt():
			in.SetInt(int64(val))
		case in.CanUint():
			in.SetUint(uint64(val))
		default:
			return
		}
		c.last = fmt.Sprintf("parameter: %s of %s", v.Type().Method(i).Name, kind)
		out := v.Method(i).Call([]reflect.Value{in})[0]
		if out.Kind() == reflect.Interface {
			out = out.Elem()
		}
		var ok bool
		if d, ok = out.Interface().(types.Type); !ok {
			if d, ok = reflect.New(out.Type()).Interface().(types.Type); !ok {
				return
			}
			reflect.ValueOf(d).Elem().Set(out)
		}
		e.Probe("parameter:" + v.Type().Method(i).Name + ":" + kind)
		if n := changedFields(a.ProtoReflect(), types.TypeToProto(d).ProtoReflect()); n > 1 {
			e.Fail("mismatch", "parameter:"+kind, "%s changed %d parameters: %v became %v", c.last, n, t, d)
			return
		}
	}
	c.keepType(kind+":derived", d)
}

// setNullability sets the nullability of the outermost type.
func setNullability(m *pb.Type, n pb.Type_Nullability) {
	in := firstField(m.ProtoReflect())
	if fd := in.Descriptor().Fields().ByName("nullability"); fd != nil {
		in.Set(fd, protoreflect.ValueOfEnum(protoreflect.EnumNumber(n)))
	}
}

func changedFields(a, b protoreflect.Message) int {
	n := 0
	x, y := firstField(a), firstField(b)
	if x.Descriptor() != y.Descriptor() {
		return 99
	}
	fds := x.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		if !x.Get(fds.Get(i)).Equal(y.Get(fds.Get(i))) {
			n++
		}
	}
	return n
}
