package scen

import (
	"fmt"
	"reflect"
	"sort"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	"google.golang.org/protobuf/proto"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/eng"
	"verifsim/fix"
	"verifsim/gen"
	"verifsim/obs"
	"verifsim/simrt"
)

func init() {
	register("C06", Scenario{Name: "plan-relay", Weight: 4, Run: c06Relay})
	register("C06", Scenario{Name: "api-plan", Weight: 3, Run: c06API})
}

// worldCat picks the collection the deployment runs with.
func worldCat(e *eng.Ep) (*extensions.Collection, *gen.Catalog) {
	if e.Bool("cfg", 1, 4) {
		return fix.Default(), fix.CatDefault()
	}
	return fix.Sim(), fix.CatSim()
}

// nodeCollection is what a relay node of the deployment has loaded: the shared
// collection or its own, loaded in another order.
func nodeCollection(e *eng.Ep, shared *extensions.Collection) *extensions.Collection {
	if shared != fix.Sim() || !e.Bool("net", 1, 12) {
		return shared
	}
	e.Fault("node_restart_reload")
	return fix.Load(loadOrder(e, fix.Files)...)
}

// loadOrder draws an order of the files that respects dependencies.
func loadOrder(e *eng.Ep, files []fix.File) []fix.File {
	left := append([]fix.File{}, files...)
	loaded := map[string]bool{}
	var out []fix.File
	for len(left) > 0 {
		var ready []int
		for i, f := range left {
			ok := true
			for _, d := range f.Deps {
				ok = ok && loaded[d]
			}
			if ok {
				ready = append(ready, i)
			}
		}
		k := ready[e.Int("order", len(ready))]
		out = append(out, left[k])
		loaded[left[k].URN] = true
		left = append(left[:k:k], left[k+1:]...)
	}
	return out
}

// transmit serialises a message and delivers it, as the network would: bytes
// may be re-framed by proxies (non-canonical field order is produced by
// splitting a message and concatenating the pieces, which protobuf defines as
// merge), declarations may arrive in another order.
func transmit[T proto.Message](e *eng.Ep, m T, fresh func() T) T {
	b, err := proto.MarshalOptions{Deterministic: e.Bool("net", 1, 2)}.Marshal(m)
	if err != nil {
		panic(err)
	}
	out := fresh()
	if err := proto.Unmarshal(b, out); err != nil {
		panic(err)
	}
	roomy(reflect.ValueOf(out))
	e.SimTimeNS += int64(1+e.Int("net", 1000)) * 1_000_000
	return out
}

type declHolder interface {
	proto.Message
	GetExtensions() []*extpb.SimpleExtensionDeclaration
	GetExtensionUrns() []*extpb.SimpleExtensionURN
}

// shuffleDecls reorders the declaration lists in place.
func shuffleDecls(e *eng.Ep, us []*extpb.SimpleExtensionURN, ds []*extpb.SimpleExtensionDeclaration) {
	if !e.Bool("net", 1, 3) {
		return
	}
	e.Fault("declaration_reorder")
	for i := len(us) - 1; i > 0; i-- {
		j := e.Int("net", i+1)
		us[i], us[j] = us[j], us[i]
	}
	for i := len(ds) - 1; i > 0; i-- {
		j := e.Int("net", i+1)
		ds[i], ds[j] = ds[j], ds[i]
	}
}

func featKey(f map[string]int) string {
	var l []string
	for k := range f {
		l = append(l, k)
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

// schemaEqual compares a library record type with the generator's model.
func schemaEqual(rt types.RecordType, want []*pb.Type) string {
	ts := rt.Types()
	if len(ts) != len(want) {
		return fmt.Sprintf("%d columns, model has %d", len(ts), len(want))
	}
	for i := range ts {
		if ts[i] == nil {
			return fmt.Sprintf("column %d has no type", i)
		}
		got := types.TypeToProto(ts[i])
		if _, d := obs.Diff(want[i], got); d != "" {
			return fmt.Sprintf("column %d: %s (model / library)", i, d)
		}
	}
	return ""
}

func relOf(r plan.Relation) plan.Rel {
	if r.IsRoot() {
		return r.Root().Input()
	}
	return r.Rel()
}

func dumpPlan(p *plan.Plan) string { return obs.Dump(p) }

func c06Relay(e *eng.Ep) {
	coll, cat := worldCat(e)
	g := gen.New(e, "gen", cat, budget(e, 3, 14))
	pi := g.Plan(1 + e.Int("cfg", 4))
	for f, n := range g.Feat {
		e.Probes["gen:"+f] += n
	}
	e.State(featKey(g.Feat))
	canon := pi.Plan
	e.Trace("plan with %d relations, %d declarations, %d bytes, features %s", len(canon.Relations), len(canon.Extensions), proto.Size(canon), featKey(g.Feat))
	stored := obs.Bytes(canon) // the durable copy of the sender
	cur := clone(canon).(*pb.Plan)
	var firstDump string
	var firstEnc *pb.Plan
	hops := 1 + e.Int("net", 4)
	delivered := 0
	for h := 0; h < hops; h++ {
		if h > 0 && e.Bool("net", 1, 6) {
			// the message is lost; the sender retransmits its durable copy
			e.Fault("loss_and_retransmit")
			cur = &pb.Plan{}
			if err := proto.Unmarshal(stored, cur); err != nil {
				panic(err)
			}
		}
		msg := transmit(e, cur, func() *pb.Plan { return &pb.Plan{} })
		if h == 0 {
			shuffleDecls(e, msg.ExtensionUrns, msg.Extensions)
		}
		oldPeer(e, msg)
		simrt.SeedHash(e.Seed ^ uint64(h+1)<<32 ^ uint64(e.Int("net", 1<<20)))
		c := nodeCollection(e, coll)
		before := clone(msg).(*pb.Plan)
		for e.Bool("net", 1, 3) {
			part := clone(msg).(*pb.Plan)
			what := losePart(e, part, &part.Extensions)
			if what == "" {
				break
			}
			e.Fault("lost_part")
			if _, err := plan.FromProtoWithDecoder(part, c, fix.Decoders()); err == nil {
				e.Fail("partial", "accepted without "+what, "hop %d: a plan without %s was accepted: %s", h, what, obs.Text(part))
				return
			}
		}
		p, err := plan.FromProtoWithDecoder(msg, c, fix.Decoders())
		if err != nil {
			e.Fail("rejected", "decode:"+errSig(err), "hop %d: plan rejected: %v\nplan: %s", h, err, obs.Text(before))
			return
		}
		if _, d := obs.Diff(before, msg); d != "" {
			e.Fail("message-altered", "decode-alters:"+d, "decoding changed the message: %s", d)
			return
		}
		delivered++
		if e.Bool("net", 1, 5) {
			e.Fault("duplicate_delivery")
			p2, err := plan.FromProtoWithDecoder(msg, c, fix.Decoders())
			if err != nil {
				e.Fail("rejected", "decode2:"+errSig(err), "second delivery rejected: %v", err)
				return
			}
			if e.Bool("net", 1, 2) {
				p = p2
			}
		}
		for i, r := range p.Relations() {
			if pi.Schemas[i] == nil {
				continue
			}
			if d := schemaEqual(relOf(r).RecordType(), pi.Schemas[i]); d != "" {
				e.Fail("schema", "schema", "hop %d relation %d: %s\n%s", h, i, d, obs.Text(canon.Relations[i]))
				return
			}
		}
		if e.Bool("full", 1, 2) {
			a := newAccess(canon.ExtensionUrns, canon.Extensions)
			if a.plan(canon, p); !a.ok() {
				e.Fail("accessor", "accessor:"+a.what, "hop %d: %s: %s", h, a.what, a.diff)
				return
			}
			e.Probes["accessors"] += a.n
		}
		d1 := dumpPlan(p)
		enc, err := p.ToProto()
		if err != nil {
			e.Fail("encode", "encode:"+errSig(err), "hop %d: encode failed: %v", h, err)
			return
		}
		if _, d := obs.Diff(before, msg); d != "" {
			e.Fail("message-altered", "encode-alters:"+d, "encoding changed the received message: %s", d)
			return
		}
		enc2, _ := p.ToProto()
		if _, d := obs.Diff(enc, enc2); d != "" {
			e.Fail("unstable", "encode-twice", "encoding twice differs: %s", d)
			return
		}
		if d2 := dumpPlan(p); d1 != d2 {
			e.Fail("plan-altered", "encode-alters-plan", "encoding changed the plan: %s", firstDiff(d1, d2))
			return
		}
		if !restoreWriteOutput(e, canon, enc) {
			return
		}
		cmp := clone(enc).(*pb.Plan)
		gen.SortDecls(cmp.ExtensionUrns, cmp.Extensions)
		if s, d := obs.Diff(canon, cmp); d != "" {
			e.Fail("meaning", "plan:"+s, "hop %d: sent / re-encoded: %s", h, d)
			return
		}
		if firstEnc == nil {
			firstEnc, firstDump = enc, d1
		} else {
			if s, d := obs.Diff(firstEnc, enc); d != "" {
				e.Fail("drift", "drift:"+s, "hop %d: first hop / this hop: %s", h, d)
				return
			}
			if firstDump != d1 {
				e.Fail("drift", "drift:dump", "hop %d observes differently: %s", h, firstDiff(firstDump, d1))
				return
			}
		}
		cur = enc
	}
	e.Digest(string(obs.Bytes(cur)))
	e.Nontrivial = delivered > 0 && len(canon.Relations) > 0
}

// restoreWriteOutput reports a write that lost its output mode and puts it
// back, so that the rest of the plan can be judged.
func restoreWriteOutput(e *eng.Ep, want, got *pb.Plan) bool {
	for i, r := range want.Relations {
		if i >= len(got.Relations) {
			break
		}
		w, g := r.GetRel().GetWrite(), got.Relations[i].GetRel().GetWrite()
		if w == nil || g == nil || w.Output == g.Output || g.Output != pb.WriteRel_OUTPUT_MODE_UNSPECIFIED {
			continue
		}
		e.Fail("meaning", "plan:WriteRel.output", "relations[%d].rel.write.output: %v was lost", i, w.Output)
		if e.Failed() {
			return false
		}
		g.Output = w.Output
	}
	return true
}

// firstDiff shows two strings around their first difference.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-150)
	return fmt.Sprintf("...%q / ...%q", clip(a[lo:], 400), clip(b[lo:], 400))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// errSig shortens an error to something stable for signatures.
func errSig(err error) string {
	s := err.Error()
	out := []rune{}
	for _, r := range s {
		if r >= '0' && r <= '9' {
			continue
		}
		out = append(out, r)
	}
	if len(out) > 60 {
		out = out[:60]
	}
	return string(out)
}

// c06API builds a plan through the builder, compares it with the plan that was
// meant and relays it.
func c06API(e *eng.Ep) {
	coll, cat := worldCat(e)
	g := gen.New(e, "gen", cat, budget(e, 3, 14))
	pi := g.APIPlan(1 + e.Int("cfg", 4))
	for f, n := range g.Feat {
		e.Probes["gen:"+f] += n
	}
	e.State(featKey(g.Feat))
	pr := newProg(e, "prog", pi.Plan)
	e.Trace("program of %d relations, features %s", len(pr.nodes), featKey(g.Feat))
	s := pr.session(coll)
	for i := range pr.nodes {
		if err := s.step(i); err != nil {
			e.Fail("rejected", "build:"+errSig(err), "relation %d rejected by the builder: %v\n%v\ninputs %v", i, err, pr.nodes[i].rel, inputSchemas(s, i))
			return
		}
	}
	for i, r := range pr.roots {
		if pi.Schemas[i] == nil {
			continue
		}
		want := localTypes(s, pi.Schemas[i])
		if d := schemaEqual(s.rels[r].RecordType(), want); d != "" {
			e.Fail("schema", "api-schema", "relation %d: %s", i, d)
			return
		}
	}
	enc, p, err := s.finish()
	if err != nil {
		e.Fail("rejected", "plan:"+errSig(err), "plan rejected: %v", err)
		return
	}
	if enc.Version == nil || enc.Version.MajorNumber == 0 && enc.Version.MinorNumber == 0 && enc.Version.PatchNumber == 0 {
		e.Fail("meaning", "version", "the built plan has no version")
		return
	}
	d1 := dumpPlan(p)
	if !samePlan(e, "intent / built", pi.Plan, enc, true) {
		return
	}
	cur := enc
	hops := 1 + e.Int("net", 3)
	var firstDump string
	for h := 0; h < hops; h++ {
		msg := transmit(e, cur, func() *pb.Plan { return &pb.Plan{} })
		if h == 0 {
			shuffleDecls(e, msg.ExtensionUrns, msg.Extensions)
		}
		simrt.SeedHash(e.Seed ^ uint64(h+1)<<32 ^ uint64(e.Int("net", 1<<20)))
		c := nodeCollection(e, coll)
		q, err := plan.FromProtoWithDecoder(msg, c, fix.Decoders())
		if err != nil {
			e.Fail("rejected", "decode:"+errSig(err), "hop %d: built plan rejected: %v\nplan: %s", h, err, obs.Text(cur))
			return
		}
		for i, r := range q.Relations() {
			if pi.Schemas[i] == nil {
				continue
			}
			a, b := relOf(r).RecordType(), s.rels[pr.roots[i]].RecordType()
			if !a.Equals(&b) {
				e.Fail("schema", "api-hop-schema", "hop %d relation %d: built %s, decoded %s", h, i, b.String(), a.String())
				return
			}
		}
		enc, err := q.ToProto()
		if err != nil {
			e.Fail("encode", "encode:"+errSig(err), "hop %d: encode failed: %v", h, err)
			return
		}
		if !restoreWriteOutput(e, cur, enc) {
			return
		}
		x, y := clone(cur).(*pb.Plan), clone(enc).(*pb.Plan)
		gen.SortDecls(x.ExtensionUrns, x.Extensions)
		gen.SortDecls(y.ExtensionUrns, y.Extensions)
		if s, d := obs.Diff(x, y); d != "" {
			e.Fail("meaning", "plan:"+s, "hop %d: sent / re-encoded: %s", h, d)
			return
		}
		d := dumpPlan(q)
		if firstDump == "" {
			firstDump = d
		} else if d != firstDump {
			e.Fail("drift", "drift:dump", "hop %d observes differently: %s", h, firstDiff(firstDump, d))
			return
		}
		cur = enc
	}
	if d2 := dumpPlan(p); d1 != d2 {
		e.Fail("plan-altered", "encode-alters-plan", "encoding or decoding changed the built plan: %s", firstDiff(d1, d2))
		return
	}
	e.Digest(string(obs.Bytes(cur)))
	e.Nontrivial = len(pr.nodes) > 0
}

// localTypes renumbers model types to the numbers of a session.
func localTypes(s *session, ts []*pb.Type) []*pb.Type {
	out := make([]*pb.Type, len(ts))
	for i, t := range ts {
		out[i] = clone(t).(*pb.Type)
		s.localize(out[i], false, true)
	}
	return out
}

// samePlan compares two plans up to the numbering of references.
func samePlan(e *eng.Ep, what string, want, got *pb.Plan, writes bool) bool {
	a, bad := canonPlan(want)
	if bad != "" {
		panic("generated plan: " + bad)
	}
	b, bad := canonPlan(got)
	if bad != "" {
		e.Fail("meaning", "dangling", "%s: %s\n%s", what, bad, obs.Text(got))
		return false
	}
	if writes && !restoreWriteOutput(e, a, b) {
		return false
	}
	if s, d := obs.Diff(a, b); d != "" {
		e.Fail("meaning", "built:"+s, "%s: %s", what, d)
		return false
	}
	return true
}

// budget is the size of what is generated: from lo, below lo+n, and now and
// then several times that.
func budget(e *eng.Ep, lo, n int) int {
	b := lo + e.Int("cfg", n)
	if e.Int("cfg", 25) == 24 {
		b *= 4
		e.Probe("large")
	}
	return b
}
