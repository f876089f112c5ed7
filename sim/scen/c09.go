package scen

import (
	"fmt"
	"hash/crc32"
	"sort"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"

	"verifsim/eng"
	"verifsim/fix"
	"verifsim/gen"
	"verifsim/obs"
	"verifsim/simrt"
)

func init() { register("C09", Scenario{Name: "resume", Weight: 1, Run: c09Resume}) }

// checkpoint is what the simulated disk holds: the relations nobody consumed
// yet, encoded as a plan, and which nodes of the program they are.
type checkpoint struct {
	next  int // first node that is not built
	nodes []int
	data  []byte
	sum   uint32
}

func (c *checkpoint) valid() bool { return crc32.ChecksumIEEE(c.data) == c.sum }

// frontier lists the built nodes that later nodes or the plan still need.
func (s *session) frontier(next int) []int {
	need := map[int]bool{}
	for i := next; i < len(s.pr.nodes); i++ {
		for _, k := range s.pr.nodes[i].kids {
			need[k] = true
		}
	}
	for _, r := range s.pr.roots {
		need[r] = true
	}
	var out []int
	for i := 0; i < next; i++ {
		if need[i] {
			out = append(out, i)
		}
	}
	return out
}

// save encodes the relations built so far.
func (s *session) save(e *eng.Ep, next int) (*checkpoint, error) {
	c := &checkpoint{next: next, nodes: s.frontier(next)}
	// the root of the checkpoint must not be a write, whose schema the plan
	// does not have
	for i, k := range c.nodes {
		if s.pr.nodes[k].rel.GetWrite() == nil {
			c.nodes[0], c.nodes[i] = c.nodes[i], c.nodes[0]
			break
		}
	}
	if len(c.nodes) == 0 || s.pr.nodes[c.nodes[0]].rel.GetWrite() != nil {
		return nil, nil
	}
	root := s.rels[c.nodes[0]]
	t := root.RecordType()
	names := make([]string, t.AsStructType().DepthFirstNameCount())
	for i := range names {
		names[i] = fmt.Sprint("ck", i)
	}
	var others []plan.Rel
	for _, k := range c.nodes[1:] {
		others = append(others, s.rels[k])
	}
	m, _, err := s.plan(root, names, nil, others...)
	if err != nil {
		return nil, err
	}
	c.data = obs.Bytes(m)
	c.sum = crc32.ChecksumIEEE(c.data)
	return c, nil
}

// load decodes a checkpoint in a new process and prepares to continue.
func (c *checkpoint) load(e *eng.Ep, pr *prog, coll *extensions.Collection, mode int) (*session, error) {
	m := &pb.Plan{}
	if err := proto.Unmarshal(c.data, m); err != nil {
		return nil, err
	}
	shuffleDecls(e, m.ExtensionUrns, m.Extensions)
	p, err := plan.FromProtoWithDecoder(m, coll, fix.Decoders())
	if err != nil {
		return nil, err
	}
	var s *session
	if mode == 1 {
		s = pr.reregister(coll, m)
	}
	if s == nil {
		// the builder makes relations only, expressions register what they
		// need in the set of the checkpoint
		s = pr.sessionWith(coll, plan.NewBuilder(coll), p.ExtensionRegistry(), true)
	}
	for i, r := range p.Relations() {
		s.rels[c.nodes[i]] = relOf(r)
	}
	return s, nil
}

// reregister makes a builder whose numbers are those of the checkpoint; nil if
// that does not work out.
func (pr *prog) reregister(coll *extensions.Collection, m *pb.Plan) *session {
	b := plan.NewBuilder(coll)
	reg := b.GetExprBuilder().Reg
	type item struct {
		class int
		ref   uint32
		f     func() uint32
	}
	urns := map[uint32]string{}
	for _, u := range m.ExtensionUrns {
		urns[u.ExtensionUrnAnchor] = u.Urn
	}
	var l []item
	for _, d := range m.Extensions {
		if x := d.GetExtensionFunction(); x != nil {
			l = append(l, item{0, x.FunctionAnchor, func() uint32 { return uint32(b.GetFunctionRef(urns[x.ExtensionUrnReference], x.Name)) }})
		}
		if x := d.GetExtensionType(); x != nil {
			l = append(l, item{1, x.TypeAnchor, func() uint32 { return b.UserDefinedType(urns[x.ExtensionUrnReference], x.Name).TypeReference }})
		}
		if x := d.GetExtensionTypeVariation(); x != nil {
			l = append(l, item{2, x.TypeVariationAnchor, func() uint32 {
				return reg.GetTypeVariationAnchor(extensions.TypeVariationID{URN: urns[x.ExtensionUrnReference], Name: x.Name})
			}})
		}
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].class != l[j].class {
			return l[i].class < l[j].class
		}
		return l[i].ref < l[j].ref
	})
	for _, it := range l {
		if it.f() != it.ref {
			return nil
		}
	}
	return pr.sessionWith(coll, b, reg, false)
}

// c09Resume builds a plan once without interruption and once with crashes,
// checkpoints and recoveries, and compares the results.
func c09Resume(e *eng.Ep) {
	coll, cat := worldCat(e)
	g := gen.New(e, "gen", cat, budget(e, 4, 16))
	pi := g.APIPlan(2 + e.Int("cfg", 4))
	for f, n := range g.Feat {
		e.Probes["gen:"+f] += n
	}
	pr := newProg(e, "prog", pi.Plan)
	e.Trace("program of %d relations, features %s", len(pr.nodes), featKey(g.Feat))
	simrt.SeedHash(e.Seed)
	u := pr.session(coll)
	if err := u.all(); err != nil {
		e.Fail("rejected", "build:"+errSig(err), "uninterrupted construction rejected: %v", err)
		return
	}
	want, _, err := u.finish()
	if err != nil {
		e.Fail("rejected", "plan:"+errSig(err), "uninterrupted plan rejected: %v", err)
		return
	}
	var disk []*checkpoint // oldest first
	s := pr.session(coll)
	crashes, resumed := 0, 0
	i := 0
	hist := ""
	for i < len(pr.nodes) {
		if err := s.step(i); err != nil {
			e.Fail("rejected", "resumed-build:"+errSig(err), "after %s: relation %d rejected: %v\n%v\ninputs %s", hist, i, err, pr.nodes[i].rel, inputSchemas(s, i))
			return
		}
		i++
		if e.Bool("fault", 1, 3) {
			c, err := s.save(e, i)
			if err != nil {
				e.Fail("rejected", "checkpoint:"+errSig(err), "after %s: checkpoint at %d rejected: %v", hist, i, err)
				return
			}
			if c != nil {
				hist += fmt.Sprintf("[save %d]", i)
				if e.Bool("fault", 1, 6) && len(c.data) > 0 {
					// the write tears; the checksum shows it
					e.Fault("torn_checkpoint")
					c.data = c.data[:e.Int("fault", len(c.data))]
					hist += "torn"
				}
				disk = append(disk, c)
			}
		}
		if crashes < 6 && e.Bool("fault", 1, 4) {
			crashes++
			e.Fault("crash")
			simrt.SeedHash(e.Seed ^ uint64(crashes)<<20)
			c2 := nodeCollection(e, coll)
			var c *checkpoint
			for k := len(disk) - 1; k >= 0; k-- {
				if disk[k].valid() {
					c = disk[k]
					break
				}
				e.Fault("fell_back_to_older_checkpoint")
			}
			if c == nil {
				hist += "[restart]"
				s, i = pr.session(c2), 0
				continue
			}
			mode := e.Int("fault", 2)
			hist += fmt.Sprintf("[crash at %d, resume %d mode %d]", i, c.next, mode)
			s, err = c.load(e, pr, c2, mode)
			if err != nil {
				e.Fail("rejected", "load:"+errSig(err), "after %s: checkpoint rejected: %v", hist, err)
				return
			}
			resumed++
			i = c.next
			e.State("resume", mode, s.foreign, len(c.nodes), i == len(pr.nodes))
			if e.Bool("fault", 1, 3) {
				// the same checkpoint is delivered again, or a stale one, and
				// somebody starts to work with it
				k := disk[e.Int("fault", len(disk))]
				if k.valid() {
					if k == c {
						e.Fault("duplicate_checkpoint")
					} else {
						e.Fault("stale_checkpoint")
					}
					o, err := k.load(e, pr, c2, e.Int("fault", 2))
					if err != nil {
						e.Fail("rejected", "load:"+errSig(err), "after %s: other checkpoint rejected: %v", hist, err)
						return
					}
					hist += fmt.Sprintf("[other %d]", k.next)
					for j, n := k.next, 1+e.Int("fault", 4); j < len(pr.nodes) && n > 0; j, n = j+1, n-1 {
						if err := o.step(j); err != nil {
							e.Fail("rejected", "stale-build:"+errSig(err), "after %s: relation %d rejected: %v", hist, j, err)
							return
						}
					}
				}
			}
		}
	}
	got, p, err := s.finish()
	if err != nil {
		e.Fail("rejected", "resumed-plan:"+errSig(err), "after %s: plan rejected: %v", hist, err)
		return
	}
	if p != nil {
		e.Digest(dumpPlan(p))
	}
	e.Trace("history %s", hist)
	for k, r := range pr.roots {
		if pi.Schemas[k] == nil {
			continue
		}
		for what, x := range map[string]*session{"uninterrupted": u, "resumed": s} {
			if d := schemaEqual(x.rels[r].RecordType(), localTypes(x, pi.Schemas[k])); d != "" {
				e.Fail("schema", "schema:"+what, "after %s: relation %d: %s: %s", hist, k, what, d)
				return
			}
		}
	}
	if !samePlan(e, "after "+hist+": intent / uninterrupted", pi.Plan, want, true) {
		return
	}
	if !samePlan(e, "after "+hist+": uninterrupted / resumed", want, got, true) {
		return
	}
	// the final plan is usable by a receiver
	q, err := plan.FromProtoWithDecoder(got, coll, fix.Decoders())
	if err != nil {
		e.Fail("rejected", "final:"+errSig(err), "after %s: the final plan is rejected: %v", hist, err)
		return
	}
	for i, r := range q.Relations() {
		if pi.Schemas[i] == nil {
			continue
		}
		fin := &session{pr: pr, reg: q.ExtensionRegistry(), names: s.names}
		if d := schemaEqual(relOf(r).RecordType(), localTypes(fin, pi.Schemas[i])); d != "" {
			e.Fail("schema", "final-schema", "after %s: relation %d: %s", hist, i, d)
			return
		}
	}
	e.Probes["resumed"] += resumed
	e.Nontrivial = resumed > 0
}
