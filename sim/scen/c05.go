package scen

import (
	"fmt"
	"strings"
	"time"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/testcases/parser"

	"verifsim/eng"
	"verifsim/fix"
	"verifsim/flt"
	"verifsim/simrt"
)

func init() {
	register("C05", Scenario{Name: "replicas", Weight: 6, Run: c05Replicas})
	register("C05", Scenario{Name: "sessions", Weight: 1, Run: func(e *eng.Ep) {
		sharedOps(e, map[string]bool{"program": true, "expr-build": true, "plan-decode": true, "references": true, "literal": true}, 3, 3)
	}})
}

// host is what differs between the replicas of a history.
type host struct {
	hash  uint64
	zone  *time.Location
	plans map[string]*flt.Plan // how storage splits what is read
}

var hostZones = []*time.Location{time.UTC, time.FixedZone("east", 5*3600+1800), time.FixedZone("west", -8*3600), time.FixedZone("far", 14*3600), time.FixedZone("odd", -(3*3600 + 25*60 + 7))}

// enter makes the process run on the host until the returned function is called.
func (h host) enter() func() {
	old := time.Local
	if h.zone != nil { // nil: the process as it is
		simrt.SeedHash(h.hash)
		time.Local = h.zone
	}
	return func() { time.Local = old }
}

// c05Replicas performs one history of library calls on several hosts and
// compares everything it gives.
func c05Replicas(e *eng.Ep) {
	spec := drawSpec(e, 1)
	if spec.shared == fix.Sim() {
		spec.shared, spec.files = nil, loadOrder(e, fix.Files)
	}
	var ops []op
	only := map[string]bool(nil)
	if e.Bool("cfg", 1, 4) {
		only = map[string]bool{opKinds[e.Int("cfg", len(opKinds))].name: true}
	}
	for i := 2 + e.Count("cfg", 8); i > 0; i-- {
		o := spec.drawOf(e, only)
		e.Trace("op %s", o.name)
		ops = append(ops, o)
	}
	n := 2 + e.Int("cfg", 2)
	var hosts []host
	for i := 0; i < n; i++ {
		h := host{hash: e.Seed ^ uint64(i*7919+1+e.Int("net", 1<<16))<<8, zone: hostZones[e.Int("net", len(hostZones))], plans: map[string]*flt.Plan{}}
		for _, f := range spec.files {
			h.plans[f.URN] = flt.Draw(e, len(f.Text), false)
		}
		if spec.dl != nil {
			h.plans["dialect"] = flt.Draw(e, len(spec.dl.Text), false)
		}
		if spec.tf != nil {
			h.plans["test file"] = flt.Draw(e, len(spec.tf.Text), false)
		}
		if i == 0 {
			h.zone = nil
		} else {
			e.Fault("hash_seed_change")
			e.Fault("time_zone_change")
		}
		hosts = append(hosts, h)
	}
	var first []string
	var names []string
	for i, h := range hosts {
		var got []string
		names = names[:0]
		add := func(n, s string) { names, got = append(names, n), append(got, s) }
		e.Serial("replica", 200_000_000, func() {
			defer h.enter()()
			w := spec.makeOn(e, h)
			for _, v := range snapshotList(w.snapshot()) {
				add(v[0], v[1])
			}
			for _, o := range ops {
				add("op:"+o.kind+" "+o.name, o.run(w))
			}
			for _, v := range snapshotList(w.snapshot()) {
				add("after:"+v[0], v[1])
			}
		})
		if e.Failed() {
			return
		}
		if i == 0 {
			first = got
			for _, s := range got {
				e.Digest(s)
			}
			continue
		}
		e.Nontrivial = true
		for j, s := range got {
			if j >= len(first) || s != first[j] {
				k, _, _ := strings.Cut(names[j], " ")
				e.Fail("mismatch", "replica:"+k, "replica %d (zone %s) differs from replica 0 in %s: %s", i, h.zone, names[j], firstDiff(first[j], s))
				return
			}
		}
	}
}

// makeOn is make with everything that is read coming through the host's storage.
func (s *opSpec) makeOn(e *eng.Ep, h host) *world {
	c := *s
	if s.shared == nil {
		c.shared = &extensions.Collection{}
		for _, f := range s.files {
			if err := c.shared.Load(flt.NewReader(e, []byte(f.Text), h.plans[f.URN].Fresh())); err != nil {
				panic(fmt.Errorf("%s: %w", f.URN, err))
			}
		}
	}
	w := c.make()
	if s.dl != nil {
		d, err := functions.LoadDialect("dl", flt.NewReader(e, []byte(s.dl.Text), h.plans["dialect"].Fresh()))
		if err != nil {
			panic(err)
		}
		w.dialect = d
		if w.lfreg, err = d.LocalizeFunctionRegistry(w.freg); err != nil {
			panic(err)
		}
		if w.ltreg, err = d.LocalizeTypeRegistry(w.treg); err != nil {
			panic(err)
		}
	}
	if s.tf != nil {
		fs := &flt.FS{E: e, Data: map[string][]byte{"f": []byte(s.tf.Text)}, Plans: map[string]*flt.Plan{"f": h.plans["test file"].Fresh()}}
		f, err := fs.Open("f")
		if err != nil {
			panic(err)
		}
		t, err := parser.ParseTestCasesFromFile(f)
		if err != nil {
			panic(err)
		}
		w.tf = t
	}
	return w
}

func snapshotList(m map[string]string) [][2]string {
	var out [][2]string
	for _, k := range sortedKeys(m) {
		out = append(out, [2]string{k, m[k]})
	}
	return out
}
