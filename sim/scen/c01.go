package scen

import (
	"fmt"

	"verifsim/eng"
)

func init() {
	register("C01", Scenario{Name: "shared-objects", Weight: 3, Run: func(e *eng.Ep) { sharedOps(e, nil, 4, 4) }})
	register("C01", Scenario{Name: "same-kind", Weight: 2, Run: c01SameKind})
	register("C01", Scenario{Name: "same-ops", Weight: 5, Run: c01SameOps})
}

// c01SameKind has every task do the same kind of thing on the same objects.
func c01SameKind(e *eng.Ep) {
	k := opKinds[e.Int("cfg", len(opKinds))].name
	sharedOps(e, map[string]bool{k: true}, 3, 4)
}

// c01SameOps has every task do the same few things on the same objects, each
// in an order of its own.
func c01SameOps(e *eng.Ep) {
	spec := drawSpec(e, 1)
	var l []op
	for j := 1 + e.Int("cfg", 3); j > 0; j-- {
		l = append(l, spec.drawOf(e, nil))
	}
	var all [][]op
	for i := 2 + e.Int("cfg", 2); i > 0; i-- {
		k := e.Int("cfg", len(l))
		all = append(all, append(append([]op{}, l[k:]...), l[:k]...))
	}
	runShared(e, spec, all)
}

// sharedOps draws operations for several tasks and runs them.
func sharedOps(e *eng.Ep, only map[string]bool, tasks, each int) {
	spec := drawSpec(e, 1)
	var all [][]op
	n := 2 + e.Int("cfg", tasks-1)
	for i := 0; i < n; i++ {
		var l []op
		for j := 1 + e.Int("cfg", each); j > 0; j-- {
			l = append(l, spec.drawOf(e, only))
		}
		all = append(all, l)
	}
	runShared(e, spec, all)
}

// runShared runs operations on one set of live objects from several tasks and
// compares every result with the same operation run alone on an identical set.
func runShared(e *eng.Ep, spec *opSpec, all [][]op) {
	n := len(all)
	a, b := spec.make(), spec.make()
	before := a.snapshot()
	want := make([][]string, n)
	serial := func(w *world, what string, out [][]string) bool {
		e.Serial(what, 200_000_000, func() {
			for i, l := range all {
				for _, o := range l {
					out[i] = append(out[i], o.run(w))
				}
			}
		})
		return !e.Failed()
	}
	if !serial(b, "operations alone", want) {
		return
	}
	got := make([][]string, n)
	var fns []func()
	for i, l := range all {
		got[i] = make([]string, len(l))
		fns = append(fns, func() {
			for j, o := range l {
				got[i][j] = o.run(a)
			}
		})
		for _, o := range l {
			e.Trace("task %d: %s", i, o.name)
		}
	}
	e.Concurrent(8000, fns)
	if e.Failed() {
		return
	}
	compare := func(when string, got [][]string) {
		for i, l := range all {
			for j, o := range l {
				e.Digest(got[i][j])
				if got[i][j] != want[i][j] {
					e.Fail("mismatch", "mismatch:"+o.kind, "%s: task %d %s: alone / %s: %s", when, i, o.name, when, firstDiff(want[i][j], got[i][j]))
					return
				}
			}
		}
	}
	compare("concurrent", got)
	if e.Failed() {
		return
	}
	if s, d := diffMaps(before, a.snapshot()); s != "" {
		e.Fail("altered", "altered:"+objKind(s), "concurrent use changed %s: %s", s, d)
		return
	}
	again := make([][]string, n)
	if !serial(a, "operations afterwards", again) {
		return
	}
	compare("afterwards", again)
}

func objKind(s string) string {
	for i, r := range s {
		if r == ' ' {
			return s[:i]
		}
	}
	return fmt.Sprint(s)
}
