package scen

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/eng"
	"verifsim/fix"
	"verifsim/obs"
)

func init() {
	register("C11", Scenario{Name: "aggregate-builder", Weight: 2, Run: c11Aggregates})
}

// c11Aggregates: one aggregate builder is used for a whole history of calls,
// some of which it rejects.  A model of what was asked for says what each
// Build must give.
func c11Aggregates(e *eng.Ep) {
	b := plan.NewBuilder(fix.Sim())
	schema := func(n string) types.NamedStruct {
		return types.NamedStruct{Names: []string{n, n + "1"}, Struct: types.StructType{Nullability: types.NullabilityRequired, Types: []types.Type{
			&types.Int64Type{Nullability: types.NullabilityRequired}, &types.Int64Type{Nullability: types.NullabilityNullable}}}}
	}
	inputs := []plan.Rel{b.NamedScan([]string{"x"}, schema("a")), b.NamedScan([]string{"y"}, schema("b")), nil}
	var pool []expr.Expression
	for i := 0; i < 4; i++ {
		pool = append(pool, expr.NewPrimitiveLiteral(int64(i/2), false))
	}
	pool = append(pool, nil)
	var measures []plan.AggRelMeasure
	for i := 0; i < 3; i++ {
		f, err := b.AggregateFn("extension:sim:agg", "sum:i64", nil, pool[i])
		if err != nil {
			e.Fail("mismatch", "setup", "the aggregate function was rejected: %v", err)
			return
		}
		measures = append(measures, b.Measure(f, nil))
	}
	// the model
	input := inputs[e.Int("cfg", 3)]
	ms := measures[:e.Int("cfg", 4)]
	var exprs []expr.Expression
	var sets [][]uint32
	arb := b.GetRelBuilder().AggregateRel(input, append([]plan.AggRelMeasure{}, ms...))
	var kept []plan.Rel
	var texts []string
	refs := func() []uint32 {
		var l []uint32
		for i := e.Int("hist", 4); i > 0; i-- {
			l = append(l, uint32(e.Int("hist", len(exprs)+1+e.Int("hist", 2))))
		}
		return l
	}
	clone := func(l []uint32) []uint32 { return append([]uint32{}, l...) }
	for i := 3 + e.Int("cfg", 14); i > 0; i-- {
		switch k := e.Int("hist", 16); {
		case k < 4:
			x := pool[e.Int("hist", len(pool))]
			if x == nil && !e.Bool("hist", 1, 3) {
				x = pool[0]
			}
			at := -1
			for j, y := range exprs {
				if x == y {
					at = j
				}
			}
			if at < 0 {
				at = len(exprs)
				exprs = append(exprs, x)
			}
			got := arb.AddExpression(x)
			e.Trace("add expression -> %d", got)
			if got != uint32(at) {
				e.Fail("mismatch", "expression", "expression %d got reference %d", at, got)
				return
			}
		case k < 6:
			l := refs()
			e.Trace("add grouping set %v", l)
			sets = append(sets, clone(l))
			arb.AddGroupingSet(l)
		case k < 7:
			l := refs()
			e.Trace("add rollup %v", l)
			for j := len(l); j > 0; j-- {
				sets = append(sets, clone(l[:j]))
			}
			arb.AddRollup(l)
		case k < 9:
			l := refs()
			if e.Bool("hist", 1, 2) {
				for len(l) < 21+e.Int("hist", 3) {
					l = append(l, 0)
				}
			}
			err := arb.AddCube(l)
			e.Trace("add cube of %d: %v", len(l), err)
			if (err != nil) != (len(l) > 20) {
				e.Fail("mismatch", "cube", "a cube of %d references: %v", len(l), err)
				return
			}
			if err != nil {
				e.Fault("rejected_step")
				continue
			}
			for m := 1; m < 1<<len(l); m++ {
				var s []uint32
				for j := range l {
					if m>>j&1 == 1 {
						s = append(s, l[j])
					}
				}
				sets = append(sets, s)
			}
		case k < 10:
			e.Trace("replace input")
			input = inputs[e.Int("hist", 3)]
			arb.ReplaceInput(&input)
		case k < 11 && e.Bool("hist", 1, 2):
			if e.Bool("hist", 1, 2) {
				e.Trace("clear measures")
				ms = nil
				arb.ClearMeasures()
			} else {
				e.Trace("clear grouping")
				exprs, sets = nil, nil
				arb.ClearGrouping()
			}
		default:
			want := ""
			bad := input == nil || len(ms) == 0 && (len(sets) == 0 || len(exprs) == 0)
			for _, x := range exprs {
				bad = bad || x == nil
			}
			for _, s := range sets {
				for _, r := range s {
					bad = bad || int(r) >= len(exprs)
				}
			}
			if !bad {
				want = obs.Call(func() string {
					f := b.GetRelBuilder().AggregateRel(input, append([]plan.AggRelMeasure{}, ms...))
					for _, x := range exprs {
						f.AddExpression(x)
					}
					for _, s := range sets {
						f.AddGroupingSet(clone(s))
					}
					r, err := f.Build()
					if err != nil {
						return "rejected"
					}
					return relText(r)
				})
			} else {
				want = "rejected"
				e.Fault("rejected_step")
				e.Nontrivial = true
			}
			var r *plan.AggregateRel
			got := obs.Call(func() string {
				var err error
				if r, err = arb.Build(); err != nil {
					return "rejected"
				}
				return relText(r)
			})
			e.Digest(got)
			e.State(bad, len(exprs), len(sets), len(ms))
			e.Trace("build: %s", clip(got, 40))
			if got != want {
				e.Fail("mismatch", "aggregate", "Build of %d measures, %d expressions and the grouping sets %s: asked for / got: %s", len(ms), len(exprs), fmt.Sprint(sets), firstDiff(want, got))
				return
			}
			if r != nil && !bad {
				kept, texts = append(kept, r), append(texts, got)
			}
		}
	}
	for i, r := range kept {
		if got := relText(r); got != texts[i] {
			e.Fail("altered", "aggregate", "an aggregation built earlier changed: %s", firstDiff(texts[i], got))
			return
		}
	}
}
