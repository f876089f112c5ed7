package scen

import (
	"fmt"
	"strings"
	"time"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/eng"
	"verifsim/obs"
)

var litTexts = []string{"2023-02-28", "1969-12-31", "12:34:56", "23:59:59.999999", "00:00:00.5", "2021-01-02T03:04:05", "2021-01-02T03:04:05.678901", "1950-06-07T08:09:10Z", "2021-07-02T03:04:05+05:30", "2021-07-02T03:04:05.25-08:00",
	"P1Y2M", "P-3Y", "P5M", "P1DT2H3M4S", "P2D", "PT0.5S", "P-1DT-2H", "123.456", "-0.001", "99999999999999999999999999999999999999", "1e3", "nonsense", "", "25:00:00", "2023-02-30"}

// literalOf makes literal k from the text and numbers given.
func literalOf(k int, txt string, n int64, null bool) (expr.Literal, error) {
	one := func(l expr.Literal) (expr.Literal, error) { return l, nil }
	zone := []*time.Location{time.UTC, time.FixedZone("a", 19800), time.FixedZone("b", -28800)}[uint64(n)%3]
	at := time.Unix(n%4_000_000_000, (n%997)*1_001_003).In(zone)
	p := types.TimePrecision(uint64(n) % 10)
	switch k {
	case 0:
		return literal.NewDateFromString(txt, null)
	case 1:
		return literal.NewTimeFromString(txt, null)
	case 2:
		return literal.NewTimestampFromString(txt, null)
	case 3:
		return literal.NewTimestampTZFromString(txt, null)
	case 4:
		return literal.NewIntervalYearsToMonthFromString(txt, null)
	case 5:
		return literal.NewIntervalDaysToSecondFromString(txt, null)
	case 6:
		return literal.NewDecimalFromString(txt, null)
	case 7:
		return literal.NewPrecisionTimeFromString(p, txt, null)
	case 8:
		return literal.NewPrecisionTimestampFromString(p, txt, null)
	case 9:
		return literal.NewPrecisionTimestampTzFromString(p, txt, null)
	case 10:
		return literal.NewTimestamp(at, null)
	case 11:
		return literal.NewTimestampTZ(at, null)
	case 12:
		return literal.NewPrecisionTimestampFromTime(p, at, null)
	case 13:
		return literal.NewPrecisionTimestampTzFromTime(p, at, null)
	case 14:
		return literal.NewPrecisionTimeFromTime(p, at, null)
	case 15:
		return literal.NewDate(int(n%1_000_000), null)
	case 16:
		return literal.NewTime(int32(n%24), int32(n%60), int32(n%60), int32(n%1_000_000), null)
	case 17:
		return literal.NewFixedChar(txt, null)
	case 18:
		return literal.NewVarChar(txt, null)
	case 19:
		return literal.NewFixedBinary([]byte(txt), null)
	case 20:
		return literal.NewUUIDFromBytes([]byte("0123456789abcdef"), null)
	case 21:
		return literal.NewList([]expr.Literal{literal.NewInt64(n, false), literal.NewInt64(n+1, false)}, null)
	case 22:
		return literal.NewMap(expr.MapLiteralValue{{Key: literal.NewString(txt, false), Value: literal.NewInt32(int32(n), null)}, {Key: literal.NewString(txt+"x", false), Value: literal.NewInt32(1, null)}}, null)
	case 23:
		return literal.NewEmptyList(&types.StringType{Nullability: types.NullabilityNullable}, null)
	case 24:
		return literal.NewEmptyMap(&types.StringType{}, &types.Int8Type{Nullability: types.NullabilityNullable}, null)
	case 25:
		return one(literal.NewBool(n%2 == 0, null))
	case 26:
		return one(literal.NewString(txt, null))
	case 27:
		return one(literal.NewFloat64(float64(n)/3, null))
	case 28:
		return literal.NewIntervalDaysToSecond(int32(n%1000), int32(n%86400), n%1_000_000, null)
	case 29:
		return literal.NewIntervalYearsToMonth(int32(n%100), int32(n%12), null)
	case 30:
		return expr.NewLiteral(txt, null)
	case 31:
		return expr.NewLiteral(n, null)
	case 32:
		return literal.NewUserDefinedLiteral(uint32(n%7), expr.StructLiteralValue{literal.NewString(txt, false), literal.NewInt8(int8(n), null)}, null, nil)
	}
	return literal.NewTimestampFromMicros(n, null)
}

func litText(l expr.Literal, err error) string {
	if err != nil {
		return "error"
	}
	return obs.Dump(l) + exprText(l) + l.String() + l.ValueString()
}

func drawLiteral(e *eng.Ep) (int, string, int64, bool) {
	return e.Int("op", 34), pickOf(e, litTexts), int64(e.Int("op", 1<<40)) - 1<<38, e.Bool("op", 1, 2)
}

func (s *opSpec) opLiteral(e *eng.Ep) *op {
	k, txt, n, null := drawLiteral(e)
	return &op{name: fmt.Sprintf("literal %d %q %d", k, txt, n), run: func(_ *world) string { return litText(literalOf(k, txt, n, null)) }}
}

func (s *opSpec) opProgram(e *eng.Ep) *op {
	if len(s.progs) == 0 {
		return nil
	}
	pr := s.progs[e.Int("op", len(s.progs))]
	return &op{name: "program", run: func(w *world) string {
		x := pr.session(w.coll)
		if err := x.all(); err != nil {
			return "rejected: " + errText(err)
		}
		m, p, err := x.finish()
		if err != nil {
			return "error"
		}
		var sb strings.Builder
		for i := range pr.nodes {
			sb.WriteString(obs.Dump(x.rels[i].RecordType()))
		}
		return planText(p) + obs.Text(m) + sb.String()
	}}
}

// opReference makes and compares references, sets and extension declarations
// on private objects over the shared collection.
func (s *opSpec) opReference(e *eng.Ep) *op {
	var items []extensions.FunctionID
	for i := 1 + e.Int("op", 4); i > 0; i-- {
		it := s.item(e)
		items = append(items, extensions.FunctionID{URN: it.URN, Name: it.Name})
	}
	return &op{name: "references", run: func(w *world) string {
		set := extensions.NewSet()
		var sb strings.Builder
		for _, id := range items {
			a := set.GetFuncAnchor(id)
			f, ok := set.LookupScalarFunction(a, w.coll)
			fmt.Fprint(&sb, a, ok)
			if ok {
				sb.WriteString(fnView(f, true))
			}
		}
		us, ds := set.ToProto(w.coll)
		return sb.String() + declText(us, ds)
	}}
}
