package scen

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/eng"
)

// tcVal is one value of a test case file: how it is written and how a parsed
// test case must print it.
type tcVal struct {
	bare, typ string // as written, in a row and after "::"
	out, otyp string // as printed
}

func (v tcVal) in() string { return v.bare + "::" + v.typ }
func (v tcVal) pr() string { return v.out + "::" + v.otyp }

// tfCase is what one line must parse to.
type tfCase struct {
	Line, Group, Func, Text string
	Args                    int
	Options                 int
	Rows                    int // of the table of an aggregate case, -1 if in line
}

// tfModel is a generated test case file.
type tfModel struct {
	Text  string
	URI   string
	Agg   bool
	Cases []tfCase
}

var tcStrings = []string{"abc", "", "x y", "déjà vu", "日本語", "😄😄", "a,b", "1", "-", "ﬁn", "tab\tin"}

// tcScalar draws a value of a random type.
func tcScalar(e *eng.Ep, null bool) tcVal {
	if null && e.Bool("tf", 1, 8) {
		t := tcNulls[e.Int("tf", len(tcNulls))]
		return tcVal{[]string{"null", "Null", "NULL"}[e.Int("tf", 3)], t[0], "null", t[1]}
	}
	if e.Bool("tf", 1, 8) {
		return tcList(e)
	}
	q := ""
	if e.Bool("tf", 1, 6) {
		q = "?"
	}
	return tcOf(e, e.Int("tf", tcKinds), q)
}

// tcNulls are types a null can have, as written and as printed.
var tcNulls = [][2]string{{"i8?", "i8?"}, {"i64?", "i64?"}, {"str?", "string?"}, {"bool?", "boolean?"}, {"fp64?", "fp64?"}, {"date?", "date?"},
	{"dec?<38, 2>", "decimal?<38,2>"}, {"iyear?", "interval_year?"}, {"uuid?", "uuid?"}, {"binary?", "binary?"}, {"pts?<3>", "precision_timestamp?<3>"},
	{"ptstz?<6>", "precision_timestamp_tz?<6>"}, {"pt?<9>", "precision_time?<9>"}, {"iday?<3>", "interval_day?<3>"}, {"fchar?<7>", "fixedchar?<7>"},
	{"vchar?<7>", "varchar?<7>"}, {"fbin?<7>", "fixedbinary?<7>"}, {"list?<i8>", "list?<i8>"}, {"list?<list<str?>>", "list?<list<string?>>"}}

// tcList draws a list, which may hold lists.
func tcList(e *eng.Ep) tcVal {
	depth := 1 + e.Int("tf", 3)
	kind := []int{2, 3, 4, 6, 18}[e.Int("tf", 5)]
	q := ""
	if e.Bool("tf", 1, 3) {
		q = "?"
	}
	leaf := tcOf(e, kind, q)
	typ, otyp := leaf.typ, leaf.otyp
	var draw func(d int) (string, string)
	draw = func(d int) (string, string) {
		if d == 0 {
			if q == "?" && e.Bool("tf", 1, 4) {
				return "null", "null"
			}
			v := tcOf(e, kind, q)
			return v.bare, strings.Trim(v.out, "'")
		}
		n := e.Int("tf", 4)
		in, out := make([]string, n), make([]string, n)
		for i := range in {
			in[i], out[i] = draw(d - 1)
		}
		return "[" + strings.Join(in, ", ") + "]", "[" + strings.Join(out, ", ") + "]"
	}
	in, out := draw(depth)
	for i := 0; i < depth; i++ {
		typ, otyp = "list<"+typ+">", "list<"+otyp+">"
	}
	return tcVal{in, typ, out, otyp}
}

const tcKinds = 24

// tcOf draws a value of one kind.  The type of a kind is always the same for
// the same suffix.
func tcOf(e *eng.Ep, kind int, q string) tcVal {
	n := e.Int("tf", 128)
	if e.Bool("tf", 1, 3) {
		n = -n
	}
	num := func(v int64, t string) tcVal {
		s := fmt.Sprint(v)
		return tcVal{s, t + q, s, t + q}
	}
	quoted := func(in, t, out, ot string) tcVal {
		return tcVal{"'" + in + "'", t, "'" + out + "'", ot}
	}
	switch kind {
	case 0:
		return num(int64(n), "i8")
	case 1:
		return num(int64(n)*250, "i16")
	case 2:
		return num(int64(n)*16_000_000, "i32")
	case 3:
		return num(int64(n)*72_057_594_037_927_930, "i64")
	case 4, 5:
		s := tcStrings[e.Int("tf", len(tcStrings))]
		return quoted(s, "str"+q, s, "string"+q)
	case 6:
		b := []string{"true", "false"}[e.Int("tf", 2)]
		return tcVal{b, "bool" + q, b, "boolean" + q}
	case 7:
		s := fmt.Sprintf("%d.5", n)
		return tcVal{s, "fp64" + q, s, "fp64" + q}
	case 8:
		s := fmt.Sprintf("%d.25", n)
		return tcVal{s, "fp32" + q, s, "fp32" + q}
	case 9:
		s := fmt.Sprintf("%d.%02d", n, e.Int("tf", 100))
		return tcVal{s, "dec" + q + "<38, 2>", s, "decimal" + q + "<38,2>"}
	case 10:
		s := fmt.Sprintf("%04d-%02d-%02d", 1900+e.Int("tf", 200), 1+e.Int("tf", 12), 1+e.Int("tf", 28))
		return quoted(s, "date"+q, s, "date"+q)
	case 11:
		s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", 1900+e.Int("tf", 200), 1+e.Int("tf", 12), 1+e.Int("tf", 28), e.Int("tf", 24), e.Int("tf", 60), e.Int("tf", 60))
		return quoted(s, "ts"+q, s, "timestamp"+q)
	case 12:
		d, h := 2+e.Int("tf", 26), e.Int("tf", 24)
		return quoted(fmt.Sprintf("1999-01-%02dT%02d:05:06+00:00", d, h), "tstz"+q, fmt.Sprintf("1999-01-%02dT%02d:05:06", d, h), "timestamp_tz"+q)
	case 13:
		// written in another zone: printed in UTC whatever the zone of the host
		d, h := 2+e.Int("tf", 26), e.Int("tf", 16)
		return quoted(fmt.Sprintf("1999-01-%02dT%02d:05:06-08:00", d, h), "tstz"+q, fmt.Sprintf("1999-01-%02dT%02d:05:06", d, h+8), "timestamp_tz"+q)
	case 14:
		y, m := 1+e.Int("tf", 20), 1+e.Int("tf", 11)
		s := fmt.Sprintf("P%dY%dM", y, m)
		return quoted(s, "iyear"+q, s, "interval_year"+q)
	case 15:
		s := fmt.Sprintf("P%dD", 1+e.Int("tf", 300))
		return quoted(s, "iday"+q, s, "interval_day"+q+"<0>")
	case 16:
		s := fmt.Sprintf("%02d:%02d:%02d", e.Int("tf", 24), e.Int("tf", 60), e.Int("tf", 60))
		return quoted(s, "time"+q, s+".000000", "time"+q)
	case 18:
		l := 9
		s := "abcdef"[:1+e.Int("tf", 6)]
		return quoted(s, fmt.Sprintf("fchar%s<%d>", q, l), s, fmt.Sprintf("fixedchar%s<%d>", q, l))
	case 19:
		l := 9
		s := "abcdef"[:1+e.Int("tf", 6)]
		return quoted(s, fmt.Sprintf("fbin%s<%d>", q, l), fmt.Sprintf("0x%x", s), fmt.Sprintf("fixedbinary%s<%d>", q, l))
	case 20:
		p := []int{0, 3, 6, 9}[e.Int("tf", 4)]
		s := fmt.Sprintf("%02d:%02d:%02d", e.Int("tf", 24), e.Int("tf", 60), e.Int("tf", 60)) + tcFrac[p]
		return quoted(s, fmt.Sprintf("pt%s<%d>", q, p), s, fmt.Sprintf("precision_time%s<%d>", q, p))
	case 21:
		p := []int{0, 3, 6, 9}[e.Int("tf", 4)]
		s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", 1900+e.Int("tf", 200), 1+e.Int("tf", 12), 1+e.Int("tf", 28), e.Int("tf", 24), e.Int("tf", 60), e.Int("tf", 60)) + tcFrac[p]
		return quoted(s, fmt.Sprintf("pts%s<%d>", q, p), s, fmt.Sprintf("precision_timestamp%s<%d>", q, p))
	case 22:
		p := []int{0, 3, 6, 9}[e.Int("tf", 4)]
		d, h := 2+e.Int("tf", 26), e.Int("tf", 16)
		f := "000"
		if p > 0 {
			f = tcFrac[p][1:4]
		}
		return quoted(fmt.Sprintf("1999-01-%02dT%02d:05:06%s-08:00", d, h, tcFrac[p]), fmt.Sprintf("ptstz%s<%d>", q, p),
			fmt.Sprintf("1999-01-%02dT%02d:05:06.%s+00:00", d, h+8, f), fmt.Sprintf("precision_timestamp_tz%s<%d>", q, p))
	case 23:
		p := []int{0, 3, 6, 9}[e.Int("tf", 4)]
		s := fmt.Sprintf("P%dDT%dH%dM%dS", 1+e.Int("tf", 300), 1+e.Int("tf", 23), 1+e.Int("tf", 59), 1+e.Int("tf", 59))
		return quoted(s, fmt.Sprintf("iday%s<%d>", q, p), s, fmt.Sprintf("interval_day%s<%d>", q, p))
	default:
		l := 9 + e.Int("tf", 3)
		s := "abc"[:1+e.Int("tf", 3)]
		return quoted(s, fmt.Sprintf("vchar%s<%d>", q, l), s, fmt.Sprintf("varchar%s<%d>", q, l))
	}
}

// tcFrac is a fraction of a second of each precision.
var tcFrac = map[int]string{0: "", 3: ".125", 6: ".125375", 9: ".125375625"}

var tcOptions = []string{"overflow:ERROR", "overflow:SATURATE", "rounding:TIE_TO_EVEN", "null_handling:IGNORE_NULLS", "case_sensitivity:CASE_SENSITIVE"}

func tcOpts(e *eng.Ep) (string, string, int) {
	n := 0
	if e.Bool("tf", 1, 3) {
		n = 1 + e.Int("tf", 2)
	}
	if n == 0 {
		return "", "", 0
	}
	a := tcOptions[e.Int("tf", 3)]
	if n == 1 {
		return " [" + a + "]", " [" + a + "]", 1
	}
	b := tcOptions[3+e.Int("tf", 2)]
	ord := []string{a, b}
	if e.Bool("tf", 1, 2) {
		ord[0], ord[1] = b, a
	}
	s := []string{a, b}
	if s[0] > s[1] {
		s[0], s[1] = s[1], s[0]
	}
	return " [" + ord[0] + ", " + ord[1] + "]", " [" + s[0] + "," + s[1] + "]", 2
}

func tcResult(e *eng.Ep) (string, string) {
	switch e.Int("tf", 6) {
	case 0:
		return "<!ERROR>", "<!ERROR>"
	case 1:
		return "<!UNDEFINED>", "<!UNDEFINED>"
	}
	v := tcScalar(e, true)
	return v.in(), v.pr()
}

var tcNames = []string{"add", "subtract", "concat", "lt", "between", "f1", "regexp_match", "my_func", "coalesce"}
var tcURIs = []string{"/extensions/functions_arithmetic.yaml", "/extensions/functions_string.yaml", "extension:io.substrait:functions_comparison", "extension:sim:base"}

// drawTestFile generates a test case file.
func drawTestFile(e *eng.Ep) *tfModel {
	m := &tfModel{URI: tcURIs[e.Int("tf", len(tcURIs))], Agg: e.Bool("tf", 2, 5)}
	var sb strings.Builder
	kind := "SCALAR"
	if m.Agg {
		kind = "AGGREGATE"
	}
	nl := "\n"
	if e.Bool("tf", 1, 8) {
		nl = "\r\n"
	}
	fmt.Fprintf(&sb, "### SUBSTRAIT_%s_TEST: v1.0%s### SUBSTRAIT_INCLUDE: '%s'%s", kind, nl, m.URI, nl)
	groups := 1 + e.Count("tf", 4)
	for g := 0; g < groups; g++ {
		desc := fmt.Sprintf("group%d: %s", g, []string{"basic", "über alles", "overflow, and more", "日本"}[e.Int("tf", 4)])
		fmt.Fprintf(&sb, "%s# %s%s", nl, desc, nl)
		n := 1 + e.Count("tf", 6)
		if e.Bool("tf", 1, 12) {
			n += 60 // a file larger than the buffers of a reader
		}
		for i := 0; i < n; i++ {
			c := tfCase{Group: desc, Func: tcNames[e.Int("tf", len(tcNames))], Rows: -1}
			if m.Agg {
				c.aggregate(e, nl)
			} else {
				c.scalar(e)
			}
			m.Cases = append(m.Cases, c)
			sb.WriteString(c.Line + nl)
		}
	}
	m.Text = sb.String()
	return m
}

func (c *tfCase) scalar(e *eng.Ep) {
	// a call has at least one argument in the grammar
	n := 1 + e.Int("tf", 4)
	var in, out []string
	for i := 0; i < n; i++ {
		if e.Bool("tf", 1, 12) {
			v := []string{"SAMPLE", "UNIX_TIME"}[e.Int("tf", 2)] + "::enum"
			in, out = append(in, v), append(out, v)
			continue
		}
		v := tcScalar(e, true)
		in, out = append(in, v.in()), append(out, v.pr())
	}
	oi, oo, no := tcOpts(e)
	ri, ro := tcResult(e)
	c.Args, c.Options = n, no
	c.Line = fmt.Sprintf("%s(%s)%s = %s", c.Func, strings.Join(in, ", "), oi, ri)
	c.Text = fmt.Sprintf("%s(%s)%s = %s", c.Func, strings.Join(out, ", "), oo, ro)
}

// tcColumn draws n values of one kind, some of them null.
func tcColumn(e *eng.Ep, n int) (ins, outs []string, typ, otyp string) {
	kind := []int{0, 1, 2, 3, 7, 9, 8, 4, 6, 10, 11, 13, 14, 15, 16, 17, 18, 19}[e.Int("tf", 18)]
	q := ""
	if e.Bool("tf", 1, 4) {
		q = "?"
	}
	v := tcOf(e, kind, q)
	typ, otyp = v.typ, v.otyp
	for i := 0; i < n; i++ {
		if q == "?" && e.Bool("tf", 1, 4) {
			ins, outs = append(ins, "Null"), append(outs, "null")
			continue
		}
		x := tcOf(e, kind, q)
		ins, outs = append(ins, x.bare), append(outs, x.out)
	}
	return
}

func (c *tfCase) aggregate(e *eng.Ep, nl string) {
	oi, oo, no := tcOpts(e)
	ri, ro := tcResult(e)
	c.Options = no
	rows := 1 + e.Count("tf", 4)
	switch e.Int("tf", 3) {
	case 0:
		// one column in line
		ins, outs, t, ot := tcColumn(e, rows)
		c.Args = 1
		c.Line = fmt.Sprintf("%s((%s)::%s)%s = %s", c.Func, strings.Join(ins, ", "), t, oi, ri)
		c.Text = fmt.Sprintf("%s((%s)::%s)%s = %s", c.Func, strings.Join(outs, ", "), ot, oo, ro)
	default:
		cols := 1 + e.Count("tf", 3)
		define := e.Bool("tf", 1, 3)
		if define && e.Bool("tf", 1, 8) {
			rows = 0
		}
		var ai, ao, ct []string
		ri2, ro2 := make([][]string, rows), make([][]string, rows)
		for k := 0; k < cols; k++ {
			ins, outs, t, ot := tcColumn(e, rows)
			for r := range ins {
				ri2[r], ro2[r] = append(ri2[r], ins[r]), append(ro2[r], outs[r])
			}
			ct = append(ct, t)
			if define {
				ai = append(ai, fmt.Sprintf("t1.col%d", k))
			} else {
				ai = append(ai, fmt.Sprintf("col%d::%s", k, t))
			}
			ao = append(ao, fmt.Sprintf("col%d::%s", k, ot))
		}
		var ti, to []string
		for r := range ri2 {
			ti, to = append(ti, "("+strings.Join(ri2[r], ", ")+")"), append(to, "("+strings.Join(ro2[r], ", ")+")")
		}
		c.Rows = rows
		if e.Bool("tf", 1, 4) {
			v := tcOf(e, e.Int("tf", tcKinds), "")
			ai, ao = append(ai, v.in()), append(ao, v.pr())
		}
		if e.Bool("tf", 1, 4) {
			for i := len(ai) - 1; i > 0; i-- {
				j := e.Int("tf", i+1)
				ai[i], ai[j], ao[i], ao[j] = ai[j], ai[i], ao[j], ao[i]
			}
		}
		if define && e.Bool("tf", 1, 6) {
			ai, ao = nil, nil
		}
		c.Args = len(ai)
		c.Line = fmt.Sprintf("(%s) %s(%s)%s = %s", strings.Join(ti, ", "), c.Func, strings.Join(ai, ", "), oi, ri)
		if define {
			c.Line = fmt.Sprintf("DEFINE t1(%s) = (%s)%s%s(%s)%s = %s", strings.Join(ct, ", "), strings.Join(ti, ", "), nl, c.Func, strings.Join(ai, ", "), oi, ri)
		}
		c.Text = fmt.Sprintf("(%s) %s(%s)%s = %s", strings.Join(to, ", "), c.Func, strings.Join(ao, ", "), oo, ro)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
