package scen

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"runtime/debug"
	"strings"

	"github.com/substrait-io/substrait"

	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/testcases/parser"

	"verifsim/eng"
	"verifsim/fix"
	"verifsim/flt"
	"verifsim/obs"
)

func init() {
	register("C04", Scenario{Name: "dialect-storage", Weight: 2, Run: c04Dialect})
	register("C04", Scenario{Name: "testcase-storage", Weight: 3, Run: c04TestCases})
}

// inflated is the text with so much filling in front of what matters that it
// passes the sizes buffers commonly have; pos is where the filling may go.
func inflated(e *eng.Ep, text string, pos int, fill func(n int) string) string {
	if e.Int("disk", 30) != 29 {
		return text
	}
	n := []int{600, 5_000, 70_000, 1_200_000}[e.Int("disk", 4)]
	e.Probe(fmt.Sprint("inflated:", n))
	return text[:pos] + fill(n) + text[pos:]
}

// c04Damaged are the bytes found on the disk: the file, a torn write of it, or
// a corrupted one.
func c04Damaged(e *eng.Ep, text string) (string, string) {
	switch e.Int("disk", 8) {
	case 0, 1, 2, 3:
		return text, ""
	case 4:
		e.Fault("torn_write")
		return text[:e.Int("disk", len(text)+1)], "torn"
	case 5:
		b := []byte(text)
		n := 1 + e.Int("disk", 3)
		for i := 0; i < n && len(b) > 0; i++ {
			b[e.Int("disk", len(b))] ^= byte(1 << e.Int("disk", 8))
		}
		e.Fault("bit_flip")
		return string(b), "flipped"
	case 6:
		// a lost block
		a := e.Int("disk", len(text)+1)
		z := min(len(text), a+1+e.Int("disk", 512))
		e.Fault("lost_block")
		return text[:a] + strings.Repeat("\x00", z-a) + text[z:], "zeroed"
	default:
		e.Fault("lost_write")
		return "", "empty"
	}
}

// c04Outcome checks what a load that went through failing storage returned.
// It reports whether the result can be compared.
func c04Outcome(e *eng.Ep, what string, r *flt.Reader, p *flt.Plan, isNil bool, err error, panicked string) bool {
	switch {
	case panicked != "":
		e.Fail("panic", what, "%s panicked: %s (%s)", what, panicked, p.Desc)
	case isNil && err == nil:
		e.Fail("partial", what+":nil", "%s returned neither a result nor an error (%s)", what, p.Desc)
	case r.Fired && err == nil:
		e.Fail("partial", what+":swallowed", "%s returned a result although reading failed with %q (%s)", what, p.Err, p.Desc)
	case r.Fired && !errors.Is(err, p.Err):
		e.Fail("error", what+":cause", "%s returned %q for the storage error %q (%s)", what, clip(err.Error(), 300), p.Err, p.Desc)
	case err != nil && !isNil:
		e.Fail("partial", what+":both", "%s returned a result together with the error %q", what, clip(err.Error(), 300))
	case err == nil && !r.AtEOF:
		e.Fail("partial", what+":early", "%s returned a result without reading the file to its end (%s)", what, p.Desc)
	default:
		return true
	}
	return false
}

func guard(f func()) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint(r)
			if os.Getenv("SIM_STACK") != "" {
				s += string(debug.Stack())
			}
		}
	}()
	f()
	return
}

// dialectView is everything a dialect answers.
func dialectView(m *dlModel, d functions.Dialect, r *c12Reg) string {
	return obs.Call(func() string {
		var sb strings.Builder
		fmt.Fprintf(&sb, "name %s\n", d.Name())
		tr, err := d.LocalizeTypeRegistry(functions.NewTypeRegistry())
		fmt.Fprintf(&sb, "types ok=%v\n", err == nil)
		if err == nil {
			v := dlTypeView(tr, m.locals())
			for _, k := range sortedKeys(v) {
				fmt.Fprintf(&sb, "%s => %s\n", k, v[k])
			}
		}
		lr, err := d.LocalizeFunctionRegistry(r.reg)
		fmt.Fprintf(&sb, "functions ok=%v\n", err == nil)
		if err == nil {
			v := dlFnView(lr, m.Names)
			for _, k := range sortedKeys(v) {
				fmt.Fprintf(&sb, "%s => %v\n", k, v[k])
			}
		}
		return sb.String()
	})
}

func c04Dialect(e *eng.Ep) {
	c := fix.Sim()
	if e.Bool("cfg", 1, 6) {
		c = fix.Default()
	}
	reg := &c12Reg{c: c, reg: functions.NewFunctionRegistry(c), all: true}
	m := drawDialect(e, c, e.Bool("cfg", 1, 4))
	e.Nontrivial = true
	n := 1 + e.Int("hist", 4)
	for i := 0; i < n; i++ {
		text, dmg := c04Damaged(e, inflated(e, m.Text, 0, func(n int) string { return "# " + strings.Repeat("filling ", n/8) + "\n" }))
		p := flt.Draw(e, len(text), true).NoPanic()
		e.Trace("dialect of %d bytes %s: %s", len(text), dmg, p.Desc)
		r := flt.NewReader(e, []byte(text), p)
		var d functions.Dialect
		var err error
		pan := guard(func() { d, err = functions.LoadDialect("dl", r) })
		e.State("dialect", dmg, p.ErrAt >= 0, p.ErrWith, p.EOFWith, len(p.Chunks), err == nil)
		if !c04Outcome(e, "LoadDialect", r, p, d == nil, err, pan) {
			return
		}
		if r.Fired {
			continue
		}
		// no fault: the same verdict and the same dialect as for the same
		// bytes delivered at once
		var d2 functions.Dialect
		var err2 error
		pan = guard(func() { d2, err2 = functions.LoadDialect("dl", strings.NewReader(text)) })
		if pan != "" {
			e.Fail("panic", "LoadDialect", "loading a dialect panicked: %s\n%s", pan, text)
			return
		}
		if (err == nil) != (err2 == nil) {
			e.Fail("chunking", "LoadDialect:verdict", "loading a dialect gave %v when split into %s but %v in one piece", err, p.Desc, err2)
			return
		}
		if err != nil {
			e.Probe("damaged_rejected")
			if dmg == "" {
				e.Fail("dialect", "load", "loading an intact dialect failed: %v\n%s", err, text)
				return
			}
			continue
		}
		a, b := dialectView(m, d, reg), dialectView(m, d2, reg)
		if a != b {
			e.Fail("chunking", "LoadDialect:view", "a dialect differs when read in pieces (%s): %s", p.Desc, firstDiff(a, b))
			return
		}
		if dmg == "" {
			if s := m.check(d, c, reg.reg); s != "" {
				e.Fail("dialect", "content", "%s\n%s", s, m.Text)
				return
			}
			e.Probe("intact_complete")
		} else {
			e.Probe("damaged_accepted")
		}
	}
}

var c04Real []string

// realTestFiles are the smaller test case files that come with the
// specification.
func realTestFiles() []string {
	if c04Real == nil {
		f := substrait.GetSubstraitTestsFS()
		_ = fs.WalkDir(f, ".", func(p string, d fs.DirEntry, err error) error {
			if err == nil && strings.HasSuffix(p, ".test") {
				if b, err := fs.ReadFile(f, p); err == nil && len(b) < 2600 {
					c04Real = append(c04Real, string(b))
				}
			}
			return nil
		})
	}
	return c04Real
}

func testFileView(t *parser.TestFile) string {
	var sb strings.Builder
	sb.WriteString(obs.Dump(t))
	for _, c := range t.TestCases {
		sb.WriteString("\n" + obs.Call(func() string { return c.String() }))
		sb.WriteString(" " + obs.Call(func() string { return fmt.Sprint(c.ID()) }))
	}
	return sb.String()
}

// check compares a parsed file with the generated one.
func (m *tfModel) check(t *parser.TestFile) string {
	kind := parser.ScalarFuncType
	if m.Agg {
		kind = parser.AggregateFuncType
	}
	if t.Header == nil || t.Header.Version != "v1.0" || t.Header.FuncType != kind || t.Header.IncludedURI != m.URI {
		return fmt.Sprintf("the header is %+v", t.Header)
	}
	if len(t.TestCases) != len(m.Cases) {
		return fmt.Sprintf("%d of %d test cases are there", len(t.TestCases), len(m.Cases))
	}
	for i, c := range t.TestCases {
		w := m.Cases[i]
		args := len(c.Args)
		if m.Agg {
			args = len(c.AggregateArgs)
		}
		if c.FuncType != kind || c.BaseURI != m.URI || c.GroupDesc != w.Group || c.FuncName != w.Func || args != w.Args || len(c.Options) != w.Options {
			return fmt.Sprintf("%q is parsed as %s %s %q %q with %d arguments and %d options", w.Line, c.FuncType, c.BaseURI, c.GroupDesc, c.FuncName, args, len(c.Options))
		}
		if s := obs.Call(func() string { return c.String() }); s != w.Text {
			return fmt.Sprintf("%q reads back as %q, not as %q", w.Line, s, w.Text)
		}
		if m.Agg {
			rows := w.Rows
			cols, err := c.Columns, error(nil)
			if rows < 0 {
				continue
			}
			if cols, err = c.GetAggregateColumnsData(); err != nil {
				return fmt.Sprintf("%q has no columns: %v", w.Line, err)
			}
			for _, col := range cols {
				if len(col) != rows {
					return fmt.Sprintf("%q has a column of %d rows", w.Line, len(col))
				}
			}
		}
	}
	return ""
}

func c04TestCases(e *eng.Ep) {
	e.Nontrivial = true
	var m *tfModel
	text := ""
	if r := realTestFiles(); len(r) > 0 && e.Bool("cfg", 1, 8) {
		text = r[e.Int("cfg", len(r))]
	} else {
		m = drawTestFile(e)
		text = m.Text
	}
	n := 1 + e.Int("hist", 3)
	for i := 0; i < n; i++ {
		data, dmg := c04Damaged(e, inflated(e, text, strings.Index(text, "\n")+1, func(n int) string { return strings.Repeat(" \n", n/2) }))
		if m != nil && e.Bool("disk", 1, 12) {
			// a lost block the size of one line: nothing of it can be part of
			// the result, so there must not be one
			c := m.Cases[e.Int("disk", len(m.Cases))]
			at := strings.Index(text, "\n"+c.Line) + 1
			data, dmg = text[:at]+strings.Repeat("\x00", len(c.Line))+text[at+len(c.Line):], "lost line"
			e.Fault("lost_block")
		}
		p := flt.Draw(e, len(data), true).NoPanic()
		fsys := &flt.FS{E: e, Data: map[string][]byte{"dir/a.test": []byte(data)}, Plans: map[string]*flt.Plan{"dir/a.test": p},
			OpenErr: map[string]error{}, StatErr: map[string]error{}, SizeLie: map[string]int64{}}
		name, openErr := "dir/a.test", error(nil)
		switch e.Int("fs", 12) {
		case 0:
			openErr = &flt.InjectedError{Op: "open"}
			fsys.OpenErr[name] = openErr
		case 1:
			name, openErr = "dir/b.test", fs.ErrNotExist
			e.Fault("missing_file")
		case 2, 3:
			fsys.StatErr[name] = &flt.InjectedError{Op: "stat"}
		case 4, 5, 6:
			fsys.SizeLie[name] = []int64{0, 1, int64(len(data)) - 1, int64(len(data)) + 1, 1 << 40, -1}[e.Int("fs", 6)]
		}
		own := e.Bool("fs", 1, 3) // the caller opens the file
		e.Trace("file %s of %d bytes %s, opened by caller %v: %s", name, len(data), dmg, own, p.Desc)
		var t *parser.TestFile
		var err error
		var pan string
		if own {
			var f fs.File
			if f, err = fsys.Open(name); err == nil {
				pan = guard(func() { t, err = parser.ParseTestCasesFromFile(f) })
			}
		} else {
			pan = guard(func() { t, err = parser.ParseTestCaseFileFromFS(fsys, name) })
		}
		e.State("tests", dmg, p.ErrAt >= 0, p.ErrWith, p.EOFWith, own, openErr != nil, err == nil)
		if openErr != nil {
			if pan != "" || t != nil || !errors.Is(err, openErr) {
				e.Fail("error", "open:cause", "opening fails with %q but the result is %v, error %v %s", openErr, t != nil, err, pan)
				return
			}
			if fsys.Opened != fsys.Closed {
				e.Fail("close", "open", "%d opened, %d closed", fsys.Opened, fsys.Closed)
				return
			}
			continue
		}
		if len(fsys.Files) != 1 {
			e.Fail("close", "opens", "the file was opened %d times", len(fsys.Files))
			return
		}
		f := fsys.Files[0]
		if !c04Outcome(e, "ParseTestCases", f.Reader, p, t == nil, err, pan) {
			return
		}
		wantCloses := 1
		if own {
			wantCloses = 0
		}
		if f.Closes != wantCloses || f.Late > 0 {
			e.Fail("close", fmt.Sprint("count:", own), "the file was closed %d times, read %d times after that (opened by the caller: %v; error %v)", f.Closes, f.Late, own, err != nil)
			return
		}
		if f.Fired {
			continue
		}
		var t2 *parser.TestFile
		var err2 error
		pan = guard(func() { t2, err2 = parser.ParseTestCasesFromString(data) })
		if pan != "" {
			e.Fail("panic", "ParseTestCasesFromString", "parsing panicked: %s\n%s", pan, data)
			return
		}
		if (err2 == nil) == (t2 == nil) {
			e.Fail("partial", "ParseTestCasesFromString:nil", "parsing a string returned result %v and error %v\n%s", t2 != nil, err2, data)
			return
		}
		if (err == nil) != (err2 == nil) {
			e.Fail("chunking", "tests:verdict", "a file read in pieces gave error %v, in one piece %v (%s)\n%s", err != nil, err2 != nil, p.Desc, data)
			return
		}
		if err != nil {
			e.Probe("damaged_rejected")
			if dmg == "" && m != nil {
				e.Fail("tests", "parse", "parsing an intact file failed: %v\n%s", clip(err2.Error(), 3000), data)
				return
			}
			continue
		}
		if a, b := testFileView(t), testFileView(t2); a != b {
			e.Fail("chunking", "tests:view", "a file read in pieces differs (%s): %s", p.Desc, firstDiff(a, b))
			return
		}
		if dmg == "lost line" {
			e.Fail("partial", "tests:skipped", "a file with a line lost on the disk was accepted with %d of %d test cases", len(t.TestCases), len(m.Cases))
			return
		}
		if dmg == "" && m != nil {
			if s := m.check(t); s != "" {
				e.Fail("tests", "content", "%s", s)
				return
			}
			e.Probe("intact_complete")
		}
	}
}

var _ io.Reader = (*flt.Reader)(nil)
