package scen

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/goccy/go-yaml"
	"github.com/substrait-io/substrait"
	"github.com/substrait-io/substrait-go/v8/extensions"

	"verifsim/eng"
	"verifsim/fix"
	"verifsim/flt"
	"verifsim/obs"
)

func init() {
	register("C03", Scenario{Name: "load-histories", Weight: 4, Run: c03Histories})
}

// embedded are the extension files the library ships, by name.
var embeddedFiles []fix.File

func embedded() []fix.File {
	if embeddedFiles != nil {
		return embeddedFiles
	}
	fs := substrait.GetSubstraitExtensionsFS()
	ents, err := fs.ReadDir("extensions")
	if err != nil {
		panic(err)
	}
	for _, en := range ents {
		if en.Name() == "unknown.yaml" {
			continue
		}
		b, err := fs.ReadFile(path.Join("extensions", en.Name()))
		if err != nil {
			panic(err)
		}
		h := parseHead(string(b))
		if h == nil {
			panic("no header in " + en.Name())
		}
		f := fix.File{URN: h.URN, Text: string(b)}
		for _, d := range h.Deps {
			f.Deps = append(f.Deps, d)
		}
		sort.Strings(f.Deps)
		embeddedFiles = append(embeddedFiles, f)
	}
	return embeddedFiles
}

type head struct {
	URN        string            `yaml:"urn"`
	Deps       map[string]string `yaml:"dependencies"`
	Types      []struct{ Name string }
	Variations []struct{ Name string } `yaml:"type_variations"`
}

// parseHead reads what the model needs to know of a file with no library code.
func parseHead(text string) *head {
	if h, ok := headCache[text]; ok {
		return h
	}
	if len(headCache) > 300 {
		clear(headCache)
	}
	h := parseHead1(text)
	headCache[text] = h
	return h
}

var headCache = map[string]*head{}

func parseHead1(text string) (h *head) {
	defer func() {
		if recover() != nil {
			h = nil
		}
	}()
	var x head
	if err := yaml.NewDecoder(strings.NewReader(text)).Decode(&x); err != nil {
		return nil
	}
	return &x
}

// fileRef is the meaning of one file: the answers of a collection that holds
// only the file and what it depends on.
type fileRef struct {
	fix.File
	gen   *genFile
	names names
	view  map[string]string // questions of this URN
	list  []string
	reg   map[string][]string
	big   bool
}

var refCache = map[string]*fileRef{}

// refOf loads text on top of its dependencies in a fresh collection.
func refOf(f fix.File, deps []*fileRef, deep bool) (*fileRef, error) {
	c := &extensions.Collection{}
	for _, d := range deps {
		if err := c.Load(strings.NewReader(d.Text)); err != nil {
			return nil, fmt.Errorf("dependency: %w", err)
		}
	}
	if err := c.Load(strings.NewReader(f.Text)); err != nil {
		return nil, err
	}
	r := &fileRef{File: f}
	h := parseHead(f.Text)
	var ty, tv []string
	if h != nil {
		for _, t := range h.Types {
			ty = append(ty, t.Name)
		}
		for _, t := range h.Variations {
			tv = append(tv, t.Name)
		}
	}
	all := namesOf(c, ty, tv)
	r.view = urnView(c, f.URN, all, deep)
	r.list = listView(c)[f.URN]
	// only names of this file
	for _, f := range c.GetAllScalarFunctions() {
		if f.URN() == r.URN {
			r.names.funcs = append(r.names.funcs, f.Name(), f.CompoundName())
		}
	}
	for _, f := range c.GetAllAggregateFunctions() {
		if f.URN() == r.URN {
			r.names.funcs = append(r.names.funcs, f.Name(), f.CompoundName())
		}
	}
	for _, f := range c.GetAllWindowFunctions() {
		if f.URN() == r.URN {
			r.names.funcs = append(r.names.funcs, f.Name(), f.CompoundName())
		}
	}
	r.names.types, r.names.variations = ty, tv
	r.names.norm()
	r.big = len(f.Text) > 8000
	return r, nil
}

// c03World is a collection under test with the model of what it holds.
type c03World struct {
	e      *eng.Ep
	c      *extensions.Collection
	loaded map[string]*fileRef // by URN
	asked  names
	urns   []string
	deep   bool
}

func (w *c03World) refDeps(urns []string) []*fileRef {
	var out []*fileRef
	seen := map[string]bool{}
	var visit func(u string)
	visit = func(u string) {
		r := w.loaded[u]
		if r == nil || seen[u] {
			return
		}
		seen[u] = true
		ds := append([]string{}, r.Deps...)
		sort.Strings(ds)
		for _, d := range ds {
			visit(d)
		}
		out = append(out, r)
	}
	for _, u := range urns {
		visit(u)
	}
	return out
}

// check compares every answer of the collection with the union of the
// references of the files that were loaded.
func (w *c03World) check(when string, full bool) bool {
	wantList := map[string][]string{}
	for u, r := range w.loaded {
		wantList[u] = r.list
	}
	if q, d := diffLists(wantList, listView(w.c)); d != "" {
		w.e.Fail("collection", "listing", "%s: the functions listed for %s: %s", when, q, d)
		return false
	}
	for _, u := range w.urns {
		r := w.loaded[u]
		if r != nil && r.big && !full {
			continue
		}
		want := map[string]string{"loaded": "false"}
		n := w.asked
		if r != nil {
			want = r.view
			n.add(r.names)
			n.norm()
		}
		if q, d := diffMaps(want, urnView(w.c, u, n, w.deep)); d != "" {
			w.e.Fail("collection", "answer:"+questionKind(q), "%s: %s: %s", when, u, d)
			return false
		}
		if r != nil && r.gen != nil {
			if s := r.gen.check(w.c); s != "" {
				w.e.Fail("collection", "model", "%s: %s: %s", when, u, s)
				return false
			}
		}
	}
	if full {
		// a registry built now has the functions of the loaded files only
		want := map[string][]string{}
		for u, r := range w.loaded {
			for _, l := range r.list {
				kind, name, _ := strings.Cut(l, " ")
				want["all"] = append(want["all"], u+" "+name)
				simple := name[:max(0, strings.LastIndex(name, ":"))]
				if strings.Contains(simple, ":") {
					continue // registryView does not ask for such names
				}
				want[kind+" "+simple] = append(want[kind+" "+simple], u+" "+name)
			}
		}
		for _, l := range want {
			sort.Strings(l)
		}
		n := append([]string{}, w.asked.funcs...)
		for _, r := range w.loaded {
			n = append(n, r.names.funcs...)
		}
		if q, d := diffLists(want, registryView(w.c, uniq(n))); d != "" {
			w.e.Fail("collection", "registry:"+questionKind(q), "%s: function registry: %s", when, d)
			return false
		}
	}
	return true
}

// attempt loads bytes under a read plan and compares the outcome with the
// model.  clean is the verdict on the bytes when they are read without faults
// and no file of that URN is loaded.
func (w *c03World) attempt(f fix.File, g *genFile, p *flt.Plan) (ok bool) {
	e := w.e
	h := parseHead(f.Text)
	expect, why := true, ""
	var ref *fileRef
	if h == nil {
		expect, why = false, "the text is not an extension file"
	} else {
		f.URN = h.URN
		f.Deps = nil
		for _, d := range h.Deps {
			f.Deps = append(f.Deps, d)
		}
		sort.Strings(f.Deps)
		key := fmt.Sprint(w.deep, f.Text)
		for _, d := range w.refDeps(f.Deps) {
			key += d.Text
		}
		if r := refCache[key]; r != nil {
			x := *r
			ref = &x
		}
		missing := ""
		for _, d := range f.Deps {
			if w.loaded[d] == nil {
				missing = d
			}
		}
		switch {
		case missing != "":
			expect, why = false, "dependency "+missing+" is not loaded"
		default:
			if ref == nil {
				var err error
				if pan := obs.Call(func() string { ref, err = refOf(f, w.refDeps(f.Deps), w.deep); return "" }); pan != "" {
					e.Fail("panic", "panic:load", "loading panicked instead of returning an error: %s\n%s", pan, clip(f.Text, 3000))
					return false
				}
				if err != nil {
					expect, why = false, fmt.Sprintf("a fresh collection rejects it (%v)", err)
				} else {
					if len(refCache) > 400 {
						clear(refCache)
					}
					x := *ref
					refCache[key] = &x
				}
			}
			if expect && w.loaded[f.URN] != nil {
				expect, why = false, "the URN is already loaded"
			}
		}
	}
	r := flt.NewReader(e, []byte(f.Text), p)
	var err error
	pan, panicked := any(nil), false
	func() {
		defer func() {
			if x := recover(); x != nil {
				pan, panicked = x, true
			}
		}()
		err = w.c.Load(r)
	}()
	e.Trace("load %s (%d bytes) %s: error %v", f.URN, len(f.Text), p.Desc, err != nil)
	if panicked {
		if pan == flt.PanicValue {
			return w.check(fmt.Sprintf("after the reader of %s panicked", f.URN), false)
		}
		e.Fail("panic", "panic:load", "Load panicked: %v\n%s", pan, clip(f.Text, 3000))
		return false
	}
	if r.Fired {
		if err == nil {
			// the injected error came after everything that matters was read?
			// Load must still report it: the file is not known to be complete
			e.Fail("collection", "read-error-swallowed", "the reader of %s failed at byte %d of %d with %v, Load returned no error", f.URN, p.ErrAt, len(f.Text), p.Err)
			return false
		}
		return w.check(fmt.Sprintf("after reading %s failed (%s)", f.URN, p.Desc), false)
	}
	if !r.AtEOF && err == nil {
		e.Fail("collection", "unread", "Load returned before the end of %s", f.URN)
		return false
	}
	if (err == nil) != expect {
		e.Fail("collection", "verdict", "loading %s (%s): error %v; expected success %v: %s\n%s", f.URN, p.Desc, err, expect, why, clip(f.Text, 3000))
		return false
	}
	if err != nil {
		e.Probe("rejected")
		return w.check(fmt.Sprintf("after %s was rejected (%v)", f.URN, err), false)
	}
	ref.gen = g
	w.loaded[f.URN] = ref
	e.Probe("loaded")
	return w.check("after loading "+f.URN, false)
}

func c03Histories(e *eng.Ep) {
	w := &c03World{e: e, c: &extensions.Collection{}, loaded: map[string]*fileRef{}, deep: e.Bool("cfg", 1, 3)}
	// the files of this deployment
	type entry struct {
		fix.File
		gen *genFile
	}
	var files []entry
	ng := 1 + e.Int("cfg", 4)
	for i := 0; i < ng; i++ {
		urn := fmt.Sprintf("extension:%s:%s", []string{"a", "b", "sim"}[e.Int("cfg", 3)], fmt.Sprint("g", i))
		var deps []string
		for _, f := range files {
			if e.Bool("cfg", 1, 4) {
				deps = append(deps, f.URN)
			}
		}
		g := generate(e, urn, deps)
		files = append(files, entry{g.File, g})
	}
	if e.Bool("cfg", 1, 3) {
		for _, f := range fix.Files {
			files = append(files, entry{f, nil})
		}
	}
	if e.Bool("cfg", 1, 4) {
		em := embedded()
		for k := 1 + e.Int("cfg", 2); k > 0; k-- {
			f := em[e.Int("cfg", len(em))]
			dup := false
			for _, x := range files {
				dup = dup || x.URN == f.URN
			}
			if !dup && len(f.Deps) == 0 {
				files = append(files, entry{f, nil})
			}
		}
	}
	for _, f := range files {
		w.urns = append(w.urns, f.URN)
		if f.gen != nil {
			w.asked.add(f.gen.Names)
		}
	}
	w.urns = append(w.urns, "extension:never:loaded", "")
	w.asked.add(names{funcs: append([]string{"add", "add:i32_i32", "sum:i64", "no such"}, fnNamePool...), types: typeNamePool, variations: varNamePool})
	w.asked.norm()
	if e.Bool("cfg", 1, 2) && !w.check("before the first load", false) {
		return
	}
	e.State(len(files), w.deep)
	e.Nontrivial = true
	steps := 2 + e.Count("hist", 10)
	for i := 0; i < steps; i++ {
		f := files[e.Int("hist", len(files))]
		p := flt.Draw(e, len(f.Text), true)
		switch e.Int("hist", 5) {
		case 0: // storage corruption
			t, what := c03Damage(e, f.File, files[e.Int("hist", len(files))].File)
			e.Fault("corrupt:" + what)
			if p.ErrAt > len(t) {
				p.ErrAt = len(t)
			}
			h := parseHead(t)
			if h != nil {
				found := false
				for _, u := range w.urns {
					found = found || u == h.URN
				}
				if !found {
					w.urns = append(w.urns, h.URN)
				}
			}
			if !w.attempt(fix.File{URN: f.URN, Text: t}, nil, p) && e.Failed() {
				return
			}
		default:
			w.attempt(f.File, f.gen, p)
		}
		if e.Failed() {
			return
		}
	}
	// storage recovers: everything that is not loaded yet loads now
	left := append([]entry{}, files...)
	for round := 0; len(left) > 0 && round < 20; round++ {
		var rest []entry
		for _, f := range left {
			ready := w.loaded[f.URN] == nil
			for _, d := range f.Deps {
				ready = ready && w.loaded[d] != nil
			}
			if w.loaded[f.URN] != nil {
				continue
			}
			if !ready {
				rest = append(rest, f)
				continue
			}
			w.attempt(f.File, f.gen, flt.Draw(e, len(f.Text), false))
			if e.Failed() {
				return
			}
			if w.loaded[f.URN] == nil {
				e.Fail("collection", "retry", "%s cannot be loaded after its earlier loads failed", f.URN)
				return
			}
		}
		left = rest
	}
	if !w.check("after recovery", true) {
		return
	}
	// a replica that read the same texts in another order, without faults
	var texts []fix.File
	for _, u := range w.urns {
		if r := w.loaded[u]; r != nil {
			texts = append(texts, r.File)
		}
	}
	repl := &c03World{e: e, c: fix.Load(loadOrder(e, texts)...), loaded: w.loaded, asked: w.asked, urns: w.urns, deep: w.deep}
	repl.check("on a replica that loaded the files in another order", true)
}

// c03Damage returns the text as a broken disk or a bad upload delivers it.
func c03Damage(e *eng.Ep, f, other fix.File) (string, string) {
	t := f.Text
	switch e.Int("corrupt", 14) {
	case 0:
		return t[:e.Int("corrupt", len(t))], "truncated"
	case 1:
		b := []byte(t)
		for k := 1 + e.Int("corrupt", 3); k > 0; k-- {
			b[e.Int("corrupt", len(b))] = byte(" \n:-x{}[]\"'u!<>\x00\xff7"[e.Int("corrupt", 18)])
		}
		return string(b), "bytes"
	case 2:
		return strings.Replace(t, "urn: "+f.URN, "", 1), "no-urn"
	case 3:
		return strings.Replace(t, "urn: "+f.URN, "urn: "+[]string{"bad", "extension:x", "extension::", "extension:a:b:c", "urn:a:b"}[e.Int("corrupt", 5)], 1), "bad-urn"
	case 4:
		return t + "\nx: [", "syntax"
	case 5:
		// another file's text under this URN
		return strings.Replace(other.Text, "urn: "+other.URN, "urn: "+f.URN, 1), "other-content"
	case 6:
		if strings.Contains(t, "dependencies:\n") {
			return strings.Replace(t, "dependencies:\n", "dependencies:\n  1bad: extension:a:b\n", 1), "bad-alias"
		}
		return strings.Replace(t, "urn: "+f.URN, "urn: "+f.URN+"\ndependencies: {\"1bad\": "+other.URN+"}", 1), "bad-alias"
	case 7:
		if strings.Contains(t, "dependencies:\n") {
			return strings.Replace(t, "dependencies:\n", "dependencies:\n  zz: extension:not:there\n", 1), "missing-dependency"
		}
		return strings.Replace(t, "urn: "+f.URN, "urn: "+f.URN+"\ndependencies: {zz: "+other.URN+"}", 1), "new-dependency"
	case 8:
		// an undeclared user defined type at the end, after valid definitions
		return c03Append(t, "scalar", "  - name: zz_bad\n    impls:\n      - args: [{name: x, value: u!undeclared}]\n        return: i32\n"), "undeclared-type"
	case 9:
		return c03Append(t, "window", "  - name: zz_bad\n    impls:\n      - args: [{name: x, value: i32}]\n        return: i32\n        intermediate: u!undeclared\n"), "undeclared-type"
	case 10:
		return c03Append(t, "aggregate", "  - name: zz_bad\n    impls:\n      - args: [{name: x, value: \"list<\"}]\n        return: i32\n"), "bad-type"
	case 11:
		bad := []string{"{name: 5, value: i32}", "{name: x, value: 7}", "{name: x, value: null}", "{name: x}", "{name: x, options: A}",
			"{name: x, options: [1, 2]}", "{name: x, value: i32, constant: maybe}", "{name: x, description: 3, value: i32}", "{name: x, type: {a: b}}", "null", "{name: x, type: null}"}
		return c03Append(t, []string{"scalar", "aggregate", "window"}[e.Int("corrupt", 3)], "  - name: zz_bad\n    impls:\n      - args: ["+bad[e.Int("corrupt", len(bad))]+"]\n        return: i32\n"), "wrong-yaml-type"
	case 12:
		return c03Append(t, "aggregate", "  - name: zz_late\n    impls:\n      - args: [{name: x, value: i32}]\n        return: {a: b}\n"), "wrong-yaml-type"
	default:
		return c03Append(t, "aggregate", "  - name: zz_more\n    impls:\n      - args: [{name: x, value: i32}]\n        return: i32\n        maxset: many\n"), "wrong-yaml-type"
	}
}

// c03Append adds a function at the end of a section.
func c03Append(t, kind, fn string) string {
	sec := kind + "_functions:\n"
	i := strings.Index(t, sec)
	if i < 0 {
		return t + "\n" + sec + fn
	}
	rest := t[i+len(sec):]
	j := 0
	for _, l := range strings.SplitAfter(rest, "\n") {
		if l != "" && l[0] != ' ' && l[0] != '\n' && l[0] != '#' {
			break
		}
		j += len(l)
	}
	return t[:i+len(sec)] + rest[:j] + fn + rest[j:]
}
