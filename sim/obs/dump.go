package obs

import (
	"encoding/hex"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unsafe"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
)

// Dump is a deep textual observation of a library object through its exported
// zero-argument methods and exported fields.  Panicking accessors are recorded
// as text.
func Dump(v any) string {
	var sb strings.Builder
	d := dumper{sb: &sb, t: &table{objs: map[objKey]*object{}, seen: map[string]int{}}}
	d.value(reflect.ValueOf(v), 0)
	if len(d.t.lines) == 0 {
		return sb.String()
	}
	d.t.lines = append(d.t.lines, sb.String())
	return strings.Join(d.t.lines, "\n")
}

// An object reached over several paths is described once: its description is
// a line of its own, numbered by content, and every mention is that number.
type table struct {
	objs  map[objKey]*object
	seen  map[string]int
	lines []string
}

type objKey struct {
	p unsafe.Pointer
	t reflect.Type
}

type object struct {
	ref  string
	keep reflect.Value // an address must not be used again meanwhile
}

type dumper struct {
	sb *strings.Builder
	t  *table
}

// once describes the object v points to.
func (d *dumper) once(v reflect.Value, describe func(*dumper)) {
	if v.Kind() != reflect.Ptr {
		describe(d)
		return
	}
	k := objKey{v.UnsafePointer(), v.Type()}
	if o := d.t.objs[k]; o != nil {
		d.w(o.ref)
		return
	}
	o := &object{ref: "<cycle>", keep: v}
	d.t.objs[k] = o
	var sb strings.Builder
	describe(&dumper{&sb, d.t})
	text := sb.String()
	n, ok := d.t.seen[text]
	if !ok {
		n = len(d.t.lines)
		d.t.seen[text] = n
		d.t.lines = append(d.t.lines, text)
	}
	o.ref = fmt.Sprint("@", n)
	d.w(o.ref)
}

var (
	relT   = reflect.TypeOf((*plan.Rel)(nil)).Elem()
	exprT  = reflect.TypeOf((*expr.Expression)(nil)).Elem()
	typeT  = reflect.TypeOf((*types.Type)(nil)).Elem()
	protoT = reflect.TypeOf((*proto.Message)(nil)).Elem()
	strT   = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
)

// methods that are not plain accessors
var skip = map[string]bool{"Copy": true, "Remap": true, "ToProto": true, "ToProtoPlanRel": true, "ToProtoPlanRelWrite": true, "ClearMapping": true, "ProtoReflect": true, "Descriptor": true,
	"ExtensionRegistry": true, "ChangeMapping": true, "BaseString": true, "GoString": true}

func (d *dumper) w(s string) { d.sb.WriteString(s) }

func (d *dumper) value(v reflect.Value, depth int) {
	if !v.IsValid() {
		d.w("<nil>")
		return
	}
	if depth > 60 {
		d.w("<deep>")
		return
	}
	t := v.Type()
	if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil() {
		d.w("<nil>")
		return
	}
	if v.Kind() == reflect.Interface {
		d.value(v.Elem(), depth)
		return
	}
	switch {
	case t.Implements(protoT):
		d.w(protoText(v.Interface().(proto.Message)))
		return
	case t.Implements(relT):
		d.once(v, func(d *dumper) { d.methods(v, depth, "Rel:") })
		return
	case t.Implements(exprT):
		d.once(v, func(d *dumper) {
			d.expr(v.Interface().(expr.Expression))
			d.methods(v, depth, "")
		})
		return
	case t.Implements(typeT):
		d.typ(v.Interface().(types.Type))
		return
	}
	if t.NumMethod() > 0 && t.Kind() != reflect.Ptr && reflect.PointerTo(t).Implements(exprT) {
		p := reflect.New(t)
		p.Elem().Set(v)
		d.value(p, depth)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if libType(t.Elem()) && t.NumMethod() > 0 {
			d.once(v, func(d *dumper) { d.methods(v, depth, "") })
			return
		}
		d.w("&")
		d.value(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			if v.Kind() == reflect.Slice {
				fmt.Fprintf(d.sb, "%x", v.Bytes())
			} else {
				fmt.Fprintf(d.sb, "%v", v.Interface())
			}
			return
		}
		d.w("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.w(" ")
			}
			d.value(v.Index(i), depth+1)
		}
		d.w("]")
	case reflect.Map:
		var parts []string
		for _, k := range v.MapKeys() {
			var sb strings.Builder
			x := dumper{&sb, d.t}
			x.value(k, depth+1)
			x.w(":")
			x.value(v.MapIndex(k), depth+1)
			parts = append(parts, sb.String())
		}
		sort.Strings(parts)
		d.w("map[" + strings.Join(parts, " ") + "]")
	case reflect.Struct:
		if libType(t) && t.NumMethod() > 0 {
			d.methods(v, depth, "")
			return
		}
		d.fields(v, depth)
	case reflect.Func:
		d.w("func")
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(d.sb, "%x", v.Float())
	default:
		if v.CanInterface() {
			fmt.Fprintf(d.sb, "%v", v.Interface())
		} else {
			fmt.Fprintf(d.sb, "%v", v)
		}
	}
}

func libType(t reflect.Type) bool { return strings.Contains(t.PkgPath(), "substrait-go") }

func (d *dumper) fields(v reflect.Value, depth int) {
	t := v.Type()
	d.w(t.Name() + "{")
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() {
			continue
		}
		d.w(f.Name + "=")
		d.value(v.Field(i), depth+1)
		d.w(" ")
	}
	d.w("}")
}

func (d *dumper) typ(t types.Type) {
	d.w(Call(func() string {
		return fmt.Sprintf("%T:%s/%v/%d/%s", t, t.String(), t.GetNullability(), t.GetTypeVariationReference(), protoText(types.TypeToProto(t)))
	}))
}

func (d *dumper) expr(e expr.Expression) {
	d.w(Call(func() string {
		t := e.GetType()
		ts := "<nil>"
		if t != nil {
			ts = t.String()
		}
		return fmt.Sprintf("%T:%s:%s:%v", e, e.String(), ts, e.IsScalar())
	}))
}

func (d *dumper) methods(v reflect.Value, depth int, tag string) {
	t := v.Type()
	d.w(tag + t.String() + "(")
	e := v
	if e.Kind() == reflect.Ptr {
		e = e.Elem()
	}
	if e.Kind() == reflect.Struct {
		d.fields(e, depth)
	} else if e.Kind() != reflect.Interface {
		d.w(fmt.Sprintf("%v", e))
	}
	for _, m := range accessors(t) {
		d.w(m.name + "=")
		var out []reflect.Value
		if s := Call(func() string { out = v.Method(m.i).Call(nil); return "" }); s != "" {
			d.w(s + ";")
			continue
		}
		for _, o := range out {
			d.value(o, depth+1)
			d.w(";")
		}
	}
	d.w(")")
}

// Call runs f and turns a panic into text.
func Call(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if fmt.Sprintf("%T", r) == "simrt.Abort" {
				panic(r)
			}
			s = fmt.Sprintf("PANIC(%v)", r)
			if os.Getenv("SIM_STACK") != "" {
				s += string(debug.Stack())
			}
		}
	}()
	return f()
}

func protoText(m proto.Message) string {
	if m == nil || !m.ProtoReflect().IsValid() {
		return "<nil>"
	}
	var sb strings.Builder
	text(&sb, m.ProtoReflect())
	return sb.String()
}

// Text is a deterministic rendering of a message.
func Text(m proto.Message) string { return protoText(m) }

func text(sb *strings.Builder, m protoreflect.Message) {
	sb.WriteString("{")
	for _, p := range populated(m) {
		f, v := p.fd, p.v
		sb.WriteString(string(f.Name()) + ":")
		one := func(x protoreflect.Value) {
			if f.Kind() == protoreflect.MessageKind {
				text(sb, x.Message())
			} else if f.Kind() == protoreflect.BytesKind {
				sb.WriteString(hex.EncodeToString(x.Bytes()))
			} else if f.Kind() == protoreflect.StringKind {
				sb.WriteString(strconv.Quote(x.String()))
			} else {
				fmt.Fprint(sb, x.Interface())
			}
			sb.WriteString(" ")
		}
		if f.IsList() {
			l := v.List()
			for k := 0; k < l.Len(); k++ {
				one(l.Get(k))
			}
		} else if !f.IsMap() {
			one(v)
		}
	}
	if u := m.GetUnknown(); len(u) > 0 {
		fmt.Fprintf(sb, "?%x", []byte(u))
	}
	sb.WriteString("}")
}

type populatedField struct {
	fd protoreflect.FieldDescriptor
	v  protoreflect.Value
}

// populated lists the fields that are set in the order of the descriptor.
func populated(m protoreflect.Message) []populatedField {
	var out []populatedField
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		out = append(out, populatedField{fd, v})
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].fd.Index() < out[j].fd.Index() })
	return out
}

// accessor is a method of a type that is part of its observation.
type accessor struct {
	i    int
	name string
}

var accessorCache sync.Map

func accessors(t reflect.Type) []accessor {
	if l, ok := accessorCache.Load(t); ok {
		return l.([]accessor)
	}
	var out []accessor
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Name == "GetInputs" && hasInput(t) {
			continue
		}
		if skip[m.Name] || strings.HasPrefix(m.Name, "ToProto") || m.Type.NumIn() != 1 || m.Type.NumOut() == 0 {
			continue
		}
		out = append(out, accessor{i, m.Name})
	}
	accessorCache.Store(t, out)
	return out
}

func hasInput(t reflect.Type) bool {
	for _, n := range []string{"Input", "Inputs", "Left"} {
		if _, ok := t.MethodByName(n); ok {
			return true
		}
	}
	return false
}
