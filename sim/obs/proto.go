// Package obs turns library objects and messages into comparable observations.
package obs

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Diff describes the first differences of two messages as field paths without
// indices, e.g. "relations.root.input.filter.common.hint", plus a readable
// detail.  It is empty when the messages are equal.
func Diff(a, b proto.Message) (path, detail string) {
	if a == nil || b == nil {
		if (a == nil) != (b == nil) {
			return "nil", "one message is nil"
		}
		return "", ""
	}
	if proto.Equal(a, b) {
		return "", ""
	}
	return diffMsg(a.ProtoReflect(), b.ProtoReflect(), "", "")
}

func join(p string, f protoreflect.FieldDescriptor) string {
	if p == "" {
		return string(f.Name())
	}
	return p + "." + string(f.Name())
}

func diffMsg(a, b protoreflect.Message, sig, path string) (string, string) {
	if a.IsValid() != b.IsValid() {
		return sig, fmt.Sprintf("%s: message present %v / %v", path, a.IsValid(), b.IsValid())
	}
	if a.Descriptor().FullName() != b.Descriptor().FullName() {
		return sig, fmt.Sprintf("%s: %s / %s", path, a.Descriptor().FullName(), b.Descriptor().FullName())
	}
	fds := a.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		f := fds.Get(i)
		ha, hb := a.Has(f), b.Has(f)
		// the signature keeps the last three names: stable and readable
		s := shortSig(a.Descriptor(), f)
		p := join(path, f)
		if ha != hb {
			return s, fmt.Sprintf("%s: present %v / %v (%s / %s)", p, ha, hb, short(a, f), short(b, f))
		}
		if !ha {
			continue
		}
		va, vb := a.Get(f), b.Get(f)
		switch {
		case f.IsList():
			la, lb := va.List(), vb.List()
			if la.Len() != lb.Len() {
				return s, fmt.Sprintf("%s: %d / %d elements", p, la.Len(), lb.Len())
			}
			for k := 0; k < la.Len(); k++ {
				if x, d := diffVal(f, la.Get(k), lb.Get(k), s, fmt.Sprintf("%s[%d]", p, k)); d != "" {
					return x, d
				}
			}
		case f.IsMap():
			if !va.Equal(vb) {
				return s, p + ": maps differ"
			}
		default:
			if x, d := diffVal(f, va, vb, s, p); d != "" {
				return x, d
			}
		}
	}
	if !bytes.Equal(a.GetUnknown(), b.GetUnknown()) {
		return shortSigUnknown(a.Descriptor()), path + ": unknown fields differ"
	}
	return "", ""
}

func short(m protoreflect.Message, f protoreflect.FieldDescriptor) string {
	if !m.Has(f) {
		return "-"
	}
	s := fmt.Sprint(m.Get(f).Interface())
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func shortSig(d protoreflect.MessageDescriptor, f protoreflect.FieldDescriptor) string {
	n := string(d.FullName())
	if len(n) > 10 && n[:10] == "substrait." {
		n = n[10:]
	}
	return n + "." + string(f.Name())
}

func shortSigUnknown(d protoreflect.MessageDescriptor) string { return string(d.FullName()) + ".?" }

func diffVal(f protoreflect.FieldDescriptor, a, b protoreflect.Value, sig, path string) (string, string) {
	if f.Kind() == protoreflect.MessageKind || f.Kind() == protoreflect.GroupKind {
		return diffMsg(a.Message(), b.Message(), sig, path)
	}
	if f.Kind() == protoreflect.DoubleKind || f.Kind() == protoreflect.FloatKind {
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return sig, fmt.Sprintf("%s: %v / %v", path, a.Float(), b.Float())
		}
		return "", ""
	}
	if !a.Equal(b) {
		return sig, fmt.Sprintf("%s: %v / %v", path, a.Interface(), b.Interface())
	}
	return "", ""
}

// Bytes is the deterministic encoding.
func Bytes(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// Walk calls f for every message inside m (m first, fields in number order).
func Walk(m protoreflect.Message, f func(protoreflect.Message)) {
	if !m.IsValid() {
		return
	}
	f(m)
	var fds []protoreflect.FieldDescriptor
	m.Range(func(fd protoreflect.FieldDescriptor, _ protoreflect.Value) bool {
		if fd.Kind() == protoreflect.MessageKind && !fd.IsMap() {
			fds = append(fds, fd)
		}
		return true
	})
	sort.Slice(fds, func(i, j int) bool { return fds[i].Number() < fds[j].Number() })
	for _, fd := range fds {
		v := m.Get(fd)
		if fd.IsList() {
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				Walk(l.Get(i).Message(), f)
			}
			continue
		}
		Walk(v.Message(), f)
	}
}
