package scen

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/parser"

	"verifsim/eng"
)

// argPick decides how the parameters of a signature are filled in.
type argPick struct {
	sel  [8]int
	null [6]bool
	more int
}

func drawPick(e *eng.Ep) argPick {
	var p argPick
	for i := range p.sel {
		p.sel[i] = e.Int("op", 6)
	}
	if e.Bool("op", 1, 2) {
		for i := range p.null {
			p.null[i] = e.Bool("op", 1, 3)
		}
	}
	p.more = e.Int("op", 3)
	return p
}

var (
	paramName = regexp.MustCompile(`!?\b(any\d*|[A-Z][A-Za-z]?\d*)\b`)
	anyPicks  = []string{"i32", "string", "list<i64>", "decimal<10,2>", "i64?", "boolean"}
)

// types instantiates the parameters of a function: types its signature matches
// when the declared nullability allows it.
func (p argPick) types(args extensions.FuncParameterList, variadic bool) []types.Type {
	var out []types.Type
	seen := map[string]string{}
	fill := func(text string) string {
		return paramName.ReplaceAllStringFunc(text, func(n string) string {
			if n[0] == '!' {
				return n
			}
			if v, ok := seen[n]; ok {
				return v
			}
			k := p.sel[len(seen)%len(p.sel)]
			var v string
			switch {
			case strings.HasPrefix(n, "any"), n == "T", n == "U":
				v = anyPicks[k]
			case n[0] == 'P':
				v = []string{"10", "38", "6", "20", "9", "3"}[k]
			case n[0] == 'S':
				v = []string{"2", "0", "3", "1", "2", "6"}[k]
			default:
				v = []string{"5", "1", "7", "3", "1500", "8"}[k]
			}
			seen[n] = v
			return v
		})
	}
	one := func(i int, a extensions.FuncParameter) types.Type {
		var va extensions.ValueArg
		switch t := a.(type) {
		case extensions.ValueArg:
			va = t
		case extensions.EnumArg:
			return types.CommonEnumType
		default:
			return nil
		}
		text := funcText(fill(va.Value.ValueType.String()))
		if t := concreteType(text); t != nil {
			if p.null[i%len(p.null)] {
				return t.WithNullability(types.NullabilityNullable)
			}
			return t
		}
		return nil
	}
	for i, a := range args {
		out = append(out, one(i, a))
	}
	if variadic && len(args) > 0 {
		for i := 0; i < p.more; i++ {
			out = append(out, one(len(args)-1, args[len(args)-1]))
		}
	}
	for i, t := range out {
		if t == nil {
			out[i] = &types.Int32Type{Nullability: types.NullabilityRequired}
		}
	}
	return out
}

// funcText puts the parameters of a function type in the parentheses the
// grammar asks for and the printed form leaves out.
func funcText(s string) string {
	at := strings.Index(s, "func")
	if at < 0 {
		return s
	}
	open := at + len("func")
	if open < len(s) && s[open] == '?' {
		open++
	}
	if open >= len(s) || s[open] != '<' {
		return s
	}
	depth, comma := 0, false
	for i := open + 1; i < len(s); i++ {
		switch c := s[i]; {
		case c == '-' && i+1 < len(s) && s[i+1] == '>' && depth == 0:
			head, tail := s[:open+1], funcText(s[i:])
			in := strings.TrimSpace(s[open+1 : i])
			if comma && !strings.HasPrefix(in, "(") {
				in = "(" + in + ")"
			}
			return head + in + " " + tail
		case c == '-' && i+1 < len(s) && s[i+1] == '>':
			i++
		case c == '<' || c == '(':
			depth++
		case c == '>' || c == ')':
			depth--
		case c == ',' && depth == 0:
			comma = true
		}
	}
	return s
}

// concreteType is the type a text without parameters denotes, or nil.
func concreteType(text string) (t types.Type) {
	defer func() {
		if r := recover(); r != nil {
			t = nil
		}
	}()
	def, err := parser.ParseType(text)
	if err != nil {
		return nil
	}
	t, err = def.ReturnType(nil, nil)
	if err != nil {
		return nil
	}
	return t
}

func (p argPick) String() string { return fmt.Sprint(p.sel, p.null, p.more) }
