package fix

import (
	"fmt"
	"sort"
	"strings"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"

	"verifsim/gen"
)

// Load builds a collection from the given files.
func Load(files ...File) *extensions.Collection {
	c := &extensions.Collection{}
	for _, f := range files {
		if err := c.Load(strings.NewReader(f.Text)); err != nil {
			panic(fmt.Sprintf("fixture %s: %v", f.URN, err))
		}
	}
	return c
}

var simColl *extensions.Collection

// Sim is the process-wide collection of all simulated files.
func Sim() *extensions.Collection {
	if simColl == nil {
		simColl = Load(Files...)
	}
	return simColl
}

// Default is the library's own collection.
func Default() *extensions.Collection { return extensions.GetDefaultCollectionWithNoError() }

var typeNames = map[string][]string{
	"extension:sim:base":                     {"point", "money", "tagged"},
	"extension:sim:misc":                     {"point", "color", "geo"},
	"extension:sim:derived":                  {"segment"},
	"extension:sim:top":                      {"shape"},
	"extension:sim:shapes":                   {"matrix"},
	"extension:io.substrait:extension_types": {"point", "line"},
}

var varNames = map[string][]string{
	"extension:sim:base":                     {"utf8view", "zigzag"},
	"extension:sim:misc":                     {"utf8view", "packed"},
	"extension:sim:top":                      {"delta"},
	"extension:io.substrait:type_variations": {"dict4", "bigoffset", "avro", "cstruct", "dict2"},
}

var catSim, catDefault *gen.Catalog

// CatSim is the catalogue of Sim.
func CatSim() *gen.Catalog {
	if catSim == nil {
		catSim = CatalogOf(Sim())
	}
	return catSim
}

// CatDefault is the catalogue of Default.
func CatDefault() *gen.Catalog {
	if catDefault == nil {
		catDefault = CatalogOf(Default())
	}
	return catDefault
}

// CatalogOf lists what a collection knows, plus a few names it does not know
// in files it has loaded (custom functions).
func CatalogOf(c *extensions.Collection) *gen.Catalog {
	cat := &gen.Catalog{}
	urns := map[string]bool{}
	for _, f := range c.GetAllScalarFunctions() {
		cat.Scalar = append(cat.Scalar, gen.Item{URN: f.URN(), Name: f.CompoundName(), Kind: "scalar"})
		urns[f.URN()] = true
	}
	for _, f := range c.GetAllAggregateFunctions() {
		cat.Aggregate = append(cat.Aggregate, gen.Item{URN: f.URN(), Name: f.CompoundName(), Kind: "aggregate"})
		urns[f.URN()] = true
	}
	for _, f := range c.GetAllWindowFunctions() {
		cat.Window = append(cat.Window, gen.Item{URN: f.URN(), Name: f.CompoundName(), Kind: "window"})
		urns[f.URN()] = true
	}
	for u, l := range typeNames {
		if c.URNLoaded(u) {
			urns[u] = true
			for _, n := range l {
				cat.Types = append(cat.Types, gen.Item{URN: u, Name: n, Kind: "type"})
			}
		}
	}
	for u, l := range varNames {
		if c.URNLoaded(u) {
			urns[u] = true
			for _, n := range l {
				cat.Variations = append(cat.Variations, gen.Item{URN: u, Name: n, Kind: "variation"})
			}
		}
	}
	for u := range urns {
		cat.URNs = append(cat.URNs, u)
	}
	sort.Strings(cat.URNs)
	for i, u := range cat.URNs {
		if i%3 == 0 {
			cat.Scalar = append(cat.Scalar, gen.Item{URN: u, Name: "custom_fn:any", Kind: "scalar"})
			cat.Aggregate = append(cat.Aggregate, gen.Item{URN: u, Name: "custom_agg:any", Kind: "aggregate"})
			cat.Window = append(cat.Window, gen.Item{URN: u, Name: "custom_win:any", Kind: "window"})
		}
	}
	cat.Sort()
	return cat
}

// SchemaDecoder decodes gen.SchemaURL details.
type SchemaDecoder struct{}

// SchemaDef is the decoded form.
type SchemaDef struct {
	Detail *anypb.Any
	Record types.RecordType
	Exprs  []expr.Expression
}

func (d *SchemaDef) Schema([]plan.Rel) types.RecordType       { return d.Record }
func (d *SchemaDef) Build([]plan.Rel) *anypb.Any              { return d.Detail }
func (d *SchemaDef) Expressions([]plan.Rel) []expr.Expression { return d.Exprs }

// DecodeExtensionRel implements expr.ExtensionRelDecoder.
func (SchemaDecoder) DecodeExtensionRel(a *anypb.Any) (any, error) {
	var s pb.Type_Struct
	if err := proto.Unmarshal(a.Value, &s); err != nil {
		return nil, err
	}
	ts := make([]types.Type, len(s.Types))
	for i, t := range s.Types {
		ts[i] = types.TypeFromProto(t)
	}
	return &SchemaDef{Detail: a, Record: *types.NewRecordTypeFromTypes(ts)}, nil
}

// Decoders is what a receiver registers.
func Decoders() map[string]expr.ExtensionRelDecoder {
	return map[string]expr.ExtensionRelDecoder{gen.SchemaURL: SchemaDecoder{}}
}
