import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Shared library objects can be read from many goroutines at once",
 "Once built, extension collections, function/type registries, dialects, types, expressions, relations and plans may be used from any number of goroutines at the same time for everything that does not load or register into them: lookups, type resolution, parsing, building new expressions and plans on a shared collection, encoding, decoding, stringifying, comparing, visiting, copying and rewriting. No such use causes a data race, a deadlock or a panic, and every call returns exactly what it returns when it runs alone.",
 ["schedules","histories"],"every interleaving, at statement granularity, of any read-only calls by any number of goroutines on shared objects",
 "The existing tests call t.Parallel nowhere and share no object between goroutines; a race or a lost update in a cache depends on the interleaving, which they never vary.",
 ["extensions/extension_mgr.go","extensions/variants.go","functions/dialect.go","functions/functions.go","functions/types.go","types/types.go","types/type_derivation.go","types/parser/parse.go","expr/expression.go","expr/literals.go","plan/plan.go","plan/relations.go","testcases/parser/parse.go"],
 [("read paths write no shared state; lazily computed state is published through sync primitives","extensions/extension_mgr.go, functions/dialect.go"),("fresh lexer/parser/visitor per parse call","types/parser/parse.go, testcases/parser/parse.go")],
 [("Collection maps","what every lookup reads","extensions/extension_mgr.go"),("localTypeRegistry","memoised by the dialect on first use","functions/dialect.go"),("package-level type tables","shared Type values handed out by the parsers and registries","types/types.go, functions/types.go")],
 ["return value of every call","race detector report","scheduler deadlock detection"],
 "none in /repo: yield points and scheduler-aware sync are woven in by a build overlay")
p("C02","First use initialises shared state exactly once and never exposes it half-built",
 "However many goroutines make the first call to something initialised on demand (the default extension collection, a dialect's type registry, a parser), each of them gets the complete, fully usable result, all of them agree, and repeated calls keep returning that same result. No first-use call returns early, fails spuriously, loads twice into visible state, races or deadlocks.",
 ["schedules","crash_points"],"every interleaving of concurrent first calls, in a fresh process",
 "A test process performs first use once, on one goroutine, so the window in which another goroutine can see half-built state is never open.",
 ["extensions/extension_mgr.go","functions/dialect.go","types/parser/parse.go","testcases/parser/parse.go"],
 [("sync.OnceValues around loading the default collection","extensions/extension_mgr.go"),("dialect memoises its local type registry","functions/dialect.go")],
 [("default collection","loaded lazily from the embedded YAML","extensions/extension_mgr.go")],["returned collection identity and contents"],
 "none in /repo (overlay)")
p("C03","What a collection answers depends only on the set of files loaded into it",
 "Loading an extension file either succeeds and adds exactly that file's definitions, or returns an error and changes nothing, so the collection keeps answering as before and the same file can be loaded again later. Consequently a collection's answers are determined by the set of files whose load succeeded, whatever order respecting declared dependencies they came in, however the reader split, delayed or failed its reads, and whatever failed or rejected loads happened in between.",
 ["fault_sequences","histories","inputs"],"every sequence of loads and reloads, with read errors, short and zero-length reads, truncation, corruption and duplicate or invalid files at any point",
 "The tests load well-formed files from memory once, and check single rejections in isolation; none compares the whole collection before and after a failure, nor varies read sizes, order or retries.",
 ["extensions/extension_mgr.go","extensions/simple_extension.go","extensions/validation.go","extensions/variants.go"],
 [("decode and validate fully before the first write to the collection","extensions/extension_mgr.go Load")],
 [("urnSet, functions, types, variations, simple names, metadata","the collection","extensions/extension_mgr.go")],["all public lookups of the collection","error returned by Load"])
p("C04","Dialect and test-case loading is complete or fails, whatever the storage does",
 "Loading a dialect or a function test-case file returns either the complete result for the bytes in the file or a non-nil error, never a partial result, a nil result without error, a panic or a hang, when reads are short, empty, delayed, fail midway or deliver the last bytes together with end-of-file. The result does not depend on how the bytes were split into reads, every error from opening or reading the storage is reported with its cause preserved, and any file opened by the library is closed exactly once.",
 ["fault_sequences","inputs"],"every file and every sequence of read sizes, empty reads, errors (at open, read) and truncations",
 "Tests read from strings and embedded files that never fail or return short reads.",
 ["functions/dialect.go","testcases/parser/parse.go","testcases/parser/visitor.go","testcases/parser/nodes.go","types/parser/util"],
 [("io.ReadAll / yaml decoder propagate reader errors","testcases/parser/parse.go, functions/dialect.go"),("panics turned into errors","types/parser/util")],None,["returned value, error chain, close count"])
p("C05","The same history produces byte-identical output on every replica",
 "Two processes that perform the same sequence of library calls on the same inputs produce identical results: the same encoded plans and expressions byte for byte, the same extension declarations in the same order, the same strings, types and success or failure, regardless of hash seeds, map iteration order, goroutine scheduling, host time zone and how input was chunked. The only exceptions are the order of unordered listings (all functions or types of a collection, registry or dialect, and the variants listed for one name) and the wording of error messages.",
 ["schedules","histories","configurations"],"every history, replayed under any hash seed, scheduling, time zone and read chunking",
 "A test run uses one random hash seed per process and compares against fixed expectations for histories with at most one function kind, so order leaking out of a map passes most runs.",
 ["extensions/extension_mgr.go","plan/plan.go","plan/builders.go","expr/utils.go","expr/expression.go","expr/literals.go","types/types.go","functions/dialect.go"],
 [("declarations sorted by anchor before encoding","extensions/extension_mgr.go ToProto"),("UTC formatting of temporal values","expr/literals.go, types/types.go")],None,["encoded bytes, strings"],"runtime map-randomness seam (Go toolchain overlay)")
p("C06","A plan keeps its meaning over any number of encode/decode hops",
 "A plan built through the API, or decoded from the wire, that is encoded, sent and decoded by another process any number of times stays the same plan: every relation, its inputs, output schema and column mapping, expressions, function references with their full identity, hints and advanced extensions, root names, version, type URLs and parameter bindings are preserved and answered by the accessors as sent, and re-encoding gives an equal message. Decoding never alters the message it reads, and encoding never alters the plan. A plan message that lost the declaration of a function in use, an expression or a relation on the way is refused, never decoded into a different plan.",
 ["inputs","histories"],"every plan using the supported relations, any number of hops, with duplicated, reordered and re-delivered messages and process restarts in between",
 "Round-trip tests cover a handful of hand-written plans with few optional fields set; the space of relation and field combinations, and second and later hops, is not covered.",
 ["plan/plan.go","plan/relations.go","plan/common.go","plan/builders.go","plan/subquery.go"],
 [("per-relation fromProto/ToProto pairs","plan/plan.go RelFromProto, plan/relations.go"),("extension set rebuilt from declarations","extensions/extension_mgr.go GetExtensionSet")],None,["encoded message, accessors of the decoded plan"])
p("C07","Expressions, literals and types keep their meaning over encode/decode hops",
 "Every expression the API can build (literals of every type including nulls, nested and parameterised ones, field references, functions with options, sorts, bounds and invocation, casts, conditionals, lists, lambdas, subqueries, dynamic parameters) and every type with its nullability, variation and parameters survives any number of encode/decode hops, alone or inside an extended expression. The decoded expression encodes to the same message as the original, has the same type and scalar-ness (an expression is scalar unless computing it involves a window function or a lambda), its accessors answer what was sent, and is equal to it (expressions holding a subquery relation are equal only to themselves) and to no expression that encodes differently, and a message that lost a function declaration or a sub-expression is refused; from the first decode on, its text stays the same over further hops.",
 ["inputs","histories"],"every expression and type the API can build, nested to any depth, over any number of hops and restarts",
 "Table tests round-trip selected literals and a few nested expressions one hop, mostly comparing messages and not the decoded object's own answers.",
 ["expr/expression.go","expr/functions.go","expr/literals.go","expr/field_reference.go","expr/lambda.go","expr/interval_compound_literal.go","types/types.go","types/precison_timestamp_types.go"],
 [("ExprFromProto/ToProto, LiteralFromProto/ToProtoLiteral, TypeFromProto/TypeToProto pairs","expr, types")],None,["Equals, GetType, String, encoded message"])
p("C08","Extension references never change meaning",
 "Within one extension set, each function, type and type variation has exactly one reference number, distinct from all others of its kind, that keeps denoting it for the life of the set through any sequence of registrations, lookups, encodings and decodings, including registering more on a set decoded from a plan whose numbers are sparse or arbitrary. Encoding lists every registered reference exactly once under its right URN, and decoding the declarations gives a set in which every reference resolves to the same item.",
 ["histories","inputs"],"every sequence of registrations, lookups, encodes and decodes, over any numbering found in a received plan",
 "Tests register a few items on an empty set, where numbering is dense; continuing on a decoded set is not exercised.",
 ["extensions/extension_mgr.go","expr/utils.go"],
 [("paired forward and reverse maps","extensions/extension_mgr.go set"),("URN anchors allocated past the current ones","extensions/extension_mgr.go")],
 [("funcs/funcMap, types/typesMap, typeVariations, urns","reference numbers","extensions/extension_mgr.go")],["DecodeFunc/DecodeType/DecodeTypeVariation, Get*Anchor, ToProto"])
p("C09","Interrupting, checkpointing and resuming construction does not change the plan",
 "Building a plan can be interrupted at any point: if the relations built so far are saved as an encoded plan, the process crashes, and a new process decodes the checkpoint and continues with the remaining steps, the final plan has the same meaning as one built without interruption: same relation tree, types, schemas and function identities. Checkpoints delivered twice or stale ones decoded again do not disturb work built from other ones.",
 ["crash_points","histories","fault_sequences"],"every build history and every set of crash points, with duplicated or stale checkpoints",
 "No test continues building on a decoded plan.",
 ["plan/builders.go","plan/plan.go","extensions/extension_mgr.go","expr/builder.go","expr/utils.go"],
 [("registry rebuilt from the decoded plan","plan/plan.go FromProto"),("builders accept decoded relations as inputs","plan/builders.go")],None,["final plan compared modulo renumbering of references"])
p("C10","Copying, rewriting, remapping and visiting never disturb the original",
 "Operations that derive a new relation, expression or type from an existing one (copy with new inputs, expression rewrite, remap, visit, nullability or parameter change) and callers modifying slices returned by accessors documented as copies leave every existing object's encoding, schema and text unchanged, including objects that share parts with it. The derived object differs exactly where the caller's function made a change, and if a caller's function fails, that failure is returned and nothing else changes.",
 ["histories","fault_sequences"],"every sequence of derivations over shared trees, with callbacks failing or panicking at any call",
 "Tests rewrite one relation at a time with callbacks that succeed, and compare only the result, not every other object alive.",
 ["plan/relations.go","plan/common.go","plan/internal/helper.go","plan/plan.go","expr/expression.go","expr/functions.go","expr/lambda.go","plan/subquery.go","types/types.go"],
 [("copy-on-write in Copy/CopyWithExpressionRewrite/Visit","plan/relations.go, expr/expression.go"),("accessors return clones","plan/plan.go, plan/common.go")],None,["encoding, schema and text of every live object before and after"])
p("C11","A failed operation leaves no trace in later answers",
 "When an operation fails (a rejected build step, a parse or decode error, a caller's builder, decoder or reader that errors or panics), every object involved stays usable and later operations answer exactly as if the failed one had never been attempted, apart from unused extension declarations. The same holds across unrelated sessions: earlier successful calls, and callers changing objects they were given to own, do not influence the answers of later parses, lookups, type resolutions and literal constructions.",
 ["histories","fault_sequences"],"every history of succeeding and failing operations, with failures injected at any callback, followed by any operation",
 "Each test starts from fresh objects and stops at the failure it provokes; none continues with the same builder, registry or process state and compares.",
 ["expr/builder.go","expr/functions.go","extensions/extension_mgr.go","extensions/variants.go","plan/builders.go","plan/plan.go","types/parser/parse.go","types/types.go","testcases/parser/parse.go"],
 [("lambda scope popped on every exit","expr/builder.go"),("anchors assigned only after resolution succeeds","expr/functions.go"),("no shared mutable parser state","types/parser/parse.go")],None,["answers after the failure compared with a process that never failed"])
p("C12","A localized registry answers consistently for its dialect, whatever the order of use",
 "For every dialect and function registry, the localized registries contain exactly the functions and types the dialect declares, each reachable under its standard and its local name with the dialect's notation and options, and name translation goes both ways consistently (a local name shared by several types denotes one and the same of them every time); a declared function or kernel missing from the registry is always rejected. Up to the order of listings and the wording of errors, the outcome is the same for every map order, every order or interleaving of localizing function and type registries, repeated localization, and use against several registries.",
 ["schedules","histories","inputs","configurations"],"every dialect, registry, map order and order or interleaving of localization calls",
 "Tests localize a few fixed dialects once, in one order, and run with whatever map order the process happens to have.",
 ["functions/dialect.go","functions/local_functions.go","functions/registries.go","functions/types.go","functions/functions.go"],
 [("indexing by standard and local name","functions/dialect.go"),("memoised local type registry","functions/dialect.go")],None,["registry lookups, errors"])
# not claimed
def n(id,title,statement,text,why,files):
    p(id,title,statement,["inputs"],text,why,files,[("pure function of its arguments",files[0])])
n("N01","Function signatures match and return types derive per the Substrait specification",
 "For every function variant and argument types, matching and return-type derivation (nullability handling, variadics, any-type binding, parameter arithmetic, conditionals) agree with the Substrait specification.",
 "every signature and argument list","Tests sample signatures; the space of argument types is unbounded.",["types/type_derivation.go","types/any_type.go","extensions/variants.go"])
n("N02","Literal text and binary conversions are value-exact",
 "Converting decimals, dates, times, timestamps and intervals between text, Go values and the wire representation is exact over the whole value range, and out-of-range input is rejected.",
 "every value and text","Tests sample values.",["literal/utils.go","expr/decimal_util.go","types/types.go"])
n("N03","The type grammar is parsed and printed faithfully",
 "Every type expression in the Substrait grammar parses to the type it denotes, printing a type gives text that parses back to it, and everything else is rejected.",
 "every string","Tests sample strings.",["types/parser/parse.go","types/parser/visitor.go","types/types.go"])
n("N04","Builders accept exactly the valid relations and compute specified schemas",
 "Builders reject every invalid argument combination with an error, and the output schema of every relation is the one the specification gives.",
 "every argument combination","Tests sample arguments.",["plan/builders.go","plan/relations.go"])
n("N05","Decoding an arbitrarily malformed message returns an error and never panics",
 "For any syntactically valid protobuf message that is not a meaningful plan, decoding returns an error and never panics or accepts it silently.",
 "every message","Tests sample malformed messages.",["plan/plan.go","expr/expression.go","types/types.go"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
