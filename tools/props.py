NOT_APPLICABLE = {}
PROPS = [
 dict(id="P01", title="Decimal numbers survive text and JSON exactly and compare by value",
  statement="Any decimal number a schema or document contains reads back as the same number after being printed or encoded as JSON, and the JSON is always a valid number token. Comparison and conversion to machine numbers agree with exact arithmetic on the value, out-of-range conversions included only where the number fits. Text or JSON that is not a number is rejected with an error, never read as some other number.",
  for_all="every decimal literal (sign, digits, fraction, exponent), every int64/float64, every non-number text or JSON token",
  why="The tests parse a handful of short literals; exactness has to hold for every digit string, exponent and machine number.",
  files=["decimal.go"], mech=[("arbitrary precision number with JSON methods", "decimal.go ParseDecimal/MarshalJSON/UnmarshalJSON/Cmp"), ("defaulted accessor", "decimal.go DecimalValue")],
  observe=["ParseDecimal", "Decimal.String", "json.Marshal/Unmarshal", "Decimal.AsInt64 and siblings"],
  technique="round trip and differential against exact rational arithmetic",
  note="Random literals up to hundreds of digits; oracle is math/big rational arithmetic. One listed finding: exact powers of two below 1."),
 dict(id="P02", title="Timestamps print as UTC RFC 3339 and read back to the millisecond",
  statement="Whatever zone and precision a moment is given in, its timestamp prints as a UTC date-time with millisecond digits and reads back, from text and from JSON, as the same moment truncated to the millisecond. All spellings of the same UTC moment read as equal timestamps. Text that is not a well-formed date-time, and JSON that is not such a string, is rejected.",
  for_all="every moment in years 0000-9999, every zone offset, every one-edit corruption of a valid timestamp",
  why="Tests use the current time once; zones, years, fractions and malformed text form an unbounded space.",
  files=["timestamp.go"], mech=[("formatting and parsing", "timestamp.go String/ParseTimestamp"), ("JSON methods", "timestamp.go MarshalJSON/UnmarshalJSON")],
  observe=["Timestamp.String", "ParseTimestamp", "json.Marshal/Unmarshal"],
  technique="round trip and independent civil-calendar oracle", note="Independent calendar arithmetic as the oracle; corruptions are single edits checked against an independent grammar."),
 dict(id="P03", title="Unit values and UUIDs round-trip and reject malformed text",
  statement="A unit value keeps its exact number and its unit through text and JSON, whatever characters the unit has, and its encoding is always valid JSON. A UUID reads back equal from its text form and has the layout its version prescribes; name-based UUIDs are a function of namespace and name. Malformed text is rejected rather than turned into some value.",
  for_all="every number and unit text, every 16-byte UUID, every malformed spelling",
  why="The tests cover one value of each; the guarantee is over all numbers, units and corruptions.",
  files=["unitvalue.go", "uuid.go"], mech=[("unit value text and JSON", "unitvalue.go ParseUnitValue/String/MarshalJSON"), ("uuid text", "uuid.go ParseUUID/String")],
  observe=["ParseUnitValue", "UnitValue.String", "ParseUUID", "UUID.String", "json.Marshal/Unmarshal"],
  technique="round trip and reference grammar", note="Round trips and reference recognisers over generated and corrupted text."),
 dict(id="P04", title="Every defined name resolves to its own definition and duplicates are refused",
  statement="In an accepted model, looking up any declared type or HTTP action yields exactly the definition declared under that name, and undeclared names yield nothing. A schema that declares a name twice is refused. An example's target path, through fields and parameters, resolves to the declared type of what it names, and to an error when it names nothing.",
  for_all="every schema (types, base types, actions, examples) and every looked-up name",
  why="The tests look up a few names in fixed schemas; the guarantee covers every schema and every pair of clashing names.",
  files=["model.go"], mech=[("name indexes built once", "model.go NewModel"), ("example resolution", "model.go FindExampleType")],
  observe=["NewModel", "Model.FindType/FindHttp/FindExampleType"],
  technique="generated schemas against a reference index", note="Generated schemas of up to a dozen definitions; reference index built independently from the schema."),
 dict(id="P05", title="A schema's JSON form is complete and loads back to the same model",
  statement="Encoding a schema as JSON states every part of it under its documented name and nothing else, and loading that file gives back a schema equal in every part. Loading refuses files that are missing, not JSON, or not of a supported version, with an error.",
  for_all="every schema, including annotations, examples, constraints, nested inline types and unusual strings",
  why="No test encodes and reloads a whole schema; loss of one field in one kind of definition is invisible to the fixtures.",
  files=["schema.go", "model.go", "misc.go"], mech=[("JSON field tags of the schema types", "schema.go"), ("loading", "model.go LoadModel")],
  observe=["json.Marshal(Schema)", "LoadModel"], technique="round trip and differential against an independent encoder",
  note="An independent encoder of the documented JSON form is compared with the library's; then reloaded and compared."),
 dict(id="P06", title="Value validation accepts exactly the values of the declared type",
  statement="Validating a JSON-like value against any type of a model succeeds when the value conforms to the type's base, limits, sizes, patterns, enumerated members, fields, items, keys and variants, however deeply nested, and reports an error otherwise. Validation always ends, and against an undefined type it fails. The verdict does not depend on what else is validated, before or at the same time, in this model or another.",
  for_all="every schema, every conforming value, and every value one corruption away from conforming",
  why="The tests validate a dozen values against fixed types; acceptance and rejection must be right for every type shape and nesting.",
  files=["model.go"], mech=[("structural validator", "model.go Validate and the per-type validators")],
  observe=["Model.Validate", "Model.ValidateAgainstTypeSpec"], technique="generated type/value pairs against a reference validator",
  note="Reference validator written from the documentation; cases on which the language is silent are not generated (listed in DESIGN.md)."),
 dict(id="P07", title="Type equivalence is an equivalence relation that sees every difference",
  statement="Two type definitions are reported equivalent when they describe the same values, names and comments aside, and not when any constraint, member, field or referenced type differs. The relation is reflexive, symmetric and transitive, and deciding it ends on recursive types.",
  for_all="every pair of definitions in a model, every single difference between a definition and its copy",
  why="Tests compare one or two enums; the laws quantify over all pairs and all differences.",
  files=["model.go"], mech=[("structural comparison", "model.go EquivalentTypes and helpers")],
  observe=["Model.EquivalentTypes"], technique="metamorphic relations over copies and single mutations", note="Copies, single-difference mutants, and the relation laws over all pairs of generated models."),
 dict(id="P08", title="Lifting inline enums to named types keeps meaning and is complete",
  statement="After inline enums are turned into named types, no inline enum remains in a struct field, every such field refers to a type with exactly its former members, and everything else of the schema is as before. Fields whose enums are the same share one type where they would clash in name, different enums never do, and the result is again a valid schema.",
  for_all="every schema with any number of inline enums, equal or clashing in name with each other or with existing types",
  why="One fixture with one enum is tested; clashes between several enums and existing types are the interesting inputs.",
  files=["model.go"], mech=[("refactoring", "model.go ConvertInlineEnums")], observe=["Model.ConvertInlineEnums"],
  technique="generated schemas with planted clashes against a semantic diff", note="Semantic comparison before/after on schemas generated to clash."),
 dict(id="P09", title="Configuration data answers lookups with what was stored",
  statement="Looking up a key or a path in configuration data yields the stored value in the requested kind, or the given default or zero value when it is absent or of another kind, and never fails otherwise. Storing a value makes exactly that key yield it. Unreadable or malformed data files are reported as errors.",
  for_all="every nested document, every path present or absent, every kind of accessor",
  why="Not tested at all today; every combination of value kind, accessor and path depth counts.",
  files=["data.go"], mech=[("typed accessors", "data.go")], observe=["Data.Get*/Put", "DataFromFile"],
  technique="model-based against a reference map", note="Reference lookup over generated documents."),
 dict(id="P10", title="Comment formatting keeps every word and stays within its margin",
  statement="Formatting a comment for generated code keeps all its words in order and every emitted line carries the comment prefix, so no part of a comment can become code. Lines are wrapped at the requested width unless a single word is longer, and a padded comment has an empty comment line before and after its text.",
  for_all="every text, indentation, prefix and width",
  why="Not tested; depends on word lengths, line breaks and widths jointly.",
  files=["misc.go"], mech=[("wrapping", "misc.go FormatComment")], observe=["FormatComment"],
  technique="invariants over generated text", note="Invariants over generated texts and widths."),

 dict(id="P11", title="Generated files are written whole, only where told, and never over others",
  statement="A file a generator writes holds exactly the text emitted for it, whatever its size, in the output directory and nowhere else. A file that is already there is left alone unless overwriting is forced, and then replaced entirely. A failure to write, or a template that cannot be used, is reported and not forgotten. Settings yield the configured value, or the default given when there is none.",
  for_all="every history of writes, forced or not, onto any mix of existing and new files, with faults in between; every generated code base over existing files", over=["inputs", "histories", "fault_sequences"],
  why="The tests write no generated file; overwriting by accident and silent loss show only in particular histories or on failing devices.",
  files=["generator.go", "golang/export_golang.go", "java/export_java.go"], mech=[("buffered emission and writing", "generator.go Begin, Emit, End, WriteFile")],
  observe=["Generator.WriteFile/Emit/End/GetConfig*", "golang.Export and java.Export on populated directories"],
  technique="stateful, model-based histories of a generator against a map of files, with injected write faults", note="The model is a map from path to content; faults are a full device, missing directories and directories in the way."),

 dict(id="P12", title="Parsing SADL source gives exactly the model the source describes",
  statement="Every well-formed SADL source is accepted and gives a model with exactly the directives, types, operations, actions, examples, comments and annotations written in it, in their order: type parameters and their defaults, constraints, required and default options, inline structs, enums and unions at any depth, path, query, header and body parameters told apart by the path template, path and body parameters being required, unnamed actions named after method and resource, escapes resolved, comments before and after an element joined. Layout, block comments, option order and case, and the order of elements make no difference. An included file adds its types, operations, actions and examples, marked with the file; a name or namespace given by the caller overrides the source, and the file name stands in for a missing name. Registered extensions get their own lines, with the comment, and their results are in the model.",
  for_all="every model SADL can express, in every layout; every division into two files; every choice of given name and namespace; every use of extensions",
  over=["programs", "configurations"],
  why="The tests parse some twenty snippets and mostly check for the absence of an error; the grammar combines freely, and what is lost or misplaced depends on the combination.",
  files=["parser.go"], mech=[("directives and elements", "parser.go ParseNoValidate, parseTypeDirective, parseHttpDirective, parseOperationDirective, parseExampleDirective"), ("types and options", "parser.go ParseTypeSpec, ParseOptions"), ("comments", "parser.go MergeComment, EndOfStatement"), ("include", "parser.go parseIncludeDirective")],
  observe=["sadl.ParseSadlString", "sadl.ParseSadlFile"], technique="generated models written as source by an independent writer with random layout; the parsed model is compared with the original",
  note="github.com/boynton/scanner is not installed here: a stand-in written from its use in parser.go supplies the tokens. Not claimed: unnamed actions whose path names no resource, several statements on one line."),
 dict(id="P13", title="Decompiling a model to SADL source and parsing it gives the model back",
  statement="For every model that SADL can express, the decompiled source is well-formed and parses to the same model: the same directives, types with all parameters, constraints, defaults, references and annotations, operations, actions with their names, parameters, results and exceptions, examples, and comments up to line breaks. Decompiling does not change the model, gives the same text every time, and text once decompiled does not change any more. This holds as well for every model the parser itself produced.",
  for_all="every model SADL can express; every source the parser accepts, including mutated sources",
  over=["inputs", "programs"],
  why="The decompiler has no test; each construct it forgets is lost silently from the exported source.",
  files=["unparser.go", "parser.go"], mech=[("decompiler", "unparser.go sadlTypeSpec, sadlFieldSpec, sadlOperationSpec, sadlHttpSpec, sadlTemplate")], observe=["sadl.DecompileSadl then sadl.ParseSadlString"],
  technique="round trip and fixpoint on generated models and on accepted mutated sources", note="Tokens come from a stand-in for the scanner package. Names of types, members and actions are identifiers; other names may be any text."),
 dict(id="P14", title="Ill-formed SADL specifications are refused with an error",
  statement="A specification is refused, with no model, if it uses a type that is not defined, anywhere a type can be named; defines a type, action, operation, field, variant, symbol, parameter or exception of an action twice; gives both pattern and values, a default for something required, or a default or example that is not a value of its type; gives an example for nothing, or one of a request or response that lacks a required parameter; has two bodies, a body where none is possible, a malformed path template or base path, or a unit value that is not a number with a string or enum unit; or does not follow the grammar: unknown directives, options or methods, stray tokens, missing parts, an end inside a block, an included file that is missing, ill-formed, or includes itself.",
  for_all="every valid specification with one such defect at any place, in every layout",
  over=["programs"],
  why="The tests try a few ill-formed snippets; a missed check at one of the many places where a type or value can appear lets a broken model through to every generator.",
  files=["parser.go", "model.go"], mech=[("checks after parsing", "parser.go Validate and validate* functions"), ("syntax", "parser.go Expect*, ParseOptions, EndOfStatement"), ("duplicates", "model.go NewModel")],
  observe=["sadl.ParseSadlString", "sadl.ParseSadlFile"], technique="generated specifications with one injected defect (semantic, syntactic, or in the included files) must be refused",
  note="Values are judged by an independent model of the type rules. Unknown members of examples are not claimed: the examples of the repository have them."),
 dict(id="P15", title="The parser answers any text with a model or an error, never a crash",
  statement="For any text at all, parsing ends, with either a model or an error that has a message, and never both, a panic or a hang. The same text always has the same outcome, and any model that comes out can be decompiled.",
  for_all="arbitrary bytes, sequences of tokens, and specifications with tokens removed, repeated, inserted, replaced or swapped, or cut at any place",
  over=["programs"],
  why="The tests feed the parser text close to what it expects; crashes need a token missing or misplaced at one particular state.",
  files=["parser.go"], mech=[("token handling at every state", "parser.go GetToken, UngetToken and the parse* functions")], observe=["sadl.ParseSadlString"],
  technique="mutated specifications, random token sequences and random bytes", note="Tokens come from a stand-in for the scanner package; the scanner itself is not part of this repository."),
 dict(id="P16", title="OpenAPI schemas exported for types admit exactly the same values",
  statement="Every type of a model appears in the exported OpenAPI document under its own name, with a schema saying the same as the type: base type and format, limits, sizes, pattern, allowed values, fields and which are required, items, keys' values and variants, nested inline types included. References lead to the schema of the type they name, the comment of a type is its description, and an example for a type is shown there. A type that cannot be expressed is refused with an error.",
  for_all="every model over strings, numbers, booleans, dates, UUIDs, enums, arrays, maps, structs and unions, nested and recursive",
  why="No test inspects the exported schemas; each kind of type, constraint and nesting is a separate way to lose meaning.",
  files=["openapi/export_openapi.go"], mech=[("type conversion", "openapi/export_openapi.go exportTypeDef, oasSchema and siblings")],
  observe=["openapi.Export"], technique="generated models; an independent matcher of JSON schema against SADL type",
  note="The document is decoded as plain JSON and matched type by type. Not claimed: comments of fields, default values."),
 dict(id="P17", title="OpenAPI operations exported for HTTP actions say what the actions say",
  statement="Each HTTP action of a model becomes exactly one operation under its path and method, with its operation id, description, parameters (name, place, type, required or not, default aside), request body, expected response with its status, body type and headers, and one response per exception status. Nothing appears that no action declares, and two actions claiming the same path and method are refused. Examples of requests and responses, named or not, attach to the parameters and bodies of the operation they exercise.",
  for_all="every set of HTTP actions over all methods, paths with variables and query strings, headers, bodies and exceptions",
  why="The tests export one or two services and inspect nothing; parameters, statuses and methods combine freely.",
  files=["openapi/export_openapi.go"], mech=[("action conversion", "openapi/export_openapi.go ExportToOAS3")],
  observe=["openapi.Export"], technique="generated services against an independent reading of the document", note="Plain JSON reading of the document is compared with the actions, both ways."),
 dict(id="P18", title="An exported OpenAPI document is valid, closed and repeatable",
  statement="Exporting any model gives a JSON document with the model's name, version and description, in which every reference resolves, path variables and path parameters agree, operation ids are distinct and response codes are well-formed; exporting again gives the same document. Exporting never crashes: what cannot be expressed is refused with an error. The library's own reader accepts the document, its writer reproduces it (also with servers, security, licence and other elements of OpenAPI added), and malformed documents are rejected by validation.",
  for_all="every model; every document one corruption away from valid",
  why="Document integrity depends on the combination of all types and actions of a model, not on any one sample.",
  files=["openapi/export_openapi.go", "openapi/model.go"], mech=[("document assembly", "openapi/export_openapi.go ExportToOAS3"), ("reader and validation", "openapi/model.go")],
  observe=["openapi.Export", "openapi.Load"], technique="invariants over whole generated documents and corrupted ones", note="Invariants, re-export, and read/write identity of the document."),
 dict(id="P19", title="Types imported from OpenAPI keep the meaning of their schemas",
  statement="Every schema of an OpenAPI 3 document, JSON or YAML, becomes a type of the same name that says the same: kind, format, limits, sizes, pattern, members, fields with required flags, items, map values and alternatives, following references. The model's name, version, comment and description come from the document. Schemas that are malformed or not supported are refused with an error, never dropped or turned into something else.",
  for_all="every document of schemas of the supported forms, nested to a few levels and mutually referring; every one-defect variant",
  why="The tests import a few sample documents and check only that it does not fail.",
  files=["openapi/import_openapi.go", "openapi/model.go"], mech=[("schema conversion", "openapi/import_openapi.go convertOasType and helpers")],
  observe=["openapi.Import"], technique="generated documents against an independent reading of each schema", note="Documents are generated directly as JSON data, never through the exporter."),
 dict(id="P20", title="Operations imported from OpenAPI are complete, repeatable and loadable",
  statement="Every operation of an OpenAPI 3 document becomes one HTTP action with its method, path, name, comment, all parameters in their places (path, query, header) with types and required flags, those of its path that it does not override included, request body, whether these are written in place or referred to among the components, the success response with status, body and headers, and an exception per error status. Importing the same document twice gives the same model, whatever is imported before or at the same time, which can be saved and loaded again. Defective operations are refused with an error, never by a crash.",
  for_all="every set of paths, methods, parameters, bodies and responses; every one-defect variant",
  why="Tests only import samples; parameter places, renamed identifiers and responses combine freely.",
  files=["openapi/import_openapi.go"], mech=[("operation conversion", "openapi/import_openapi.go convertOasPath")], observe=["openapi.Import"],
  technique="generated documents against an independent reading, repeat imports", note="Operations carry an operationId, as the importer needs one; other cases are listed in DESIGN.md."),
 dict(id="P21", title="A Swagger 2 document imports like the OpenAPI 3 document that says the same",
  statement="Importing a Swagger 2 document gives the same model as importing the OpenAPI 3 document describing the same types and operations, order aside, shared parameters and responses that operations refer to included. Each reader recognises its own version: what is neither is refused by both.",
  for_all="every pair of documents saying the same in the two formats",
  why="One sample of each format is imported by the tests, and they are not compared.",
  files=["openapi/import_swagger.go", "openapi/import_openapi.go"], mech=[("conversion of version 2", "openapi/import_swagger.go toV3 and helpers")],
  observe=["openapi.Import on version 2 and 3 documents"], technique="differential: two formats of one generated document", note="The pair is derived from one generated description."),
 dict(id="P22", title="A model survives export to OpenAPI and import back",
  statement="Exporting a model to OpenAPI and importing the result gives a model with the same type names, equivalent types, and the same actions with their paths, parameters, bodies, statuses and exceptions, apart from distinctions OpenAPI has no room for (small integer widths, decimal against float, key types, names of simple item types). A second trip changes nothing more.",
  for_all="every model OpenAPI can express",
  why="The round trip is where the two converters must agree; no test composes them.",
  files=["openapi/export_openapi.go", "openapi/import_openapi.go"], mech=[("export", "openapi/export_openapi.go"), ("import", "openapi/import_openapi.go")],
  observe=["openapi.Export then openapi.Import"], technique="round trip and fixpoint on generated models", note="Compared through a normal form that leaves out only what the format cannot say."),
 dict(id="P23", title="GraphQL schemas exported from a model say what its types say",
  statement="Exporting a model to GraphQL gives a schema that parses, with one object type per struct, one enum per enum and one union per union, in which every field has its name, its type and whether it is required, types derived from scalars being replaced by the GraphQL type for them, arrays by lists of it, and configured custom scalars being declared when used and only then. Nothing undefined is referred to. What GraphQL cannot express is refused with an error. Exporting again gives the same text, and what is printed is that text. Importing it back gives the same structs, enums and unions.",
  for_all="every model GraphQL can express, with every choice of custom scalars; every model with one construct it cannot",
  why="The GraphQL exporter has no test; what it gets wrong depends on the type behind each field and item.",
  files=["graphql/export_graphql.go"], mech=[("type mapping", "graphql/export_graphql.go typeRef, scalarType")], observe=["graphql.FromSadl", "graphql.Export"],
  technique="generated models; the schema is parsed by an independent parser and compared with the model", note="Parsed with graphql-go's parser. Not claimed: comments of types and enum symbols, HTTP actions, which the exporter leaves out."),
 dict(id="P24", title="GraphQL documents import as the types they define, or are refused",
  statement="Importing a GraphQL document gives, in order, a struct for every object type, an enum for every enum and a union for every union, with the names, descriptions, symbols and members of the document and every field's type and whether it is required; operation types of the schema are left out, ID is a string type. The same document always gives the same model. Text that is not GraphQL, and documents with undefined references, duplicate types, nested lists, unsupported scalars or extensions, are refused with an error and never with a crash.",
  for_all="every document of object, enum and union types with lists, descriptions, arguments, interfaces and a schema in any position; every one-defect variant; arbitrary text",
  why="The GraphQL importer has no test; documents combine nullability, lists and descriptions freely.",
  files=["graphql/import_graphql.go"], mech=[("conversion of definitions", "graphql/import_graphql.go gqlSchema, gqlStruct, gqlEnum, gqlUnion")], observe=["graphql.Import"],
  technique="generated documents with their expected model; mutated and arbitrary text", note="Documents are generated as text, with the expected model alongside."),
 dict(id="P25", title="Generated Go types compile and carry every value of the model unchanged",
  statement="For any model whose names are distinct as Go names, the Go generator writes one file, under the configured header and in the configured package, that compiles on its own or, with the runtime setting, with the library (which alone has unit values), with a Go type for every type of the model: fields, items, keys, variants and enum constants of the corresponding Go types, JSON names as in the model and only optional fields omitted when empty. A service interface has one method per action taking its inputs and giving its outputs, and exceptions are errors whose text names their type. Every valid JSON value of a type passes through the Go type unchanged, enums by their symbols or wire values, decimals without loss, timestamps to the millisecond in UTC; what is no enum symbol, number or time is rejected. Generating again gives the same code; types that are not supported are refused with an error and no file.",
  for_all="every model over all kinds of types, nested, recursive and inline; every valid value of them",
  why="The repository has no test of the Go generator at all; whether its output compiles depends on which combination of types a model uses.",
  files=["golang/export_golang.go", "golang/golang_model.go"], mech=[("type mapping", "golang/export_golang.go nativeTypeName"), ("declarations", "golang/golang_model.go"), ("enum, decimal and timestamp runtime", "golang/golang_model.go templates")],
  observe=["golang.Export", "the generated package, compiled and run"], technique="generated models: type-check and compare declarations; compile batches and pass generated values through them",
  note="Declarations are compared by the Go type checker; values pass through compiled programs. Not claimed: zero values of optional fields (omitted by design), names that clash once capitalised."),
 dict(id="P26", title="Generated Go clients and servers talk to each other as the actions say",
  statement="For any model with actions, the generated Go server and client compile, alone or together, with or without the library's runtime. A call through the client is sent with the action's method, path, query and header names and JSON body, all values escaped; the implementation receives exactly the inputs given, declared default values standing in for absent ones; its outputs arrive as the declared status, headers and body, and the client returns them; declared exceptions arrive with their status as the same typed error; and all this also while other calls are in flight. Unknown paths are answered 404, unreadable bodies 400 without calling the implementation, and undeclared errors 500. Generating again gives the same code, and parameter types that cannot be carried are refused with an error.",
  for_all="every set of actions over all methods, parameter places and types, bodies, headers and exceptions; every valid call, result and exception",
  why="No test generates a server or client; correctness shows only when both are compiled and exchange messages.",
  files=["golang/golang_server.go", "golang/golang_client.go"], mech=[("server adaptor", "golang/golang_server.go EmitServerAdaptor"), ("client", "golang/golang_client.go EmitClient")],
  observe=["golang.Export with server and client", "requests and responses on a loopback connection"], technique="generated services compiled in batches and driven end to end over loopback HTTP; every message compared with the model",
  note="gorilla/mux and handlers are not installed here: small stand-ins with the documented behaviour take their place. Every call is made again while the others are in flight, through one shared client. Timeouts and streaming are not claimed."),
 dict(id="P27", title="Generated Java classes compile and carry every value of the model unchanged",
  statement="For any model whose names can be Java names, the Java generator writes, under the configured source directory and package and with the configured header, one file per struct, enum, union and unit value, the service interface and a request and response class per action, all of which compile under every combination of its options (mutable or immutable, Instant or Timestamp, pretty printing, service exceptions). Fields have the corresponding Java types, required ones are marked, and patterns, sizes and numeric bounds are validation annotations with the same limits; immutable classes have getters, a builder and a copying builder, mutable ones fluent setters; exception types can be thrown. Every valid JSON value passes through its class unchanged, also by copying, rebuilding or toString; enums accept their symbols or wire values and nothing else. Generating again gives the same code; Java keywords and collections that contain themselves are refused with an error.",
  for_all="every model over all kinds of types, nested, recursive and inline, with every combination of options; every valid value of them",
  over=["inputs", "configurations"],
  why="The repository has no test of the Java generator at all; whether its output compiles depends on which combination of types and options a model uses.",
  files=["java/export_java.go", "java/java_model.go", "java/java_util.go", "java/java_timestamp.go"], mech=[("type mapping", "java/export_java.go TypeName"), ("classes", "java/export_java.go CreateStructPojo, CreateUnionPojo, CreateEnumPojo, CreateUnitValuePojo"), ("support classes", "java/java_util.go, java/java_timestamp.go")],
  observe=["java.Export", "the generated classes, compiled, inspected by reflection and run"], technique="generated models: compile in a resident javac, compare declarations by reflection, pass generated values through the classes",
  note="Jackson and Bean Validation are not installed here: stand-ins with the documented behaviour of the parts used take their place. Not claimed: Lombok and getters options, empty optional values (left out by design), timestamps nested in collections of collections."),
 dict(id="P28", title="Generated Java clients and resources talk to each other as the actions say",
  statement="For any model with actions, the generated Java resource class, client and example implementation compile, alone or together, in the configured packages. A call through the client is sent with the action's method, path, query and header names and JSON entity, all values escaped; the implementation receives exactly the inputs given, declared default values standing in for absent ones; its outputs arrive as the declared status, headers and entity, and the client returns them; declared exceptions arrive with their status as the same typed exception, or inside a ServiceException when so configured, and any other failure as an exception; and all this also while other calls are in flight. Generating again gives the same code; headers and exceptions that Java cannot express, and services without a name, are refused with an error.",
  for_all="every set of actions over all methods, parameter places and types, entities, headers and exceptions; every valid call, result and exception; every combination of options",
  over=["inputs", "configurations"],
  why="No test generates a server or client; correctness shows only when both are compiled and exchange messages.",
  files=["java/java_server.go", "java/java_client.go", "java/java_model.go"], mech=[("resource class", "java/java_server.go resourceSig, resourceBody"), ("client", "java/java_client.go handlerBody"), ("request and response classes", "java/java_server.go CreateRequestPojo, CreateResponsePojo")],
  observe=["java.Export with server and client", "requests and responses between the compiled client and resource class"], technique="generated services compiled in a resident javac and driven end to end; every message compared with the model",
  note="JAX-RS is not installed here: a stand-in with the documented behaviour of the parts used takes its place. Not claimed: collection-typed parameters, exceptions with status 204 or 304."),
 dict(id="P29", title="HTTP traces show each example as the exchange its action describes",
  statement="Exporting HTTP traces writes, for every example of an action's request and in the order of the examples, the request with the action's method, its path with path and query parameters replaced by the example's values, escaped, the headers the example gives and its JSON body; then, if there is an example of the response or of an exception with the same name, the response with its status line, a Date in GMT, the headers given, a JSON body and a Content-Length that counts its bytes. Values absent from the example are left out, numbers, booleans, timestamps and the like are shown as in JSON, and the model is not changed. An example of a request or response that is not an object is refused with an error, never with a crash.",
  for_all="every model with actions and examples of requests, responses and exceptions over all parameter places and types, given as Go values or read from JSON",
  why="The trace generator has no test; what it writes depends on the place, type and presence of every parameter.",
  files=["httptrace/export_http_examples.go"], mech=[("traces", "httptrace/export_http_examples.go Export")], observe=["the text httptrace.Export writes to its output"],
  technique="generated models with examples; the text is parsed as HTTP messages and compared with the examples", note="Not claimed: empty query values, several examples of one name, examples with both a response and an exception, control characters in headers."),
 dict(id="P30", title="Name, annotation and untyped-value helpers follow their definitions",
  statement="The helpers every importer and generator is built on do what they say for every argument: text is a symbol exactly if it is an ASCII letter followed by letters, digits and underscores; capitalizing changes the case of the first letter and nothing else; a base file name is the last path element without its extension; an annotation without a value counts as true, an absent one as empty, and a list of annotations prints every one of them, quoted, in a fixed order. A value of a JSON-like object is returned in the kind asked for, and as the zero value of that kind when it is absent or of another kind. Two objects are equivalent exactly if their JSON is the same.",
  for_all="every text, path, set of annotations and JSON-like value, in the representations of both the JSON decoder and the SADL parser",
  why="These helpers have no tests; every importer and generator relies on them at the edges (empty text, absent keys, values of another kind).",
  files=["misc.go", "struct_helpers.go", "model.go"], mech=[("text helpers", "misc.go Capitalize, IsSymbolChar, BaseFileName, GetAnnotation, AnnotationsAsString"), ("accessors of untyped values", "struct_helpers.go"), ("symbols and kinds", "model.go IsSymbol, IsNumericType")],
  observe=["the exported helper functions"], technique="differential against reference definitions", note="Capitalizing text that starts with a non-ASCII character is not claimed."),
 dict(id="P31", title="The sadl command converts a description exactly as its libraries do",
  statement="The sadl command reads a description in any of its formats (SADL text, SADL model JSON, OpenAPI or Swagger, Smithy AST, GraphQL), recognised by extension and content, and writes exactly what the chosen generator makes of the model that format's importer makes of it: to standard output, or to the files of the output directory, and nothing else. The -n and -ns options override the name and namespace, -b and -s reach the importers that use them, -t restricts the input format, -x options reach the generator, and so do the sections of a configuration file. Anything it cannot do (unknown generator, missing, corrupt, empty or mixed input, an invalid model, an unreadable configuration) ends with a message and a non-zero status, never with a crash, a success or output. Asked for its version, its help or nothing, it converts nothing.",
  for_all="every description of the supported formats, every generator and every combination of the options; every malformed or missing input",
  why="The command has no tests; the outcome depends on the pairing of input format, options, configuration and generator.",
  files=["cmd/sadl/main.go", "cmd/sadl/import.go", "cmd/sadl/export.go", "smithy/import_smithy.go", "openapi/import_openapi.go", "graphql/import_graphql.go"],
  mech=[("options and configuration", "cmd/sadl/main.go"), ("recognising and importing input", "cmd/sadl/import.go importFiles"), ("running a generator", "cmd/sadl/export.go ExportFiles")],
  observe=["exit status, standard output and error of the sadl command", "the files it writes"],
  technique="differential: the command, run as a process on generated descriptions and options, against the library's importers and generators; corrupted inputs for the refusals",
  note="The swagger-ui generator is P34. Not claimed: Smithy IDL text (the parser is not available offline; the check builds the command with a stand-in for the Smithy AST library, and a lexical scanner stand-in), descriptions that state an OpenAPI version that does not exist."),
 dict(id="P32", title="The Smithy export says what the model says, or is refused",
  statement="Exported to Smithy, a model keeps its meaning: every type becomes a shape of the corresponding kind with its documentation, constraints, members and annotations; inline types get shapes of their own; actions become operations of one service with their method, path, status, and with inputs and outputs bound to path, query, header or payload as in the model; exceptions become error structures with their statuses; examples go with their operation. Every shape that is referred to is defined, and none replaces another. What Smithy cannot say is refused with an error. Exporting twice gives the same text and changes nothing in the model. Printed by Export, it is in the configured or else the model's namespace, and inputs and outputs are named as configured for this export (Request and Response, or Input and Output with useInputOutput), whatever was exported before; a configured name serves a model without one.",
  for_all="every valid model (types, constraints, annotations, actions, operations, examples), namespace, and sequence of exports",
  why="The export has no tests; its branches combine over type kinds, constraints, bindings and annotations.",
  files=["smithy/export_smithy.go"], mech=[("types to shapes", "smithy/export_smithy.go FromSADL, defineShapeFromTypeSpec"), ("actions to operations", "smithy/export_smithy.go FromSADL"), ("examples", "smithy/export_smithy.go")],
  observe=["smithy.FromSADL, encoded as JSON", "the text smithy.Export prints"], technique="generated models against a reference writer of the AST, modulo the order of the shapes and the names of shapes for inline types; models Smithy cannot represent for the refusals",
  note="The Smithy AST library is a stand-in (only its data types and JSON encoding are used); Smithy IDL output is not covered. One listed finding: an exception thrown with two statuses. Type names that Smithy reserves are not generated."),
 dict(id="P33", title="A Smithy model is imported as the model it describes, or refused",
  statement="A Smithy JSON AST is imported as the model it describes: each shape becomes a type of the corresponding kind with its documentation, constraints, required members and traits (as annotations); each operation with an HTTP trait becomes an action with the same method, path, query and header names, status, body and errors, and any other an operation; inputs and outputs that only serve an operation do not become types; examples keep their operation and outcome; the service (the chosen one, if there are several) gives name and version, unless metadata or options override them. Traits of its own or unknown ones are ignored. The order of the shapes does not matter. Text that is no Smithy AST, references to shapes that are not defined, kinds that are not supported, and names that clash are refused with an error; nothing crashes the import or prints to standard output.",
  for_all="every Smithy AST over the supported shapes and traits, in any shape order, and every corruption of one",
  why="The import has no tests; shapes, traits and bindings combine freely in real service models.",
  files=["smithy/import_smithy.go"], mech=[("shapes to types", "smithy/import_smithy.go importShape and its siblings"), ("operations", "smithy/import_smithy.go importOperationShape"), ("traits to annotations", "smithy/import_smithy.go importTraitsAsAnnotations")],
  observe=["smithy.Import of files"], technique="generated ASTs against the schema they were generated along with; defective ASTs for the refusals",
  note="The Smithy AST library is a stand-in (JSON AST only, no IDL, no selectors). Tags, resources, mixins and traits outside the supported list are not generated."),
 dict(id="P34", title="The swagger-ui server answers every request with the right content", over=["inputs", "schedules"],
  statement="The command's swagger-ui generator serves, on its port, the OpenAPI document of the model at its name, the files of the cached user interface release at theirs, and as its start page the index page that points to the document; anything else is not found. Every response is complete and correct however many requests overlap.",
  for_all="every model OpenAPI can express, every release archive, and every schedule of overlapping requests",
  why="No test starts the server; its handlers run concurrently, so correctness depends on the schedule.",
  files=["cmd/sadl/serve.go"], mech=[("document and files", "cmd/sadl/serve.go serveSwaggerUi"), ("cached release", "cmd/sadl/serve.go cacheSwaggerDist")],
  observe=["HTTP responses of the command on loopback port 8080"],
  technique="generated models and archives; groups of concurrent requests against the served process, each response compared with the document the library makes and with the archive's files",
  note="The release is always in the cache (there is no network to fetch it from). Schedules are those the operating system happens to choose for groups of up to 16 simultaneous requests."),
]
