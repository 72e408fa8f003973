D={
"P01":("literals of up to 90 digits, exponents, all int64 and float64 classes, and corrupted literals","exact rational arithmetic (math/big.Rat): printed, encoded and re-read numbers equal the literal; order and conversions agree with it; JSON is a number token","text-roundtrip, json-roundtrip, order-and-conversion, machine-integers, machine-floats, rejects-non-numbers"),
"P02":("moments in years 0000-9999, all offsets and fractions, spellings of UTC, one-edit corruptions","own civil-calendar arithmetic and own grammar of date-times","print-and-parse, utc-spellings, rejects-bad-text, rejects-other-json"),
"P03":("numbers, unit texts with any characters, random and name-based UUIDs, corruptions","round trip, own recognisers, RFC 4122 layout and recomputed hashes","unitvalue-roundtrip, unitvalue-new, unitvalue-rejects, uuid"),
"P04":("schemas of up to a dozen types and actions, each possibly with an injected duplicate; example targets through fields and parameters, possibly spoiled","index built from the schema by the check","resolve, duplicates, example-targets"),
"P05":("whole schemas with every optional part","an encoder of the documented JSON form written by hand (not by reflection over the structs); reload and compare; missing, malformed, wrong-version files must be refused; a document with one node changed or removed is refused or loaded, never a crash, and one that is loaded can be written and loaded again","encode-and-load, rejects, mangled"),
"P06":("type/value pairs of all kinds; values are conforming or corrupted once or twice; each also in other Go representations (by value, by reference, library types)","reference validator in `sval` written from the documentation; it, not the generator, decides what is valid","all-kinds, number, text, collection, struct, union-unit, undefined-type"),
"P07":("copies of every type of a schema, single differences of every attribute, all pairs of small models with recursion","metamorphic: copies are equivalent, differences are not, the relation is reflexive/symmetric/transitive and terminates","copies-are-equivalent, differences-count, relation"),
"P08":("schemas with many inline enums, equal or clashing with each other and with existing types","semantic comparison before and after: every field's former members, everything else as before, result loads as a model","refactor"),
"P09":("nested documents, present and absent paths, all accessors; read from JSON, YAML, strings and back from disk; sequences of Put","plain Go maps","lookup, put, bad-files"),
"P10":("texts of one or several lines, long words, indents, prefixes, widths, padding","invariants: words and lines kept, prefix on every line, width kept","wrap"),
"P11":("histories of a generator writing files: new, existing, forced, with faults (full device, missing directory, directory in the way); all exporters over existing files","a map from path to content; everything happens in a scratch directory","history, settings, exporters"),
"P12":("models written as SADL source by the check's own writer, with random layout, comments, option order and quoting; several files with includes; extensions","the model the source was written from","source, files, extensions"),
"P13":("models, and accepted mutated sources","round trip: decompile, parse, compare; decompiling again gives the same text","models, accepted"),
"P14":("correct specifications with exactly one injected defect: about forty kinds (undefined, duplicate, misplaced, ill-typed, unbalanced, …), and in included files","must be an error and no model; the same source without the defect is accepted","defects, syntax, includes"),
"P15":("token-level and byte-level mutations of specifications, random token sequences, random bytes","no panic, no hang, and either a model or an error","changed, soup, text"),
"P16":("models over all exportable types","the document is decoded as plain JSON and matched type by type with the model: base, format, limits, sizes, patterns, members, required fields, items, variants, comments, examples","types, type-examples, other-types"),
"P17":("services with all methods, parameter places, expected responses, exceptions, examples","each operation of the JSON document against the action, both ways (nothing missing, nothing extra)","operations, duplicate-routes, operation-examples"),
"P18":("whole documents and corrupted ones","all references resolve, required members present, path parameters match the path, read/write identity, repeated export gives the same bytes; corrupted documents are refused","whole-document, bad-documents"),
"P19":("OpenAPI schemas generated as JSON data, never through the exporter","an independent reading of each schema as a SADL type","types, bad-schemas"),
"P20":("OpenAPI operations generated as JSON data, parts of them moved to the components and referred to","independent reading of each operation; repeated imports equal; result loads as a model; defects are refused; a document with one node changed or removed never crashes the import","operations, repeatable-and-loadable, bad-operations, mangled, together"),
"P21":("one description written both as Swagger 2 (with shared parameters and responses) and as OpenAPI 3, JSON and YAML","differential: the imported models are equal; a document with one node changed or removed never crashes the import","same-as-openapi3, tells-them-apart, mangled"),
"P22":("models","export and import give the model back up to a normal form that drops only what OpenAPI cannot say; a second trip changes nothing","there-and-back, stable"),
"P23":("models","the schema text is parsed by graphql-go's parser and compared with the model both ways; unsupported types are refused","schema, printed, unsupported, roundtrip"),
"P24":("GraphQL documents written as text with their expected model; documents with one defect; junk","the expected model; an error for defects; never a crash","documents, defects, junk, files"),
"P25":("models; and batches of them compiled with generated values","go/types compares every declaration with the model; compiled programs pass values of the model through the generated types and print them back","declarations, values, repeatable, unsupported"),
"P26":("services; batches compiled as one program","generated client and server exchange messages over loopback; the handler sees what the caller sent, the caller gets what the handler answered, and the wire carries method, path, query, headers, status and body as declared; then all calls again, overlapping, through shared clients","compiles, calls, repeatable, unsupported"),
"P27":("models, compiled in a resident javac","reflection over the classes against the model; values go through the generated classes and a JSON binder and come back the same","model, lombok, repeatable, refused"),
"P28":("services, compiled in a resident javac","generated client against generated resource class through a recording dispatcher: same comparisons as P26, alone and from six threads sharing a client and a resource; the Maven project file","calls, parts, maven, repeatable, refused"),
"P29":("models with examples of requests, responses and exceptions, as Go values and as read from JSON","the text is read as HTTP messages by the check and compared with the examples; ill-formed examples are refused","traces, malformed"),
"P30":("texts, paths, annotation sets, JSON-like values in both representations","reference definitions written out in the check","names, file-names, annotations, untyped, printing, kinds"),
"P31":("generated models written in every input format, options, configuration files and generators; damaged, missing and mixed input","the library's importer and generator called by the check with the same options; for defects, exit status and message; every generator on a model with one node changed or removed: generated or refused, never a crash","convert, info, refused, mangled"),
"P32":("models with every kind of type, constraint, annotation, action, operation and example","a reference writer of the Smithy AST in the check, compared modulo shape order and the names of inline types","models, refused, printed, examples"),
"P33":("Smithy ASTs with shapes of every kind, traits, HTTP bindings, errors and examples, in any order; ASTs with one defect","the schema generated along with the AST; an AST with one node changed or removed never crashes the import","models, refused, mangled"),
"P34":("models; release archives of a user interface; groups of overlapping requests to the running command","the document the library makes, the archive's files, and the index page with the document's name put in","served"),
}
