#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the definitions below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, technique="", note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe or [], technique=technique, note=note, state=state or []))

T = "transform/"
BASE_NOTE = " Exploration only: it says nothing about inputs that were not generated. Trusted: the reference model / oracle in harness/, the Go toolchain, rapid."

prop("T01", "Each field resolves by transform, then same path, then default, then omission",
  "For every schema (with property names without `.` and `[`) and JSON input, each field of the output is what the field's transform for the transformer's identifier yields; when that yields no value, the input's value at the field's own path if it is usable as the field's type; when there is none, the schema default; otherwise the field is absent. An object holds exactly its resolved fields, laid over the members its own transform or default supplies, an array holds its resolved items, empty objects and arrays are absent, and data of the input no schema field names never reaches the output. A document in which nothing resolves is null.",
  ["inputs", "configurations"], "all schemas (nested objects, arrays, nullable and free-form types, with any mix of transforms and defaults) and all JSON documents",
  "the tests run a few dozen fixed schema and document pairs; the rule is over every nesting of object, array and scalar fields with each fallback stage present or missing",
  [T+"instance.go", T+"transformer.go", T+"transform.go"],
  [("resolution order per instance kind", T+"instance.go"), ("schema walk building the instance tree", T+"transformer.go")],
  ["Transformer.TransformNoValidation"], "differential property-based testing against an independent reference model",
  "Generated schema and document pairs (paths drawn from the document) are compared field by field with a reference model written from the documentation; shrinking gives the minimal pair." + BASE_NOTE)

prop("T02", "Methods first, last and concatenate combine sources as documented",
  "For any list of sources, method first (also when none is given) yields the first source in listed order that has a value and method last the last one that has a value, whatever the other sources hold. Method concatenate joins the values of all sources that have one, in listed order, with the configured delimiter between non-empty strings, and fails if two or more values are not all strings. A source whose path finds nothing (or null) contributes nothing and is no error.",
  ["inputs", "configurations", "histories"], "all source lists, methods, delimiters and documents, and any number of uses of the same transformer",
  "the tests use two or three sources once; order handling must hold for any number of sources, any subset missing, and every repeated call",
  [T+"transform.go", T+"utils.go"], [("method handling", T+"transform.go"), ("concat", T+"utils.go")],
  ["Transformer.TransformNoValidation"], "property-based testing against a list-fold reference model, plus metamorphic relations (order, padding with absent sources)",
  "Source lists of up to eight entries with each subset missing are checked against a fold over the values the oracle extracts itself." + BASE_NOTE)

prop("T03", "Operations compute their documented function and chain left to right",
  "Every operation yields its documented function of its input and arguments, a list of operations is applied left to right with each one receiving the previous one's result, and an input an operation does not support makes the whole transform fail rather than produce another value. A schema whose selected instructions name an unknown operation or method, lack a required argument, or hold an invalid regular expression or case is refused when the transformer is built.",
  ["inputs", "configurations"], "all operations, all argument values, all input values and all chains of operations",
  "each operation is tested on a handful of values; its definition ranges over every string, number and list, and chains over every combination",
  [T+"operations.go", T+"transform.go"], [("operation implementations", T+"operations.go"), ("operation lookup and chaining", T+"transform.go")],
  ["NewTransformer", "Transformer.TransformNoValidation"], "property-based testing of every operation against an independent specification, with chains and invalid configurations",
  "Each operation is driven through the public API with generated inputs and arguments and compared with an independent implementation." + BASE_NOTE)

prop("T04", "Values are converted to the declared type exactly or not at all",
  "A value used for a scalar field is converted to the field's declared type: numeric strings and booleans to numbers, numbers and booleans to strings without changing their value, boolean words and numbers to booleans, RFC 3339 strings and Unix seconds to date-times denoting the same instant, and a list to its first entry for a field that is no array. A value already of the declared type keeps its value, and conversion never turns an absent or null value into a present one. A value that cannot be converted is not usable from the field's own path, so the default applies.",
  ["inputs"], "all JSON values (strings, numbers within double precision, booleans, null, lists, objects) and all declared types",
  "the conversion table in the tests samples about thirty values; the claim is about every number, numeric string, date and list",
  [T+"utils.go"], [("convert and its helpers", T+"utils.go")],
  ["Transformer.TransformNoValidation"], "property-based testing with an exact-arithmetic oracle and round-trip relations",
  "Values of every JSON kind crossed with every declared type; numbers are compared exactly with big rationals." + BASE_NOTE)

prop("T05", "A transform depends only on schema, identifier and input, never on history",
  "The result of transforming an input depends only on the schema, the identifier and that input: it is the same on a freshly built and on a long used transformer, after other inputs and after failed ones, with other transformers of the same schema in use, and when any number of goroutines share the transformer. Neither the input bytes nor the schema are changed by a transform, and concurrent use is free of data races.",
  ["histories", "schedules", "inputs"], "all sequences and interleavings of transforms over any set of transformers sharing a schema",
  "tests call each transformer once, from one goroutine; order dependence and races need sequences and concurrency",
  [T+"transformer.go", T+"instance.go", T+"transform.go"], [("per-call state kept out of the transformer", T+"instance.go"), ("input copied, not modified", T+"transformer.go")],
  ["Transformer.TransformNoValidation", "Transformer.Transform"], "stateful property-based testing: generated histories replayed against fresh transformers, and concurrent runs under the race detector",
  "Histories over several transformers are compared with a fresh transformer per call; the same histories run concurrently under -race. Schedules are those the Go scheduler gives." + BASE_NOTE)

prop("T06", "Transform is TransformNoValidation plus schema validation, nothing else",
  "For every schema and input, the validating transform succeeds exactly when the non-validating one succeeds and its output satisfies the JSON schema, and then both give the same output; otherwise it returns an error and no output. An output that violates the schema (type, required, enum, pattern, bounds or additional properties, at any depth) is never returned without an error.",
  ["inputs", "configurations"], "all schemas with constraints and all inputs, valid and invalid",
  "tests hold a few valid documents and two or three invalid ones; the gate must hold for every constraint at every depth",
  [T+"transformer.go", "jsonschema/validator.go"], [("validation after transform", T+"transformer.go"), ("validator", "jsonschema/validator.go")],
  ["Transformer.Transform", "Transformer.TransformNoValidation"], "differential property-based testing against an independent JSON schema validator",
  "Outputs are judged by an independent mini validator for the generated constraint keywords." + BASE_NOTE)

prop("T07", "No input can crash or hang a transformer; output is valid JSON or an error",
  "For every schema accepted when the transformer is built and every byte sequence given as input, JSON and XML transformers return, without panicking, either an error or output that is one valid JSON document. Input that is not well formed (no JSON document; for XML: elements that are not properly nested or closed) is an error.",
  ["inputs"], "all byte sequences, well formed or not, and all accepted schemas",
  "tests feed well formed documents of the expected shape",
  [T+"transformer.go", T+"instance.go", T+"utils.go", T+"operations.go"], [("input decoding", T+"transformer.go"), ("type switches on decoded values", T+"utils.go")],
  ["Transformer.TransformNoValidation"], "mutation fuzzing of generated schema/document pairs (structure-aware and byte-level) with a crash and validity oracle",
  "Documents are mutated at byte and tree level under generated schemas with every operation." + BASE_NOTE)

prop("T08", "Array fields keep count, order and per-item scope",
  "An array field's output has one item per source item in the same order (items that resolve to nothing are left out), whatever the length and nesting and whether the list comes from a transform, the same path or the default. Inside the items, `@` refers to the current item (or to the object holding the field, in nested objects), an absolute path through `[*]` of an enclosing array refers to the current item too, and any other absolute path refers to the whole document. Items never see another item's values or values left by other fields.",
  ["inputs", "configurations"], "all list lengths (including ten and more), nestings of arrays and objects, and sources",
  "test arrays have two or three items and at most two levels",
  [T+"instance.go", T+"transformer.go"], [("arrayTransformer", T+"instance.go"), ("path modifiers per item", T+"instance.go"), ("replaceInInput", T+"transformer.go")],
  ["Transformer.TransformNoValidation"], "property-based testing with a reference model and metamorphic relations (slicing, permuting and renumbering items)",
  "Array-heavy schemas with lists up to 40 items and three levels, compared with the model; permutation and slicing relations are model-free." + BASE_NOTE)

prop("T09", "XML transforms follow xmlPath with the same methods, operations and defaults",
  "For every XML document and schema, a field with an xmlPath takes the text of the matched element or attribute converted to the field's type, the first match (for a string field: all matches joined by spaces) for fields that are no arrays and one item per match in document order for arrays, whose items' relative paths are resolved against their own element. Methods, operations, defaults and omission work as for JSON input, and a path that matches nothing yields no value.",
  ["inputs", "configurations"], "all XML documents (namespaces, attributes, comments, CDATA, repeated and nested elements) and all schemas with xmlPath instructions",
  "a handful of fixed documents are tested",
  [T+"transform.go", T+"instance.go", T+"transformer.go"], [("xmlTransform", T+"transform.go"), ("arrayTransformXML and objectTransformXML", T+"instance.go")],
  ["NewXMLTransformer", "Transformer.TransformNoValidation"], "differential property-based testing against an independent XML tree and path model",
  "Generated documents and path subsets are evaluated by an own tree model." + BASE_NOTE)

prop("T10", "Instructions of other identifiers and of the other format have no effect",
  "The output for an identifier does not change when transform sections of other identifiers, xmlPath entries (for JSON transformers) or jsonPath entries (for XML transformers) beside the used path, further sources that only have a path of the other format, or descriptions and other annotations are added, changed or removed, even when those sections would be invalid or fail. Building a transformer for one identifier does not affect another built from the same schema.",
  ["configurations", "inputs"], "all schemas, identifiers and additions of unrelated sections",
  "tests hold at most two identifiers in one schema and never compare with and without the other",
  [T+"utils.go", T+"transform.go"], [("selection of the instructions of one identifier", T+"utils.go"), ("path format selection", T+"transform.go")],
  ["NewTransformer", "NewXMLTransformer"], "metamorphic property-based testing (inject unrelated instructions and annotations)",
  "Original and decorated schema must give the same outcome, success or failure." + BASE_NOTE)

prop("T11", "Equivalent spellings of a schema transform alike",
  "Schemas that are the same JSON value (any key order, whitespace and string escapes), or differ only in writing a type as a string, as a one-element list or as a list with null in any position, give the same transform result for every input. Loading the schema from a file gives the same transformer as the same schema in memory.",
  ["inputs", "configurations"], "all schemas and all equivalent spellings of them",
  "tests use one spelling of each schema",
  [T+"transformer.go", T+"utils.go", "jsonschema/schema.go", "jsonschema/walk.go"], [("type detection", "jsonschema/schema.go"), ("raw schema access by key", T+"utils.go")],
  ["NewTransformer", "SchemaFromFile"], "metamorphic property-based testing (re-spell the schema)",
  "Each generated schema is re-spelled at random and both results compared." + BASE_NOTE)

J = "jsonschema/"
prop("S01", "A $ref is equivalent to writing the referenced schema in place",
  "Loading a schema in which any subschemas are replaced by $ref (to a definition, to another file, to a definition of another file, or to a path of the same or another file, chained to any depth and used any number of times, without circles between files) gives the same properties, items, required lists, walk and transform results as the schema with the targets written in place. Keywords beside a $ref override those of the target, relative file references are resolved against the file that holds them, a document without references of its own may equally be fetched over HTTP, and a reference whose target is missing is an error.",
  ["inputs", "configurations"], "all acyclic reference graphs over files, definitions and local paths",
  "tests load a dozen fixed files",
  [J+"reference.go", J+"schema.go"], [("dereference", J+"reference.go"), ("resolveRef", J+"reference.go")],
  ["SchemaFromFile", "SchemaFromFileNoFlatten", "Walk"], "metamorphic property-based testing: random extraction of subschemas into references versus the inlined schema",
  "Schemas are generated inlined and split at random into references over files; both are loaded and compared." + BASE_NOTE)

prop("S02", "allOf and the selected oneOf merge without losing or overwriting fields",
  "Loading a schema with allOf merges every entry's properties and required lists into the parent, the parent's own definition of a property wins and earlier entries win over later ones; of the oneOf entries exactly the one whose reference's file name without extension equals the requested type is merged, and none if no name matches (an entry that is no reference has no name). The non-flattening load leaves allOf entries of a schema that has properties of its own unmerged. All entries stay listed in order, each with its own reference, properties and required list.",
  ["inputs", "configurations"], "all combinations of parents, allOf lists and oneOf lists with overlapping properties, and all requested types",
  "tests have one or two fixed allOf/oneOf schemas",
  [J+"schema.go"], [("merge of allOf and oneOf", J+"schema.go"), ("mergeProperties", J+"schema.go")],
  ["SchemaFromFile", "SchemaFromFileNoFlatten"], "property-based testing against a set-merge reference model",
  "Generated families of files with overlapping property names, compared with a merge model." + BASE_NOTE)

prop("S03", "Walk visits every instance exactly once, with its path, and stops on error",
  "Both walks call the given function exactly once for every property and array item instance of the schema at any depth and for nothing else, with the JSONPath of that instance and, respectively, its decoded or raw schema, and a parent before its children. When the function returns an error no further instance is visited and the walk returns an error holding its text.",
  ["inputs", "configurations"], "all schemas, and every position at which the callback fails",
  "tests walk a few fixed schemas and one failing callback",
  [J+"walk.go"], [("walkInstance", J+"walk.go"), ("walkRaw", J+"walk.go")],
  ["Walk", "WalkRaw"], "property-based testing against a recursive enumeration, with an injected failure at every visit",
  "The visit lists are compared with an enumeration of the generated tree; for each schema failures are injected at generated positions." + BASE_NOTE)

prop("S04", "The cache builds each key once, never stores failures, never mixes keys",
  "For any concurrent set of loads, all callers of a key get the value of one successful build of that key, or the error of the build they waited for; a successful build runs once per key, a failed one is not remembered and the next load builds again. Loads of different keys neither wait for each other nor receive each other's values, and a builder may load other keys of the same cache.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of loads over any keys with any builders failing",
  "the cache has no concurrency test; schedules and failures need generated interleavings",
  [J+"cache.go"], [("single flight per key", J+"cache.go"), ("map of finished values", J+"cache.go")],
  ["Cache.Load"], "stateful concurrent property-based testing in a synctest bubble (virtual time schedules) with a history oracle",
  "Builders block and fail at generated virtual times, so every overlap pattern is controlled; deadlocks are detected by the bubble." + BASE_NOTE)

prop("S05", "Validation accepts exactly the documents the schema allows, repeatably",
  "A validator built from a schema file accepts a document exactly when the document satisfies the schema, through references to other files as well, returns true with no error or false with an error that names the violating properties, and never both; a document that is no single JSON value is rejected. The verdict and message for a document are the same on every call, for every validator of that file and under concurrent use.",
  ["inputs", "histories", "schedules"], "all documents against generated schemas, repeated and concurrent validations",
  "tests validate two fixed documents",
  [J+"validator.go"], [("NewValidator and its cache", J+"validator.go"), ("error reporting", J+"validator.go")],
  ["NewValidator", "Validator.Validate", "Schema.Validate"], "differential property-based testing against an independent mini validator, plus repeat and race runs",
  "Documents valid by construction and single mutations of them." + BASE_NOTE)

prop("S06", "Loading a schema is independent of other loads, repeatable and race free",
  "Loading a file gives the same schema whatever files, types and modes were loaded before or are loaded at the same time, also for files sharing referenced files or base names, and whether the path is given absolute or relative. Loads of different requested types or modes never receive each other's result, and a file that could not be loaded (missing or no JSON) is loaded after it was repaired, also by the files that refer to it.",
  ["histories", "schedules", "configurations"], "all sequences and interleavings of loads over sets of related files",
  "tests load each file once in a fixed order",
  [J+"schema.go", J+"cache.go", J+"reference.go"], [("schema cache keyed by path, type and mode", J+"schema.go")],
  ["SchemaFromFile", "SchemaFromFileNoFlatten"], "stateful property-based testing: random load histories against a fresh process view, and concurrent loads under the race detector",
  "Histories of loads over fresh copies of the same files are compared with loads in isolation." + BASE_NOTE)

prop("S07", "Type and schema summaries report exactly what the schema says",
  "The field type report returns the one non-null type of an instance and whether null is among its types, for every spelling and order, and an error for a union of several non-null types or a missing type. The schema type summary lists exactly the references of allOf and oneOf in document order (entries that are no references are not listed) and the property names sorted.",
  ["inputs"], "all instances and schemas",
  "a few fixed instances are tested",
  [J+"schema.go"], [("FieldType", J+"schema.go"), ("SchemaTypes", J+"schema.go")],
  ["FieldType", "SchemaTypes"], "property-based testing against a direct decoding oracle", "Generated type spellings and schemas." + BASE_NOTE)

G = "generate/"
prop("G01", "Generated Go structs compile and round-trip every document of the schema",
  "For every supported schema and every option set, the generated Go files are formatted, compile together, and each struct decodes any document valid for its schema (integers written as such, free-form objects of strings, no members the schema does not name) and encodes it again without losing or altering a value: every present value survives, except that an optional value that is zero or empty and not nullable may be left out; absent optional values stay absent or appear only as the type's zero value, and required fields are always written. Supported are properties of one type (or null), objects with a properties member, lists of anything but lists, property names that start with a letter or are renamed and whose exported names are distinct, and allOf and oneOf entries of the root that refer to files.",
  ["programs", "inputs", "configurations"], "all supported schemas, option sets and valid documents",
  "tests compare the text of about ten generated files; nothing decodes documents into them",
  [G+"struct.go", G+"generate.go"], [("field extraction", G+"struct.go"), ("type mapping and tags", G+"struct.go")],
  ["BuildStructsWithArgs"], "property-based testing: generated schemas are built, type-checked in process, rebuilt with reflection and round-tripped with generated documents",
  "Type checking uses go/types; the round trip uses reflect types built from the checked source." + BASE_NOTE)

prop("G02", "Each schema property becomes one field of the mapped type and tag",
  "The structs generated for a supported schema (see the round-trip property) have exactly one field per property other than hydration ones, nothing else, with the Go type the schema type maps to (string, int64, float64, bool, time.Time, map of strings, slice, struct; pointers for nullable and, with the pointers option, optional times and optional separately declared structs), the exported name or its configured rename, and a JSON tag holding the property's exact name with an omit option exactly when it is not required. With separate types every object has a struct type of its own. allOf and oneOf entries are embedded or flattened as the options say, and the first line of a description appears as tag, or all of it as comment, as configured.",
  ["programs", "configurations"], "all supported schemas and option sets",
  "tests compare a dozen fixed outputs",
  [G+"struct.go", G+"generate.go"], [("addField and goType", G+"struct.go"), ("write", G+"struct.go")],
  ["BuildStructsWithArgs"], "property-based testing: the generated source is parsed and compared with a field table computed from the schema",
  "Generated source is parsed with go/parser." + BASE_NOTE)

prop("G03", "Generation options never change the JSON format of the structs",
  "For one schema, the structs generated with nested or separate types, with descriptions as tags or comments, with allOf embedded or flattened, with pointers on or off, and with renamed structs or fields accept the same documents, valid or not, and encode them to the same JSON value, up to optional values that are zero or empty, which may be left out.",
  ["programs", "configurations", "inputs"], "all pairs of option sets, schemas and documents",
  "tests never compare the behaviour of two option sets",
  [G+"struct.go", G+"generate.go"], [("BuildArgs handling", G+"generate.go")],
  ["BuildStructsWithArgs"], "metamorphic property-based testing across option sets",
  "Round trips of the same document through both sets of structs." + BASE_NOTE)

prop("G04", "Generation is deterministic and independent of history and concurrency",
  "Generating from the same schema and options gives byte-identical files every time, in any output directory of the same name, whatever was generated before in the process or is being generated concurrently for other schemas, and writes no files but those of the schema. A failed generation leaves later ones unaffected.",
  ["histories", "schedules", "programs"], "all sequences and interleavings of generations",
  "tests generate each schema once and cannot see map iteration order",
  [G+"struct.go", G+"graphql.go", G+"avro.go", G+"generate.go"], [("sorting of fields and structs", G+"struct.go")],
  ["BuildStructsWithArgs"], "property-based testing: repeated, reordered and concurrent generation compared byte for byte",
  "Repetition makes iteration-order dependence visible with high probability." + BASE_NOTE)

prop("G05", "MessagePack code generated for structs round-trips every value",
  "With the MessagePack option the generated package (and its generated tests) compiles and, for every value of the generated structs, encoding and decoding by either interface gives an equal value, the size declared by Msgsize is never exceeded, and truncated encodings give an error; truncated, changed or arbitrary bytes never crash the decoder (headers that announce sizes far beyond the input aside, for which the msgp library allocates).",
  ["programs", "inputs"], "all supported schemas and struct values",
  "the generated msgp tests cover zero values only",
  [G+"generate.go", G+"struct.go"], [("buildMessagePackFile", G+"generate.go")],
  ["BuildStructsWithArgs"], "property-based testing of compiled generated packages in batches",
  "Random batches of generated packages are compiled into one program that encodes and decodes generated documents of every struct, all truncations of the encodings, and changed and arbitrary bytes; a reference comparison of the decoded JSON is the oracle." + BASE_NOTE)

prop("G06", "Avro output holds every field and reads back equal",
  "With the Avro option, for supported schemas without free-form objects and with property names that are valid Avro names, the generated schema is valid Avro: a record named after the struct with the two metadata fields first and then exactly one field per property (of the type itself and of its allOf structs), unions with null for optional strings, numbers and times and for pointers to objects. The generated package and its tests compile, and for every value of the struct the written container file holds that schema and a record equal to the value: every given value as it is, times as milliseconds, absent values as null or the zero value of the field, AvroWriteTime the given time (or the current time for a zero time) and AvroDeleted set by the delete writer only. Writing does not change the value and nil values give an error. The bulk writer writes each item once, in order, and closes its error channel; when the destination fails exactly that error is reported and the writer ends.",
  ["programs", "inputs", "histories"], "all supported schemas and struct values, and item sequences",
  "the generated tests write an empty struct only",
  [G+"avro.go", G+"avro_helpers.go", G+"avro_template.go"], [("schema writing", G+"avro.go"), ("field mapping code", G+"avro_helpers.go")],
  ["BuildStructsWithArgs", "WriteAvroCF", "BulkAvroWriter"], "property-based testing of compiled generated packages with an independent decoding of the container file",
  "Random batches of generated packages are compiled into one program that runs generated histories of single, delete and bulk writes, some to failing or slow destinations; the schemas and container files are parsed by an independent reader and compared with the schema and the documents." + BASE_NOTE)

prop("G07", "Avro time helpers convert exactly to milliseconds",
  "For every time, the Avro conversion is the number of milliseconds since the Unix epoch of the same instant, independent of its location; the optional form gives zero for a missing time and otherwise the same number; the slice forms convert element by element in order, the optional slice leaving out missing entries.",
  ["inputs"], "all times of the years 1 to 9999 in every zone, and all slices",
  "two or three recent times are tested",
  [G+"avro_helpers.go"], [("AvroTime and friends", G+"avro_helpers.go")],
  ["AvroTime", "AvroTimeSlice", "AvroOptionalTime", "AvroOptionalTimeSlice"], "property-based testing against exact integer arithmetic", "Times over the full range, with sub-millisecond parts, negative epochs and zones." + BASE_NOTE)

prop("G08", "The GraphQL schema is well formed and lists every property once",
  "For every supported schema (names valid in GraphQL, objects with types of their own, no property named like the counter of a list, none redefined by a oneOf entry) and option set the generated GraphQL files are syntactically valid and define every object type they refer to exactly once (or leave it to a configured target). A schema alone becomes one type; with allOf or oneOf entries the allOf entries become the interface (or, without oneOf, the type) and every oneOf entry a type that implements it, in a file of its own if asked for, the properties of the root itself being left out. Each type has exactly one field per property with the mapped type or target, list wrapping and nullability (nullable if the property may be null, is a date-time or free-form object, or is optional while pointers are on and it is no scalar; lists likewise), plus one total counter per list. Descriptions and deprecation reasons survive unchanged, implementations repeat all fields of their interface, fields filled by resolvers keep target and arguments, and the Go model of every type is the generated struct that holds its fields.",
  ["programs", "configurations"], "all supported schemas and option sets",
  "tests compare a handful of fixed outputs",
  [G+"graphql.go"], [("buildGraphQLFile", G+"graphql.go"), ("graphqlType", G+"graphql.go"), ("addField", G+"graphql.go")],
  ["BuildStructsWithArgs"], "property-based testing: the output is parsed by an independent GraphQL SDL parser and compared with a table computed from the schema",
  "Own SDL parser following the GraphQL grammar." + BASE_NOTE)

prop("G09", "The command line tool does what the library does with the same options",
  "For every schema and set of flags the command writes exactly the files the library writes for the corresponding arguments and exits zero; when the library fails, or a flag is unknown or malformed, or a required argument or flag is missing, it exits non-zero with a message. The convenience functions BuildStructs and BuildStructsRename write what BuildStructsWithArgs writes for the arguments they stand for, wherever the paths are given relative to the working directory or absolute.",
  ["configurations", "programs"], "all flag combinations and schemas",
  "main has no tests",
  ["main.go", G+"generate.go"], [("flag to argument mapping", "main.go")],
  ["jstransform command"], "differential property-based testing: the built binary versus the library",
  "The binary is built from the working tree and run in scratch directories with generated flags." + BASE_NOTE)

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]

built = set(open(os.path.join(here, "tools", "built")).read().split())
checks = [dict(property=p["id"], quick_cmd="./run.sh " + p["id"], thorough_cmd="./run.sh " + p["id"] + " --thorough",
               evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"])
          for p in P if p["id"] in built]
na = [dict(property=p["id"], reason="planned for property-based testing; its check is not built yet") for p in P if p["id"] not in built]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Black-box checks through the exported API and the command; no hooks in /repo. Properties and this file are written by tools/props.py.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
