"""The properties: statements, quantifiers, anchors."""
PROPS, NA = [], []


def P(id, title, statement, quant, why, files, mech, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, **k))


def N(id, title, statement, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, reason=reason))


P("P01", "Every type reference is resolved before anything is produced",
  "If any type position of the compiled input (a record field at any nesting depth through arrays, maps and unions, a message parameter, response or error, a main schema, or a listed named schema) refers to a named type that neither the file nor its imports define, compilation fails. "
  "No protocol or schema JSON is ever produced from an input with an undefined type name.",
  "all input files and all shapes and depths of nested types and messages",
  "Tests sample a few positions and depths; every position of every type must be visited, including ones added through imports.",
  ["src/resolve.rs", "src/compiler.rs"],
  [("collect_unresolved_refs", "src/resolve.rs"), ("validate_all_references", "src/compiler.rs"), ("IdlCompiler::compile", "src/compiler.rs")])

P("P02", "Two definitions of the same full name are rejected",
  "A compilation in which a file declares a record, error, enum or fixed whose full name (namespace plus name) is already defined, by that file or any import processed before it, fails. "
  "The earlier definition is never silently replaced, and the same simple name in different namespaces is not a duplicate.",
  "all input files, import graphs and declaration orders",
  "Tests try one or two duplicate pairs; the guarantee covers every kind of named type and every route into the symbol table.",
  ["src/resolve.rs", "src/compiler.rs", "src/model/schema.rs"],
  [("SchemaRegistry::register", "src/resolve.rs"), ("process_decl_items", "src/compiler.rs"), ("make_full_name", "src/model/schema.rs")])

P("P03", "Only valid Avro names and namespaces are defined",
  "Every record, error, enum and fixed accepted into a compilation has a name made of an ASCII-or-Unicode letter or underscore followed by letters, digits or underscores, and every dot-separated segment of its namespace has the same form. "
  "A type with any other name or namespace segment, including an empty one, is rejected with an error, wherever in the namespace the bad segment is. A type whose full name is that of a primitive type is rejected as well.",
  "all names and namespaces, declared in IDL or through annotations",
  "Tests sample a handful of bad names; every kind, every segment and every character position matters.",
  ["src/resolve.rs"],
  [("validate_schema_name", "src/resolve.rs"), ("is_valid_avro_name", "src/resolve.rs")])

P("P04", "Each file is imported at most once and import cycles terminate",
  "Within one compilation every file is read and processed at most once, however many import statements and however different the relative paths that lead to it, and importing a file again is not an error. "
  "The root file counts as already imported, so import graphs with cycles, including through the root, terminate.",
  "all import graphs, including diamonds and cycles, and all spellings of paths",
  "Tests contain a couple of small cycles; identity by resolved path and mark-before-process must hold on every route.",
  ["src/import.rs", "src/compiler.rs"],
  [("ImportContext::mark_imported", "src/import.rs"), ("resolve_single_import", "src/compiler.rs"), ("parse_and_resolve", "src/compiler.rs")])

P("P05", "Imports are searched next to the importing file, then in the given order",
  "An import path is looked up relative to the directory of the file that contains the import statement first, then in each configured import directory in the order configured, and the first existing file is used. "
  "An import that is found nowhere is an error.",
  "all import paths, directory layouts and import-directory lists, at every nesting depth",
  "Tests use one or two directories; precedence between several matching candidates and nested importers is a combination they do not enumerate.",
  ["src/import.rs", "src/compiler.rs", "src/main.rs"],
  [("ImportContext::resolve_import", "src/import.rs"), ("process_decl_items", "src/compiler.rs")], over=["inputs", "configurations"])

P("P06", "JSON imports keep every attribute of the imported types and messages",
  "Importing an .avsc or .avpr file carries over, for every record, error, enum, fixed, array, map, union, primitive and reference, its name, doc, aliases, fields (name, type, doc, default, order, aliases), symbols, enum default, size, items, values and branches, and for every message its doc, parameters, response, errors and one-way flag, without inventing values for absent attributes. "
  "Every entry of an imported file's types and messages ends up in the compilation, and an imported schema object lacking a mandatory attribute (type, name, size, items, values) or using an unknown type is rejected.",
  "all imported JSON schema and protocol documents",
  "Tests import a few documents; each attribute must survive for each kind in every combination of present and absent.",
  ["src/import.rs"],
  [("object_to_schema", "src/import.rs"), ("json_to_field", "src/import.rs"), ("json_to_message", "src/import.rs"), ("import_protocol", "src/import.rs"), ("import_schema", "src/import.rs")])

P("P07", "JSON imports keep custom properties and only those",
  "When a JSON schema or protocol file is imported, every key of a schema object, field or message that is not an attribute of that kind of construct is kept as a custom property with its value, and keys already consumed as attributes are not repeated as custom properties. "
  "This holds for each construct: record, error, enum, fixed, array, map, annotated primitive, logical type, field, parameter and message.",
  "all imported JSON documents and all property keys and values",
  "Tests check a property or two; the set of consumed keys differs per construct and per branch of the logical-type handling.",
  ["src/import.rs"],
  [("collect_extra_properties", "src/import.rs"), ("parse_annotated_primitive", "src/import.rs")])

P("P08", "JSON imports resolve names in the right namespace",
  "In an imported JSON file a named type's namespace is its explicit namespace attribute, else the dotted prefix of its name, else the namespace of the enclosing context, and bare type names in a record's fields resolve in that record's namespace, all others in the enclosing one. "
  "Types and messages of an imported protocol inherit the protocol's namespace, a schema file inherits none, and a dotted reference is taken as written.",
  "all imported JSON documents and nestings of namespaces",
  "Tests cover some nestings; each kind and each nested position must agree on the rule.",
  ["src/import.rs"],
  [("parse_record", "src/import.rs"), ("parse_enum", "src/import.rs"), ("parse_fixed", "src/import.rs"), ("string_to_schema", "src/import.rs")])

P("P09", "Types nested in imported JSON schemas become definitions of their own",
  "Every record, error, enum or fixed defined inline anywhere inside an imported JSON schema becomes a separately registered definition with all its attributes, registered before the type that contains it, and is replaced at its original position by a reference to that same full name. "
  "Everything else about the containing types (their own attributes, and unnamed types) is unchanged.",
  "all imported JSON schemas, at every nesting depth",
  "Tests nest one level or two; each container and each named kind must be handled at every depth.",
  ["src/import.rs"],
  [("flatten_schema_inner", "src/import.rs"), ("flatten_and_register", "src/import.rs")])

P("P10", "Messages of imported protocols are merged; a file's own messages win",
  "A compiled protocol contains every message of its own and of every protocol it imports, directly or through other imports, in IDL or JSON form. "
  "Where names clash, a file's own message overrides those of the files it imports.",
  "all import graphs and message sets",
  "Tests have at most one level of imports with messages; overriding through nested imports is not sampled.",
  ["src/compiler.rs"],
  [("resolve_single_import", "src/compiler.rs"), ("parse_and_resolve", "src/compiler.rs")])

P("P11", "Types come out in declaration order",
  "The types of a compiled protocol, and the schemas of a schema extraction, appear in the order in which declarations and import statements are written, with an import's types at the position of its import statement. "
  "Types hoisted out of an imported schema precede the type containing them, and an imported protocol's types keep their file order.",
  "all interleavings of declarations and imports",
  "Tests compare a few fixed outputs; order must be independent of hashing and of the kind of import.",
  ["src/compiler.rs", "src/resolve.rs", "src/import.rs"],
  [("process_decl_items", "src/compiler.rs"), ("SchemaRegistry", "src/resolve.rs"), ("import_protocol", "src/import.rs")])

P("P12", "JSON output carries every attribute of what was compiled",
  "The emitted JSON states, for every protocol, message, parameter, record, error, enum, fixed, array, map, union, logical type, annotated primitive and field, all the attributes that kind of construct has (name, namespace, doc, aliases, fields, symbols, default, size, items, values, branches, order, precision, scale, response, errors, one-way) with their values and element order, and all its custom properties. "
  "Absent attributes are omitted, defaults are emitted whenever one was written (including null), and record versus error is told apart.",
  "all compiled protocols and schemas",
  "Golden tests cover some combinations; each attribute of each kind must be emitted in every context and only when present.",
  ["src/model/json.rs"],
  [("schema_to_json", "src/model/json.rs"), ("field_to_json", "src/model/json.rs"), ("message_to_json", "src/model/json.rs"), ("protocol_to_json", "src/model/json.rs")])

P("P13", "Each type is emitted in full once; names in output resolve correctly",
  "In emitted JSON a named type is written out in full at its first occurrence and as a name at every later one, wherever the occurrences are. "
  "A namespace is left out of a definition, and a reference shortened to its simple name, only where the enclosing definition's namespace makes the short form mean the same full name; everything else is written with its full name or namespace.",
  "all schemas, nestings of namespaces and orders of reference",
  "Tests fix a few nestings; whether a name may be shortened depends on the enclosing namespace at every position.",
  ["src/model/json.rs"],
  [("schema_to_json", "src/model/json.rs"), ("build_lookup", "src/model/json.rs"), ("protocol_to_json", "src/model/json.rs")])

P("P14", "Annotations never overwrite attributes of the construct they annotate",
  "In IDL, an annotation whose name is an attribute of the annotated construct (such as @fields on a record or @precision on a decimal) is rejected or read as that attribute, never kept as a custom property that would replace the attribute in the output. "
  "An annotation with any other name is kept.",
  "all annotations on all kinds of declaration and type",
  "The set of reserved names differs per construct; tests try one or two.",
  ["src/reader.rs", "src/model/json.rs"],
  [("walk_schema_properties", "src/reader.rs"), ("walk_full_type", "src/reader.rs")])

P("P15", "The same inputs give the same output and diagnostics",
  "Compiling the same files again gives the same JSON, the same list of written files, and the same warnings and errors in the same order: nothing depends on hash table iteration order, directory listing order, time, environment, process or randomness. "
  "The keys of emitted JSON objects are in alphabetical order, and the files of a directory are compiled in order of their names.",
  "all inputs, hash seeds and file systems",
  "One test run sees one hash seed; the order must not matter for any of them.",
  ["src/compiler.rs", "src/reader.rs", "src/model/json.rs", "src/resolve.rs", "src/main.rs"],
  [("protocol_to_json", "src/model/json.rs"), ("validate_all_references", "src/compiler.rs"), ("extract_directory", "src/compiler.rs")])

P("P16", "Malformed input is never accepted",
  "A source with a syntax error is rejected, and nothing the parser's recovery made of it is used; an imported JSON file is accepted only if the whole of it, comments aside, is one well-formed JSON value. "
  "Text after an end-of-file character (U+001A) does not belong to the source. "
  "Each character sequence the lexer cannot recognise is reported as a warning about its place when the source is otherwise accepted.",
  "all sources and imported files",
  "Tests hold a sample of malformed inputs; recovery paths of the parser are unbounded, and one tolerated error lets a half-read model through.",
  ["src/reader.rs", "src/import.rs"],
  [("parse_idl_named", "src/reader.rs"), ("CollectingErrorListener", "src/reader.rs"), ("parse_json_with_comments", "src/import.rs")])

P("P17", "Duplicate fields, symbols, parameters and union branches are rejected",
  "A record with two fields of the same name, an enum with a repeated symbol, a message with two parameters of the same name, and a union with two branches of the same unnamed type or of the same full name are rejected, as is a union directly inside a union. "
  "Branches or members that differ (including two named types with the same simple name in different namespaces) never clash.",
  "all IDL declarations, however the members are spread over declarations",
  "Tests try adjacent duplicates; every pair, in every grouping of declarations, must be compared.",
  ["src/reader.rs", "src/model/schema.rs"],
  [("walk_record", "src/reader.rs"), ("walk_enum", "src/reader.rs"), ("walk_union_type", "src/reader.rs"), ("union_type_key", "src/model/schema.rs")])

P("P18", "Defaults fit their types",
  "A default written in an IDL file for a field or parameter whose type is a primitive, logical, enum, fixed, array, map, record or union written there, or for a field whose type is a type declared earlier in the same file, is accepted exactly when it is a value of that type: integers are in range, enums, fixed and bytes take strings, containers fit element by element, records give every field that has no default, and unions are fitted by one of their branches. "
  "Any other such default is rejected at the declaration that has it.",
  "all defaults written in IDL files for types known there",
  "Tests sample good and bad defaults; the answer must be right for every type and value, nested to any depth.",
  ["src/model/schema.rs", "src/reader.rs"],
  [("is_valid_default", "src/model/schema.rs"), ("validate_default", "src/model/schema.rs"), ("walk_variable", "src/reader.rs")])

P("P19", "Constructs the Avro IDL forbids are rejected",
  "The compiler rejects a declaration named like a built-in type, an enum default that is not one of its symbols, a decimal whose precision is zero or below its scale, a one-way message whose response is not void, an annotation on a type reference (also an optional one), an annotation that must have a string or list value but has another, and an optional null. "
  "None of these ever produces output.",
  "all IDL files",
  "Tests try one instance of each; every position and every combination must be rejected.",
  ["src/reader.rs"],
  [("is_invalid_type_name", "src/reader.rs"), ("walk_primitive_type", "src/reader.rs"), ("walk_message", "src/reader.rs"), ("walk_full_type", "src/reader.rs")])

P("P20", "Logical types are recognised exactly when valid, and keep their parameters",
  "Each logical type has the one name and underlying type of the Avro specification, and each primitive type its one name. "
  "An annotation in IDL or an attribute in an imported schema makes a primitive that logical type exactly when it names one over this primitive and the precision and scale given for a decimal are usable; the type then has that precision and scale (0 if none), and every other attribute is kept. "
  "Anything else leaves the primitive and all its attributes as they were; a type keyword denotes its logical type and an annotation cannot change it.",
  "all primitive types, logical type names, precisions, scales and other annotations, in IDL and imported JSON",
  "Tests pair some names with some types; the tables must be right, and mutually inverse, in every row, and every invalid combination must lose nothing.",
  ["src/model/schema.rs", "src/reader.rs", "src/import.rs"],
  [("parse_logical_type", "src/model/schema.rs"), ("LogicalType::name", "src/model/schema.rs"), ("LogicalType::expected_base_type", "src/model/schema.rs"), ("try_promote_logical_type", "src/reader.rs"), ("parse_annotated_primitive", "src/import.rs"), ("walk_primitive_type", "src/reader.rs")])

P("P21", "Every declared and referenced type has the full name the IDL gives it",
  "A declaration's namespace is that of its dotted name, or else its own @namespace, or else the enclosing one: the protocol's (from its dotted name or @namespace) or the one the file declares, and otherwise none. "
  "A type name without dots refers to that name in the enclosing namespace, which inside a record is the record's own and after it again the outer one; a dotted name is taken as written.",
  "all declarations and all type positions (fields, nested types, parameters, responses, throws clauses, main schemas)",
  "Tests sample combinations; each kind of declaration and each position must follow the same precedence in every combination.",
  ["src/reader.rs"],
  [("compute_namespace", "src/reader.rs"), ("walk_record", "src/reader.rs"), ("walk_protocol", "src/reader.rs"), ("walk_idl_file", "src/reader.rs"), ("walk_nullable_type", "src/reader.rs")])

P("P22", "What an IDL file declares is what the compiled model contains",
  "Every declaration, field, parameter, symbol, union branch, message, error and import written in an IDL file is in the compiled protocol or schema, in the order written, with exactly the written name, type, size, default, documentation, aliases, sort order and annotations. "
  "Each type keyword stands for its Avro type, and documentation before a field declaration applies to each of its variables that has none of its own.",
  "all IDL files accepted by the parser",
  "Golden tests fix a few files; each element of every construct must be carried over in every combination.",
  ["src/reader.rs"],
  [("walk_protocol", "src/reader.rs"), ("walk_record", "src/reader.rs"), ("walk_variable", "src/reader.rs"), ("walk_message", "src/reader.rs"), ("walk_primitive_type", "src/reader.rs")])

P("P23", "Documentation comments are used or reported, never lost",
  "The documentation of a declaration is the nearest documentation comment before it, with only white space and ordinary comments in between. "
  "Every documentation comment of an accepted source that no declaration takes is reported by a warning naming its line and column, and one that is taken is not.",
  "all sources and placements of comments",
  "Tests place comments in some positions; every token position of every kind of file counts.",
  ["src/reader.rs", "src/doc_comments.rs"],
  [("extract_doc_comment", "src/doc_comments.rs"), ("collect_orphaned_doc_comment_warnings", "src/reader.rs"), ("extract_doc_from_context", "src/reader.rs")])

P("P24", "Warnings are all reported, once, and only for this compilation",
  "Every warning raised while compiling, about the input or about anything it imports, is returned with the result, or can be asked for when compilation fails after the file was parsed, and the command prints it to standard error either way. No warning is reported twice and none is left over from an earlier compilation with the same builder. Annotations a union cannot carry and aliases that are not Avro names are always warned about.",
  "every document, import graph and sequence of calls on a builder, on success and on every failure", "Tests look at a handful of warnings; whether a warning survives depends on which of many exits is taken after it was raised.",
  ["src/compiler.rs", "src/reader.rs", "src/main.rs"],
  [("IdlCompiler::compile", "src/compiler.rs"), ("extract_directory", "src/compiler.rs"), ("parse_idl_named", "src/reader.rs"), ("run_idl", "src/main.rs")])

P("P25", "Failures are never passed over",
  "Whenever reading or searching the file system, parsing, resolving, validating, registering or writing fails, in the document itself, in anything it imports or in any file of a directory, the compilation and the command fail. No failure is ignored, replaced by a default or turned into a partial result. Only a closed pipe on standard output and a path without a canonical form are not failures.",
  "all inputs, file systems and points of failure", "Tests cannot make every call fail; a failure that is dropped shows only when that call fails.",
  ["src/compiler.rs", "src/import.rs", "src/reader.rs", "src/resolve.rs", "src/main.rs"],
  [("extract_directory", "src/compiler.rs"), ("resolve_single_import", "src/compiler.rs"), ("import_protocol", "src/import.rs"), ("parse_idl_named", "src/reader.rs"), ("write_output", "src/main.rs")])

P("P26", "Diagnostics point at the construct they are about, in its own file",
  "Every error or warning that carries a position carries the offset and length of the construct it is about (the offending element, name or value, first to last character; the first token of a declaration or import), together with the name and the unshortened text of the file that construct is in. What is shown is read from exactly that text under exactly that name. An error in an import is reported in the imported file or at the import that failed, an error about a field, a reference or a declaration at that field, reference or declaration.",
  "all inputs that lead to a diagnostic, in every file of an import tree", "Tests snapshot a few dozen diagnostics; which of several elements or files is meant depends on every input and import tree.",
  ["src/reader.rs", "src/error.rs", "src/compiler.rs"],
  [("make_diagnostic", "src/reader.rs"), ("make_diagnostic_from_token", "src/reader.rs"), ("span_from_context", "src/reader.rs"), ("read_span", "src/error.rs"), ("labels", "src/error.rs"), ("wrap_import_error", "src/compiler.rs")])

P("P27", "The command line means what its help says",
  "The idl and idl2schemata subcommands do their own work only, on the first further argument (idl: on standard input without one or with -), with every --import-dir given, in order. Unknown subcommands, unknown options and missing required arguments are reported and end with a status other than zero without doing anything. Help and version go to standard output, succeed and do nothing else.",
  "all argument lists", "Tests run a few command lines; options can come in any number and order.",
  ["src/main.rs"],
  [("main", "src/main.rs"), ("parse_idl_args", "src/main.rs"), ("parse_idl2schemata_args", "src/main.rs"), ("run_idl", "src/main.rs"), ("run_idl2schemata", "src/main.rs")])

P("P28", "Only the requested output is written, and only after success",
  "The library writes nothing, prints nothing and never ends the process. The idl command writes the compiled JSON once, to the file named or else to standard output, and idl2schemata writes each schema to its simple name plus .avsc directly inside the output directory (made if missing), whatever the names in the input are. Nothing is written or created before the whole input has compiled or when it fails to.",
  "all inputs, names, arguments and failures", "Tests compare a few output files; where a path leads and what is left behind after a failure depends on every name and every failing step.",
  ["src/main.rs", "src/compiler.rs", "src/resolve.rs"],
  [("write_output", "src/main.rs"), ("run_idl", "src/main.rs"), ("run_idl2schemata", "src/main.rs"), ("extract_impl", "src/compiler.rs")])

N("P29", "No input makes the compiler crash",
  "Whatever the bytes of the source file, the imported files and the command line, the compiler ends with output or a reported error. It never panics, overflows its stack or runs without end.",
  "all inputs", "Tests sample a few malformed files; a crash needs one specific text shape at one of many slicing sites.",
  ["src/reader.rs", "src/doc_comments.rs", "src/error.rs"],
  [("refine_errors_with_source", "src/reader.rs"), ("get_string_from_literal", "src/reader.rs"), ("extract_annotation_name", "src/reader.rs")],
  "82 indexing and slicing sites and 86 checked additions and subtractions depend on byte positions found by searches in text (results of find, rposition over bytes, counts of characters, tokens' offsets from the generated lexer) and on relations between two strings (one is a suffix of the other, an offset lies in the text it is used on). "
  "Discharging them needs relational reasoning about string contents; without it a static check either accepts every such site or alarms on correct code. Stack depth depends on the nesting of the input and on frames of the generated parser. "
  "The parts that can be decided are claimed elsewhere: failures that must be reported rather than unwrapped (P25), numeric literals outside their range and the exponent arithmetic (P31).")

P("P30", "Each import is read as the kind it declares",
  "A file imported as a protocol is read as a JSON protocol, one imported as a schema as a JSON schema, and one imported as IDL as IDL including its own imports, and never as another kind. "
  "All types found this way join the one symbol table of the compilation.",
  "all import statements and file contents",
  "Tests import one file of each kind; kind and reader must match for every statement and nesting.",
  ["src/compiler.rs", "src/reader.rs"],
  [("resolve_single_import", "src/compiler.rs"), ("collect_single_import", "src/reader.rs")])

P("P31", "Literals have the value written",
  "Every JSON value in an IDL file (in a default or an annotation) becomes the value written: objects and arrays keep all their entries and order, true, false and null are themselves, integers (sizes and precisions included) are read in the base their prefix denotes with their sign, and floating-point numbers, in decimal or hexadecimal form, have the value written. "
  "Escape sequences in strings stand for the characters they denote, surrogate pairs included, and out-of-range or malformed integers are rejected instead of wrapping around.",
  "all literals",
  "Tests sample some literals; every escape, base, sign, suffix and boundary must be read correctly.",
  ["src/reader.rs"],
  [("walk_json_value", "src/reader.rs"), ("parse_integer_literal", "src/reader.rs"), ("unescape_java", "src/reader.rs")])

P("P32", "Optional types are unions with null, ordered to fit the default",
  "A type written with a question mark is a union of null and that type, with null first unless the field has a default other than null, in which case the type comes first; each of several variables sharing the type is ordered after its own default. "
  "Unions written out are never reordered, and annotations on an optional type go to the type, not to null.",
  "all fields and parameters",
  "Tests cover single variables; the order depends on each default separately.",
  ["src/reader.rs"],
  [("fix_optional_schema", "src/reader.rs"), ("walk_nullable_type", "src/reader.rs"), ("apply_properties", "src/reader.rs")])

P("P33", "Each compilation stands alone and compiles exactly what was given",
  "A compilation depends only on the source given to it, the files it imports and the import directories of the builder, never on an earlier compilation by the same builder. "
  "Given a file or a text, all of it (up to an end-of-file mark) and nothing else is compiled, with the directory of the file, or for a text the working directory, as the base of its imports. "
  "Given a directory, every file in it at any depth with the extension avdl, and nothing else, is compiled on its own, and the schemas of all of them are returned.",
  "all sequences of calls on a builder, all inputs and all directory trees", "Tests use a new builder per input and one or two small directories; leftovers show only in particular sequences, and a file left out only in particular trees.",
  ["src/compiler.rs", "src/import.rs", "src/resolve.rs"],
  [("compile", "src/compiler.rs"), ("extract_directory", "src/compiler.rs"), ("CompileContext", "src/compiler.rs"), ("parse_and_resolve", "src/compiler.rs")])

P("P34", "Documentation keeps the text of the comment and loses only its decoration",
  "The documentation of a declaration, field or message is the text between the opening and closing marks of its comment, without the white space around it. "
  "From that text only a decoration is removed: where the first line and every further line that is not blank start with two stars (or else with one), those stars and one blank or tab after them; otherwise the indentation that all further lines that are not blank have in common. "
  "A comment without text is no documentation.",
  "all documentation comments", "Tests sample a few comments; which of many line shapes (blank lines, tabs, carriage returns, deeper or shallower lines) keep their text depends on regular expressions and a loop over all lines.",
  ["src/doc_comments.rs"],
  [("extract_doc_comment", "src/doc_comments.rs"), ("strip_indents", "src/doc_comments.rs"), ("common_prefix", "src/doc_comments.rs")])

N("P35", "Exactly the texts of the Avro IDL grammar are accepted",
  "A text is compiled if and only if it is derivable from the published Avro IDL grammar and meets its static rules, and its structure is the one the grammar gives it.",
  "all texts", "Tests sample texts; the language is infinite.",
  ["src/generated/idlparser.rs", "src/generated/idllexer.rs"],
  [("IdlParser", "src/generated/idlparser.rs"), ("IdlLexer", "src/generated/idllexer.rs")],
  "The parser and lexer are generated: their behaviour is in a serialised automaton (an array of numbers) interpreted by the adaptive prediction of the antlr4rust library. Which texts it accepts is a result of running that interpreter, not of the code analysed; "
  "the static part (every syntax error the parser reports is fatal, every construct of the tree reaches the model, the forbidden constructs are rejected) is claimed as P16, P22 and P19.")

N("P36", "The output equals that of the Java reference compiler",
  "For every valid input the JSON produced is the JSON that Apache Avro's own idl tool produces from it.",
  "all valid inputs", "Tests compare a fixed set of files.",
  ["src/model/json.rs", "src/compiler.rs"],
  [("protocol_to_json", "src/model/json.rs"), ("schema_to_json", "src/model/json.rs")],
  "The oracle is another program that is not in the repository and could only be compared by running both. The rules that both are meant to follow are claimed one by one (P08, P11, P12, P13, P20, P21, P22, P32, P34).")

N("P37", "Suggestions and explanations of errors fit the mistake",
  "When an undefined name resembles a defined one, or a syntax error is one of the recognised mistakes, the message names the intended name or the actual mistake, and no message suggests a wrong repair.",
  "all erroneous inputs", "Tests sample typical mistakes.",
  ["src/suggest.rs", "src/reader.rs", "src/compiler.rs"],
  [("levenshtein", "src/suggest.rs"), ("suggest_similar_name", "src/compiler.rs"), ("refine_errors_with_source", "src/reader.rs")],
  "What fits is a judgement about the writer's intention: the detectors are heuristics over the raw text around an error, with no specification a rule could be derived from other than their own code. Their pairing with the error's file and position is checked under P26.")
