M = {
"P01": """The walk `collect_unresolved_refs` is checked against the *type definition*: for every variant of `AvroSchema` and every nested schema found in its field types the walk must visit that child on every path; a reference is pushed exactly when the lookup fails. `validate_all_references` must feed every schema position of `Protocol`, `Message`, `IdlFile` (again enumerated from the types) to the walk, return an error whenever anything was collected, and each compile entry point must pass it before building output.""",
"P02": """`SchemaRegistry::register` must fail on every path on which the full name is present, the only insertion into the table must be under `make_full_name(name, namespace)`, nobody else mutates the table, every declaration and hoisted type reaches `register`, and its error is fatal at each call.""",
"P03": """Every path into the registry passes the name check of the name and of each dot-separated segment of the namespace; the predicate `is_valid_avro_name` is evaluated symbolically on classes of characters (letter, digit, underscore, dash, dot, empty, non-ASCII letter). Full names equal to a primitive are refused. JSON imports take the same route.""",
"P04": """`mark_imported` is decided on the canonicalised path and before anything is read; each file kind is read only behind its false answer, the root is marked, recursion happens only after marking (so the import graph is walked as a DAG).""",
"P05": """Order of candidates in `resolve_import`: directory of the importing file first, then each directory of the list in order, first existing wins, otherwise an error; every caller passes the directory of the file that contains the statement; lists of directories are built by appending only.""",
"P06": """`json_to_schema` and its helpers: dispatch on the JSON shape and on every `type` name, then for each constructor of the model every attribute's value is compared with the attribute of the JSON object it must come from (present, absent and of the wrong kind as separate assumptions); all entries of `types`, `messages`, `request`, `errors`, `fields` are gone through with `foreach`.""",
"P07": """For each kind of construct the keys consumed by its reader are collected from the calls and compared with the keys excluded from the custom properties, in both directions; the remaining entries must be kept by an unfiltered walk.""",
"P08": """The namespace passed down at every recursive call and the one stored are compared with the three-way rule (explicit, dotted, enclosing) under each assumption; records switch the namespace for their fields only.""",
"P09": """The flattening functions visit every nested schema of every variant (children from the type definitions), register a named type after its children, and leave a reference with the same name and namespace; unnamed types and all other attributes are rebuilt unchanged.""",
"P10": """Order of the merges in `process_decl_items`/`parse_and_resolve`: imported messages are inserted before own ones at each level and no other mutation of the table exists.""",
"P11": """Single pass over declaration items with import resolution and registration inside the same loop; tables are insertion ordered (type of the container is checked); nothing sorts, reverses or removes; emission iterates in table order.""",
"P12": """For each constructor of the model, `schema_to_json`, `field_to_json`, `message_to_json`, `protocol_to_json` must put each attribute (enumerated from the type definition) under its Avro key with the value of the attribute, exactly when it is present, on every path; custom properties are copied by an unfiltered walk; order tables and primitive names are evaluated case by case.""",
"P13": """The set of known names is consulted and extended under the full name at each definition; a definition is emitted only behind a negative answer; shortening is decided by equality with the enclosing namespace passed down, which is itself checked at each recursive call.""",
"P14": """The reserved lists are constants extracted from the program and compared with the keys the emitter writes for the same construct; the rejection must precede the insertion into the custom properties; logical keywords refuse their own attributes.""",
"P15": """Effect and taint analysis over all functions: iteration of hash tables and directory listings is a source, and may flow into ordered results only through a sort by a total key, a set/map, or a reduction that does not depend on order; time, environment, randomness, process ids and thread use are absent; `serde_json::Map` is the sorted map in this build.""",
"P16": """After parsing, any collected syntax error is fatal on every path before the tree is walked; the listener keeps every error; all lexer errors become warnings; JSON is parsed as a whole with only comments blanked; the text cut at U+001A is the text that is lexed; files are read as UTF-8 (no lossy conversion).""",
"P17": """For each of the four collections: every element is tested against all earlier ones with a key that is exactly the name (full name or type key for unions), the positive answer is fatal, and the set starts empty for each construct.""",
"P18": """`is_valid_default_with` as a decision table: for each schema variant and each JSON shape the result is computed from the flow graph (including range tests on numbers, quantifiers over elements and fields, and unions) and compared with the Avro table; each variable and each record field with a default reaches the check and a negative answer is fatal at its declaration; a reference is judged against the type the registry knows under its full name, at every depth.""",
"P19": """For each forbidden construct the condition under which the reader returns an error is computed and compared (both directions: must reject, must not reject the neighbouring legal case).""",
"P20": """Tables name <-> logical type <-> underlying type are read off the match arms and compared with the specification; promotion in IDL, in JSON imports and by keyword is checked for exactly the valid combinations, with parameters and remaining properties compared.""",
"P21": """Values of the namespace handed to every walk function, stored in every declaration and used for every reference, under each combination of dotted name / annotation / enclosing; save and restore around records on every path, errors included.""",
"P22": """The parse tree walk: every accessor of each grammar context that carries content is consumed (`foreach` over `_all()` accessors), every constructor of the model gets each attribute from the accessor it belongs to, helper rewrites (`apply_properties`, `with_merged_properties`, optional types) preserve the rest.""",
"P23": """The backwards scan over hidden tokens: which token kinds stop it, which are passed over and which are taken, decided per kind; consumed indices are recorded exactly when taken; the final pass reports every unconsumed documentation comment with its own position.""",
"P24": """A linear-use analysis of warning lists: every list obtained is moved into the result or the accumulated list on every path, success or failure, in order; draining empties; each builder call starts clean; every raised warning is pushed; the command prints each one.""",
"P25": """For every call in hand-written code whose result can be a failure (`Result`, `Option` of lookups that mean failure, iterators of results) the failing variant must make the caller fail on every path; the exceptions are listed with reasons in `errors.py`.""",
"P26": """Offsets and lengths are evaluated on tables of token positions; name and text of each position must be of one file (pairs are followed through the calls); the element a diagnostic is placed at must be the one its condition or message is about (same element of the same collection; first elements are kept apart from the rest); positions kept for later are those of their own construct and always kept.""",
"P27": """The option loops as automata: for each option and each position the effect on the stored values is computed, unknown ones fail, help and version return before any effect; the dispatch table of subcommands; where input, directories and outputs go.""",
"P28": """Effect analysis: the call graph of the library contains no writing, printing or exiting function; in the binary every writing effect is dominated by the success of the compilation; the path written is compared with the argument (or output directory joined with the simple name, which P03's rules keep free of separators).""",
"P30": """The match over the import kind: which reader each kind reaches, with which arguments; that all register in the compilation's one registry; the kind built for each keyword.""",
"P31": """Literal walkers per token kind: value computed for each; prefix/base/sign table of integers with checked conversions; escape table; limits of code points and surrogates evaluated at their boundary values. Floating-point numbers: each word gives its value, only the four suffix letters are dropped, both hexadecimal prefixes reach the hexadecimal reading and never the decimal one, the sign is applied on every way, every digit is read in base sixteen, each fraction digit is worth a sixteenth of the one before, and every power of two used for scaling is bounded by what can be represented (interval of the exponent term).""",
"P32": """The two orders of the optional union as a function of the default (absent, null, other) for each variable; the type is copied per variable; written unions never reach the reordering.""",
"P33": """No function of the library uses a global that can change, a thread-local, the environment or a change of the working directory (every function's IR is searched). A compilation makes one context whose fields are all empty but for the import directories (field by field), parses the text it was given unshortened, and returns the file and symbol table of that run; nothing else of the builder reaches it. For every public entry point, exactly one compilation happens on every way that succeeds, of the whole file or text given, with the right base. Directories: every entry of the recursive listing is compiled unless its extension is not avdl or it is a directory (whole-path search, filters included), none with another extension is, the listing is unrestricted, and each compiled file's schemas all reach the result (list contents on every way out). The listing itself is taken from walkdir as documented.""",
"P34": """The regular expressions the program tests and replaces with are taken from the initialisers of its statics and compared, as languages, with the ones of the property: both are turned into automata over classes of characters and searched in product for a text on which they differ (tests: the same texts are decorated; replacements: the same stretch is removed at the same place), so another spelling of the same expression passes. Around them the IR decides: the text given to the stripping is the token text less both marks and trimmed, on every way; a text that is not empty always becomes documentation and an empty one never; two stars are tried before one; when a test holds, all matches are replaced, by their line break only, and nothing else is done; without decoration the text is returned as it is. For the indentation: every line after the first is looked at, none is skipped unless blank (whole-path search), blank lines neither count nor end the search, each line narrows by what two lines have in common, which ends at the first difference, two lines are enough, and what is found is removed after every line break. Forms of the narrowing it does not recognise (folds, hand-written loops over characters) are left undecided.""",
}
