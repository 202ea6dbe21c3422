prop("C01", "Reproducible output",
 "For the same headers, configuration and options, two runs with -nostamp write byte-identical files. Nothing written depends on map iteration order, goroutine scheduling, the clock, process identity, random seeding or memory addresses; without -nostamp the only difference is the time in the file headers.",
 ["inputs", "configurations", "schedules"],
 "every set of headers, every configuration, every iteration order of every map, every schedule of the helper goroutine",
 "Tests run once on a handful of headers; Go randomises map order per run and the scheduler is not under test control, so an order dependence is seen only by luck.",
 ["process.go", "parser/parser.go", "translator/translator.go", "translator/helpers.go", "generator/generator.go", "generator/gen_files.go", "generator/gen_common.go"],
 [("sorted declaration lists", "translator/translator.go Learn; generator/generator.go WriteConst, sortedTagDefs"), ("fixed random seed", "generator/generator.go New"), ("timestamp switch", "generator/gen_files.go genLabel"), ("single consumer of helpers", "generator/generator.go MonitorAndWriteHelpers")],
 "interprocedural dataflow over SSA: map-iteration commutativity (mod/ref effects), sorted-before-use, comparator totality, taint of clock/random/address sources",
 "Decides every source of run-to-run difference in the module's own code; assumes the cc front end, goimports and the yaml decoder are deterministic and the listed library models are right.")

prop("C02", "No failure is swallowed",
 "Whenever reading the configuration, locating or parsing a header, compiling a rule or tip pattern, or creating, writing or closing an output file fails, the failure reaches the command, which reports it and exits with a failure status; it never finishes as if it had succeeded. The only failures tolerated are a pkg-config lookup, the query of the host preprocessor and source formatting, and each of those is logged as a warning.",
 ["inputs", "configurations", "fault_sequences"],
 "every failing call, on every control-flow path that follows it",
 "No test injects I/O or configuration failures; the tests that exist only walk successful paths.",
 ["main.go", "process.go", "parser/parser.go", "translator/translator.go", "translator/rules.go"],
 [("error returns", "process.go NewProcess, Flush, flushBufferToFile"), ("missing sources", "parser/parser.go checkConfig, findFile"), ("fatal exit", "main.go main")],
 "path-sensitive error-flow analysis over SSA from every error-producing call to the function's exits",
 "Every error-producing call of the module is followed on all paths; assumes in-memory writers do not fail and log.Fatal exits with status 1.")

prop("C03", "Accept and ignore rules decide by precedence",
 "A name is accepted for a target exactly when: no ignore rule of that target matches it and an accept rule of that target does; or no rule of that target matches it, the target is not the global one, no global ignore rule matches it and a global accept rule does. In every other case it is rejected. The order in which rules are written plays no part.",
 ["inputs", "configurations"],
 "every name, every target, every list of accept and ignore rules of any length, with any patterns",
 "Tests use a couple of rules on a couple of names; the precedence has to hold for every combination of matching and non-matching rules in lists of any length.",
 ["translator/translator.go", "translator/rules.go"],
 [("decision", "translator/translator.go IsAcceptableName"), ("compiled rules", "translator/translator.go compileRxs, getRuleActionRxs")],
 "abstract interpretation over lists of unknown length with quantified facts (some element matches / none does), path table compared with the stated precedence",
 "Every path of IsAcceptableName is decided for rule lists of any length; assumes regexp matching is a pure function of pattern and name.")

prop("C04", "Only accepted declarations are generated, and all of them",
 "Nothing is generated for a declaration the configuration rejects or whose header is listed as ignored, and every accepted one is generated. A typedef needs its name accepted as a type; a struct or union known by its tag needs the tag accepted both as public and as a type; a struct, union or incomplete enum variable and a constant of plain type (not static) need a name accepted as public; a function needs its name accepted as a function; the enumerators of a complete enum appear when the tag (or the typedef's or variable's name, if any) is accepted as a type, each one only if accepted as a constant; a macro needs its name accepted as a constant and must not be function-like. An accepted one is left out only as a repeat of one already generated.",
 ["inputs", "configurations"],
 "every declaration, tag, enumerator and macro of every header, under every combination of rules",
 "Tests generate for one or two headers with one rule set; whether a declaration is gated depends on its kind, completeness, storage class, tag and on which names were met before it.",
 ["generator/generator.go", "generator/gen_const.go", "translator/translator.go", "translator/ast_walker.go"],
 [("typedefs and tags", "generator/generator.go WriteTypedefs"), ("declarations", "generator/generator.go WriteDeclares"), ("constants", "generator/generator.go WriteConst; generator/gen_const.go expandEnum, expandEnumAnonymous, writeDefinesGroup"), ("ignored headers", "translator/ast_walker.go walkExternalDeclaration, walkDeclaration"), ("macros", "translator/translator.go collectDefines")],
 "abstract interpretation of each generator loop for an arbitrary element: per-path facts about the element against a gate table; set typestate for repeats",
 "Every iteration path of every generating loop is decided. Whether the writer of an accepted declaration then produces correct text is the subject of other properties.")

prop("C18", "Every constant is emitted with its own value",
 "Every enumerator of a translated enum is recorded exactly once, in order, under its own name, with the value the C front end computed for it, or, as the configuration asks, with its name in C or its own expression. Every recorded constant, macro, enumerator or constant declaration alike, is then written on one line giving its own Go name and its own value; the short form iota stands only for a value of 0 on the first line of a const block, and no line leaves the value out so that the line before it is repeated. A constant is left out only if its name is not accepted, is empty or was written before, or if there is no value but the name itself. The constants of an enum with a type name get that type, which is declared above them over the enum's integer type, unsigned exactly if the tip says so.",
 ["inputs", "configurations"],
 "every enum and macro, every order and number of enumerators, every rule set and constant rule",
 "A wrong value shows only for enumerators at certain places with certain values (negative, repeated, after one that was filtered out) and compiles.",
 ["generator/gen_const.go", "translator/ast_walker.go"],
 [("recorded", "translator/ast_walker.go enumSpec"), ("enums", "generator/gen_const.go expandEnum, expandEnumAnonymous, iotaOnZero"), ("macros and declarations", "generator/gen_const.go writeDefinesGroup, writeConstDeclaration")],
 "abstract interpretation over SSA; each way one iteration can go is a row of facts, text written and records made, whose line is taken apart into name, type and value terms and compared with the fields of the same constant",
 "The value computed by the C front end and its fit into the Go type are assumed.")
prop("C24", "Expressions of macros and enumerators are translated token by token",
 "Every object-like macro with an accepted name that is not boolean is recorded exactly once under its own name, with its evaluated value, or, if expansion is configured or there is no value, with its expression. An expression is the sequence of the macro's or enumerator's tokens: each appears exactly once and in order, as it is, in Go's spelling (^ for ~, numeric literals without C's suffixes but converted to the type of the suffix, and otherwise unchanged in value), or as the Go name of the constant or type it names; an identifier that names neither makes the macro fall back to its evaluated value. Parentheses are added only around the operand of a type cast, opened and closed once.",
 ["inputs", "configurations"],
 "every token sequence, every numeric literal of C (decimal, octal, hexadecimal, binary, floating, any suffix), every set of accepted names",
 "The token loops are automata whose errors need particular literals (0X1F, 1E5, 0x1p4) or nestings; the tests hold no such macro, and most errors still compile.",
 ["translator/translator.go", "translator/ast_walker.go", "translator/helpers.go"],
 [("literals", "translator/helpers.go readNumeric"), ("macros", "translator/translator.go collectDefines"), ("enumerators", "translator/ast_walker.go enumSpec")],
 "abstract interpretation over SSA; the loops become transducers (per iteration: facts about the character or token, what is appended, which flags change), compared with the automaton C's grammar of literals and the translation rules require",
 "That C and Go give the same operators different precedence is not judged, nor character and string literals, nor whether Go's constant fits the type.")
prop("C15", "A struct's Go type and methods carry the same members",
 "Whatever members a C struct or union has and whatever tips apply, its Go struct has a field for each member whose type is generated, in the order of the C declaration, named by the type rules as public, and of the type that the member's pointer, type and memory tip choose (the memory tip is that of the struct's entry for the member, or else that of the member's own type, and raw memory means single references); PassRef fills exactly the members of those that have a name from the fields of that name, and Deref, and the accessors of a raw struct, read exactly the same ones back, with the same tips and types; a bit-field, which cgo gives no access to, has no name. The struct has the reference and the allocation map, under the same names in every method, unless it is raw; the methods are Ref, Free, New...Ref, PassRef, PassValue and Deref, or Ref, Free, New...Ref, New... and PassRef for a raw one, with accessors if and only if they are asked for; PassRef allocates once, remembers what it allocated and what its members borrowed, and keeps both; Free lets go of them. The length of a member is looked up under the typedef of its struct and its own name.",
 ["inputs", "configurations"],
 "every struct of any members, of every kind and name, under every combination of tips",
 "The field and its two conversions are written by three functions that have to agree for every member; a disagreement shows only for the kind of member or tip it is about, and at the earliest when the generated package is compiled and run with such a struct, which the tests do not do.",
 ["generator/gen_struct_helpers.go", "generator/gen_common.go", "generator/gen_typedef.go", "translator/ast_walker.go"],
 [("fields", "generator/gen_common.go writeStructMembers"), ("methods", "generator/gen_struct_helpers.go getStructHelpers, getRawStructHelpers, getPassRefSource, getPassValueSource, getDerefSource, getLenField, getRefCRC"), ("form", "generator/gen_typedef.go writeStructTypedef"), ("names of members", "translator/ast_walker.go memberName")],
 "abstract interpretation of the writers over SSA: for one member of any kind, name and tips, what an iteration adds to the text or list is spelled in terms of the member and decided against what the member calls for under the path's facts; the texts around the members and the set of methods compared whole",
 "The conversions inside the statements are C21's, how a type is translated under given tips C06, C07 and C14, how tips are looked up C22. Anonymous structs inside others are written by the same writer of fields; that Go names of members do not collide is not decided.")

prop("C16", "A wrapper's signature and body agree",
 "The wrapper of a function takes each of the C function's parameters exactly once, under its Go name, either in its parameter list, in order, or, for the one the configuration makes the receiver, as the receiver; the type it gives a parameter is the type its body converts, whatever combination of tips for the position, for the function and for the type itself applies. The body converts every argument from its Go type to the C type of the same parameter, under the memory tip of the parameter or else of its type, into a variable that clashes with no parameter and no other variable, calls the C function of the same name once with all the arguments in the C order, writes back those arguments whose Go value is a copy, keeps every allocation and every safe string alive until after the call, and converts and returns the result exactly if there is one, as the type the wrapper declares.",
 ["inputs", "configurations"],
 "every function, with any number and any types of parameters, every combination of pointer, type and memory tips, with and without safe strings and validation",
 "Signature and body are written by different functions that ask for the same tips separately; a difference shows only for certain combinations of tips and positions, and only when the generated package is compiled, which no test does.",
 ["generator/gen_bindings.go", "generator/gen_declares.go", "generator/gen_common.go", "generator/generator.go"],
 [("signature", "generator/gen_common.go writeFunctionParams, writeInstanceObjectParam, writeFunctionParam"), ("body", "generator/gen_bindings.go createProxies, writeFunctionBody"), ("declaration", "generator/gen_declares.go writeFunctionDeclaration; generator/generator.go WriteDeclares")],
 "abstract interpretation over SSA into the documents written, per iteration and per path, with tips as uninterpreted values; signature and body are compared under every combination of tips (relational abstraction over finite tip domains)",
 "What the translation makes of a type and its tips is C07's subject, which conversions proxyArgFromGo and its counterparts choose is C23's.")
prop("C17", "Callbacks agree from C to Go",
 "A callback type has a C function declared in the header exactly as it is defined in the C file, which passes all its arguments in order to one exported Go function of its own, and returns what that returns exactly if the callback has a result. The exported function takes the C form of every parameter, converts each of them once, in order, to the type the signature of the callback type gives it, whatever combination of tips applies, and calls the function registered by the callback type's methods, converting and returning its result likewise. The methods register their receiver where the exported function looks for it and return the address of that very C function; a callback type that is a pointer in C has both of them. No variable of the exported function can clash with another.",
 ["inputs", "configurations"],
 "every callback type, with any number and any types of parameters and with or without a result, every combination of tips",
 "Four texts in three files, written by different functions, have to fit together; a difference compiles in some of them, or shows only for certain tips, names or results, and no test compiles or calls a callback.",
 ["generator/gen_callbacks.go", "generator/gen_typedef.go", "generator/gen_common.go"],
 [("C and Go proxies", "generator/gen_callbacks.go getCallbackHelpers, writeCallbackProxyFunc, writeCallbackProxyFuncParams"), ("conversions", "generator/gen_callbacks.go createCallbackProxies, proxyCallbackArgToGo"), ("the type", "generator/gen_typedef.go writeFunctionTypedef; generator/gen_common.go writeFunctionParams")],
 "abstract interpretation over SSA into the texts of the helpers, with lists classified by what each iteration adds; the texts are matched against each other, and the tips under which types are translated compared for every combination (relational abstraction over finite tip domains)",
 "When the callback is called, from which thread, and whether it has been registered by then is not judged.")
prop("C19", "Every file begins as the configuration says",
 "Every generated Go file has exactly one package clause, naming the package by the last element of its configured name, preceded only by comments: the configured license when there is one and one line tools recognise as marking generated code (// Code generated ... DO NOT EDIT.), with the time of generation exactly if timestamps are not disabled; the documentation file also has the configured description directly before the clause, and is reported worth keeping exactly if there is a license or a description. The cgo preamble is one comment directly followed by import \"C\" and holds, for every configuration, the pkg-config options, one #cgo line for each flag group that has a name and flags (with its traits if any), one #include for each system include and then each include, in order, stdlib.h, and the header of the C helpers under the name that header is written to. That header repeats the includes and guards against being included twice; the C source of the helpers includes cgo's export header and that header.",
 ["configurations"],
 "every configuration of license, description, name, options, flag groups and includes, with and without timestamps",
 "Tests use one configuration; a lost flag group, a wrong order or a blank line before import shows only when a package is built with cgo.",
 ["generator/gen_files.go", "generator/generator.go", "process.go"],
 [("heads of the Go files", "generator/gen_files.go WriteDoc, WritePackageHeader, writeGoHelpersHeader"), ("preamble", "generator/gen_files.go WriteIncludes, writeFlagGroup, writePkgConfig"), ("C files", "generator/gen_files.go writeCHHelpersHeader, writeCCHelpersHeader")],
 "abstract interpretation over SSA into the text written, as lines of constants, holes and repetitions with the facts each is written under; oracle: the document each path's facts require",
 "Values of settings are opaque: a setting that itself breaks the comment it is written into is not looked for.")
prop("C20", "Every part of the package reaches a file of its own",
 "Generating a package generates each of its parts exactly once, documentation, constants and types always, unions and declarations exactly when cgo is in use; each buffer starts with one package header, followed by one cgo preamble when cgo is in use, before the first part; a buffer is dropped exactly when its part reported that it wrote nothing, and a part that writes something for a declaration reports it. Unless an error is returned, flushing writes every buffer with something in it, whole or formatted, to a file with the right suffix in the package's directory under the output path, and no two buffers to the same file, whatever the package is called; with -nocgo the package's own file and the C helper files are not required.",
 ["inputs", "configurations"],
 "every mix of empty and non-empty parts, every package name, with and without cgo, with and without formatting errors",
 "Nothing is missing from a run that succeeded; only one mix of parts is tried by tests, and none reads the files back.",
 ["process.go", "generator/generator.go", "generator/gen_const.go", "generator/gen_typedef.go", "generator/gen_files.go"],
 [("generated and dropped", "process.go Generate"), ("counted", "generator/generator.go WriteConst, WriteTypedefs; generator/gen_const.go writeDefinesGroup"), ("written", "process.go Flush, mainFileName, flushBufferToFile")],
 "abstract interpretation over SSA of generation and flushing on every path, with generator calls, file creation and writes as events; file names compared as terms under the path's facts",
 "imports.Process and the file system are trusted; what a part writes is judged by the other properties.")
prop("C22", "Tips resolve by precedence",
 "The tip that applies to a name in a scope is the first entry of that scope's list, in configuration order, whose pattern matches the name; failing that, the first matching entry of the 'any' scope; failing that, there is none. Struct entries also count in the type scope; entries without a pattern are skipped. Memory tips are one list. The i-th tip of an entry applies to the i-th parameter or member if it is one of the known tips, otherwise the entry's default does; the entry's own (self) tip likewise. Where a declaration has a tag, an entry matching the tag wins over one matching the name, separately for pointer, type and memory tips. Asking again gives the same answer.",
 ["inputs", "configurations", "histories"],
 "every list of entries in every scope, of any length, with any patterns, and every sequence of lookups",
 "Tests use a handful of entries, never several that match the same name in different scopes, and never ask in an order that would expose a wrong memory of an earlier answer.",
 ["translator/translator.go", "translator/rules.go", "translator/helpers.go"],
 [("lookup", "translator/translator.go PtrTipRx, TypeTipRx, MemTipRx"), ("tag before name", "translator/translator.go TipRxsForSpec"), ("use of an entry", "translator/translator.go TipAt, Self, HasTip; translator/rules.go IsValid, Kind"), ("compilation", "translator/translator.go getPtrTipRxs, getTypeTipRxs, getMemTipRxs")],
 "abstract interpretation over lists of unknown length with quantified facts; decision tables per path",
 "Decides every path of the lookup, use and construction of tips; assumes regexp matching is a pure function. That remembered answers are kept under the key they were asked for is C12's subject.")

prop("C23", "Rules and settings are compiled as written",
 "Every rule whose action (its own, or that of the ready-made rule it loads) is the wanted one is kept, in the order written, under its own target, and no other is. Its pattern, replacement and, for replacements, transform are its own where given and otherwise those of the ready-made rule it loads (snakecase, doc.file, doc.google); a missing pattern matches anything; a rule without any action replaces its match by itself, applying only its transform. Loading an unknown ready-made rule or an invalid pattern is an error. Rules of all four actions are compiled; tips, typemap, constant rules, length fields, ignored headers and the string settings (char is a string unless turned off, unsigned char is not unless turned on, lookups under a string tip use the defaults whatever these settings say) each reach the part of the translator they are meant for.",
 ["configurations"],
 "every rule with any combination of given and missing fields, in lists of any length for any target, and every combination of settings",
 "Tests use a handful of complete rules; the combinations of missing fields, ready-made rules and actions are many and most appear in no test.",
 ["translator/translator.go", "translator/rules.go"],
 [("rule compilation", "translator/translator.go getRuleActionRxs; translator/rules.go LoadSpec, builtinRules"), ("settings", "translator/translator.go New")],
 "abstract interpretation of one iteration for an arbitrary rule: compiled rule compared, path by path, with the one computed from the facts of the path; points-to of the translator's fields",
 "Decides every path of the compilation and of New; what a compiled pattern matches is the regexp library's.")

prop("C05", "Names are transformed by the rules in order and are never Go keywords",
 "The Go name of a C name is the C name with the replacement rules applied: those of the global target, then the target's own, then those of the post-global target, then those of the requested visibility, each list in the order written; the empty name stays empty, and the special targets (global, post-global, private, public) apply only their own list. A rule replaces every match found in the name as it was when the rule started, each by the rule's template expanded from that match, then upper-cased, lower-cased, title-cased, or with its first letter upper-cased (export) or lower-cased (unexport) as the rule says; text outside the matches is untouched. A result that is a Go keyword is rewritten (type becomes kind, any other gets an underscore in front) and nothing else is. The answer for a target, visibility and name is the same however often and after whatever other names it is asked. A C-side parameter name that is a Go keyword gets an underscore in front, no other changes.",
 ["inputs", "configurations", "histories"],
 "every name, target and visibility, every list of rules of any length with any patterns, and every sequence of lookups",
 "Tests use a few rules on a few names. The order of the lists, the handling of several matches of different lengths in one name, and the memory of earlier answers show only in particular combinations.",
 ["translator/translator.go", "translator/helpers.go", "generator/gen_bindings.go"],
 [("transformation", "translator/translator.go TransformName"), ("replacement of a match", "translator/helpers.go replaceBytes"), ("keyword rewriting", "translator/translator.go rewriteName; generator blessName")],
 "abstract interpretation of one rule and one match for lists of any length; provenance of the spliced text; keyword table against go/token",
 "Decides every path of the name transformation; what a pattern matches and how a template expands is the regexp library's.")

prop("C06", "C arithmetic types become Go types of the same size and signedness",
 "Wherever a C arithmetic type appears, the Go type is: bool for _Bool; byte for char and unsigned char, int8 for signed char; int16/uint16 for short/unsigned short; int32/uint32 for int/unsigned int; int32/uint32 or int64/uint64 for long/unsigned long, by whether long has 8 bytes in the target's ABI; int64/uint64 for long long/unsigned long long; float32 and float64 for float and double; complex64 and complex128 for their complex forms. This holds for every constness, array dimension, pointer depth and tip, except that a type the user's type map names becomes what that map says, and pointers to char or unsigned char may become strings. By itself, without a tip, a pointer to constant characters is a string exactly if the setting for that kind of character (ConstCharIsString, ConstUCharIsString) says so, each independent of the other. The C side of such a type is written by the name cgo has for it. Long double, 128-bit, decimal and the extended floating types (_Float32, _Float64, _Float32x and the like) are not covered.",
 ["inputs", "configurations"],
 "every arithmetic kind, constness, array dimension, pointer depth, tip, user type map and size of long",
 "Tests translate a few declarations for one target; the table of kinds times qualifiers times targets is never gone through, and a wrong entry shows only at run time as corrupted memory.",
 ["translator/ast_walker.go", "translator/type_mapping.go", "translator/translator.go", "translator/model_type.go", "translator/model_go_type.go", "process.go"],
 [("recording", "translator/ast_walker.go typeSpec"), ("translation", "translator/type_mapping.go getCTypeMap; translator/translator.go TranslateSpec, lookupSpec"), ("size of long", "process.go NewProcess")],
 "abstract interpretation with constant propagation: the specification each front-end type kind is recorded as, then its translation over the built-in type map the code builds, compared with the C to Go table",
 "Decides all 16 arithmetic kinds for both sizes of long with everything else unknown; depths beyond two are covered by the general step of the search.")

prop("C26", "Options and configuration reach the stage they configure",
 "Each argument is processed exactly once, in order: a file is the configuration itself, a directory stands for the c-for-go.yaml, c-for-go.yml, <name>.yaml or <name>.yml in it. Every documented key of the file sets the field of its name. -out is the output directory and -nocgo governs generating as well as writing. The parser gets its section with -ccdefs and -ccincl and, after the configured include paths, those pkg-config reports and the configuration's directory; the translator gets its section and the ignored paths; the generator gets its section, the last element of PackageName as package name, the translator that learned the parsed unit, the -maxmem limit, and no timestamps exactly with -nostamp; nothing else of the configuration is overwritten. A define becomes one #define of its value (string, integer, float or empty map). The front end is set up for the configured architecture and include paths, with the hosted compiler's include paths exactly with -ccincl and its definitions exactly with -ccdefs, and reads every source file in the order given, a relative path being looked for as written and then in the include paths in order.",
 ["inputs", "configurations"],
 "every command line, every configuration, any number of arguments, defines, include paths and source files",
 "Tests run no command line and set few keys; a setting that is dropped or reaches the wrong stage shows only for configurations that use it.",
 ["main.go", "process.go", "parser/parser.go", "translator/translator.go", "generator/generator.go", "generator/gen_common.go"],
 [("arguments", "main.go main, getConfigPaths, configFromDir"), ("stages", "process.go NewProcess"), ("front end", "parser/parser.go ParseWith, checkConfig, findFile"), ("keys", "process.go ProcessConfig and the Config types it holds")],
 "abstract interpretation of main, NewProcess and ParseWith: provenance of every argument handed to a stage, per path; key table against the struct tags of the decoded type",
 "Decides every path from the command line to the stages; what the yaml decoder and the front end do with correct settings is theirs.")

prop("C07", "Levels of indirection are accounted for exactly",
 "A struct, union, function or enum type is written with as many levels of indirection (slices plus pointers, and pointers of the C type) as its C declarator has, less those that the declaration of its tag already has when that has no more of them; a named void pointer that is no argument counts one more for cgo. Of n levels the pointer tip ref makes one pointer under n-1 slices, sref and inst make n pointers, anything else n slices; the last pointer tip given decides, except that elements of an array always stay pointers. No level count used anywhere is ever the wrapped result of taking off more levels than there are.",
 ["inputs", "configurations"],
 "every type of any depth, with any tag declared with any depth, any array dimensions and any tips",
 "Tests translate types of one or two levels whose tags are declared without pointers; the counters are bytes, and a subtraction below zero turns into 255 levels only for particular pairs of declarations.",
 ["translator/translator.go", "translator/model_go_type.go", "translator/model_type.go", "translator/model_struct_union.go", "translator/model_enum.go", "generator/gen_bindings.go"],
 [("accounting", "translator/translator.go TranslateSpec, CGoSpec, NormalizeSpecPointers"), ("split by tip", "translator/model_go_type.go splitPointers"), ("level arithmetic", "translator/model_go_type.go PointersAtLevel, AtLevel, SpecAtLevel; generator/gen_bindings.go packPlain, unpackPlain, unpackObj, unpackArray, unpackSlice")],
 "abstract interpretation with intervals and linear expressions: every unsigned difference is shown non-negative where it is used, in the contexts of its callers; level counts per path compared with the stated sum",
 "Decides every unsigned subtraction and sign-changing conversion of the module; the levels of arithmetic and named plain types are C06's, the order of array dimensions is not covered.")

prop("C14", "Types are described as C declares them",
 "Every C type reachable from a declaration is described by what it was declared with: a structure has exactly one member per field and a function exactly one parameter per parameter that is not void, in order, each with the name, type and constness of its own declarator; structures, unions and enumerations have their own tag, members and typedef, functions their own name and a result called by the typedef it was declared with. The description answers for its own parts: the cgo name is the typedef's name or else the keyword and the tag (for arithmetic types, cgo's word for that sign and size), kind, completeness, tag and base follow from its members, tag and typedef, a setter changes the one field it is about, and a copy is a new description equal in every field. Its C text, written into prototypes, has the sign, size, keyword with tag or members, arrays and exactly one asterisk per pointer; its Go text the slices, arrays, asterisks, base and size it was given.",
 ["inputs"],
 "every C type: any nesting of structures, unions, enumerations and functions, with any members, pointers, arrays, typedefs and qualifiers",
 "Tests describe about fifteen declarations and never print unions, complex types, opaque enumerations or nested functions; a wrong keyword, tag or size word shows only when cgo compiles a header that has one.",
 ["translator/model_type.go", "translator/model_struct_union.go", "translator/model_enum.go", "translator/model_function.go", "translator/model_declaration.go", "translator/model_go_type.go", "translator/ast_walker.go"],
 [("descriptions", "translator/ast_walker.go typeSpec, structSpec, enumSpec, functionSpec, declarator"), ("names", "translator/ast_walker.go memberName, paramName, typedefNameOf, identifierOf, getStructTag"), ("texts and answers", "translator/model_*.go String, CGoName, GetBase, GetTag, Kind, Copy, Set..., Add...")],
 "abstract interpretation over SSA of every method of the type models: on each path the value returned, or the field stored, is compared with what the stated definition requires under that path's facts about the fields (open fields taken both ways); loop summaries show one member per element",
 "That the front end (modernc.org/cc) reports fields, tags and types rightly is assumed; the depth limit beyond which members are left out is taken from the code.")
prop("C21", "A value crosses between Go and C by the conversion of its kind",
 "Every piece of code the generator writes to turn a Go value into a C value, or back - for parameters and results of wrappers and callbacks and for members of structures - is chosen by what the type is: strings, byte slices, flat slices, arrays, plain values, pointers to plain values, structures by value and by reference, functions and nested slices and arrays of any of them each have one conversion. It reads the value it is for, fills the variable and the pointer it is handed, is cast to the C (or Go) type of that position with that position's pointers, slice length and capacity come from the member or parameter of the length, and whether nil is reported as allowed is what the conversion supports. A helper for several levels opens one level per dimension and per slice, each under its own number, with the sizes, names, allocations and loops of that level, and closes it by storing it in the level above.",
 ["inputs", "configurations"],
 "every Go type, C type and memory tip that can meet at a parameter, result, callback or member, with any number of levels",
 "Which of the two dozen conversions is written depends on slices, arrays, pointers, kind, base and memory tip together; tests cover none of them, and a level, size or cast that is off by one corrupts memory in the user's program, not in this one.",
 ["generator/gen_bindings.go", "generator/gen_callbacks.go", "translator/model_go_type.go"],
 [("conversions", "generator/gen_bindings.go proxyValueFromGo, proxyArgFromGo, proxyArgToGo, proxyRetToGo, proxyValueToGo; gen_callbacks.go proxyCallbackArgToGo"), ("levels", "generator/gen_bindings.go unpackArray, unpackSlice, unpackObj, packArray, packSlice, packObj, unpackPlainSlice, packPlainSlice"), ("helpers of several levels", "generator/gen_bindings.go getUnpackHelper, getPackHelper"), ("kinds of types", "translator/model_go_type.go IsPlain, IsPlainKind, IsGoString")],
 "abstract interpretation over SSA of every conversion writer: on each path the text written (constants with holes for names, types and numbers) is compared with the conversion the stated table requires under that path's facts about the type, open facts taken both ways; loop summaries give the numbering of the levels; a function that makes its result is known not to hand back nil",
 "The table of conversions is the definition used, taken from the behaviour of the base where it is right; that the written code converts at run time what the table says (memory layout, cgo's checks) is outside what the text shows. Level code that the base can never compile (a plain value below an array in unpackPlain, packSlice below an array) is only held to the table.")
prop("C10", "What is written is well-formed",
 "Whatever the declarations and the configuration, each piece of Go the generator writes - a declaration, a statement, a parameter list, a struct's members, a helper, a package clause - is a sentence of the part of the Go grammar it is placed in: brackets, braces and strings match, lists are separated, blocks opened for the levels of a pointer or array are closed again, no code ends up in a comment and no comment's text outside one. The comments that mean something stand where they mean it: the preamble directly before import \"C\", //export directly before the exported function, the description (and nothing else, like the license) before the package clause. The C files' brackets, strings, comments and directives match likewise. The name of every helper is an identifier.",
 ["inputs", "configurations"],
 "every path of every writer, with any number of parameters, members, levels and every combination of tips and settings",
 "One malformed declaration keeps the whole file from being formatted or compiled; which texts go together depends on combinations of kind, tips, levels and settings that tests do not enumerate, and no test compiles what is generated.",
 ["generator/gen_declares.go", "generator/gen_typedef.go", "generator/gen_common.go", "generator/gen_bindings.go", "generator/gen_callbacks.go", "generator/gen_const.go", "generator/gen_struct_helpers.go", "generator/gen_files.go", "generator/generator.go"],
 [("declarations", "generator/gen_declares.go, gen_typedef.go, gen_const.go, gen_common.go"), ("bodies and helpers", "generator/gen_bindings.go, gen_callbacks.go, gen_struct_helpers.go"), ("heads of files", "generator/gen_files.go")],
 "abstract interpretation over SSA into the texts written on each path; oracle: the Go grammar (go/parser on the path texts with holes filled by text of the right kind), bracket and comment structure for C",
 "Texts the configuration gives verbatim are taken to be of the right kind; types, unused variables and undefined names are not judged; repetitions are unrolled up to three elements.")
prop("C11", "Locked state is used under its lock",
 "The translator's remembered answers (names, tips, types) and the allocation map written into every generated package can be used from several goroutines: on every path, what is kept next to a lock is read only while that object's lock is held and changed only while it is held for writing; a lock taken is released exactly once before the function returns, the way it was taken; it is never taken again while held; nothing is replaced on the strength of a look taken before the lock; and an object with a lock is never copied.",
 ["schedules", "inputs"],
 "every path through every function that uses a lock or what it guards, and so every interleaving of their callers",
 "The tests use one goroutine; a missing or wrong lock operation shows only under the right interleaving, or only on a path (a hit, an empty map) no test takes.",
 ["translator/helpers.go", "translator/translator.go", "generator/gen_bindings.go"],
 [("caches", "translator/helpers.go TypeCache, NameTransformCache, TipCache"), ("generated allocation map", "generator/gen_bindings.go cgoAllocMap")],
 "lock typestate: path-sensitive dataflow over SSA of which locks are held, interprocedural through helpers, closures and deferred calls; the generated text is type-checked and analysed the same way",
 "Decides lock discipline for every use; two names for one object within a function are not related, and the order of two locks of the same kind (Borrow) is not judged.")

prop("C12", "Remembered answers change no answer",
 "The translator remembers the answers it gives (transformed names, tips, types in work) only to save work: an answer is remembered under every part of the question it depends on and is looked up under the same; a remembered answer is reported exactly when one was stored, and is the one stored; nothing the answer was made from is changed once the translator exists; and no answer handed out is modified by the one who asked. Asking the same again, in any order and however often, so gives the same as asking for the first time.",
 ["inputs", "histories"],
 "every question, every order and number of repetitions of questions, every configuration",
 "A wrong key or a modified answer shows only when two particular questions are asked in a particular order with a particular configuration; the tests ask each once.",
 ["translator/helpers.go", "translator/translator.go", "translator/rules.go"],
 [("what is remembered", "translator/helpers.go TypeCache, NameTransformCache, TipCache"), ("questions", "translator/translator.go TransformName, TipRxsForSpec, PtrTipRx, TypeTipRx, MemTipRx, translateType")],
 "abstract interpretation of every cache method (provenance of keys and answers per path); dependency analysis of each remembered function's result against its key; alias flow of handed-out answers to every write",
 "Decides the key, the answer and its integrity for every path; assumes the regular expression engine is deterministic.")

prop("C13", "Generating leaves what was learned as it is",
 "The declarations the translator has learned and the configuration are read, never changed, while text is generated: no function that can run as part of generating writes to them or to anything reached from them, in place or by appending to a slice they hold; a specification that has to be adjusted for one use is copied first. What is written for one declaration so does not depend on which others were written before, and the functions, structs, unions, enums and callbacks all see the same declaration.",
 ["inputs", "configurations", "histories"],
 "every set of declarations and every configuration, in whatever order they are generated",
 "Specifications are shared by reference between all their uses; the effect of a write shows only in the declarations that are generated later and use the same one.",
 ["generator/generator.go", "generator/gen_declares.go", "generator/gen_typedef.go", "generator/gen_bindings.go", "generator/gen_struct_helpers.go", "generator/gen_callbacks.go", "translator/translator.go", "translator/model_function.go"],
 [("generating", "generator/generator.go Generate* and everything they call"), ("copies made for one use", "translator/model_*.go Copy, generator/gen_typedef.go writeFunctionTypedef")],
 "field-sensitive alias flow over SSA from the learned state and configuration to every store, map update, append, copy and writing library call reachable from the generator's entry points",
 "Decides every write in the module's own code reachable while generating; caches that look after their own writes belong to C11 and C12.")

prop("C25", "One package leaves nothing behind for the next",
 "Several configurations can be processed by one run. Nothing kept in a package-level variable, and nothing reached from one (tables of types, names, reserved words, defaults, compiled expressions), is written after the program is initialised, in place or by appending to a slice it holds: whoever needs to add to a table copies it first. What is generated for a package so does not depend on which were generated before it.",
 ["inputs", "configurations", "histories"],
 "every sequence of configurations processed by one run",
 "The effect shows only in a later package of the same run, whose configuration meets what an earlier one left; tests process single configurations.",
 ["main.go", "process.go", "parser/parser.go", "translator/translator.go", "translator/type_mapping.go", "generator/generator.go", "generator/gen_common.go"],
 [("package-level tables", "translator/type_mapping.go, translator/helpers.go builtinNames, generator/gen_common.go, process.go goBufferNames")],
 "alias flow over SSA from every package-level variable to every store, map update, append, copy and writing library call outside initialisation",
 "Decides every write in the module's own code; state the libraries keep (cc's caches, regexp) is theirs.")

prop("C08", "What generated code calls on is generated with it",
 "Code that the generator writes - a conversion, a method of a structure or callback, a helper - refers to helpers: the allocation map, the slice and string headers, the size constants, safeString and RawString, and helpers made for one type. Whatever the declarations are and whatever else the package has, every helper that is referred to is submitted with it or required by the helper whose source refers to it, with everything that those require in turn; and every helper that is made, or comes with a conversion of an element, is submitted, required by the helper that uses it or handed on, none forgotten on any path. The name of a helper made for one type carries every part of that type, so that no two types share a helper.",
 ["inputs", "configurations"],
 "every path of every writer of the generator, whatever the other declarations of the package submit",
 "A helper that is not submitted is missed only in a package where no other declaration happens to submit it; tests look at no generated helpers, and real headers almost always have another user of each.",
 ["generator/gen_bindings.go", "generator/gen_callbacks.go", "generator/gen_struct_helpers.go", "generator/gen_typedef.go", "generator/gen_declares.go"],
 [("references", "generator/gen_bindings.go createProxies, proxy..., unpack..., pack..., get...Helper; gen_callbacks.go getCallbackHelpers, proxyCallbackArgToGo; gen_struct_helpers.go"), ("what comes with what", "generator/gen_bindings.go submitHelper, cgoAllocMap, sliceHeader, stringHeader, rawString, safeString, sizeOfPtr"), ("submitting", "generator/gen_typedef.go writeStructTypedef, writeFunctionTypedef")],
 "interprocedural must-analysis over abstract interpretation of SSA: per path the set of helpers submitted (with what they require) against the helpers its texts refer to; summaries of what every path of a function submits and of what it leaves for its callers, resolved up to the outermost functions; an escape check for every helper made",
 "References are found by the names that the fixed helpers' sources declare and by the use of a made helper; the size constant of one type, whose name is put together from parts, and methods of other types (PassRef, New...Ref) are not followed. That what is submitted is written, once, is C09.")
prop("C09", "Every helper submitted is written, once, before the files are",
 "The helpers a package needs travel from the code that generates to a goroutine that writes them. Submitting a helper sends it and everything it requires, directly or through others; the writing loop writes every helper it receives, the first time it sees that helper of that side and no other time, with its whole text, to the file of its side, after that file's header, which it writes once and only when something follows; it ends only after it was told to and has written everything that was sent before; nothing it runs waits for itself; and whoever looks at the files' contents first tells it to end and waits until it has.",
 ["inputs", "schedules"],
 "every set of helpers, every graph of requirements between them and every interleaving of the submitting and writing goroutines",
 "A lost helper depends on which of two ready channel operations the runtime picks, or on a graph of requirements deeper than any test's; the tests submit none.",
 ["generator/generator.go", "generator/gen_bindings.go", "generator/gen_files.go", "process.go"],
 [("submitting", "generator/gen_bindings.go submitHelper"), ("writing", "generator/generator.go MonitorAndWriteHelpers, Close"), ("starting and waiting", "process.go NewProcess, Flush")],
 "abstract interpretation over SSA of the submitting, writing, starting and ending functions with channel operations as events, loop summaries and per-path facts; mod/ref and call-graph reachability for what the loop may run",
 "Decides the protocol as written; the order in which helpers reach a file is not judged, and a writer that fails (NewProcess always gives buffers) is outside.")

prop("C27", "What runs beside the generator shares nothing unguarded with it",
 "The module starts goroutines that run beside the code that generates: one writes the helpers, one shows progress. Whatever such a goroutine touches - a field, a package-level variable, a captured variable, an element of a slice or map, a buffer - is not written by any code that can run before the goroutine's end has been waited for, and what the goroutine writes is not touched by that code, except under a lock or in the order a channel fixes. No run of the program has a data race.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of every goroutine the module starts with the code that goes on meanwhile",
 "A race shows only under the interleaving that loses; the tests start no such goroutine.",
 ["main.go", "process.go", "generator/generator.go", "generator/gen_bindings.go", "generator/gen_files.go", "generator/gen_common.go"],
 [("started", "process.go NewProcess, main.go main"), ("run by the goroutine", "generator/generator.go MonitorAndWriteHelpers and what it calls"), ("meanwhile", "process.go Generate, Flush up to the wait, and everything they call")],
 "may-happen-in-parallel analysis over SSA (interprocedural walk from each go statement to its join) and field-based mod/ref of both sides, with freshness and hand-over of objects and signal ordering",
 "Objects are told apart by type and field, not identity; locked types are judged by C11; state inside libraries is judged per object they are called on.")

prop("C28", "The memory helpers of a generated package own what they allocate",
 "A generated package manages C memory through helpers whose program text the generator provides. For every type they are made for and whatever they are called with: memory is allocated zeroed, for the number of values asked for, each of the size of its own type, and never nil; a Go string or byte slice is copied as a whole (up to a zero byte with safe strings, and a safe string ends in one), and the copy is returned with an allocation map that has it and frees it once it is no longer used and not before; a pointer added to a map stays in it, with those already there; borrowing moves every pointer from one map to the other, so that exactly one of them has it; freeing frees every pointer of the map once and forgets it; a map is empty exactly if it has no pointers; a string that shows C memory covers the bytes from its pointer to the first zero byte and reads nothing through a missing pointer; a copy of a raw string has all its bytes. Each of these helpers, with those it requires, is a valid Go program.",
 ["inputs", "histories"],
 "every content of the maps, every string, slice and pointer, and every C type a helper can be made for",
 "The helpers are texts to the module's own tests, none of which compiles or runs them; a pointer that is leaked, freed twice or moved to both maps shows only in a long-running program that uses a generated package, under the right history of calls.",
 ["generator/gen_bindings.go"],
 [("fixed helpers", "generator/gen_bindings.go cgoAllocMap, safeString, rawString, rawStringCopy, sliceHeader, stringHeader"), ("helpers made for a type", "generator/gen_bindings.go getAllocMemoryHelper, getUnpackStringHelper, getCopyBytesHelper, getPackStringHelper")],
 "abstract interpretation in two stages: of the generator, for the texts of the helpers (with and without safe strings, for an arbitrary type), and of the SSA form of those texts, type-checked with cgo's functions declared: ownership transfer between maps per loop iteration and path, resource typestate of copies (made, remembered, returned, freed by the finalizer only), linear forms of sizes and lengths",
 "Locks around the maps are C11's; what conversions do with the helpers is C21's and C16's, what comes with what is C08's. What cgo's own functions do is taken from their documentation. The methods of one structure or callback are C15's and C17's.")

prop("C29", "Reading and generating come to an end",
 "For every header that can be parsed and every configuration, translating and generating come to an end. Every loop of the module ends: it goes through the elements of something that does not grow meanwhile, counts towards a bound that does not move, follows the links of a list, uses up a string, slice or counter, goes on to what is required in turn, or looks for a free name by making it longer, and no path goes round again without such a step. Every recursion ends: each way around a cycle of calls makes an argument smaller (a part of what the caller was given), raises a counter that is stopped at a bound, or stops by the value it was given - also for structures, unions, callbacks and pointers that refer to themselves or to each other. No helper requires itself through others, and nothing prints itself by being printed.",
 ["inputs", "configurations"],
 "every header (self-referring and mutually referring types, nested callbacks, arrays without a length, empty and unusual declarations), every set of rules and every output of the host's preprocessor",
 "A path that goes round without a step shows only for the input that takes it, as a program that hangs or overflows its stack; the tests' headers hold few of the shapes that C types and declarations can have.",
 ["translator/ast_walker.go", "translator/translator.go", "translator/array_spec.go", "generator/gen_bindings.go", "generator/gen_declares.go", "generator/generator.go", "parser/parser.go", "process.go"],
 [("depth limit", "translator/ast_walker.go maxDeepLevel in structSpec and functionSpec, called through typeSpec"), ("recursion over rules", "translator/translator.go TransformName, IsAcceptableName"), ("loops", "every natural loop of the module"), ("requirements", "generator/gen_bindings.go Helper.Requires, submitHelper")],
 "termination analysis: for every natural loop of the SSA form, a ranking argument from the dataflow of the loop's variables (steps, links, parts, bounds that do not change, followed through helpers), required on every path that goes round; for every cycle of the call graph, size-change graphs from an abstract interpretation of each function on it (with constant arguments told apart) closed under composition; fixpoint over the initialised helpers for requirements",
 "The front end itself, and calls of other libraries, are taken to end; so is what waits for a channel or a timer (C09, C27). That the front end's types and declarations are finite is assumed: only going through the members of structures may lead back. How long it takes is not judged.")

prop("C30", "A generated package compiles against the header it was made from",
 "For every header that the host's C compiler accepts and every configuration that c-for-go accepts, the package that is generated is accepted by the Go compiler and by cgo, together with the header.",
 ["inputs", "configurations"],
 "every header, every configuration, every host compiler",
 "The tests compile no generated package.",
 ["generator", "translator"],
 [("everything that is written", "generator/*.go")],
 "none", "",
 na="Whether a text compiles is decided by the type systems of two other compilers on the whole of the text and the header, whose content is a run-time quantity; no static argument over the generator bounds it. What makes it compile in particular - names that are legal (C05), types that fit (C06, C07, C14), references that come with what they refer to (C08), well-formed text (C10), signatures and bodies that agree (C15, C16, C17) - is decided by those properties' checks; several known findings are of this kind.")

prop("C31", "A generated package and the C library agree on every value at run time",
 "Whatever is passed through a generated package arrives on the other side with the same value: arguments, results, members of structures and what callbacks are given, for every size, alignment and representation the host's C compiler uses.",
 ["inputs", "histories"],
 "every value, every layout, every sequence of calls into the library",
 "The tests run no generated package.",
 ["generator", "translator"],
 [("conversions", "generator/gen_bindings.go proxyArgFromGo, proxyValueFromGo, proxyArgToGo, proxyValueToGo")],
 "none", "",
 na="Values, layouts and aliasing are decided when the generated program runs beside a library that is not there for the analysis; the source of the generator bounds neither. The static parts - which conversion is written for which type, that sizes and types of a conversion agree, who owns memory - are C16, C17, C21, C26 and C28.")
