import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    P.append(d)
T="translator/translator.go"; W="translator/ast_walker.go"; H="translator/helpers.go"
p("C01","Scalar type fidelity",
 "For every C scalar type that Go has a counterpart of, the Go type emitted for it has the same width, signedness and class (integer, floating, boolean, pointer, text) as the C type has under the ABI the headers were parsed for (plain and unsigned char are byte). Const qualification never changes the result, except that a pointer to const char becomes a Go string exactly when the configuration asks for it. An entry of the user's type map always wins over the built-in mapping.",
 ["inputs","configurations"],"every combination of base type, signed/unsigned/short/long/const flags, pointer depth, ABI word size and string options, in every position a type can appear (parameter, result, field, typedef, variable)",
 "The tests check a dozen fixed declarations with one configuration; the space is the product of all qualifiers, depths, ABIs and options.",
 ["translator/type_mapping.go",T,W,"translator/model_go_type.go","translator/model_type.go"],
 [("built-in type map and per-ABI overrides","translator/type_mapping.go getCTypeMap"),("lookup with const fallback","translator/translator.go lookupSpec"),("C kind to specification","translator/ast_walker.go typeSpec")])
p("C02","Pointer depth and array dimensions are preserved",
 "The Go type emitted for a C pointer or array type carries exactly as many levels of indirection as the C type (a level may be a slice, a pointer, or a string, according to the pointer tip; levels already contained in a typedef name are not repeated) and exactly the array dimensions of the C type in order. No combination of typedefs, tags and uses makes the count wrap around or go negative.",
 ["inputs","configurations"],"every pointer depth, array shape, typedef depth and pointer tip for plain, named, struct, union, enum and function types",
 "Tests use one or two levels and one tip; arithmetic on unsigned pointer counts only fails for specific combinations of typedef depth and use depth.",
 [T,"translator/model_go_type.go","translator/array_spec.go",W],
 [("pointer splitting","translator/model_go_type.go splitPointers"),("residual pointers of a typedef","translator/translator.go TranslateSpec, CGoSpec, NormalizeSpecPointers")])
p("C03","Names follow the configured pipeline and are legal Go identifiers",
 "The Go name of a C name is obtained by applying the global rules, then the rules of its own target, then the post-global rules, then the visibility rules, each rule rewriting every non-overlapping match left to right with the requested letter case. Every result that would be a Go keyword is rewritten so that it is not one, and a name made of identifier characters stays one under rules that only insert identifier characters.",
 ["inputs","configurations"],"every C identifier and every list of replace rules with every case transform, for every target and visibility",
 "Tests never set replace rules at all.",
 [T,H,"translator/rules.go"],
 [("rule application","translator/translator.go TransformName"),("backwards replacement","translator/helpers.go replaceBytes"),("keyword rewriting","translator/helpers.go rewriteName")])
p("C04","Answers do not depend on what was asked before",
 "The Go name given to a C name, the tip chosen for it, and the acceptance decision about it are functions of the configuration and the arguments alone. No earlier query, in any order and with any other arguments, changes a later answer, and an answer that was handed out is never altered afterwards.",
 ["histories"],"every sequence of queries over names, targets, visibilities and scopes",
 "Each test asks once; a wrong cache key or a shared buffer only shows with a particular second query.",
 [H,T],[("name cache","translator/helpers.go NameTransformCache"),("tip caches","translator/helpers.go TipCache")],
 [("transformCache","memoised names","translator/translator.go Translator"),("ptrTipCache, typeTipCache, memTipCache","memoised tips","translator/translator.go Translator")])
p("C05","Only accepted declarations are emitted, and all of them are",
 "A name is accepted exactly when an accept rule of its target matches and no ignore rule of that target does, or no rule of its target matches it and the same holds of the global rules. A function, type, constant or variable of the headers appears in the generated package if and only if its name is accepted and its file is not one of the ignored files.",
 ["inputs","configurations"],"every name, every set of accept and ignore rules per target, every list of ignored path suffixes",
 "The tests use one accept rule and never an ignore rule or ignored file.",
 [T,"generator/generator.go","generator/gen_const.go",H],
 [("acceptance","translator/translator.go IsAcceptableName"),("ignored files","translator/helpers.go IsTokenIgnored"),("emission loops","generator/generator.go WriteTypedefs, WriteDeclares, WriteConst")])
p("C06","The configured tip is the one applied",
 "The tip used for a parameter, field or result is the one at its position in the first tip entry of its scope whose target matches, falling back to the entry's default and, when no entry of the scope matches, to the first matching entry of the scope for everything; a tip of an unknown kind is never used. Choosing a tip only changes how the affected position is represented.",
 ["inputs","configurations"],"every list of tip entries per scope, every position and every name",
 "Tests set no tips.",
 [T,"translator/rules.go","generator/gen_common.go"],
 [("tip lookup","translator/translator.go PtrTipRx, TypeTipRx, MemTipRx, TipRxsForSpec"),("position lookup","translator/translator.go TipAt, Self")])
p("C07","Function wrappers call the right C function with the right arguments",
 "The Go wrapper of a C function takes the C function's parameters in order (the one chosen as instance becoming the receiver), calls exactly that C function with exactly one converted argument per parameter in the C order, and returns a converted result exactly when the C function returns one. The declared parameter list is well formed and all names declared in the wrapper are distinct.",
 ["inputs","configurations"],"every function signature (number, kinds and names of parameters, result) and every tip assignment",
 "No test runs the generator at all.",
 ["generator/gen_bindings.go","generator/gen_declares.go","generator/gen_common.go"],
 [("wrapper body","generator/gen_bindings.go writeFunctionBody, createProxies"),("signature","generator/gen_declares.go writeFunctionDeclaration; generator/gen_common.go writeFunctionParams")])
p("C08","Struct wrappers move every field to and from the same C field",
 "The Go struct of a C struct has one field per emitted C member, in order, with a type that represents the member; writing it to C assigns each of these members once from its own field and reading it back assigns each field once from its own member (a callback, which has no way back from C, is not read). Members excluded by the rules, and members that cgo cannot access (bitfields, flexible arrays, types without a name), are excluded in all three places alike.",
 ["inputs","configurations"],"every list of members (kinds, names, pointer depth, arrays) and every rule and tip assignment",
 "No test runs the generator; a skipped or swapped field is visible only for particular member kinds and positions.",
 ["generator/gen_struct_helpers.go","generator/gen_common.go","generator/gen_typedef.go"],
 [("field emission","generator/gen_common.go writeStructMembers"),("to C","generator/gen_struct_helpers.go getPassRefSource"),("from C","generator/gen_struct_helpers.go getDerefSource")])
p("C09","Every helper that is referenced is defined, once, with one meaning",
 "Every helper function, constant or type that the generated code refers to is defined in the generated package exactly once. Two uses that need different helper bodies never share a helper name.",
 ["inputs","programs"],"every set of declarations translated together",
 "No test runs the generator; collisions need two particular types in one package and missing definitions need a helper reached through only one of its users.",
 ["generator/gen_bindings.go","generator/generator.go"],
 [("helper naming","generator/gen_bindings.go getHelperName, getTypedHelperName"),("transitive submission","generator/gen_bindings.go submitHelper"),("deduplication","generator/generator.go MonitorAndWriteHelpers")])
p("C10","Generation is deterministic",
 "The same headers and configuration always give byte-for-byte the same files when time stamps are off, whatever the iteration order of internal tables, and declarations appear ordered by their place in the sources.",
 ["schedules","inputs"],"every iteration order of every internal table and every schedule of the helper writer",
 "A test sees whichever order the runtime happens to choose.",
 [T,"generator/generator.go","parser/parser.go"],
 [("sorting","translator/translator.go Learn, declList; generator/generator.go sortedTagDefs")])
p("C11","Constants keep their value",
 "A macro whose replacement is a numeric literal, or an expression over accepted constants that does not wrap around, is emitted as a Go constant with the same numeric value as in C, whichever constant rule is configured; what cannot be represented is left out rather than emitted with another value.",
 ["inputs","configurations"],"every numeric literal spelling (base, digits, fraction, exponent, suffix) and every constant rule",
 "Tests cover a handful of decimal macros.",
 [H,T,"generator/gen_const.go"],
 [("literal translation","translator/helpers.go readNumeric"),("macro collection","translator/translator.go collectDefines"),("emission","generator/gen_const.go writeDefinesGroup")])
p("C12","Enumerations keep every member and value",
 "Each accepted member of an emitted C enumeration is emitted as a Go constant exactly once with the member's C value, of the enumeration's Go type where it has a typedef name (and untyped otherwise), and that type is an integer type wide enough and of the right signedness to hold every member, as long as the members are C ints.",
 ["inputs","configurations"],"every list of members and values, tagged, anonymous or typedefed, under every enum constant rule",
 "Tests compare the value table of fixed enums, never the emitted constants or their type.",
 ["generator/gen_const.go","translator/model_enum.go",W],
 [("member emission","generator/gen_const.go expandEnum, expandEnumAnonymous, iotaOnZero"),("type promotion","translator/model_enum.go PromoteType")])
p("C13","Documentation points at the C declaration",
 "The comment of each emitted declaration names the Go name that follows and the file (with its directory) and line of its C declaration, or the configured documentation template filled in with exactly those values.",
 ["inputs","configurations"],"every file path, line, name and documentation rule",
 "No test looks at comments.",
 [H],[("location","translator/helpers.go SrcLocation, narrowPath")])
p("C14","File preamble carries the configuration and never leaks out of its comment",
 "Each generated file starts with the license and generated-code marker as comments and the package clause, and cgo files carry every configured flag, package option and include exactly once and in order before the import of C. No configured license or description text can end up outside a comment.",
 ["inputs","configurations"],"every license and description text, flag group, and include list",
 "No test runs the generator.",
 ["generator/gen_files.go"],[("preamble","generator/gen_files.go WriteDoc, WriteIncludes, writeTextBlock, writeLongTextBlock")])
p("C15","Mapped C memory is bounded as configured",
 "The capacity of every slice laid over C memory is the configured memory limit, an unknown limit falls back to the default, and a slice field that is laid over C memory and has a configured length field takes its length from that C field and no other.",
 ["inputs","configurations"],"every memory limit string and every length-field configuration",
 "No test runs the generator.",
 ["generator/generator.go","generator/gen_bindings.go","generator/gen_struct_helpers.go"],
 [("limit","generator/generator.go NewMemSpec, SetMaxMemory"),("length field","generator/gen_struct_helpers.go getLenField")])
p("C16","User defines and source paths reach the C front end",
 "Every configured define of a supported kind is visible to the headers with its value, an existing relative path is used as given and otherwise looked up in the include paths in order, a path that cannot be found is an error, and directories are skipped. Include paths reach the front end in their order, and definitions and paths of the host's preprocessor are used only when asked for, never over the configured defines.",
 ["inputs","configurations","fault_sequences"],"every define map, path list and file-system answer",
 "Tests bypass the parser package.",
 ["parser/parser.go"],[("defines","parser/parser.go ParseWith"),("paths","parser/parser.go checkConfig, findFile"),("host preprocessor output","parser/parser.go hostCppConfig")])
p("C17","No failed write is reported as success",
 "If creating or writing any of the output files fails, the generation step reports an error; when it reports success every produced buffer has been written completely to its file, whether or not it could be formatted.",
 ["fault_sequences"],"every subset of file operations failing and formatting failing or not",
 "No test performs output; faults never happen in tests.",
 ["process.go"],[("output","process.go Flush, flushBufferToFile")])
p("C18","No helper is lost and closing terminates under every schedule",
 "Whatever the interleaving of the generator and the helper writer, every helper submitted before closing is written exactly once before closing returns, closing returns, and closing again is harmless.",
 ["schedules"],"every interleaving of submissions, the close request and the writer, and every choice among ready channel operations",
 "A test run sees one interleaving.",
 ["generator/generator.go","generator/gen_bindings.go"],
 [("writer loop","generator/generator.go MonitorAndWriteHelpers"),("close handshake","generator/generator.go Close")],
 [("helpersChan, closeC, doneC","hand-over channels","generator/generator.go Generator")])
p("C19","Nothing is declared twice",
 "A generated package never declares the same top-level name twice on account of repeated C declarations: redeclared functions, structs, unions, enumerations and typedefs of the same name give one Go declaration.",
 ["inputs","programs"],"every sequence of repeated and forward declarations, typedefs of tags and mutual naming",
 "Tests never look at emitted declarations.",
 ["generator/generator.go","generator/gen_typedef.go","generator/gen_const.go",T],
 [("seen sets","generator/generator.go WriteTypedefs, WriteDeclares, WriteConst"),("tag registration","translator/translator.go registerTagsOf")])
p("C20","Callback proxies are consistent on both sides",
 "For every function-pointer typedef that is emitted, the C prototype, the C body and the exported Go function have the same parameter count, order and C types, the C body forwards every parameter to that Go function, and the Go function passes them to the registered callback in order and returns its result exactly when the C type has one.",
 ["inputs","configurations"],"every callback signature",
 "No test runs the generator.",
 ["generator/gen_callbacks.go","translator/model_type.go","translator/model_struct_union.go"],
 [("proxies","generator/gen_callbacks.go getCallbackHelpers, createCallbackProxies")])
p("C21","Validations guard exactly the functions they match",
 "A wrapper starts with the configured validation of the first validation entry whose pattern matches the C function name, with that name and that entry's return text, and with no validation when none matches; an invalid pattern is reported when the configuration is loaded.",
 ["inputs","configurations"],"every function name and every list of validation entries",
 "No test configures validations.",
 [T,"translator/rules.go","generator/gen_common.go","generator/gen_bindings.go"],
 [("matching","translator/translator.go GetLibrarySymbolValidation"),("emission","generator/gen_common.go writeValidation")])
p("C22","The generated package compiles against cgo's types",
 "For every C declaration - a parameter, a result, a struct member, a callback's parameter or result, a variable or a typedef, of any base type behind any combination of pointers and arrays - and under every combination of pointer, type and memory tips and generator options, the translator does not give up and the Go files generated for it are syntactically valid and type-check as a package in which the C names have the types that cgo gives them.",
 ["inputs","configurations"],"every declaration and every combination of tips",
 "No test compiles generated code, and the proxies, helpers and declarations are assembled by separate pieces of code that must agree on the Go and cgo type at every level of pointers and arrays.",
 ["generator/gen_bindings.go","generator/gen_callbacks.go","generator/gen_struct_helpers.go","generator/gen_declares.go","generator/gen_typedef.go",T,"translator/model_go_type.go","translator/array_spec.go"],
 [("levels","translator/model_go_type.go AtLevel, SpecAtLevel, PointersAtLevel"),("types","translator/translator.go TranslateSpec, CGoSpec"),("conversions","generator/gen_bindings.go proxyArgFromGo, proxyValueFromGo, proxyRetToGo, getPackHelper, getUnpackHelper")])
p("C23","A run follows its configuration file and its command line",
 "Every setting of the configuration file and every switch that changes the output reaches the step it is meant for, unchanged, alone and together with any other; a directory given as an argument stands for the first of c-for-go.yaml, c-for-go.yml, <directory>.yaml and <directory>.yml in it that is a file; the arguments are processed in their order; a run with the same settings given to the steps directly makes the same files.",
 ["inputs","configurations"],"every combination of settings, switches and arguments",
 "No test decodes a configuration file or runs the command.",
 ["main.go","process.go","parser/parser.go","translator/translator.go","translator/rules.go","generator/generator.go"],
 [("arguments","main.go getConfigPaths, configFromDir"),("settings","process.go NewProcess, Generate"),("fields","the yaml field tags of generator.Config, translator.Config, parser.Config and what they hold")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
