import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","No diagnostic is ever lost between where it arises and the user",
"Every error or exception that any stage of the compiler detects (reading, parsing, linking, validating, generating, writing, copying) is contained in the result that stage hands to its caller, marks that result as an error, and so ends up in the report printed at the end of the run. No stage drops, overwrites or downgrades the diagnostics of a stage it called, and no failure returned by the operating system while reading or writing project files is ignored.",
["inputs","programs","fault_sequences"],"every project, every malformed definition, every failing file operation, every path through every stage",
"The suites only compile one correct project, so almost no diagnostic path is executed; a dropped message block changes nothing on a correct project.",
["src/vxlisp/msg.go","src/vxlisp/project.go","src/vxlisp/package.go","src/vxlisp/func.go","src/vxlisp/type.go","src/vxlisp/const.go","src/vxlisp/value.go","src/vxlisp/arg.go","src/vxlisp/library.go","src/vxlisp/command.go","src/vxlisp/textblock.go","src/vxlisp/file.go","src/vxlisp/lang.go","src/vxlisp/lang-cpp.go","src/vxlisp/lang-js.go","src/vxlisp/lang-func.go","src/vxlisp/lang-const.go","src/vxlisp/lang-test.go","src/vxlisp/doc.go"],
[("MsgblockAddBlock / MsgblockAddError / MsgblockAddException merge diagnostics upward","src/vxlisp/msg.go"),("StringFromMsgblock renders the whole tree","src/vxlisp/msg.go")],
[("vxmsgblock.iserror","some diagnostic below this node is an error","src/vxlisp/msg.go"),("vxmsgblock.listmsgblock","diagnostics of called stages","src/vxlisp/msg.go")],
["report printed by the vxlisp command","build.log"])

p("C02","Nothing is generated from a project that failed to read, link or validate",
"A command (source, test, doc or web server) only starts when reading, library resolution, dependency ordering, linking and validation of the whole project have all been carried out, in that order, and none of them reported an error; a stage never starts once an earlier one has reported an error. A project with errors therefore leaves every output file untouched.",
["inputs","programs"],"every project with at least one error in any file, every command",
"The suites only run commands on a project without errors, so they never take the branch that must stop.",
["src/vxlisp/project.go","src/vxlisp/lang.go"],
[("ProjectReadFromPath runs the stages behind iserror tests","src/vxlisp/project.go"),("ExecuteProjectFromArgs tests the block before executing commands","src/vxlisp/project.go")],
[("vxmsgblock.iserror","gate between stages","src/vxlisp/msg.go")],
["files under the command path"])

p("C03","The same sources always produce byte-identical output",
"Generated source, generated tests, documentation and diagnostics depend only on the project's files and the command: never on map iteration order, time, randomness, addresses, environment or goroutine scheduling. Compiling the same project twice, on any machine, yields the same bytes.",
["schedules","inputs","histories"],"every project, every run, every map iteration order the runtime may choose",
"A test sees one iteration order per run and compares behaviour of the generated program, not the bytes of two runs; C#, Kotlin, Swift and documentation output are not looked at at all.",
["src/vxlisp/lang.go","src/vxlisp/lang-func.go","src/vxlisp/lang-type.go","src/vxlisp/lang-cpp.go","src/vxlisp/lang-js.go","src/vxlisp/lang-test.go","src/vxlisp/code.go","src/vxlisp/doc.go","src/vxlisp/package.go","src/vxlisp/func.go","src/vxlisp/type.go","src/vxlisp/const.go","src/vxlisp/vx/core/core.go"],
[("ListKeyFromMapType / ListKeyFromMapConst / ListKeyFromMapFunc sort the keys before use","src/vxlisp"),("file.WriteListFile rewrites only files whose text differs","src/vxlisp/file.go")],
None,["every file written by source, test and doc commands","printed report"])

p("C04","Documentation pages show source text literally",
"Every piece of text taken from a project (names, descriptions, code, test text) appears in the generated HTML documentation as text: the characters & < > and \" in it are always shown as themselves and can never open or close an element, an attribute or a script. This holds wherever the text is placed on the page.",
["inputs","programs"],"every project, every description, every definition, every place where text is inserted",
"The doc command is not run by any test.",
["src/vxlisp/doc.go"],
[("HtmlFromString replaces the special characters","src/vxlisp/doc.go")],None,
["HTML file written by the doc command"])

p("C05","Project text stays inside its literal or comment in generated code",
"Text taken from a project (string values, descriptions, test source) that is placed inside a string literal of a generated C++, C#, Java, JavaScript, Kotlin or Swift program is escaped so that it cannot end the literal or start an interpolation, and text placed in a comment cannot end that comment. Whatever the text contains, the generated program reads it back as data.",
["inputs","programs","configurations"],"every text in every project, every target language, every place where the generator quotes text",
"The tests compile one library whose texts contain few special characters, for three of the six languages.",
["src/vxlisp/lang-native.go","src/vxlisp/lang-cpp.go","src/vxlisp/lang-js.go","src/vxlisp/lang-func.go","src/vxlisp/lang-const.go","src/vxlisp/lang-test.go","src/vxlisp/lang-type.go"],
[("LangNativeFromText escapes text for the shared backends and JavaScript","src/vxlisp/lang-native.go"),("CppFromText escapes text for C++","src/vxlisp/lang-cpp.go")],None,
["generated source and test files"])

p("C06","Generated code is lexically well formed in every target language",
"For every project and every target language, in each generated file every brace, parenthesis and bracket the generator opens is closed again by the generator, and every string literal and comment it opens it closes. This holds for every combination of features a definition can use (generics, async, context, permissions, overloads, multi arguments, messages, debug) and for every number of elements.",
["inputs","programs","configurations"],"every project, every definition shape, six target languages",
"C#, Kotlin and Swift output is never compiled by the tests; C++, Java and JavaScript only for one library which uses few of the feature combinations.",
["src/vxlisp/lang.go","src/vxlisp/lang-native.go","src/vxlisp/lang-func.go","src/vxlisp/lang-type.go","src/vxlisp/lang-const.go","src/vxlisp/lang-test.go","src/vxlisp/lang-testlib.go","src/vxlisp/lang-cpp.go","src/vxlisp/lang-js.go","src/vxlisp/code.go"],
[("open/close pairs such as LangNamespaceOpenClose, LangFuncTryCatch, LangIfThen/LangIfEnd","src/vxlisp/lang-native.go")],None,
["generated source and test files"])

p("C07","No supported target language is silently left out of a generation step",
"Wherever the generator chooses what to emit by target language, each supported language that can reach that point has its own choice or a meaningful default: no language silently gets nothing (or another language's default) where its siblings get code. The list of languages accepted by a command, the list of native text files read, the language descriptors and the per-language choices all name the same set of languages.",
["configurations","programs"],"every supported target language, every generation step",
"C#, Kotlin and Swift generation is not run by any test, so an arm missing for one of them is invisible.",
["src/vxlisp/lang-native.go","src/vxlisp/lang.go","src/vxlisp/lang-func.go","src/vxlisp/lang-type.go","src/vxlisp/lang-const.go","src/vxlisp/lang-test.go","src/vxlisp/code.go","src/vxlisp/project.go"],
[("switch over the language descriptor","src/vxlisp/lang-native.go"),("listlang / maplang registry","src/vxlisp/lang.go")],None,
["generated source and test files"])

p("C08","Every definition of every package is generated by every backend",
"For every target language the source command emits every package of the project and, in it, every type, constant and function overload, each also registered in the package's lookup tables; the test command emits a test for every package, type, constant and function overload that has tests; the doc command lists every package and definition. No definition is skipped, whatever its position or kind; only a language configured for some packages alone is limited to those, and functions declared for the server alone have no JavaScript test.",
["inputs","programs","configurations"],"every project, every definition, every backend",
"The suites count passing tests: a definition or test that is not emitted in C#, Kotlin, Swift or documentation, or a function without tests that is not emitted, removes nothing that is looked at.",
["src/vxlisp/lang.go","src/vxlisp/lang-test.go","src/vxlisp/lang-cpp.go","src/vxlisp/lang-js.go","src/vxlisp/code.go","src/vxlisp/doc.go"],
[("per-package loops over sorted keys and overload lists","src/vxlisp/lang.go")],None,
["generated source and test files"])

p("C09","Unknown words in a definition are rejected, never ignored",
"Any keyword, definition kind, command code or target language that the compiler does not know, wherever it appears in a project, package, library, path, command, type, constant, function or argument definition, produces an error that stops the build; every keyword it accepts is acted upon. Text whose quote, comment or bracket is never closed is likewise an error.",
["inputs","programs"],"every source text",
"The tests parse correct text only, apart from a few hand-picked examples.",
["src/vxlisp/project.go","src/vxlisp/package.go","src/vxlisp/library.go","src/vxlisp/command.go","src/vxlisp/type.go","src/vxlisp/const.go","src/vxlisp/func.go","src/vxlisp/arg.go","src/vxlisp/textblock.go"],
[("default branch of the keyword switches adds an error","src/vxlisp")],None,
["report printed by the vxlisp command"])

p("C10","Every reference in every definition is resolved and checked",
"After a successful build step each name used in any definition (property and argument types, parents, allowed and disallowed types and functions, return types, default values, function bodies, constants, tests, overloads) has been looked up against the project, and each value has been checked against its declared type; nothing is skipped because of where it occurs. A name that cannot be found and a value of the wrong type are always reported.",
["inputs","programs"],"every definition and every reference in it",
"The suites only link a project in which every reference is right; a skipped check accepts the same project.",
["src/vxlisp/package.go","src/vxlisp/type.go","src/vxlisp/const.go","src/vxlisp/func.go","src/vxlisp/arg.go","src/vxlisp/value.go","src/vxlisp/scope.go"],
[("ListPackageLink / ListPackageValidate walk all definitions","src/vxlisp/package.go")],None,
["report printed by the vxlisp command"])

p("C11","Shared definitions are never modified while compiling",
"The values the compiler shares between all definitions - the empty type, function, constant, argument, value and project placeholders, the built-in types and the language descriptors - keep their initial contents for the whole run. Compiling one definition or package can therefore never change how another one is compiled.",
["histories","programs"],"every order and combination of definitions, every sequence of commands in one run",
"Corruption only shows in a later definition that happens to use the same shared value; tests compile one fixed project.",
["src/vxlisp/type.go","src/vxlisp/func.go","src/vxlisp/const.go","src/vxlisp/arg.go","src/vxlisp/value.go","src/vxlisp/lang.go","src/vxlisp/scope.go","src/vxlisp/project.go"],
[("copies are made before fields are set (NewTypeCopy, NewFuncCopy)","src/vxlisp")],None,
["generated files of later definitions"])

p("C12","The compiler only writes where a command tells it to",
"Reading, linking, validating and generating text never touch the file system except to read; files and folders are only created or replaced below the path configured for the command being run, test data also beside it (plus the build log), each generated file is written completely from its generated text, and nothing is ever deleted, renamed or executed. The web server only serves the folder of its command.",
["inputs","configurations","fault_sequences"],"every project, every command, every state of the file system",
"Tests look at the files they expect, not at what else was touched; the doc and web server commands are not run.",
["src/vxlisp/file.go","src/vxlisp/lang.go","src/vxlisp/lang-cpp.go","src/vxlisp/lang-js.go","src/vxlisp/doc.go","src/vxlisp/webserver.go","src/vxlisp/msg.go"],
[("WriteListFile / FolderCopyFromSourceTarget are the only writers","src/vxlisp/file.go"),("PathFromProjectCmd","src/vxlisp/project.go")],None,
["file system"])

p("C13","Every file the compiler opens is closed and every log is flushed",
"Each file, watcher or log opened by the compiler is closed on every path, including all error paths, before the function that owns it finishes, and a buffered log is flushed before it is closed. A run never leaks handles, however many files a project has, and never loses the tail of its report.",
["fault_sequences","inputs"],"every path including failing file operations",
"Tests do not inject file errors and stop long before handles run out.",
["src/vxlisp/file.go","src/vxlisp/msg.go","src/vxlisp/project.go","src/vxlisp/vx/core/core.go"],
[("Close / defer Close","src/vxlisp/file.go"),("MsgStopLog","src/vxlisp/msg.go")],None,["open handles","build.log"])

p("C14","A copy of a definition behaves exactly like the original",
"Whenever the compiler copies a command, type, function, constant, argument or value in order to adapt it, the copy carries over every attribute of the original except the ones being adapted. No attribute a user wrote (flags, documentation, permissions, allowed types, defaults, overload index) is lost by being copied.",
["inputs","programs"],"every definition with any combination of attributes",
"Tests only use a few attributes on definitions that are copied.",
["src/vxlisp/command.go","src/vxlisp/type.go","src/vxlisp/func.go","src/vxlisp/const.go","src/vxlisp/arg.go","src/vxlisp/value.go"],
[("New...Copy constructors","src/vxlisp")],None,["generated files"])

p("C15","Library native code only uses runtime helpers that exist",
"Every runtime helper, type, constant or function of the vxlisp library that native code in the library or code emitted by the generator refers to, in any target language, is defined for that language by the runtime text files, by the generator, or by a library definition. A program generated for any target language never refers to a missing library helper.",
["configurations","programs"],"every reference in native code, six languages",
"C#, Kotlin and Swift output is never compiled; JavaScript resolves names only when a line is executed.",
["dist/vxlisp/vx/core.vxlisp","dist/vxlisp/vx/core_cpp.txt","dist/vxlisp/vx/core_csharp.txt","dist/vxlisp/vx/core_java.txt","dist/vxlisp/vx/core_js.txt","dist/vxlisp/vx/core_kotlin.txt","dist/vxlisp/vx/core_swift.txt","dist/vxlisp/vx/type.vxlisp","dist/vxlisp/vx/collection.vxlisp"],
[("runtime text files inserted into the generated package","dist/vxlisp/vx")],None,["generated programs"])

p("C17","Malformed source never crashes the compiler",
"Whatever text a project contains - missing words, empty brackets, truncated definitions, wrong kinds of value - the compiler reports errors and terminates normally; it never stops with an index out of range, nil access, failed conversion, division by zero or explicit panic. The same holds for every command line.",
["inputs","programs"],"every source text, every command line",
"The tests feed correct text.",
["src/vxlisp/textblock.go","src/vxlisp/project.go","src/vxlisp/package.go","src/vxlisp/type.go","src/vxlisp/func.go","src/vxlisp/const.go","src/vxlisp/arg.go","src/vxlisp/value.go","src/vxlisp/signature.go","src/vxlisp/scope.go","src/vxlisp/vx/core/core.go"],
[("length tests before indexing, value code tests before conversion","src/vxlisp")],None,["process exit"])

p("C18","Overloads of a function never get mixed up in generated code",
"Wherever generated code declares, registers or refers to a vxlisp function, the identifier it uses includes the overload number of exactly that function, so two overloads of one name are always different identifiers and a call, reference, test or table entry always means the overload the compiler selected. This holds in every backend.",
["programs","configurations"],"every function with any number of overloads, every kind of reference, six languages",
"Few library functions are overloaded and referenced in each possible way; three of the backends are not compiled.",
["src/vxlisp/lang-func.go","src/vxlisp/lang.go","src/vxlisp/lang-test.go","src/vxlisp/lang-cpp.go","src/vxlisp/lang-js.go"],
[("LangFuncName / LangIndexFromFunc","src/vxlisp/lang.go")],None,["generated source and test files"])

p("C19","Names become valid identifiers wherever generated code uses them",
"Every vxlisp name (package, type, function, constant, argument, property) that is placed in the code of a generated program has first been turned into a valid identifier, by the same translation at every place, so that characters allowed in vxlisp names but not in the target language (- < > ? / and the like) never reach generated code and all uses of one name agree. Names shown as text keep their original spelling.",
["programs","configurations"],"every name, every place of use, six languages",
"The library uses few special characters in argument and constant names and three of the backends are not compiled.",
["src/vxlisp/lang.go","src/vxlisp/lang-native.go","src/vxlisp/lang-func.go","src/vxlisp/lang-type.go","src/vxlisp/lang-cpp.go","src/vxlisp/lang-js.go","src/vxlisp/vx/core/core.go"],
[("LangFromName / V_code_namen translate names","src/vxlisp/lang.go")],None,["generated source and test files"])

p("C20","Values of generated programs are immutable",
"Code emitted by the generator and the runtime text files only assign the stored fields of a vxlisp value while constructing a fresh value that nothing else can see yet; an operation that changes a value (copy, append, set) works on a new object. A value once returned never changes.",
["programs","histories"],"every value, every operation, six languages",
"A mutation of a shared value only shows in a program that keeps the old value and looks at it again; tests compare results of single expressions.",
["src/vxlisp/lang-type.go","src/vxlisp/lang-func.go","src/vxlisp/lang-cpp.go","src/vxlisp/code.go","dist/vxlisp/vx"],
[("vx_copy / vx_new build a fresh output","src/vxlisp/lang-type.go")],None,["values of generated programs"])

p("C21","Generated C++ programs free every value exactly when it becomes unused",
"In generated C++ every value that a function reserves is released on every path, and no value is released more often than it was reserved, so programs neither leak nor use freed values.",
["programs","histories"],"every program, every path",
"The refcount check at the end of the generated tests covers the paths taken by the library's tests only.",
["src/vxlisp/lang-cpp.go","dist/vxlisp/vx/core_cpp.txt"],
[("vx_reserve / vx_release pairs in emitted code","src/vxlisp/lang-cpp.go")],None,["vx_core::refcount"])

p("C22","All target languages compute the same results",
"A vxlisp program gives the same result in every supported target language.",
["programs","configurations","inputs"],"every program, every pair of target languages",
"Tests run one set of examples in three of six languages.",
["src/vxlisp/lang.go","src/vxlisp/lang-cpp.go","src/vxlisp/lang-js.go","dist/vxlisp/vx"],
[("shared emitters parameterised by language","src/vxlisp/lang-native.go")],None,["results of generated programs"])

p("C23","The compiler always terminates",
"For every project, including ones with circular package references, self-referential types and functions that call each other, reading, ordering, linking, validating and generating finish.",
["programs","inputs"],"every project",
"The tests compile one project without cycles.",
["src/vxlisp/package.go","src/vxlisp/type.go","src/vxlisp/func.go","src/vxlisp/value.go","src/vxlisp/signature.go"],
[("depth guards and visited checks","src/vxlisp")],None,["process exit"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
