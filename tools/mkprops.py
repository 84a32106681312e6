import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
A="analyzer/analyzer.go";U="analyzer/util.go";R="analyzer/rewrite.go";L="analyzer/load.go";G="analyzer/graph.go";C="analyzer/compare.go";S="analyzer/scan.go"
I="interesting/interesting.go";M="interesting/interesting.cm";CL="cmd/capslock/capslock.go";GD="cmd/capslock-git-diff/main.go"
p("C01","No capability exercised at run time goes unreported",
 "If running a (non-generic) function, method or function literal of an analysed package leads to the execution of a function that the capability map in use assigns a capability, then the function-level report lists that capability for that function, unless an intermediate function on the call chain is itself categorised by the map or the chain crosses an edge the map ignores. If the chain goes through a standard-library function that receives a callback or uses reflection, reporting UNANALYZED or REFLECT for the function instead is acceptable, but reporting nothing is not. This holds whatever language construct carries the call: direct calls, defer and go statements, closures, method values and expressions, interface and embedded-method dispatch, function values in fields, maps, slices, channels and globals, generics, package initialisation, range-over-func, recursion, panics and recovered panics.",
 ["programs"],"all valid Go programs and all their executions; the monitored set is generated programs that are really executed, with the call stack recorded at every execution of a categorised function",
 "The tests compare the report for a dozen fixed packages against hand-written regular expressions; nobody runs the analysed program, and no test quantifies over ways of passing a call from one function to another.",
 [A,U,R],[("call graph construction over all functions of the program",U+": buildGraph"),("backward search from categorised functions",A+": forEachPath, searchBackwardsFromCapabilities"),("AST rewriting that must not lose calls",R)],
 state=[("bfsStateMap","functions already known to reach a capability, with the next call on the example path",U)],obs=["JSON report of the CLI","runtime stacks (with goroutine ancestry) recorded inside categorised functions of the executed program"])
p("C02","Report is exactly the set of functions that can reach each capability",
 "For every analysed package set and capability map, the function-granularity report contains an entry for a pair (function of a queried package, capability) if and only if that function has the capability itself or there is a chain of calls in the program's call graph from it to a function with that capability. The chain may not start at or pass through a function that the map categorises (including as safe), nor use a call the map ignores. Each such pair is reported exactly once and functions outside the queried packages are never reported.",
 ["programs","configurations"],"all programs, all choices of queried packages, all capability maps",
 "Existing tests check that some expected lines appear and a few listed ones do not, on fixed packages and two toy classifiers; reachability bugs that depend on graph shape (cycles, shared callees, several capabilities, categorised intermediates) are outside them.",
 [A,U,"interesting/interesting.go"],[("per-capability BFS over incoming call edges",A+": forEachPath"),("categorised and safe nodes stop the search",A+": mergeCapabilities, getNodeCapabilities"),("restriction to queried packages",L+": GetQueriedPackages")],
 state=[("nodesByCapability","functions that have each capability",A),("allNodesWithExplicitCapability","functions at which the search stops",A),("safe","functions categorised as safe",A)],obs=["JSON report of the CLI","library result of the capability analysis"])
p("C03","Every reported call path is a genuine witness",
 "Each example path in a report starts at the function (for package granularity: a function of the package; for intermediate granularity: a function of a queried package, with the named package on the path) the entry is about, ends at a function that has the reported capability, and each consecutive pair of functions is a call that really exists in the analysed source. The file, line and column given for a step are those of a call in the preceding function that can invoke that step, the package given for a function is the package that declares it, and the textual path agrees with the structured path. No function strictly inside a path is categorised by the capability map, and no step uses an ignored call.",
 ["programs","configurations"],"all programs, capability maps and granularities; all entries of all reports",
 "Tests compare dependency paths by regular expression for a few entries; call sites and packages are only checked in one test on one program.",
 [A,U],[("path reconstruction from BFS back-pointers",A+": GetCapabilityInfo, intermediatePackages, GetCapabilityStats"),("call-site attribution",U+": addFunction, callsitePosition"),("package attribution including wrappers and generics",U+": nodeToPackage")],
 obs=["path, depPath and site fields of the JSON report","example call paths in verbose and compare output"])
p("C04","Direct and transitive classification is right",
 "An entry is marked DIRECT exactly when every function on its example path belongs to the entry's own package or to the standard library, and TRANSITIVE exactly when some function on it belongs to another non-standard-library package, where a package outside the standard library is one whose import path contains a dot. The package name and directory of an entry are the name and import path of the package declaring the reported function. The direct and transitive counts of the statistics output add up to the total for each capability and equal the numbers of entries of each type in the function-level report.",
 ["programs"],"all programs with any arrangement of calls among queried, dependency and standard-library packages",
 "Only a few fixed packages are covered by expected output; mixed chains (out to a dependency and back through a callback) are not.",
 [A,U],[("type accumulated along the path",A+": GetCapabilityInfo, GetCapabilityStats"),("standard-library test on import paths",U+": isStdLib, packagePath")],obs=["capabilityType, packageName, packageDir in JSON","verbose output counts"])
p("C05","Coarser granularities are exact projections of the call-path relation",
 "Package granularity reports exactly the pairs (package, capability) for which function granularity reports some function of that package with that capability, each once. Intermediate granularity reports exactly the pairs (package, capability) such that some call chain, allowed by the map, leads from a function in a queried package to a function with that capability and contains a function of that package, each once and restricted to the requested capability set. Omitting paths changes nothing but the presence of paths: the set of pairs and their attributes are the same.",
 ["programs","configurations"],"all programs, capability maps, capability sets, granularities, with and without paths",
 "One test per granularity on one small program each.",
 [A],[("deduplication by package",A+": GetCapabilityInfo"),("two-directional search",A+": intermediatePackages, CapabilityGraph"),("path omission",A)],obs=["JSON report with -granularity and -omit_paths"])
p("C06","All output formats report the same facts",
 "For the same packages and configuration, the machine output lists exactly the capabilities that occur in the function-level JSON report, sorted and without duplicates; the default output gives for each of them the number of entries; the verbose output gives the same number, split into direct and transitive as in the JSON report, with an example path that begins at a reported function and ends at a function with the capability. The library functions returning information, counts and statistics agree with each other in the same way, and abbreviated output-mode names behave as their long forms. When standard output is a terminal the same text is written, with nothing but colour codes added.",
 ["programs","configurations"],"all programs and configurations, all output modes",
 "Each format is tested separately, on different packages, or not at all (machine, default and verbose have no content tests).",
 [A,S,"analyzer/static/default.tmpl","analyzer/static/verbose.tmpl"],[("three independent aggregations of the same traversal",A+": GetCapabilityInfo, GetCapabilityStats, GetCapabilityCounts"),("output selection and templates",S)],obs=["stdout of the CLI in every output mode"])
p("C07","Graph output is exactly the subgraph of capability paths, as valid DOT",
 "Graph output contains a call edge if and only if that edge lies on some call chain, allowed by the capability map, from a function of a queried package to a function with a capability in the requested set, and an edge from a function to a capability if and only if the function is on such a chain and has that capability. When a capability set is given the output is the union of the graphs of the individual capabilities of the set and mentions no other capability. The text is always a well-formed DOT digraph whose quoted node names read back as the function names, whatever characters appear in type arguments or struct tags.",
 ["programs","configurations"],"all programs, capability maps and capability-set expressions",
 "TestGraph looks for a handful of fixed lines; no test parses the output, filters with overlapping capabilities, or has unusual names.",
 [A,G],[("intersection of forward and backward searches",A+": CapabilityGraph, searchForwardsFromQueriedFunctions"),("filter by capability",G+": graphOutput"),("quoting of node names",G+": graphBuilder.Edge")],obs=["stdout with -output=graph","callbacks of the graph API"])
p("C08","Capability-set expressions mean what they say",
 "A non-empty capability expression is accepted if and only if it is a comma-separated list of known capability names, each with or without the CAPABILITY_ prefix, either all or none prefixed with a minus sign. An accepted positive list denotes exactly the listed capabilities, a negated list denotes exactly all the others, and the empty expression denotes every capability; order and repetition do not matter. A rejected expression is reported as an error (exit status 2) and never treated as some other set.",
 ["inputs"],"all strings",
 "The unit test has a dozen fixed strings.",
 [G,CL],[("parser",G+": NewCapabilitySet"),("membership",G+": CapabilitySet.Has")],obs=["result of parsing and membership for every capability","exit status and graph of the CLI"])
p("C09","Analysis is deterministic and independent of history",
 "Running the same command on the same source gives byte-identical JSON, machine, default, verbose and compare output, and the same set of graph lines, in every process and regardless of scheduling, hash seeds, the order in which packages are listed, and the directory the module is checked out in. Analysing the same loaded packages again in one process, in any sequence of modes, gives the results a fresh process gives.",
 ["schedules","histories","configurations"],"all programs, all repetitions, all sequences of analyses in one process, all GOMAXPROCS values and package orders",
 "Every test runs each analysis once per load and compares after sorting or with regular expressions.",
 [A,U,R,L],[("sorting of BFS queues, edges and results",A+", "+U+": byFunction, byCaller, byCallee"),("in-place AST rewriting that must be idempotent",R)],state=[("pkgs syntax trees","modified in place by an analysis",R)],obs=["stdout bytes of repeated runs","library results of repeated calls"])
p("C10","Comparison with a baseline is exact",
 "Comparing against a baseline reports a difference, and exits with status 1, if and only if the sets of (package, capability) pairs of the baseline and of the current analysis at the chosen granularity (packages by default, functions, or packages on call paths) are different; otherwise it exits 0 with no output. Every pair only in the current analysis is announced exactly once as new, every pair only in the baseline exactly once as no longer present, with the right name and capability, and nothing else is announced. A baseline written by the tool for unchanged source with the same options never shows a difference, and an unreadable or malformed baseline, or a wrong number of arguments, is an error (exit status 2), never \"no difference\".",
 ["inputs","histories","configurations"],"all baselines, all edits of the program between the runs, all granularities and path options",
 "TestCompare has three fixed pairs.",
 [C,S],[("keyed maps and set difference",C+": populateMap, diffCapabilityInfoLists"),("error and exit-status mapping",S+": RunCapslock; "+CL+": main")],obs=["exit status and stdout of -output=compare"])
p("C11","Capability maps: parsing, precedence and overriding",
 "A function is categorised by the first of these that applies: a cgo suffix, an entry for the function, an entry marking it unanalysed, an entry for its package; an entry with capability UNSPECIFIED counts as an entry and means the function is analysed as usual. Entries of a user map, including ignored edges, take effect and override built-in entries for the same key, all other built-in entries stay in force, and with the built-in map disabled only the user's entries are in force. Map text is read completely or rejected with an error naming the line: malformed lines, unknown keywords or capabilities, duplicate keys and read failures at any point never yield a classifier, while comments and blank lines are ignored; excluding unanalysed functions yields a classifier that never answers UNANALYZED.",
 ["inputs","configurations","fault_sequences"],"all map texts, all interleavings of built-in and user entries, read errors at every byte position, all function and package names",
 "The unit tests use two short well-formed maps and no malformed ones, no ignored edges, and no failing readers.",
 [I],[("line parser",I+": parseCapabilityMap"),("merge",I+": LoadClassifier"),("precedence",I+": FunctionCategory"),("ignored edges",I+": IncludeCall")],state=[("internalMap","the built-in map, shared by the whole process",I)],obs=["classifier answers for functions and call edges","CLI reports with -capability_map and -disable_builtin"])
p("C12","Independent analyses do not interfere",
 "Analyses and classifiers used concurrently from several goroutines on separately loaded packages are free of data races and invalid memory use, and each gives the result it gives when run alone. No sequence or interleaving of loading custom maps, deriving classifiers and running analyses changes how the default classifier, or any previously obtained classifier, categorises functions and calls.",
 ["schedules","histories"],"all interleavings of concurrent analyses and classifier operations",
 "All tests are sequential and never look at a classifier after another was derived from it.",
 [I,A,L],[("copying instead of mutating maps",I+": LoadClassifier, ClassifierExcludingUnanalyzed"),("lazily initialised standard-library list",L+": standardLibraryPackages")],state=[("internalMap","shared built-in map",I),("standardLibraryPackagesMap","lazily filled package list",L)],obs=["race detector and checkptr reports","results of concurrent and sequential runs"])
p("C13","Privileged standard-library operations are classified by what they do",
 "With the built-in map, a function that only calls one exported standard-library operation is reported with the capability that follows from what the operation is documented to do. Operating on files and directories, through package os, its File methods, path/filepath, io/ioutil or functions of other packages that open files by name, gives FILES; using sockets or resolving names, through net, net/http, or the dialling and listening functions of other packages, NETWORK; starting programs EXEC; reading process or system state (environment, identifiers, directories, host name, users, network interfaces) READ_SYSTEM_STATE; changing it (environment, working directory, signal handling) MODIFY_SYSTEM_STATE; finalizers, breakpoints, limits and profiles of the Go runtime RUNTIME; system calls through package syscall SYSTEM_CALLS; signalling and waiting for processes OPERATING_SYSTEM; and reflection that can create or replace values of any type or call functions REFLECT. Purely computational operations (arithmetic, string, time, encoding, compression, hashing, container, synchronisation and formatting of basic values, parsing of addresses and paths) are reported with none of FILES, NETWORK, EXEC, READ_SYSTEM_STATE, MODIFY_SYSTEM_STATE, SYSTEM_CALLS and OPERATING_SYSTEM.",
 ["inputs","programs"],"all exported operations of the standard library; the monitored set is a large table of one-call programs whose system calls are really observed when they run",
 "TestInteresting checks about ten names against the map; nothing relates the map to what the functions do.",
 [M,I],[("built-in capability map",M),("lookup",I+": FunctionCategory")],obs=["JSON report for one-call functions","system calls made when the same functions run"])
p("C14","Code the analysis cannot follow is always flagged",
 "A function that converts an unsafe.Pointer (or a type with that underlying type) to a type other than uintptr (or a type with that underlying type) is reported with UNSAFE_POINTER, one that assigns a reflect.Value (or a struct or array containing one) to a variable, field or element that is not part of a non-escaping local variable is reported with REFLECT (inserting into a map, sending on a channel, passing and returning do not count), one that calls a function without a Go body (assembly or linkname) is reported with ARBITRARY_EXECUTION, and one that calls C is reported with CGO; conversions in package-level initialisers are attributed to package initialisation, and callers of all these inherit the capability. Functions doing none of these, directly or through calls, are not reported with these capabilities because of them; a conversion inside a function literal is attributed to the literal. Disabling built-in analysis removes exactly the findings made by inspecting source code and leaves those of the user map; a function categorised by the map keeps that category only.",
 ["programs","configurations"],"all spellings and positions of such code: aliases, named and generic types, nesting, parentheses, initialisers, closures, methods, any package in the dependency tree",
 "Fixed test packages with a few spellings each.",
 [A,U,M],[("syntax visitor for conversions",U+": visitor.Visit; "+A+": findUnsafePointerConversions"),("SSA scan for stores",A+": getExtraNodesByCapability, "+U+": containsReflectValue"),("functions without bodies",A+": getExtraNodesByCapability"),("cgo suffixes",I+": FunctionCategory")],obs=["JSON report of the CLI"])
p("C15","Special treatment of sort and sync.Once loses and invents nothing",
 "Wherever a call to sort.Sort, sort.Stable, sort.IsSorted, sort.Slice, sort.SliceStable or (*sync.Once).Do occurs, and however its receiver and arguments are written, the enclosing function is reported with every capability of the comparison, swap, length or callback functions that call invokes, and of all function calls needed to evaluate the receiver and arguments (with the built-in map, a call the tool leaves as it stands may be reported as UNANALYZED instead). When such a call is a plain statement in a block, case or labelled statement, and for sort.Slice and Once.Do its receiver and data arguments call no function, then capabilities of sort.Interface implementations or callbacks passed only at other call sites are not attributed to it. Calls to other functions or types of the same names are not affected.",
 ["programs"],"all syntactic contexts and argument forms of these calls",
 "One test package with a fixed set of forms, all checked in one direction.",
 [R,U],[("statement rewriting",R+": rewriteCallsToSort, rewriteCallsToOnceDoEtc"),("matching and side-effect test",U+": methodMatcher, packageFunctionMatcher, mayHaveSideEffects"),("hand-made type information for new syntax nodes",R+": constructTypeAndValue")],obs=["JSON report of the CLI","execution of the same programs","SSA sanity checker over rewritten code"])
p("C16","The analysed files are those the go command would build",
 "With any combination of build tags, operating system and architecture settings, the functions that are reported come exactly from the files that go build would compile with the same settings, and the report's list of ignored files for each package is exactly the list the go command reports as ignored. Without these settings the tool follows the environment of the go command.",
 ["configurations","programs"],"all tag lists, GOOS and GOARCH values, build-constraint expressions and file-name suffixes",
 "One test package with one tag.",
 [L,CL],[("load configuration",L+": LoadPackages"),("ignored files",L+": collectPackageInfo"),("flags",CL)],obs=["JSON report with -buildtags, -goos, -goarch","go list for the same settings"])
p("C17","Errors are reported as errors, and success means a complete report",
 "The command exits 0 only if all requested packages were loaded without any error, in them or in their dependencies, and the complete report was written to standard output. Unknown flags, invalid granularities or capability expressions, unexpected arguments, unknown packages, missing or malformed maps, disabling the built-in map without giving another, and syntax, type or module errors anywhere in the dependency tree make it exit 2 with a message on standard error and nothing on standard output; a write of the report that fails, at whatever point, makes it exit 2 with a message (a comparison that finds a difference exits 1 in any case). Errors in test files, excluded files or packages that are not needed do not matter.",
 ["inputs","fault_sequences","configurations"],"all broken inputs and all points at which writing can fail",
 "No test covers an error path of the command.",
 [CL,S,G],[("error collection",CL+": printErrors, loadPackages"),("exit-status mapping",CL+": main"),("output writing",S+": RunCapslock; "+G+": graphOutput")],obs=["exit status, stdout and stderr of the CLI"])
p("C18","capslock-git-diff reports exactly the capabilities added between revisions",
 "The tool exits 1 if and only if at the chosen granularity some (package or function, capability) pair is present at the second revision and absent at the first; it exits 0 otherwise, and 2 on any error of git, the analyser or its arguments. Each added pair is listed exactly once, under the right capability, with a call path of the second revision, and the summary counts new capabilities and new uses of existing capabilities correctly; removed pairs alone are never listed. When something was added and both revisions are commits, the commits between them are listed; a list of more than a hundred may be abbreviated to the first and last ones and the number of those left out. The analysis uses the files as committed at each named revision, in the same subdirectory, or the working tree for \".\", independent of uncommitted changes and of each other.",
 ["histories","inputs","configurations","fault_sequences"],"all pairs of revisions, all analyser outputs, all failure points of the helper programs",
 "The program has no tests at all.",
 [GD],[("set difference keyed by granularity",GD+": populateMap, diffCapabilityInfoLists"),("covering several keys with one path",GD+": cover"),("temporary clone and checkout",GD+": AnalyzeAtRevision")],obs=["exit status and stdout of capslock-git-diff over scripted analysers and real repositories"])
p("C19","Analysis leaves no trace",
 "Running the analysis never creates, modifies or deletes files in the analysed module, the current directory or anywhere else apart from profiles the user asked for and the go command's own caches, and never runs or initialises code of the analysed packages. Temporary directories made by either command are gone when it finishes, on success and after any error, the current directory and repository state of the user (branch, index, work tree, references) are as before.",
 ["histories","fault_sequences","configurations"],"all runs, including those that fail at any point or fall back to a temporary module",
 "No test looks at the file system after a run.",
 [CL,GD],[("temporary module and its removal",CL+": makeTemporaryModule"),("temporary clone",GD+": AnalyzeAtRevision")],obs=["file-system snapshots before and after each run","system-call traces"])
p("C20","The tool never crashes on valid Go code",
 "For every package set that the go command accepts, every output mode, granularity and option combination completes without a panic, with an exit status that is 0, or 0 or 1 for comparisons.",
 ["programs","configurations"],"all valid Go programs, including unusual but legal constructs",
 "Fixed small packages.",
 [A,U,R,S],[("nil checks for synthetic functions and missing type information",A+", "+U),("panics on unexpected types",R+": statementCallingFunctionObject")],obs=["exit status and stderr of the CLI in every mode","sanity checker diagnostics"])
p("C21","Module and package inventory is exact",
 "The function- and package-granularity reports list exactly the modules with a version among the modules providing the analysed packages and their dependencies, each once with the version the go command lists for it (for a replaced module, the required version), sorted by path. They list exactly the analysed packages and their transitive dependencies that are not part of the standard library, each once, sorted by path, with the base names of the files of the package that build constraints exclude; the default and verbose outputs list the same modules.",
 ["programs","configurations"],"all module graphs: replacements, vendoring, workspaces, versions, test of standard-library packages, all target platforms",
 "No test looks at the inventory.",
 [L],[("collection over the import graph",L+": collectModuleInfo, collectPackageInfo"),("standard library list",L+": standardLibraryPackages")],obs=["moduleInfo and packageInfo in JSON","go list -deps for the same settings"])
p("C22","Packages are analysed at the versions the go command selects",
 "Packages that the current module, workspace, vendor directory or replacements provide are analysed exactly as selected there. If some requested package cannot be listed there, or nothing matches, all requested packages are analysed in a fresh temporary module, independent of any workspace and of the current module, at the versions that go get selects for them, and with the same build tags, operating system and architecture; capabilities and module versions are those of these versions. With -force_local_module the tool exits with status 2 instead, prints no report and fetches nothing, and packages that do not exist anywhere give exit status 2. Relative file names given by the user (capability map, baseline, profiles) refer to the user's current directory in either case.",
 ["programs","configurations","histories"],"all module graphs, workspaces, vendor directories, replacements and orders of requested packages",
 "No test runs the fallback to a temporary module.",
 [CL,L],[("first load and decision to fall back",CL+": run, loadPackages"),("temporary module and go get",CL+": makeTemporaryModule"),("environment of the go command",L+": LoadPackages")],obs=["exit status, capabilities and module versions reported by the CLI with a local module proxy","versions selected by the go command","content of the module cache"])
p("C23","Library analyses follow the caller's classifier, packages and callbacks",
 "An analysis run through the library depends only on what the caller passes in. Whatever classifier is given, a function has the category the classifier answers for its package path and name (for an instance of a generic function, those of the generic function), and a call is followed if and only if the classifier includes that call, so that calls of the same function at different places can be treated differently. Reports, counts, statistics and graphs concern exactly the functions of the queried packages, whether these are all of the loaded packages, some of them, or dependencies. CapabilityGraph calls the node function once for every function on a call chain from a queried function to a function with a capability, the call function once for every caller and callee joined on such a chain, with a call that the classifier includes, and the capability function once for every function on a chain and capability it has; any of them may be nil without affecting the others. With a filter, this is done separately for each capability the filter accepts, the filter being called at most once for a capability. The configuration and the set of queried packages are not modified.",
 ["inputs","programs","configurations"],"all classifiers, sets of queried packages, capability filters and combinations of callbacks",
 "Tests use the built-in classifier or one map, query all loaded packages, and look at single results.",
 [A,G],[("questions to the classifier",A+": getNodeCapabilities, forEachPath, searchBackwardsFromCapabilities, searchForwardsFromQueriedFunctions"),("selection of queried functions",A+": forEachPath, CapabilityGraph"),("filter and callbacks",A+": CapabilityGraph, intermediatePackages")],obs=["results and callback sequences of GetCapabilityInfo, GetCapabilityCounts, GetCapabilityStats, RunCapslock and CapabilityGraph with instrumented classifiers"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
