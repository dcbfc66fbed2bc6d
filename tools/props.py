NA = {}
NOTE = ("Randomised search with shrinking; every failure is re-run three times before it is reported. "
        "Nothing is proved beyond the cases explored; trusts the reference model in the harness, clang/LLVM 14 and the engine. ")
prop("P01", "IDE/IFDS solver computes the meet over all valid paths",
 "For every program, call graph and distributive problem description, solving yields at every reachable statement exactly the facts reachable along realizable (call/return-matched) interprocedural paths from the seeds, and for each fact exactly the join of the values those paths produce. This includes recursion, several callees per call, calls summarised by a special summary, call-to-return flow, seeds carrying values, several entry points and functions that never return. Facts that no realizable path produces are never reported.",
 ["programs", "inputs", "configurations"],
 "every finite program, any call graph over it, any finite distributive flow and edge functions over it, any seeds at procedure starts, all solver flags",
 "The tests run a handful of concrete analyses on a few dozen fixed programs and compare selected facts; missing or spurious propagation only shows for particular shapes of control flow, recursion, call graph and edge functions.",
 [I+"DataFlow/IfdsIde/Solver/IDESolver.h", I+"DataFlow/IfdsIde/Solver/JumpFunctions.h", I+"DataFlow/IfdsIde/Solver/FlowEdgeFunctionCache.h", I+"DataFlow/IfdsIde/Solver/IFDSSolver.h", I+"DataFlow/IfdsIde/InitialSeeds.h"],
 [("phase I tabulation", "IDESolver::processCall/processExit/processNormalFlow/propagate"), ("end summaries and incoming", "IDESolver endSummary/incoming tables"), ("phase II value propagation", "IDESolver::submitInitialValues/valuePropagationTask/valueComputationTask")],
 "property-based testing: random IR modules, call graphs, flow and edge function tables; oracle is an independent naive fixpoint of the realizable-path equations",
 NOTE)
prop("P02", "Interrupted, resumed and timed solving equals one uninterrupted run",
 "However a solver run is split up - solving until a condition, with a timeout, with asynchronous cancellation, then continuing any number of times - the results once it finishes equal those of a single uninterrupted run, and the returned indication of completion is truthful.",
 ["schedules", "histories", "programs"],
 "every interleaving of interruption points with worklist steps, every program and problem",
 "The tests interrupt a few fixed analyses at a few points; the property quantifies over all interruption points and continuations.",
 [I+"DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h", I+"DataFlow/IfdsIde/Solver/IDESolver.h"],
 [("next()/finalize() protocol", "IDESolverAPIMixin::solveUntil/continueUntil")],
 "property-based testing with generated interruption histories; differential oracle against the uninterrupted run", NOTE)
prop("P03", "Solver result views agree with each other",
 "All ways of reading results - single value, all values at a statement, facts only, full table, JSON, values seen through the statement's successors in LLVM's SSA view, shared or moved-out results - describe the same solution. Querying never alters what a later query returns.",
 ["programs", "histories", "inputs"],
 "every solved problem and every order of queries",
 "Tests query one accessor on fixed programs; disagreement between accessors depends on the particular solution and query order.",
 [I+"DataFlow/IfdsIde/SolverResults.h", I+"DataFlow/IfdsIde/Solver/IDESolver.h", I+"Utils/Table.h"],
 [("SolverResultsBase", I+"DataFlow/IfdsIde/SolverResults.h")],
 "property-based testing: random problems and query histories; oracle is the stored solution table and LLVM's own program order", NOTE)
prop("P04", "Edge functions form a consistent function algebra",
 "For all edge functions obtained by composing and joining the built-in ones (identity, constants, top, bottom, user-defined, from any allocation policy), composing is function composition and joining is a pointwise upper bound when evaluated on every value, equal edge functions evaluate equally, and the join is commutative, associative and idempotent up to evaluation. Copying, moving, caching and destroying them in any order neither leaks, double-frees nor changes what they compute.",
 ["inputs", "histories"],
 "all expressions over the edge-function operators, all lattice values, all orders of copies and destructions",
 "Tests evaluate a few fixed compositions; the laws quantify over all expressions and lifetimes.",
 [I+"DataFlow/IfdsIde/EdgeFunction.h", I+"DataFlow/IfdsIde/EdgeFunctionUtils.h", I+"DataFlow/IfdsIde/EdgeFunctionSingletonCache.h", I+"DataFlow/IfdsIde/EntryPointUtils.h"],
 [("composeWith/joinWith", I+"DataFlow/IfdsIde/EdgeFunctionUtils.h"), ("reference counting and singleton caches", I+"DataFlow/IfdsIde/EdgeFunction.h")],
 "property-based testing: random edge-function terms and lifetimes under ASan; oracle is extensional evaluation", NOTE)
prop("P18", "Containers and set algorithms behave like their mathematical models",
 "Bit-vector sets, stable vectors, two-key tables, equivalence-class maps, adjacency lists, maybe-owning pointers and the generic set algorithms (power set, remove by index, intersection) behave after any history of operations exactly like sets, sequences, maps, relations and owned objects: same elements, sizes, comparisons and hashes of equal values, no element lost, duplicated, leaked or moved in memory when address stability is promised.",
 ["histories", "inputs"],
 "all operation histories on one or several containers, all element types used, all sizes across block boundaries",
 "Tests use a few short operation sequences; wrong growth, swap, hash or aliasing behaviour needs particular sizes and orders.",
 ["include/phasar/Utils/BitVectorSet.h", "include/phasar/Utils/StableVector.h", "include/phasar/Utils/Table.h", "include/phasar/Utils/EquivalenceClassMap.h", "include/phasar/Utils/AdjacencyList.h", "include/phasar/Utils/MaybeUniquePtr.h", "include/phasar/Utils/Utilities.h"],
 [("BitVectorSet positions", "include/phasar/Utils/BitVectorSet.h"), ("StableVector blocks", "include/phasar/Utils/StableVector.h"), ("Table rows/columns", "include/phasar/Utils/Table.h")],
 "property-based testing: model-based operation histories under ASan/UBSan against standard-library models", NOTE)
prop("P19", "The persistent triple store answers every query pattern from what was put",
 "After any sequence of insertions, whatever the names, each of the eight subject/predicate/object patterns returns exactly the inserted triples matching it, also after closing and reopening the store, with or without limit.",
 ["histories", "inputs"],
 "all insertion/query/reopen histories, all names",
 "Tests insert a fixed graph with plain names and try each pattern once.",
 ["include/phasar/DB/Hexastore.h", "lib/DB/Hexastore.cpp", "lib/DB/Queries.cpp"],
 [("six index tables and query dispatch", "lib/DB/Hexastore.cpp"), ("SQL of each pattern", "lib/DB/Queries.cpp")],
 "property-based testing: model-based histories against a set of triples", NOTE)
prop("P14", "Forward and backward CFGs mirror the IR's control flow",
 "For every module, successors, predecessors, edges, start and exit points, branch targets, fall-through successors, return sites, call sites and special-member classification reported by the CFG, ICFG and backward CFG are exactly those of the LLVM IR (with debug instructions skipped if the CFG ignores them, and the already-initialised branch of a static guard left out), predecessor and successor queries are inverse to each other, and the backward CFG is the reversed forward CFG, with or without artificial return nodes.",
 ["programs", "inputs", "configurations"],
 "every verified module, both debug-instruction settings, both backward modes, every function name",
 "Tests look at selected instructions of a dozen small files; mistakes show only for particular shapes (debug instructions at block starts, switches, invokes, dead blocks, names containing codes).",
 ["lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp", "lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp", "lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp", I+"ControlFlow/CFGBase.h"],
 [("successor/predecessor computation", "LLVMBasedCFGImpl::getSuccsOfImpl/getPredsOfImpl"), ("artificial backward returns", "LLVMBasedBackwardCFG")],
 "property-based testing: random modules with arbitrary control flow; every query is compared with a model read off the basic blocks; mangled names built from their parts", NOTE)
prop("P17", "IRDB ids are a stable bijection between numbers and values",
 "For every module, however it is loaded and whatever functions are inserted later, the id of an instruction or global, the value of an id, the printed metadata ids (including function arguments) and the module order agree in both directions; unknown ids and names are answered with nothing; ids survive printing and reloading; malformed or unverifiable text is rejected.",
 ["programs", "histories", "inputs"],
 "every module, every sequence of function insertions, every id and name, every input text",
 "Tests load a few files and check sample ids; id shifts and lookups of odd names depend on the module and history.",
 [I+"PhasarLLVM/DB/LLVMProjectIRDB.h", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp"],
 [("preprocessModule/initInstructionIds/insertFunction", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp"), ("fromMetaDataId", "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp")],
 "property-based testing: random modules and insertion histories against the module's own order; mutated text with LLVM's parser and verifier as the oracle", NOTE)
prop("P15", "The type hierarchy and vtables mirror the classes of the program",
 "For every module with classes, subtypes are exactly the reflexive-transitive closure of inheritance recorded in the type information, vtables list the implementations slot by slot in layout order (primary, then secondary, with holes for non-functions), only classes with a vtable have one, calls through a vtable are recognised as virtual, and hierarchy and vtables survive serialisation, also when the stored data mentions unknown types. Name helpers invert the mangling prefixes.",
 ["programs", "inputs"],
 "every class graph (multiple inheritance, abstract and external classes), every override pattern",
 "Tests look at about a dozen fixed class graphs.",
 ["lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp", "lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp", "lib/PhasarLLVM/ControlFlow/LLVMVFTableProvider.cpp", "lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp"],
 [("constructHierarchy/getSubTypes", "lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp"), ("getVFVectorFromIRVTable", "lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp")],
 "property-based testing: random class graphs emitted as Itanium-ABI IR; the generator's class model is the oracle", NOTE)
prop("P12", "Call graphs contain every call that can happen, and no impossible one",
 "For every program, when it runs, each executed call edge whose call site is reachable from the chosen entry points is an edge of the call graph built by NORESOLVE (direct calls), CHA, RTA, DTA (where documented) and OTF; the callees for virtual calls are those of the class model (CHA: overriders in all subtypes; RTA: of the instantiated ones), indirect calls only go to address-taken functions of a fitting signature, direct calls go to exactly their callee. Callers and callees are inverse relations, only reachable functions are in the graph, and the precise algorithms refine the coarser ones.",
 ["programs", "schedules"],
 "every program, with function pointers in globals, structs and arguments, virtual calls through any base, every entry-point form",
 "Tests check the callees of a few dozen call sites.",
 ["lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp", "lib/PhasarLLVM/ControlFlow/Resolver/*.cpp", "lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp"],
 [("Builder::processFunction", "lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp"), ("resolveVirtualCall", "lib/PhasarLLVM/ControlFlow/Resolver/CHAResolver.cpp")],
 "property-based testing: random programs are executed by a reference interpreter, observed calls must be edges; differential against the generator's class model", NOTE)
prop("P13", "Stored call graphs and alias information reload to the same analysis inputs",
 "For every program, storing a call graph (JSON) and loading it again, into the same or a freshly parsed project, yields the same vertices, callees and callers, also through HelperAnalyses; ids that do not exist are ignored instead of crashing; the DOT output lists exactly the edges; and the call-graph builder's result is exactly the relation that was added.",
 ["programs", "histories"],
 "every call graph (empty, recursive, with function pointers), every order of additions, names that need escaping",
 "Tests reload one graph.",
 ["include/phasar/ControlFlow/CallGraph.h", "lib/PhasarLLVM/HelperAnalyses.cpp"],
 [("CallGraph::deserialize", "include/phasar/ControlFlow/CallGraph.h"), ("HelperAnalyses::getICFG", "lib/PhasarLLVM/HelperAnalyses.cpp")],
 "property-based testing: JSON round trip over random programs; model-based histories for the builder", NOTE)
prop("P16", "Alias sets form an equivalence that covers every pair of equal pointers",
 "For every program and analysis, alias sets are an equivalence relation: each pointer is in its own set, all members share it, alias() says NoAlias exactly for pointers in different sets, the order of queries and lazy or eager computation do not change the answers, introduced aliases and merged alias information give the join of the relations, reachable allocation sites are the allocation sites of the set, and the JSON form reloads to the same sets. Two pointers of one function that hold the same address in some run are never NoAlias (for the CFL analyses: in programs without self-referential aggregates).",
 ["programs", "histories"],
 "every program and every order of queries, introductions and merges",
 "Tests look at a handful of fixed pairs.",
 ["lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp", "lib/PhasarLLVM/Pointer/LLVMBasedAliasAnalysis.cpp"],
 [("LLVMAliasSet::addPointer", "lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp"), ("LLVMAliasSet::mergeAliasSets", "lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp")],
 "property-based testing: relation laws and union-find model over random programs; dynamic pointer equality from a reference interpreter", NOTE)
prop("P07", "Reported constants are the values the program computes",
 "For every program without aliases, whenever the linear constant analysis claims a constant for a variable at a statement, the variable has that value (wrapped to its type) every time execution gets there; executed statements are never TOP for initialised variables; and in straight-line code with calls, values that are linear in constants are recognised exactly, also through calls by value, by reference and through globals, in every calling context.",
 ["programs", "inputs"],
 "every program, integer width and operator, every execution",
 "Tests pin the values of a few dozen fixed programs.",
 ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"],
 [("executeBinOperation", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp"), ("mapFactsToCallee", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h")],
 "property-based testing: random programs run in a reference interpreter; every claimed constant is compared with the value in the execution", NOTE)
prop("P22", "The runtime model runs constructors, entry points and destructors in order",
 "For every module, executing the generated runtime model calls the global constructors by ascending priority (table order for equal priorities), then the selected entry point with main's arguments, and after main the destructors registered with __cxa_atexit in reverse order of registration, each on its object, followed by llvm.global_dtors by descending priority. The generated functions are valid IR, part of the IRDB and the call graph, and recognised as generated. Entry point lists select exactly the named definitions, __ALL__ all external ones.",
 ["programs"],
 "every table of constructors and destructors, every set of static objects, every set of entry points",
 "Tests check pairs of calls in nine fixed modules.",
 ["lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp", "lib/PhasarLLVM/ControlFlow/EntryFunctionUtils.cpp"],
 [("buildModel", "lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp"), ("getEntryFunctions", "lib/PhasarLLVM/ControlFlow/EntryFunctionUtils.cpp")],
 "property-based testing: random modules; the generated model is executed and its call sequence compared with the runtime's rules", NOTE)
prop("P08", "Taint analysis reports every leak, and only real ones where it is exact",
 "For every program with one level of pointers (also in arrays, pointer variables, arguments, results, globals and heap cells, with loops, exceptions, memcpy and indirect calls), when a value that was copied from a source (call result, out-parameter or main's argument, given as configuration or callbacks) reaches a sink argument in an execution, this argument is reported as a leak at this call. In straight-line programs over locals with calls by value and reference nothing else is reported: overwritten or sanitized values are clean, calling contexts are kept apart, and only sink parameters leak.",
 ["programs", "inputs"],
 "every program, configuration and execution",
 "Tests compare the leaks of some forty fixed programs; sanitizers, memcpy, phis and read-only reference parameters are in none of them.",
 ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h", "include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h"],
 [("getSummaryFlowFunction", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp"), ("mapFactsToCaller", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h")],
 "property-based testing: random programs run in a reference interpreter with taint tracking; dynamic leaks must be reported (and, in the exact class, only these)", NOTE)
prop("P09", "Every use of an undefined value is reported",
 "For every program whose cells are locals used by name or through a reference parameter, each instruction that consumes an undefined value in an execution (a load of uninitialised memory, an operand computed from one, an undef operand; also through arguments, results, indirect calls, arrays, exceptions and loops) is reported with that operand, and only consuming instructions are reported. In straight-line programs with calls by value and reference exactly these uses are reported.",
 ["programs"],
 "every program and execution",
 "Tests compare the reports of some twenty fixed programs.",
 ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp"],
 [("getNormalFlowFunction/getRetFlowFunction", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp")],
 "property-based testing: random programs run in a reference interpreter with definedness tracking; dynamic uses must be reported (and, in the exact class, only these)", NOTE)
prop("P10", "Reported type states are the states the streams are in",
 "For every program whose streams are each held by one variable, at each executed instruction the type-state analysis for C stdio reports, for each variable, the state its stream is in (uninitialised, opened, closed, error) or BOT, never another state or nothing; in straight-line code with helpers that open, use or close streams it reports exactly this state, for every function of the modelled API and every order of calls.",
 ["programs", "histories"],
 "every program, every sequence of API calls, every execution",
 "Tests compare selected variables in some twenty fixed programs.",
 ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp"],
 [("TSEdgeFunction/TSConstant", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"), ("getNormalFlowFunction", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp")],
 "property-based testing: random programs run in a reference interpreter that tracks the state of each stream; compared with the analysis at every instruction", NOTE)
prop("P05", "Value domains of shipped analyses are lattices, edge functions obey them",
 "For the value domains the framework ships (LatticeDomain of any type, BinaryDomain, SecureHeapValue, file and OpenSSL type states, the extended taint analysis' EdgeDomain): join is idempotent and commutative (and associative, except for EdgeDomain), top is neutral, bottom absorbs; order, equality and hash of LatticeDomain agree. For all edge functions of the type-state and the extended taint analysis and everything composed and joined from them: f.composeWith(g) maps x to g(f(x)) (a function to bottom may stay at bottom), f.joinWith(g) maps x to nothing above f(x) or g(x), and functions that compare equal map every value alike. BasicBlockOrdering::mustComeBefore(a, b) holds for reachable instructions iff every path from the entry to b passes a.",
 ["values", "edge functions", "control-flow graphs"],
 "every triple of values, every sequence of joins and compositions, every control-flow graph",
 "Tests use the domains only through whole analyses on a few programs, where order-dependent joins go unnoticed.",
 ["include/phasar/Domain/LatticeDomain.h", "include/phasar/Domain/BinaryDomain.h", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h", "lib/PhasarLLVM/Utils/BasicBlockOrdering.cpp"],
 [("EdgeDomain::join", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp"), ("JoinLatticeTraits<LatticeDomain>", "include/phasar/Domain/LatticeDomain.h"), ("TSEdgeFunction, TSConstant", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h")],
 "property-based testing: algebraic laws over random values, random terms of edge functions compared pointwise with what their operands compute, dominance compared with path search", NOTE)
prop("P06", "Intra-procedural monotone solver computes the maximal fixed point",
 "For every monotone framework problem (any flow functions, any merge, std::set and BitVectorSet as lattice values) on every function, IntraMonoSolver's result before each instruction is the maximal fixed point of the data-flow equations over that function's control-flow graph, so for distributive problems the merge over all paths; call-string contexts hold the last k call sites and compare accordingly.",
 ["programs", "problems"],
 "every control-flow graph, every monotone problem, every sequence of pushes and pops",
 "Tests run two problems on a handful of programs and mostly check that the solver terminates.",
 ["include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h", "include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h"],
 [("IntraMonoSolver::solve", "include/phasar/DataFlow/Mono/Solver/IntraMonoSolver.h"), ("CallStringCTX", "include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h")],
 "property-based testing: random problems on random control flow against round-robin iteration of the data-flow equations; call strings against a truncated vector", NOTE)
prop("P24", "The extended taint analysis reports every leak, also of parts of objects",
 "For every program whose cells (scalars, fields of nested structs, globals, also through reference parameters) are named directly, when a value copied from a source reaches a sink argument in an execution without passing a sanitizer, IDEExtendedTaintAnalysis reports this argument at this call, whether strong updates are on or off and whatever is sanitized or overwritten on other paths or other fields. With strong updates on it reports no leak that is absent with strong updates off; nothing is reported that no chain of copies connects to a source.",
 ["programs", "inputs"],
 "every program and execution",
 "Tests compare the leaks of some twenty fixed programs, most of them without loops over sanitizers, memcpy or phis.",
 ["lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/KillIfSanitizedEdgeFunction.cpp", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/AbstractMemoryLocation.cpp"],
 [("getNormalEdgeFunction/getCallFlowFunction", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.cpp"), ("EdgeDomain::join", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/ExtendedTaintAnalysis/EdgeDomain.cpp")],
 "property-based testing: random programs run in a reference interpreter with taint tracking; dynamic leaks must be reported by both variants of the analysis", NOTE)
prop("P25", "Flow-function templates and call mappers are the documented set functions",
 "Every flow function made by FlowFunctionTemplates (identity, generate, transfer, kill, lambda, union, compose, ...) and by the older flow-function classes, and every nesting of them, maps a fact to exactly the documented set of facts, for each container type; mapFactsToCallee, mapFactsToCaller and mapFactsAlongsideCallSite map actual to formal parameters and back (by value, by reference, sret, variadic, indirect calls), return values, globals and the zero fact exactly as their flags and predicates say; strongUpdateStore kills the pointer operand and generates it from the stored value.",
 ["flow functions", "programs"],
 "every nesting of templates, every call site, every flag and predicate, every fact",
 "Tests exercise the templates through whole analyses only.",
 ["include/phasar/DataFlow/IfdsIde/FlowFunctions.h", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"],
 [("FlowFunctionTemplates", "include/phasar/DataFlow/IfdsIde/FlowFunctions.h"), ("mapFactsToCallee, mapFactsToCaller", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h")],
 "property-based testing: random terms over the templates against their documented set functions; the call mappers on random call sites against a direct specification", NOTE)
prop("P26", "Module statistics, instruction order and IR lookups describe the module",
 "GeneralStatisticsAnalysis reports, as numbers, JSON and text, exactly the counts, sums, averages and maxima of the module it ran on (functions, address-taken functions, globals, call sites by kind, allocation sites and allocated types, instructions by kind, uses, operands, predecessors, successors). BasicBlockOrdering::mustComeBefore(A, B) holds exactly if every path from the entry to B passes A. The lookups of LLVMShorthands (n-th instruction, terminator, store, argument; exit points; used globals; heap allocation; owning module; signature matching; module hash) equal a naive search, and LLVMValueIDLess is a strict order in which different ids are never equivalent.",
 ["programs"],
 "every module: every function, instruction, pair of instructions, value",
 "One fixed module checks a handful of the counters; order and lookups are only used by other tests.",
 ["lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp", "lib/PhasarLLVM/Utils/BasicBlockOrdering.cpp", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp", "lib/Utils/Utilities.cpp"],
 [("GeneralStatisticsAnalysis::runOnModule, printAsJson, operator<<", "lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp"), ("mustComeBefore", "lib/PhasarLLVM/Utils/BasicBlockOrdering.cpp"), ("LLVMShorthands", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp"), ("StringIDLess", "lib/Utils/Utilities.cpp")],
 "property-based testing: random modules; the generator's own bookkeeping and naive searches (reachability without an instruction) as oracle", NOTE)
prop("P20", "Path graphs: minimised, reversed and queried graphs spell the same paths",
 "minimizeGraph + createEquivalentGraphFrom and reverseGraph keep exactly the labelled paths of an acyclic graph (reversed for the latter), over every graph type with GraphTraits, and the minimised graph is not larger. The exploded supergraph that PathAwareIDESolver records has a node for exactly the (statement, fact) pairs of the solver's results, and PathSensitivityManager::pathsDagTo(statement, fact) yields an acyclic graph whose root-to-leaf paths are exactly the supergraph paths from a seed to the query (loop-free programs), with and without minimisation; reported paths always exist, start at a seed and end at the query. A PathTracingFilter removes exactly the paths with an erroneous transition and cuts the others where its end filter holds.",
 ["graphs", "programs", "flow problems", "queries"],
 "every labelled acyclic graph, every program and distributive flow relation, every result pair queried",
 "PathTracingTest compares the paths of a dozen fixed programs; the DFA minimiser has one handful of examples.",
 ["include/phasar/Utils/DFAMinimizer.h", "include/phasar/Utils/GraphTraits.h", "include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h", "include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h", "include/phasar/DataFlow/IfdsIde/Solver/PathAwareIDESolver.h"],
 [("minimizeGraph", "include/phasar/Utils/DFAMinimizer.h"), ("reverseGraph", "include/phasar/Utils/GraphTraits.h"), ("ExplodedSuperGraph::saveEdges", "include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h"), ("pathsDagTo", "include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h")],
 "property-based testing: language equality of random labelled DAGs before and after; path DAGs of random IFDS problems against the paths enumerated over the reference exploded supergraph", NOTE)
prop("P21", "Path queries report every executable path and only feasible ones",
 "Z3BasedPathSensitivityManager::pathsTo(statement, fact) reports, for a loop-free program, the control-flow path of every execution that reaches the statement with the fact (and satisfies the user's additional constraint); every reported path exists in the program, returns to the call it came from, is satisfiable under its branch conditions, comes with a model that satisfies its constraint, and there are at most NumPathsThreshold of them (a subset of the unlimited answer).",
 ["programs", "inputs", "queries", "additional constraints"],
 "every loop-free program over integer comparisons of once-assigned variables, inputs and constants; every input; every query",
 "PathTracingTest fixes the paths of about twenty programs; none runs the program to see which paths its inputs take.",
 ["lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp", "lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp", "include/phasar/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitvityManager.h"],
 [("getConstraintFromEdge", "lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp"), ("filterAndFlattenRevDag, filterOutUnreachableNodes, CallStackPathFilter", "lib/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitivityManager.cpp"), ("pathsTo", "include/phasar/PhasarLLVM/DataFlow/PathSensitivity/Z3BasedPathSensitvityManager.h")],
 "property-based testing: random branching programs executed on random inputs; every executed path must be reported, every reported path is re-checked for existence, call balance and feasibility by an independent encoding", NOTE)
prop("P23", "Taint configurations tag exactly the values they name",
 "Whatever way a taint configuration is given (TaintConfigData with functions, members and local variables; psr.* annotations of functions, parameters, variables and members; single values; callbacks), isSource, isSink, isSanitizer and getCategory hold for exactly the values it names: parameters by index, the results of the calls of a function (and of no other use of it), the variable declared at that line, the accesses to that member of that struct. forAllGeneratedValuesAt, forAllLeakCandidatesAt, forAllSanitizedValuesAt, generatesValuesAt, mayLeakValuesAt, sanitizesValuesAt, collect*Facts and makeInitialSeeds give at every instruction exactly what follows from these tags and callbacks, and agree with each other; entries that match nothing are ignored.",
 ["programs", "configurations"],
 "every program, every combination of configuration entries, every instruction",
 "Tests have one configuration with few entries for each of some twenty programs, so entries never interact.",
 ["lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp", "include/phasar/PhasarLLVM/TaintConfig/TaintConfigBase.h", "include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h", "lib/PhasarLLVM/Utils/Annotation.cpp"],
 [("LLVMTaintConfig", "lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp"), ("VarAnnotation, GlobalAnnotation", "lib/PhasarLLVM/Utils/Annotation.cpp")],
 "property-based testing: random C++ programs compiled by clang with random configurations or annotations, tags compared with what the generator named; random tags and callbacks compared with a set model of all queries", NOTE)
prop("P28", "Library summaries: taints pass through libc functions as libc passes them on",
 "For every program that calls libc functions with a summary (mathematics, conversions, copies, searches, formatted and unformatted input and output, time, argz/envz; variadic and with few arguments; directly and via wrappers), a value that a source tainted and that libc copies or converts into an output parameter or the result is reported by IFDSTaintAnalysis at the sinks it reaches, through every pointer to the written object. Parameters that a function does not write stay clean. FunctionDataFlowFacts and LLVMFunctionDataFlowFacts hold exactly the flows that were added, and readFromFDFF keeps exactly those of the module's functions.",
 ["programs", "histories"],
 "every call of a summarized function, every composition of calls; every sequence of additions and lookups",
 "One test calls two functions of the 585 in the table.",
 ["lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp", "lib/PhasarLLVM/DataFlow/IfdsIde/LLVMFunctionDataFlowFacts.cpp", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/FunctionDataFlowFacts.h", "include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFunctionDataFlowFacts.h", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp"],
 [("createLibCSummary", "lib/PhasarLLVM/DataFlow/IfdsIde/LibCSummary.cpp"), ("IFDSTaintAnalysis::getSummaryFlowFunction", "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp"), ("readFromFDFF", "lib/PhasarLLVM/DataFlow/IfdsIde/LLVMFunctionDataFlowFacts.cpp")],
 "property-based testing: random sequences of libc calls, sources and sinks against a table of the C library's data flows written from its documentation; model-based histories for the fact tables", NOTE)
prop("P32", "IR is mapped back to its source, printed and exported faithfully",
 "For every program compiled with debug information, LLVMIRToSrc gives each function, global, local variable, parameter and call its own name, file, line, column and source line, whatever the layout of the files, includes and directories; getSrcCodeInfoFromIR survives its JSON exchange format and equivalentWith holds exactly for the same place in a file of the same name. llvmIRToString, llvmIRToStableString and llvmIRToShortString print a value as LLVM prints it, followed by its id, also while functions are added and after a database of the same module is destroyed. exportICFGAsJson and exportICFGAsDot contain exactly the control-flow, call and return edges of the ICFG, each as often as it exists.",
 ["programs"],
 "every source layout, every value of every module, every ICFG",
 "The tests map a handful of statements of six fixed files and compare two exported graphs.",
 ["lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp", "include/phasar/PhasarLLVM/Utils/LLVMIRToSrc.h", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp", "include/phasar/PhasarLLVM/Utils/LLVMShorthands.h", "lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp", "lib/PhasarLLVM/ControlFlow/LLVMBasedICFGGlobalsImpl.cpp", "include/phasar/ControlFlow/ICFGBase.h"],
 [("getSrcCodeInfoFromIR", "lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp"), ("llvmIRToString", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp"), ("ModulesToSlotTracker", "lib/PhasarLLVM/Utils/LLVMShorthands.cpp"), ("LLVMBasedICFG::exportICFGAsJson", "lib/PhasarLLVM/ControlFlow/LLVMBasedICFG.cpp")],
 "property-based testing: random C++ sources that record the place of everything they contain, compiled by clang with debug information; differential printing against LLVM; exported graphs against edges computed from the IR", NOTE)

prop("P33", "The debug-info type hierarchy mirrors the classes of the program",
 "For every program compiled with complete debug information, DIBasedTypeHierarchy contains exactly the class, struct and union types of the program; isSubType, getSubTypes, subTypesOf are the reflexive-transitive closure of its inheritance relation (through virtual, private and typedef bases, templates, anonymous, local and nested types); getType finds a type by its identifier, getVFTable maps each slot to the function the class declares for it. The dot and JSON forms contain the same types and edges, and a hierarchy whose types have unambiguous names answers all of this identically after printAsJson and reloading, with the same or a freshly parsed module, and is stored again as the same text.",
 ["programs"],
 "every class graph",
 "The tests look up a few types in about twenty fixed class graphs and reload some of them.",
 ["lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp", "lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchyData.cpp", "lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp", "include/phasar/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.h", "include/phasar/PhasarLLVM/TypeHierarchy/LLVMVFTable.h"],
 [("DIBasedTypeHierarchy::DIBasedTypeHierarchy", "lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp"), ("DIBasedTypeHierarchy::getSubTypes", "include/phasar/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.h"), ("DIBasedTypeHierarchy::printAsJson", "lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp")],
 "property-based testing: random class graphs compiled by clang with debug information, every query compared with the generator's graph; print/reload/print round trips", NOTE)
prop("P34", "The command line tool computes what the library computes",
 "For every module (.ll or .bc) and every combination of options, phasar-cli -D prints the report and raw results of exactly the requested analyses, as the library computes them for the given entry points, call-graph and alias analysis, soundness, globals model, taint configuration and solver options - on stdout, or all of them in one new directory under the output directory. Option order and spelling do not matter. The --emit-* options write the type hierarchy, call graph, alias information, statistics and preprocessed IR the library computes; a stored call graph given back replaces the call-graph analysis with the same results. Missing or unusable files, unknown analyses and undefined entry points are rejected with an error message and status 1, never by crashing.",
 ["programs", "configurations", "inputs"],
 "every program and every combination of options",
 "The tests never start the tool; what it does with its options depends on their combination and on the program.",
 ["tools/phasar-cli/phasar-cli.cpp", "tools/phasar-cli/Controller/AnalysisController.cpp", "tools/phasar-cli/Controller/AnalysisControllerInternal.h", "tools/phasar-cli/Controller/AnalysisControllerInternalIDE.h", "lib/PhasarLLVM/HelperAnalyses.cpp"],
 [("main", "tools/phasar-cli/phasar-cli.cpp"), ("AnalysisController::run", "tools/phasar-cli/Controller/AnalysisController.cpp"), ("HelperAnalyses", "lib/PhasarLLVM/HelperAnalyses.cpp")],
 "property-based testing: random modules and command lines; the tool's process output compared with the library put together by hand", NOTE)
