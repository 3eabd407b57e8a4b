"""What is claimed: the properties in the words of a user of the library.
mkdocs.py turns this table into properties.jsonl and MANIFEST.json."""

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, reason=reason))


ENGINE_NOTE = (
    "Path-sensitive abstract interpretation of every function with "
    "interprocedural summaries; reports name the function, line and path. "
    "Trusted: the clang front end, the ownership annotations as the statement "
    "of intent, and loop and array abstraction. Functions the abstraction "
    "cannot follow are listed in rules/exclusions.json and in the evidence as "
    "not decided.")

prop("C01", "Nothing is leaked on any path, including failure paths",
     "Every object reference, block of memory and arbitrary precision integer "
     "that a library function acquires, or takes over from its caller, is on "
     "every path through that function released, returned, or handed to a new "
     "owner. In particular this holds on the paths taken when an allocation or "
     "any other operation fails part way.",
     ["inputs", "fault_sequences"],
     "for every function, every path, and every combination of failing calls",
     "The tests never make an allocation or sub-operation fail, so the error "
     "paths of nearly all functions are not executed at all.",
     ["isl_map.c", "isl_aff.c", "isl_polynomial.c", "isl_schedule_tree.c",
      "isl_ast_graft.c", "isl_tab.c", "isl_list_templ.c"],
     [("ownership annotations __isl_give, __isl_take, __isl_keep",
       "include/isl/ctx.h"),
      ("error: labels releasing what the function owns", "isl_map.c")],
     "path-sensitive ownership dataflow (typestate) over clang CFGs",
     ENGINE_NOTE)
prop("C02", "Nothing is released twice, too early, or by a non-owner",
     "On every path through every library function, no object, block of memory "
     "or arbitrary precision integer is released twice, is used after it was "
     "released or handed over, or is released or returned as owned while it "
     "was only borrowed. A caller's object that a function only borrows is "
     "never released by that function, whether it succeeds or fails.",
     ["inputs", "fault_sequences"],
     "for every function, every path, and every combination of failing calls",
     "Double releases and uses after release sit on paths that need a failing "
     "call or an unusual shape of input; the tests reach a few of them.",
     ["isl_map.c", "isl_aff.c", "isl_schedule_tree.c", "isl_ast_graft.c",
      "isl_map_simplify.c", "isl_multi_templ.c"],
     [("ownership annotations", "include/isl/ctx.h"),
      ("reference counting: isl_*_copy, isl_*_free", "isl_map.c")],
     "path-sensitive ownership dataflow (typestate) over clang CFGs",
     ENGINE_NOTE)
prop("C03", "A missing object or failed result is never dereferenced",
     "A library function never dereferences a null pointer: the result of an "
     "operation or allocation that can fail, and an argument that may be null, "
     "is tested before it is accessed or before it is passed to a function that "
     "accesses it without a test of its own.",
     ["inputs", "fault_sequences"],
     "for every function, every path, and every combination of failing calls",
     "Failing operations and null arguments are not part of the tests.",
     ["isl_map.c", "isl_aff.c", "isl_polynomial.c", "isl_ast_codegen.c",
      "isl_scheduler.c", "isl_tab.c"],
     [("null tests after every operation that can fail", "isl_map.c")],
     "path-sensitive nullness dataflow with interprocedural summaries",
     ENGINE_NOTE)
prop("C04", "A missing argument makes the result a failure",
     "A public function that is handed NULL for an object argument - the "
     "result of an earlier operation that failed - and whose result depends "
     "on that argument returns a failure itself (NULL, isl_bool_error, "
     "isl_stat_error or isl_size_error), and never an ordinary result. A chain "
     "of operations therefore needs only one test, at its end.",
     ["inputs", "fault_sequences"],
     "for every public function, every object argument and every path",
     "There is no test that passes NULL to more than a handful of functions.",
     ["isl_map.c", "isl_aff.c", "isl_val.c", "isl_space.c", "isl_union_map.c",
      "isl_schedule_node.c", "isl_ast.c"],
     [("NULL tests at the start of public functions", "isl_map.c"),
      ("isl_bool_error, isl_stat_error, isl_size_error",
       "include/isl/ctx.h")],
     "path-sensitive nullness and failure dataflow", ENGINE_NOTE)
prop("C05", "A failure is never turned into an answer",
     "If an operation performed inside a library function fails (it returns "
     "NULL, isl_bool_error, isl_stat_error or isl_size_error, or an error is "
     "raised with isl_die), then the function itself reports failure to its "
     "caller: a failed predicate is not taken to be true or false, a failed "
     "callback or sub-computation is not dropped from the result, and no "
     "partial result is returned as if it were complete.",
     ["inputs", "fault_sequences"],
     "for every function, every path, and every combination of failing calls",
     "The tests never make a sub-operation fail; a swallowed failure shows up "
     "as a wrong answer only when memory or the operation limit runs out.",
     ["isl_map.c", "isl_aff.c", "isl_constraint.c", "isl_convex_hull.c",
      "isl_union_map.c", "isl_schedule_node.c", "isl_val.c",
      "isl_ast_build_expr.c"],
     [("if (r < 0) tests on isl_bool, isl_stat and isl_size results",
       "isl_map.c"),
      ("isl_die with the action to take", "include/isl/ctx.h")],
     "path-sensitive failure-propagation dataflow (ghost failure state)",
     ENGINE_NOTE)
prop("C06", "Objects are values: other references never see a change",
     "No library function modifies an object that may have other references. "
     "An argument, or an object reached through an argument, is modified in "
     "place only after it was made unique (isl_*_cow, or a test of the "
     "reference count) or if it was created by the function itself. A copy "
     "kept by the user therefore never changes its value.",
     ["inputs", "histories"],
     "for every function, every path and every sharing pattern of the arguments",
     "Only tests that keep a second reference and look at it again after the "
     "operation could notice; hardly any do, and none for failing operations.",
     ["isl_map.c", "isl_aff.c", "isl_mat.c", "isl_vec.c", "isl_space.c",
      "isl_val.c", "isl_local_space.c", "isl_polynomial.c",
      "isl_schedule_tree.c", "isl_ast_graft.c"],
     [("isl_*_cow functions", "isl_space.c"),
      ("take/restore functions of fields", "isl_map.c")],
     "path-sensitive sharing (uniqueness) dataflow with interprocedural "
     "summaries", ENGINE_NOTE)
prop("C20", "No value is used before it has been given one",
     "No library function reads a local variable or a local arbitrary precision "
     "integer on a path on which nothing has been stored in it, also when an "
     "earlier step on that path failed.",
     ["inputs", "fault_sequences"],
     "for every function and every path, including failure paths",
     "Such reads occur on rarely taken paths and often go unnoticed since the "
     "stale value happens to be harmless.",
     ["isl_map.c", "isl_tab.c", "isl_scheduler.c", "isl_polynomial.c"],
     [("initialisation of locals before branching", "isl_tab.c")],
     "path-sensitive initialisation dataflow over clang CFGs", ENGINE_NOTE)

EFF_NOTE = (
    "Inspects every function body and every call edge of the current tree, "
    "with a small reviewed list of functions that are meant to have the "
    "effect (error handler, option parser, dump functions). Static helpers "
    "called only from those are accepted. Trusted: the clang front end.")
prop("C10", "Contexts are independent: no shared state is ever modified",
     "The library keeps no modifiable state outside the objects and contexts "
     "the user passes in: no variable with static storage duration is ever "
     "written, and the few statically allocated constant objects are never "
     "changed by copying or releasing them. Operations in different contexts "
     "therefore never influence each other.",
     ["schedules", "histories"],
     "for every interleaving of operations in different contexts",
     "The tests use one context and one thread.",
     ["isl_id.c", "isl_options.c", "isl_ctx.c", "isl_ast.c"],
     [("statically allocated isl_id_none with a negative reference count",
       "isl_id.c"),
      ("constant tables", "isl_ast.c")],
     "interprocedural effect (mutation) analysis of static storage", EFF_NOTE)
prop("C11", "All memory is obtained through the accounted allocators",
     "All memory for objects and working storage is obtained through the "
     "allocation functions that charge the operation counter of a context, so "
     "that a limit on the number of operations makes every computation stop "
     "with an error. No other library function calls the C allocation functions "
     "for anything but small string copies and the context and its options.",
     ["inputs", "fault_sequences"],
     "for every allocation made by any function",
     "Tests cannot enumerate the allocation sites.",
     ["isl_ctx.c", "include/isl/ctx.h"],
     [("isl_malloc_or_die, isl_calloc_or_die, isl_realloc_or_die",
       "isl_ctx.c")],
     "effect confinement over the call graph", EFF_NOTE)
prop("C12", "The library never terminates the process or prints on its own",
     "Apart from the error handler acting on the user's choice of error "
     "behaviour and the command line option parser, no library function "
     "terminates the process. Apart from these, printers acting on a file the "
     "user supplied and the debugging dump functions, no library function "
     "writes any output.",
     ["inputs", "programs"],
     "for every function and every path",
     "Tests do not reach the internal failure paths on which such calls sit.",
     ["isl_ctx.c", "isl_arg.c", "isl_printer.c", "isl_stream.c"],
     [("isl_handle_error", "isl_ctx.c"), ("isl_die", "include/isl/ctx.h")],
     "effect confinement over the call graph", EFF_NOTE)
prop("C13", "Results depend only on the inputs and the options",
     "No library function consults the clock, a random source, the environment, "
     "the locale or the identity of the process, and none orders library "
     "objects by their addresses or turns an address into a number that can "
     "influence a result.",
     ["inputs", "histories", "configurations"],
     "for every function and every run",
     "A test passes as long as the answer is right on the machine at hand.",
     ["isl_id.c", "isl_sort.c", "isl_map.c", "isl_hash.c"],
     [("deterministic sort and comparison functions", "isl_sort.c"),
      ("hashes of contents", "isl_hash.c")],
     "effect confinement over the call graph and expression queries",
     EFF_NOTE)

STRUCT_NOTE = (
    "Inspects every function of the kind in question in the current tree, "
    "following calls to helpers. Exceptions are listed under rules/, each with "
    "its reason. Trusted: the clang front end.")
prop("C07", "Positions and ranges given by the caller are checked before use",
     "A public function that takes a position, or a first position and a "
     "count, compares it to the size of the object it refers to before it uses "
     "it to address memory, on every path: an out of range position, including "
     "a negative one and the one just past the end, makes the function fail "
     "instead of accessing memory outside the object.",
     ["inputs"],
     "for every integer argument of every public function and every value",
     "The tests use valid positions, apart from a handful.",
     ["isl_map.c", "isl_space.c", "isl_local_space.c", "isl_aff.c",
      "isl_mat.c", "isl_vec.c", "isl_list_templ.c", "isl_multi_templ.c"],
     [("isl_space_check_range and its callers", "isl_space.c"),
      ("check_row, check_col", "isl_mat.c"),
      ("isl_list_templ check_index", "isl_list_templ.c")],
     "interprocedural taint dataflow from integer parameters to indices with "
     "required comparisons on every path", STRUCT_NOTE)
prop("C08", "What is taken out of an object for modification is put back",
     "When a function temporarily takes a component out of an object in order "
     "to modify it without a copy, it puts the component back on every path on "
     "which the object lives on. No object returned to the user misses a "
     "component.",
     ["inputs", "fault_sequences"],
     "for every function that takes a component out, and every path",
     "The object only misses the component on paths the tests do not take.",
     ["isl_multi_templ.c", "isl_pw_templ.c", "isl_aff.c", "isl_polynomial.c",
      "isl_schedule_tree.c", "isl_ast.c", "isl_list_templ.c"],
     [("isl_*_take_*, isl_*_restore_*", "isl_take_restore.c")],
     "typestate of object fields over all CFG paths", STRUCT_NOTE)
prop("C14", "Releasing the last reference releases everything, exactly then",
     "Releasing an object drops one reference. Only when it was the last one "
     "is the object torn down, and then every component that the object owns "
     "and its reference to the context are released. A new object starts with "
     "one reference, and holds its context alive.",
     ["inputs", "histories"],
     "for every type of object and every component it owns",
     "Leaks of components do not show in the result of a test.",
     ["isl_map.c", "isl_space.c", "isl_aff.c", "isl_tab.c",
      "isl_schedule_tree.c", "isl_ast_build.c", "isl_list_templ.c"],
     [("isl_*_free functions", "isl_map.c"),
      ("isl_ctx_ref, isl_ctx_deref", "isl_ctx.c")],
     "record layout versus destructor, constructor and reference count "
     "analysis", STRUCT_NOTE)
prop("C15", "Copies are complete, and equality and hashing agree",
     "A duplicate made before a modification carries over every component of "
     "the original, each to its own place, so modifying a shared object gives "
     "the same result as modifying an exclusive one. Functions that compare "
     "objects for equality take every component into account, and objects that "
     "compare equal hash the same.",
     ["inputs", "histories"],
     "for every type of object, every component, and every value of it",
     "A forgotten component only shows when a shared object with that "
     "component set is modified, or two objects differ in only it.",
     ["isl_map.c", "isl_schedule_band.c", "isl_ast_build.c", "isl_space.c",
      "isl_ast.c", "isl_fold.c", "isl_polynomial.c"],
     [("isl_*_dup functions", "isl_schedule_band.c"),
      ("isl_*_plain_is_equal, isl_*_get_hash", "isl_aff.c")],
     "record layout versus dup, equality and hash functions, and comparison "
     "of source and target of field copies", STRUCT_NOTE)
prop("C17", "Only the data of its own kind is read from an object",
     "Schedule tree nodes, AST nodes, AST expressions, tokens and undo records "
     "come in several kinds, each with data of its own. The data of one kind is "
     "only accessed after it was established that the object is of that kind: "
     "applying a public function meant for one kind of object to an object of "
     "another kind is reported as an error and never interprets the data of "
     "the one as that of the other.",
     ["inputs", "programs"],
     "for every function, every path and every kind of object",
     "The tests apply each function to objects of the right kind.",
     ["isl_schedule_tree.c", "isl_schedule_node.c", "isl_ast.c",
      "isl_ast_build_expr.c", "isl_ast_graft.c", "isl_input.c",
      "isl_stream.c", "isl_tab.c"],
     [("tests of the type field", "isl_schedule_tree.c"),
      ("isl_ast_node_get_type, isl_ast_expr_get_type", "isl_ast.c")],
     "interprocedural dataflow of the possible tags of tagged unions",
     STRUCT_NOTE)
prop("C18", "Only the elements an object holds are accessed",
     "Lists, unions of pieces, sets of constraints, parameter identifiers, "
     "tuples of expressions, scheduling graphs and the like store their "
     "elements in arrays of which only as many entries are in use as the "
     "object counts. An entry is only accessed after the count was examined "
     "and found to allow it: an operation on an empty or a short object never "
     "reads or writes an entry that is not there.",
     ["inputs", "programs"],
     "for every function and path, and objects with any number of elements",
     "The tests use objects that have the elements the operation expects; an "
     "access to an unused entry often goes unnoticed.",
     ["isl_list_templ.c", "isl_pw_templ.c", "isl_multi_templ.c", "isl_map.c",
      "isl_space.c", "isl_schedule_band.c", "isl_polynomial.c",
      "isl_scheduler.c", "isl_flow.c", "isl_ctx.c", "isl_stream.c"],
     [("loops and tests over n, n_id, n_eq, n_ineq, n_div, n_arg, …",
       "isl_map.c"),
      ("isl_*_list_check_index, isl_*_check_pos", "isl_list_templ.c")],
     "interprocedural must-dataflow of count comparisons", STRUCT_NOTE)
prop("C19", "Operations on collections reach every element",
     "An operation that applies to the elements of an object (the disjuncts of "
     "a set or relation, the constraints and integer divisions of a disjunct, "
     "the pieces of a piecewise expression, the elements of a list or tuple, "
     "the dimensions of a space, the nodes and edges of a schedule graph, the "
     "members of a band) applies to all of them, from the first to the last: "
     "no loop leaves out elements at either end or in between.",
     ["inputs"],
     "for every object with any number of elements",
     "Whether the first or last element was treated only shows if that "
     "element differs from the others in the respect at hand.",
     ["isl_map.c", "isl_aff.c", "isl_list_templ.c", "isl_multi_templ.c",
      "isl_pw_templ.c", "isl_schedule_band.c", "isl_tab.c", "isl_space.c",
      "isl_scheduler.c", "isl_polynomial.c", "isl_flow.c"],
     [("loops over n, n_eq, n_ineq, n_div, n_row, dimensions", "isl_map.c")],
     "reaching initial values and bounds of loop variables", STRUCT_NOTE)
prop("C26", "The public interface is complete and annotated as implemented",
     "Every function declared in a public header is defined by the library, "
     "and the ownership annotations that users and language bindings rely on "
     "agree between every declaration and the definition. Functions that are "
     "documented to always return a null pointer after releasing their "
     "argument do so on every path.",
     ["programs"],
     "for every public function and every declaration of it",
     "The tests call a part of the interface, and C does not check "
     "annotations.",
     ["include/isl/map.h", "include/isl/aff.h", "include/isl/schedule_node.h",
      "isl_multi_macro.h", "interface/generator.cc"],
     [("__isl_export, __isl_give, __isl_take, __isl_keep, __isl_null",
       "include/isl/ctx.h")],
     "declaration and definition cross-check, return value dataflow",
     STRUCT_NOTE)

prop("C24", "A computation leaves the options and limits of its context unchanged",
     "Apart from the functions with which the user sets them, every library "
     "function leaves the options of the context and the limit on the number "
     "of operations as it found them when it returns, on every path, "
     "including those on which an operation fails. It never clears a "
     "recorded error, a request to abort, or the operation count on its own "
     "account. The accessor that reads an option reads what the accessor "
     "that sets it wrote.",
     ["inputs", "fault_sequences"],
     "for every function, every path through it and every option",
     "Some algorithms change an option for a while. A test would have to make "
     "an operation in between fail, and then look at the option.",
     ["isl_sample.c", "isl_ast_codegen.c", "isl_options.c", "isl_ctx.c"],
     [("gbr and gbr_only_first during sampling", "isl_sample.c"),
      ("isl_options_set_coalesce_preserve_locals and others",
       "isl_ast_codegen.c"),
      ("ISL_CTX_GET_INT_DEF, ISL_CTX_SET_INT_DEF", "isl_options.c")],
     "must-restore dataflow and accessor cross-check",
     STRUCT_NOTE)

# ---- not applicable --------------------------------------------------------
RT = ("for every pair of sets and relations",)
na("C40", "Set operations are exact",
   "Union, intersection, difference, projection, application, inverse and "
   "domain or range of integer sets and relations denote exactly the "
   "mathematical result.", ["inputs"], "for all sets and relations",
   "The tests compare a few dozen instances.",
   ["isl_map.c", "isl_map_subtract.c", "isl_union_map.c"],
   [("basic map operations", "isl_map.c")],
   "the result depends on arithmetic over unbounded integers; no sound static "
   "argument in reach relates the constraint matrices to their solution sets")
na("C41", "Lexicographic optimisation is exact",
   "The parametric lexicographic minimum and maximum are exact, piece by piece.",
   ["inputs"], "for all sets and parameters", "A few dozen instances.",
   ["isl_tab_pip.c"], [("parametric integer programming", "isl_tab_pip.c")],
   "correctness of the dual simplex and cutting plane search is an arithmetic "
   "invariant over runtime tableaus")
na("C42", "Computed schedules respect all validity dependences",
   "A schedule computed from dependences orders the source of every validity "
   "dependence before its sink, and coincident members carry no coincidence "
   "dependence.", ["inputs", "schedules"], "for all constraints and options",
   "A few dozen kernels.", ["isl_scheduler.c"],
   [("ILP construction from Farkas' lemma", "isl_scheduler.c")],
   "depends on the solutions of runtime linear programs")
na("C43", "Generated code visits each instance once, in schedule order",
   "The abstract syntax tree generated from a schedule enumerates exactly the "
   "scheduled instances in schedule order for every option.",
   ["programs", "inputs"], "for all schedules and options",
   "A corpus of expected outputs.", ["isl_ast_codegen.c", "isl_ast_build.c"],
   [("recursive generation with executed sets", "isl_ast_codegen.c")],
   "equivalence of the generated loops with the schedule is a semantic "
   "property of the runtime sets")
na("C44", "Dependence analysis is exact",
   "Dataflow analysis reports exactly the last writers of each read, and the "
   "remaining reads as live-in.", ["inputs", "programs"],
   "for all access relations and schedules", "A few programs.", ["isl_flow.c"],
   [("compute_last_source", "isl_flow.c")],
   "a semantic property of the runtime relations")
na("C45", "Printing and parsing round-trip",
   "Parsing the printed form of an object yields an equal object.",
   ["inputs"], "for all objects", "Fixed strings only.",
   ["isl_input.c", "isl_output.c"],
   [("printers and parsers", "isl_output.c")],
   "agreement of the two on all objects is a property of unbounded strings; "
   "the tables they share are covered by other properties")
na("C46", "Simplification preserves meaning",
   "Coalescing, gisting and redundancy removal do not change the denoted set "
   "(within the context).", ["inputs"], "for all sets", "Known regressions.",
   ["isl_coalesce.c", "isl_map_simplify.c"],
   [("constraint reasoning", "isl_coalesce.c")],
   "depends on arithmetic facts about runtime constraint systems")
na("C47", "Transitive closure over-approximates and reports exactness",
   "The computed transitive closure contains the closure and equals it when "
   "reported exact.", ["inputs"], "for all relations", "A few relations.",
   ["isl_transitive_closure.c"], [("path construction",
                                   "isl_transitive_closure.c")],
   "a semantic property of runtime relations")
na("C48", "Polynomial bounds and evaluation are correct",
   "Bounds on quasi-polynomials hold on the whole domain and evaluation is "
   "exact.", ["inputs"], "for all quasi-polynomials", "A few bounds.",
   ["isl_bernstein.c", "isl_range.c", "isl_polynomial.c"],
   [("Bernstein expansion", "isl_bernstein.c")],
   "numeric property of runtime polynomials")
na("C49", "Integer and rational value arithmetic is exact",
   "Operations on values are exact for integers, rationals, infinity and NaN.",
   ["inputs"], "for all values", "A table of examples.", ["isl_val.c"],
   [("isl_val operations", "isl_val.c")],
   "numeric property; a static argument would need a proof of the arithmetic")
na("C50", "Every operation terminates",
   "Every operation terminates when no resource limit is set.",
   ["inputs"], "for all inputs", "Tests only show the sampled inputs finish.",
   ["isl_tab_pip.c", "isl_sample.c"], [("variant of each search",
                                        "isl_sample.c")],
   "no ranking argument is available for the integer searches")
