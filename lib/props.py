"""The properties, and how each is decided."""
import rules_engine as RE
import rules_effects as EFF
import rules_struct as ST
import rules_kinds as KI
import rules_index as IX
import rules_fail as FA
import rules_loops as LO
import rules_opts as OP

PROPS = {}


def engine_prop(pid, cats, explanation, assumptions, flt=None):
    PROPS[pid] = {
        "cats": cats, "filter": flt, "explanation": explanation,
        "assumptions": assumptions,
        "run": lambda tier: RE.decide(pid, cats, flt),
    }


def struct_prop(pid, fn, explanation, assumptions):
    def run(tier):
        out = EFF.Out(pid)
        fn(out)
        return out.result()
    PROPS[pid] = {"explanation": explanation, "assumptions": assumptions,
                  "run": run}


def also(pid, fn, explanation):
    """A structural rule next to the engine's."""
    p = PROPS[pid]
    run1 = p["run"]

    def run(tier):
        v, k, c = run1(tier)
        out = EFF.Out(pid)
        fn(out)
        v2, k2, c2 = out.result()
        return v + v2, k + k2, dict(c, **c2)
    p["run"] = run
    p["explanation"] += " " + explanation


MODEL = [
    "the ownership annotations (__isl_give/take/keep/null) in the headers and "
    "definitions state the intended contract; callees without annotations are "
    "summarised from their own bodies",
    "loops are unrolled until the abstract states stabilise; values held in "
    "array elements with an unknown index are not tracked",
    "functions listed as not decided are skipped for the stated rule",
]

engine_prop("C01", ["leak", "int-leak"],
            "Path-sensitive abstract interpretation of every function of the "
            "library: each owned reference (the result of an __isl_give "
            "function, an __isl_take argument, a raw allocation, a local "
            "isl_int) must be passed on, stored or released on every path to "
            "every return, including all error paths.", MODEL)
engine_prop("C02", ["double-release", "use-after-release", "release-kept",
                    "release-borrowed", "return-borrowed", "dangling-field",
                    "overwrite-owned", "int-double-clear", "int-reinit",
                    "int-use-cleared", "int-clear-uninit",
                    "overwrite-data", "dangling-data"],
            "Same abstract interpretation: no reference is released twice, "
            "used after it was released or handed over, released when only "
            "borrowed, returned as owned when only borrowed, or left behind "
            "in a field after release.", MODEL)
engine_prop("C03", ["null-deref", "null-param"],
            "Same abstract interpretation with nullness: the result of a "
            "function that may fail, and an argument that may be NULL, is "
            "tested before it is dereferenced or passed to a function that "
            "dereferences it.", MODEL)
engine_prop("C20", ["uninit", "int-use-uninit"],
            "Same abstract interpretation: no local variable or local isl_int "
            "is read before it was assigned.", MODEL)


def object_argument(r, eng):
    """The argument named in the report is an object argument of a function
    that can be called from other files."""
    return r[4] in eng.annotated_args().get(r[1], ())


def settled(r, eng):
    """The function was there when the list of functions that cannot be
    decided was made, or it is visible outside its file."""
    return eng.settled(r[1])


engine_prop("C04", ["null-arg-success"],
            "Same abstract interpretation: every function that is visible "
            "outside its file is analysed "
            "with each object argument NULL in turn; a path that returns "
            "something other than a failure is reported.", MODEL,
            object_argument)
engine_prop("C05", ["err-swallowed", "err-success"],
            "Same abstract interpretation with failure tracking: on every "
            "path on which a callee is known to have failed (it returned "
            "NULL, isl_bool_error, isl_stat_error or isl_size_error), the "
            "function itself has to return a failure; isl_die is a failure "
            "too.", MODEL, settled)
also("C05", FA.unseen, "In addition, a result that may report a failure is "
     "used by every caller, and is tested for being a failure by the callers "
     "that do not return anything.")
engine_prop("C06", ["cow-result", "cow-field", "cow-param"],
            "Same abstract interpretation with sharing: an object that may "
            "have other references (an argument that was not passed through "
            "the copy-on-write function, an object taken out of another one) "
            "is never written to in place.", MODEL, settled)

RES = ["calls through function pointers are resolved by name of the functions "
       "whose address is taken",
       "listed functions (the option parser, the error handler, the debugging "
       "dump functions) are the intended exceptions"]
also("C05", FA.recorded, "Functions without a result that tell their caller "
     "about a failure through an error flag or an emptied field "
     "(rules/recorded.json): they do so after every test that found a "
     "failure.")
also("C03", FA.allocated, "The result of every allocation is compared to "
     "NULL (by the function itself or by one it is handed to) or returned, and "
     "so is every new object that is stored inside another one "
     "(rules/untested.json lists those that need not be, with the reason).")
struct_prop("C10", EFF.globals_,
            "Effect analysis over every function: no write, direct or through "
            "a pointer passed down the call graph, reaches a variable with "
            "static storage.", RES)
struct_prop("C11", EFF.allocs,
            "Effect confinement: only the accounted allocation functions call "
            "the C allocator, and these charge the operation counter.", RES)
struct_prop("C12", EFF.exits,
            "Effect confinement: only the error handler and the command line "
            "parser terminate the process, only printers, dump functions and "
            "the error handler write output.", RES)
struct_prop("C13", EFF.environment,
            "Effect confinement: no function consults the clock, a random "
            "source, the environment or the locale, orders library objects by "
            "address or turns an address into a number.", RES)

STRUCT = ["clang's control flow graphs and record layouts of the configured "
          "build",
          "the exceptions in rules/, each with its reason"]
def c07(out):
    ST.positions(out)
    IX.given_positions(out)


struct_prop("C07", c07,
            "Interprocedural dataflow from the integer parameters of public "
            "functions to array indices and pointer offsets: on every path to "
            "such a use the value has been compared to an upper bound that "
            "excludes the bound itself and, when signed, to a lower bound, in "
            "the function itself or in a function it calls. An element of a "
            "counted array at a position computed from a parameter is only "
            "accessed when its number of elements was found to be large "
            "enough.", STRUCT)
struct_prop("C08", ST.take_restore,
            "Typestate of the fields of an object: a field taken out of an "
            "object (isl_*_take_*, or a function that leaves NULL behind) is "
            "put back on every path on which the object is returned.", STRUCT)
def c14(out):
    ST.destructor_rule(out)
    IX.coverage(out, "C14")


def c15(out):
    ST.copies(out)
    IX.coverage(out, "C15")


struct_prop("C14", c14,
            "For every type that owns something: its destructor drops a "
            "reference, stops while others are left, and releases every "
            "owned field of the record; what references the context is "
            "balanced between constructor and destructor. Loops over the "
            "elements of an object start at the first and end at the last.",
            STRUCT)
struct_prop("C15", c15,
            "For every record type: the duplicating function copies every "
            "field, the equality function compares every field, no field is "
            "copied into a different field, and the hash covers only what the "
            "equality function compares. Loops over elements start at the "
            "first and end at the last.", STRUCT)
struct_prop("C26", ST.api,
            "Every public declaration is defined, its ownership annotations "
            "agree with the definition in type and argument, and the "
            "functions documented to release and return nothing return NULL "
            "on every path.", STRUCT)
struct_prop("C18", IX.counts,
            "Forward must-dataflow of the counts that were compared, with "
            "summaries of the functions that check a position or return a "
            "count: every access to an element of a counted array is only "
            "reached when the count was found to be at least one, or larger "
            "than some index. Accesses that rely on the caller or on a "
            "representation invariant are listed in rules/counts.json with "
            "the weaker guard they still have to have.", STRUCT)
struct_prop("C19", IX.all_elements,
            "For every loop the variable of which is a position of an element "
            "(an index of an array in an object, or an argument of a function "
            "that accesses an element by position): reaching initial values "
            "and must-hold bounds at the access. A loop that starts after the "
            "first element, stops before the last one, or makes larger steps "
            "is reported, unless the elements that are left out are accessed "
            "separately in the same function.", STRUCT)
also("C19", LO.complete, "In addition, loops that go through all elements "
     "(rules/complete.json, derived from the code): natural loops around the "
     "test of the position. Such a loop is only left before the end on paths "
     "on which the function fails, and each iteration looks at its element.")
struct_prop("C24", OP.options,
            "Every function that changes an option of the context, directly "
            "or through its accessor: forward dataflow of the options that "
            "have a changed value and of the variables that hold the old "
            "one; no changed option may reach a return. Nothing but what the "
            "user calls for the purpose clears the recorded error, the abort "
            "request or the operation count. Each option's setter writes the "
            "field its getter reads.", STRUCT)
struct_prop("C17", KI.kinds,
            "Forward dataflow of the set of possible kinds of each tagged "
            "object, with summaries of callees (which kinds a function needs, "
            "what its result says about the kind of an argument, the kind of "
            "what it returns): every access to a member of the union is only "
            "reached with the kinds that have this member.", STRUCT)
