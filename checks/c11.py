from vlib import cvar
from vlib.fam import DiffFamily

TECHNIQUE = "differential property-based testing: random variadic functions, argument lists and list traversals against clang"
RULE = ("One to three variadic functions (0-2 further parameters, any position of the count; void, arithmetic or struct results) read lists of 0-70 "
        "arguments of every promoted type and of pointers: straight-line per call pattern, in a loop over a signature string, by position (...[i], "
        "WCPL form), through copies of the list (also after the original ended), and by handing the list on to another function; between reads they "
        "call each other and themselves; the argument count va_count() is compared with the true one. Calls are direct, through pointers, nested in "
        "each other's argument lists, conditional and in loops, with arguments of unpromoted types. Traces are compared with clang's. Non-trivial: "
        "some argument is passed; distinct by source text.")
ASSUMPTIONS = ["the reference is clang 18 for wasm32 with -fwrapv; both programs run on wasmtime",
               "at most one argument of a call has side effects, since C leaves their order open"]


class Var(DiffFamily):
    def nontrivial(self, case, tags):
        return bool(tags & {"nargs-1", "nargs-2", "nargs-3", "nargs-4-15", "nargs-16+"})


FAMILIES = [Var("variadic", cvar.var_case, 4800, 100000, 60)]
