from vlib import cgen
from vlib.fam import DiffFamily

RULE = ("Functions of 1-6 typed parameters whose bodies evaluate random expression trees (all arithmetic types, all operators, "
        "assignments, increments, calls, casts, sizeof, generic) over parameters, locals, globals, array elements and dereferenced "
        "pointers, called with boundary-biased arguments; every case is distinct source text with at least one operator and is "
        "compared value by value with the same source compiled by clang (ILP32, -fwrapv).")
ASSUMPTIONS = ["the reference is clang 18 for wasm32 with -fwrapv; both programs run on wasmtime",
               "generated programs stay inside the documented subset and avoid undefined behaviour"]
FAMILIES = [DiffFamily("expr", cgen.expr_case, 60000, 600000, 200)]
TECHNIQUE = "differential property-based testing: random typed expressions against clang"
