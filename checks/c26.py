from vlib import cauto
from vlib.fam import DiffFamily

TECHNIQUE = "invariant-based and differential property-based testing: random call histories over automatic objects and alloca blocks"
RULE = ("One to four functions (plain, with narrow parameters, variadic, struct-returning) that call each other and themselves, directly and through pointers, up to four activations deep, "
        "declare arrays, structs, two-dimensional arrays and scalars whose address is taken, and ask for blocks with alloca: constant, sizeof and computed sizes (of narrow, unsigned and "
        "long types; also zero), in statements, conditions, operands of && and ?:, arguments, loops, switch branches and linked lists. Every object is entered in a register when it comes to life: "
        "it must be aligned for its type (alloca: 16) and disjoint from every object alive (of all activations, static data and the heap), is filled with a pattern of its own, verified "
        "while later objects and calls come and go, and verified when its function returns (at the end, from loops, switches and conditions, also with a result computed from it or by a call). "
        "After each outermost call the stack must be back where it was. Traces of values must be those of clang. Non-trivial: an alloca with a computed size or an object alive across a call; distinct by source text.")
ASSUMPTIONS = ["the reference is clang 18 for wasm32 with -fwrapv; both programs run on wasmtime",
               "alloca within the arguments of a variadic call is left out (its block ends with the call)",
               "the stack is large enough for the program"]


class Auto(DiffFamily):
    shrink_budget = 300

    def nontrivial(self, case, tags):
        return bool(tags & {"al-dyn", "call-while-live", "ret-call", "list"})


FAMILIES = [Auto("activations", cauto.auto_case, 1500, 40000, 30)]
