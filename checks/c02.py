from vlib import cflow
from vlib.fam import DiffFamily

TECHNIQUE = "differential property-based testing: random structured control flow against clang"
RULE = ("Functions of nested if/else, for/while/do, switch (dense, gapped, sparse, extreme, character case sets; default anywhere; "
        "fall-through), break/continue/goto/return, shadowing block-scoped variables, address-taken locals, recursion, direct and "
        "indirect calls; every executed step emits a trace value, and the whole trace is compared with clang's. Non-trivial: at "
        "least one control statement; distinct by source text.")
ASSUMPTIONS = ["the reference is clang 18 for wasm32 with -fwrapv; both programs run on wasmtime",
               "loops are bounded by counters that are part of the program"]
CTRL = {"if", "for", "while", "do", "switch", "jumpif", "block", "goto", "break", "continue", "return"}


class Flow(DiffFamily):
    def nontrivial(self, case, tags):
        return bool(tags & CTRL)


FAMILIES = [Flow("flow", cflow.flow_case, 8000, 120000, 60)]
