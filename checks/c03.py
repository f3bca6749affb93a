from vlib import cdata
from vlib.fam import DiffFamily

TECHNIQUE = "differential property-based testing: random aggregates, initialisers, access paths and copies against clang, memory images compared byte for byte"
RULE = ("Programs over random nested structs, unions, arrays and pointers (global with full, partial, string, address and union "
        "initialisers; local; static): reads and writes through ., ->, [], * and &x[0]+i paths, compound stores to narrow fields, whole "
        "object copies, aggregates returned from functions and changed through pointers, pointer arithmetic, sizeof/offsetof/alignof; "
        "complete byte images of all objects are dumped before and after, and compared with clang's. Non-trivial: the case stores, "
        "copies or initialises an aggregate; distinct by source text.")
ASSUMPTIONS = ["the reference is clang 18 -O0 for wasm32 (ILP32, natural alignment); both programs run on wasmtime",
               "pointer-valued bytes are left out of the image (addresses are not comparable); what they point at is compared instead"]
HIT = {"init", "st-set", "st-op", "st-copy", "st-ret", "st-call", "st-loop"}


class Data(DiffFamily):
    def nontrivial(self, case, tags):
        return bool(tags & HIT)


FAMILIES = [Data("data", cdata.data_case, 8000, 100000, 60, "-O0")]
