"""C25: intrinsics, SIMD and inline assembly."""
import os

from vlib import core, cvec
from vlib.check import Family
from vlib.fam import DiffFamily

TECHNIQUE = "differential property-based testing: generated vector, intrinsic and inline-assembly programs against clang's own definitions of the same operations; refusal and validity oracles for operands"
RULE = ("simd/scalar: straight-line code whose statements are drawn from the tables of every macro of wasm_simd128.h, wasm.h and sys/intrs.h, nested up to three "
        "deep, over variables and boundary literals of every class, with memory operands in a 64-byte arena; the reference side is clang's wasm_simd128.h and plain "
        "C definitions of the scalar operations; every variable and the arena are compared bit for bit after the run (computed NaNs, whose bits WebAssembly leaves "
        "open, are masked). asm/vasm: inline assembly with locals, tees, blocks, loops, branches, calls, globals, loads and stores, in every form the documentation "
        "gives, next to its meaning in C. objects: vectors in globals, initialisers, structures, unions, arrays, calls, returns, conditional expressions and variable "
        "arguments. operands: one macro call with operands of the right or wrong kind, number or range: lane indexes in range with operands of the declared types must "
        "be accepted, lane indexes out of range or not integer constants must be refused with a diagnostic, and whatever is accepted must be a valid module. "
        "Non-trivial: every distinct program; each macro used is counted in the labels.")
ASSUMPTIONS = ["clang 18's wasm_simd128.h and code generation define the meaning of the vector operations",
               "NaN payloads computed by arithmetic are not compared (WebAssembly leaves them open)",
               "raw inline assembly whose text is ill-typed is the programmer's responsibility and outside the domain"]


class Vec(DiffFamily):
    ref_extra = ("-msimd128",)
    head = cvec.SIMD_HEAD + cvec.CR


class Scal(DiffFamily):
    head = cvec.SCALAR_HEAD + cvec.CR


class Asm(DiffFamily):
    head = cvec.ASM_HEAD


class Obj(Vec):
    head = cvec.OBJ_HEAD


class Operands(Family):
    name, quick, thorough, batch = "operands", 3500, 100000, 50

    def gen(self, s):
        return cvec.operand_case(s)

    def show(self, c):
        return "%s\n/* must be %s */" % (c[0], {True: "accepted", False: "refused", None: "refused or valid"}[c[1]])

    def run(self, ctx, cases):
        return [self.one(ctx, *c) for c in cases]

    def one(self, ctx, src, want):
        sc = ctx.sc
        sc.write("p.c", src)
        r = core.wcpl(ctx.tool, ["-o", "p.wasm", "p.c"], sc.dir, timeout=60)
        err = r.err.decode("latin-1")
        if r.rc == 0:
            p = sc.path("p.wasm")
            d = sc.read("p.wasm")
            os.unlink(p)
            v = core.valid_module(d)
            if v:
                return "accepted, but the module is invalid: " + v.strip()[-300:]
            if want is False:
                return "accepted an operand that has to be refused"
            return None
        if r.rc == 1:
            if ":" not in err or "p.c" not in err and ".h" not in err:
                return "refused without a located diagnostic: " + err[-200:]
            if want is True:
                return "refused a proper call: " + err[-300:]
            return None
        return "compiler ends with %s: %s" % (r.rc, err[-400:])


FAMILIES = [Obj("objects", cvec.obj_case, 3000, 60000), Vec("vasm", cvec.vasm_case, 3000, 60000), Vec("simd", cvec.simd_case, 6000, 120000),
            Scal("scalar", cvec.scalar_case, 4000, 80000), Asm("asm", cvec.asm_case, 5000, 120000), Operands()]
