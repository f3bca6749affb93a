"""C28: what the standard headers give."""
import os

from vlib import cdiff, chead, core
from vlib.check import Family
from vlib.fam import DiffFamily

TECHNIQUE = "differential and model-based property-based testing: header constants, types and format macros in generated expressions, formats and include orders, against clang's own headers and tables of the target"
RULE = ("consts: random constant trees over the names of limits.h, float.h and stdint.h, with casts, variables, sizes and members of the named types, in every context that evaluates constants and at "
        "run time, against clang's headers. formats: random printf and scanf calls whose conversions are PRI* and SCN* macros with values at the borders of the named type, neighbours of the scanned "
        "object watched, against a model. names: random lists of standard headers, in any order and repeated, whose constants, types, members and mode tests take the values of the target's tables in "
        "several contexts, whose functions are called (in a branch not taken) with their declared types and must link, and whose assert must stop exactly at the first false condition, or do nothing "
        "under NDEBUG. Non-trivial: a header name is used; distinct by source text.")
ASSUMPTIONS = ["clang 18's freestanding headers for wasm32 define the limits and least types", "long, size_t and pointers have 32 bits; errno, file type, advice and open flags follow WASI as the headers say",
               "the functions are those the headers declared when the table was made"]


class Consts(DiffFamily):
    head = chead.HEAD

    def nontrivial(self, case, tags):
        return any(t.isupper() or t.endswith("_t") for t in tags)


class Fmt(Family):
    """PRI* and SCN* macros"""
    name, quick, thorough, batch = "formats", 6000, 200000, 60

    def gen(self, s):
        return chead.fmt_case(s)

    def show(self, c):
        return "%s\n/* must print:\n%s*/" % c

    def run(self, ctx, cases):
        k, x = cdiff.compile_run(ctx.tool, ctx.sc, chead.fmt_program(cases))
        if k == "ok" and x.status == 0:
            got = x.out.decode("latin-1").split("=\n")[1:]
            if len(got) == len(cases):
                return [None if g == c[1] else "prints %r, expected %r" % (g, c[1]) for g, c in zip(got, cases)]
        if len(cases) == 1:
            return ["%s: %r" % (k, x)]
        h = len(cases) // 2
        return self.run(ctx, cases[:h]) + self.run(ctx, cases[h:])


class Names(Family):
    """headers in any order: numbers, types, declared functions, assert"""
    name, quick, thorough, batch = "names", 2500, 60000, 25

    def gen(self, s):
        return chead.names_case(s)

    def show(self, c):
        return "%s\n/* must print:\n%sand %s */" % (c[0], c[1], "stop at the assertion" if c[2] else "end normally")

    def nontrivial(self, c, tags):
        return bool(tags)

    def run(self, ctx, cases):
        return [self.one(ctx, *c) for c in cases]

    def one(self, ctx, src, want, stop):
        sc = ctx.sc
        sc.write("h.c", src)
        t = ctx.tool
        nd = ["-I", os.path.join(t.inc, "NDEBUG", "")] if "NDEBUG" in src else []
        r = core.wcpl(t, ["-q", "-L", t.lib, *nd, "-I", t.inc, "-o", "h.wasm", "h.c"], sc.dir, libs=False)
        if r.rc != 0:
            return "not accepted: rc=%s %s" % (r.rc, r.err.decode("latin-1")[:800])
        w = sc.read("h.wasm")
        os.unlink(sc.path("h.wasm"))
        v = core.valid_module(w)
        if v:
            return "invalid module: %s" % v
        x = core.run_wasi(w, scratch=sc.dir)
        got = x.out.decode("latin-1")
        if got != want:
            return "prints %r, expected %r (%s)" % (got, want, x.status)
        if stop != (x.status == "trap:unreachable") or not stop and x.status != 0:
            return "ends with %r, expected %s" % (x.status, "a trap" if stop else "exit 0")
        return None


FAMILIES = [Consts("consts", chead.const_case, 3000, 100000), Fmt(), Names()]
