import struct

from vlib import cconst, cdiff, cgen, core
from vlib.check import Family
from vlib.fam import DiffFamily

TECHNIQUE = "differential and metamorphic property-based testing: one constant tree in every context that evaluates constants, against run-time evaluation and clang"
RULE = ("Random constant expression trees (all arithmetic types and operators, casts, sizeof) placed in folded code, static "
        "initialisers, array bounds, enumerators, case labels, macros, conditions, static_assert, each accompanied by the same tree "
        "evaluated at run time from variables; every value is compared with clang's, and static_assert must accept exactly the true "
        "conditions. Non-trivial: the tree has at least one operator; distinct by source text.")
ASSUMPTIONS = ["the reference is clang 18 for wasm32 with -fwrapv evaluating the same tree at run time",
               "&&, || and division by zero are not static expressions in this compiler (they are rejected) and are left out of static contexts"]


class Const(DiffFamily):
    def nontrivial(self, case, tags):
        return any(not t.startswith("ctx-") for t in tags)


class Assert(Family):
    """static_assert accepts true conditions and rejects false ones"""
    name, quick, thorough, batch = "assert", 4000, 40000, 80

    def gen(self, s):
        return cconst.assert_case(s)

    def nontrivial(self, case, tags):
        return bool(tags)

    def show(self, c):
        return "%s\n%s" % (c[2], c[3])

    def run(self, ctx, cases):
        prog = []
        for dl, vx, cx, t in cases:
            g = cgen.G(None)
            prog.append(("void f_@@(void) {\n%s\n  %s ei((%s) != 0);\n}" % (dl, g.emit(cgen.Ex(vx, t, 0)), vx), "  f_@@();"))
        out = cgen.split_output(cdiff.ref_run(ctx.sc, cgen.assemble(prog)).out)
        yes, no = [], []
        for i, (dl, vx, cx, t) in enumerate(cases):
            raw, truth = out[i]
            y, n = [cx if truth else "!(%s)" % cx], [cx if not truth else "!(%s)" % cx]
            if t.kind == "f":
                v = struct.unpack("<d", struct.pack("<Q", raw))[0]
                lit = cgen.flt_lit(v, cgen.DOUBLE)[0] if v == v and abs(v) < 1e308 and (v == 0 or abs(v) > 2.3e-308) else None
            else:
                v = raw - (1 << 64) if t.signed and raw >> 63 else raw
                lit = "(-0x7fffffffffffffffll - 1)" if v == -(1 << 63) else "%d%s" % (v, "ll" if t.signed else "ull")
            if lit:
                y.append("(%s) == (%s)" % (cx, lit))
                n.append("(%s) != (%s)" % (cx, lit))
            yes.append(y)
            no.append(n)
        res = [None] * len(cases)
        self._accept(ctx, yes, list(range(len(cases))), res)
        for i, n in enumerate(no):
            if res[i]:
                continue
            c = n[i % len(n)] if len(n) > 1 and len(cases) > 1 else None
            for x in ([c] if c else n):
                r = self._compile(ctx, "static_assert(%s);\nint main(void) { return 0; }\n" % x)
                if r.rc != 1 or b"static_assert failed" not in r.err:
                    res[i] = "static_assert(%s) must fail: rc=%s %s" % (x, r.rc, r.err.decode("latin-1")[:300])
        return res

    def _compile(self, ctx, src):
        ctx.sc.write("a.c", src)
        return core.wcpl(ctx.tool, ["-c", "-o", "a.wo", "a.c"], ctx.sc.dir)

    def _accept(self, ctx, yes, idx, res):
        src = "\n".join("static_assert(%s);" % x for i in idx for x in yes[i]) + "\nint main(void) { return 0; }\n"
        r = self._compile(ctx, src)
        if r.rc == 0:
            return
        if len(idx) == 1:
            res[idx[0]] = "static_assert of a true condition: rc=%s %s" % (r.rc, r.err.decode("latin-1")[:500])
            return
        h = len(idx) // 2
        self._accept(ctx, yes, idx[:h], res)
        self._accept(ctx, yes, idx[h:], res)


FAMILIES = [Const("const", cconst.const_case, 12000, 150000, 100), Assert()]
