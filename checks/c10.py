import os

from vlib import cgen, clit, cmix, core, crespell
from vlib.check import Family

TECHNIQUE = "metamorphic property-based testing: generated programs against respelled, macro-abstracted and conditionally wrapped texts of the same meaning"
SECS = 20


def source(s):
    k = s.draw(4)
    if k == 0:
        s.tag("src-lit")
        return clit.assemble_lits([clit.lit_case(s)])[0]
    s.tag("src-mix")
    return cgen.assemble([cmix.mixed_case(s)])


class C10(Family):
    batch = 20
    shrink_budget = 300

    def key(self, c):
        return c["new"]

    def nontrivial(self, c, tags):
        return c["old"] != c["new"]

    def show(self, c):
        p = cgen.PRELUDE
        return "--- original (after the prelude)\n%s\n--- rewritten\n%s" % (c["old"][len(p):] if c["old"].startswith(p) else c["old"], c["new"])

    def compile(self, ctx, txt):
        b = txt.encode("latin-1")
        ctx.sc.write("p.c", b)
        out = ctx.sc.path("o.wo")
        if os.path.exists(out):
            os.unlink(out)
        r = core.wcpl(ctx.tool, ["-c", "-o", "o.wo", "p.c"], ctx.sc.dir)
        if r.rc:
            return None, r
        return ctx.sc.read("o.wo"), r

    def run(self, ctx, cases):
        res = []
        for c in cases:
            a, r = self.compile(ctx, c["old"])
            if a is None:
                res.append("discard")
                continue
            b, r = self.compile(ctx, c["new"])
            if b is None:
                res.append("rewritten program refused: %s" % r.err.decode("latin-1")[:600])
            elif a != b:
                res.append(self.differ(a, b))
            else:
                res.append(None)
        return res

    def differ(self, a, b):
        x, y = a.decode("latin-1").split("\n"), b.decode("latin-1").split("\n")
        for p, q in zip(x, y):
            if p != q:
                return "another program: %r instead of %r" % (q[:200], p[:200])
        return "another program: %d lines instead of %d" % (len(y), len(x))


class Respell(C10):
    name, quick, thorough = "respell", 4500, 60000

    def gen(self, s):
        src = source(s)
        return {"old": src, "new": crespell.respell(s, src)}


class Macros(C10):
    name, quick, thorough = "macros", 5500, 60000

    def gen(self, s):
        src = source(s)
        if s.bool(1, 3):
            src = crespell.with_exits(s, src)
        return {"old": src, "new": crespell.macroise(s, src, 1 + s.draw(7))}


class Conds(C10):
    name, quick, thorough = "conditionals", 4000, 60000

    def gen(self, s):
        src = source(s)
        return {"old": src, "new": crespell.conditionals(s, src, 1 + s.draw(5))}


class All(C10):
    name, quick, thorough = "combined", 2500, 60000

    def gen(self, s):
        src = source(s)
        new = crespell.macroise(s, src, s.draw(5))
        new = crespell.respell(s, new, eol=False)
        return {"old": src, "new": new}


NESTED = """#include <stdio.h>
int f(int x) { return x + 1; }
#define IN(x) (f(x))
#define OUT(f) (IN(f))
int main(void) { return OUT(3) == 4 ? 0 : 1; }
"""


def nested_capture():
    """a name in a used macro's body is not a parameter of the macro that uses it"""
    t = core.build("plain")
    sc = core.Scratch()
    sc.write("p.c", NESTED)
    r = core.wcpl(t, ["-c", "-o", "o.wo", "p.c"], sc.dir)
    sc.write("q.c", NESTED.replace("OUT(3)", "f(3)").replace("OUT(f) (IN(f))", "OUT(g) (IN(g))"))
    r2 = core.wcpl(t, ["-c", "-o", "p.wo", "q.c"], sc.dir)
    bad = r2.rc == 0 and (r.rc != 0 or not os.path.exists(sc.path("o.wo")))
    return "#define OUT(f) (IN(f)) captures f of the body of IN" if bad else None


PROBES = {"nested-macro-capture": nested_capture}
FAMILIES = [Respell(), Macros(), Conds(), All()]
RULE = ("a random program (expressions, control flow, aggregates, constants, literals with arbitrary bytes) is rewritten and both texts are compiled to objects, which must be equal byte for byte. "
        "respell: every token separation, literal spelling (base, escapes, float notation, string splitting), line splices anywhere, comments, line ends. macros: in a third of the cases blocks first become do ... while (0) statements left by break or continue; then parenthesised "
        "sub-expressions, calls, constants and compound statements are replaced by object-like, function-like, variadic and do-while macros with sub-expressions as arguments, repeatedly, so that macros use "
        "macros. conditionals: top-level forms are wrapped in nested conditional blocks whose skipped parts hold arbitrary text. combined: macros, then respelling. Non-trivial: the text changed.")
ASSUMPTIONS = ["a macro argument is one unit, as documented, so parentheses around it are not needed"]
