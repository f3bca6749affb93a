from vlib import cdiff, cgen, cmix, core, cvec
from vlib.check import Family

TECHNIQUE = "metamorphic property-based testing: the same generated program at every optimisation level"
RULE = ("Random programs mixing expressions, control flow, aggregates and constants are compiled without -O and at -O0, -O1, -O2, -O3, "
        "-O9; the output of every case and the final status (normal return, exit from nested calls, abort, division trap) must be the "
        "same at all levels. Non-trivial: the case contains at least one generated operation; distinct by source text.")
ASSUMPTIONS = ["two runs of the same module behave identically (wasmtime, no clock or randomness)"]
LEVELS = [(), ("-O0",), ("-O1",), ("-O2",), ("-O3",), ("-O9",)]


class Levels(Family):
    name, quick, thorough, batch = "levels", 9000, 120000, 60
    head = ""

    def gen(self, s):
        return cmix.mixed_case(s)

    def nontrivial(self, case, tags):
        return any(not t.startswith("kind-") for t in tags)

    def show(self, c):
        return (c[0] + "\n/* main: */\n" + c[1]).replace("_@@", "_0").replace("@@", "0")

    def run(self, ctx, cases):
        src = cgen.assemble(cases, self.head)
        outs = []
        for lv in LEVELS:
            k, x = cdiff.compile_run(ctx.tool, ctx.sc, src, extra=lv)
            outs.append((k, x))
        ks = {k for k, _ in outs}
        if ks == {"reject"}:
            if len(cases) > 1:
                return [r for c in cases for r in self.run(ctx, [c])]
            return ["discard"]
        if ks != {"ok"}:
            if len(cases) > 1:
                h = len(cases) // 2
                return self.run(ctx, cases[:h]) + self.run(ctx, cases[h:])
            return ["verdicts differ: " + "; ".join("%s: %s %s" % (" ".join(l) or "default", k, "" if k == "ok" else x[:200])
                                                    for l, (k, x) in zip(LEVELS, outs))]
        ref = outs[1][1]
        if all(x.status == ref.status and x.out == ref.out for _, x in outs):
            return [None] * len(cases)
        res = []
        sp = [cgen.split_output(x.out) for _, x in outs]
        for i in range(len(cases)):
            bad = [j for j in range(len(LEVELS)) if sp[j].get(i) != sp[1].get(i)]
            res.append("output at %s differs from -O0: %s, not %s" % (LEVELS[bad[0]] or "default", cdiff.hexl(sp[bad[0]].get(i)), cdiff.hexl(sp[1].get(i)))
                       if bad else None)
        if not any(res):
            if len(cases) > 1:
                return [r for c in cases for r in self.run(ctx, [c])]
            res[0] = "final status differs: %s" % [x.status for _, x in outs]
        return res


class Vectors(Levels):
    """intrinsics, vectors and inline assembly"""
    name, quick, thorough, batch = "vectors", 2500, 40000, 50
    head = cvec.ALL_HEAD

    def gen(self, s):
        return cvec.any_case(s)


class Ends(Levels):
    name, quick, thorough, batch = "ends", 700, 8000, 20

    def gen(self, s):
        return cmix.end_case(s)

    def show(self, c):
        return cmix.assemble_end(c)[len(cgen.PRELUDE):]

    def run(self, ctx, cases):
        res = []
        for c in cases:
            src = cmix.assemble_end(c)
            outs = [cdiff.compile_run(ctx.tool, ctx.sc, src, extra=lv) for lv in LEVELS]
            if {k for k, _ in outs} == {"reject"}:
                res.append("discard")
                continue
            d = [(x.status, x.out) if k == "ok" else (k, x) for k, x in outs]
            bad = [j for j in range(len(d)) if d[j] != d[1]]
            res.append("at %s: status %r, %d bytes; at -O0: status %r, %d bytes" % (LEVELS[bad[0]] or "default", d[bad[0]][0], len(d[bad[0]][1]), d[1][0], len(d[1][1])) if bad else None)
        return res


FAMILIES = [Levels(), Vectors(), Ends()]
