import os
import random
import re

from vlib import cdiff, cgen, clit, cmix, core, cvec, wrespell
from vlib.choice import Src
from vlib.check import Family

TECHNIQUE = "round-trip and metamorphic property-based testing: the same sources through binary, object and text forms, with known-byte literals as oracle"
RULE = ("forms: random programs (expressions, control flow, aggregates, constants) are built directly, through a text object, as a text "
        "executable assembled by an independent assembler, and with embedded instead of explicit libraries, and run; outputs of every case "
        "and statuses must agree. literals: programs made of strings with arbitrary bytes, names, integer and floating literals and static "
        "arrays, whose exact bytes the generator knows, must output those bytes in every form. respell: the text of an object (of a random "
        "program or a library module) is spelt differently (space, line ends, line and nested block comments, decimal and hexadecimal "
        "integers, hexadecimal digits, signs, plain, named, hexadecimal and Unicode escapes in strings and names) and must link to "
        "byte-identical programs. Non-trivial: a case with at least one "
        "operation or literal; distinct by source text.")
ASSUMPTIONS = ["wasmtime's WAT assembler and interpreter are correct", "embedded libraries are compared only through programs whose library use is limited to output"]


def build_forms(ctx, src, embedded=True):
    """[(name, ('ok', Run) | (kind, msg))]"""
    import wasmtime
    sc, t = ctx.sc, ctx.tool
    sc.write("p.c", src)
    for n in ("p.wasm", "p.wo", "p.wat", "q.wasm", "e.wasm", "q.wat"):
        if os.path.exists(sc.path(n)):
            os.unlink(sc.path(n))
    res = []

    def fail(r):
        return ("reject" if r.rc == 1 else "crash"), "rc=%s %s" % (r.rc, r.err.decode("latin-1")[:800])

    def finish(name, r, out, asm=False):
        if r.rc != 0:
            res.append((name, fail(r)))
            return
        d = sc.read(out)
        if asm:
            try:
                d = bytes(wasmtime.wat2wasm(d))
            except wasmtime.WasmtimeError as x:
                res.append((name, ("bad text", str(x)[:600])))
                return
            except UnicodeDecodeError as x:
                res.append((name, ("bad text", str(x)[:300])))
                return
        x = core.run_simple(d)
        if x.status == "invalid-module":
            res.append((name, ("invalid", x.detail[:500])))
        else:
            res.append((name, ("ok", x)))
    finish("binary", core.wcpl(t, ["-o", "p.wasm", "p.c"], sc.dir), "p.wasm")
    if res[0][1][0] == "reject":
        return res
    finish("text", core.wcpl(t, ["-o", "p.wat", "p.c"], sc.dir), "p.wat", True)
    r = core.wcpl(t, ["-c", "-o", "p.wo", "p.c"], sc.dir)
    if r.rc:
        res.append(("object", fail(r)))
    else:
        finish("object", core.wcpl(t, ["-o", "q.wasm", "p.wo"], sc.dir), "q.wasm")
        finish("object-text", core.wcpl(t, ["-o", "q.wat", "p.wo"], sc.dir), "q.wat", True)
    if embedded:
        finish("embedded", core.wcpl(t, ["-q", "-o", "e.wasm", "p.c"], sc.dir, libs=False), "e.wasm")
    return res


class Forms(Family):
    name, quick, thorough, batch = "forms", 9000, 80000, 40
    head = ""
    embedded = True

    def gen(self, s):
        return cmix.mixed_case(s)

    def nontrivial(self, case, tags):
        return any(not t.startswith("kind-") for t in tags)

    def show(self, c):
        return (c[0] + "\n/* main: */\n" + c[1]).replace("_@@", "_0").replace("@@", "0")

    def run(self, ctx, cases):
        res = build_forms(ctx, cgen.assemble(cases, self.head), self.embedded)
        if res[0][1][0] == "reject":
            if len(cases) > 1:
                return [r for c in cases for r in self.run(ctx, [c])]
            return ["discard"]
        if any(k != "ok" for _, (k, _) in res):
            if len(cases) > 1:
                h = len(cases) // 2
                return self.run(ctx, cases[:h]) + self.run(ctx, cases[h:])
            return ["; ".join("%s: %s %s" % (n, k, "" if k == "ok" else x) for n, (k, x) in res)]
        ref = res[0][1][1]
        bad = [(n, x) for n, (k, x) in res if (x.status, x.out) != (ref.status, ref.out)]
        if not bad:
            return [None] * len(cases)
        sp0 = cgen.split_output(ref.out)
        sp = cgen.split_output(bad[0][1].out)
        v = [("form %s gives %s, binary %s" % (bad[0][0], cdiff.hexl(sp.get(i)), cdiff.hexl(sp0.get(i)))) if sp.get(i) != sp0.get(i) else None
             for i in range(len(cases))]
        if not any(v):
            if len(cases) > 1:
                return [r for c in cases for r in self.run(ctx, [c])]
            v[0] = "form %s ends with %r, binary with %r" % (bad[0][0], bad[0][1].status, ref.status)
        return v


class Vectors(Forms):
    """intrinsics, vectors and inline assembly"""
    name, quick, thorough, batch = "vectors", 2500, 30000, 40
    head = cvec.ALL_HEAD
    embedded = False

    def gen(self, s):
        return cvec.any_case(s)


class Literals(Family):
    name, quick, thorough, batch = "literals", 8000, 120000, 60

    def gen(self, s):
        return clit.lit_case(s)

    def show(self, c):
        return (c[0] + "\n/* main: */\n" + c[1] + "\nexpected bytes: " + c[2].hex()).replace("@@", "0")

    def run(self, ctx, cases):
        src, exp = clit.assemble_lits(cases)
        res = build_forms(ctx, src, embedded=len(cases) == 1)
        if all(k == "ok" and x.status == 0 and x.out == exp for _, (k, x) in res):
            return [None] * len(cases)
        if len(cases) > 1:
            h = len(cases) // 2
            return self.run(ctx, cases[:h]) + self.run(ctx, cases[h:])
        if res[0][1][0] == "reject":
            return ["rejected: " + res[0][1][1]]
        return ["; ".join("%s: %s" % (n, (x if k != "ok" else "status %r, output %s" % (x.status, x.out[3:].hex()[:400])))
                          for n, (k, x) in res if k != "ok" or x.out != exp or x.status) + "; expected " + exp[3:].hex()[:400]]


LIBMAIN = """#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <time.h>
#include <errno.h>
#include <ctype.h>
#include <locale.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
int cmp(const void *a, const void *b) { return *(const char*)a - *(const char*)b; }
int main(int argc, char **argv)
{
  char b[80]; time_t t; struct tm *p; FILE *f; double d; DIR *dp; struct stat st; int n;
  n = 0; t = 86400LL * argc;
  strcpy(b, "zyx"); qsort(b, 3, 1, &cmp);
  p = gmtime(&t); strftime(b, 60, "%c", p); puts(b); t = mktime(p);
  d = strtod(argv[0], NULL); d = sin(d) + pow(d, 2.5) + exp(d) + tgamma(d) + cbrt(d);
  printf("%g %s %d\\n", d, strerror(errno), toupper(b[0]));
  f = fopen("x", "r"); if (f != NULL) { fscanf(f, "%d", &n); fclose(f); }
  dp = opendir("."); if (dp != NULL) closedir(dp);
  if (stat("y", &st) == 0) remove("y");
  setlocale(LC_ALL, ""); free(malloc(17)); n += open("z", O_RDONLY); n += rand();
  return n + atoi(argv[0]);
}
"""


class Respell(Family):
    """other spellings of the object text: space, comments, numbers, escapes"""
    name, quick, thorough, batch = "respell", 900, 40000, 10

    def gen(self, s):
        k = s.weighted([(3, "mix"), (3, "lit"), (2, "vec"), (2, "lib")])
        s.tag("obj-" + k)
        if k == "mix":
            src = cgen.assemble([cmix.mixed_case(s)])
        elif k == "vec":
            src = cgen.assemble([cvec.any_case(s)], cvec.ALL_HEAD)
        elif k == "lit":
            src = clit.assemble_lits([clit.lit_case(s)])[0]
        else:
            src = s.draw(9999)
        a, b = s.draw(64), s.draw(64)
        return {"kind": k, "src": src, "seed": s.draw(2 ** 30), "lo": min(a, b), "hi": max(a, b) if s.bool() else 64}

    def show(self, c):
        return repr({k: c[k] for k in c if k != "src"}) + "\n" + str(c["src"])

    def key(self, c):
        return repr(c)

    def nontrivial(self, case, tags):
        return True

    def run(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def respelled(self, c, text):
        s = Src(rng=random.Random(c["seed"]))
        n = len(text)
        # only lines of one part of the module change
        lo, hi = text.find("\n", n * c["lo"] // 64), text.find("\n", n * c["hi"] // 64)
        lo = 0 if c["lo"] == 0 else max(lo, 0)
        hi = n if c["hi"] == 64 or hi < 0 else max(lo, hi)
        return text[:lo] + " " + wrespell.respell(s, text[lo:hi]) + "\n" + text[hi:]

    def link(self, ctx, args, lib, out):
        for o in (out,):
            if os.path.exists(ctx.sc.path(o)):
                os.unlink(ctx.sc.path(o))
        t = ctx.tool
        r = core.wcpl(t, ["-q"] + lib + ["-L", t.lib, "-I", t.inc, "-o", out] + args, ctx.sc.dir, libs=False)
        return r, (ctx.sc.read(out) if r.rc == 0 else b"")

    def one(self, ctx, c):
        sc, t = ctx.sc, ctx.tool
        lib = c["kind"] == "lib"
        sc.write("p.c", LIBMAIN if lib else c["src"])
        r = core.wcpl(t, ["-q", "-c", "-o", "p.wo", "p.c"], sc.dir)
        if r.rc:
            return "discard"
        r, a = self.link(ctx, ["p.wo"], [], "a.wasm")
        if r.rc:
            return "discard"
        if lib:
            names = [f for f in sorted(os.listdir(t.lib)) if f.endswith(".wo")]
            f = names[c["src"] % len(names)]
            os.makedirs(sc.path("rl"), exist_ok=True)
            for x in os.listdir(sc.path("rl")):
                os.unlink(os.path.join(sc.path("rl"), x))
            txt = open(os.path.join(t.lib, f), "rb").read().decode("utf-8", "surrogateescape")
            new = self.respelled(c, txt)
            open(os.path.join(sc.path("rl"), f), "wb").write(new.encode("utf-8", "surrogateescape"))
            r, b = self.link(ctx, ["p.wo"], ["-L", sc.path("rl") + "/"], "b.wasm")
        else:
            txt = sc.read("p.wo").decode("utf-8", "surrogateescape")
            new = self.respelled(c, txt)
            sc.write("r.wo", new.encode("utf-8", "surrogateescape"))
            r, b = self.link(ctx, ["r.wo"], [], "b.wasm")
        if r.rc:
            m = re.search(r":(\d+):\d+: ", r.err.decode("latin-1"))
            n = int(m.group(1)) if m else 1
            near = "\n".join(repr(x) for x in new.split("\n")[max(0, n - 3):n + 3])
            return "the respelled object is refused (%s): %s\n%s" % (r.rc, r.err.decode("latin-1")[:800], near)
        if a != b:
            return "the respelled object links to another program (%d and %d bytes)" % (len(a), len(b))
        return None


FAMILIES = [Forms(), Vectors(), Literals(), Respell()]
