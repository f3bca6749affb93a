import os
import re

from vlib import cgen, cmod, core, cscale
from vlib.check import Family

TECHNIQUE = ("differential and metamorphic property-based testing: random multi-module programs linked in random arrangements, against the "
             "same program as one translation unit compiled by clang")
RULE = ("Programs of 2-6 modules with headers: exported and static objects, types, macros and functions, the same private names in several "
        "modules, equal string literals, initialisers holding addresses of other modules' objects and functions, calls and stores across "
        "modules, address identity; each linked in a random arrangement (order, sources and .wo/.o/.wat objects and library directory mixed, header extension, "
        "-I directories, WAT or binary output, unused modules and definitions added). Non-trivial: at least one reference "
        "crosses modules; distinct by program and arrangement. The negative family breaks one link of a valid program. scale: "
        "programs in which one or two things are very numerous, long, deep or large (functions, function tables, variables, parameters, cases, nesting, "
        "strings, pointer tables, data, fields, names, stack frames, modules; counts around powers of two up to millions) must print what the "
        "generator knows, built directly, through an object, or as text.")
ASSUMPTIONS = ["the reference is clang 18 -O1 for wasm32 on the same program merged into one translation unit with unique names",
               "header <m> describes module <m> (README: modules are found by their base names); a definition belongs to the module whose header declares it"]


class Arr:
    """how a program is built"""


def arrange(s, g):
    """random arrangement of program g"""
    a = Arr()
    a.ext, a.form, a.dir, a.incl = {}, {}, {}, {}
    for m in g.mods:
        a.ext[m] = s.weighted([(4, ".h"), (1, ".wh"), (1, "")])
        a.dir[m] = s.weighted([(4, "."), (1, "inc1"), (1, "inc2"), (1, "lib1")])
        form = s.weighted([(3, "c"), (2, "wo"), (1, "o"), (1, "wat")])
        if a.dir[m] == "lib1":
            form = s.choice(["lwo", "lo", "lwat"]) if m is not g.main else "wo"
        a.form[m] = form
        s.tag("form-" + form)
    a.hname, a.pat, a.split = {}, {}, {}
    for m in g.mods:
        a.hname[m] = m.name if s.bool(3, 4) else s.choice(["sub.", "h_", "a.b."]) + m.name
        a.pat[m] = s.draw(2)
        # its declarations in two headers
        a.split[m] = s.weighted([(3, 0), (1, 1), (1, 2)])
        if a.split[m]:
            s.tag("split-header")
        if a.hname[m] != m.name:
            s.tag("pragma-module")
        a.srcdir = s.weighted([(3, ""), (1, "src/")])
    a.rt = s.choice(["c", "wo"])
    a.rtx = s.weighted([(3, ".h"), (1, ".wh"), (1, "")])
    order = [m for m in g.mods if not a.form[m].startswith("l")] + [None]
    for j in range(len(order) - 1):
        x = s.int(j, len(order) - 1)
        order[j], order[x] = order[x], order[j]
    a.order = order
    a.out = s.weighted([(3, "wasm"), (1, "wat")])
    a.unused = s.draw(2)
    # definitions nothing refers to
    a.dead = {}
    for m in g.mods:
        t = ""
        for j in range(s.weighted([(2, 0), (1, 1), (1, 2)])):
            t += s.choice(DEAD).replace("@@", "%d_%d" % (m.i, j))
        a.dead[m] = t
    a.unusedform = s.choice(["c", "wo"])
    a.unusedat = s.draw(len(order))
    a.libimpl = s.bool()
    return a


DEAD = ["char ud@@[40] = \"UNUSEDMARK data\";\n",
        "static int uf@@(int x) { es(\"UNUSEDMARK function\"); return x * 3; }\n",
        "int uf@@(int x) { char a[] = \"UNUSEDMARK local\"; es(&a[0]); return x; }\n",
        "struct ud@@ { char *p; struct ud@@ *q; }; struct ud@@ ud@@; struct ud@@ ue@@ = { \"UNUSEDMARK struct\", &ud@@ };\n",
        "static char *us@@ = \"UNUSEDMARK pointer\"; char *ug@@(int n) { if (n > 0) return ug@@(n - 1); return us@@; } char *(*ufp@@)(int) = &ug@@;\n"]
UNUSED = ["""#include "rt"
%s
static char *mk = "UNUSEDMARK"; static int st = 5; int cnt[3] = { 1, 2, 3 }; char *name = "hello";
int unused_fn(int x) { es("hello"); st += x; return st + cnt[0]; }
""", """#include <stdio.h>
#include <math.h>
%s
static double acc9 = 2.5;
double other9(double x) { acc9 += sin(x); puts("UNUSEDMARK module"); printf("%%g\\n", acc9); return acc9; }
"""]


def lay_out(a, g):
    """{path: text}, [(compile steps)], link arguments"""
    files = {}

    def style(m):
        if a.split[m]:
            # the second may include the first
            two = style1(m, a.hname[m])
            return (style1(m, "t_" + m.name) + "\n" + two) if a.split[m] == 1 else two
        return style1(m, a.hname[m])

    def style1(m, n):
        n = n.replace(".", "/")
        if a.dir[m] == ".":
            return '#include "%s"' % (n + (a.ext[m] if a.ext[m] and m.i % 2 else ""))
        return ("#include <%s>" if m.i % 2 or a.dir[m] == "lib1" else '#include "%s"') % n
    for m in g.mods:
        d = {".": "", "inc1": "inc1/", "inc2": "inc2/", "lib1": "lib1/include/"}[a.dir[m]]
        if a.split[m]:
            files[d + "t_" + m.name + a.ext[m]] = cmod.header(m, style, "t_" + m.name, a.pat[m], 1)
            h = cmod.header(m, style, a.hname[m], a.pat[m], 2)
            if a.split[m] == 2:
                h = h.replace("#include <stddef.h>\n", "#include <stddef.h>\n" + style1(m, "t_" + m.name) + "\n", 1)
            files[d + a.hname[m] + a.ext[m]] = h
        else:
            files[d + a.hname[m] + a.ext[m]] = cmod.header(m, style, a.hname[m], a.pat[m])
        files[a.srcdir + m.name + ".c"] = cmod.source(m, style, '#include "rt"') + a.dead[m]
    files["rt" + a.rtx] = cmod.RT_H
    files["rt.c"] = cmod.rt_source()
    steps, link = [], []
    for m in a.order:
        n, f = (m.name, a.form[m]) if m else ("rt", a.rt)
        if f == "c":
            link.append((a.srcdir if m else "") + n + ".c")
        else:
            steps.append(((a.srcdir if m else "") + n + ".c", n + "." + f))
            link.append(n + "." + f)
    for m in g.mods:
        f = a.form[m]
        if f.startswith("l"):
            steps.append((a.srcdir + m.name + ".c", "lib1/" + m.name + "." + f[1:]))
    if a.unused:
        m = g.mods[0]
        files["unused9.c"] = UNUSED[a.unused - 1] % (style(m) if a.unused == 2 else "")
        if a.unusedform == "wo":
            steps.append(("unused9.c", "unused9.wo"))
        link.insert(a.unusedat, "unused9." + a.unusedform)
    return files, steps, link


DIRS = ["-I", "inc1/", "-L", "lib1/", "-I", "inc2/"]


def build(ctx, a, g, drop=()):
    """None, or a message; leaves out.<wasm|wat>"""
    sc = core.Scratch("wl")
    files, steps, link = lay_out(a, g)
    for d in ("inc1", "inc2", "lib1/include"):
        os.makedirs(sc.path(d))
    for p, t in files.items():
        sc.write(p, t)
    return sc, files, steps, link


def compile_(ctx, sc, steps):
    for src, out in steps:
        r = core.wcpl(ctx.tool, DIRS + ["-c", "-o", out, src], sc.dir)
        if r.rc != 0:
            return "compiling %s: rc=%s %s" % (src, r.rc, r.err.decode("latin-1")[:1200])


def words(b):
    return [int.from_bytes(b[i:i + 8], "little") for i in range(0, len(b) - 7, 8)]


class Link(Family):
    name = "link"
    quick, thorough, batch = 700, 9000, 10

    def gen(self, s):
        g = cmod.gen_program(s)
        return g, arrange(s, g)

    def nontrivial(self, case, tags):
        return bool(tags & {"call-other", "address-init-other", "address-identity", "function-address-init"}) or len(case[0].mods) > 1

    def key(self, case):
        return self.show(case)

    def show(self, case):
        files, steps, link = lay_out(case[1], case[0])
        return "\n".join("==> %s\n%s" % (p, t) for p, t in files.items() if not p.startswith("rt")) + "\ncompile %r\nlink %r" % (steps, link)

    def run(self, ctx, cases):
        return [self.one(ctx, *c) for c in cases]

    def one(self, ctx, g, a):
        sc, files, steps, link = build(ctx, a, g)
        try:
            m = compile_(ctx, sc, steps)
            if m:
                return m
            o = "out." + a.out
            r = core.wcpl(ctx.tool, DIRS + ["-o", o] + link, sc.dir)
            if r.rc != 0:
                return "linking: rc=%s %s" % (r.rc, r.err.decode("latin-1")[:1200])
            b = sc.read(o)
            if b"UNUSEDMARK" in b:
                k = b.index(b"UNUSEDMARK")
                return "a definition that nothing refers to is kept: %r" % b[k:k + 22]
            if a.out == "wat":
                import wasmtime
                try:
                    b = bytes(wasmtime.wat2wasm(b.decode("latin-1")))
                except wasmtime.WasmtimeError as x:
                    return "WAT output is not accepted: %s" % str(x)[:600]
            x = core.run_simple(b)
            sc.write("ref.c", cmod.whole(g))
            r = core.clang_ref(sc.path("ref.c"), sc.path("ref.wasm"))
            if r.rc:
                raise RuntimeError("reference compiler: " + r.out.decode("latin-1")[:1500])
            ref = core.run_simple(sc.read("ref.wasm"), 4_000_000_000)
            if ref.status != 0:
                raise RuntimeError("reference run: %r" % ref)
            if x.status == 0 and x.out == ref.out:
                return None
            p, q = words(x.out), words(ref.out)
            k = next((i for i in range(min(len(p), len(q))) if p[i] != q[i]), min(len(p), len(q)))
            return "ends with %s %s; value %d of %d is %s, expected %s" % (
                x.status, x.detail[:200], k, len(q), "%x" % p[k] if k < len(p) else "missing", "%x" % q[k] if k < len(q) else "nothing")
        finally:
            sc.__exit__()


class Broken(Family):
    """one link of a valid program is broken: it must be diagnosed, without output"""
    name = "broken"
    quick, thorough, batch = 350, 4000, 10

    def gen(self, s):
        g = cmod.gen_program(s)
        a = arrange(s, g)
        k = s.choice(["no-module", "no-definition", "twice", "two-mains", "no-main", "static", "redefined", "othertype"])
        others = [m for m in g.mods if m is not g.main]
        m = s.choice(others)
        # an exported function of m that main calls
        fs = [e for e in m.ents if e.kind == "fun" and e.exported]
        e = s.choice(fs)
        s.tag(k)
        return g, a, k, m, e, s.draw(1)

    def show(self, case):
        return "%s %s %s\n" % (case[2], case[3].name, case[4].name) + Link.show(None, case[:2])

    def key(self, case):
        return self.show(case)

    def run(self, ctx, cases):
        return [self.one(ctx, *c) for c in cases]

    def one(self, ctx, g, a, k, m, e, alt):
        sc, files, steps, link = build(ctx, a, g)
        try:
            nm = m.name
            mine = [x for x in link if os.path.splitext(os.path.basename(x))[0] == nm]
            cf = a.srcdir + nm + ".c"
            src = files[cf]
            hd = {".": "", "inc1": "inc1/", "inc2": "inc2/", "lib1": "lib1/include/"}[a.dir[m]] + a.hname[m] + a.ext[m]
            name = cmod.modtext(e.r)
            pat = re.compile(r"^(\S.*[ *])%s\(([^;\n]*)\)\n\{" % re.escape(name), re.M)
            assert pat.search(src), (name, src)
            late = []
            if k == "no-module":
                if mine:
                    link = [x for x in link if x not in mine]
                else:
                    steps = [x for x in steps if x[0] != cf]
            elif k == "no-definition":
                # callers in the module itself would already not compile; rename the definition only
                src2 = pat.sub(lambda q: "%s%s_x9(%s)\n{" % (q.group(1), name, q.group(2)), src)
                sc.write(cf, src2)
            elif k == "twice":
                if not mine:
                    return "discard"
                if alt:
                    late.append((cf, nm + "9.wo"))
                    link.append(nm + "9.wo")
                else:
                    link.append(mine[0])
            elif k == "two-mains":
                sc.write(cf, src + "\nint main(void) { return 0; }\n")
            elif k == "no-main":
                mn = a.srcdir + g.main.name + ".c"
                t = files[mn]
                sc.write(mn, t.replace("int main(", "int main9("))
            elif k == "static":
                sc.write(cf, pat.sub(lambda q: "static %s%s(%s)\n{" % (q.group(1), name, q.group(2)), src))
            elif k == "redefined":
                vs = [x for x in m.ents if x.kind in ("var", "arr", "str", "strs", "obj")]
                if alt and vs:
                    x = vs[0]
                    d = {"var": "%s%s %s;", "arr": "%s%s %s[1];"}.get(x.kind)
                    if not d:
                        return "discard"
                    t = x.t if x.kind == "var" else x.t[0]
                    d = d % ("" if x.exported else "static ", t.c, x.name)
                    if x.kind == "arr":
                        d = d.replace("[1]", "[%d]" % x.t[1])
                    sc.write(cf, src + "\n" + d + "\n")
                else:
                    sc.write(cf, src + "\n%s %s(%s) { return %s0; }\n" % (e.t.c, name, ", ".join("%s p%d" % (t.c, i) for i, t in enumerate(e.pts)) or "void",
                                                                                "(%s)" % e.t.c))
            elif k == "othertype":
                # the header promises something else than the module defines
                h = files[hd]
                t2 = "double" if e.t.c != "double" else "int"
                if alt:
                    h2 = h.replace("extern %s %s(" % (e.t.c, name), "extern %s %s(" % (t2, name))
                else:
                    ps = ", ".join("%s p%d" % (t.c, i) for i, t in enumerate(e.pts)) or "void"
                    ps2 = "double *q" if ps == "void" else ps + ", double q"
                    h2 = h.replace("%s(%s)" % (name, ps), "%s(%s)" % (name, ps2))
                assert h2 != h
                sc.write(hd, h2)
            msg = None
            for st in steps + late:
                r = core.wcpl(ctx.tool, DIRS + ["-c", "-o", st[1], st[0]], sc.dir)
                if r.rc != 0:
                    msg = r
                    break
            if msg is None:
                msg = core.wcpl(ctx.tool, DIRS + ["-o", "out." + a.out] + link, sc.dir)
            if msg.rc == 0:
                return "%s (%s in %s) is not diagnosed" % (k, name, nm)
            if msg.rc not in (1, 2) or not msg.err.strip():
                return "%s: status %s, message %r" % (k, msg.rc, msg.err[:300])
            if os.path.exists(sc.path("out." + a.out)):
                return "%s: diagnosed, but an output file is left" % k
            return None
        finally:
            sc.__exit__()


class Scale(Family):
    """programs with very many, long, deep or large parts"""
    name = "scale"
    quick, thorough, batch = 300, 20000, 5
    shrink_budget = 60

    def gen(self, s):
        how = s.choice(["direct", "direct", "object", "text"])
        s.tag(how)
        if s.bool(1, 10):
            # many modules
            n = s.choice([2, 8, 17, 33, 65, 129])
            s.tag("modules")
            vs = [s.draw(999) for _ in range(n)]
            back = [s.draw(i - 1) if i and s.bool() else None for i in range(n)]
            return how, [], vs, back
        src, opts, exp = cscale.scale_case(s)
        return how, opts, src, exp

    def nontrivial(self, case, tags):
        return True

    def key(self, case):
        return repr(case)

    def show(self, case):
        return "%s %s\n%s" % (case[0], " ".join(case[1]), case[2][:3000] if isinstance(case[2], str) else repr(case[2:]))

    def run(self, ctx, cases):
        return [self.one(ctx, *c) for c in cases]

    def one(self, ctx, how, opts, src, exp):
        t = ctx.tool
        with core.Scratch() as sc:
            names = ["p"]
            if isinstance(src, str):
                sc.write("p.c", src)
            else:
                # module i adds its own value, and the one of an earlier module
                vs, back = src, exp
                tot = []
                for i, (v, b) in enumerate(zip(vs, back)):
                    sc.write("m%d.h" % i, "#pragma once\nextern int v%d;\nextern int f%d(int x);\n" % (i, i))
                    inc = '#include "m%d.h"\n' % i + ('#include "m%d.h"\n' % b if b is not None else "")
                    sc.write("m%d.c" % i, "%sint v%d = %d;\nstatic int st = %d;\nint f%d(int x) { return x * 3 + v%d + st%s; }\n" % (
                        inc, i, v, i, i, i, " + f%d(1) + v%d" % (b, b) if b is not None else ""))
                    tot.append((v, i, b))
                def f(i, x):
                    v, k, b = tot[i]
                    return x * 3 + v + k + (f(b, 1) + tot[b][0] if b is not None else 0)
                n = len(vs)
                sc.write("p.c", "#include <stdio.h>\n%sint main(void) { %s return 0; }\n" % (
                    "".join('#include "m%d.h"\n' % i for i in range(n)), " ".join('printf("%%u\\n", (unsigned)f%d(2));' % i for i in range(n))))
                exp = "".join("%d\n" % (f(i, 2) & 0xffffffff) for i in range(n))
                names += ["m%d" % i for i in range(n)]
            link = []
            for m in names:
                if how == "object":
                    r = core.wcpl(t, ["-c", "-o", m + ".wo", m + ".c"], sc.dir, timeout=300)
                    if r.rc:
                        return "compiling ends with %s: %s" % (r.rc, r.err.decode("latin-1")[:500])
                    link.append(m + ".wo")
                else:
                    link.append(m + ".c")
            o = "o.wat" if how == "text" else "o.wasm"
            r = core.wcpl(t, opts + ["-o", o] + link, sc.dir, timeout=300)
            if r.rc:
                return "linking ends with %s: %s" % (r.rc, r.err.decode("latin-1")[:500])
            b = sc.read(o)
            if how == "text":
                import wasmtime
                try:
                    b = bytes(wasmtime.wat2wasm(b.decode("latin-1")))
                except wasmtime.WasmtimeError as x:
                    return "WAT output is not accepted: %s" % str(x)[:600]
            x = core.run_simple(b, 4_000_000_000)
            if x.status == 0 and x.out.decode("latin-1") == exp:
                return None
            got, want = x.out.decode("latin-1").split(), exp.split()
            k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            return "ends with %s %s; line %d of %d is %s, expected %s" % (x.status, x.detail[:200], k, len(want), got[k] if k < len(got) else "missing",
                                                                          want[k] if k < len(want) else "nothing")


FAMILIES = [Link(), Broken(), Scale()]
