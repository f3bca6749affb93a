import os
import re

from vlib import bytemut, cgen, cill, clit, cmix, core, cscale, cvec, forksrv
from vlib.check import Family

TECHNIQUE = "mutation- and coverage-guided fuzzing of the sanitized compiler and linker, with structure-aware generators for sources, headers and objects"
BUILDS = ("plain",)
SECS = 10

_corp = {}


def corpus(kind):
    """seed files: the tree's own sources, and the coverage corpus kept here"""
    if kind not in _corp:
        t = core.build("plain")
        out = []
        if kind == "c":
            for d in ("lib/src",):
                p = os.path.join(t.src, d)
                for f in sorted(os.listdir(p)):
                    b = open(os.path.join(p, f), "rb").read()
                    if len(b) < 30000:
                        out.append(b)
        elif kind == "h":
            p = os.path.join(t.src, "lib/include")
            for d, ds, fs in sorted(os.walk(p)):
                for f in sorted(fs):
                    b = open(os.path.join(d, f), "rb").read()
                    if len(b) < 12000:
                        out.append(b)
        else:
            for f in sorted(os.listdir(t.lib)):
                b = open(os.path.join(t.lib, f), "rb").read()
                if len(b) < 30000:
                    out.append(b)
        kept = os.path.join(core.VERIF, "corpus", "c09-" + kind)
        if os.path.isdir(kept):
            for f in sorted(os.listdir(kept)):
                out.append(open(os.path.join(kept, f), "rb").read())
        _corp[kind] = out
    return _corp[kind]


LOC = re.compile(r"^[^\n:]+:\d+:\d+: ", re.M)


def verdict(rc, err, located=False):
    """oracle for one run; located: a refusal is about the contents of the
    files given, so that it names a file and a line"""
    e = err.decode("latin-1")
    if isinstance(rc, str):
        return "%s: %s" % (rc, e[:2500])
    if "ERROR: AddressSanitizer" in e or "runtime error:" in e:
        return "memory error: %s" % e[:2500]
    if rc == 0:
        return None
    if rc not in (1, 2):
        return "exit status %d: %s" % (rc, e[:500])
    if not e.strip():
        return "failure status %d without a diagnostic" % rc
    if located and rc == 1 and not LOC.search(e):
        return "diagnostic without a location: %s" % e[:300]
    return None


class C9(Family):
    build = "srv"
    batch = 20
    shrink_budget = 400

    def setup(self, ctx):
        ctx.data["srv"] = forksrv.Server(ctx.tool, ctx.sc.dir)

    def srv(self, ctx):
        return ctx.data["srv"]

    def exec(self, ctx, args, secs=SECS):
        t = ctx.tool
        return self.srv(ctx).run(["-q", "-L", t.lib, "-I", t.inc] + list(args), secs)

    def run(self, ctx, cases):
        res = []
        for c in cases:
            try:
                res.append(self.one(ctx, c))
            except forksrv.Died:
                ctx.data["srv"] = forksrv.Server(ctx.tool, ctx.sc.dir)
                res.append("the fork server died")
        return res

    def key(self, c):
        return repr(c)

    def show(self, c):
        return "\n".join("--- %s\n%s" % (k, v.decode("latin-1") if isinstance(v, bytes) else v) for k, v in c.items())


VEC_HEAD = cvec.wcpl_side(cvec.ALL_HEAD)
INSTR = [w.encode() for w in """local.get local.set local.tee global.get global.set call call_indirect i32.const i64.const f32.const f64.const v128.const
block loop if else end br br_if br_table return drop select unreachable nop i32.load i64.load8_u f64.store v128.load v128.load8_lane i8x16.shuffle i8x16.extract_lane_s
i64x2.replace_lane i32x4.splat memory.size memory.grow memory.copy memory.fill ref.func ref.data table.get offset= align= i32 i64 f32 f64 v128 void asm register""".split()]
INSTR_TEXT = b", ".join(INSTR)


def gen_c(s):
    """a C source somewhere between well-formed and garbage"""
    k = s.weighted([(4, "corpus"), (2, "mix"), (3, "ill"), (1, "lit"), (1, "soup"), (3, "vec")])
    s.tag("src-" + k)
    if k == "corpus":
        b = s.choice(corpus("c"))
    elif k == "mix":
        b = cgen.assemble([cmix.mixed_case(s)]).encode("latin-1")
    elif k == "ill":
        b = cill.ill_case(s).encode("latin-1")
    elif k == "lit":
        b = clit.assemble_lits([clit.lit_case(s)])[0]
        b = b if isinstance(b, bytes) else b.encode("latin-1")
    else:
        n = 1 + s.draw(60 - 1)
        b = b" ".join(s.choice(bytemut.CDICT + bytemut.INTERESTING + [b"x", b"1", b"int", b"char", b"*", b";", b",", b"=", b"+"]) for _ in range(n))
    if k == "vec":
        top, main = cvec.any_case(s)
        b = cvec.wcpl_side(top).encode("latin-1")
        main = main.encode("latin-1")
        if s.bool(4, 5):
            b = bytemut.mutate_ctokens(s, b, 1 + s.draw(3))
        if s.bool(1, 3):
            b = bytemut.mutate_bytes(s, b, 1 + s.draw(2), bytemut.CDICT + INSTR, [INSTR_TEXT])
        if s.bool(1, 5):
            main = bytemut.mutate_ctokens(s, main, 1 + s.draw(2))
        return cgen.assemble([("@top@", "@main@")], VEC_HEAD).encode("latin-1").replace(b"@top@", b).replace(b"@main@", main).replace(b"@@", b"0")
    m = s.weighted([(1, "none"), (4, "bytes"), (5, "tokens"), (2, "both")])
    if m in ("tokens", "both"):
        b = bytemut.mutate_ctokens(s, b, 1 + s.draw(5 - 1))
    if m in ("bytes", "both"):
        b = bytemut.mutate_bytes(s, b, 1 + s.draw(4 - 1), bytemut.CDICT, corpus("c"))
    if s.bool(1, 5):
        b = bytemut.stretch(s, b, 1 + s.draw(2))
    return b


class Sources(C9):
    name = "sources"
    quick = 4500
    thorough = 400000

    def gen(self, s):
        return {"opts": s.choice([["-c", "-o", "o.wo"]] * 5 + [["-o", "o.wat"], ["-o", "o.wasm"], ["-c", "-O0", "-o", "o.wo"], ["-c", "-O2", "-w", "-o", "o.wo"]]), "src": gen_c(s)}

    def one(self, ctx, c):
        ctx.sc.write("p.c", c["src"])
        rc, err, _, _ = self.exec(ctx, c["opts"] + ["p.c"])
        return verdict(rc, err, "-c" in c["opts"])


class Scale(C9):
    """sources in which one thing is very numerous, long, deep or large, some of them with an error"""
    name = "scale"
    quick = 120
    thorough = 8000
    batch = 5

    def gen(self, s):
        src, opts, _ = cscale.scale_case(s, False)
        b = src.encode("latin-1")
        if s.bool(1, 3):
            s.tag("mutated")
            b = bytemut.mutate_bytes(s, b, 1 + s.draw(1), bytemut.CDICT)
        return {"opts": s.choice([["-c", "-o", "o.wo"], ["-o", "o.wat"], ["-o", "o.wasm"]]), "src": b}

    def show(self, c):
        return "%s\n%s" % (" ".join(c["opts"]), c["src"][:2000].decode("latin-1"))

    def one(self, ctx, c):
        ctx.sc.write("p.c", c["src"])
        rc, err, _, _ = self.exec(ctx, c["opts"] + ["p.c"], 90)
        v = verdict(rc, err, "-c" in c["opts"])
        if v is None and "-c" in c["opts"] and rc == 0:
            rc, err, _, _ = self.exec(ctx, ["-o", "o.wasm", "o.wo"], 90)
            v = verdict(rc, err)
        return v


class Headers(C9):
    name = "headers"
    quick = 2500
    thorough = 150000

    def gen(self, s):
        b = s.choice(corpus("h"))
        if s.bool():
            b = bytemut.mutate_ctokens(s, b, 1 + s.draw(5 - 1))
        if s.bool():
            b = bytemut.mutate_bytes(s, b, 1 + s.draw(4 - 1), bytemut.CDICT, corpus("h"))
        if s.bool(1, 6):
            b = bytemut.stretch(s, b, 1 + s.draw(2))
        inc = s.choice([b'#include "h.h"', b"#include <h.h>", b'#include "h.h"\n#include "h.h"'])
        return {"h": b, "src": inc + b"\nint main(void) { return 0; }\n"}

    def one(self, ctx, c):
        ctx.sc.write("p.c", c["src"])
        ctx.sc.write("h.h", c["h"])
        rc, err, _, _ = self.exec(ctx, ["-I", "./", "-c", "-o", "o.wo", "p.c"])
        return verdict(rc, err, True)


class Objects(C9):
    name = "objects"
    quick = 3000
    thorough = 200000

    def gen(self, s):
        b = s.choice(corpus("w"))
        if s.draw(4 - 1):
            b = bytemut.mutate_wtokens(s, b, 1 + s.draw(5 - 1))
        if s.bool():
            b = bytemut.mutate_bytes(s, b, 1 + s.draw(4 - 1), bytemut.WDICT, corpus("w"))
        if s.bool(1, 6):
            b = bytemut.stretch(s, b, 1 + s.draw(2))
        return {"o": b, "opts": s.choice([["-o", "o.wasm"], ["-o", "o.wat"], ["-c", "-o", "q.wo"]])}

    def one(self, ctx, c):
        ctx.sc.write("p.c", "int main(void) { return 0; }\n")
        ctx.sc.write("m.wo", c["o"])
        rc, err, _, _ = self.exec(ctx, c["opts"] + (["m.wo"] if c["opts"][0] == "-c" else ["m.wo", "p.c"]))
        return verdict(rc, err)


# ------------------------------------------------- located diagnostics

DECLS = """#include <stddef.h>
struct Zs { int a; double d; struct { int k; } in; };
int zf2(int a, int b) { return a + b; }
void zfv(void) { }
int *zgp; struct Zs zgs; int zga[4]; enum Ze { ZA, ZB };
#define ZSQ(x) ((x) * (x))
"""
# each is wrong by itself, on its own line, inside a function with an int x
BADSTM = ["zz = 1;", "x = zz;", "int *e = 3.5;", "x = (1 + 2;", "x = 1 + ;", "x = @;", "x = 'abc';", "x = \"abc;", "break;", "x = zgp->a;", "zf2(1);", "zf2(1, 2, 3);",
          "gg(1);", "x = zfv();", "1 = x;", "(x + 1) = 2;", "struct Q e;", "x = 99999999999;", "x = 1.5;", "x = zgp;", "zgp = 5;", "x = zgs;", "zgs = x;", "x = &1;", "x = *x;",
          "x = x[1];", "x = -zgp;", "x = !zgs;", "x = zgp * 2;", "if (zgs) x = 1;", "switch (1.5) { case 1: break; }", "switch (x) { case 1: break; case 1: break; }",
          "switch (x) { case x: break; }", "continue;", "goto nowhere;", "return;", "return zgp;", "int e = 1; int e = 2;", "char e[-1];", "char e[0];", "int e[];",
          "int e[2] = { 1, 2, 3 };", "char e[2] = \"abc\";", "x = sizeof(struct Q);", "x = (struct Zs)3;", "x = (int *)3;", "#bad", "x ? 1 : zgp;", "x++ = 1;", "&x = 1;", "zf2 = 3;", "x = zf2;",
          "int e(3);", "typedef int Q;", "static int e;", "extern int e;", "case 1: x = 2;", "default: x = 2;", "x = 08;", "x = 1ulx;", "x = '\\u12';", "x = '\\x123';", "else x = 1;",
          "x = a b;", "x = (int)zgs;", "zgs.a.b = 1;", "void e;", "x = asm(foo);", "int q = 1; auto y;", "return 1.5;", "x = ZC;", "zf2(1, zgp);", "zfv(1);", "x = ;", "for (;;;) x = 1;",
          "do x = 1; while x;", "x = sizeof;", "int e = zgp;", "double e = zgs;", "int e[1/0];", "for (int i = 0, j; i < 3; zgp = i) ;", "x = zga;", "zga = zgp;", "zga[zgp] = 1;",
          "x = ZSQ(1;", "x = ZSQ();", "x = ZSQ(zgs);", "x = ZSQ(1, 2);", "x <<= zgp;", "x = x + zgs;", "x = zgs == zgs;", "x = ~1.5;", "x = 1.5 % 2.0;", "x = zgs.in;", "while (zz) x = 1;",
          "x = \"a\" + 1.5;", "x = (zfv)();", "x = x(1);", "x = zf2(1, ZC);", "x = 'a;", "x = L'ab';", "x = 0x;", "x = 1e;", "x = 1..2;", "x = $;", "x = `;"]
BADTOP = ["int e9[-1];", "int e9 = zz;", "struct E9 { int a = 1; };", "foo9;", "#bad9", "#include <nosuch9.h>", "#endif", "#else", "#elif 1", "int e9[2] = { 1, 2, 3 };", "zf2(1, 2);",
          "int zf2(void) { return 1; }", "double zga;", "struct Zs { int q; };", "typedef zq9 e9;", "int e9(int a { return a; }", "int 9e;", "static e9;", "enum E9 { ZZ9 = zz };", "char *e9 = 5;",
          "#define 9 1", "#include nosuch", "#if zz9(", "return 1;", "if (1) ;", "int e9 = 08;", "extern int e9;", "int e9 = 1 +;", "char e9[2] = \"abcd\";", "struct Q9 e9;", "union { int a; double; } e9[;",
          "static_assert(0, \"no\");", "static_assert(ZA == ZB);", "int (*e9)(int) = zf2(1, 2);", "}"]
BADHDR = ["extern int e9[-1];", "extern struct Q9x { int a = 1; } e9;", "foo9;", "#bad9", "#include <nosuch9.h>", "#endif", "int e9 = 1;", "int e9;", "extern int e9 = 1;", "typedef zq9 e9;", "#define 9 1",
          "int f9(void) { return 1; }", "extern int 9e;", "static int e9;", "struct T9 { int a; } ;  struct T9 { int b; };", "@", "extern int f9(int a;"]


def filler(s, header=False):
    """lines that change nothing, to spread the line numbers"""
    k = s.draw(9)
    n = 1 + s.draw(3)
    if k == 0:
        return [""] * n
    if k == 1:
        return ["/* %s */" % ("x" * s.draw(40))]
    if k == 2:
        return ["/* one"] + [" * more \" ' \\"] * n + [" */"]
    if k == 3:
        return ["// line comment %d" % s.draw(9)]
    if k == 4:
        return ["#if 0", "anything 'goes", "  'ab';", s.choice(["#endif", "  # endif", "/* */ #endif"])]
    if k == 5:
        return ["#define FM%d_%d(a) \\" % (s.draw(999), s.draw(999)), "  ((a) + \\", "  1)"]
    if k == 6:
        return ["#if 1", "#ifdef __WCPL__", "#else", "broken (", "#endif", "#endif"]
    if k == 7:
        return ["typedef struct { int a;", "  char b; } Tf%d_%d;" % (s.draw(9999), s.draw(9999))]
    if k == 8:
        return ["#ifndef __WCPL__", "/* x */ $ what", "#elif 1", "#endif"]
    return ["extern int ef%d_%d(int," % (s.draw(9999), s.draw(9999)), "  int);"] if header else ["int ff%d_%d(int a," % (s.draw(9999), s.draw(9999)), "  int b)", "{", "  return a +", "    b;", "}"]


def inner(s):
    """statements that are right, on several lines"""
    k = s.draw(7)
    if k == 0:
        return ["x = x + 1;"]
    if k == 1:
        return ["x = zf2(x,", "  2);"]
    if k == 2:
        return ["/* c", "*/ x = 3;"]
    if k == 3:
        return ["if (x)", "  x = 2;", "else", "  x = 3;"]
    if k == 4:
        return ["zgp = (int *)\"abc\\", "def\";"]
    if k == 5:
        return ["x = ZSQ(x", "  + 1);"]
    if k == 6:
        return ["for (x = 0; x < 3; ++x)", "  { zga[x] = 1; }", ""]
    return ["// c \\", "x = 1;" , "x = 4;"]


class Located(C9):
    name = "located"
    quick = 6000
    thorough = 150000

    def gen(self, s):
        where = s.weighted([(5, "fun"), (3, "top"), (2, "hdr")])
        s.tag(where)
        eol = s.choice(["\n", "\n", "\r\n"])
        h = None
        pre, post = [], []
        for _ in s.many(0, 8, 4):
            pre += filler(s)
        for _ in s.many(0, 3, 2):
            post += filler(s)
        lines = DECLS.rstrip("\n").split("\n")
        cut = s.draw(len(lines) - 1) if where == "top" else 0
        if where == "fun":
            bad = s.choice(BADSTM)
            body = []
            for _ in s.many(0, 5, 3):
                body += inner(s)
            tail = []
            for _ in s.many(0, 3, 2):
                tail += inner(s)
            wrap = s.draw(3)
            op, cl = ([], []) if wrap == 0 or "else" in bad or bad.startswith(("break", "continue", "case", "default")) else \
                (["{"], ["}"]) if wrap == 1 else (["if (x) {"], ["}"]) if wrap == 2 else (["for (;;) {"], ["}"])
            L = lines + pre + ["int zmain(int x)", "{"] + body + op
            at = len(L) + 1
            name = "p.c"
            L += [" " * s.draw(8) + bad + s.choice(["", "", " /* e */", " // e"]) * (0 if bad.startswith("#") or bad.count('"') % 2 or bad.count("'") % 2 else 1)]
            L += cl + tail + ["  return x;", "}"] + post + ["int main(void) { return 0; }"]
        elif where == "top":
            bad = s.choice(BADTOP)
            L = lines + pre
            at = len(L) + 1
            name = "p.c"
            L += [bad] + post + ["int main(void) { return 0; }"]
        else:
            bad = s.choice(BADHDR)
            hp = ["#pragma once"] if s.bool() else []
            for _ in s.many(0, 6, 4):
                hp += filler(s, True)
            at = len(hp) + 1
            name = "h.h"
            h = eol.join(hp + [bad, ""])
            L = lines + pre + ['#include "h.h"'] + post + ["int main(void) { return 0; }"]
        s.tag(bad)
        d = {"expect": "%s:%d" % (name, at), "p.c": eol.join(L) + eol}
        if h is not None:
            d["h.h"] = h
        return d

    def one(self, ctx, c):
        ctx.sc.write("p.c", c["p.c"])
        if "h.h" in c:
            ctx.sc.write("h.h", c["h.h"])
        rc, err, _, _ = self.exec(ctx, ["-I", "./", "-c", "-o", "o.wo", "p.c"])
        v = verdict(rc, err, True)
        if v:
            return v
        if rc == 0:
            return "malformed source accepted (error planted at %s)" % c["expect"]
        e = err.decode("latin-1")
        name, line = c["expect"].split(":")
        if not re.search(r"(^|/)%s:%s:" % (re.escape(name), line), e, re.M):
            return "diagnostic does not name %s: %s" % (c["expect"], e[:300])
        return None


# ------------------------------------------------- very deep or long inputs

class Deep(C9):
    """nesting and repetition far beyond any real program"""
    name = "deep"
    quick = 300
    thorough = 6000
    batch = 4

    FORMS = [("int x = ", "(", "1", ")", ";"), ("int x = ", "(", "", "", ""), ("int f(int x) { return ", "- ", "1", "", "; }"), ("int f(int x) { return ", "!", "1", "", "; }"),
             ("int f(int x) { return ", "x+", "1", "", "; }"), ("int f(int x) { ", "{", "", "}", " return 0; }"), ("int f(int x) { ", "if (x) ", "x = 1;", "", " return x; }"),
             ("int f(int x) { ", "if (x) x = 1; else ", "x = 1;", "", " return x; }"), ("int f(int x) { ", "while (x) ", "x = 1;", "", " return x; }"),
             ("int f(int x) { ", "for (;;) { ", "x = 1;", "}", " return x; }"), ("int f(int x) { ", "switch (x) { case 1: ", "x = 1;", "}", " return x; }"),
             ("int f(int x) { ", "do ", "x = 1;", " while (x);", " return x; }"), ("int f(int x) { return ", "x ? 1 : ", "1", "", "; }"), ("int f(int x) { return ", "x ? ", "1", ": 2", "; }"),
             ("int f(int x) { return ", "x, ", "1", "", "; }"), ("int f(int x) { return ", "x = ", "1", "", "; }"), ("int f(int x) { return ", "x && ", "1", "", "; }"),
             ("int f(int x) { return ", "x || !", "1", "", "; }"), ("int f(int x) { return ", "f(", "1", ")", "; }"), ("int a[3]; int f(int x) { return ", "a[", "1", "]", "; }"),
             ("int f(int x) { return ", "(int)", "1", "", "; }"), ("int ", "*", "x", "", ";"), ("int x", "[1]", "", "", ";"), ("int x", "()", "", "", ";"), ("int ", "(", "x", ")", ";"),
             ("int ", "(*", "x", ")(void)", ";"), ("", "struct { ", "int x;", "} y;", ""), ("int x[1] = ", "{", "1", "}", ";"), ("int x[] = { ", "1,", "1", "", "};"),
             ("", "#if 0\n", "", "#endif\n", ""), ("", "#if 1\n", "", "#endif\n", ""), ("#if ", "(", "1", ")", "\n#endif\n"), ("#if ", "!", "1", "", "\n#endif\n"),
             ("#define A(x) (x)\nint x = ", "A(", "1", ")", ";"), ("char *s = ", "\"a\" ", "\"b\"", "", ";"), ("int ", "x", "", "", ";"), ("char s[] = \"", "x", "", "", "\";"),
             ("int x = ", "1", "", "", ";"), ("int x = 0x", "0", "1", "", ";"), ("double x = 0.", "1", "", "", ";"), ("int x = '", "1", "", "", "';"), ("/*", "x", "", "", "*/"),
             ("", "\\\n", "", "", ""), ("", ";", "", "", ""), ("struct S { ", "int x; ", "", "", "};"), ("int f(", "int x, ", "int y", "", ") { return 1; }"), ("enum E { ", "A, ", "B", "", " };"),
             ("int f(int n, ...) { return n; } int g(void) { return f(0", ", 1", "", "", "); }"), ("int *p; int f(void) { return ", "*&*", "p", "", "; }"), ("struct S { struct S *n; int v; } s; int f(void) { return s", ".n->n[0]", ".v", "", "; }"),
             ("int f(int x) { x", "++", "", "", "; return x; }"), ("int f(int x) { return sizeof(", "int (*(", "", "))", "); }"), ("#define A(x", ", x", "", "", ") 1\n"), ("", "/*", "", "*/", ""), ("", "(", "", "", ""), ("", "{", "", "", ""),
             ("", "\"", "", "", ""), ("", "#", "", "", ""), ("", "int ", "", "", "x;"), ("", "static ", "", "", "int x;"), ("", "asm(", "", "", "")]
    WFORMS = [("(module $m ", "(", "", ")", ")"), ("", "(;", "", ";)", "(module $m)"), ("(module $m (func $m:f ", "block ", "", "end ", "))"), ("(module $m (func $m:f ", "i32.const 1 if ", "", "end ", "))"),
              ("(module $m (func $m:", "f", "", "", "))"), ("(module $m (data $m:d \"", "f", "", "", "\"))"), ("(module $m (func $m:f i32.const ", "1", "", "", "))"), ("(module $m (func $m:f f64.const 0x1.", "1", "", "", "p+1))"),
              ("(module $m (func $m:f ", "(param $x i32)", "", "", "))"), ("(module $m (func $m:f ", "(result i32)", "", "", "))"), ("(module $m (func $m:f ", "(local $l i32)", "", "", "))"),
              ("(module $m ", "(global $m:g (mut i32) (i32.const 0)) ", "", "", ")"), ("(module $m ", "(import \"a\" \"b\" (func $a:b)) ", "", "", ")"), ("", "(module $m)", "", "", ""), ("", ";;\n", "", "", ""),
              ("(module $m (func $m:f ", "i32.const 1 drop ", "", "", "))"), ("(module $m (func $m:f br_table ", "0 ", "", "", "))")]

    def gen(self, s):
        obj = s.draw(3) == 3
        f = s.choice(self.WFORMS if obj else self.FORMS)
        n = s.choice([100, 300, 900, 1000, 2990, 3010, 5000, 12000, 30000])
        s.tag("obj" if obj else "src")
        tail = s.choice([0, 0, 0, 1]) * s.draw(n)
        return {"obj": obj, "form": f, "n": n, "tail": n - tail, "link": s.draw(3) == 3}

    def one(self, ctx, c):
        a, b, m, e, z = c["form"]
        t = (a + b * c["n"] + m + e * c["tail"] + z).encode()
        M = b"\nint main(void) { return 0; }\n"
        if c["obj"]:
            ctx.sc.write("p.c", M)
            ctx.sc.write("m.wo", t)
            args = ["-o", "o.wasm", "m.wo", "p.c"]
        else:
            ctx.sc.write("p.c", t + M)
            args = ["-o", "o.wasm", "p.c"] if c["link"] else ["-c", "-o", "o.wo", "p.c"]
        rc, err, _, _ = self.exec(ctx, args, 40)
        return verdict(rc, err)


# ------------------------------------------------- linking mutated objects

class Links(C9):
    """a compiled program and its library modules, one of them mutated, linked"""
    name = "links"
    quick = 1500
    thorough = 60000

    def setup(self, ctx):
        C9.setup(self, ctx)
        t = ctx.tool
        ctx.data["objs"] = {}
        for i, src in enumerate(LINKSRC):
            ctx.sc.write("l1.h", LINKH)
            ctx.sc.write("l%d.c" % i, src)
            r = core.wcpl(core.build("plain"), ["-c", "-o", "l%d.wo" % i, "l%d.c" % i], ctx.sc.dir)
            if r.rc:
                raise RuntimeError(r.err)

    def gen(self, s):
        which = s.draw(len(LINKSRC) + 3)
        n = 1 + s.draw(3)
        return {"which": which, "seed": [s.draw(1 << 30) for _ in range(2)], "tok": s.draw(3) > 0, "n": n, "text": s.bool(1, 3)}

    def one(self, ctx, c):
        from vlib import choice
        t = ctx.tool
        s = choice.from_rng(tuple(c["seed"]))
        lib = t.lib
        if c["which"] < len(LINKSRC):
            src = ctx.sc.read("l%d.wo" % c["which"])
        else:
            mod = ["string", "stdlib", "ctype", "crt.args"][c["which"] - len(LINKSRC)]
            src = open(t.lib + mod + ".wo", "rb").read()
        b = bytemut.mutate_wtokens(s, src, c["n"]) if c["tok"] else bytemut.mutate_bytes(s, src, c["n"], bytemut.WDICT)
        files = ["l%d.wo" % i for i in range(len(LINKSRC))]
        if c["which"] < len(LINKSRC):
            ctx.sc.write("mm.wo", b)
            files[c["which"]] = "mm.wo"
        else:
            lib = ctx.sc.path("lib") + "/"
            os.makedirs(lib, exist_ok=True)
            for f in os.listdir(t.lib):
                if not os.path.exists(lib + f):
                    os.symlink(t.lib + f, lib + f)
            os.unlink(lib + mod + ".wo")
            with open(lib + mod + ".wo", "wb") as f:
                f.write(b)
        rc, err, _, _ = self.srv(ctx).run(["-q", "-L", lib, "-I", t.inc, "-o", "o.wat" if c["text"] else "o.wasm"] + files, SECS)
        if lib != t.lib:
            os.unlink(lib + mod + ".wo")
        return verdict(rc, err)


LINKSRC = ["""#include <string.h>
#include <stdlib.h>
#include <ctype.h>
#include "l1.h"
char buf[100]; double dd[3] = { 1.0, 2.5 }; struct S { char *p; int k; } ss[2] = { { "abc", 1 }, { "x", 2 } }; int (*pf)(int) = &isalpha;
int main(int argc, char **argv) { int i; for (i = 0; i < argc; ++i) { strcpy(buf, argv[i]); one(i); } buf[0] = (char)(*pf)(one(ss[0].k)); exit(two(&buf[0], 3LL, 2.5f)); return 0; }
""", """#include <string.h>
#include "l1.h"
static int cnt = 7; const char *names[] = { "a", "b", NULL };
int one(int x) { switch (x) { case 1: return 5; case 2: return cnt; case 9: ++cnt; break; default: break; } return (int)strlen(names[0]) + x; }
int two(char *p, long long q, float f) { int a[4]; int i; for (i = 0; i < 4; ++i) a[i] = (int)q * i; memcpy(p, &a[1], 4); return a[(int)f]; }
"""]
LINKH = "extern int one(int x); extern int two(char *p, long long q, float f);\n"

FAMILIES = [Sources(), Headers(), Objects(), Located(), Deep(), Links(), Scale()]
RULE = ("sources, headers, objects: files of this tree, generated programs and the coverage corpus under corpus/, mutated by bytes, tokens and splices, given to the "
        "compiler or linker built with AddressSanitizer and UBSan checks, one forked process per case under time, memory and file-size limits; a case passes if the process "
        "ends by exit, reports no sanitizer error, and either succeeds or exits 1 or 2 with a diagnostic on stderr, which for the contents of a compiled source or "
        "header names a file, line and column. located: valid multi-line programs with one malformed line at a known place (function body, file level, header) "
        "must be refused naming that file and line. deep: constructs nested or repeated up to 30000 times. links: a program of several objects and library modules with one "
        "object mutated. scale: programs in which one thing is very numerous, long or large, a third of them with mutations. stretched tokens: a part of the inputs has a token or escape of up to 4097 digits. Non-trivial: every distinct input.")
ASSUMPTIONS = ["inputs whose meaning grows exponentially with their length (nested macro doubling, struct doubling) and sizes beyond memory are outside the bound",
               "8 MB of native stack"]
