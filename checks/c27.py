"""C27: search of headers and library modules, and the form of the output."""
import os

from vlib import cfind, core
from vlib.check import Family

TECHNIQUE = "model-based property-based testing: random trees of header and library candidates, search paths and option lists against a model of the documented search"
RULE = ("Random trees put differing copies of one to four headers (also in sub-directories of names, also of a bundled one) under the names without extension, with .h and with .wh into the current "
        "directory, -I directories, include directories of -L directories and of directories named by the environment, and differing copies of up to two library modules (.o, .wo, .wat) into library "
        "directories, or give them explicitly; candidates after the first are garbage in some cases. One or two modules include them in random spellings, also through other headers; options are joined, "
        "separated, bundled and mixed in random order. The program must show the copies a model of the search names; if there is none the tool must fail and name it. The output must be binary for "
        ".wasm and otherwise text, the same with and without -o, and the same (text: but for indentation) whatever -q, -v and -w say. Non-trivial: some name has two or more candidates, or none; distinct by whole case.")
ASSUMPTIONS = ["the order between directories named by the environment and by options is left open",
               "a header found twice by one module under different names or files is left out"]


def obj_src(m, i):
    return "#include \"%s\"\nint %s_id(void) { return %d; }\n" % (m, m, i)


class Search(Family):
    name, quick, thorough, batch = "search", 3000, 120000, 40

    def gen(self, s):
        while True:
            c = cfind.gen(s)
            used, objs, miss, per = cfind.model(c)
            # (modules where a name is found twice are left out)
            c.mods = [m for m, p in zip(c.mods, per) if p is not None]
            if not c.mods:
                c.mods = [[]]
            return c

    def nontrivial(self, c, tags):
        n = {}
        for k in list(c.files) + list(c.objs):
            n[k[1]] = n.get(k[1], 0) + 1
        return any(v > 1 for v in n.values()) or bool(cfind.model(c)[2])

    def key(self, c):
        return repr(sorted(vars(c).items()))

    def show(self, c):
        return "\n".join("%s: %r" % x for x in sorted(vars(c).items()))

    def text(self, ctx, m, i):
        """an object of a library module, with another number"""
        cache = ctx.__dict__.setdefault("_c27", {})
        if m not in cache:
            sc = core.Scratch()
            try:
                sc.write(m + ".h", "#pragma once\n#pragma module \"%s\"\nextern int %s_id(void);\n" % (m, m))
                sc.write(m + ".c", obj_src(m, 7700077))
                r = core.wcpl(ctx.tool, ["-q", "-c", "-o", "o.wo", m + ".c"], sc.dir, libs=False)
                if r.rc:
                    raise RuntimeError("library module: " + r.err.decode("latin-1")[:400])
                cache[m] = sc.read("o.wo").decode("latin-1")
            finally:
                sc.__exit__()
        t = cache[m]
        assert "7700077" in t
        return t.replace("7700077", str(i))

    def run(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def one(self, ctx, c):
        used, objs, miss, per = cfind.model(c)
        sc = core.Scratch()
        try:
            files = {}
            for k, i in c.files.items():
                if k not in used and c.garbage == 1:
                    t = "#error not this one\n}}}\n"
                else:
                    t = cfind.content("header", k[1], i, _D())
                    if k in c.nested:
                        t = "#pragma once\n" + t.replace("#pragma once\n", "") + "#include %s\n" % c.nested[k][1]
                files["%s%s%s" % k] = t
            args = []
            for k, i in c.objs.items():
                m = k[1]
                if k not in objs and c.garbage == 1:
                    t = "(module (( nothing"
                elif k[2] == ".c":
                    t = obj_src("own/" + m, i)
                    t = obj_src(m, i)
                else:
                    t = self.text(ctx, m, i)
                if k[0] == "own/":
                    args.append("%s%s%s" % k)
                files["%s%s%s" % k] = t
            for m in c.libs:
                files[m + ".h"] = "#pragma once\n#pragma module \"%s\"\nextern int %s_id(void);\n" % (m, m)
            names = ["prog"] + ["part%d" % k for k in range(1, len(c.mods))]
            exp = []
            for k, incs in enumerate(c.mods):
                got = per_of(c, k)
                src = ["#include <stdio.h>"]
                seen = set()
                for n, sp, q in incs:
                    if n in seen:
                        continue
                    src.append("#include %s" % sp)
                    seen |= reach(c, n, q)
                body = []
                for n in sorted(got):
                    if got[n] == "bundled":
                        body.append('  printf("float=%d\\n", FLT_DIG);')
                        exp.append("float=6")
                    else:
                        body.append('  printf("%s=%%d\\n", W_%s);' % (n, n.replace(".", "_")))
                        exp.append("%s=%d" % (n, c.files[got[n]]))
                if k == 0:
                    for m in c.libs:
                        src.append('#include "%s"' % m)
                        body.append('  printf("%s=%%d\\n", %s_id());' % (m, m))
                        f = cfind.find_obj(c, m)
                        exp.append("%s=%s" % (m, c.objs[f] if f else None))
                    for n in names[1:]:
                        src.append('#include "%s"' % n)
                        body.append("  %s_f();" % n)
                    src += ["int main(void) {"] + body + ["  return 0;", "}"]
                else:
                    files[names[k] + ".h"] = "#pragma once\nextern void %s_f(void);\n" % names[k]
                    src.append('#include "%s"' % names[k])
                    src += ["void %s_f(void) {" % names[k]] + body + ["}"]
                files[names[k] + ".c"] = "\n".join(src) + "\n"
            for f, t in files.items():
                os.makedirs(os.path.dirname(sc.path(f)) or sc.dir, exist_ok=True)
                sc.write(f, t)
            for d in c.idirs + [l + "include/" for l in c.ldirs]:
                os.makedirs(sc.path(d), exist_ok=True)
            env = {}
            if c.envi:
                env["WCPL_INCLUDE_PATH"] = c.envi
            if c.envl:
                env["WCPL_LIBRARY_PATH"] = c.envl
            srcs = [n + ".c" for n in names] + args
            if c.minus:
                srcs = ["--"] + srcs
            o = c.opts
            msg, out = c.msg, (["-o", c.out] if c.out else [])
            r = core.wcpl(ctx.tool, o[:c.at] + msg + out + o[c.at:] + srcs, sc.dir, env=env, libs=False)
            if miss:
                e = r.err.decode("latin-1")
                if r.rc == 0:
                    return "%s cannot be found, but the tool succeeds" % miss
                if r.rc not in (1, 2) or not any(m in e for m in miss):
                    return "%s cannot be found: rc=%s %s" % (miss, r.rc, e[:300])
                return None
            if r.rc != 0:
                return "rc=%s %s" % (r.rc, r.err.decode("latin-1")[:400])
            if "-q" in msg and r.err.strip():
                return "quiet, but says %s" % r.err.decode("latin-1")[:200]
            if c.out:
                if r.out:
                    return "output goes to standard output too: %r" % r.out[:60]
                b = sc.read(c.out)
            else:
                b = r.out
            binary = b[:4] == b"\0asm"
            if binary != (c.out == "o.wasm"):
                return "output %s is %r" % (c.out, b[:20])
            # the same in the other form of messages, to standard output or a file
            o2 = None if c.out == "o.wat" else "p.wat" if c.out is None else "p.wasm"
            r = core.wcpl(ctx.tool, ["-q"] + (["-o", o2] if o2 else []) + o + srcs, sc.dir, env=env, libs=False)
            if r.rc != 0:
                return "again, quiet: rc=%s %s" % (r.rc, r.err.decode("latin-1")[:300])
            b2 = sc.read(o2) if o2 else r.out
            if b2 != b and (binary or [x.strip() for x in b2.split(b"\n")] != [x.strip() for x in b.split(b"\n")]):
                return "the output differs with %s and %s, -o %s and %s" % (msg, ["-q"], c.out, o2)
            if not binary:
                import wasmtime
                try:
                    b = bytes(wasmtime.wat2wasm(b.decode("latin-1")))
                except wasmtime.WasmtimeError as x:
                    return "text output is not accepted: %s" % str(x)[:300]
            # modules print in order: main's, then the others'
            x = core.run_simple(b)
            want = main_order(c, exp)
            if x.status != 0 or x.out.decode("latin-1").split() != want:
                return "prints %r (status %s), expected %r" % (x.out.decode("latin-1").split(), x.status, want)
            return None
        finally:
            sc.__exit__()


class _D:
    def choice(self, l):
        return l[0]


def reach(c, n, q):
    out, todo = set(), [(n, q)]
    while todo:
        n, q = todo.pop()
        if n in out:
            continue
        out.add(n)
        f = cfind.find(c, n, q)
        if f in c.nested:
            todo.append((c.nested[f][0], c.nested[f][2]))
    return out


def per_of(c, k):
    return cfind.model(c)[3][k] or {}


def main_order(c, exp):
    # expectations were gathered per module, main first with its libraries
    return exp


FAMILIES = [Search()]
