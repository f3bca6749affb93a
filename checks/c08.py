import fcntl
import os
import re
import shutil
import time

from checks import c09
from vlib import bytemut, choice, cgen, cill, clit, cmix, cmut, core, cvec
from vlib.check import Family

TECHNIQUE = "differential property-based testing: self-hosted against native compiler, and repeated compilation under varied surroundings"
RULE = ("selfhost: random programs (well-formed mixes, literals, ill-typed and mutated ones) are compiled by the native compiler and by the "
        "compiler compiled with itself, run under wasmtime, into binary, text and object outputs at random options; output files, exit status and "
        "diagnostics must be byte-identical. surroundings: the same source compiled from different directories, path spellings, environment "
        "(locale, time zone, allocator fill patterns, library search by variable instead of option) must give identical bytes. objects: text objects with numbers, tokens or bytes changed, and numeric options at the bounds of the types "
        "of either build, must be linked or refused alike, with the same output or diagnostics. "
        "Non-trivial: every distinct source; accepted and refused ones are counted as classes.")
ASSUMPTIONS = ["wasmtime executes the self-hosted compiler correctly", "__DATE__/__TIME__ and file-name macros are not used by the programs"]


def selfpath():
    return os.path.join(core.build("plain").root, "self", "wcpl.wasm")


def prepare():
    t = core.build("plain")
    p = selfpath()
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(os.path.join(core.BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(p):
            return
        srcs = sorted(f for f in os.listdir(t.src) if f.endswith(".c"))
        r = core.wcpl(t, ["-o", p + ".tmp.wasm"] + srcs, t.src)
        if r.rc != 0:
            # not compiling itself is this property's violation: leave a marker
            with open(p, "wb") as f:
                f.write(b"")
            with open(p + ".err", "wb") as f:
                f.write(r.err[-2000:])
            return
        os.rename(p + ".tmp.wasm", p)


def self_compile():
    """standing probe: the compiler compiles itself to the same bytes both ways"""
    t = core.build("plain")
    if not os.path.getsize(selfpath()):
        return "the compiler does not compile itself: " + open(selfpath() + ".err", "rb").read().decode("latin-1")[:800]
    mod = module()
    with core.Scratch("c08") as sc:
        srcs = sorted(f for f in os.listdir(t.src) if f.endswith((".c", ".h")))
        for f in srcs:
            shutil.copyfile(os.path.join(t.src, f), sc.path(f))
        cs = [f for f in srcs if f.endswith(".c")]
        for _ in range(3):          # the sources hold __DATE__: both on one day
            day = time.strftime("%j")
            r = core.wcpl(t, ["-o", "w0.wasm"] + cs, sc.dir)
            if r.rc != 0:
                return "the compiler does not compile itself: %s %s" % (r.rc, r.err[:800])
            st, err = run_self(mod, sc.dir, t, ["-o", "w1.wasm"] + cs)
            if st != 0:
                return "self-hosted compiler fails on the compiler: %s %s" % (st, err[:500])
            if sc.read("w1.wasm") == sc.read("w0.wasm"):
                return None
            if day == time.strftime("%j"):
                return "self-hosted compiler compiles the compiler to different bytes"
    return None


_m = {}


def module():
    import wasmtime as w
    if "m" not in _m:
        _m["m"] = w.Module(core.engine(), open(selfpath(), "rb").read())
    return _m["m"]


def run_self(mod, d, t, args):
    import wasmtime as w
    eng = core.engine()
    store = w.Store(eng)
    store.set_fuel(200_000_000_000)
    cfg = w.WasiConfig()
    cfg.argv = ["wcpl", "-q", "-L", "/zl/", "-I", "/zi/"] + list(args)
    e, o = os.path.join(d, ".serr"), os.path.join(d, ".sout")
    cfg.stdout_file = o
    cfg.stderr_file = e
    cfg.preopen_dir(d, ".")
    cfg.preopen_dir(t.lib, "/zl")
    cfg.preopen_dir(t.inc, "/zi")
    store.set_wasi(cfg)
    linker = w.Linker(eng)
    linker.define_wasi()
    try:
        linker.instantiate(store, mod).exports(store)["_start"](store)
        st = 0
    except w.ExitTrap as x:
        st = x.code
    except (w.Trap, w.WasmtimeError) as x:
        st = "trap: " + str(x)[:600]
    del store
    return st, open(e, "rb").read()


def gen_source(s):
    k = s.weighted([(4, "mix"), (2, "lit"), (3, "ill"), (2, "mut"), (2, "vec")])
    s.tag("src-" + k)
    if k == "mix":
        return cgen.assemble([cmix.mixed_case(s)])
    if k == "vec":
        return cgen.assemble([cvec.any_case(s)], cvec.ALL_HEAD)
    if k == "lit":
        return clit.assemble_lits([clit.lit_case(s)])[0]
    if k == "ill":
        return cill.ill_case(s)
    top, main = cmix.mixed_case(s)
    if s.bool():
        top = cmut.mutate(s, top, s.int(1, 3))
    else:
        main = cmut.mutate(s, main, s.int(1, 3))
    return cgen.assemble([(top, main)])


class SelfHost(Family):
    name, quick, thorough, batch = "selfhost", 1400, 60000, 10

    def setup(self, ctx):
        prepare()
        if os.path.getsize(selfpath()):
            module()

    def gen(self, s):
        out = s.weighted([(4, "o.wasm"), (1, "o.wat"), (2, "o.wo")])
        opt = s.choice(["", "-O0", "-O1", "-O2"])
        return gen_source(s), out, opt

    def key(self, c):
        return repr(c)

    def show(self, c):
        t = c[0]
        for p in (cgen.PRELUDE, cill.PRE):
            t = t.replace(p, "")
        return "/* %s -> %s */\n%s" % (c[2], c[1], t)

    def run(self, ctx, cases):
        if not os.path.getsize(selfpath()):
            return ["the compiler does not compile itself"] * len(cases)
        res = []
        sc, t = ctx.sc, ctx.tool
        mod = module()
        for src, out, opt in cases:
            sc.write("p.c", src)
            a = (["-c"] if out.endswith(".wo") else []) + ([opt] if opt else []) + ["-o"]
            for n in ("n" + out, "s" + out):
                if os.path.exists(sc.path(n)):
                    os.unlink(sc.path(n))
            r = core.wcpl(t, a + ["n" + out, "p.c"], sc.dir)
            st, err = run_self(mod, sc.dir, t, a + ["s" + out, "p.c"])
            res.append(self.compare(sc, r, st, err, out))
        return res

    def compare(self, sc, r, st, err, out):
        if not isinstance(r.rc, int) or r.rc not in (0, 1):
            return None             # a native crash is another property's business
        if st != r.rc and b"alloc() failed" in err:
            return "discard"            # 4 GB of address space are all the self-hosted compiler has
        if st != r.rc:
            return "native status %s, self-hosted %s; native says %r, self-hosted %r" % (r.rc, st, r.err[:300], err[:300])
        if r.rc:
            if err != r.err:
                return "diagnostics differ: native %r, self-hosted %r" % (r.err[:400], err[:400])
            return None
        a, b = sc.read("n" + out), sc.read("s" + out)
        if not out.endswith(".wasm"):       # comments show numbers as the C library at hand prints them
            a, b = (re.sub(rb"\(; [-+0-9.a-z]+ ;\)", b"", x) for x in (a, b))
        if a != b:
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return "outputs differ at byte %d of %d/%d: native %r, self-hosted %r" % (i, len(a), len(b), a[max(0, i - 20):i + 20], b[max(0, i - 20):i + 20])
        return None


class Surround(SelfHost):
    name, quick, thorough, batch = "surroundings", 600, 30000, 10

    def setup(self, ctx):
        os.makedirs(ctx.sc.path("a/b"), exist_ok=True)
        os.makedirs(ctx.sc.path("elsewhere with space"), exist_ok=True)

    def gen(self, s):
        out = s.weighted([(4, "o.wasm"), (1, "o.wat"), (2, "o.wo")])
        opt = s.choice(["", "-O0", "-O1", "-O2"])
        vs = [s.draw(7) for _ in range(3)]
        return gen_source(s), out, opt, vs

    def run(self, ctx, cases):
        res = []
        sc, t = ctx.sc, ctx.tool
        for src, out, opt, vs in cases:
            a = (["-c"] if out.endswith(".wo") else []) + ([opt] if opt else [])
            sc.write("p.c", src)
            ref = self.one(t, sc, a, out, "p.c", sc.dir, {}, out)
            msg = None
            for v in vs:
                env = {}
                cwd, path, o, libs = sc.dir, "p.c", out, True
                if v == 0:
                    env = {"MALLOC_PERTURB_": "165"}
                elif v == 1:
                    env = {"MALLOC_PERTURB_": "90", "TZ": "Asia/Tokyo", "HOME": "/nonexistent", "X" * 3000: "y" * 3000}
                elif v == 2:
                    env = {"LC_ALL": "C.UTF-8", "LANG": "tr_TR.UTF-8", "COLUMNS": "3", "TMPDIR": "/nonexistent"}
                elif v == 3:
                    sc.write("a/b/p.c", src)
                    cwd, o = sc.path("a/b"), "../" + out
                elif v == 4:
                    path, o = sc.path("p.c"), sc.path("elsewhere with space", out)
                elif v == 5:
                    sc.write("elsewhere with space/p.c", src)
                    path = "elsewhere with space/p.c"
                elif v == 6:
                    path = "./a/../p.c"
                    env = {"WCPL_LIBRARY_PATH": t.lib, "WCPL_INCLUDE_PATH": t.inc}
                    libs = False
                else:
                    path, o = "p.c", "a/renamed" + out[1:]
                x = self.one(t, sc, a, o, path, cwd, env, out, libs)
                if x[0] != ref[0] or x[1] != ref[1]:
                    msg = "variation %d: %s, plain compilation: %s" % (v, self.say(x), self.say(ref))
                    break
            res.append(msg)
        return res

    def say(self, x):
        return "status %s, %s bytes %s" % (x[0], "no" if x[1] is None else len(x[1]), x[2][:200])

    def one(self, t, sc, a, o, path, cwd, env, out, libs=True):
        r = core.wcpl(t, (a if libs else ["-q"] + a) + ["-o", o, path], cwd, env=env, libs=libs)
        d = None
        p = os.path.join(cwd, o)
        if r.rc == 0 and os.path.exists(p):
            d = open(p, "rb").read()
            os.unlink(p)
        return r.rc, d, r.err


NUMS = ["-1", "-4", "-12", "0x10", "010", "08", "+4", "2147483647", "2147483648", "4294967295", "4294967296", "4294967292", "8589934596", "-2147483648", "-2147483649", "9223372036854775807",
        "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744069414584324", "0", "1", "4", "16", "65535", "65536",
        "0xffffffff", "0x100000000", "-0x1", "0xffffffffffffffff", "1_000", "4x", "-nan", "nan:0x1", "-nan:0x7fffff", "nan:0xfffffffffffff", "inf", "-inf", "0x1p-149", "0x1.8p+127", "0x1p+128", "-0x0p+0", "1.5", "1e10"]
NUM = re.compile(rb"(?<![\w$:.\"])-?(?:0x[0-9a-f.p+-]+|\d[\d.]*(?:e[-+]?\d+)?|inf|nan(?::0x[0-9a-f]+)?)(?![\w.])|(?<==)\d+")
OBJS = c09.LINKSRC + ["""#include <wasm_simd128.h>
float fa = 1.5f; double da[3] = { 0.1, -2.0, 3.0 }; long long ll = -5; char tx[] = "a\\\"'\t\n\1\377z"; v128_t gv = { (int) 1, 2, -3, 4 };
v128_t ff(v128_t a, char *p) { return wasm_i8x16_shuffle(wasm_v128_load8_lane(p, a, 3), gv, 0, 17, 2, 19, 4, 21, 6, 23, 8, 25, 10, 27, 12, 29, 14, 31); }
int main(void) { float g = fa * 0.1f; double d = 1e300; long long q = ll + 0x123456789abLL; d = d + q + g; return tx[0] + (int)(d > 1.0); }
""", """struct S { char c; short h; long long l; char *s; double d; } sa[] = { { 'a', 2, 3, "str", 4.5 }, { 'b', -2, -3, "str", -0.5 } };
static unsigned char zz[300]; const char *tab[3] = { "one", "two", "three" }; int ix = 2;
int main(int argc, char **argv) { struct S *p = &sa[1]; zz[3] = (unsigned char)p->h; switch (argc) { case 1: return zz[3]; case 2: return tab[ix][1]; case 5: return (int)p->l; default: break; } return p->s[2]; }
"""]


class Objects(SelfHost):
    """object files, mostly with other numbers in them, and numeric options"""
    name, quick, thorough, batch = "objects", 500, 40000, 10

    def setup(self, ctx):
        SelfHost.setup(self, ctx)
        ctx.sc.write("l1.h", c09.LINKH)
        for i, src in enumerate(OBJS):
            ctx.sc.write("l%d.c" % i, src)
            r = core.wcpl(ctx.tool, ["-c", "-o", "l%d.wo" % i, "l%d.c" % i], ctx.sc.dir)
            if r.rc and i < 2:
                raise core.BuildError("object %d: %s" % (i, r.err[:500]))

    def gen(self, s):
        w = s.draw(len(OBJS) - 1)
        k = s.weighted([(6, "number"), (2, "tokens"), (1, "bytes"), (2, "options")])
        s.tag(k)
        out = s.weighted([(2, "o.wasm"), (3, "o.wat"), (1, "o.wo")])
        if k == "options":
            o = s.choice(["-s", "-a", "-O", "--stack-size", "-O", "-o"])
            v = s.choice(NUMS + ["1024", "1023", "512", "511", "16777216", "16777217", "65537", " 512", "512 ", "1e3", "", "4294968320", "9223372036854776832"])
            return w, k, [o, v] if s.bool() or o[1] == "-" else [o + v], out
        return w, k, [(s.draw(1 << 30), s.choice(NUMS)) for _ in range(s.int(1, 2 if k == "number" else 3))], out

    def show(self, c):
        return "object %d, %s %r -> %s" % c

    def edit(self, src, k, a):
        if k == "number":
            for pos, new in a:
                m = list(NUM.finditer(src))
                if m:
                    m = m[pos % len(m)]
                    src = src[:m.start()] + new.encode() + src[m.end():]
        else:
            s = choice.from_rng(tuple(x[0] for x in a))
            src = bytemut.mutate_wtokens(s, src, len(a)) if k == "tokens" else bytemut.mutate_bytes(s, src, len(a), bytemut.WDICT)
        return src

    def run(self, ctx, cases):
        if not os.path.getsize(selfpath()):
            return ["the compiler does not compile itself"] * len(cases)
        res = []
        sc, t = ctx.sc, ctx.tool
        mod = module()
        for w, k, a, out in cases:
            files = ["l0.wo", "l1.wo"] if w < 2 else ["l%d.wo" % w]
            opts = []
            if k == "options":
                opts = a
            elif os.path.exists(sc.path("l%d.wo" % w)):
                sc.write("m.wo", self.edit(sc.read("l%d.wo" % w), k, a))
                files = [("m.wo" if f == "l%d.wo" % w else f) for f in files]
            if out.endswith(".wo"):
                files = [f for f in files if f == "m.wo"] or files[:1]
            o = opts + (["-c"] if out.endswith(".wo") else []) + ["-o"]
            for n in ("n" + out, "s" + out):
                if os.path.exists(sc.path(n)):
                    os.unlink(sc.path(n))
            r = core.wcpl(t, o + ["n" + out] + files, sc.dir)
            st, err = run_self(mod, sc.dir, t, o + ["s" + out] + files)
            if r.rc == 2 and st == 2:
                res.append(None if re.sub(rb"[ns]o\.wa?[a-z]*", b"", r.err) == re.sub(rb"[ns]o\.wa?[a-z]*", b"", err) else "diagnostics differ: native %r, self-hosted %r" % (r.err[:400], err[:400]))
                continue
            res.append(self.compare(sc, r, st, err, out))
        return res


PROBES = {"self-compile": self_compile}
FAMILIES = [SelfHost(), Surround(), Objects()]
