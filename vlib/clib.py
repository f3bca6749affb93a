"""Driving library functions: a C program compiled with wcpl reads a sequence
of binary requests from its standard input and writes one binary answer per
request; the oracle runs on the Python side (models, or the host C library)."""
import os
import shutil

from . import core
from .check import Family

PRE = r'''
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
unsigned char ib_[2097152]; unsigned char ob_[2097152];
struct { int ip, in, op, mark; } io_;
int g8(void) { int r = ib_[io_.ip]; io_.ip += 1; return r; }
int g32(void) { int a = g8(); a |= g8() << 8; a |= g8() << 16; a |= g8() << 24; return a; }
unsigned gu32(void) { return (unsigned)g32(); }
unsigned long long g64(void) { unsigned long long a = (unsigned long long)gu32(); a |= (unsigned long long)gu32() << 32; return a; }
double gd(void) { union { unsigned long long u; double d; } v; v.u = g64(); return v.d; }
float gf(void) { union { unsigned u; float f; } v; v.u = gu32(); return v.f; }
/* counted block */
int gn(char *p, int max) { int n = g32(), i; if (n > max) abort(); for (i = 0; i < n; ++i) p[i] = (char)g8(); return n; }
/* string: counted, terminated here */
char *gs(char *p, int max) { int n = gn(p, max - 1); p[n] = 0; return p; }
void p8(int v) { if (io_.op < 2097152) { ob_[io_.op] = (unsigned char)v; io_.op += 1; } }
void p32(int v) { p8(v); p8(v >> 8); p8(v >> 16); p8(v >> 24); }
void p64(unsigned long long v) { p32((int)v); p32((int)(v >> 32)); }
void pd(double d) { union { unsigned long long u; double d; } v; v.d = d; if (d != d) v.u = 0x7ff8000000000000ULL; p64(v.u); }
void pf(float d) { union { unsigned u; float f; } v; v.f = d; if (d != d) v.u = 0x7fc00000U; p32((int)v.u); }
void pn(const void *q, int n) { const char *p = (const char *)q; int i; p32(n); for (i = 0; i < n; ++i) p8(p[i]); }
void ps(const char *p) { pn(p, (int)strlen(p)); }
void flush_(void) { int n = 0, k; while (n < io_.op) { k = (int)write(1, &ob_[n], (size_t)(io_.op - n)); if (k <= 0) break; n += k; } io_.op = 0; }
void cmd_(int op);
int start_(void) {
  int k;
  for (;;) { k = (int)read(0, &ib_[io_.in], (size_t)(2097152 - io_.in)); if (k <= 0) break; io_.in += k; }
  while (io_.ip < io_.in) {
    int at = io_.op, n;
    p32(0);
    cmd_(g8());
    n = io_.op - at - 4;
    ob_[at] = (unsigned char)n; ob_[at + 1] = (unsigned char)(n >> 8); ob_[at + 2] = (unsigned char)(n >> 16); ob_[at + 3] = (unsigned char)(n >> 24);
    if (io_.op > 1000000) flush_();
  }
  flush_();
  return 0;
}
'''
POST = "\nint main(void) { return start_(); }\n"


def u32(v):
    return (v & 0xffffffff).to_bytes(4, "little")


def u64(v):
    return (v & 0xffffffffffffffff).to_bytes(8, "little")


def blk(b):
    return u32(len(b)) + b


class Rd:
    """reader of an answer"""

    def __init__(self, b):
        self.b, self.i = b, 0

    def raw(self, n):
        r = self.b[self.i:self.i + n]
        if len(r) != n:
            raise EOFError("answer too short")
        self.i += n
        return r

    def u8(self):
        return self.raw(1)[0]

    def i32(self):
        return int.from_bytes(self.raw(4), "little", signed=True)

    def u32(self):
        return int.from_bytes(self.raw(4), "little")

    def u64(self):
        return int.from_bytes(self.raw(8), "little")

    def i64(self):
        return int.from_bytes(self.raw(8), "little", signed=True)

    def f64(self):
        import struct
        return struct.unpack("<d", self.raw(8))[0]

    def f32(self):
        import struct
        return struct.unpack("<f", self.raw(4))[0]

    def blk(self):
        return self.raw(self.u32())

    def end(self):
        return self.i == len(self.b)


def build_driver(ctx, name, body, opts=(), post=POST):
    """compile a driver, cached per worker; a library or compiler that refuses
    it is a violation of whatever is being checked"""
    k = "drv-" + name
    if k in ctx.data:
        return ctx.data[k]
    ctx.sc.write(name + ".c", PRE + body + post)
    r = core.wcpl(ctx.tool, ["-o", name + ".wasm", *opts, name + ".c"], ctx.sc.dir)
    if r.rc != 0:
        raise core.BuildError("driver %s: %s %s" % (name, r.rc, r.err.decode("latin-1")[:2000]))
    import wasmtime as w
    d = ctx.sc.read(name + ".wasm")
    ctx.data[k] = w.Module(core.engine(), d)
    return ctx.data[k]


def run_module(mod, scratch, stdin=b"", args=("prog",), env=None, preopen=None, fuel=4_000_000_000, memlimit=1 << 29):
    """like core.run_wasi, for an already compiled module"""
    import wasmtime as w
    eng = core.engine()
    fi, fo, fe = (os.path.join(scratch, n) for n in (".in", ".out", ".err"))
    with open(fi, "wb") as f:
        f.write(stdin)
    for p in (fo, fe):
        if os.path.exists(p):
            os.unlink(p)
    store = w.Store(eng)
    store.set_fuel(fuel)
    store.set_limits(memory_size=memlimit)
    cfg = w.WasiConfig()
    cfg.argv = list(args)
    cfg.env = list((env or {}).items())
    cfg.stdin_file = fi
    cfg.stdout_file = fo
    cfg.stderr_file = fe
    for h, g in preopen or ():
        cfg.preopen_dir(h, g)
    store.set_wasi(cfg)
    linker = w.Linker(eng)
    linker.define_wasi()
    det = ""
    try:
        linker.instantiate(store, mod).exports(store)["_start"](store)
        st = 0
    except w.ExitTrap as x:
        st = x.code
    except w.Trap as x:
        st, det = core.trap_name(str(x)), str(x)
    except w.WasmtimeError as x:
        st, det = "error:" + core.trap_name(str(x)), str(x)
    del store
    return core.Run(st, open(fo, "rb").read() if os.path.exists(fo) else b"", open(fe, "rb").read() if os.path.exists(fe) else b"", det)


def split_answers(b):
    r, i = [], 0
    while i + 4 <= len(b):
        n = int.from_bytes(b[i:i + 4], "little")
        if i + 4 + n > len(b):
            break
        r.append(b[i + 4:i + 4 + n])
        i += 4 + n
    return r


class LibFamily(Family):
    """cases are dicts or tuples; req(case) -> request bytes, judge(case, Rd) -> None | msg"""
    driver = ""
    batch = 300
    opts = ()
    fs = False          # the program sees an empty directory as "."

    def setup(self, ctx):
        build_driver(ctx, self.name, self.driver, self.opts)

    def req(self, case):
        raise NotImplementedError

    def judge(self, case, rd):
        raise NotImplementedError

    def run(self, ctx, cases):
        mod = build_driver(ctx, self.name, self.driver, self.opts)
        reqs = [self.req(c) for c in cases]
        res = []
        i = 0
        while i < len(cases):
            # a driver reads at most 2 MB at a time
            j, tot = i, 0
            while j < len(cases) and (j == i or tot + len(reqs[j]) < 2_000_000):
                tot += len(reqs[j])
                j += 1
            pre = None
            if self.fs:
                d = ctx.sc.path("fs")
                shutil.rmtree(d, ignore_errors=True)
                os.mkdir(d)
                pre = [(d, ".")]
            x = run_module(mod, ctx.sc.dir, b"".join(reqs[i:j]), preopen=pre)
            ans = split_answers(x.out)
            if x.status == 0 and len(ans) == j - i:
                for c, a in zip(cases[i:j], ans):
                    rd = Rd(a)
                    try:
                        res.append(self.judge(c, rd))
                    except EOFError as e:
                        res.append("answer malformed: %s" % a[:80].hex())
                i = j
                continue
            if j - i == 1:
                res.append("program ends with %s %s (stderr %r)" % (x.status, x.detail[:300], x.err[:200]))
                i = j
                continue
            h = (i + j) // 2
            res += self.run(ctx, cases[i:h])
            res += self.run(ctx, cases[h:j])
            i = j
        return res
