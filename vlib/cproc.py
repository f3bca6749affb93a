"""Programs from start to end: arguments, environment, exit handlers, ways to
end, stack and argument area sizes.  The driver performs scripts read from its
raw standard input and reports every step on descriptor 2."""
import os

from . import clib, core, whost

DRV = r'''
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <assert.h>
unsigned char sc[65536];
unsigned char canary[512];
unsigned char obuf[65536];
char nm[4][16] = { "/f0", "/f1", "/f2", "/f3" };
char txt[4096];
struct { int n, got, on, runs, ret; int argc; char **argv; FILE *f[4]; int fresh[4]; char *blk[8]; int bn[8]; } g;
void out(void) { int n = 0, k; while (n < g.on) { k = (int)write(2, &obuf[n], (size_t)(g.on - n)); if (k <= 0) break; n += k; } g.on = 0; }
void o8(int v) { obuf[g.on] = (unsigned char)v; g.on += 1; if (g.on == 65536) out(); }
void o32(int v) { o8(v); o8(v >> 8); o8(v >> 16); o8(v >> 24); }
void os(const char *s) { int n = (int)strlen(s), i; o32(n); for (i = 0; i < n; ++i) o8(s[i]); }
void argvdump(void) { int i; o32(g.argc); for (i = 0; i < g.argc; ++i) os(g.argv[i]); o8(g.argv[g.argc] == NULL ? 1 : 0); }
int leave(int a, int code) {
  out();
  switch (a) {
    case 1: exit(code);
    case 2: _exit(code);
    case 3: abort(); _exit(0);
    case 4: assert(code != code);
    case 5: code = code / (code - code);
  }
  return 0;
}
int rec64(int n, int a, int code) {
  char b[64]; int i, r;
  for (i = 0; i < 64; ++i) b[i] = (char)(n + i);
  r = n > 0 ? rec64(n - 1, a, code) : leave(a, code);
  for (i = 0; i < 64; ++i) if (b[i] != (char)(n + i)) r = 1;
  return r;
}
int rec4k(int n, int a, int code) {
  char b[4096]; int i, r;
  for (i = 0; i < 4096; ++i) b[i] = (char)(n + i);
  r = n > 0 ? rec4k(n - 1, a, code) : leave(a, code);
  for (i = 0; i < 4096; ++i) if (b[i] != (char)(n + i)) r = 1;
  return r;
}
int rec64k(int n, int a, int code) {
  char b[65536]; int i, r;
  for (i = 0; i < 65536; ++i) b[i] = (char)(n + i);
  r = n > 0 ? rec64k(n - 1, a, code) : leave(a, code);
  for (i = 0; i < 65536; ++i) if (b[i] != (char)(n + i)) r = 1;
  return r;
}
int check(void) {
  int i, j;
  for (i = 0; i < 512; ++i) if (canary[i] != (unsigned char)(i * 7 + 1)) return 1;
  for (i = 0; i < 8; ++i) if (g.blk[i] != NULL) for (j = 0; j < g.bn[i]; ++j) if (g.blk[i][j] != (char)(i + j)) return 2;
  return 0;
}
int reg(int h);
int find(int k) { int p = 0; for (; k > 0 && p < g.n; --k) p += 2 + sc[p] + 256 * sc[p + 1]; return p; }
char *text(int p) { int n = sc[p] + 256 * sc[p + 1], i; for (i = 0; i < n; ++i) txt[i] = (char)sc[p + 2 + i]; txt[n] = 0; return &txt[0]; }
int arg32(int p) { return sc[p] + (sc[p + 1] << 8) + (sc[p + 2] << 16) + (sc[p + 3] << 24); }
/* performs script k; true if it asks main to return */
int run(int k) {
  int p = find(k), e, op, i, n; char *s;
  if (p >= g.n) return 0;
  e = p + 2 + sc[p] + 256 * sc[p + 1];
  p += 2;
  while (p < e) {
    op = sc[p]; p += 1;
    o8(op);
    if (op == 'A') { o32(reg(sc[p])); p += 1; }
    else if (op == 'T') { o8(sc[p]); p += 1; }
    else if (op == 'P') { s = text(p); p += 2 + (int)strlen(s); o8(fputs(s, stdout) < 0); }
    else if (op == 'O') {
      i = sc[p]; n = sc[p + 1]; p += 2;
      if (g.f[i] == NULL) { g.f[i] = fopen(&nm[i][0], n ? "a" : "w"); g.fresh[i] = 1; o8(g.f[i] != NULL); } else o8(2);
    }
    else if (op == 'F') { i = sc[p]; s = text(p + 1); p += 3 + (int)strlen(s); if (g.f[i] != NULL) { g.fresh[i] = 0; o8(fputs(s, g.f[i]) < 0); } else o8(2); }
    else if (op == 'C') { i = sc[p]; p += 1; if (g.f[i] != NULL) { o8(fclose(g.f[i]) != 0); g.f[i] = NULL; } else o8(2); }
    else if (op == 'B') {
      i = sc[p]; n = sc[p + 1]; p += 2;
      if (g.f[i] != NULL && g.fresh[i]) o8(setvbuf(g.f[i], NULL, n == 0 ? _IONBF : n == 1 ? _IOLBF : _IOFBF, (size_t)(n * 5)) != 0); else o8(2);
    }
    else if (op == 'L') { i = sc[p]; p += 1; if (i == 5) o8(fflush(NULL) != 0); else if (i == 4) o8(fflush(stdout) != 0); else if (g.f[i] != NULL) o8(fflush(g.f[i]) != 0); else o8(2); }
    else if (op == 'G') { s = text(p); p += 2 + (int)strlen(s); s = getenv(s); o8(s != NULL); if (s != NULL) os(s); }
    else if (op == 'M') {
      i = sc[p]; n = arg32(p + 1); p += 5;
      if (g.blk[i] != NULL) { free(g.blk[i]); g.blk[i] = NULL; }
      g.blk[i] = (char *)malloc((size_t)n); g.bn[i] = 0;
      o8(g.blk[i] != NULL);
      if (g.blk[i] != NULL) { g.bn[i] = n; for (n = 0; n < g.bn[i]; ++n) g.blk[i][n] = (char)(i + n); }
    }
    else if (op == 'V') { argvdump(); }
    else if (op == 'W') { i = sc[p]; p += 1; if (i < g.argc) { for (n = 0; g.argv[i][n] != 0; ++n) g.argv[i][n] = (char)('A' + (n & 15)); o8(n & 255); } else o8(0); }
    else if (op == 'K') { o8(check()); }
    else if (op == 'D') { i = sc[p]; n = arg32(p + 1); p += 5; o8(i == 0 ? rec64(n, 0, 0) : i == 1 ? rec4k(n, 0, 0) : rec64k(n, 0, 0)); }
    else if (op == 'E') { i = sc[p]; n = arg32(p + 2); leave(sc[p + 1] == 0 ? i : 0, n); rec64(sc[p + 1], i, n); p += 6; }
    else if (op == 'R') { g.ret = arg32(p); out(); return 1; }
  }
  return 0;
}
void handler(int i) { g.runs += 1; o8('H'); o8(i); run(g.runs); o8('h'); out(); }
void h0(void) { handler(0); }
void h1(void) { handler(1); }
void h2(void) { handler(2); }
void h3(void) { handler(3); }
void h4(void) { handler(4); }
int reg(int h) {
  switch (h) { case 0: return atexit(&h0); case 1: return atexit(&h1); case 2: return atexit(&h2); case 3: return atexit(&h3); }
  return atexit(&h4);
}
void start(void) {
  int i, k;
  for (i = 0; i < 512; ++i) canary[i] = (unsigned char)(i * 7 + 1);
  for (;;) { k = (int)read(0, &sc[g.n], (size_t)(65536 - g.n)); if (k <= 0) break; g.n += k; }
}
'''
MAINS = {"void": "int main(void) { start(); if (run(0)) return g.ret; out(); return 0; }\n",
         "argv": "int main(int argc, char *argv[]) { g.argc = argc; g.argv = argv; start(); if (run(0)) return g.ret; out(); return 0; }\n",
         "argp": "int main(int n, char **v) { g.argc = n; g.argv = v; start(); if (run(0)) return g.ret; out(); return 0; }\n"}
MSG = b"internal error: unable to retrieve command-line arguments\n"
EMSG = b"internal error: unable to retrieve environment strings\n"


def config(s):
    kind = s.weighted([(2, "void"), (5, "argv"), (2, "argp")])
    size = s.weighted([(3, None), (1, 1024), (1, 16777216), (2, lambda: s.choice([1025, 1040, 4095, 4097, 5000, 65536, 131071, 200001])), (1, lambda: s.int(1024, 300000))])
    area = s.weighted([(3, None), (3, 0), (2, 512), (1, 65536), (2, lambda: s.choice([513, 520, 527, 528, 1000, 4095, 5555])), (1, lambda: s.int(512, 65536))])
    return [kind, size() if callable(size) else size, area() if callable(area) else area, s.bool(1, 4), s.int(0, 3)]


# a fixed set, so that the compiled drivers can be kept
def configs():
    from .choice import Src
    import random
    r = random.Random(20)
    o = [["argv", None, None, False, 3], ["void", None, None, False, 3], ["argv", None, 0, False, 3], ["argv", 1024, 512, False, 3]]
    while len(o) < 24:
        c = config(Src(r))
        if c not in o:
            o.append(c)
    return o


def build(ctx, cf):
    kind, size, area, split, lvl = cf
    key = "proc%r" % (cf,)
    if key in ctx.data:
        return ctx.data[key]
    opts = (["-s", str(size)] if size is not None else []) + (["-a", str(area)] if area is not None else []) + ["-O", str(lvl)]
    ctx.sc.write("proc.c", DRV + MAINS[kind])
    if split:
        r = core.wcpl(ctx.tool, ["-c", "-O", str(lvl), "-o", "proc.wo", "proc.c"], ctx.sc.dir)
        if r.rc == 0:
            r = core.wcpl(ctx.tool, ["-o", "proc.wasm", *opts, "proc.wo"], ctx.sc.dir)
    else:
        r = core.wcpl(ctx.tool, ["-o", "proc.wasm", *opts, "proc.c"], ctx.sc.dir)
    if r.rc != 0:
        raise core.BuildError("driver %s: %s %s" % (key, r.rc, r.err.decode("latin-1")[:2000]))
    import wasmtime as w
    ctx.data[key] = w.Module(core.engine(), ctx.sc.read("proc.wasm"))
    return ctx.data[key]


ABC = b"abcXYZ019 _-=/\\\"'$*%\t\n\xc3\xa9~"


def word(s, n, utf=False):
    b = bytearray()
    for _ in range(n):
        k = s.draw(24) if not utf else s.draw(19)
        b.append(ABC[k] if k < len(ABC) else 1 + s.draw(254) if not utf else 65)
    return bytes(x for x in b if not utf or x < 128)


def args(s, area, utf):
    n = s.weighted([(4, lambda: s.int(1, 4)), (2, lambda: s.int(1, 20)), (1, lambda: s.int(20, 300))])()
    r = [word(s, s.weighted([(4, lambda: s.int(1, 8)), (2, lambda: s.int(0, 1)), (2, lambda: s.int(0, 60))])(), utf) for _ in range(n)]
    room = {None: 4096, 0: 40000}.get(area, area)
    if s.bool(1, 3):
        # about as much as there is room for
        need = sum(len(x) + 1 for x in r) + 4 * (len(r) + 1)
        pad = room - need + s.int(-40, 24)
        if pad > 0:
            i = s.draw(len(r) - 1)
            r[i] += bytes([97 + s.draw(25)]) * pad
    if not utf and s.bool(1, 60):
        r = []
    return r


def env(s, utf):
    names = [b"A", b"AB", b"ABC", b"B", b"PATH", b"HOME", b"_x", b"a", b"LONG" * 10] + [word(s, s.int(1, 6), utf).replace(b"=", b"e") or b"q" for _ in range(2)]
    e = {}
    for _ in s.many(0, 12, 4):
        e[s.choice(names)] = word(s, s.weighted([(4, lambda: s.int(0, 10)), (1, lambda: s.int(0, 400))])(), utf)
    return e, names


def t16(b):
    return len(b).to_bytes(2, "little") + b


def op(s, names, stk, io, depth, nargs):
    k = s.weighted([(8, "A"), (3, "T"), (4, "G"), (3, "M"), (3, "K"), (2, "D"), (4 if nargs is not None else 0, "V"), (1 if nargs is not None else 0, "W")] +
                   ([(6, "P"), (5, "O"), (6, "F"), (2, "C"), (2, "B"), (2, "L")] if io else []))
    if k == "A":
        return ["A", s.draw(4)]
    if k == "T":
        return ["T", s.draw(255)]
    if k == "P":
        return ["P", line(s)]
    if k == "O":
        return ["O", s.draw(3), s.draw(1)]
    if k == "F":
        return ["F", s.draw(3), line(s)]
    if k == "C":
        return ["C", s.draw(3)]
    if k == "B":
        return ["B", s.draw(3), s.weighted([(2, 0), (2, 1), (1, 2), (1, 9)])]
    if k == "L":
        return ["L", s.draw(5)]
    if k == "G":
        n = s.choice(names)
        n = s.weighted([(6, n), (1, n[:-1] or b"z"), (1, n + b"B"), (1, n.swapcase())])
        return ["G", n]
    if k == "M":
        return ["M", s.draw(7), s.weighted([(3, lambda: s.int(1, 100)), (2, lambda: s.int(1, 5000)), (1, lambda: s.int(1, 200000))])()]
    if k == "D":
        fr = [(0, 64), (1, 4096), (2, 65536)]
        room = stk - 1024 - (5000 if depth else 0)
        z, f = s.choice([x for x in fr if x[1] <= room] or [fr[0]])
        n = max(0, min(room // (f + 16) - 1, 1500))
        return ["D", z, s.choice([n, s.int(0, n)])] if n > 0 else ["K"]
    if k == "W":
        return ["W", s.int(0, max(0, min(255, nargs - 1)))]
    return [k]


def line(s):
    return word(s, s.weighted([(5, lambda: s.int(0, 12)), (2, lambda: s.int(0, 80)), (1, lambda: s.int(0, 1500))])())


def ending(s, stk, main):
    code = s.weighted([(2, 0), (1, 1), (2, lambda: s.draw(125)), (1, lambda: s.draw(255)), (1, lambda: s.choice([-1, 256, 1 << 30, -(1 << 31), 65535]))])
    code = code() if callable(code) else code
    if main and s.bool(2, 5):
        return ["R", code]
    how = s.weighted([(6, 1), (2, 2), (1, 3), (1, 4), (1, 5)]) if main else s.weighted([(2, 2), (1, 3), (1, 4)])
    return ["E", how, s.choice([0, 0, s.int(0, max(0, min(60, (stk - 1024) // 128)))]), code]


def case(s, native, confs):
    cf = s.choice(confs) if native or s.bool(39, 40) else ["argv"] + config(s)[1:] if confs[0][0] == confs[1][0] else config(s)
    kind, size, area, _, _ = cf
    stk = size or 131072
    a = args(s, area, native)
    e, names = env(s, native)
    io = stk >= 4096
    nargs = None if kind == "void" else len(a)
    m = [op(s, names, stk, io, 0, nargs) for _ in s.many(0, 40, 10)]
    if s.bool(1, 8):
        i = s.draw(len(m))
        m[i:i] = [["A", s.draw(4)] for _ in range(s.int(28, 36))]
    if nargs is not None and s.bool(3, 4):
        m.insert(0, ["V"])
    if s.bool(5, 6):
        m.append(ending(s, stk, True))
    regs = sum(1 for o in m if o[0] == "A")
    hs = []
    while len(hs) < regs:
        h = [op(s, names, stk, io, 1, nargs) for _ in s.many(0, 6, 2)]
        if s.bool(1, 30):
            h.append(ending(s, stk, False))
        regs += sum(1 for o in h if o[0] == "A")
        if regs > 60:
            h = [o for o in h if o[0] != "A"]
            regs = len(hs)
        hs.append(h)
    hs = [h if sum(len(enc(o)) for x in [m] + hs[:i + 1] for o in x) < 60000 else [] for i, h in enumerate(hs)]
    left = 17 << 20 if s.bool(1, 10) else 2 << 20
    for x in [m] + hs:
        for o in x:
            if o[0] == "D":
                z = (64, 4096, 65536)[o[1]]
                o[2] = min(o[2], left // z)
                left -= o[2] * z
    files = {"/f%d" % i: word(s, s.int(0, 30)) for i in range(4) if s.bool(1, 4)}
    return dict(cf=cf, args=a, env=e, scripts=[m] + hs, files=files)


def enc(o):
    k, *a = o
    b = k.encode()
    for i, x in enumerate(a):
        if isinstance(x, bytes):
            b += t16(x)
        elif (k in "MDR" and i == len(a) - 1) or k == "E" and i == 2:
            b += (x & 0xffffffff).to_bytes(4, "little")
        else:
            b += bytes([x])
    return b


def stdin(c):
    return b"".join(t16(b"".join(enc(o) for o in sc)) for sc in c["scripts"])


class Bad(Exception):
    pass


class Ended(Exception):
    pass


class Sim:
    """follows the report of the program and says what must be in it"""

    def __init__(self, c, rep, native):
        self.c, self.r, self.native = c, clib.Rd(rep), native
        self.reg, self.total, self.runs = [], 0, 0
        self.sure = {"/f%d" % i: c["files"].get("/f%d" % i) for i in range(4)}
        self.sure["<1>"] = b""
        self.pend = {k: b"" for k in self.sure}
        self.open = {}
        self.argv = list(c["args"])

    def need(self, got, want, what):
        if got != want:
            raise Bad("%s: %r, expected %r" % (what, got, want))

    def script(self, k):
        for i, o in enumerate(self.c["scripts"][k] if k < len(self.c["scripts"]) else ()):
            w = "script %d step %d %s" % (k, i, show_op(o))
            self.need(chr(self.r.u8()), o[0], w + ": report")
            getattr(self, "op_" + o[0])(w, *o[1:])

    def op_A(self, w, h):
        x = self.r.i32()
        if x == 0:
            self.reg.append(h)
            self.total += 1
        elif self.total < 32:
            raise Bad("%s: refused after %d registrations" % (w, self.total))

    def op_T(self, w, b):
        self.need(self.r.u8(), b, w)

    def put(self, f, t):
        self.pend[f] += t

    def op_P(self, w, t):
        self.need(self.r.u8(), 0, w)
        self.put("<1>", t)

    def op_O(self, w, i, app):
        f = "/f%d" % i
        self.need(self.r.u8(), 2 if i in self.open else 1, w)
        if i not in self.open:
            self.open[i] = True
            if not app or self.sure[f] is None:
                self.sure[f] = b""

    def op_F(self, w, i, t):
        self.need(self.r.u8(), 0 if i in self.open else 2, w)
        if i in self.open:
            self.open[i] = False
            self.put("/f%d" % i, t)

    def flush(self, f):
        if self.sure[f] is not None:
            self.sure[f] += self.pend[f]
            self.pend[f] = b""

    def op_C(self, w, i):
        self.need(self.r.u8(), 0 if i in self.open else 2, w)
        if i in self.open:
            del self.open[i]
            self.flush("/f%d" % i)

    def op_B(self, w, i, m):
        self.need(self.r.u8(), 0 if self.open.get(i) else 2, w)

    def op_L(self, w, i):
        self.need(self.r.u8(), 0 if i in self.open or i >= 4 else 2, w)
        for f in (list(self.sure) if i == 5 else ["<1>"] if i == 4 else ["/f%d" % i]):
            self.flush(f)

    def op_G(self, w, n):
        v = self.c["env"].get(n)
        self.need(self.r.u8(), int(v is not None), w + " found")
        if v is not None:
            self.need(self.r.blk(), v, w)

    def op_M(self, w, i, n):
        self.need(self.r.u8(), 1, w)

    def op_V(self, w):
        n = self.r.i32()
        got = [self.r.blk() for _ in range(min(n, 1000))]
        end = self.r.u8()
        if got != self.argv:
            alt = self.alt()
            if alt is None or got not in alt:
                raise Bad("%s: argc %d, argv %s, expected %s" % (w, n, brief(got), brief(self.argv)))
            self.argv = got
        self.need(end, 1, w + ": argv[argc] == NULL")

    def alt(self):
        """when the arguments do not fit there are none"""
        area = self.c["cf"][2]
        area = 4096 if area is None else area
        ptrs = 4 * (len(self.c["args"]) + 1)
        if self.c["args"] and (area == 0 or sum(len(x) + 1 for x in self.c["args"]) + ptrs + 15 <= area):
            return None
        return [[b""]]

    def op_W(self, w, i):
        n = self.r.u8()
        v = self.argv
        if self.argv and i < len(self.argv) and self.argv == self.c["args"] and self.alt() and n == 0 and self.argv[i]:
            self.argv = v = [b""]
        if i < len(v):
            v[i] = bytes(65 + (j & 15) for j in range(len(v[i])))
            self.need(n, len(v[i]) & 255, w)
        else:
            self.need(n, 0, w)

    def op_K(self, w):
        self.need(self.r.u8(), 0, w + ": data of the program changed")

    def op_D(self, w, i, n):
        self.need(self.r.u8(), 0, w + ": the stack was damaged")

    def op_E(self, w, how, depth, code):
        raise Ended(how, code)

    def op_R(self, w, code):
        raise Ended(1, code)

    def go(self):
        """-> (how, code)"""
        try:
            self.script(0)
            how, code = 1, 0
        except Ended as x:
            how, code = x.args
        if how != 1:
            return how, code
        while self.reg:
            h = self.reg.pop()
            self.runs += 1
            self.need(chr(self.r.u8()), "H", "handler run %d: report" % self.runs)
            self.need(self.r.u8(), h, "handler run %d" % self.runs)
            try:
                self.script(self.runs)
            except Ended as x:
                return x.args
            self.need(chr(self.r.u8()), "h", "handler run %d: end report" % self.runs)
        for f in self.sure:
            self.flush(f)
        return 1, code


def brief(v):
    return repr([x if len(x) < 40 else x[:20] + b"..[%d].." % len(x) + x[-8:] for x in v[:12]]) + ("... %d in all" % len(v) if len(v) > 12 else "")


def judge(c, x, get, native=False):
    err = x.err
    msg = err.startswith(MSG)
    if msg:
        err = err[len(MSG):]
    m = Sim(c, err, native)
    if msg and m.alt() is None:
        return "the arguments were not provided although there is room for them"
    try:
        how, code = m.go()
        if not m.r.end():
            raise Bad("unexpected report at the end: %r" % m.r.b[m.r.i:m.r.i + 40])
    except (Bad, EOFError) as e:
        return "%s; ended with %s %s" % (e, x.status, x.detail[:200])
    if how in (1, 2):
        want = code if native else code & 0xffffffff
        if not isinstance(x.status, int) or x.status & 0xffffffff != want:
            return "ended with %s %s, expected status %s" % (x.status, x.detail[:200], want)
    elif how == 3:
        if x.status in (0, "out-of-fuel"):
            return "abort ended with %r" % x.status
    elif x.status != ("trap:unreachable" if how == 4 else "trap:div0"):
        return "%s ended with %r" % (["a failed assertion", "a division by zero"][how - 4], x.status)
    for f in m.sure:
        b = x.out if f == "<1>" else get(f)
        all_ = None if m.sure[f] is None else m.sure[f] + m.pend[f]
        if how == 1:
            ok = b == all_
        elif all_ is None:
            ok = b is None
        else:
            ok = b is not None and all_.startswith(b) and len(b) >= len(m.sure[f])
        if not ok:
            d = 0
            while b and all_ and d < min(len(b), len(all_)) and b[d] == all_[d]:
                d += 1
            return "%s at the end: %s bytes, expected %s%s; first difference at %d" % (f, b if b is None else len(b), "" if how == 1 else "at least %s of " % len(m.sure[f] or b""), all_ if all_ is None else len(all_), d)
    return None


def show_op(o):
    n = {"A": "atexit", "T": "trace", "P": "fputs(stdout)", "O": "fopen", "F": "fputs", "C": "fclose", "B": "setvbuf", "L": "fflush", "G": "getenv", "M": "malloc", "V": "argv", "W": "write argv",
         "K": "check", "D": "recurse", "R": "return"}
    if o[0] == "E":
        return "%s(%d) at depth %d" % (["", "exit", "_exit", "abort", "assert", "divide by zero"][o[1]], o[3], o[2])
    return "%s%r" % (n[o[0]], tuple(x if not isinstance(x, bytes) or len(x) < 40 else x[:20] + b"..[%d]" % len(x) for x in o[1:]))


def show(c):
    k, s, a, sp, lvl = c["cf"]
    r = ["main: %s, -s %s, -a %s, -O %d%s" % (k, s, a, lvl, ", compiled and linked separately" if sp else ""), "args: " + brief(c["args"]), "env: %r" % c["env"], "files: %r" % c["files"]]
    for i, sc in enumerate(c["scripts"]):
        r.append("script %d:" % i if i else "main:")
        r += ["  " + show_op(o) for o in sc]
    return "\n".join(r)


CONFS = configs()
