"""C13: formatted output."""
import itertools

from vlib import clib, cprintf
from vlib.clib import LibFamily, Rd, blk, build_driver, run_module, split_answers, u32, u64

TECHNIQUE = "model-based property-based testing of formatted output (exact integer/string model, bounded-error rational model for floating point)"
RULE = ("Random format strings (all conversions, flags in any order, widths and precisions given literally, by * and negative, length modifiers, literal text) with edge-biased "
        "arguments are printed through sprintf, snprintf of every size, their v-forms and fprintf; text, return value and untouched bytes must match the model. "
        "Non-trivial: at least one conversion; distinct by call.")
ASSUMPTIONS = ["the limits of the floating-point conversions pinned by the repository's tests are part of the property: nine fraction digits, exponent form above 1e9, %g keeps zeros, %p as eight digits",
               "a floating-point text may differ from the correctly rounded one only where the value is within 1e-4 units of a rounding boundary", "flags undefined for a conversion are not generated", "%n is not supported"]

SHAPES = [t for n in range(0, 5) for t in itertools.product("ILD", repeat=n)]
SHIDX = {t: i for i, t in enumerate(SHAPES)}
DRV = r'''
#include <stdio.h>
#include <stdarg.h>
typedef struct { int i; long long l; double d; char *p; } arg_t;
arg_t a_[4]; char f_[2000]; char o_[6000]; char st_[4][600];
struct { int fn; int n; } w_;
int call_(const char *f, ...) {
  va_list va; int r = -99; va_start(va, f);
  switch (w_.fn) {
    case 0: r = vsprintf(&o_[0], f, va); break;
    case 1: r = vsnprintf(&o_[0], (size_t)w_.n, f, va); break;
    case 2: r = vsnprintf(NULL, (size_t)0, f, va); break;
    case 3: r = vfprintf(stderr, f, va); break;
  }
  va_end(va); return r;
}
int direct_(const char *f) { /* the forms without va_list, for one argument */
  switch (w_.fn) {
    case 4: return sprintf(&o_[0], f, a_[0].l);
    case 5: return snprintf(&o_[0], (size_t)w_.n, f, a_[0].d);
    case 6: return fprintf(stderr, f, a_[0].i);
    case 7: return sprintf(&o_[0], f, a_[0].d);
    case 8: return snprintf(&o_[0], (size_t)w_.n, f, a_[0].i);
    case 9: return fprintf(stderr, f, a_[0].d);
  }
  return -98;
}
int pick_(int sh, const char *f) {
  switch (sh) {
%s
  }
  return -97;
}
void cmd_(int op) {
  int i, sh = g32(), r;
  w_.fn = g32(); w_.n = g32();
  gs(&f_[0], 2000);
  for (i = 0; i < 4; ++i) {
    int k = g8();
    if (k == 0) a_[i].i = g32(); else if (k == 1) a_[i].l = (long long)g64(); else if (k == 2) a_[i].d = gd();
    else if (k == 3) { gs(&st_[i][0], 600); a_[i].i = (int)(size_t)&st_[i][0]; }
    else if (k == 4) { a_[i].i = (int)(size_t)((char*)malloc((size_t)1) + 65536 * 3000); } /* a pointer not to be read */
  }
  for (i = 0; i < 6000; ++i) o_[i] = (char)0x7e;
  r = w_.fn <= 3 ? pick_(sh, &f_[0]) : direct_(&f_[0]);
  p32(r); if (w_.fn == 3 || w_.fn == 6 || w_.fn == 9) fflush(stderr); else pn(&o_[0], w_.fn == 2 ? 4 : w_.fn == 1 || w_.fn == 5 || w_.fn == 8 ? w_.n + 8 : r < 5000 && r >= 0 ? r + 8 : 100);
}
''' % "\n".join("    case %d: return call_(f%s);" % (i, "".join(", a_[%d].%s" % (j, {"I": "i", "L": "l", "D": "d"}[c]) for j, c in enumerate(t))) for i, t in enumerate(SHAPES))

LENS = {"hh": 8, "h": 16, "": 32, "l": 32, "ll": 64, "z": 32, "t": 32, "j": 64}


def ivals(s, bits):
    k = s.draw(3)
    if k == 0:
        return s.int(-12, 12)
    if k == 1:
        return s.choice([-(1 << bits - 1), (1 << bits - 1) - 1, (1 << bits) - 1, 0, 1, -1, 1 << bits - 1])
    if k == 2:
        return (10 ** s.draw(len(str(1 << bits)) - 1)) * s.choice([1, -1]) + s.int(-1, 1)
    return s.int(-(1 << bits - 1), (1 << bits) - 1)


def dval(s):
    k = s.weighted([(3, "dec"), (2, "half"), (2, "nines"), (1, "pow10"), (1, "bits"), (1, "sub"), (1, "special"), (1, "dyadic"), (1, "int")])
    s.tag("d-" + k)
    if k == "dec":
        v = float(s.draw(10 ** s.int(1, 9))) / 10 ** s.draw(9)
    elif k == "half":
        v = float("%d.%d5" % (s.draw(10 ** s.draw(5)), s.draw(10 ** s.draw(8)))) if s.bool() else (2 * s.draw(10 ** 6) + 1) / 2 / 10 ** s.draw(9)
    elif k == "nines":
        v = float("9" * s.int(1, 9) + "." + "9" * s.draw(12) + s.choice(["", "4", "5", "49", "6", "95"])) * 10.0 ** s.int(-12, 6)
    elif k == "pow10":
        v = 10.0 ** s.int(-320, 308)
        v = cprintf.ffrombits(max(0, cprintf.dbits(v) + s.int(-2, 2)))
    elif k == "bits":
        v = cprintf.ffrombits((s.draw(2046) << 52) | s.draw((1 << 52) - 1))
    elif k == "sub":
        v = cprintf.ffrombits(s.draw((1 << s.int(1, 53)) - 1))
    elif k == "special":
        v = s.choice([0.0, -0.0, float("inf"), float("nan"), 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e9, 1000000000.5, 999999999.9999999, 1e-290, 1e-291])
    elif k == "dyadic":
        v = s.draw(1 << s.int(1, 30)) / (1 << s.draw(12))
    else:
        v = float(s.draw(10 ** s.int(1, 12)))
    return -v if s.bool(1, 3) else v


TXT = [b"", b" ", b"a", b"-", b"x=", b"%%", b"\xc3\xa9", b"\n", b"100%% ", b"d", b"0x"]


def conversion(s, budget):
    """(format bytes, [(kind, value)], acceptable texts)"""
    cv = s.weighted([(6, "int"), (6, "float"), (2, "s"), (1, "c"), (1, "p")])
    fl = ""
    args = []
    al = {"int": "-+ #0", "float": "-+ #0", "s": "-", "c": "-", "p": ""}[cv]
    for _ in range(s.draw(4) if al and s.bool(2, 3) else 0):
        fl += s.choice(al)
    f = "%" + fl
    width, prec = 0, None
    if cv != "p" and s.bool(2, 5):
        width = s.weighted([(6, s.draw(12)), (2, s.draw(40)), (1, s.draw(300))])
        if s.bool(1, 3) and budget > 1:
            w = -width if s.bool(1, 3) else width
            args.append(("I", w))
            budget -= 1
            f += "*"
            if w < 0:
                fl += "-"
        elif width:
            f += str(width)
    if cv not in "pc" and s.bool(2, 5):
        prec = s.weighted([(6, s.draw(10)), (2, s.draw(20)), (1, s.draw(120))])
        f += "."
        if s.bool(1, 3) and budget > 1:
            p = prec
            if s.bool(1, 4):
                p = -1 - s.draw(3)
                prec = None
            args.append(("I", p))
            f += "*"
        elif prec or s.bool():
            f += str(prec)
    s.tag(cv)
    if cv == "int":
        ln = s.choice(list(LENS))
        c = s.choice("ddiuxXob")
        bits = LENS[ln]
        v = ivals(s, bits)
        s.tag("conv-" + c)
        u = v & (1 << bits) - 1
        x = u - (1 << bits) if c in "di" and u >> bits - 1 else u
        args.append(("L" if bits == 64 else "I", v))
        return f + ln + c, args, {cprintf.fmt_int(c, fl, width, prec, x).encode()}
    if cv == "float":
        c = s.choice("ffFeEgGaA")
        if s.bool():
            c = s.choice("feg")
        s.tag("conv-" + c)
        v = dval(s)
        args.append(("D", v))
        return f + s.choice(["", "", "l"]) * (c != "") + c, args, {t.encode() for t in cprintf.fmt_float(c, fl, width, prec, v)}
    if cv == "c":
        v = s.weighted([(4, s.int(32, 126)), (1, 0), (1, s.draw(255))])
        args.append(("I", v))
        b = bytes([v])
        return f + "c", args, {b.ljust(width) if "-" in fl else b.rjust(width)}
    if cv == "s":
        b = s.bytes(s.draw(12)).replace(b"\0", b"z") if s.bool(3, 4) else b"q" * s.draw(200)
        if prec == 0 and s.bool():
            args.append(("X", 0))
            b = b""
        else:
            args.append(("S", b))
        if prec is not None:
            b = b[:prec]
        return f + "s", args, {b.ljust(width) if "-" in fl else b.rjust(width)}
    v = ivals(s, 32) & 0xffffffff
    args.append(("I", v))
    return f + "p", args, {b"%08X" % v}


class Printf(LibFamily):
    name, quick, thorough, batch = "printf", 250000, 6000000, 300
    driver = DRV

    def gen(self, s):
        f, args, out = b"", [], [b""]
        for _ in range(s.weighted([(5, 1), (2, 2), (1, 3), (1, 0)])):
            t = s.choice(TXT)
            f += t
            out = [o + t.replace(b"%%", b"%") for o in out]
            c, a, e = conversion(s, 4 - len(args))
            if len(args) + len(a) > 4:
                break
            f += c.encode()
            args += a
            out = [o + x for o in out for x in sorted(e)][:64]
        t = s.choice(TXT)
        f += t
        out = [o + t.replace(b"%%", b"%") for o in out]
        fn = s.weighted([(3, 0), (4, 1), (1, 2), (2, 3), (3, 4)])
        n = 0
        if fn == 4:
            k = [a[0] for a in args]
            fn = {("L",): s.choice([4]), ("D",): s.choice([5, 7, 9]), ("I",): s.choice([6, 8])}.get(tuple(k), 0)
        if fn in (1, 5, 8):
            m = len(out[0])
            n = s.weighted([(3, m + 1), (1, m), (1, m + 2), (2, s.draw(m + 1)), (1, 0), (1, 1), (1, m + 100)])
        return f, tuple(args), tuple(out), fn, n

    def nontrivial(self, c, tags=None):
        return len(c[1]) > 0

    def key(self, c):
        return repr((c[0], c[1], c[3], c[4]))

    def show(self, c):
        fn = ["vsprintf", "vsnprintf", "vsnprintf(NULL)", "vfprintf", "sprintf", "snprintf", "fprintf", "sprintf", "snprintf", "fprintf"][c[3]]
        return "%s%s %r with %s" % (fn, " size %d" % c[4] if c[3] in (1, 5, 8) else "", c[0], ", ".join("%r" % (a[1],) for a in c[1]))

    def req(self, c):
        f, args, out, fn, n = c
        sh = tuple({"S": "I", "X": "I"}.get(a[0], a[0]) for a in args)
        b = b"\0" + u32(SHIDX[sh]) + u32(fn) + u32(n) + blk(f)
        for i in range(4):
            k, v = args[i] if i < len(args) else ("I", 0)
            if k == "I":
                b += b"\0" + u32(v)
            elif k == "L":
                b += b"\1" + u64(v)
            elif k == "D":
                b += b"\2" + u64(cprintf.dbits(v))
            elif k == "S":
                b += b"\3" + blk(v)
            else:
                b += b"\4"
        return b

    def run(self, ctx, cases):
        mod = build_driver(ctx, self.name, self.driver, self.opts)
        x = run_module(mod, ctx.sc.dir, b"".join(self.req(c) for c in cases))
        ans = split_answers(x.out)
        if x.status != 0 or len(ans) != len(cases):
            if len(cases) == 1:
                return ["program ends with %s %s (stderr %r)" % (x.status, x.detail[:300], x.err[:200])]
            h = len(cases) // 2
            return self.run(ctx, cases[:h]) + self.run(ctx, cases[h:])
        err = x.err
        res = []
        for c, a in zip(cases, ans):
            rd = Rd(a)
            f, args, out, fn, n = c
            try:
                r = rd.i32()
                if fn in (3, 6, 9):
                    g, err = err[:max(r, 0)], err[max(r, 0):]
                    res.append(None if g in out and r == len(g) else "returns %d and prints %r, expected %r" % (r, g, out[0]))
                    if res[-1] and len(cases) > 1:
                        # the rest of the stream is out of step
                        return res[:-1] + self.run(ctx, cases[len(res) - 1:len(res)]) + (self.run(ctx, cases[len(res):]) if len(res) < len(cases) else [])
                    continue
                b = rd.blk()
            except EOFError:
                res.append("answer malformed")
                continue
            if fn == 2:
                res.append(None if r in [len(o) for o in out] and b == b"~~~~" else "returns %d, expected %d" % (r, len(out[0])))
            elif fn in (1, 5, 8):
                ok = any(r == len(o) and b == ((o[:n - 1] + b"\0" if n else b"").ljust(n + 8, b"~")) for o in out)
                res.append(None if ok else "returns %d, buffer %r, expected %d and %r" % (r, b, len(out[0]), out[0][:max(n - 1, 0)]))
            else:
                ok = any(r == len(o) and b == o + b"\0" + b"~" * 7 for o in out)
                res.append(None if ok else "returns %d, buffer %r, expected %d and %r" % (r, b, len(out[0]), out[0]))
        if err and None in res and not any(res):
            return res[:-1] + ["extra output %r" % err[:100]]
        return res


FAMILIES = [Printf()]
