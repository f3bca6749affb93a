"""C21: mathematical functions."""
import ctypes
import ctypes.util
import math
import struct

from vlib.clib import LibFamily, u32, u64

TECHNIQUE = "property-based testing of math.h: bit-exact models for exact functions, error in units of the last place against glibc confirmed with mpmath otherwise"
RULE = ("arguments are random bit patterns, values spread over the exponent range, values a few units around powers of two, integers, half-integers, multiples of pi/2 and pi/4, "
        "overflow/underflow thresholds and special values; pow and atan2 get pairs aimed at branch and range limits. Exact functions (rounding, decomposition, remainder, sign, "
        "classification, square root) must agree bit for bit; the others must lie within the stated bound of the true value and have the IEEE special results. Non-trivial: every case; distinct by function and argument bits.")
ASSUMPTIONS = ["errno and floating-point exceptions are not part of this library's contract (its entries 'follow IEEE semantics')", "NaN payloads and the sign of zero from fmax/fmin of mixed zeros are free",
               "error bounds: 1 unit in the last place, 1.6 for tan (whose algorithm ignores the reduction's tail for tiny remainders), 2 for atan2, 3 for sinh, cosh, tanh, log10"]

DRV = r'''
#include <math.h>
int cls_(double x) {
  switch (fpclassify(x)) {
    case FP_NAN: return 0;
    case FP_INFINITE: return 1;
    case FP_ZERO: return 2;
    case FP_SUBNORMAL: return 3;
    case FP_NORMAL: return 4;
  }
  return 9;
}
void cmd_(int op) {
  double x = gd(), y, z; int n;
  switch (op) {
    case 0: pd(acos(x)); break;
    case 1: pd(asin(x)); break;
    case 2: pd(atan(x)); break;
    case 3: pd(cos(x)); break;
    case 4: pd(sin(x)); break;
    case 5: pd(tan(x)); break;
    case 6: pd(cosh(x)); break;
    case 7: pd(sinh(x)); break;
    case 8: pd(tanh(x)); break;
    case 9: pd(exp(x)); break;
    case 10: pd(log(x)); break;
    case 11: pd(log10(x)); break;
    case 12: pd(expm1(x)); break;
    case 13: y = gd(); pd(atan2(x, y)); break;
    case 14: y = gd(); pd(pow(x, y)); break;
    case 20: pd(sqrt(x)); break;
    case 21: pd(ceil(x)); break;
    case 22: pd(fabs(x)); break;
    case 23: pd(floor(x)); break;
    case 24: pd(round(x)); break;
    case 25: pd(trunc(x)); break;
    case 26: pd(nearbyint(x)); break;
    case 27: y = gd(); pd(fmod(x, y)); break;
    case 28: y = gd(); pd(fmax(x, y)); break;
    case 29: y = gd(); pd(fmin(x, y)); break;
    case 30: y = gd(); z = copysign(x, y); pd(z); p8(signbit(z) != 0); break;
    case 31: n = 77; pd(frexp(x, &n)); p32(n); break;
    case 32: n = g32(); pd(ldexp(x, n)); break;
    case 33: n = g32(); pd(scalbn(x, n)); break;
    case 34: y = 77; pd(modf(x, &y)); pd(y); break;
    case 35: p8(cls_(x)); p8(isfinite(x) != 0); p8(isinf(x) != 0); p8(isnan(x) != 0); p8(isnormal(x) != 0); p8(signbit(x) != 0); break;
  }
}
'''
NAMES = {0: "acos", 1: "asin", 2: "atan", 3: "cos", 4: "sin", 5: "tan", 6: "cosh", 7: "sinh", 8: "tanh", 9: "exp", 10: "log", 11: "log10", 12: "expm1", 13: "atan2", 14: "pow",
         20: "sqrt", 21: "ceil", 22: "fabs", 23: "floor", 24: "round", 25: "trunc", 26: "nearbyint", 27: "fmod", 28: "fmax", 29: "fmin", 30: "copysign", 31: "frexp", 32: "ldexp",
         33: "scalbn", 34: "modf", 35: "fpclassify"}
TWO = {13, 14, 27, 28, 29, 30}
LOOSE = {6, 7, 8, 11}

_m = ctypes.CDLL(ctypes.util.find_library("m") or "libm.so.6")
for _n in list(NAMES.values())[:13] + ["round", "trunc", "nearbyint", "ceil", "floor", "sqrt"]:
    _f = getattr(_m, _n)
    _f.restype, _f.argtypes = ctypes.c_double, [ctypes.c_double]
for _n in ("atan2", "pow", "fmod"):
    _f = getattr(_m, _n)
    _f.restype, _f.argtypes = ctypes.c_double, [ctypes.c_double] * 2
for _n in ("ldexp",):
    _f = getattr(_m, _n)
    _f.restype, _f.argtypes = ctypes.c_double, [ctypes.c_double, ctypes.c_int]


def bits(d):
    return struct.unpack("<Q", struct.pack("<d", d))[0]


def dbl(b):
    return struct.unpack("<d", struct.pack("<Q", b & (1 << 64) - 1))[0]


def ordered(b):
    return b if b < 1 << 63 else (1 << 63) - b


SPECIAL = [0, 1 << 63, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, 0xfff8 << 48, 1, (1 << 63) | 1, (1 << 52) - 1, 1 << 52, (0x7ff << 52) - 1, (1 << 63) | ((0x7ff << 52) - 1),
           bits(1.0), bits(-1.0), bits(0.5), bits(-0.5), bits(2.0), bits(10.0)]
PI2 = 1.5707963267948966


HARD = {}


def hard(e, i):
    """a double m * 2^e with m of at most 53 bits very close to a multiple of pi / 2: a convergent of 2^e / (pi / 2)"""
    if e not in HARD:
        import mpmath as mp
        with mp.workprec(2600):
            v = mp.mpf(2) ** e * 2 / mp.pi
            v -= mp.floor(v)        # m * v must be nearly whole
            p, q, r = 0, 1, []
            while v:
                v = 1 / v
                a = int(mp.floor(v))
                v -= a
                p, q = q, a * q + p
                if q >= 1 << 53:
                    break
                r.append(q)
        HARD[e] = [m for m in r if m][-4:]
    return bits(math.ldexp(HARD[e][-1 - i % len(HARD[e])], e))


def nudge(s, b):
    """a few units away, or the same high word"""
    k = s.weighted([(3, 0), (3, 1), (2, 2), (1, 3)])
    if k == 0:
        return b
    if k == 1:
        return (b + s.int(-4, 4)) & (1 << 64) - 1
    if k == 2:
        return (b & ~0xffffffff) + (s.int(-1, 1) << 32) + s.choice([0, 0xffffffff, s.draw(0xffffffff)]) & (1 << 64) - 1
    return (b + s.int(-1 << 24, 1 << 24)) & (1 << 64) - 1


def gen_x(s, op):
    k = s.weighted([(3, "mid"), (2, "exp"), (2, "pow2"), (2, "int"), (1, "spec"), (1, "bits"), (3, "aim")])
    sg = s.draw(1) << 63
    if k == "mid":
        return sg | s.int(1003, 1043) << 52 | s.draw((1 << 52) - 1)
    if k == "exp":
        return sg | s.draw(2046) << 52 | s.draw((1 << 52) - 1)
    if k == "pow2":
        return sg | nudge(s, (s.int(1023 - 70, 1023 + 70) if s.bool(3, 4) else s.draw(2046)) << 52) & (1 << 63) - 1
    if k == "int":
        n = s.draw(100) if s.bool() else s.draw(1 << s.int(1, 54))
        return sg | nudge(s, bits(n / s.choice([1, 1, 2, 4, 8]))) & (1 << 63) - 1
    if k == "spec":
        return s.choice(SPECIAL)
    if k == "bits":
        return s.draw((1 << 64) - 1)
    # aimed at what the function does
    if op in (3, 4, 5) and s.bool(1, 3):
        return sg | nudge(s, hard(s.int(-20, 971), s.draw(3)))
    if op in (3, 4, 5):
        n = s.draw(64) if s.bool() else s.draw(1 << s.int(2, 60))
        b = bits(n * PI2 / s.choice([1, 1, 2]))
        return sg | nudge(s, b) & (1 << 63) - 1
    if op in (6, 7, 8, 9, 12):
        t = s.choice([709.782712893384, 710.4758600739439, 745.1332191019411, 708.3964185322641, 0.34657359027997264, 1.0397207708399179, 22.0, 56 * 0.6931471805599453, 38.816242,
                      36.7368, 0.6931471805599453 * s.int(-1080, 1080)])
        return sg ^ nudge(s, bits(t))
    if op in (0, 1):
        return sg | nudge(s, bits(s.choice([1.0, 0.5, 0.975, 0.9999, 1 - 2.0 ** -s.int(1, 53), 2.0 ** -s.int(1, 60)]))) & (1 << 63) - 1
    if op in (2, 13):
        return sg | nudge(s, bits(s.choice([7 / 16, 11 / 16, 19 / 16, 39 / 16, 2.0 ** 66, 2.0 ** -29, 2.0 ** -27]))) & (1 << 63) - 1
    if op in (10, 11):
        return nudge(s, bits(s.choice([1.0, 2 ** .5, .5 ** .5, 1 + 2.0 ** -s.int(1, 52), 10.0 ** s.int(-300, 300), 2.0 ** s.int(-1074, 1023)]))) & (1 << 63) - 1
    if op == 20:
        n = s.draw(1 << 26)
        return nudge(s, bits(float(n * n) * 4.0 ** s.int(-500, 450)))
    if op in (21, 23, 24, 25, 26, 34):
        n = s.draw(1 << s.int(1, 53))
        return sg | nudge(s, bits(n + s.choice([0, 0.5, -0.5])) ) & (1 << 63) - 1
    return sg | s.draw(2046) << 52 | s.draw((1 << 52) - 1)


def gen_y(s, op, x):
    d = dbl(x)
    k = s.draw(3)
    if op == 14:
        if k == 0 and d == d and 0 < abs(d) < math.inf and abs(d) != 1:
            # results near the limits of the range
            t = s.choice([1024, -1022, -1074, -1075, 1023, 0.5, 1, -1, 53])
            y = t / math.log2(abs(d))
            if s.bool():
                y = float(round(y))
            return nudge(s, bits(y)) if math.isfinite(y) else s.choice(SPECIAL)
        if k == 1:
            return bits(float(s.int(-40, 40)) * s.choice([1, 1, .5, .25])) if s.bool(2, 3) else nudge(s, bits(s.choice([2.0 ** 53, 2.0 ** 52, 2.0 ** 31, 2.0 ** 64, 1e300, 2.0 ** 63, -2.0 ** 53])))
    if op == 13 and k == 0 and math.isfinite(d):
        e = s.choice([0, 1, -1, 60, 61, 64, -60, -61, -64, s.int(-70, 70)])
        try:
            return nudge(s, bits(math.ldexp(d, e))) ^ s.draw(1) << 63
        except OverflowError:
            pass
    if op == 27 and k == 0 and math.isfinite(d):
        try:
            y = math.ldexp(s.int(1, 1 << s.int(1, 53)), s.int(-60, 60)) if s.bool() else d / s.int(1, 1 << s.int(1, 40))
        except OverflowError:
            y = 1.0
        return nudge(s, bits(y)) ^ s.draw(1) << 63
    if op in (28, 29) and k == 0:
        return nudge(s, x)
    return gen_x(s, op)


def cdiv(f, *a):
    return f(*a)


def true_error(op, x, y, got):
    """error of got in units in the last place of the true value, by mpmath"""
    import mpmath as mp
    with mp.workprec(200):
        X = mp.mpf(x)
        n = NAMES[op]
        if op == 13:
            v = mp.atan2(X, mp.mpf(y))
        elif op == 14:
            v = mp.power(X, mp.mpf(y)) if x > 0 or y != int(y) else mp.power(-X, mp.mpf(y)) * (-1 if int(y) % 2 else 1)
        elif op == 11:
            v = mp.log10(X)
        else:
            v = getattr(mp, n)(X)
        if isinstance(v, mp.mpc) or mp.isnan(v):
            return mp.inf
        a = abs(v)
        if a == 0:
            u = mp.mpf(2) ** -1074
        else:
            e = max(int(mp.floor(mp.log(a, 2))), -1022)
            u = mp.mpf(2) ** (e - 52)
        if math.isinf(got):
            # overflow is right from the largest number plus half a unit
            lim = (mp.mpf(2) ** 1024 - mp.mpf(2) ** 970 * 4)
            return mp.mpf(0) if a >= lim and (v > 0) == (got > 0) else mp.inf
        return abs(mp.mpf(got) - v) / u


class Inexact(LibFamily):
    name, quick, thorough, batch = "functions", 900000, 12000000, 6000
    driver = DRV

    def gen(self, s):
        op = s.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 13, 14, 14, 14])
        s.tag(NAMES[op])
        x = gen_x(s, op)
        return op, x, gen_y(s, op, x) if op in TWO else 0

    def key(self, c):
        return repr(c)

    def show(self, c):
        return "%s(%s%s)  [%.17g%s]" % (NAMES[c[0]], dbl(c[1]).hex(), ", " + dbl(c[2]).hex() if c[0] in TWO else "", dbl(c[1]), ", %.17g" % dbl(c[2]) if c[0] in TWO else "")

    def req(self, c):
        return bytes([c[0]]) + u64(c[1]) + (u64(c[2]) if c[0] in TWO else b"")

    def judge(self, c, rd):
        op, x, y = c[0], dbl(c[1]), dbl(c[2])
        got = rd.f64()
        f = getattr(_m, NAMES[op])
        e = f(x, y) if op in TWO else f(x)
        if e != e or got != got:
            return None if e != e and got != got else "gives %r, expected %r" % (got, e)
        if bits(got) == bits(e):
            return None
        if got == 0 and e == 0:
            return "gives a zero of the wrong sign: %r" % got
        if x == 0 or math.isinf(x) or op in TWO and (y == 0 or math.isinf(y)):
            if abs(ordered(bits(got)) - ordered(bits(e))) <= 1 and math.isfinite(e):
                return None
            return "gives %r, expected %r" % (got, e)
        er = true_error(op, x, y, got)
        lim = 3 if op in LOOSE else 2 if op == 13 else 1.6 if op == 5 else 1
        if er <= lim:
            return None
        return "gives %r (%s), expected %r (%s): off by %.4g units in the last place" % (got, got.hex(), e, e.hex(), float(er) if er < 1e300 else 1e300)


def cls(b):
    e, m = b >> 52 & 0x7ff, b & (1 << 52) - 1
    return (0 if m else 1) if e == 0x7ff else (4 if e else 3 if m else 2)


class Exact(LibFamily):
    name, quick, thorough, batch = "exact", 600000, 10000000, 6000
    driver = DRV

    def gen(self, s):
        op = s.int(20, 35)
        s.tag(NAMES[op])
        x = gen_x(s, op)
        y = 0
        if op in TWO:
            y = gen_y(s, op, x)
        elif op in (32, 33):
            y = s.int(-60, 60) if s.bool() else s.int(-2200, 2200) if s.bool(3, 4) else s.choice([2 ** 31 - 1, -2 ** 31, 50000, -50000, 50001, -50001, s.int(-2 ** 31, 2 ** 31 - 1)])
        return op, x, y

    def key(self, c):
        return repr(c)

    def show(self, c):
        op, x, y = c
        return "%s(%s%s)  [%.17g, bits %016x]" % (NAMES[op], dbl(x).hex(), ", " + dbl(y).hex() if op in TWO else ", %d" % y if op in (32, 33) else "", dbl(x), x)

    def req(self, c):
        return bytes([c[0]]) + u64(c[1]) + (u64(c[2]) if c[0] in TWO else u32(c[2]) if c[0] in (32, 33) else b"")

    def judge(self, c, rd):
        op, bx, by = c
        x = dbl(bx)
        n = NAMES[op]
        if op == 35:
            g = [rd.u8() for _ in range(6)]
            k = cls(bx)
            e = [k, k >= 2, k == 1, k == 0, k == 4, bx >> 63]
            return None if g == [int(v) for v in e] else "class, isfinite, isinf, isnan, isnormal, signbit are %s, expected %s" % (g, [int(v) for v in e])
        got = rd.f64()
        alt = None
        if op in (20, 21, 23, 24, 25, 26):
            e = getattr(_m, n)(x)
        elif op == 22:
            e = dbl(bx & (1 << 63) - 1)
        elif op == 27:
            e = _m.fmod(x, dbl(by))
        elif op in (28, 29):
            y = dbl(by)
            if x != x or y != y:
                e = y if x != x else x
            else:
                e = max(x, y) if op == 28 else min(x, y)
                if x == 0 and y == 0:
                    alt = -e
                    if bx == by:
                        alt = e = x
        elif op == 30:
            e = dbl(bx & (1 << 63) - 1 | by & 1 << 63)
            sg = rd.u8()
            if sg != by >> 63:
                return "sign of the result is %d" % sg
        elif op == 31:
            ex = rd.i32()
            if cls(bx) < 2:
                e = x
            else:
                e, k = math.frexp(x)
                if k != ex:
                    return "exponent %d, expected %d" % (ex, k)
        elif op in (32, 33):
            e = _m.ldexp(x, by)
        elif op == 34:
            ip = rd.f64()
            if x != x:
                return None if got != got and ip != ip else "modf of NaN gives %r, %r" % (got, ip)
            i = x if math.isinf(x) else _m.trunc(x)
            e = math.copysign(0.0 if math.isinf(x) else x - i, x)
            if bits(ip) != bits(i):
                return "integral part %r, expected %r" % (ip, i)
        if e != e or got != got:
            return None if e != e and got != got else "gives %r, expected %r" % (got, e)
        if bits(got) == bits(e) or alt is not None and bits(got) == bits(alt):
            return None
        return "gives %r (%s), expected %r (%s)" % (got, got.hex(), e, e.hex())


FAMILIES = [Inexact(), Exact()]
