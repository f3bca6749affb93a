import ctypes
import errno
import struct

from vlib import clib
from vlib.clib import LibFamily, blk, u32

TECHNIQUE = "differential property-based testing of the text-to-number functions (exact integer model; correctly rounding host strtod)"
RULE = ("Random and structured texts (numbers in every base with signs, prefixes, white space, over-long digit strings, halfway and subnormal "
        "decimals, hexadecimal floats, inf/nan words, truncated exponents and junk) are converted by a program compiled with the tree's library; "
        "value, end pointer and errno must match an exact model. Non-trivial: the text has a convertible prefix; distinct by text and function.")
ASSUMPTIONS = ["the host C library's strtod is correctly rounding", "the sign of a NaN is not specified", "atoi-family results are compared only when representable"]

WS = " \t\n\v\f\r"
DRV = r'''
char tb_[8192];
void cmd_(int op) {
  char *s = gs(&tb_[0], 8192), *e = NULL; int base = g32();
  errno = 0;
  switch (op) {
    case 0: pd(strtod(s, &e)); break;
    case 1: { long v = strtol(s, &e, base); p64((unsigned long long)(long long)v); } break;
    case 2: { unsigned long v = strtoul(s, &e, base); p64((unsigned long long)v); } break;
    case 3: p64((unsigned long long)strtoll(s, &e, base)); break;
    case 4: p64(strtoull(s, &e, base)); break;
    case 5: p64((unsigned long long)(long long)atoi(s)); break;
    case 6: p64((unsigned long long)(long long)atol(s)); break;
    case 7: p64((unsigned long long)atoll(s)); break;
    case 8: pd(atof(s)); break;
    case 9: pd(strtod(s, NULL)); break;
    case 10: p64((unsigned long long)(long long)strtol(s, NULL, base)); break;
  }
  p32(e == NULL ? -1 : (int)(e - s));
  p32(errno);
}
'''
ERANGE = 68          # errno.h of the library


def host_strtod(b, _l=[]):
    if not _l:
        c = ctypes.CDLL(None, use_errno=True)
        c.strtod.restype = ctypes.c_double
        c.strtod.argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_char_p)]
        _l.append(c)
    c = _l[0]
    buf = ctypes.create_string_buffer(b)
    e = ctypes.c_void_p()
    f = c.strtod
    f.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
    ctypes.set_errno(0)
    v = f(ctypes.addressof(buf), ctypes.addressof(e))
    en = ctypes.get_errno()
    return v, e.value - ctypes.addressof(buf), en


def digits(s, n, base=10):
    return "".join("0123456789abcdefghijklmnopqrstuvwxyz"[s.draw(base - 1)] for _ in range(n))


def case_mix(s, t):
    k = s.draw(2)
    if k == 0:
        return t
    if k == 1:
        return t.upper()
    return "".join(c.upper() if s.bool() else c for c in t)


def lead(s):
    w = "".join(s.choice(WS) for _ in s.many(0, 3, 1)) if s.bool(1, 4) else ""
    return w + s.weighted([(4, ""), (2, "-"), (1, "+")])


def tail(s):
    return s.weighted([(4, ""), (1, " "), (1, "x"), (1, "."), (1, "e"), (1, "9"), (1, "-1"), (1, "\x80"), (1, "z")])


def dbl(s):
    """a double of interest"""
    k = s.draw(5)
    if k == 0:
        u = (s.draw(2046) << 52) | s.draw((1 << 52) - 1)
    elif k == 1:
        u = s.draw((1 << 52) - 1)                                  # subnormal
    elif k == 2:
        u = (s.draw(2046) << 52) + s.int(-2, 2) & 0x7fefffffffffffff  # around powers of two
    elif k == 3:
        return float(s.draw(10 ** 6)) / 10 ** s.draw(6)
    elif k == 4:
        return float(s.draw(1 << 60))
    else:
        u = (s.int(1013, 1083) << 52) | s.draw((1 << 52) - 1)
    return struct.unpack("<d", struct.pack("<Q", u & 0x7fffffffffffffff))[0]


def dec_text(s):
    """decimal text around a double: exact, shortest, halfway to the next, nudged"""
    from fractions import Fraction
    v = dbl(s)
    if v != v or v == float("inf"):
        v = 1.5
    k = s.draw(6)
    s.tag("dec%d" % k)
    if k == 0:
        return repr(v)
    if k == 1:
        return "%.*e" % (s.draw(25), v)
    if k == 2 and v < 1e30 and v > 1e-30:
        return "%.*f" % (s.draw(20), v)
    u = struct.unpack("<Q", struct.pack("<d", v))[0]
    nxt = struct.unpack("<d", struct.pack("<Q", u + 1))[0]
    if nxt == float("inf"):
        nx = Fraction(2) ** 1024
    else:
        nx = Fraction(nxt)
    h = (Fraction(v) + nx) / 2
    if h == 0:
        return "0"
    # exact decimal of h = p / 2^q
    p, q = h.numerator, h.denominator.bit_length() - 1
    d = str(p * 5 ** q)
    e = -q
    if k == 3:
        pass                                              # exact halfway
    elif k == 4:
        z = s.draw(30) if s.bool(3, 4) else max(0, s.choice([790, 798, 799, 800, 801, 802, 850]) - len(d) + s.draw(3))
        d, e = d + "0" * z + s.choice("1123456789"), None           # just above
        s.tag("dec-long" if len(d) > 800 else "dec-short")
    elif k == 6:
        d, e = d + "0" * max(0, s.choice([20, 700, 795, 799, 800, 801, 802, 850]) - len(d) + s.draw(3)), None     # exactly so, with more digits
    else:
        d, e = str(int(d) - 1) if len(d) > 1 else d, -q   # just below in the last digit
    if e is None:
        e = -q - (len(d) - len(str(p * 5 ** q)))
    if s.bool() and 0 < -e < 900:
        dd = d.rjust(-e + 1, "0")
        return dd[:e] + "." + dd[e:]
    j = s.draw(min(len(d), 40))
    if j:
        return d[:j] + "." + d[j:] + "e%d" % (e + len(d) - j)
    return d + "e%d" % e


def flt_text(s):
    k = s.weighted([(6, "dec"), (4, "rand"), (3, "hex"), (2, "word"), (1, "junk"), (2, "edge")])
    s.tag("flt-" + k)
    if k == "dec":
        t = dec_text(s)
    elif k == "rand":
        t = digits(s, s.draw(25)) + s.choice(["", ".", "." + digits(s, s.draw(25))])
        if s.bool():
            t += s.choice("eE") + s.choice(["", "-", "+"]) + digits(s, s.draw(4))
    elif k == "hex" and s.bool(1, 3):        # around a midpoint, with many digits
        b = s.choice([54, 54, 54, 55, 53, s.int(40, 60)])
        m = (1 << b - 1) | s.draw((1 << b - 1) - 1) | 1
        sh = s.draw(3)
        h = "%x" % (m << sh)
        z = s.choice([0, 3, 12, 13, 14, 15, 16, 17, 18, 30, 40])
        h = "0" * s.choice([0, 0, 0, 1, 5, 40]) + h + "0" * z + s.choice(["", "0", "1", "2", "4", "8", "f"])
        j = s.int(0, len(h))
        h = h[:j] + s.choice(["", ".", "."]) + h[j:]
        s.tag("hex-mid")
        t = "0" + s.choice("xX") + case_mix(s, h) + s.choice(["", "p%d" % s.int(-1200, 1100), "P-%d" % (4 * (len(h) - j)), "p+%d" % s.draw(20)])
    elif k == "hex":
        t = "0" + s.choice("xX") + case_mix(s, digits(s, s.draw(20), 16)) + s.choice(["", ".", "." + digits(s, s.draw(20), 16)])
        if s.bool(2, 3):
            t += s.choice("pP") + s.choice(["", "-", "+"]) + digits(s, s.draw(4))
    elif k == "word":
        w = case_mix(s, s.choice(["inf", "infinity", "nan", "nan(abc1)", "nan()", "nan(", "nan(12", "infinit", "in", "na", "i", "n", "nan(a-b)"]))
        t = w
    elif k == "edge":
        t = s.choice(["1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1e309", "1e-324", "2.4703282292062327e-324", "2.4703282292062328e-324",
                      "4.9e-324", "2.2250738585072011e-308", "2.2250738585072014e-308", "1e99999999999", "1e-99999999999", "0e99999999999", "0." + "0" * 400 + "1e400",
                      "1" + "0" * 400 + "e-400", "9007199254740993", "9007199254740993." + "0" * 60 + "1", "0x1.fffffffffffff8p1023", "0x1.fffffffffffff7ffp1023",
                      "0x0.00000000000008p-1022", "0x1p-1075", "0x1.0000000000001p-1075", "0x1p-1074", "0x", "0x.", "0xg", "0x.p1", ".e1", ".", "..1", "1..", "1e", "1e+", "1e-", "1e+x", "00", "-0", "-0.0e5", "0x0p0"])
    else:
        t = "".join(s.choice("0123456789.eE+-xXpPinfatyINF() ") for _ in range(s.draw(12)))
    return lead(s) + t + tail(s)


class Floats(LibFamily):
    name, quick, thorough, batch = "floats", 250000, 6000000, 1000
    driver = DRV

    def gen(self, s):
        return (s.weighted([(6, 0), (1, 8), (1, 9)]), flt_text(s), 0)

    def nontrivial(self, c, tags):
        return any(ch.isdigit() for ch in c[1]) or "n" in c[1].lower()

    def req(self, c):
        return bytes([c[0]]) + blk(c[1].encode("latin-1")) + u32(c[2])

    def show(self, c):
        return "%s(%r)" % (("strtod", "strtol", "strtoul", "strtoll", "strtoull", "atoi", "atol", "atoll", "atof", "strtod[NULL end]", "strtol[NULL end]")[c[0]], c[1]) + ("" if c[0] in (0, 5, 6, 7, 8, 9) else " base %d" % c[2])

    def judge(self, c, rd):
        got, end, en = rd.u64(), rd.i32(), rd.i32()
        v, e, een = host_strtod(c[1].encode("latin-1"))
        exp = 0x7ff8000000000000 if v != v else struct.unpack("<Q", struct.pack("<d", v))[0]
        if e == 0:
            exp = 0
        if got != exp:
            return "value %r (%016x), expected %r (%016x)" % (struct.unpack("<d", struct.pack("<Q", got))[0], got, v, exp)
        if c[0] == 0 and end != e:
            return "end pointer at %d, expected %d" % (end, e)
        x = ERANGE if een == errno.ERANGE else 0
        if en != x and not (abs(v) == 2.2250738585072014e-308):
            return "errno %d, expected %d" % (en, x)
        return None


INTS = {1: (32, True), 2: (32, False), 3: (64, True), 4: (64, False), 5: (32, True), 6: (32, True), 7: (64, True), 10: (32, True)}


def model_int(t, base, bits, signed):
    """(value as 64-bit pattern, end, errno) of strto*"""
    i = 0
    while i < len(t) and t[i] in WS:
        i += 1
    neg = False
    if i < len(t) and t[i] in "+-":
        neg = t[i] == "-"
        i += 1

    def dv(ch):
        o = ord(ch)
        if 48 <= o <= 57:
            return o - 48
        if 97 <= o <= 122:
            return o - 87
        if 65 <= o <= 90:
            return o - 55
        return 99
    hexp = t[i:i + 2].lower() == "0x" and i + 2 < len(t) and dv(t[i + 2]) < 16
    b = base
    if b == 0:
        b = 16 if hexp else 8 if t[i:i + 1] == "0" else 10
    if b == 16 and hexp:
        i += 2
    j, v = i, 0
    while j < len(t) and dv(t[j]) < b:
        v = v * b + dv(t[j])
        j += 1
    if j == i:
        return 0, 0, 0
    en = 0
    if signed:
        lo, hi = -(1 << bits - 1), (1 << bits - 1) - 1
        v = -v if neg else v
        if v < lo or v > hi:
            v, en = (lo if v < lo else hi), ERANGE
    else:
        m = (1 << bits) - 1
        if v > m:
            v, en = m, ERANGE
        elif neg:
            v = -v & m
    return v & ((1 << 64) - 1), j, en


class Ints(Floats):
    name, quick, thorough, batch = "ints", 250000, 6000000, 1000
    driver = DRV

    def gen(self, s):
        op = s.weighted([(3, 1), (3, 2), (3, 3), (3, 4), (1, 5), (1, 6), (1, 7), (1, 10)])
        base = s.choice([0, 10, 16, 8, 2, 36]) if s.bool(2, 3) else s.int(2, 36)
        if op in (5, 6, 7):
            base = 10
        b = base or s.choice([10, 16, 8])
        k = s.draw(5)
        s.tag("int%d" % k)
        bits, sg = INTS[op]
        if k <= 1:
            t = case_mix(s, digits(s, s.draw(24), b))
        elif k == 2:        # around the limits
            v = s.choice([(1 << bits - 1), (1 << bits), (1 << bits - 1) // b * b, (1 << bits) // b, 1 << 64, 1 << 63]) + s.int(-3, 3)
            d = ""
            while v:
                d = "0123456789abcdefghijklmnopqrstuvwxyz"[v % b] + d
                v //= b
            t = case_mix(s, d)
        elif k == 3:
            t = case_mix(s, digits(s, s.draw(6), min(36, b + 2)))
        elif k == 4:
            t = "".join(s.choice("0123456789xXabzAZ+- ") for _ in range(s.draw(8)))
        else:
            t = "0" * s.draw(4) + digits(s, s.draw(4), b)
        if s.bool(1, 4) or (base in (0, 16) and b == 16 and s.bool()):
            t = s.choice(["0x", "0X", "0"]) + t
        return (op, lead(s) + t + tail(s), base)

    def judge(self, c, rd):
        got, end, en = rd.u64(), rd.i32(), rd.i32()
        bits, sg = INTS[c[0]]
        v, e, een = model_int(c[1], c[2], bits, sg)
        if c[0] in (5, 6, 7):
            if een:
                return None
            if got != v:
                return "value %d, expected %d" % (got, v)
            return None
        if got != v:
            return "value %#x, expected %#x" % (got, v)
        if c[0] != 10 and end != e:
            return "end pointer at %d, expected %d" % (end, e)
        if en != een:
            return "errno %d, expected %d" % (en, een)
        return None


FAMILIES = [Floats(), Ints()]
