"""Generator of C programs in wcpl's documented language subset that are free
of undefined behaviour under (gcc -fwrapv-style) ILP32 C, so that any other
conforming compiler is a reference for what they must print."""
import struct

# ---------------------------------------------------------------- types


class T:
    __slots__ = ("n", "c", "size", "kind", "signed", "rank", "lo", "hi")

    def __init__(s, n, c, size, kind, signed, rank):
        s.n, s.c, s.size, s.kind, s.signed, s.rank = n, c, size, kind, signed, rank
        if kind == "i":
            b = 1 if n == "bool" else size * 8
            s.lo, s.hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed else (0, (1 << b) - 1)

    def __repr__(s):
        return s.n


BOOL = T("bool", "bool", 1, "i", False, 0)
CHAR = T("char", "char", 1, "i", True, 1)
SCHAR = T("schar", "signed char", 1, "i", True, 1)
UCHAR = T("uchar", "unsigned char", 1, "i", False, 1)
SHORT = T("short", "short", 2, "i", True, 2)
USHORT = T("ushort", "unsigned short", 2, "i", False, 2)
INT = T("int", "int", 4, "i", True, 3)
UINT = T("uint", "unsigned", 4, "i", False, 3)
LONG = T("long", "long", 4, "i", True, 4)
ULONG = T("ulong", "unsigned long", 4, "i", False, 4)
LLONG = T("llong", "long long", 8, "i", True, 5)
ULLONG = T("ullong", "unsigned long long", 8, "i", False, 5)
FLOAT = T("float", "float", 4, "f", True, 6)
DOUBLE = T("double", "double", 8, "f", True, 7)
INTS = [INT, UINT, CHAR, UCHAR, SHORT, USHORT, LONG, ULONG, LLONG, ULLONG, BOOL, SCHAR]
ARITH = INTS + [DOUBLE, FLOAT]
TW = [(6, INT), (4, UINT), (2, CHAR), (3, UCHAR), (2, SHORT), (3, USHORT), (2, LONG), (3, ULONG), (4, LLONG),
      (4, ULLONG), (2, BOOL), (1, SCHAR), (4, DOUBLE), (3, FLOAT)]
ITW = [(w, t) for w, t in TW if t.kind == "i"]


def promote(t):
    return INT if t.kind == "i" and t.rank < 3 else t


def common(a, b):
    if a.kind == "f" or b.kind == "f":
        return max((x for x in (a, b) if x.kind == "f"), key=lambda t: t.rank)
    a, b = promote(a), promote(b)
    if a is b:
        return a
    if a.signed == b.signed:
        return a if a.rank > b.rank else b
    u, s = (a, b) if not a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    if s.size > u.size:
        return s
    return {LONG: ULONG, LLONG: ULLONG}[s]


def implicit_ok(dst, src, store=False):
    """wcpl documents the conversion of src to dst without a cast (README:
    implicit conversion of longer to shorter integral types is unsupported;
    stores to narrow variables are accepted and narrow, as its own library
    relies on)"""
    if dst is BOOL:
        return src is BOOL
    if dst.rank < 3:
        if src.kind != "i":
            return False
        return (src.lo >= dst.lo and src.hi <= dst.hi) or (store and promote(src) is INT)
    d = promote(dst)
    if d.kind == "f":
        return src.kind == "i" or src.rank <= d.rank
    if src.kind == "f":
        return False
    return common(d, src) is d


# ---------------------------------------------------------------- literals

INTERESTING = [0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096,
               32767, 32768, 65535, 65536, 65537, 0x7fffff, 0xffffff, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001,
               0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 0x7fffffffff, 0x123456789abcdef, (1 << 53) - 1,
               1 << 53, (1 << 53) + 1, (1 << 62), (1 << 63) - 1, 1 << 63, (1 << 64) - 2, (1 << 64) - 1]


def gen_value(s, t):
    """a value of type t (python number)"""
    if t.kind == "f":
        return gen_float(s, t)
    k = s.draw(9)
    if k <= 3:
        v = s.draw(20) - (s.draw(10) if t.signed else 0)
    elif k <= 7:
        v = s.choice(INTERESTING)
        if s.bool():
            v = -v
        v += s.draw(2) - 1 if k == 7 else 0
    else:
        v = 0
        for _ in range((t.size + 1) // 2):
            v = v << 16 | s.draw(65535)
    if t is BOOL:
        return v & 1
    m = 1 << (t.size * 8)
    v %= m
    if t.signed and v >= m // 2:
        v -= m
    return v


FLTS = ["0.0", "1.0", "2.0", "0.5", "1.5", "-1.0", "3.0", "10.0", "0.1", "100.0", "-0.0", "1e10", "1e-10", "123456.789",
        "2147483647.0", "2147483648.0", "4294967295.0", "4294967296.0", "9007199254740993.0", "1e15", "1e16", "1e22",
        "1e23", "16777217.0", "3.4028234663852886e+38", "1.17549435e-38", "1e-45", "65504.0", "0.3333333333333333",
        "1.7976931348623157e+308", "2.2250738585072014e-308", "1e300", "1e-300", "9.5367431640625e-7",
        "3.141592653589793", "0.30000000000000004", "4503599627370497.5", "0.049999999999999996"]


def gen_float(s, t):
    k = s.draw(5)
    if k <= 3:
        v = float(s.choice(FLTS))
        if s.bool(1, 3):
            v = -v
    elif k == 4:
        v = (s.draw(2000) - 1000) / s.choice([1, 2, 3, 7, 10, 64, 1000])
    else:
        b = 0
        for _ in range(4):
            b = b << 16 | s.draw(65535)
        v = struct.unpack("<d", struct.pack("<Q", b))[0]
        if v != v or v in (float("inf"), float("-inf")) or abs(v) < 2.3e-308:
            v = 1.25
    if t.n == "float":
        try:
            v = struct.unpack("<f", struct.pack("<f", v))[0]
        except OverflowError:
            v = 2.5
    return v


def int_lit(s, v, t):
    """text of integer value v converted to type t; precedence of the text"""
    if t.rank >= 3:
        suf = {"int": ["", ""], "uint": ["u", "U"], "long": ["l", "L"], "ulong": ["ul", "UL"],
               "llong": ["ll", "LL"], "ullong": ["ull", "ULL"]}[t.n]
        suf = suf[s.draw(1)] if suf[0] != suf[1] else ""
        a = abs(v)
        if v < 0 and a > t.hi:
            return "(-%s%s - 1)" % (str(a - 1), suf), 16
        k = s.draw(5)
        if k <= 3:
            txt = str(a)
        elif k == 4:
            txt = ("0x%x" if s.bool() else "0X%X") % a
        else:
            txt = "0%o" % a if a else "00"
        if v < 0:
            return "-" + txt + suf, 14
        return txt + suf, 16
    txt, p = int_lit(s, v, INT)
    if t is CHAR and 32 <= v < 127 and s.bool(1, 3):
        ch = chr(v)
        lit = "'\\%s'" % ch if ch in "'\\" else "'%s'" % ch
        return "(char)%s" % lit, 14
    return "(%s)%s" % (t.c, txt if p >= 14 else "(" + txt + ")"), 14


def flt_lit(v, t):
    r = repr(abs(v))
    if "e" in r and "." not in r:
        r = r.replace("e", ".0e")
    txt = r + ("f" if t.n == "float" else "")
    if v < 0 or (v == 0 and str(v)[0] == "-"):
        return "-" + txt, 14
    return txt, 16


def lit(s, t, v=None):
    if v is None:
        v = gen_value(s, t)
    return flt_lit(v, t) if t.kind == "f" else int_lit(s, v, t)


# ---------------------------------------------------------------- expressions

class Ex:
    """expression: text, type, precedence (C levels, 16 = primary), pure/const flags"""
    __slots__ = ("x", "t", "p")

    def __init__(s, x, t, p):
        s.x, s.t, s.p = x, t, p


BIN = {"*": 13, "/": 13, "%": 13, "+": 12, "-": 12, "<<": 11, ">>": 11, "<": 10, ">": 10, "<=": 10, ">=": 10,
       "==": 9, "!=": 9, "&": 8, "^": 7, "|": 6, "&&": 5, "||": 4}
MASKS = [1, 3, 7, 15, 31, 63, 127, 255, 0x3ff]


class G:
    """one test case under construction"""

    def __init__(self, s, **opt):
        self.s = s
        self.vars = []          # (text, type, lvalue?)
        self.calls = []         # (name, ret type, param types)
        self.top = []           # top-level declarations
        self.lines = []
        self.nm = 0
        self.opt = opt
        self.fold = opt.get("fold", False)      # constants only
        self.side = opt.get("side", True)
        self.ops = {}

    def name(self, p):
        self.nm += 1
        return "%s%d_@@" % (p, self.nm)

    def count(self, k):
        self.s.tag(k)

    def par(self, e, need):
        if e.p < need or (e.p < 16 and self.s.bool(1, 4)):
            return "(" + e.x + ")"
        return e.x

    def leaf(self, want=None):
        s = self.s
        vs = [v for v in self.vars if want is None or (v[1].kind == "i") == (want == "i")]
        if vs and not self.fold and s.draw(3) > 0:
            v = s.choice(vs)
            return Ex(v[0], v[1], 16 if v[0].replace("_", "").replace("@", "").isalnum() else 15)
        t = s.weighted([(w, t) for w, t in TW if want is None or (t.kind == "i") == (want == "i")])
        x, p = lit(s, t)
        return Ex(x, t, p)

    def ex(self, d, want=None):
        """want: None any arithmetic, 'i' integer, 'f' floating"""
        s = self.s
        if d <= 0:
            return self.leaf(want)
        forms = [(2, "leaf"), (10, "bin"), (3, "un"), (3, "cast"), (3, "cond")]
        if want != "f":
            forms += [(3, "cmp"), (2, "logic"), (3, "shift"), (3, "div"), (3, "bit")]
            if not self.fold:
                forms += [(1, "size")]
        else:
            forms += [(2, "fdiv")]
        if not self.fold:
            forms += [(2, "comma")]
            if self.calls:
                forms.append((3, "call"))
            if self.side:
                forms += [(1, "asg"), (1, "inc")]
        f = s.weighted(forms)
        return getattr(self, "x_" + f)(d, want)

    def x_leaf(self, d, want):
        return self.leaf(want)

    def sub(self, d, want=None):
        return self.ex(d - 1 - self.s.draw(1), want)

    def x_bin(self, d, want):
        s = self.s
        op = s.choice(["+", "-", "*"])
        w1 = "i" if want == "i" else None
        a, b = self.sub(d, "f" if want == "f" else w1), self.sub(d, w1)
        if s.bool() and want == "f":
            a, b = b, a
        self.count(op)
        return Ex("%s %s %s" % (self.par(a, BIN[op]), op, self.par(b, BIN[op] + 1)), common(a.t, b.t), BIN[op])

    def x_fdiv(self, d, want):
        a, b = self.sub(d, "f"), self.sub(d, None)
        self.count("f/")
        return Ex("%s / %s" % (self.par(a, 13), self.par(b, 14)), common(a.t, b.t), 13)

    def x_bit(self, d, want):
        op = self.s.choice(["&", "|", "^"])
        a, b = self.sub(d, "i"), self.sub(d, "i")
        self.count(op)
        return Ex("%s %s %s" % (self.par(a, BIN[op]), op, self.par(b, BIN[op] + 1)), common(a.t, b.t), BIN[op])

    def x_div(self, d, want):
        s = self.s
        op = s.choice(["/", "%"])
        a = self.sub(d, "i")
        self.count(op)
        k = s.draw(2)
        if k == 0:
            t = s.weighted(ITW)
            v = gen_value(s, t)
            if v in (0, -1):
                v = 3 if t is not BOOL else 1
            x, p = lit(s, t, v)
            b = Ex(x, t, p)
        else:
            e = self.sub(d, "i")
            ct = common(a.t, e.t)
            if not ct.signed and k == 1:
                b = Ex("%s | 1" % self.par(e, 6), common(e.t, INT), 6)
                if b.t.signed:      # a is wider unsigned: |1 keeps it nonzero, conversion to unsigned is fine
                    pass
            else:
                b = Ex("(%s & %d) + 1" % (self.par(e, 8), s.choice(MASKS)), common(e.t, INT), 12)
        return Ex("%s %s %s" % (self.par(a, 13), op, self.par(b, 14)), common(a.t, b.t), 13)

    def x_shift(self, d, want):
        s = self.s
        op = s.choice(["<<", ">>"])
        a = self.sub(d, "i")
        t = promote(a.t)
        bits = t.size * 8
        self.count(op)
        if s.bool():
            ct = s.weighted(ITW)
            v = s.draw(min(bits - 1, ct.hi))
            x, p = lit(s, ct, v)
            b = Ex(x, ct, p)
        else:
            e = self.sub(d, "i")
            b = Ex("%s & %d" % (self.par(e, 8), bits - 1), common(e.t, INT), 8)
        if promote(b.t) is not t:
            self.count("shift-mixed")
        return Ex("%s %s %s" % (self.par(a, 11), op, self.par(b, 12)), t, 11)

    def x_cmp(self, d, want):
        op = self.s.choice(["<", ">", "<=", ">=", "==", "!="])
        a, b = self.sub(d), self.sub(d)
        self.count(op)
        if a.t.kind == "i" and b.t.kind == "i" and promote(a.t).signed != promote(b.t).signed:
            self.count("cmp-mixed-sign")
        return Ex("%s %s %s" % (self.par(a, BIN[op]), op, self.par(b, BIN[op] + 1)), INT, BIN[op])

    def x_logic(self, d, want):
        op = self.s.choice(["&&", "||"])
        a, b = self.sub(d), self.sub(d)
        self.count(op)
        return Ex("%s %s %s" % (self.par(a, BIN[op]), op, self.par(b, BIN[op] + 1)), INT, BIN[op])

    def x_un(self, d, want):
        s = self.s
        op = s.choice(["-", "~", "!", "+"] if want != "f" else ["-", "+"])
        a = self.sub(d, "i" if op == "~" or want == "i" else want)
        self.count("u" + op)
        x = self.par(a, 14)
        if x[0] == op:
            x = " " + x
        return Ex(op + x, INT if op == "!" else promote(a.t), 14)

    def x_cond(self, d, want):
        c, a, b = self.sub(d), self.sub(d, want), self.sub(d, want)
        self.count("?:")
        return Ex("%s ? %s : %s" % (self.par(c, 4), self.par(a, 3), self.par(b, 3)), common(a.t, b.t), 3)

    def x_cast(self, d, want):
        s = self.s
        t = s.weighted([(w, t) for w, t in TW if want is None or (t.kind == "i") == (want == "i")])
        self.count("cast-" + t.n)
        if t.kind == "f" or t is BOOL:
            a = self.sub(d)
            return Ex("(%s)%s" % (t.c, self.par(a, 14)), t, 14)
        if s.draw(3) > 0:
            a = self.sub(d, "i")
            return Ex("(%s)%s" % (t.c, self.par(a, 14)), t, 14)
        # float -> integer, inside the range of t
        self.count("f2i")
        side, self.side = self.side, False
        if s.bool() and not self.fold:
            a = self.ex(min(d - 1, 2), "f")
            lo, hi = (t.lo, t.hi)
            los = "-0.9" if lo == 0 else flt_lit(float(lo) if t.size == 8 else lo - 0.5, DOUBLE)[0]
            his = flt_lit({8: float(hi) * (1 - 2**-50)}.get(t.size, hi + 0.5), DOUBLE)[0]
            x = "(%s > %s && %s < %s ? (%s)%s : (%s)0)" % (self.par(a, 11), los, self.par(a, 11), his,
                                                           t.c, self.par(a, 14), t.c)
            r = Ex(x, t, 16)
            r.t = common(t, t)
        else:
            ft = s.choice([DOUBLE, FLOAT])
            lo, hi = max(t.lo, -(1 << 23)), min(t.hi, (1 << 23))
            v = s.int(0, 16 * min(hi, 4000)) / 16.0
            if t.signed and s.bool():
                v = -min(v, -lo)
            x, p = lit(s, ft, v)
            r = Ex("(%s)%s" % (t.c, x), t, 14)
        self.side = side
        return r

    def x_size(self, d, want):
        s = self.s
        if s.bool() and self.vars:
            v = s.choice(self.vars)
            return Ex("(int)sizeof(%s)" % v[0], INT, 14)
        return Ex("(int)sizeof(%s)" % s.choice(ARITH).c, INT, 14)

    def x_comma(self, d, want):
        a, b = self.sub(d), self.sub(d, want)
        self.count(",")
        return Ex("(%s, %s)" % (self.par(a, 2), self.par(b, 2)), b.t, 16)

    def x_call(self, d, want):
        s = self.s
        cs = [c for c in self.calls if want is None or (c[1].kind == "i") == (want == "i")]
        if not cs:
            return self.leaf(want)
        n, rt, pts = s.choice(cs)
        self.count("call")
        return Ex("%s(%s)" % (n, ", ".join(self.coerce(t, self.sub(d), 2) for t in pts)), rt, 15)

    def coerce(self, t, e, need=2, store=False):
        """text of e converted to t the way wcpl allows"""
        if e.t is t or (implicit_ok(t, e.t, store) and self.s.draw(2) > 0):
            return self.par(e, need)
        if t.kind == "i" and t is not BOOL and e.t.kind == "f":
            # guarded by construction: go through the range helper
            return "(%s)f2%s(%s)" % (t.c, "ll" if t.signed else "ull", e.x) if t.size == 8 else \
                   "(%s)f2i(%s)" % (t.c, e.x)
        return "(%s)%s" % (t.c, self.par(e, 14))

    def tmp(self, t):
        n = self.name("t")
        v = gen_value(self.s, t)
        x, p = lit(self.s, t, v)
        p0i = self.opt.get("p0i")
        k = self.s.weighted([(4, 0), (2, 1), (2, 2)] + ([(1, 3), (1, 4)] if p0i else []))
        if k == 0:
            self.decl_lines.append("  %s %s = %s;" % (t.c, n, x))
            self.after.append((n, t))
            return n
        # an object in memory: array element, through a pointer, struct member, global element
        self.count("place%d" % k)
        if k == 4:
            self.top.append("%s %s[3];" % (t.c, n))
            e = "%s[%d]" % (n, self.s.draw(2))
            pre = ""
        elif k == 3:
            self.top.append("typedef struct { char a; %s m; char b; } S%s;" % (t.c, n))
            pre = "S%s %s; %s.a = 1; %s.b = 1;" % (n, n, n, n)
            e = n + ".m"
            self.after += [(n + ".a", CHAR), (n + ".b", CHAR)]
        elif k == 2:
            i = self.s.draw(2)
            pre = "%s b%s[3]; %s *%s = &b%s[%d];" % (t.c, n, t.c, n, n, i)
            e = "*%s" % n if i == 0 and self.s.bool() else "%s[%d]" % (n, -i if self.s.bool() else 0)
        else:
            i = self.s.draw(2)
            pre = "%s %s[3]; %s[%d] = %s;" % (t.c, n, n, (i + 1) % 3, x)
            e = "%s[%s]" % (n, i if not p0i or self.s.bool() else "%d + (p0i & 0)" % i)
            self.after.append(("%s[%d]" % (n, (i + 1) % 3), t))
        self.decl_lines.append("  %s %s = %s;" % (pre, e, x))
        self.after.append((e, t))
        return e

    def x_asg(self, d, want):
        """assignment used as a value, to a variable no other operand reads"""
        s = self.s
        t = s.weighted([(w, t) for w, t in TW if want is None or (t.kind == "i") == (want == "i")])
        n = self.tmp(t)
        op = s.choice(["=", "+=", "-=", "*="] + (["&=", "|=", "^=", "<<=", ">>="] if t.kind == "i" else ["/="]))
        return self.asg_text(n, t, op, d)

    def asg_text(self, n, t, op, d):
        self.count("asg" + op)
        s = self.s
        if op == "=":
            r = self.coerce(t, self.sub(d), 2, True)
        elif op in ("<<=", ">>="):
            bits = promote(t).size * 8
            r = str(s.draw(bits - 1)) if s.bool() else "%s & %d" % (self.par(self.sub(d, "i"), 8), bits - 1)
            if r[0].isdigit() is False:
                r = "(int)(" + r + ")"
        else:
            e = self.sub(d, "i" if t.kind == "i" else None)
            # the sum must convert back implicitly
            if implicit_ok(promote(t), e.t) and t is not BOOL:
                r = self.par(e, 3)
            else:
                r = self.coerce(promote(t), e, 3)
        return Ex("(%s %s %s)" % (n, op, r), t, 16)

    def x_inc(self, d, want):
        s = self.s
        t = s.weighted([(w, t) for w, t in TW if t is not BOOL and (want is None or (t.kind == "i") == (want == "i"))])
        n = self.tmp(t)
        op = s.choice(["++", "--"])
        self.count("inc" + op)
        if n[0] == "*":
            n = "(%s)" % n
        return Ex("(%s%s)" % (op, n) if s.bool() else "(%s%s)" % (n, op), t, 16)

    # ---- emission
    decl_lines = None
    after = None

    def begin(self):
        self.decl_lines = []
        self.after = []

    def emit(self, e):
        if e.t.kind == "f":
            return "ed((double)(%s));" % e.x
        if e.t.signed:
            return "ei((long long)(%s));" % e.x
        return "eu((unsigned long long)(%s));" % e.x


GENERIC = ("generic((%s), bool: 1, char: 2, unsigned char: 3, short: 4, unsigned short: 5, int: 6, unsigned: 7, "
           "long: 6, unsigned long: 7, long long: 10, unsigned long long: 11, float: 12, double: 13, default: 14)")

PRELUDE = r"""
#ifdef __WCPL__
#include <unistd.h>
#include <stddef.h>
#else
typedef __SIZE_TYPE__ size_t; typedef __PTRDIFF_TYPE__ ptrdiff_t; typedef int wchar_t;
#define bool _Bool
#define true 1
#define false 0
#define NULL ((void*)0)
#define generic _Generic
#define alignof _Alignof
#define offsetof __builtin_offsetof
#define static_assert _Static_assert
#define countof(a) (sizeof(a)/sizeof((a)[0]))
struct ciov_ { const void *p; unsigned n; };
__attribute__((import_module("wasi_snapshot_preview1"), import_name("fd_write"))) int fdw_(int, const struct ciov_ *, int, int *);
int write(int fd, const void *b, size_t n) { struct ciov_ v = { b, n }; int k; fdw_(fd, &v, 1, &k); return k; }
void *memset(void *d, int c, size_t n) { char *p = d; while (n--) *p++ = (char)c; return d; }
void *memcpy(void *d, const void *s, size_t n) { char *p = d; const char *q = s; while (n--) *p++ = *q++; return d; }
void *memmove(void *d, const void *s, size_t n) { char *p = d; const char *q = s; if (p < q) while (n--) *p++ = *q++; else while (n--) p[n] = q[n]; return d; }
#endif
union ov_ { unsigned long long u; long long i; double d; };
union ov_ ob_[512]; struct { int n; } on_;
void fl_(void) { if (on_.n > 0) write(1, &ob_[0], (size_t)(on_.n * 8)); on_.n = 0; }
void eu(unsigned long long u) { if (on_.n >= 512) fl_(); ob_[on_.n].u = u; on_.n += 1; }
void ei(long long i) { if (on_.n >= 512) fl_(); ob_[on_.n].i = i; on_.n += 1; }
void ed(double d) { if (on_.n >= 512) fl_(); if (d != d) ob_[on_.n].u = 0x7ff8dead00000000ull; else ob_[on_.n].d = d; on_.n += 1; }
void mk_(int k) { fl_(); ob_[0].u = 0xfeed000000000000ull | (unsigned long long)k; on_.n = 1; }
void db_(char *p, int n) { int i; for (i = 0; i + 8 <= n; i += 8) { unsigned long long u = 0; int j; for (j = 0; j < 8; ++j) u = u << 8 | (unsigned char)p[i + j]; eu(u); } { unsigned long long u = 1; for (; i < n; ++i) u = u << 8 | (unsigned char)p[i]; eu(u); } }
void zf_(char *p, int n) { while (n-- > 0) *p++ = 0; }
double nz_(double d) { if (d != d) return 0.0; return d; }
int f2i(double d) { if (d > -128.9 && d < 32767.9) return (int)d; return 7; }
long long f2ll(double d) { if (d > -9e18 && d < 9e18) return (long long)d; return 8; }
unsigned long long f2ull(double d) { if (d > -0.9 && d < 1.8e19) return (unsigned long long)d; return 9; }
"""

MAIN_REF = "#ifndef __WCPL__\nvoid _start(void) { main(); }\n#endif\n"


def assemble(cases, head=""):
    """cases: list of (top text, main text) -> whole program"""
    from . import cauto, cvar
    txt = "".join(a + b for a, b in cases)
    if "SPB(" in txt or "va_list" in txt:
        head += cvar.HEAD
    if "qr_(" in txt:
        head += cauto.QHEAD
    out = [PRELUDE + head]
    body = []
    for k, (top, call) in enumerate(cases):
        out.append(top.replace("@@", str(k)))
        body.append("  mk_(%d);\n%s" % (k, call.replace("@@", str(k))))
    # one function per group keeps functions small
    n = 0
    grp = []
    for i in range(0, len(body), 20):
        out.append("void grp_%d(void) {\n%s\n}\n" % (n, "\n".join(body[i:i + 20])))
        grp.append("grp_%d();" % n)
        n += 1
    out.append("int main(void) { %s fl_(); return 0; }\n" % " ".join(grp))
    out.append(MAIN_REF)
    return "\n".join(out)


MARK = 0xfeed


def split_output(data):
    """{case: [u64...]}"""
    res = {}
    cur = None
    for i in range(0, len(data) - 7, 8):
        v = int.from_bytes(data[i:i + 8], "little")
        if v >> 48 == MARK and (v & 0xffffffffffff) < 1 << 20:
            cur = res.setdefault(v & 0xffffffff, [])
        elif cur is not None:
            cur.append(v)
    return res


def call_args(s, ptypes):
    return ", ".join(lit(s, t)[0] for t in ptypes)


# ---------------------------------------------------------------- case kinds

def expr_case(s, depth=None):
    """a function of typed parameters whose body evaluates random expressions"""
    g = G(s, p0i=True)
    np = s.int(1, 6)
    pts = [s.weighted(TW) for _ in range(np)]
    pn = ["p%d" % i for i in range(np)]
    g.vars = list(zip(pn, pts, [True] * np))
    body = []
    # helpers with typed parameters and results
    for k in range(s.draw(2)):
        rt = s.weighted(TW)
        hp = [s.weighted(TW) for _ in range(s.int(1, 3))]
        n = g.name("h")
        h = G(s, side=False)
        h.vars = [("a%d" % i, t, True) for i, t in enumerate(hp)]
        h.begin()
        e = h.ex(2)
        g.top.append("%s %s(%s) { return %s; }" % (rt.c, n, ", ".join("%s a%d" % (t.c, i) for i, t in enumerate(hp)),
                                                   h.coerce(rt, e, 2)))
        g.calls.append((n, rt, hp))
        g.count("ret-" + rt.n)
    # a global, a local and an array element to read from and write to
    gv = None
    if s.bool():
        t = s.weighted(TW)
        gv = g.name("g")
        g.top.append("%s %s = %s;" % (t.c, gv, lit(s, t)[0]))
        g.vars.append((gv, t, True))
    if s.bool():
        t = s.weighted(TW)
        n = g.name("ga")
        g.top.append("%s %s[4] = { %s };" % (t.c, n, ", ".join(lit(s, t)[0] for _ in range(3))))
        g.vars.append(("%s[%d]" % (n, s.draw(3)), t, True))
        if s.bool():
            g.vars.append(("%s[p0i & 3]" % n, t, True))
    if s.bool():
        t = s.weighted(TW)
        g.lvt = t
        body.append("  %s lv = %s;" % (t.c, lit(s, t)[0]))
        g.vars.append(("lv", t, True))
        if s.bool():
            body.append("  %s *lp = &lv;" % t.c)
            g.vars.append(("*lp", t, True))
            g.count("deref")
    ne = s.int(1, 3)
    for _ in range(ne):
        g.begin()
        k = s.draw(5)
        if k <= 3:
            e = g.ex(depth or s.int(1, 5))
            st = [g.emit(e)]
            if s.bool(1, 4) and not g.decl_lines and e.t.rank >= 3:
                st.append("ei(%s);" % (GENERIC % e.x))
                g.count("generic")
        else:
            lv = [v for v in g.vars if v[2]]
            v = s.choice(lv)
            op = s.choice(["=", "+=", "-=", "*="] + (["&=", "|=", "^=", "<<=", ">>=", "/=", "%="] if v[1].kind == "i" else ["/="]))
            if v[1] is BOOL:
                op = "="
            if op in ("/=", "%=") and v[1].kind == "i":
                x, _ = lit(s, INT if promote(v[1]) is INT else v[1], max(2, abs(gen_value(s, v[1]) // 3)))
                x = str(2 + s.draw(50))
                e = Ex("(%s %s %s)" % (v[0], op, x), v[1], 16)
            else:
                # the right side must not have effects on what the left reads
                e = g.asg_text(v[0], v[1], op, s.int(1, 3))
            st = [(e.x[1:-1] + ";") if s.bool() else g.emit(e), g.emit(Ex(v[0], v[1], 15))]
        if g.decl_lines:
            body.append(" {")
        body += g.decl_lines
        body += ["  " + x for x in st]
        body += ["  " + g.emit(Ex(n, t, 16)) for n, t in g.after]
        if g.decl_lines:
            body.append(" }")
    idx = "(int)p0" if pts[0].kind == "i" else "f2i((double)p0)"
    top = "\n".join(g.top) + "\nvoid case_@@(%s) {\n  int p0i = %s;\n%s\n}\n" % (
        ", ".join("%s %s" % (t.c, n) for t, n in zip(pts, pn)), idx, "\n".join(body))
    calls = "\n".join("  case_@@(%s);" % call_args(s, pts) for _ in range(s.int(1, 3)))
    return top, calls
