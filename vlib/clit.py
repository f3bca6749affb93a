"""Programs made of literals, names and static data whose exact bytes are
known to the generator."""
import struct

from .cgen import (CHAR, UCHAR, SHORT, USHORT, INT, UINT, LLONG, ULLONG, FLOAT, DOUBLE, gen_value, gen_float, lit)

SIMPLE = {7: "\\a", 8: "\\b", 9: "\\t", 10: "\\n", 11: "\\v", 12: "\\f", 13: "\\r", 34: '\\"', 92: "\\\\", 39: "\\'", 63: "\\?"}


def cstr(s, data):
    """a C spelling of the bytes"""
    out = ['"']
    lasthex = lastoct = False
    for b in data:
        c = chr(b)
        k = s.draw(5)
        hexd = c in "0123456789abcdefABCDEF"
        if lasthex and hexd or (lastoct and c in "01234567"):
            if s.bool():
                out.append('" "')
            else:
                k = 9
        lasthex = lastoct = False
        if b in SIMPLE and k <= 3:
            out.append(SIMPLE[b])
        elif 32 <= b < 127 and b not in (34, 64, 92) and k <= 4 and not (c == "?" and out[-1].endswith("?")):
            out.append(c)
        elif k & 1:
            out.append("\\x%02x" % b if s.bool() else "\\x%X" % b)
            lasthex = True
        else:
            if s.bool():
                out.append("\\%03o" % b)
            else:
                out.append("\\%o" % b)
                lastoct = b < 64
        if s.bool(1, 12):
            out.append(s.choice(['" "', '"\n"', '" /*x*/ "']))
            lasthex = lastoct = False
    return "".join(out) + '"'


def gen_bytes(s, lo, hi):
    k = s.draw(3)
    n = s.int(lo, hi)
    if k == 0:
        return bytes(s.choice(b"abz 09AZ_\"\\%$") for _ in range(n))
    if k == 1:
        return bytes(s.choice([0, 1, 7, 8, 9, 10, 11, 12, 13, 27, 31, 32, 34, 36, 39, 59, 63, 92, 126, 127, 128, 159, 160, 255, 0xc3, 0xe2]) for _ in range(n))
    return s.bytes(n)


NAMECH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"


def name(s, k):
    return s.choice(["x", "_a", "Zz", "mod", "data", "i32", "func", "local", "e9", "_0", "end_"]) + "".join(s.choice(NAMECH) for _ in range(s.draw(20))) + "%d_@@" % k


def lit_case(s):
    """(top, main, expected bytes); main writes with W(p, n) and the e* helpers"""
    top, body, exp = [], [], bytearray()

    def w(x, data):
        body.append("  wr_(%s, %d);" % (x, len(data)))
        exp.extend(data)
    for k in s.many(1, 6, 5):
        f = s.draw(7)
        if f == 0:
            d = gen_bytes(s, 0, 40)
            s.tag("str")
            w(cstr(s, d), d + b"\0")
        elif f == 1:
            d = gen_bytes(s, 1, 60)
            n = name(s, k)
            s.tag("chararray")
            ext = s.draw(3)
            top.append("%schar %s[%d] = %s;" % (s.choice(["", "static ", "const "]), n, len(d) + ext, cstr(s, d)))
            w("&%s[0]" % n, d + bytes(ext))
        elif f == 2:
            t = s.choice([CHAR, UCHAR, SHORT, USHORT, INT, UINT, LLONG, ULLONG])
            vs = [gen_value(s, t) for _ in range(s.int(1, 5))]
            n = name(s, k)
            s.tag("ints")
            top.append("%s %s[%d] = { %s };" % (t.c, n, len(vs), ", ".join(lit(s, t, v)[0] for v in vs)))
            w("(char *)&%s[0]" % n, b"".join((v % (1 << 8 * t.size)).to_bytes(t.size, "little") for v in vs))
        elif f == 3:
            t = s.choice([DOUBLE, FLOAT])
            vs = [fval(s, t) for _ in range(s.int(1, 5))]
            n = name(s, k)
            s.tag("floats")
            top.append("%s %s[%d] = { %s };" % (t.c, n, len(vs), ", ".join(flit(s, v, t) for v in vs)))
            w("(char *)&%s[0]" % n, b"".join(struct.pack("<d" if t is DOUBLE else "<f", v) for v in vs))
        elif f == 4:
            t = s.choice([INT, UINT, LLONG, ULLONG, DOUBLE, FLOAT, CHAR, UCHAR, SHORT, USHORT])
            v = fval(s, t) if t.kind == "f" else gen_value(s, t)
            n = name(s, k)
            s.tag("global")
            top.append("%s%s %s = %s;" % (s.choice(["", "static "]), t.c, n, flit(s, v, t) if t.kind == "f" else lit(s, t, v)[0]))
            body.append("  { %s a[1]; a[0] = %s;" % (t.c, n))
            w("(char *)&a[0]", struct.pack("<d" if t is DOUBLE else "<f", v) if t.kind == "f" else (v % (1 << 8 * t.size)).to_bytes(t.size, "little"))
            body.append("  }")
        elif f == 5:
            t = s.choice([INT, UINT, LLONG, ULLONG, DOUBLE, FLOAT])
            v = fval(s, t) if t.kind == "f" else gen_value(s, t)
            s.tag("code")
            body.append("  { %s a[1]; a[0] = %s;" % (t.c, flit(s, v, t) if t.kind == "f" else lit(s, t, v)[0]))
            w("(char *)&a[0]", struct.pack("<d" if t is DOUBLE else "<f", v) if t.kind == "f" else (v % (1 << 8 * t.size)).to_bytes(t.size, "little"))
            body.append("  }")
        elif f == 6:
            n = name(s, k)
            c = s.draw(255)
            s.tag("funcname")
            top.append("int %s(int x, int y) { return x ^ y ^ %d; }" % (n, c))
            body.append("  { char a[1]; a[0] = (char)%s(%d, 3); " % (n, c))
            w("&a[0]", b"\x03")
            body.append("  }")
        else:
            d = gen_bytes(s, 0, 12)
            u = "".join(s.choice(["a", "é", "\u20ac", "\U0001f600", "Z", "\u07ff", "\uffff", "\U0010ffff", "\x7f"]) for _ in range(s.draw(6)))
            s.tag("wide")
            sp = ""
            for c in u:
                if ord(c) < 127:
                    sp += c
                elif ord(c) < 0x10000 and s.bool():
                    sp += "\\u%04x" % ord(c)
                else:
                    sp += c.encode("utf-8").decode("latin-1")
            if u and s.bool(1, 4):
                sp += '" L"'
            w('(char *)L"%s"' % sp, u.encode("utf-32-le") + bytes(4))
    return "\n".join(top), "\n".join(body), bytes(exp)


def fval(s, t):
    """a floating value, also infinite or not a number"""
    if not s.bool(1, 6):
        return gen_float(s, t)
    s.tag("inf-nan")
    return s.choice([float("inf"), float("-inf"), float("nan")])


def flit(s, v, t):
    """a spelling of a floating value: decimal or hexadecimal"""
    if v != v:
        return "NAN" if t is FLOAT or s.bool() else "(double)NAN"
    if v in (float("inf"), float("-inf")):
        n = v < 0
        return s.choice(["(%s1e38f * 10.0f)" % "-"[:n], "%s(1e38f * 10.0f)" % "-"[:n], "%s(float)HUGE_VAL" % "-"[:n]] if t is FLOAT
                        else ["%sHUGE_VAL" % "-"[:n], "(%s1e308 * 10.0)" % "-"[:n], "%s(1e308 * 10.0)" % "-"[:n], "%sINFINITY" % "-"[:n]])
    if v == 0 or s.draw(2) == 0:
        return lit(s, t, v)[0]
    if s.bool():
        x = float.hex(abs(v))
    else:
        # at least 17 significant digits, in some layout
        x = s.choice(["%.17e", "%.20e", "%.16e" if t is FLOAT else "%.17e"]) % abs(v)
        if s.bool():
            x = x.replace("e", "E")
    return ("-" if v < 0 else "") + x + (s.choice("fF") if t is FLOAT else "")


LITPRE = """
#include <unistd.h>
#include <math.h>
void wr_(const char *p, int n) { write(1, p, (size_t)n); }
"""


def assemble_lits(cases):
    out = [LITPRE]
    for k, c in enumerate(cases):
        out.append(c[0].replace("@@", str(k)))
        out.append("void lc_%d(void) { wr_(\"<%d>\", %d);\n%s\n}" % (k, k, len("<%d>" % k), c[1].replace("@@", str(k))))
    out.append("int main(void) { %s return 0; }\n" % " ".join("lc_%d();" % k for k in range(len(cases))))
    exp = b"".join(b"<%d>" % k + c[2] for k, c in enumerate(cases))
    return "\n".join(out), exp
