"""Model of printf within the library's documented limits: at most nine significant
fraction digits (further ones are zeros), fixed notation up to 1e9, %g keeps trailing
zeros, %p prints eight upper-case digits."""
import struct
from fractions import Fraction


def dbits(v):
    return struct.unpack("<Q", struct.pack("<d", v))[0]


def ffrombits(u):
    return struct.unpack("<d", struct.pack("<Q", u & (2 ** 64 - 1)))[0]


def pad(pfx, body, width, flags, zero):
    n = len(pfx) + len(body)
    if "-" in flags:
        return pfx + body + " " * (width - n)
    if zero:
        return pfx + "0" * (width - n) + body
    return " " * (width - n) + pfx + body


def fmt_int(conv, flags, width, prec, v):
    """v: the (already converted) value"""
    sign = ""
    if conv in "di":
        sign = "-" if v < 0 else "+" if "+" in flags else " " if " " in flags else ""
        v = abs(v)
        d = str(v)
    else:
        d = {"u": "%d", "x": "%x", "X": "%X", "o": "%o", "b": "%s"}[conv] % (bin(v)[2:] if conv == "b" else v)
    if prec is not None:
        d = "" if prec == 0 and v == 0 else d.rjust(prec, "0")
    if "#" in flags:
        if conv == "o" and not d.startswith("0"):
            d = "0" + d
        elif conv in "xXb" and v:
            sign += "0" + conv
    return pad(sign, d, width, flags, "0" in flags and prec is None)


def near(x, eps, strict_tie=True):
    """integers a rounding of the fraction x with relative slack eps may give"""
    f = x.numerator // x.denominator
    r = x - f
    if r == Fraction(1, 2):
        return [f if f % 2 == 0 else f + 1] if strict_tie else [f, f + 1]
    o = []
    if r <= Fraction(1, 2) + eps:
        o.append(f)
    if r >= Fraction(1, 2) - eps:
        o.append(f + 1)
    return o


def log10floor(x):
    """floor(log10(x)) of a positive fraction"""
    e = len(str(x.numerator)) - len(str(x.denominator))
    while Fraction(10) ** e > x:
        e -= 1
    while Fraction(10) ** (e + 1) <= x:
        e += 1
    return e


EPSF, EPSE = Fraction(1, 10 ** 6), Fraction(1, 10 ** 4)


def fix_texts(x, prec, flags):
    """texts of the non-negative fraction x <= 1e9 with prec decimals"""
    dp = min(prec, 9)
    r = []
    for n in near(x * 10 ** dp, EPSF):
        s = str(n).rjust(dp + 1, "0")
        t = s[:len(s) - dp] + ("." if prec or "#" in flags else "") + s[len(s) - dp:] + "0" * (prec - dp)
        r.append(t)
    return r


def exp_cands(x, dp):
    """(digits, exponent) pairs with dp+1 digits"""
    if x == 0:
        return [(0, 0)]
    X = log10floor(x)
    r = []
    for n in near(x * Fraction(10) ** (dp - X), EPSE, False):
        if n == 10 ** (dp + 1):
            r.append((10 ** dp, X + 1))
        else:
            r.append((n, X))
    if x * Fraction(10) ** (dp - X) - 10 ** dp < EPSE:        # the scaled value may fall just below one
        pass
    return r


def exp_texts(x, prec, flags, E):
    dp = min(prec, 9)
    r = []
    for n, X in exp_cands(x, dp):
        s = str(n).rjust(dp + 1, "0")
        r.append(s[0] + ("." if prec or "#" in flags else "") + s[1:] + "0" * (prec - dp) + "%s%s%02d" % (E, "-" if X < 0 else "+", abs(X)))
    return r


def hex_texts(v, prec, flags, P):
    u = dbits(abs(v))
    e, m = u >> 52, u & (2 ** 52 - 1)
    if prec is None:
        prec = 13
    dp = min(prec, 13)
    if e:
        m |= 1 << 52
        ex = e - 1023
    else:
        ex = -1022 if m else 0
    n = near(Fraction(m, 16 ** (13 - dp)), 0)[0]
    s = "%x" % n
    s = s.rjust(dp + 1, "0")
    t = s[:len(s) - dp] + ("." if prec or "#" in flags else "") + s[len(s) - dp:] + "0" * (prec - dp) + "p%+d" % ex
    return [t.upper() if P == "A" else t]


def fmt_float(conv, flags, width, prec, v):
    """set of acceptable texts"""
    up = conv.isupper()
    neg = dbits(v) >> 63 == 1
    sign = "-" if neg else "+" if "+" in flags else " " if " " in flags else ""
    if v != v:
        return {pad(s, "NAN" if up else "nan", width, flags, False) for s in ("", "-", "+", " ")}
    if v in (float("inf"), -float("inf")):
        return {pad(sign, "INF" if up else "inf", width, flags, False)}
    x = abs(Fraction(v))
    c = conv.lower()
    E = "E" if up else "e"
    if c == "a":
        body = hex_texts(v, prec, flags, conv)
        sign += "0X" if up else "0x"
    else:
        p = 6 if prec is None else prec
        if c == "f":
            body = fix_texts(x, p, flags) if x <= 10 ** 9 else exp_texts(x, p, flags, E)
        elif c == "e":
            body = exp_texts(x, p, flags, E)
        else:
            P = p or 1
            body = []
            for n, X in exp_cands(x, min(P - 1, 9)):
                if -4 <= X < P and x <= 10 ** 9:
                    body += fix_texts(x, P - 1 - X, flags)
                else:
                    body += [t for t in exp_texts(x, P - 1, flags, E)]
    return {pad(sign, b, width, flags, "0" in flags) for b in body}
