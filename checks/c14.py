"""C14: formatted input."""
import re
import struct
from fractions import Fraction

from vlib.clib import LibFamily, blk, u32, u64

TECHNIQUE = "model-based property-based testing of formatted input (executable model of C's scanf) and printf/scanf round trips"
RULE = ("Random formats (all conversions with suppression, widths, length modifiers, scan sets, literal text and white space) are matched against inputs built from the format and "
        "then truncated or damaged, through sscanf, snscanf, fscanf, scanf and their v-forms; return value, every destination byte and the unread rest of a file must match an executable "
        "model of C's definition; numbers printed and read back must be equal. Non-trivial: at least one conversion and a non-empty input; distinct by call.")
ASSUMPTIONS = ["values not representable in their destination are undefined and skipped", "after only suppressed conversions an input failure may be reported as 0 or EOF",
               "a %Nc cut short by the end of input may be reported as either kind of failure and may have stored its part", "a float may be rounded through double", "%n is checked as the library documents it"]

ND, DSZ = 6, 80
DRV = r'''
#include <stdio.h>
#include <stdarg.h>
char f_[1000]; char in_[12002]; char d_[480];
int va_(int fn, int n, FILE *fp, const char *f, ...) {
  va_list va; int r = -99; va_start(va, f);
  switch (fn) {
    case 2: r = vsscanf(&in_[0], f, va); break;
    case 3: r = vsnscanf(&in_[0], (size_t)n, f, va); break;
    case 5: r = vfscanf(fp, f, va); break;
    case 7: r = vscanf(f, va); break;
  }
  va_end(va); return r;
}
void cmd_(int op) {
  int fn = g32(), n = g32(), len, i, r = -98, en;
  FILE *fp = NULL;
  gs(&f_[0], 1000);
  len = gn(&in_[0], 11999); in_[len] = 0;
  for (i = 0; i < 480; ++i) d_[i] = (char)0x5a;
  if (fn >= 4) {
    FILE *o = fopen("t", "wb");
    if (o == NULL) abort();
    if ((int)fwrite(&in_[0], (size_t)1, (size_t)len, o) != len) abort();
    if (fclose(o) != 0) abort();
    if (fn >= 6) { if (freopen("t", "rb", stdin) == NULL) abort(); fp = stdin; }
    else fp = fopen("t", "rb");
    if (fp == NULL) abort();
  }
  errno = 4242;
  switch (fn) {
    case 0: r = sscanf(&in_[0], &f_[0], &d_[0], &d_[80], &d_[160], &d_[240], &d_[320], &d_[400]); break;
    case 1: r = snscanf(&in_[0], (size_t)n, &f_[0], &d_[0], &d_[80], &d_[160], &d_[240], &d_[320], &d_[400]); break;
    case 2: case 3: case 5: case 7: r = va_(fn, n, fp, &f_[0], &d_[0], &d_[80], &d_[160], &d_[240], &d_[320], &d_[400]); break;
    case 4: r = fscanf(fp, &f_[0], &d_[0], &d_[80], &d_[160], &d_[240], &d_[320], &d_[400]); break;
    case 6: r = scanf(&f_[0], &d_[0], &d_[80], &d_[160], &d_[240], &d_[320], &d_[400]); break;
  }
  en = errno;
  p32(r); p32(en == 0);
  pn(&d_[0], 480);
  if (fp != NULL) {
    int c, k = 0;
    while ((c = getc(fp)) != EOF) { in_[k] = (char)c; k += 1; if (k > 11900) abort(); }
    pn(&in_[0], k);
    if (fn < 6) fclose(fp);
  } else p32(0);
}
'''
WS = b" \t\n\v\f\r"

PRE = {
    "d": re.compile(rb"[+-]?[0-9]*"), "o": re.compile(rb"[+-]?[0-7]*"), "x": re.compile(rb"[+-]?(?:0[xX][0-9a-fA-F]*|[0-9a-fA-F]*)"),
    "i": re.compile(rb"[+-]?(?:0[xX][0-9a-fA-F]*|0[0-7]*|[1-9][0-9]*)?"),
    "f": re.compile(rb"(?i)[+-]?(?:i(?:n(?:f(?:i(?:n(?:i(?:t(?:y)?)?)?)?)?)?)?|n(?:a(?:n(?:\((?:[a-z0-9_]*)\)?)?)?)?|0x[0-9a-f]*(?:\.[0-9a-f]*)?|[0-9]*(?:\.[0-9]*)?)"),
}
FULL = {
    "d": re.compile(rb"[+-]?[0-9]+"), "o": re.compile(rb"[+-]?[0-7]+"), "x": re.compile(rb"[+-]?(?:0[xX])?[0-9a-fA-F]+"),
    "i": re.compile(rb"[+-]?(?:0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)"),
    "f": re.compile(rb"(?i)[+-]?(?:inf(?:inity)?|nan(?:\([a-z0-9_]*\))?|0x(?:[0-9a-f]+\.?[0-9a-f]*|\.[0-9a-f]+)(?:p[+-]?[0-9]+)?|(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:e[+-]?[0-9]+)?)"),
}


def item(kind, s):
    """length of the longest prefix of s that is a prefix of a matching text"""
    m = PRE[kind].match(s)
    n = m.end()
    if kind == "f":
        t = s[:n].lower().lstrip(b"+-")
        hexa = t.startswith(b"0x")
        if (any(48 <= c <= 57 for c in t) if not hexa else len(t[2:].replace(b".", b"")) > 0) and t[:1] not in (b"i", b"n"):
            m2 = re.compile(rb"(?i)p[+-]?[0-9]*" if hexa else rb"(?i)e[+-]?[0-9]*").match(s[n:])
            if m2:
                n += m2.end()
    return n


class UB(Exception):
    pass


def fval(t):
    t = t.decode().lower()
    b = t.lstrip("+-")
    if b.startswith("nan"):
        return float("nan")
    if b.startswith("0x"):
        m = re.match(r"0x([0-9a-f]*)\.?([0-9a-f]*)(?:p([+-]?[0-9]+))?$", b)
        mant = int((m.group(1) + m.group(2)) or "0", 16)
        e = int(m.group(3) or "0") - 4 * len(m.group(2))
        if mant == 0:
            v = 0.0
        elif mant.bit_length() + e > 1100:
            raise UB
        elif mant.bit_length() + e < -1100:
            v = 0.0
        else:
            fr = Fraction(mant) * Fraction(2) ** e
            try:
                v = fr.numerator / fr.denominator      # correctly rounded
            except OverflowError:
                raise UB
    else:
        v = float(b)
    if v == float("inf") and not b.startswith("inf"):
        raise UB
    return -v if t.startswith("-") else v


INTSZ = {"hh": 1, "h": 2, "": 4, "l": 4, "ll": 8, "j": 8, "z": 4, "t": 4}


def intval(kind, t, base):
    t = t.decode().lower()
    neg = t[0] == "-"
    b = t.lstrip("+-")
    if base == 0:
        base = 16 if b.startswith("0x") else 8 if b.startswith("0") else 10
    if base == 16 and b.startswith("0x"):
        b = b[2:]
    v = int(b, base)
    return neg, v


def model(elems, data):
    """(set of allowed returns, {dest index: checker}, consumed, converted)"""
    pos, k, count, supp = 0, 0, 0, False
    dst = {}

    def eof():
        return {count} if count else ({-1, 0} if supp else {-1})

    def skip(p):
        while p < len(data) and data[p] in WS:
            p += 1
        return p
    for e in elems:
        if e[0] == "ws":
            pos = skip(pos)
            continue
        if e[0] == "lit" or e[0] == "pct":
            if e[0] == "pct":
                pos = skip(pos)
            if pos >= len(data):
                return eof(), dst, pos
            if data[pos] != (37 if e[0] == "pct" else e[1]):
                return {count}, dst, pos
            pos += 1
            continue
        _, star, width, mod, cv, sset = e
        d = None
        if not star:
            d = k
            k += 1
        if cv == "n":
            if d is not None:
                dst[d] = ("i", INTSZ[mod], pos)
            continue
        if cv not in "c[":
            pos = skip(pos)
        if pos >= len(data):
            return eof(), dst, pos
        avail = data[pos:pos + width] if width else data[pos:]
        if cv == "c":
            w = width or 1
            if len(avail) < w:
                pos += len(avail)
                if d is not None:
                    dst[d] = ("any", w)
                return {count} | eof(), dst, pos
            if d is not None:
                dst[d] = ("b", data[pos:pos + w])
            pos += w
        elif cv in "s[":
            n = 0
            while n < len(avail) and ((avail[n] not in WS) if cv == "s" else (avail[n] in sset)):
                n += 1
            if n == 0:
                return {count}, dst, pos
            if d is not None:
                dst[d] = ("b", avail[:n] + b"\0")
            pos += n
        elif cv in "diouxXp":
            kind = {"d": "d", "u": "d", "i": "i", "o": "o", "x": "x", "X": "x", "p": "x"}[cv]
            n = item(kind, avail)
            t = avail[:n]
            pos += n
            if not FULL[kind].fullmatch(t):
                return {count}, dst, pos
            neg, v = intval(kind, t, {"d": 10, "i": 0, "o": 8, "x": 16}[kind])
            sz = 4 if cv == "p" else INTSZ[mod]
            if cv in "di":
                x = -v if neg else v
                if not -(1 << 8 * sz - 1) <= x < 1 << 8 * sz - 1:
                    raise UB
            else:
                if v >= 1 << 8 * sz or (neg and sz < 4) or (neg and cv == "p"):
                    raise UB
                x = -v if neg else v
            if d is not None:
                dst[d] = ("i", sz, x)
        else:
            n = item("f", avail)
            t = avail[:n]
            pos += n
            if not FULL["f"].fullmatch(t):
                return {count}, dst, pos
            v = fval(t)
            if mod == "":
                try:
                    w = struct.pack("<f", v)
                except OverflowError:
                    raise UB
            else:
                w = struct.pack("<d", v)
            if d is not None:
                dst[d] = ("nan", len(w)) if v != v else ("b", w)
        if star:
            supp = True
        else:
            count += 1
    return {count}, dst, pos


def judge_dst(dst, mem):
    for k in range(ND):
        m = mem[k * DSZ:(k + 1) * DSZ]
        c = dst.get(k)
        if c is None:
            w = 0
        elif c[0] == "i":
            w = c[1]
            if int.from_bytes(m[:w], "little") != c[2] % (1 << 8 * w):
                return "argument %d: %d bytes %s, expected value %d" % (k, w, m[:w].hex(), c[2])
        elif c[0] == "b":
            w = len(c[1])
            if m[:w] != c[1]:
                return "argument %d: bytes %r, expected %r" % (k, m[:w], c[1])
        elif c[0] == "nan":
            w = c[1]
            v = struct.unpack("<f" if w == 4 else "<d", m[:w])[0]
            if v == v:
                return "argument %d: %r, expected a NaN" % (k, v)
        else:
            w = c[1]
        if m[w:] != b"\x5a" * (DSZ - w):
            return "argument %d: bytes beyond %d were written: %s" % (k, w, m[w:w + 20].hex())
    return None


def rnd_digits(s, n, ds="0123456789"):
    return "".join(s.choice(ds) for _ in range(n))


def gen_set(s):
    """(text between brackets, set of bytes)"""
    inv = s.bool(1, 3)
    mem, txt = set(), b""
    first = s.draw(5)
    if first == 0:
        txt += b"]"
        mem.add(ord("]"))
    elif first == 1:
        txt += b"-"
        mem.add(ord("-"))
    for _ in s.many(1 if not txt else 0, 4):
        k = s.draw(4)
        if k <= 1:
            a, b = s.choice([(97, 122), (48, 57), (65, 90), (97, 102), (32, 47 - 3), (128, 255), (48, 48)])
            lo = s.int(a, b)
            hi = s.int(lo, b)
            if lo == 45 or hi == 45 or lo == 94:
                continue
            txt += bytes([lo]) + b"-" + bytes([hi])
            mem |= set(range(lo, hi + 1))
        else:
            c = s.choice(b"abcxyz019 ,.:\t\x80\xff_")
            if not txt and c == 94:
                continue
            txt += bytes([c])
            mem.add(c)
    if not txt:
        txt, mem = b"a", {97}
    if s.bool(1, 5) and txt[-1:] != b"-":
        txt += b"-"
        mem.add(45)
    if inv:
        txt, mem = b"^" + txt, set(range(256)) - mem
    return txt, frozenset(mem)


def num_text(s, cv, mod):
    if cv in "diouxXp":
        base = {"d": 10, "u": 10, "o": 8, "x": 16, "X": 16, "p": 16}.get(cv) or s.choice([8, 10, 16])
        sz = 4 if cv == "p" else INTSZ[mod]
        hi = (1 << 8 * sz - 1) - 1 if cv in "di" else (1 << 8 * sz) - 1
        v = s.weighted([(2, hi), (1, hi - 1), (4, s.draw(hi)), (4, s.draw(min(hi, 300))), (1, 0)])
        neg = cv in "di" and s.bool(1, 3)
        if neg and s.bool(1, 4) and v == hi:
            v += 1
        t = "%d" % v if base == 10 else "%o" % v if base == 8 else ("%x" if s.bool() else "%X") % v
        if cv == "i" and base == 8 and t != "0":
            t = "0" + t
        if s.bool(1, 4) and not (cv == "i" and base == 10):
            t = "0" * s.draw(40) + t
        if base == 16 and (cv == "i" or s.bool(1, 3)):
            t = s.choice(["0x", "0X"]) + t
        sg = "-" if neg else s.choice(["", "", "+"]) if cv != "p" else ""
        if cv in "oxXu" and sz >= 4 and s.bool(1, 8):
            sg = "-"
        return sg + t
    k = s.draw(6)
    sg = s.choice(["", "", "-", "+"])
    if k == 0:
        t = s.choice(["inf", "INF", "infinity", "Infinity", "nan", "NaN", "nan(1a_)", "nan()", "inf", "NAN(x)"])
    elif k == 1:
        t = "0" + s.choice("xX") + rnd_digits(s, s.draw(16), "0123456789abcdefABCDEF") + s.choice(["", ".", "." + rnd_digits(s, s.draw(18), "0123456789abcdef")])
        if s.bool():
            t += s.choice("pP") + s.choice(["", "-", "+"]) + rnd_digits(s, s.int(1, 2))
    elif k == 2 and s.bool(1, 6):       # a midpoint, decided after many digits
        z = s.choice([10, 700, 770, 780, 783, 784, 785, 786, 790, 795, 800, 810, 820, 850]) + s.draw(2)
        d = str(2 ** 53 + 1 + 2 * s.draw(2 ** 40))
        n = s.draw(2)
        t = "0" * s.choice([0, 0, 1, 30, 800, 830]) + (d + "." + "0" * z if n == 0 else d + "0" * z if n == 1 else d[0] + "." + d[1:] + "0" * z)
        t += s.choice(["", "0", "1", "5"])
        if n:
            t += "e%s%d" % ("-" if n == 1 else "+", z + s.draw(1) if n == 1 else len(d) - 1)
        s.tag("num-long")
        return sg + t
    elif k == 2:
        t = rnd_digits(s, s.draw(45)) + "." + rnd_digits(s, s.draw(45))
    elif k == 3:
        t = "0" * s.draw(40) + rnd_digits(s, s.draw(4)) + s.choice(["", "." + "0" * s.draw(40) + rnd_digits(s, s.draw(9))])
    else:
        t = rnd_digits(s, s.draw(5)) + s.choice(["", ".", "." + rnd_digits(s, s.draw(5))])
    if k >= 2 and s.bool(1, 3):
        t += s.choice("eE") + s.choice(["", "-", "+"]) + rnd_digits(s, s.int(1, 2) if s.bool(5, 6) else 0)
    return sg + t


def gen_call(s):
    elems, fmt, inp = [], b"", b""
    ndst = 0
    for _ in s.many(1, 6):
        k = s.draw(9)
        if k == 0:
            w = bytes(s.choice(b" \t\n") for _ in s.many(1, 2, 1))
            fmt += w
            elems.append(("ws",))
            inp += bytes(s.choice(b" \t\n\v\f\r") for _ in range(s.draw(3)))
        elif k == 1:
            c = s.choice(b"abcx,.:-+0\x80\xe9\xff")
            fmt += bytes([c])
            elems.append(("lit", c))
            inp += bytes([c])
        elif k == 2 and s.bool(1, 3):
            fmt += b"%%"
            elems.append(("pct",))
            inp += b" " * s.draw(2) + b"%"
        else:
            star = s.bool(1, 6)
            if not star and ndst >= ND:
                star = True
            cv = s.weighted([(3, "d"), (3, "i"), (2, "u"), (2, "o"), (3, "x"), (1, "X"), (1, "p"), (4, "f"), (1, "e"), (1, "g"), (1, "a"), (1, "E"), (1, "G"), (3, "s"), (3, "c"), (4, "["), (2, "n")])
            if cv == "n":
                star = False
                if ndst >= ND:
                    continue
            mod, sset, st = "", None, b""
            if cv in "diouxXn":
                mod = s.choice(["", "", "hh", "h", "l", "ll", "j", "z", "t"])
            elif cv in "fegaEG":
                mod = s.choice(["", "l", "l"])
            width = 0
            if cv != "n" and s.bool(1, 3):
                width = s.weighted([(4, s.int(1, 6)), (1, s.int(7, 40)), (1, s.int(1, 3))])
            if cv == "[":
                tx, sset = gen_set(s)
                st = tx + b"]"
            if cv == "c":
                t = bytes(s.choice(b"ab \n\x80\xff1") for _ in range(width or 1))
            elif cv == "s":
                t = bytes(s.choice(b"abz09,.\x80\xff\xc3\xa9(") for _ in s.many(1, min(width or 12, 40), 2))
            elif cv == "[":
                al = sorted(sset - {0})
                t = bytes(s.choice(al) for _ in s.many(1, min(width or 12, 40), 2))
            elif cv == "n":
                t = b""
            else:
                t = num_text(s, cv, mod).encode()
            if cv not in "c[n" and s.bool(1, 3):
                inp += bytes(s.choice(b" \t\n") for _ in s.many(1, 2, 1))
            if s.bool(1, 12) and t:
                s.tag("damaged")
                j = s.draw(len(t) - 1)
                t = t[:j] + s.choice([b"", b"x", b"-", b"+", b".", b"e", b" ", b"9", b"0x", b"(", b"\xff"]) + t[j + s.draw(1):]
            if not (cv in "s[" and not width and len(t) > 60):
                inp += t
            fmt += b"%" + (b"*" if star else b"") + (str(width).encode() if width else b"") + mod.encode() + cv.encode() + st
            elems.append(("conv", star, width, mod, cv, sset))
            s.tag(cv + mod)
            if star:
                s.tag("star")
            if width:
                s.tag("width")
            if not star:
                ndst += 1
    if s.bool(1, 7):
        s.tag("truncated")
        inp = inp[:s.draw(len(inp))]
    elif s.bool(1, 3):
        inp += s.choice([b" ", b"x", b"\n", b"1", b"\x80", b"z9"])
    fn = s.draw(7)
    n = 0
    if fn < 4:
        inp = inp.replace(b"\0", b"0")
    if fn in (1, 3):
        n = s.weighted([(2, len(inp)), (1, len(inp) + 5), (2, s.draw(len(inp)))])
    elif fn >= 4 and s.bool(1, 10):
        j = s.draw(len(inp))
        inp = inp[:j] + b"\0" + inp[j:]
    return fn, n, fmt, tuple(elems), inp


class Scan(LibFamily):
    name, quick, thorough, batch = "scan", 350000, 8000000, 1000
    driver = DRV
    fs = True

    def gen(self, s):
        return gen_call(s)

    def nontrivial(self, c, tags):
        return any(e[0] == "conv" for e in c[3]) and len(c[4]) > 0

    def key(self, c):
        return repr((c[0], c[1], c[2], c[4]))

    def show(self, c):
        fn = ("sscanf", "snscanf", "vsscanf", "vsnscanf", "fscanf", "vfscanf", "scanf", "vscanf")[c[0]]
        return "%s(%r%s, %r, ...)" % (fn, c[4], ", %d" % c[1] if c[0] in (1, 3) else "", c[2])

    def req(self, c):
        return b"\x01" + u32(c[0]) + u32(c[1]) + blk(c[2]) + blk(c[4])

    def judge(self, c, rd):
        fn, n, fmt, elems, inp = c
        data = inp
        if fn in (1, 3):
            data = inp[:n]
        try:
            rets, dst, pos = model(elems, data)
        except UB:
            return "discard"
        # texts longer than a destination are not generated by intent but possible
        if any(x[0] == "b" and len(x[1]) > DSZ for x in dst.values()):
            return "discard"
        ret, en0 = rd.i32(), rd.i32()
        mem, rest = rd.blk(), rd.blk()
        if ret not in rets:
            return "returns %d, expected %s" % (ret, sorted(rets))
        v = judge_dst(dst, mem)
        if v:
            return v
        if fn >= 4 and rest != data[pos:]:
            return "leaves %r unread, expected %r" % (rest[:60], data[pos:][:60])
        if en0:
            return "errno is set to zero"
        return None


RT = r'''
#include <stdio.h>
char b_[500];
void cmd_(int op) {
  char f[40]; char g[40]; int n = -1, r;
  gs(&f[0], 40); gs(&g[0], 40);
  switch (op) {
    case 0: { int v = g32(), w = 0; sprintf(&b_[0], &f[0], v); r = sscanf(&b_[0], &g[0], &w, &n); p32(r); p64((unsigned long long)(long long)w); } break;
    case 1: { long long v = (long long)g64(), w = 0; sprintf(&b_[0], &f[0], v); r = sscanf(&b_[0], &g[0], &w, &n); p32(r); p64((unsigned long long)w); } break;
    case 2: { double v = gd(), w = 0.0; sprintf(&b_[0], &f[0], v); r = sscanf(&b_[0], &g[0], &w, &n); p32(r); pd(w); } break;
    case 3: { float v = gf(), w = 0.0f; sprintf(&b_[0], &f[0], v); r = sscanf(&b_[0], &g[0], &w, &n); p32(r); pd((double)w); } break;
    case 4: { short w = 0; int v = (short)g32(); sprintf(&b_[0], &f[0], v); r = sscanf(&b_[0], &g[0], &w, &n); p32(r); p64((unsigned long long)(long long)w); } break;
  }
  p32(n); ps(&b_[0]);
}
'''


class Round(LibFamily):
    name, quick, thorough, batch = "roundtrip", 60000, 2000000, 1000
    driver = RT

    def gen(self, s):
        k = s.draw(4)
        w = s.choice(["", "", "%d" % s.int(1, 30)])
        fl = "".join(s.choice(["", "-", "+", " ", "0"]) for _ in range(2))
        if k in (0, 1, 4):
            v = s.draw((1 << (64 if k == 1 else 32)) - 1) >> s.draw(60 if k == 1 else 28)
            m = {0: s.choice(["", "l", "z"]), 1: s.choice(["ll", "j"]), 4: "h"}[k]
            cv, rv = s.choice([("d", "d"), ("i", "i"), ("u", "u"), ("x", "x"), ("X", "x"), ("o", "o"), ("#x", "i"), ("#o", "i"), ("#x", "x")])
            if k == 4:
                cv, rv = s.choice([("d", "d"), ("i", "d")])
            if "0" in fl and rv == "i" and "#" not in cv:
                rv = "d"
            if "-" in fl:
                fl = fl.replace("0", "")
            if cv[-1] in "uxXo":
                fl = fl.replace("+", "").replace(" ", "")
            if rv == "i" and cv in ("#x", "#o") and v >> (31 if k == 0 else 63):
                rv = cv[1]
            f, g = "%" + fl + cv[:-1] + w + m + cv[-1], "%" + m + rv + "%n"
        elif k == 2:
            v = s.draw((1 << 64) - 1)
            f, g = "%" + fl + w + s.choice("aA"), "%l" + s.choice("aefg") + "%n"
            if "-" in fl:
                f = f.replace("0", "")
        else:
            v = s.draw((1 << 32) - 1)
            f, g = s.choice(["%.8e", "%.9e", "%a"]), "%" + s.choice("aefg") + "%n"
        return k, f, g, v

    def req(self, c):
        k, f, g, v = c
        return bytes([k]) + blk(f.encode()) + blk(g.encode()) + (u64(v) if k in (1, 2) else u32(v))

    def show(self, c):
        k, f, g, v = c
        x = v if k in (0, 1, 4) else struct.unpack("<d", u64(v))[0] if k == 2 else struct.unpack("<f", u32(v))[0]
        return "sscanf(sprintf(%r, %r), %r)" % (f, x, g)

    def judge(self, c, rd):
        k, f, g, v = c
        r, got, n, txt = rd.i32(), rd.u64(), rd.i32(), rd.blk()
        if k in (0, 1, 4):
            if k == 0 or k == 4:
                b = 32 if k == 0 else 16
                v &= (1 << b) - 1
                v = v - (1 << b) if v >> b - 1 else v
            exp = v & ((1 << 64) - 1)
        else:
            x = struct.unpack("<d", u64(v))[0] if k == 2 else struct.unpack("<f", u32(v))[0]
            exp = 0x7ff8000000000000 if x != x else struct.unpack("<Q", struct.pack("<d", x))[0]
            if x == 0 and False:
                exp = 0
        if r != 1:
            return "scanf of %r returns %d" % (txt, r)
        if got != exp:
            return "%r reads back as %#x, was %#x" % (txt, got, exp)
        if n != len(txt.rstrip(b" ")):
            return "%%n is %d after reading %r" % (n, txt)
        return None


FAMILIES = [Scan(), Round()]
