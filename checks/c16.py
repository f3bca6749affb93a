"""C16: string, memory, character and UTF-8 functions."""
from vlib import clib
from vlib.choice import Invalid
from vlib.clib import LibFamily, blk, u32

TECHNIQUE = "model-based property-based testing of memory images (byte-array model) and of UTF-8 conversions"
RULE = ("A random memory image that ends where linear memory ends is prepared, one string/memory function (or a short sequence of strtok calls) is applied at "
        "random, partly overlapping positions and lengths; the result and the whole image afterwards must equal those of a byte-array model, and a read past "
        "what the function may read traps. Character functions are compared on their whole domain; multibyte functions on random and ill-formed UTF-8. "
        "Non-trivial: the call touches at least one byte; distinct by call.")
ASSUMPTIONS = ["calls undefined in C (unterminated strings, overlapping copies) are not made", "only the sign of a comparison is specified",
               "conversions of strings holding ill-formed sequences skip the offending bytes (the library's documented choice is to go on)"]

N = 96          # image size

DRV = r'''
#include <ctype.h>
#include <wchar.h>
#include <wasm.h>
char *img_; char tb_[400];
void res_(char *r) { p32(r == NULL ? -1 : (int)(r - img_)); }
void sgn_(int d) { p32(d < 0 ? -1 : d > 0); }
void cmd_(int op) {
  int a = g32(), b = g32(), c = g32(), n = g32(), k; char *p, *q, *hp;
  if (img_ == NULL) { k = wasm_memory_grow(1); img_ = (char*)(unsigned)((k + 1) * 65536 - 96); }
  gn(img_, 96);
  errno = 0;
  p = img_ + a; q = img_ + b;
  switch (op) {
    case 0: res_((char*)memcpy(p, q, (size_t)n)); break;
    case 1: res_((char*)memmove(p, q, (size_t)n)); break;
    case 2: res_((char*)memset(p, c, (size_t)n)); break;
    case 3: res_((char*)memccpy(p, q, c, (size_t)n)); break;
    case 4: res_((char*)memchr(p, c, (size_t)n)); break;
    case 5: sgn_(memcmp(p, q, (size_t)n)); break;
    case 6: res_((char*)memmem(p, (size_t)n, q, (size_t)c)); break;
    case 7: memswap(p, q, (size_t)n); p32(0); break;
    case 8: bzero(p, (size_t)n); p32(0); break;
    case 9: res_(strcpy(p, q)); break;
    case 10: res_(strncpy(p, q, (size_t)n)); break;
    case 11: res_(strcat(p, q)); break;
    case 12: res_(strncat(p, q, (size_t)n)); break;
    case 13: sgn_(strcmp(p, q)); break;
    case 14: sgn_(strncmp(p, q, (size_t)n)); break;
    case 15: sgn_(strcasecmp(p, q)); break;
    case 16: sgn_(strncasecmp(p, q, (size_t)n)); break;
    case 17: sgn_(strcoll(p, q)); break;
    case 18: p32((int)strxfrm(p, q, (size_t)n)); break;
    case 19: res_(strchr(p, c)); break;
    case 20: res_(strrchr(p, c)); break;
    case 21: p32((int)strspn(p, q)); break;
    case 22: p32((int)strcspn(p, q)); break;
    case 23: res_(strpbrk(p, q)); break;
    case 24: res_(strstr(p, q)); break;
    case 25: p32((int)strlen(p)); break;
    case 26: p32((int)strnlen(p, (size_t)n)); break;
    case 27: hp = strdup(p); if (hp == NULL) p32(-1); else { ps(hp); free(hp); } break;
    case 28: hp = strndup(p, (size_t)n); if (hp == NULL) p32(-1); else { ps(hp); free(hp); } break;
    case 29: for (k = 0; k < n; ++k) { hp = strtok(k ? NULL : p, img_ + g32()); res_(hp); if (hp != NULL) p32((int)strlen(hp)); } break;
    case 30: { char *h1 = NULL, *h2 = NULL; /* two interleaved scans */
      for (k = 0; k < n; ++k) {
        int w = g32(); char *d = img_ + g32();
        if (w) { hp = strtok_r(w & 2 ? q : NULL, d, &h2); } else hp = strtok_r(k ? NULL : p, d, &h1);
        res_(hp); if (hp != NULL) p32((int)strlen(hp));
      } } break;
  }
  pn(img_, 96);
}
'''
FN = ["memcpy", "memmove", "memset", "memccpy", "memchr", "memcmp", "memmem", "memswap", "bzero", "strcpy", "strncpy", "strcat", "strncat", "strcmp", "strncmp",
      "strcasecmp", "strncasecmp", "strcoll", "strxfrm", "strchr", "strrchr", "strspn", "strcspn", "strpbrk", "strstr", "strlen", "strnlen", "strdup", "strndup",
      "strtok", "strtok_r"]


class Undef(Exception):
    pass


def model(op, m, a, b, c, n, ex):
    """applies FN[op] to image m; returns the list of expected answer items"""
    f = FN[op]

    def rng(p, k):
        if p + k > N:
            raise Undef

    def slen(p):
        i = m.find(0, p)
        if i < 0:
            raise Undef
        return i - p

    def s(p):
        return bytes(m[p:p + slen(p)])

    def disj(p, k, q, l):
        if p < q + l and q < p + k:
            raise Undef

    def put(p, d):
        rng(p, len(d))
        m[p:p + len(d)] = d

    def sg(x, y):
        return [(x > y) - (x < y)]

    def lo(x):
        return bytes(v + 32 if 65 <= v <= 90 else v for v in x)

    ch = c & 255
    if f in ("memcpy", "memmove"):
        rng(a, n), rng(b, n)
        if f == "memcpy":
            disj(a, n, b, n)
        put(a, bytes(m[b:b + n]))
        return [a]
    if f == "memset":
        put(a, bytes([ch]) * n)
        return [a]
    if f == "memccpy":
        i = m.find(ch, b)
        k = i - b + 1 if i >= 0 and i < b + n else n
        rng(b, k), rng(a, k), disj(a, k, b, k)
        put(a, bytes(m[b:b + k]))
        return [a + k if i >= 0 and i < b + n else -1]
    if f == "memchr":
        i = m.find(ch, a)
        if i < 0 or i >= a + n:
            rng(a, n)
            return [-1]
        return [i]
    if f == "memcmp":
        rng(a, n), rng(b, n)
        return sg(m[a:a + n], m[b:b + n])
    if f == "memmem":
        rng(a, n), rng(b, c)
        i = m.find(bytes(m[b:b + c]), a, a + n)
        return [i]
    if f == "memswap":
        rng(a, n), rng(b, n), disj(a, n, b, n)
        x, y = bytes(m[a:a + n]), bytes(m[b:b + n])
        put(a, y), put(b, x)
        return [0]
    if f == "bzero":
        put(a, bytes(n))
        return [0]
    if f == "strcpy":
        x = s(b) + b"\0"
        disj(a, len(x), b, len(x))
        put(a, x)
        return [a]
    if f in ("strncpy", "strxfrm"):
        if f == "strncpy":
            i = m.find(0, b, b + n)
            k = i - b if i >= 0 else n
            rng(b, min(n, k + 1))
            x = bytes(m[b:b + k]).ljust(n, b"\0")
            disj(a, n, b, min(n, k + 1))
            put(a, x)
            return [a]
        x = s(b)
        rng(a, n), disj(a, n, b, len(x) + 1)
        if n > len(x):
            put(a, x + b"\0")
            ex["free"] = (a + len(x) + 1, a + n)       # what lies behind is unspecified
        else:
            ex["free"] = (a, a + n)
        return [len(x)]
    if f in ("strcat", "strncat"):
        l = slen(a)
        if f == "strcat":
            x = s(b)
            rd = len(x) + 1
        else:
            i = m.find(0, b, b + n)
            k = i - b if i >= 0 else n
            rd = min(n, k + 1)
            rng(b, rd)
            x = bytes(m[b:b + k])
        disj(a, l + len(x) + 1, b, rd)
        put(a + l, x + b"\0")
        return [a]
    if f in ("strcmp", "strcoll"):
        return sg(s(a), s(b))
    if f in ("strncmp", "strncasecmp", "strcasecmp"):
        def pre(p):
            if f == "strcasecmp":
                return s(p)
            i = m.find(0, p, p + n)
            if i < 0:
                rng(p, n)
                return bytes(m[p:p + n])
            return bytes(m[p:i])
        x, y = pre(a), pre(b)
        if "case" in f:
            x, y = lo(x), lo(y)
        return sg(x, y)
    if f == "strchr":
        x = s(a) + b"\0"
        i = x.find(ch)
        return [a + i if i >= 0 else -1]
    if f == "strrchr":
        x = s(a) + b"\0"
        i = x.rfind(ch)
        return [a + i if i >= 0 else -1]
    if f in ("strspn", "strcspn", "strpbrk"):
        x, y = s(a), s(b)
        i = next((i for i, v in enumerate(x) if (v in y) != (f == "strspn")), len(x))
        if f == "strpbrk":
            return [a + i if i < len(x) else -1]
        return [i]
    if f == "strstr":
        x, y = s(a), s(b)
        i = x.find(y)
        return [a + i if i >= 0 else -1]
    if f == "strlen":
        return [slen(a)]
    if f == "strnlen":
        i = m.find(0, a, a + n)
        if i < 0:
            rng(a, n)
            return [n]
        return [i - a]
    if f == "strdup":
        return [s(a)]
    if f == "strndup":
        i = m.find(0, a, a + n)
        if i < 0:
            rng(a, n)
            i = a + n
        return [bytes(m[a:i])]
    # strtok
    res = []
    pos = [None, None]
    if f == "strtok":
        seq = [(0, d) for d in ex["delims"]]
    else:
        seq = ex["delims"]
        if m.find(0, a) >= b or seq[0][0] or b <= a:
            raise Undef
    lim = m.find(0, b) if f == "strtok_r" and any(w for w, _ in seq) else m.find(0, a)
    if lim < 0:
        raise Undef
    for k, (w, d) in enumerate(seq):
        i = 1 if w else 0
        dl = s(d)
        disj(a, lim + 1 - a, d, len(dl) + 1)
        if k == 0 or w & 2:
            pos[i] = b if w & 2 else a
            slen(pos[i])
        p = pos[i]
        if p is None:
            res.append(-1)
            continue
        while m[p] and m[p] in dl:
            p += 1
        if not m[p]:
            pos[i] = None
            res.append(-1)
            continue
        st = p
        while m[p] and m[p] not in dl:
            p += 1
        if m[p]:
            m[p] = 0
            pos[i] = p + 1
        else:
            pos[i] = None
        res += [st, p - st]
    return res


class Strings(LibFamily):
    name, quick, thorough, batch = "strings", 120000, 4000000, 1500
    driver = DRV

    def gen(self, s):
        op = s.draw(len(FN) - 1)
        f = FN[op]
        s.tag(f)
        al = s.choice([b"ab", b"abAB", b"aab\0", b"azAZ[`@{_", bytes(range(256)), b"\x7f\x80\xff\0", b"ab,; ,"])
        m = bytearray(al[s.draw(len(al) - 1)] for _ in range(N))
        if s.bool(3, 4):
            m[N - 1] = 0
        for _ in range(s.draw(4)):
            m[s.draw(N - 1)] = 0
        a, b = s.draw(N - 1), s.draw(N - 1)
        n = s.draw(s.choice([3, 12, 40, N]))
        c = s.choice(al) if s.bool(3, 4) else s.draw(255)
        if s.bool(1, 8):
            c = s.choice([0, -1, 255, 256, -128, 128 + 256])
        if f == "memmem":
            c = s.draw(6)
            if s.bool():
                n = N - a if s.bool() else n
                if n and s.bool():
                    b = min(a + s.draw(n), N)
        if f in ("strstr", "strncmp", "strcmp", "memcmp", "strcasecmp", "strncasecmp", "strcoll", "strspn", "strcspn", "strpbrk") and s.bool():
            # related operands: the second is a copied part of the first
            k = s.draw(10)
            src = bytes(m[a:a + k])
            if b + len(src) < N:
                if "case" in f:
                    src = src.swapcase()
                m[b:b + len(src)] = src
                if s.bool():
                    m[b + len(src)] = 0
        if s.bool(1, 10):
            n = N - max(a, b)
        ex = {}
        if f == "strtok":
            n = s.int(1, 6)
            ex["delims"] = [s.draw(N - 1) for _ in range(n)]
            for d in ex["delims"]:
                if s.bool() and d + 2 < N:
                    m[d + s.int(1, 2)] = 0
        if f == "strtok_r":
            n = s.int(1, 8)
            st = [False]
            ds = []
            for i in range(n):
                w = 0 if i == 0 else s.draw(1)
                if w and not st[0]:
                    w, st[0] = 3, True
                ds.append((w, s.draw(N - 1)))
            ex["delims"] = ds
            for _, d in ds:
                if s.bool() and d + 2 < N:
                    m[d + s.int(1, 2)] = 0
        case = (op, bytes(m), a, b, c, n, tuple(ex.get("delims", ())))
        try:
            self.expect(case)
        except Undef:
            raise Invalid
        return case

    def expect(self, case):
        op, m, a, b, c, n, dl = case
        m = bytearray(m)
        ex = {"delims": dl}
        r = model(op, m, a, b, c, n, ex)
        return r, bytes(m), ex.get("free")

    def key(self, c):
        return repr(c)

    def nontrivial(self, case, tags=None):
        op, m, a, b, c, n, dl = case
        return n > 0 or m[a] != 0

    def show(self, case):
        op, m, a, b, c, n, dl = case
        return "%s: p=image+%d q=image+%d c=%d n=%d %s image=%r" % (FN[op], a, b, c, n, dl or "", m)

    def req(self, case):
        op, m, a, b, c, n, dl = case
        d = b""
        for x in dl:
            d += u32(x[0]) + u32(x[1]) if isinstance(x, tuple) else u32(x)
        return bytes([op]) + u32(a) + u32(b) + u32(c) + u32(n) + blk(m) + d

    def judge(self, case, rd):
        r, m, free = self.expect(case)
        op, m0, a, b, c, n, dl = case
        got = []
        for x in r:
            if isinstance(x, bytes):
                got.append(rd.blk())
            else:
                got.append(rd.i32())
                if dl and got[-1] == -1 and x != -1:
                    break
        if got != r:
            return "%s gives %r, expected %r" % (FN[op], got, r)
        g = rd.blk()
        if free:
            g = g[:free[0]] + m[free[0]:free[1]] + g[free[1]:]
        if g != m:
            i = next(i for i in range(N) if g[i] != m[i])
            return "%s leaves memory at image+%d as %r, expected %r" % (FN[op], i, g[i:i + 12], m[i:i + 12])
        return None if rd.end() else "answer too long"


CT = ["isalnum", "isalpha", "iscntrl", "isdigit", "isgraph", "islower", "isprint", "ispunct", "isspace", "isupper", "isxdigit", "isascii", "isblank", "toupper", "tolower"]
CDRV = r'''
#include <ctype.h>
#include <wchar.h>
char mb_[600]; wchar_t wb_[200]; char ob2_[700];
void cmd_(int op) {
  int k, n, m, i;
  if (op == 0) { k = g32();
%s
  } else if (op == 1) { /* decode one */
    n = gn(&mb_[0], 16); wb_[0] = (wchar_t)0x55555555; m = g32();
    char *e = (char*)malloc((size_t)n); for (i = 0; i < n; ++i) e[i] = mb_[i];
    errno = 0;
    p32(mbtowc(m ? &wb_[0] : NULL, e, (size_t)n)); p32((int)wb_[0]); p32(mblen(e, (size_t)n));
    free(e);
  } else if (op == 2) { /* encode one */
    k = g32(); for (i = 0; i < 8; ++i) mb_[i] = '#';
    p32(wctomb(&mb_[0], (wchar_t)k)); pn(&mb_[0], 8);
  } else if (op == 3) { /* string to wide */
    gs(&mb_[0], 600); n = g32(); for (i = 0; i < 200; ++i) wb_[i] = (wchar_t)0x55555555;
    p32((int)mbstowcs(&wb_[0], &mb_[0], (size_t)n)); for (i = 0; i < 100; ++i) p32((int)wb_[i]);
  } else if (op == 4) { /* wide to string */
    k = g32(); for (i = 0; i < k; ++i) wb_[i] = (wchar_t)g32(); wb_[k] = 0; n = g32();
    for (i = 0; i < 700; ++i) ob2_[i] = '#';
    p32((int)wcstombs(&ob2_[0], &wb_[0], (size_t)n)); pn(&ob2_[0], 420);
  } else if (op == 5) { k = g32(); ps(strerror(k)); 
  } else if (op == 6) { p32(mbtowc(NULL, NULL, 4)); p32(mblen(NULL, 4)); p32(wctomb(NULL, (wchar_t)g32())); }
}
''' % "\n".join("    p32(%s(k)%s);" % (f, "" if f.startswith("to") else " != 0") for f in CT)


def ct(c):
    u, l, d = 65 <= c <= 90, 97 <= c <= 122, 48 <= c <= 57
    sp = c == 32 or 9 <= c <= 13
    pr = 32 <= c <= 126
    return [u or l or d, u or l, 0 <= c < 32 or c == 127, d, pr and c != 32, l, pr, pr and c != 32 and not (u or l or d), sp, u,
            d or 65 <= c <= 70 or 97 <= c <= 102, 0 <= c < 128, c in (9, 32), c - 32 if l else c, c + 32 if u else c]


def enc(c):
    """UTF-8 of c < 2^21"""
    if c < 0x80:
        return bytes([c])
    if c < 0x800:
        return bytes([0xc0 | c >> 6, 0x80 | c & 63])
    if c < 0x10000:
        return bytes([0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63])
    return bytes([0xf0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63])


def dec(b):
    """(length, code) of the first character, None if ill-formed or cut short"""
    if not b:
        return None
    c = b[0]
    n = 1 if c < 0x80 else 2 if 0xc0 <= c < 0xe0 else 3 if 0xe0 <= c < 0xf0 else 4 if 0xf0 <= c < 0xf8 else 0
    if n == 0 or len(b) < n:
        return None
    if n == 1:
        return 1, c
    v = c & (0x7f >> n)
    for x in b[1:n]:
        if x & 0xc0 != 0x80:
            return None
        v = v << 6 | x & 63
    if v < (0x80, 0x800, 0x10000)[n - 2]:
        return None
    return n, v


def code(s):
    k = s.draw(5)
    if k == 0:
        return s.draw(0x7f)
    if k == 1:
        return s.int(0x80, 0x7ff)
    if k == 2:
        v = s.int(0x800, 0xffff)
        return v - 0x800 if 0xd800 <= v < 0xe000 else v
    if k == 3:
        return s.int(0x10000, 0x10ffff)
    if k == 4:
        return max(0, s.choice([0x80, 0x800, 0x10000, 0x20000, 0x110000]) + s.int(-2, 1))
    return s.int(1, 0x24f)


def wf(s):
    """a code point that is a Unicode scalar value"""
    v = code(s)
    return v if v < 0xd800 or 0xe000 <= v <= 0x10ffff else 0x20ac


class Chars(LibFamily):
    name, quick, thorough, batch = "chars", 40000, 1000000, 1500
    driver = CDRV

    def gen(self, s):
        k = s.weighted([(2, 0), (5, 1), (3, 2), (4, 3), (4, 4), (1, 5), (1, 6)])
        s.tag(("ctype", "decode", "encode", "to-wide", "from-wide", "strerror", "null")[k])
        if k == 0:
            return 0, s.int(-1, 255)
        if k == 1:
            t = s.draw(3)
            if t == 0:
                b = s.bytes(s.int(0, 5))
            elif t == 1:
                b = enc(wf(s)) + s.bytes(s.draw(2))
            elif t == 2:
                b = enc(code(s))
                if s.bool():
                    b = b[:s.draw(len(b))]
                else:
                    i = s.draw(len(b) - 1)
                    b = b[:i] + s.bytes(1) + b[i + 1:]
            else:
                l = s.choice([0xc0, 0xc1, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe, 0xff, 0x80, 0xbf, 0xf7])
                b = bytes([l] + [s.choice([0x80, 0x9f, 0xa0, 0xbf, 0x8f, 0x90]) for _ in range(s.draw(5))])
            return 1, b, s.bool(2, 3)
        if k == 2:
            c = code(s)
            if s.bool(1, 10):
                c = s.choice([-1, -2 ** 31, 2 ** 31 - 1, 0x200000, 0x4000000])
            return 2, c
        if k == 3:
            return 3, tuple(max(1, wf(s)) for _ in s.many(0, 40, 6)), s.draw(s.choice([4, 12, 60]))
        if k == 4:
            return 4, tuple(max(1, wf(s)) for _ in s.many(0, 40, 6)), s.draw(s.choice([6, 20, 200]))
        if k == 5:
            return 5, s.int(-2, 90)
        return 6, code(s)

    def key(self, c):
        return repr(c)

    def nontrivial(self, case, tags=None):
        return True

    def show(self, c):
        return "%s %r" % (("ctype", "mbtowc/mblen", "wctomb", "mbstowcs", "wcstombs", "strerror", "null-state")[c[0]], c[1:])

    def req(self, c):
        k = c[0]
        b = bytes([k])
        if k == 1:
            return b + blk(c[1]) + u32(c[2])
        if k == 3:
            return b + blk(b"".join(map(enc, c[1]))) + u32(c[2])
        if k == 4:
            return b + u32(len(c[1])) + b"".join(u32(x) for x in c[1]) + u32(c[2])
        return b + u32(c[1])

    def judge(self, c, rd):
        k = c[0]
        if k == 0:
            e = [int(x) for x in ct(c[1])]
            g = [rd.i32() for _ in CT]
            for f, x, y in zip(CT, g, e):
                if x != y:
                    return "%s(%d) gives %d, expected %d" % (f, c[1], x, y)
            return None
        if k == 1:
            d = dec(c[1])
            r, v, l = rd.i32(), rd.u32(), rd.i32()
            if d and (0xd800 <= d[1] < 0xe000 or d[1] > 0x10ffff):
                return None             # not specified
            er = -1 if d is None else 0 if d[1] == 0 else d[0]
            if r != er or l != er:
                return "mbtowc/mblen give %d/%d, expected %d" % (r, l, er)
            ev = d[1] if d and c[2] else 0x55555555
            if v != ev and not (d is None):
                return "mbtowc stores %#x, expected %#x" % (v, ev)
            return None
        if k == 2:
            v = c[1]
            r, b = rd.i32(), rd.blk()
            if v < 0 or v > 0x1fffff:
                return None if r == -1 and b == b"#" * 8 else "wctomb(%d) gives %d, stores %r" % (v, r, b)
            if v > 0x10ffff or 0xd800 <= v < 0xe000:
                return None if r in (-1, len(enc(v))) else "wctomb gives %d" % r
            e = enc(v)
            return None if (r, b) == (len(e), e.ljust(8, b"#")) else "wctomb(%#x) gives %d, stores %r" % (v, r, b)
        if k == 3:
            n = c[2]
            r = rd.i32()
            w = [rd.u32() for _ in range(100)]
            e = list(c[1][:n])
            if len(e) < n:
                e.append(0)
            er = min(len(c[1]), n)
            if r != er or w != (e + [0x55555555] * 100)[:100]:
                return "mbstowcs gives %d and %s, expected %d and %s" % (r, [hex(x) for x in w[:len(e) + 2]], er, [hex(x) for x in e])
            return None
        if k == 4:
            n = c[2]
            r, b = rd.i32(), rd.blk()
            o, full = b"", False
            for x in c[1]:
                if len(o) + len(enc(x)) > n:
                    full = True
                    break
                o += enc(x)
            er = len(o)
            if not full and len(o) < n:
                o += b"\0"
            if r != er or b != o.ljust(420, b"#"):
                return "wcstombs gives %d and %r, expected %d and %r" % (r, b[:len(o) + 3], er, o)
            return None
        if k == 5:
            t = rd.blk()
            if not t:
                return "strerror(%d) is empty" % c[1]
            if (c[1] < 0 or c[1] > 76) != t.startswith(b"?"):
                return "strerror(%d) is %r" % (c[1], t)
            return None
        r = [rd.i32() for _ in range(3)]
        return None if r == [0, 0, 0] else "null-pointer state queries give %r" % r


FAMILIES = [Strings(), Chars()]
