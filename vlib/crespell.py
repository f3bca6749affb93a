"""Rewrites C source text into other text that means the same: other spacing,
comments, line splices and literal spellings; macros for parts of expressions,
calls and statements; conditional blocks with anything in the skipped parts."""
import re
import struct

TOK = re.compile(r"""
 (?P<ws>[ \t\f\r\n]+|/\*.*?\*/|//[^\n]*)
|(?P<dir>\#[^\n]*)
|(?P<str>L?"(?:\\.|[^"\\\n])*")
|(?P<chr>L?'(?:\\.|[^'\\\n])*')
|(?P<num>(?:0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*(?:[pP][+-]?\d+)?|\.?\d(?:[eE][+-]|[\d.]|[eE])*)[uUlLfF]*)
|(?P<id>[A-Za-z_]\w*)
|(?P<op>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|[-+*/%&|^!~<>=?:;,.(){}\[\]])
|(?P<other>.)""", re.X | re.S)

KEYWORDS = set("HUGE_VAL NAN INFINITY if else while do for return switch case default break continue goto sizeof alignof offsetof countof generic static_assert asm alloca va_arg va_etc defined".split())
TYPEWORDS = set("void bool char short int long float double signed unsigned struct union enum const volatile size_t ssize_t ptrdiff_t wchar_t uint8_t intptr_t uintptr_t static extern register typedef va_list _v128 v128 restrict inline auto".split())


class Tk:
    __slots__ = ("k", "t")

    def __init__(s, k, t):
        s.k, s.t = k, t

    def __repr__(s):
        return "%s:%r" % (s.k, s.t)


def tokens(src):
    """significant tokens; a directive is one token"""
    out = []
    pos = 0
    n = len(src)
    while pos < n:
        m = TOK.match(src, pos)
        k = m.lastgroup
        if k == "other":
            raise ValueError("token %r" % src[pos:pos + 20])
        if k == "dir":
            # up to an unspliced line end
            e = pos
            while True:
                e = src.find("\n", e)
                if e < 0:
                    e = n
                    break
                if src[e - 1] == "\\":
                    e += 1
                    continue
                break
            out.append(Tk("dir", src[pos:e].replace("\\\n", " ")))
            pos = e
            continue
        if k != "ws":
            out.append(Tk(k, m.group()))
        pos = m.end()
    return out


def join_ok(a, b):
    """may the two tokens stand next to each other without space"""
    if a == "/" and b[0] in "/*":
        return False
    t = a + b
    m = TOK.match(t)
    return m.end() == len(a) and m.lastgroup != "ws" and m.lastgroup != "other" and not (a[-1].isalnum() or a[-1] == "_" or a[-1] == ".") | (False) or \
        (m.end() == len(a) and a[-1].isalnum() and not (b[0].isalnum() or b[0] in "_.\"'") and m.lastgroup != "ws")


# ---------------------------------------------------------------- spelling

ESC = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92, "'": 39, '"': 34, "?": 63}
REV = {v: k for k, v in ESC.items()}


def elems(body):
    """[(text, value or None)] of the inside of a string or character literal"""
    out = []
    i = 0
    while i < len(body):
        c = body[i]
        if c != "\\":
            out.append((c, ord(c) if ord(c) < 127 else None))
            i += 1
            continue
        d = body[i + 1]
        if d in ESC:
            out.append((body[i:i + 2], ESC[d]))
            i += 2
        elif d in "01234567":
            j = i + 1
            while j < len(body) and j < i + 4 and body[j] in "01234567":
                j += 1
            out.append((body[i:j], int(body[i + 1:j], 8)))
            i = j
        elif d == "x":
            j = i + 2
            while j < len(body) and body[j] in "0123456789abcdefABCDEF":
                j += 1
            out.append((body[i:j], int(body[i + 2:j], 16)))
            i = j
        elif d == "u":
            out.append((body[i:i + 6], None))
            i += 6
        else:
            raise ValueError(body[i:i + 4])
    return out


HEX = "0123456789abcdefABCDEF"


def spell_elem(s, v, wide, quote):
    """(text, kind of tail) for one character value"""
    c = chr(v)
    k = s.draw(6)
    if v in REV and k <= 2 and c != "'" or c in "\\" + quote:
        if k <= 2 or v < 0:
            return "\\" + REV[v], None
    if 32 <= v < 127 and k <= 3 and c not in "\\?" + quote:
        return c, None
    if k == 5 and 32 <= v < 127 and v not in (36, 64, 96):
        return "\\u%04x" % v if s.bool() else "\\u%04X" % v, "long"
    if k == 4 or v > 255:
        if s.bool() and v < 256:
            return "\\x%02X" % v, "hex"
        return ("\\x%x" if s.bool() else "\\x%02x") % v, "hex"
    if s.bool() and v < 256:
        return "\\%o" % v, "oct" if v < 64 else "long"
    return "\\%03o" % v, "long"


def respell_str(s, t, split=True):
    wide = t[0] == "L"
    es = elems(t[t.index('"') + 1:-1])
    out = []
    parts = 0
    tail = None
    for txt, v in es:
        if v is not None and v < 256 and not (wide and v > 127) and s.bool(1, 3):
            x, tl = spell_elem(s, v, wide, '"')
        else:
            x = txt
            tl = None
            if txt[0] == "\\" and txt[1] in "01234567" and len(txt) < 4:
                tl = "oct"
            elif txt[:2] == "\\x":
                tl = "hex"
        bad = tail == "hex" and x[0] in HEX or tail == "oct" and x[0] in "01234567" or (out and out[-1][-1:] == "?" and x[0] == "?")
        raw = out and out[-1] and ord(out[-1][0]) > 126 and ord(x[0]) > 126
        if bad or (split and not raw and s.bool(1, 12)):
            if not split:
                x, tl = ("\\%03o" % v, "long") if v is not None else (txt, None)
                if v is None:
                    return t
            else:
                out.append(None)
                parts += 1
        out.append(x)
        tail = tl
    pre = "L" if wide else ""
    res = [pre + '"']
    for x in out:
        if x is None:
            res.append('"' + s.choice([" ", "", "\n", "/**/"]) + pre + '"')
        else:
            res.append(x)
    return "".join(res) + '"'


def respell_chr(s, t):
    wide = t[0] == "L"
    es = elems(t[t.index("'") + 1:-1])
    if len(es) != 1 or es[0][1] is None or es[0][1] > 127:
        return t
    x, _ = spell_elem(s, es[0][1], wide, "'")
    return ("L'" if wide else "'") + x + "'"


INTRE = re.compile(r"^(0[xX][0-9a-fA-F]+|\d+)([uUlL]*)$")


def respell_num(s, t):
    m = INTRE.match(t)
    if m:
        b, suf = m.groups()
        v = int(b, 16) if b[:2] in ("0x", "0X") else int(b, 8) if len(b) > 1 and b[0] == "0" else int(b)
        l = suf.lower()
        ll = l.count("l")
        lim = {0: 31, 1: 31, 2: 63}[ll] + (1 if "u" in l else 0)
        if v >= 1 << lim:
            return t
        x = s.choice(["%d" % v, "0x%x" % v, "0X%X" % v, "0x%03x" % v, "0%o" % v if v else "0", "0%012o" % v, "0x%016x" % v])
        u = s.choice("uU") if "u" in l else ""
        L = s.choice(["l", "L"]) * ll
        return x + u + L
    return respell_flt(s, t)


def respell_flt(s, t):
    suf = ""
    b = t
    hexa = b[:2] in ("0x", "0X")
    if b[-1] in "fF" and not (hexa and "p" not in b.lower()):
        suf = s.choice("fF")
        b = b[:-1]
    if hexa:
        v = float.fromhex(b)
        if suf and v != struct.unpack("<f", struct.pack("<f", v))[0]:
            return t
        k = s.draw(2)
        if k == 0:
            x = b.upper()
        else:
            x = b
        return x + suf
    m = re.match(r"^(\d*)\.?(\d*)(?:[eE]([+-]?\d+))?$", b)
    if not m or (m.group(1) or "") + (m.group(2) or "") == "":
        return t
    ip, fp, ex = m.group(1), m.group(2), int(m.group(3) or 0)
    k = s.draw(5)
    if k == 0:
        x = "%s.%s%se%d" % (ip or "0", fp, "0" * s.draw(4), ex)
    elif k == 1:
        x = ".%s%sE%+d" % (ip, fp or "0", ex + len(ip))
    elif k == 2:
        x = "%s%se%d" % (ip, fp, ex - len(fp))
        if x[0] == "0" and False:
            return t
    elif k == 3:
        x = "%s%s.e%02d" % (ip, fp, ex - len(fp)) if ex - len(fp) >= 0 else "%s%s.E-%03d" % (ip, fp, len(fp) - ex)
    elif k == 4 and ex == 0:
        x = "%s.%s%s" % (ip or "0", fp or "0", "0" * s.draw(30))
    else:
        # the exact value of the nearest double in hexadecimal
        v = float(b)
        if suf:
            w = struct.unpack("<f", struct.pack("<f", v))[0]
            if w != v:
                return t
        if v == 0 or v in (float("inf"),) or v < 2.3e-308 or (suf and v < 1.2e-38):
            return t
        x = v.hex()
        x = x.replace(".0p", "p") if s.bool() else x
    return x + suf


WS = [" ", " ", " ", "\t", "  \t ", "\n", "\n\n", "\f", " /* c */ ", "/**/", "/* \" ' \\ // */", "// x\n", "// ' \" /* \n", "/* l\n l */", "/***/", "\v"]
WSD = [" ", " ", "\t", "  ", "/**/", " /* c */ ", "\f"]


def respell(s, src, lits=True, eol=True):
    """text with the same meaning"""
    out = []
    prev = None
    dens = s.choice([3, 10, 40])
    ts = tokens(src)
    for i, k in enumerate(ts):
        t = k.t
        if k.k == "dir":
            out.append("\n" if prev is not None else "")
            out.append(s.choice(["", "", "", " ", "\t", "/* d */"]) if s.bool(1, 3) else "")
            out.append(respell_dir(s, t, lits))
            out.append("\n")
            prev = None
            continue
        if lits and s.bool(1, 3):
            if k.k == "str":
                t = respell_str(s, t)
            elif k.k == "chr":
                t = respell_chr(s, t)
            elif k.k == "num":
                t = respell_num(s, t)
        if prev is not None:
            if s.bool(1, dens):
                w = "".join(s.choice(WS) for _ in range(1 + s.draw(2)))
                if prev == "/" and w[0] == "/":
                    w = " " + w
                out.append(w)
            elif join_ok(prev, t) and s.bool():
                pass
            else:
                out.append(" " if s.bool(3, 4) else "\n")
        out.append(t)
        prev = t
    txt = "".join(out) + s.choice(["\n", "", "\n\n", " ", "// end", "/* end */"])
    if s.bool():
        # splices anywhere
        n = s.draw(30)
        cut = sorted(set(s.draw(max(0, len(txt) - 2)) for _ in range(n)), reverse=True)
        for c in cut:
            # not in the middle of a raw multibyte character; a backslash in front would change
            if c and c < len(txt) and ord(txt[c]) < 128 and ord(txt[c - 1]) < 128:
                txt = txt[:c] + "\\\n" * s.choice([1, 1, 1, 2]) + txt[c:]
    if eol:
        e = s.draw(3)
        if e == 2:
            txt = txt.replace("\n", "\r\n")
    return txt


def respell_dir(s, t, lits):
    """a directive, on one logical line"""
    m = re.match(r"#\s*(\w+)(.*)$", t, re.S)
    if not m:
        return t
    name, rest = m.groups()
    h = "#" + s.choice(["", "", " ", "\t", "/* */"]) + name
    if name in ("include", "pragma", "error"):
        return h + rest
    if name in ("ifdef", "ifndef", "else", "endif", "undef", "if", "elif"):
        return h + (" " if rest else "") + s.choice(["", " ", "\t"]) + rest.strip() + s.choice(["", "", " ", " // c", " /* c */"])
    mm = re.match(r"\s*(\w+)(\(?)", rest)
    hd = mm.group(0)
    out = [h, " ", hd.strip()]
    prev = hd[-1]
    prev2 = ""
    for k in tokens(rest[mm.end():]):
        x = k.t
        if prev2 == "while" and x == "0":
            pass  # the 0 of while (0) is part of the documented form
        elif lits and s.bool(1, 3):
            if k.k == "str":
                x = respell_str(s, x, False)
            elif k.k == "chr":
                x = respell_chr(s, x)
            elif k.k == "num":
                x = respell_num(s, x)
        if not (prev == "(" and mm.group(2)) and not join_ok(prev, x) or s.bool(1, 3) or (prev == hd[-1] and not mm.group(2)):
            w = s.choice(WSD)
            out.append(" " + w if prev == "/" else w)
        out.append(x)
        prev2, prev = prev, x
    return "".join(out)


# ---------------------------------------------------------------- structure

def match_table(ts):
    """index of the bracket that matches each bracket"""
    m = {}
    st = []
    for i, k in enumerate(ts):
        if k.k == "op":
            if k.t in "([{":
                st.append(i)
            elif k.t in ")]}":
                j = st.pop()
                m[i] = j
                m[j] = i
    return m


def boundaries(ts):
    """indices before which a new top-level form begins"""
    out = [0]
    d = 0
    m = match_table(ts)
    cond = 0
    i = 0
    while i < len(ts):
        k = ts[i]
        if k.k == "dir":
            out.append(i + 1)
        elif k.k == "op":
            if k.t in "([":
                i = m[i]
            elif k.t == "{":
                fn = i > 0 and ts[i - 1].t == ")"
                i = m[i]
                if fn:
                    out.append(i + 1)
            elif k.t == ";":
                out.append(i + 1)
        i += 1
    return out


def cond_depths(ts):
    """whether the conditionals nest around each index"""
    d, out = 0, []
    for k in ts:
        if k.k == "dir" and re.match(r"#\s*(endif)", k.t):
            d -= 1
        out.append(d if not (k.k == "dir" and re.match(r"#\s*(else|elif)", k.t)) else 1)
        if k.k == "dir" and re.match(r"#\s*if", k.t):
            d += 1
    out.append(0)
    return out


def functions(ts):
    """[(start of the form, body '{' index, '}' index)]"""
    m = match_table(ts)
    bs = boundaries(ts)
    out = []
    for a, b in zip(bs, bs[1:] + [len(ts)]):
        i = a
        while i < b:
            if ts[i].k == "op" and ts[i].t in "([":
                i = m[i]
            elif ts[i].k == "op" and ts[i].t == "{":
                if ts[i - 1].t == ")":
                    out.append((a, i, m[i]))
                i = m[i]
            i += 1
    return out


# ---------------------------------------------------------------- macros

def is_type_paren(ts, i, m, types):
    """does the parenthesis at i open a type name"""
    k = ts[i + 1]
    return k.k == "id" and (k.t in TYPEWORDS or k.t in types)


def expr_parens(ts, lo, hi, m, types):
    """parentheses in [lo, hi) that enclose an expression used as a primary"""
    out = []
    for i in range(lo + 1, hi):
        if ts[i].k != "op" or ts[i].t != "(" or m[i] >= hi or m[i] == i + 1:
            continue
        p = ts[i - 1]
        if p.k == "id":
            if p.t not in ("return", "case", "else", "do"):
                continue
        elif p.k != "op" or p.t == "]":
            continue
        elif p.t == ")":
            j = m[i - 1]
            # a cast in front, not a call
            if not is_type_paren(ts, j, m, types) or (ts[j - 1].k == "id" and ts[j - 1].t in KEYWORDS - {"return", "case", "else", "do"}):
                continue
        if is_type_paren(ts, i, m, types):
            continue
        # a declarator: T *(*p)
        j = i - 1
        while ts[j].t in ("*", "const"):
            j -= 1
        if j < i - 1 and ts[j].k == "id" and (ts[j].t in types or ts[j].t in TYPEWORDS):
            continue
        # after a cast: (T)(...)
        out.append(i)
    return out


def inside(ts, i, lo, m, words):
    """is index i inside the parentheses of one of the words (sizeof and the like)"""
    for j in range(lo, i):
        if ts[j].k == "id" and ts[j].t in words and j + 1 < len(ts) and ts[j + 1].t == "(" and m[j + 1] > i:
            return True
    return False


NOARG = {"generic", "_Generic", "offsetof", "va_arg", "asm"}


class Macros:
    """rewrites a source with macros; n at most"""

    def __init__(self, s, src, types=()):
        self.s = s
        self.ts = tokens(src)
        self.k = 0
        self.types = set(types)
        for a, b in zip(self.ts, self.ts[1:]):
            pass
        for i, k in enumerate(self.ts):
            if k.k == "id" and k.t == "typedef":
                j = i
                d = 0
                while not (self.ts[j].t == ";" and d == 0):
                    if self.ts[j].t == "{":
                        d += 1
                    if self.ts[j].t == "}":
                        d -= 1
                    j += 1
                j -= 1
                while self.ts[j].k != "id":
                    if self.ts[j].t == "]":
                        while self.ts[j].t != "[":
                            j -= 1
                    j -= 1
                self.types.add(self.ts[j].t)
        self.idents = sorted({k.t for k in self.ts if k.k == "id"} - KEYWORDS - TYPEWORDS - {"NULL", "EOF"} - self.types - self.enums())

    def enums(self):
        """enumeration constants"""
        out = set()
        for i, k in enumerate(self.ts):
            if k.k == "id" and k.t == "enum":
                j = i + 1
                while self.ts[j].t not in ("{", ";", ")", ","):
                    j += 1
                while self.ts[j].t != "}" and self.ts[j - 1].t != ";" and "{" in (x.t for x in self.ts[i:j + 1]):
                    if self.ts[j].k == "id":
                        out.add(self.ts[j].t)
                    j += 1
        return out

    def name(self):
        self.k += 1
        return self.s.choice(["MZ%d", "mz%d", "_MZ_%d", "MZmacro%dx"]) % self.k

    def text(self):
        # directives on lines of their own
        out = []
        for k in self.ts:
            if k.k == "dir":
                out.append("\n" + k.t + "\n")
            else:
                out.append(k.t + " ")
        return "".join(out)

    def parnames(self, n, used):
        """parameter names: fresh, or names of the program that the body does not use"""
        s = self.s
        # (not those of other macros' bodies: see the finding nested-macro-capture)
        used = used | {w for k in self.ts if k.k == "dir" for w in re.findall(r"[A-Za-z_]\w*", k.t)}
        pool = [x for x in self.idents if x not in used]
        out = []
        while len(out) < n:
            p = s.choice(pool) if pool and s.bool(1, 3) else "zp%d" % len(out)
            if p in out or p in used:
                p = "zp%d" % len(out)
            out.append(p)
        return out

    def arg_candidates(self, lo, hi, m):
        """spans within (lo, hi) that can become an argument"""
        ts = self.ts
        out = []
        for i in range(lo, hi):
            k = ts[i]
            p = ts[i - 1]
            if inside(ts, i, lo, m, NOARG):
                continue
            if k.k in ("num", "chr"):
                out.append((i, i + 1))
            elif k.k == "str" and ts[i - 1].k != "str" and ts[i + 1].k != "str":
                out.append((i, i + 1))
            elif k.k == "id" and k.t not in KEYWORDS and k.t not in TYPEWORDS and k.t not in self.types:
                if p.t in (".", "->") or (p.k == "id" and p.t in ("struct", "union", "enum", "goto")) or ts[i + 1].t in ("(", ":"):
                    continue
                if p.k == "id" and (p.t in TYPEWORDS or p.t in self.types):
                    continue
                out.append((i, i + 1))
        for i in expr_parens(ts, lo - 1, hi, m, self.types):
            if not inside(ts, i, lo, m, NOARG):
                out.append((i, m[i] + 1))
        return out

    def toplevel_comma(self, a, b, m):
        i = a
        while i < b:
            if self.ts[i].t in ("(", "[", "{") and self.ts[i].k == "op":
                i = m[i]
            elif self.ts[i].k == "op" and self.ts[i].t == ",":
                return True
            i += 1
        return False

    def choose_args(self, lo, hi, m):
        """disjoint argument spans"""
        s = self.s
        c = self.arg_candidates(lo, hi, m)
        out = []
        for _ in range(s.draw(4)):
            if not c:
                break
            a = s.choice(c)
            if all(a[1] <= b[0] or b[1] <= a[0] for b in out):
                out.append(a)
        return sorted(out)

    def build(self, lo, hi, args, m, etc=None):
        """(parameter names, argument texts, body tokens)"""
        s, ts = self.s, self.ts
        texts, pars, bt = [], [], []
        used = set()
        i = lo
        ai = 0
        slots = []
        while i < hi:
            if ai < len(args) and i == args[ai][0]:
                a, b = args[ai]
                txt = " ".join(k.t for k in ts[a:b])
                if ts[a].t == "(" and not self.toplevel_comma(a + 1, b - 1, m) and s.bool(3, 4):
                    txt = " ".join(k.t for k in ts[a + 1:b - 1])
                j = None
                for n, (t0, _) in enumerate(texts):
                    if t0 == txt and s.bool():
                        j = n
                if j is None:
                    texts.append((txt, ts[a].t == "("))
                    j = len(texts) - 1
                slots.append((len(bt), j))
                bt.append(None)
                i = b
                ai += 1
                continue
            if ts[i].k == "id":
                used.add(ts[i].t)
            bt.append(ts[i])
            i += 1
        pars = self.parnames(len(texts), used)
        for p, j in slots:
            bt[p] = Tk("id", pars[j])
        return pars, [t for t, _ in texts], bt

    def define(self, at, name, pars, bt, wrap=("", ""), func=True):
        txt = " ".join(k.t for k in bt)
        d = "#define %s%s %s%s%s" % (name, "(%s)" % ", ".join(pars) if func else "", wrap[0], txt, wrap[1])
        self.ts.insert(at, Tk("dir", d))

    def step(self):
        s = self.s
        fs = [f for f in functions(self.ts)]
        if not fs:
            return
        f = s.choice(fs)
        m = match_table(self.ts)
        k = s.weighted([(5, "expr"), (3, "call"), (2, "const"), (1, "count"), (3, "stmt")])
        getattr(self, "do_" + k)(f, m)

    def do_expr(self, f, m):
        s, ts = self.s, self.ts
        ps = [i for i in expr_parens(ts, f[1], f[2], m, self.types) if not inside(ts, i, f[1], m, NOARG | {"sizeof", "alignof", "countof"})]
        ps = [i for i in ps if m[i] - i < 120]
        if not ps:
            return
        i = s.choice(ps)
        e = m[i] + 1
        args = self.choose_args(i + 1, e - 1, m)
        pars, texts, bt = self.build(i, e, args, m)
        n = self.name()
        func = bool(pars) or s.bool()
        s.tag("expr-%d" % len(pars))
        new = [Tk("id", n)] + ([Tk("op", "(")] + tokens(" , ".join(texts)) + [Tk("op", ")")] if func else [])
        self.ts[i:e] = new
        self.define(f[0], n, pars, bt, func=func)

    def do_const(self, f, m):
        s, ts = self.s, self.ts
        c = [i for i in range(f[1], f[2]) if (ts[i].k in ("num", "chr") or ts[i].k == "str" and ts[i - 1].k != "str" and ts[i + 1].k != "str") and not inside(ts, i, f[1], m, {"asm"})]
        if not c:
            return
        i = s.choice(c)
        n = self.name()
        s.tag("const")
        old = ts[i]
        self.ts[i] = Tk("id", n)
        self.define(f[0], n, [], [old], ("(", ")") if s.bool(1, 3) else ("", ""), func=False)

    def do_count(self, f, m):
        """a small literal as the number of a macro's overflow arguments"""
        s, ts = self.s, self.ts
        c = [i for i in range(f[1], f[2]) if ts[i].k == "num" and ts[i].t in list("012345") and not inside(ts, i, f[1], m, {"asm"})]
        if not c:
            return
        i = s.choice(c)
        n = self.name()
        s.tag("count")
        nf = s.draw(2)
        args = [s.choice(["0", "1.5", "'x'", '"s"', "(1, 2)", "ei(3)", "nope_", "-7"]) for _ in range(nf + int(ts[i].t))]
        self.ts[i:i + 1] = tokens("%s ( %s )" % (n, " , ".join(args)))
        self.ts.insert(f[0], Tk("dir", "#define %s(%s) (countof(...))" % (n, ", ".join(["p%d" % q for q in range(nf)] + ["..."]))))

    def do_call(self, f, m):
        s, ts = self.s, self.ts
        # macros take no __VA_ARGS__ of other macros
        mac = {x for k in ts if k.k == "dir" for x in re.findall(r"#\s*define\s+(\w+)\(", k.t)}
        c = [i for i in range(f[1], f[2]) if ts[i].k == "id" and ts[i + 1].t == "(" and ts[i].t not in KEYWORDS and ts[i].t not in TYPEWORDS
             and ts[i].t not in self.types and not ts[i].t.lower().lstrip("_").startswith(("mz", "va_")) and ts[i].t not in mac and ts[i - 1].t not in (".", "->") and not inside(ts, i, f[1], m, NOARG)
             and m[i + 1] - i < 120 and not (ts[i - 1].k == "id" and (ts[i - 1].t in TYPEWORDS or ts[i - 1].t in self.types)) and not (ts[i - 1].t == "*" and ts[i - 2].k == "id" and (ts[i - 2].t in TYPEWORDS or ts[i - 2].t in self.types))]
        if not c:
            return
        i = s.choice(c)
        e = m[i + 1]
        # arguments of the call
        sp, a, j = [], i + 2, i + 2
        while j <= e:
            if j == e or (ts[j].k == "op" and ts[j].t == ","):
                if j > a:
                    sp.append((a, j))
                a = j + 1
            elif ts[j].k == "op" and ts[j].t in "([{":
                j = m[j]
            j += 1
        nfix = s.draw(len(sp))
        n = self.name()
        s.tag("call-%d+%d" % (nfix, len(sp) - nfix))
        # some of the fixed ones stay in the body
        pars, body, texts = [], [], []
        names = self.parnames(nfix, {ts[i].t} | {k.t for k in ts[i:e] if k.k == "id"})
        pas = s.bool(1, 4)
        for q in range(nfix):
            a, b = sp[q]
            t = " ".join(k.t for k in ts[a:b])
            if s.bool(1, 5) and len(sp) > nfix:
                body.append(t)
            else:
                pars.append(names[q])
                texts.append(t)
                body.append(names[q])
        texts += [" ".join(k.t for k in ts[a:b]) for a, b in sp[nfix:]]
        body.append("..." if s.bool(1, 4) else "__VA_ARGS__")
        bd = "(%s(%s))" % (ts[i].t, ", ".join(body))
        if s.bool(1, 3):
            # chosen by the number of overflow arguments
            k = len(sp) - nfix
            s.tag("by-count")
            alts = ["case %d: %s;" % (q, s.choice(["(0)", "nope_", "%s()" % ts[i].t])) for q in range(k + 2) if q != k and s.bool(1, 3)]
            alts.insert(s.draw(len(alts)), "case %d: %s;" % (k, bd))
            if s.bool(1, 3):
                alts = [a for a in alts if "case %d:" % k not in a] + ["default: %s;" % bd]
            elif s.bool(1, 3):
                alts.append("default: nope_;")
            bd = "%s (countof(...)) { %s }" % (s.choice(["generic", "_Generic"]), " ".join(alts))
            if s.bool():
                bd = "(" + bd + ")"
        d = "#define %s(%s) %s" % (n, ", ".join(pars + ["..."]), bd)
        self.ts[i:e + 1] = [Tk("id", n), Tk("op", "(")] + tokens(" , ".join(texts)) + [Tk("op", ")")]
        self.ts.insert(f[0], Tk("dir", d))

    def blocks(self, f, m):
        """blocks that can become a macro"""
        ts = self.ts
        c = []
        for i in range(f[1] + 1, f[2]):
            if ts[i].t != "{" or m[i] - i > 200 or m[i] == i + 1:
                continue
            p = ts[i - 1]
            exits = self.exits(i, m)
            if not exits and not (p.t in (";", "{", "}", "else") or p.t == ")") or p.k not in ("op", "id"):
                continue
            if p.t == ")":
                j = m[i - 1]
                if ts[j - 1].t not in ("if", "while", "for"):
                    continue
            ids = {k.t for k in ts[i:m[i]] if k.k == "id"}
            if exits:
                ids -= {"break", "continue"}
            if ids & {"goto", "break", "continue", "asm", "case", "default", "struct", "union", "enum"} or any(k.k == "dir" for k in ts[i:m[i]]):
                continue
            # labels
            if any(ts[j].k == "id" and ts[j + 1].t == ":" and ts[j - 1].t in ("{", "}", ";") for j in range(i + 1, m[i])):
                continue
            # initializers
            if ts[i + 1].k in ("num", "chr", "str") or p.t in ("=", ","):
                continue
            if p.t in ("{", "}") and any(ts[j].k == "op" and ts[j].t in "{}" and ts[j - 1].t in ("=", ",") for j in range(max(f[1], i - 3), i)):
                continue
            # a block that ends in an expression or statement
            if ts[m[i] - 1].t not in (";", "}"):
                continue
            # not the body of a declaration's braces: only statements end in ;
            nx = ts[m[i] + 1]
            if not exits and (nx.t in (";", ",") or (nx.k == "id" and nx.t in ("while",))):
                continue
            c.append(i)
        return c

    def exits(self, i, m):
        """the body of do ... while (0) that begins with an exit (see add_exit)"""
        ts = self.ts
        return (ts[i - 1].t == "do" and ts[i + 1].t == "if" and ts[i + 2].t == "(" and ts[m[i + 2] + 1].t in ("break", "continue")
                and [k.t for k in ts[m[i] + 1:m[i] + 6]] == ["while", "(", "0", ")", ";"])

    def add_exit(self):
        """a block becomes do { if (x) break; ... } while (0);"""
        s, ts = self.s, self.ts
        fs = functions(ts)
        if not fs:
            return
        f = s.choice(fs)
        m = match_table(ts)
        c = [i for i in self.blocks(f, m) if ts[i - 1].t != "do"]
        if not c:
            return
        i = s.choice(c)
        cond = s.choice(["%d == %d", "(%d & 1) < %d", "%d || !%d"]) % (s.draw(9), s.draw(9))
        s.tag("exit")
        ts[m[i] + 1:m[i] + 1] = tokens("while ( 0 ) ;")
        ts[i + 1:i + 1] = tokens("if ( %s ) %s ;" % (cond, s.choice(["break", "break", "continue"])))
        ts.insert(i, Tk("id", "do"))

    def do_stmt(self, f, m):
        s, ts = self.s, self.ts
        c = self.blocks(f, m)
        if not c:
            return
        x = [i for i in c if self.exits(i, m)]
        i = s.choice(x if x and s.bool() else c)
        e = m[i] + 1
        lo, hi = (i - 1, e + 5) if self.exits(i, m) else (i, e)
        if hi != e:
            s.tag("stmt-exit")
        # declared names are not arguments
        args = [a for a in self.choose_args(i + 1, e - 1, m)]
        decl = set()
        for j in range(i + 1, e - 1):
            if ts[j].k == "id" and ts[j].t not in KEYWORDS and ts[j].t not in TYPEWORDS and ts[j].t not in self.types:
                q = ts[j - 1]
                if q.k == "id" and (q.t in TYPEWORDS or q.t in self.types) or q.t in ("*", ",", "(") :
                    # conservatively: anything that could be a declarator
                    if self.maybe_decl(j, i, ts):
                        decl.add(ts[j].t)
        args = [a for a in args if not ({k.t for k in ts[a[0]:a[1]] if k.k == "id"} & decl) and ts[a[0] - 1].t != "["]
        pars, texts, bt = self.build(i, e, args, m)
        if set(pars) & decl:
            return
        n = self.name()
        # an argument must not be captured by a name declared in the block
        s.tag("stmt-%d" % len(pars))
        func = bool(pars) or s.bool()
        new = [Tk("id", n)] + ([Tk("op", "(")] + tokens(" , ".join(texts)) + [Tk("op", ")")] if func else []) + [Tk("op", ";")]
        self.ts[lo:hi] = new
        self.define(f[0], n, pars, bt, ("do ", " while (0)"), func)

    def maybe_decl(self, j, lo, ts):
        k = j - 1
        while k > lo and ts[k].t not in (";", "{", "}") and not (ts[k].t == "(" and ts[k - 1].t == "for"):
            k -= 1
        w = ts[k + 1]
        return w.k == "id" and (w.t in TYPEWORDS or w.t in self.types)


def with_exits(s, src):
    """the program with some blocks as do ... while (0) that are left early"""
    g = Macros(s, src)
    for _ in range(1 + s.draw(2)):
        g.add_exit()
    return g.text()


def macroise(s, src, n):
    g = Macros(s, src)
    for _ in range(n):
        g.step()
    return g.text()


# ---------------------------------------------------------------- conditional blocks

JUNK = ["int x = ;", "}}}", "'", "\"", "'ab'", "#define A B", "#include <nope>", "#error stop", "#pragma x", "L'xyz'", "a ## b", "@ ` $ \\ x", "__asm__(\"x\")", "/* #endif */", "// #endif",
        "\"#endif\"", "# ", "#", "template <class T> x;", "/* a\n#else\n*/", "0x", "1.2.3", "'\\ y", "case 1:", "void f(", "\"/*\"", "don't", "struct { int a : 3; };", "x = \"\\u12345678\";", "#line 3",
        "#undef __WCPL__", "'\"'", "\"'\"", "/**/", "//", "\\ z", "   ", "é ü", "int main(void) { return 9; }", "#warning x", "u8\"x\" U'x'", "'/*'", "\"\\\"\""]
FALSE = ["if 0", "ifndef __WCPL__", "if !defined(__WCPL__)"]
TRUE = ["if 1", "ifdef __WCPL__", "if defined(__WCPL__)"]
ANY = ["if FOO > 3", "ifdef X", "ifndef __cplusplus", "if defined(A) && (B + 1)", "if 0", "if 1", "ifdef __WCPL__", "if x\\\n+ 1"]


def ind(s):
    return s.choice(["", "", "", " ", "\t", "  "])


def direct(s, t):
    return ind(s) + "#" + ind(s) + t + s.choice(["", "", "", " ", " /* c */", " // c"]) + "\n"


def junk(s, depth=2):
    out = []
    for _ in s.many(0, 5, 2):
        if depth and s.bool(1, 4):
            out.append(direct(s, s.choice(ANY)) + junk(s, depth - 1))
            if s.bool(1, 3):
                out.append(direct(s, "elif " + s.choice(["0", "1", "X", "defined(__WCPL__)"])) + junk(s, depth - 1))
            if s.bool():
                out.append(direct(s, "else") + junk(s, depth - 1))
            out.append(direct(s, "endif"))
        else:
            j = s.choice(JUNK)
            out.append(ind(s) + j + "\n")
            s.tag("junk")
    return "".join(out)


def wrap(s, txt, depth=2):
    """the form txt within conditional blocks that keep it"""
    k = s.draw(5)
    s.tag("wrap-%d" % k)
    if k == 0:
        r = direct(s, s.choice(TRUE)) + txt + "\n" + direct(s, "endif")
    elif k == 1:
        r = direct(s, s.choice(FALSE)) + junk(s) + direct(s, "else") + txt + "\n" + direct(s, "endif")
    elif k == 2:
        r = direct(s, s.choice(TRUE)) + txt + "\n" + direct(s, "else") + junk(s) + direct(s, "endif")
    elif k == 3:
        n = s.draw(2)
        r = direct(s, s.choice(FALSE)) + junk(s)
        for _ in range(n):
            r += direct(s, "el" + s.choice(["if 0", "if !defined(__WCPL__)"])) + junk(s)
        r += direct(s, "el" + s.choice(["if 1", "if defined(__WCPL__)"])) + txt + "\n"
        if s.bool():
            r += direct(s, "elif " + s.choice(["0", "1", "defined(__WCPL__)"])) + junk(s)
        if s.bool():
            r += direct(s, "else") + junk(s)
        r += direct(s, "endif")
    elif k == 4:
        r = direct(s, s.choice(TRUE)) + txt + "\n" + direct(s, "elif " + s.choice(["0", "1", "FOO"])) + junk(s) + direct(s, "else") + junk(s) + direct(s, "endif")
    else:
        r = direct(s, s.choice(FALSE)) + junk(s) + direct(s, "endif") + txt + "\n"
    if depth and s.bool(1, 4):
        r = wrap(s, r, depth - 1)
    return r


def conditionals(s, src, n):
    """conditional blocks around n top-level forms"""
    ts = tokens(src)
    bs = boundaries(ts)
    dp = cond_depths(ts)
    bs = sorted({b for b in bs if b <= len(ts)})
    spans = list(zip(bs, bs[1:] + [len(ts)]))
    pick = {s.draw(len(spans) - 1) for _ in range(n)}
    out = []
    for q, (a, b) in enumerate(spans):
        if a == b:
            continue
        txt = "\n".join(k.t for k in ts[a:b]) if any(k.k == "dir" for k in ts[a:b]) else " ".join(k.t for k in ts[a:b])
        if q in pick and not any(dp[a:b]) and not any(k.k == "dir" for k in ts[a:b]):
            txt = wrap(s, txt)
        out.append(txt if txt.endswith("\n") else txt + "\n")
    return "".join(out)
