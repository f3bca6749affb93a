"""Equivalent spellings of an object module's text."""
import re

TOK = re.compile(r'"(?:\\.|[^"\\])*"|;;[^\n]*\n|\(;.*?;\)|\s+|[()]|[^\s()"]+', re.S)
INT = re.compile(r"[-+]?(?:\d+|0x[0-9a-fA-F]+)$")
FLT = re.compile(r"([-+]?)0x([01])\.([0-9a-fA-F]+)p([-+])(\d+)$")
JUNK = ["x", "0", ")", "\"", ";", "; ", "(", "((", "$a", "(module", "end", "\\", "'", "i32.const 1", "\t", ";; c", "é", "*", "--", "((;(;;);)", "(;;)", "(; (;;;);;)", ";;"]


def comment(s):
    k = s.draw(4)
    if k < 2:
        s.tag("line-comment")
        return ";;" + "".join(s.choice(JUNK) for _ in range(s.draw(4))).replace("\n", " ") + "\n"
    s.tag("block-comment")
    return block(s, 2)


def block(s, depth):
    t = ""
    for _ in range(s.draw(5)):
        k = s.draw(7)
        if k == 0 and depth:
            s.tag("nested-comment")
            t += block(s, depth - 1)
        elif k == 1:
            t += "\n"
        else:
            t += s.choice([" ", "x", "12", "\"", ")", "()", ";", "(", "; ", "$f", "é", "\\", ";;", "))", "(("])
    # neighbouring characters must not form a bracket by accident
    r = "(;" + fence(t) + ";)"
    return r


def fence(t):
    out, d, i = "", 0, 0
    while i < len(t):
        two = t[i:i + 2]
        if two == "(;":
            d += 1
            out += two
            i += 2
        elif two == ";)":
            if d == 0:
                out += "; )"
            else:
                d -= 1
                out += two
            i += 2
        else:
            out += t[i]
            i += 1
    out += "".join(";)" if not out.endswith("(") else " ;)" for _ in range(d))
    if out.endswith("("):
        out += " "
    # an opening bracket that the closing one would complete: (;)
    return out


def space(s, need):
    k = s.draw(9)
    if k == 0 and not need:
        s.tag("no-space")
        return ""
    if k < 5:
        return "".join(s.choice([" ", " ", "\t", "\n", "\r\n"]) for _ in range(1 + s.draw(3)))
    t = ""
    for _ in range(1 + s.draw(2)):
        t += s.choice(["", " ", "\n"]) + comment(s) + s.choice(["", " "])
    return t


def num(s, w, prev):
    v = int(w, 0)
    if s.draw(3) == 0 and prev == "i64.const":
        s.tag("int-wrap")
        v = v + 2 ** 64 if v < 0 else v
    sg = "-" if v < 0 else s.choice(["", "", "+"])
    a = abs(v)
    k = s.draw(4)
    s.tag("int-%d" % k)
    return sg + [str(a), "0x%x" % a, "0x%X" % a, "0x" + "0" * (1 + s.draw(20)) + "%x" % a, "0X%x" % a][k]


def flt(s, m):
    s.tag("float")
    sg, l, d, es, e = m.groups()
    sg = sg or s.choice(["", "+"])
    d = s.choice([d, d.upper(), d.lower(), "".join(s.choice([c, c.upper()]) for c in d)])
    return "%s0x%s.%sp%s%s" % (sg, l, d, es, "0" * s.draw(4) + e)


NAMED = {9: "\\t", 10: "\\n", 13: "\\r", 34: '\\"', 39: "\\'", 92: "\\\\"}


def unstr(w):
    b = w[1:-1].encode("utf-8", "surrogateescape")
    out = bytearray()
    i = 0
    while i < len(b):
        if b[i] != 92:
            out.append(b[i])
            i += 1
            continue
        c = chr(b[i + 1])
        if c in "0123456789abcdefABCDEF":
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append({"t": 9, "n": 10, "r": 13, '"': 34, "'": 39, "\\": 92}[c])
            i += 2
    return bytes(out)


def string(s, w):
    b = unstr(w)
    out = '"'
    i = 0
    dense = s.choice([1, 2, 8])
    s.tag("string")
    while i < len(b):
        c = b[i]
        # a whole character in UTF-8
        n = 1 if c < 0x80 else 2 if 0xc2 <= c < 0xe0 else 3 if 0xe0 <= c < 0xf0 else 4 if 0xf0 <= c < 0xf5 else 0
        u = None
        if n:
            try:
                u = b[i:i + n].decode("utf-8") if len(b[i:i + n]) == n else None
            except UnicodeDecodeError:
                u = None
        k = s.draw(5) if s.draw(dense) == 0 else 9
        if u is not None and k == 0:
            s.tag("unicode-escape")
            out += "\\u{" + s.choice(["%x", "%X", "%06x"]) % ord(u) + "}"
            i += len(u.encode())
        elif u is not None and k == 1 and n > 1:
            s.tag("raw-utf8")
            out += u
            i += n
        elif k == 2 and c in NAMED:
            s.tag("named-escape")
            out += NAMED[c]
            i += 1
        elif k == 3 or not (32 <= c < 127) or c in (34, 92):
            out += "\\" + s.choice(["%02x", "%02X"]) % c
            i += 1
        else:
            out += chr(c)
            i += 1
    return out + '"'


def respell(s, text):
    """another spelling of the same module; text is a str (surrogateescape)"""
    toks = TOK.findall(text)
    dens = s.choice([1, 2, 6, 30])
    # ---- separators, then the tokens between them
    out = []
    prev = "("
    i = 0
    while i < len(toks):
        gap = False
        raw = ""
        while i < len(toks) and (toks[i][0].isspace() or toks[i].startswith(";;") or toks[i].startswith("(;")):
            raw += toks[i]
            gap = True
            i += 1
        t = toks[i] if i < len(toks) else ""
        need = gap and not (prev in "()" or t in "()" or not t)
        # the parser looks at the characters after a bracket
        if s.draw(dens) == 0 and not (prev == "(" and t[:1].isalpha()):
            sp = space(s, need)
            out.append(" " + sp if prev == "(" and sp.startswith(";") else sp)
        else:
            out.append(raw)
        if not t:
            break
        i += 1
        if s.draw(dens) == 0:
            m = FLT.match(t)
            if t[0] == '"':
                w = string(s, t)
            elif INT.match(t):
                w = num(s, t, prev)
            elif m:
                w = flt(s, m)
            else:
                w = t
        else:
            w = t
        out.append(w)
        prev = t
    return "".join(out)
