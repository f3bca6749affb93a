"""Token-level mutation of C programs."""
import re

TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|/\*.*?\*/|#[^\n]*|[A-Za-z_]\w*|(?:0[xX][0-9a-fA-F.]+(?:[pP][+-]?\d+)?|\d+\.?\d*(?:[eE][+-]?\d+)?)[uUlLfF]*'
                 r'|<<=|>>=|\.\.\.|[-+*/%&|^<>=!]=|&&|\|\||\+\+|--|->|<<|>>|.|\s', re.S)
KW = "int unsigned char short long float double bool void struct union enum if else while for do switch case default break continue return goto sizeof static const typedef".split()
OPS = "+ - * / % << >> < > <= >= == != & | ^ && || , = += -= *= /= ? : . -> ! ~ ++ --".split()
LITS = ["0", "1", "-1", "255", "4294967295U", "1.5", "2.5f", "'a'", '"s"', "9LL", "NULL", "0x80000000"]


def tokens(t):
    return TOK.findall(t)


def mutate(s, text, n):
    """n random edits of the tokens of text"""
    tk = tokens(text)
    ids = sorted({t for t in tk if re.match(r"[A-Za-z_]\w*$", t) and t not in KW})  or ["x"]
    for _ in range(n):
        live = [i for i, t in enumerate(tk) if t.strip() and not t.startswith(("#", "/*"))]
        if not live:
            break
        i = s.choice(live)
        t = tk[i]
        k = s.draw(9)
        s.tag("m%d" % k)
        if k == 0:
            tk[i] = ""
        elif k == 1:
            tk[i] = t + " " + t
        elif k == 2:
            j = s.choice(live)
            tk[i], tk[j] = tk[j], tk[i]
        elif k == 3:
            j = min(len(tk), i + 1 + s.draw(12))
            del tk[i:j]
        elif k == 4:
            a = s.choice(live)
            tk.insert(i, " " + "".join(tk[a:a + 1 + s.draw(10)]) + " ")
        elif t in OPS:
            tk[i] = " " + s.choice(OPS) + " "
        elif t in KW:
            tk[i] = s.choice(KW)
        elif re.match(r"[A-Za-z_]", t):
            tk[i] = s.choice(ids) if s.bool(3, 4) else s.choice(LITS)
        elif re.match(r"\d|'|\"", t):
            tk[i] = s.choice(LITS) if s.bool(3, 4) else s.choice(ids)
        else:
            tk[i] = s.choice(["(", ")", "[", "]", "{", "}", ";", ",", ""])
    return "".join(tk)
