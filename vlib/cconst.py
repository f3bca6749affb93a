"""Constant expressions in every context that evaluates them: folded code,
static initialisers, array bounds, enumerators, case labels, macros, sizeof
operands - and the same tree evaluated at run time from variables."""
from .cgen import (BOOL, INT, DOUBLE, FLOAT, GENERIC, TW, G, Ex, common, gen_value, implicit_ok, lit, promote)


class FG(G):
    """constant trees that can be rendered twice: with literals, or with
    variables holding the same values"""

    def __init__(self, s):
        super().__init__(s, fold=True)
        self.lits = []

    def leaf(self, want=None):
        s = self.s
        if s.bool(1, 8) and want != "f":
            s.tag("sizeof")
            return Ex("(int)sizeof(%s)" % s.choice(["char", "short", "int", "long long", "double", "float", "int[3]", "char *"]), INT, 14)
        t = s.weighted([(w, t) for w, t in TW if want is None or (t.kind == "i") == (want == "i")])
        x, p = lit(s, t)
        self.lits.append((x, t))
        # a placeholder that cannot be mistaken for other text
        return Ex("\x01%d\x02" % (len(self.lits) - 1) if p >= 16 else "(\x01%d\x02)" % (len(self.lits) - 1), t, 16)

    # && and || are not evaluated statically, nor is a division by zero
    def x_logic(self, d, want):
        if self.static:
            return self.x_cmp(d, want)
        return super().x_logic(d, want)

    def x_fdiv(self, d, want):
        if not self.static:
            return super().x_fdiv(d, want)
        a = self.sub(d, "f")
        t = self.s.choice([DOUBLE, FLOAT, INT])
        v = gen_value(self.s, t)
        x, p = lit(self.s, t, v if v else 3 if t is INT else 3.0)
        self.lits.append((x, t))
        self.count("f/")
        return Ex("%s / (\x01%d\x02)" % (self.par(a, 13), len(self.lits) - 1), common(a.t, t), 13)

    def const(self, x):
        for i, (l, t) in enumerate(self.lits):
            x = x.replace("\x01%d\x02" % i, l)
        return x

    def vars_(self, x, pre):
        out = []
        for i, (l, t) in enumerate(self.lits):
            k = "\x01%d\x02" % i
            if k in x:
                out.append("  %s %s%d; %s%d = %s;" % (t.c, pre, i, pre, i, l))
                x = x.replace(k, "%s%d" % (pre, i))
        return out, x


def const_case(s, FG=FG):
    top, body = [], []
    for n in s.many(1, 4, 4):
        g = FG(s)
        k = s.weighted([(3, "fold"), (3, "init"), (2, "bound"), (2, "enum"), (2, "case"), (2, "macro"), (1, "arrinit"), (1, "cond")])
        g.static = k not in ("fold", "cond")
        # at run time narrow literals are variables, so a shift count or
        # divisor keeps the value it has as a literal
        e = g.ex(s.int(1, 5))
        cx = g.const(e.x)
        s.tag("ctx-" + k)
        fx = Ex(cx, e.t, e.p)
        ix = "(%s) != 0" % cx
        nm = "c%d_@@" % n
        # the run-time rendering always runs alongside
        dl, vx = g.vars_(e.x, "v%d_" % n)
        if k == "fold":
            body.append("  " + G(s).emit(fx))
            if e.t.rank >= 3 and s.bool():
                s.tag("generic")
                body.append("  ei(%s);" % (GENERIC % cx))
        elif k == "init":
            t = s.weighted(TW)
            if t.kind == "i" and e.t.kind == "f":
                t = e.t
            if e.t.kind == "i" and t.kind == "i" and implicit_ok(t, e.t) and s.bool():
                top.append("%s %s = %s;" % (t.c, nm, cx))
            elif t is e.t:
                top.append("%s %s = %s;" % (t.c, nm, cx))
            else:
                top.append("%s %s = (%s)(%s);" % (t.c, nm, t.c, cx))
            body.append("  " + G(s).emit(Ex(nm, t, 16)))
        elif k in ("bound", "enum", "case"):
            # the reference computes the same value at run time: signed
            # overflow (wrapping here) is not a constant for it
            v = "(int)(%s)" if e.t.kind == "i" else "(int)((%s) > 0.5)"
            cv = v % cx
            top.append("#ifdef __WCPL__")
            if k == "bound":
                if s.bool():
                    top.append("char %s[(%s & 63) + 1];" % (nm, cv))
                else:
                    top.append("typedef struct { short a; char b[(%s & 63) + 1]; } %s_t; %s_t %s;" % (cv, nm, nm, nm))
                st = top[-1].startswith("typedef")
                top.append("int %sr(void) { return (int)sizeof(%s); }" % (nm, nm))
                top.append("#else")
                top.append("int %sr(void) {\n%s\n  int r = (%s & 63) + 1; return %s; }" % (nm, "\n".join(dl), v % vx, "(2 + r + 1) / 2 * 2" if st else "r"))
                top.append("#endif")
                body.append("  ei(%sr());" % nm)
            elif k == "enum":
                top.append("enum { %sA = 3, %sB = %s, %sC };" % (nm, nm, cv, nm))
                top.append("int %sb(void) { return (int)%sB; }" % (nm, nm))
                top.append("#else")
                top.append("int %sb(void) {\n%s\n  return %s; }\nenum { %sA = 3 };" % (nm, "\n".join(dl), v % vx, nm))
                top.append("#endif")
                body.append("  ei(%sb()); ei((int)%sA);" % (nm, nm))
            else:
                o = s.choice(["%s", "%s ^ 1", "~(%s)", "0"]).replace("%s", cv)
                top.append("int %s(int x) { switch (x) { case %s: return 1; case (%s) ^ 0x55: return 2; default: return 0; } return 9; }" % (nm, cv, cv))
                top.append("#else")
                top.append("int %s(int x) {\n%s\n  int c = %s; if (x == c) return 1; if (x == (c ^ 0x55)) return 2; return 0; }" % (nm, "\n".join(dl), v % vx))
                top.append("#endif")
                body.append("  ei(%s(%s)); ei(%s((%s) ^ 0x55)); ei(%s(5)); ei(%s(%s));" % (nm, o, nm, cv, nm, nm, cv))
        elif k == "macro":
            top.append("#define M%s (%s)" % (nm, cx))
            body.append("  " + G(s).emit(Ex("M%s" % nm, e.t, 16)))
            top.append("%s %s = M%s;" % (e.t.c if e.t.rank >= 3 else e.t.c, nm, nm))
            body.append("  " + G(s).emit(Ex(nm, e.t, 16)))
        elif k == "arrinit":
            t = e.t
            top.append("%s %s[3] = { (%s)1, %s };" % (t.c, nm, t.c, cx))
            body.append("  " + G(s).emit(Ex(nm + "[1]", t, 15)))
            body.append("  " + G(s).emit(Ex(nm + "[2]", t, 15)))
        elif k == "cond":
            body.append("  if (%s) ei(1); else ei(2); ei((%s) ? 3 : 4); ei(!(%s));" % (ix, ix, cx))
            body.append("  { int i = 0; while (i < 2 && (%s)) ++i; ei(i); }" % ix)
        body.append("  {\n" + "\n".join(dl) + "\n  " + G(s).emit(Ex(vx, e.t, e.p)) + "\n  }")
    return "\n".join(top) + "\nvoid f_@@(void) {\n%s\n}\n" % "\n".join(body), "  f_@@();"


def assert_case(s):
    """(declarations, run-time text, constant text, type)"""
    g = FG(s)
    g.static = True
    e = g.ex(s.int(1, 4))
    dl, vx = g.vars_(e.x, "v")
    return "\n".join(dl), vx, g.const(e.x), e.t
