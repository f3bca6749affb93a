"""Generated functions made of statements: control flow, scoping, calls."""
from .cgen import (ARITH, BOOL, CHAR, INT, LLONG, UINT, UCHAR, SHORT, DOUBLE, TW, ITW, G, Ex, gen_value, lit, common, promote,
                   call_args)

SW_POOLS = [
    ("dense", lambda s: list(range(s.int(-3, 5), s.int(6, 12)))),
    ("gaps", lambda s: [s.int(-20, 0) + 2 * i + s.draw(1) for i in range(s.int(2, 9))]),
    ("sparse", lambda s: [s.choice([0, 1, -1, 100, 1000, -1000, 65536, 123456789, -123456789, 7, 42]) + s.draw(3)
                          for _ in range(s.int(1, 8))]),
    ("extreme", lambda s: [s.choice([-2147483648, -2147483647, 2147483647, 2147483646, 0, 1, -1, 5])
                           for _ in range(s.int(1, 5))]),
    ("char", lambda s: [ord(c) for c in "abcdzAZ09 +-"][:s.int(1, 12)]),
]


class SG:
    def __init__(self, s):
        self.s = s
        self.g = G(s, side=False)
        self.k = 0
        self.loops = 0
        self.vn = 0
        self.labels = []        # visible labels (name, kind)
        self.stack = []         # enclosing: 'loop' | 'switch'
        self.ret = INT
        self.size = 0

    def key(self):
        self.k += 1
        return self.k

    def fresh(self):
        # few names, so that inner scopes shadow outer ones
        self.vn += 1
        if self.s.bool(1, 3):
            return "v%d" % self.vn
        return self.s.choice(["x", "y", "z", "n", "i", "j"])

    def iv(self):
        """an int-valued expression without effects"""
        e = self.g.ex(self.s.draw(2), "i")
        return "(int)(%s)" % e.x

    def cond(self, d=2):
        s = self.s
        k = s.weighted([(4, "t"), (3, "e"), (2, "and"), (2, "or"), (1, "not"), (1, "?"), (1, ",")]) if d > 0 else "t"
        if k == "t":
            if s.bool(1, 3):
                return "tv_@@(%d, %s)" % (self.key(), self.iv())
            a = self.g.ex(s.draw(1))
            b = self.g.ex(s.draw(1))
            return "%s %s %s" % (self.g.par(a, 11), s.choice(["<", ">", "<=", ">=", "==", "!="]), self.g.par(b, 11))
        if k == "e":
            return self.g.ex(2).x if s.bool() else "(%s)" % self.g.ex(1).x
        a, b = self.cond(d - 1), self.cond(d - 1)
        s.tag("cond-" + k)
        if k == "and":
            return "(%s) && (%s)" % (a, b)
        if k == "or":
            return "(%s) || (%s)" % (a, b)
        if k == "not":
            return "!(%s)" % a
        if k == "?":
            return "(%s) ? (%s) : (%s)" % (self.cond(0), a, b)
        return "((%s), (%s))" % (a, b)

    def trace(self, ind):
        vs = self.g.vars
        r = "%seu(%d);" % (ind, self.key())
        if vs and self.s.bool():
            v = vs[-1 - self.s.draw(min(4, len(vs) - 1))]
            r += " " + self.g.emit(Ex(v[0], v[1], 16))
        return r

    def assign(self, ind):
        s, g = self.s, self.g
        lv = [v for v in g.vars if v[2]]
        if not lv:
            return self.trace(ind)
        v = lv[-1 - s.draw(len(lv) - 1)]
        k = s.draw(4)
        if k == 0 and v[1] is not BOOL:
            return "%s%s%s;" % ((ind, s.choice(["++", "--"]), v[0]) if s.bool() else (ind, v[0], s.choice(["++", "--"])))
        if k == 1 and self.helpers:
            n, rt, pts = s.choice(self.helpers)
            e = Ex("%s(%s)" % (n, ", ".join(g.coerce(t, g.ex(1), 2) for t in pts)), rt, 15)
            s.tag("call")
            return "%s%s = %s;" % (ind, v[0], g.coerce(v[1], e, 2, True))
        op = s.choice(["=", "=", "+=", "-=", "*=", "^=", "|="] if v[1].kind == "i" else ["=", "+=", "-="])
        if v[1] is BOOL:
            op = "="
        g.begin()
        e = g.asg_text(v[0], v[1], op, 2)
        return "%s%s;" % (ind, e.x[1:-1])

    def decl(self, ind, scope):
        s, g = self.s, self.g
        n = self.fresh()
        if n in scope:
            return self.assign(ind)
        t = s.weighted(TW)
        # the initialiser may not mention an outer variable of the same name
        keep = g.vars
        g.vars = [v for v in g.vars if v[0] != n]
        r = "%s%s %s = %s;" % (ind, t.c, n, g.coerce(t, g.ex(s.draw(2)), 2, True))
        if len(keep) != len(g.vars):
            s.tag("shadow")
        scope.append(n)
        g.vars = g.vars + [(n, t, True)]
        if s.bool(1, 4):
            p = "p_%s%d" % (n, self.key())
            r += " %s *%s = &%s;" % (t.c, p, n)
            g.vars = g.vars + [("(*" + p + ")", t, True)]
            s.tag("addr-taken")
        return r

    def block(self, d, ind, inner=None, lab=True):
        """statement list in braces; inner: lines to put first"""
        s, g = self.s, self.g
        keep = g.vars
        out = list(inner or [])
        scope = []
        label = None
        if lab and s.bool(1, 5):
            self.k += 1
            label = ("L%d_@@" % self.k, s.choice(["end", "start"]))
            s.tag("label-" + label[1])
            if label[1] == "start":
                out.insert(0, "%s%s:%s" % (ind, label[0], ";" ))
            self.labels.append(label)
        for _ in s.many(1, 5, 4):
            out += self.stmt(d, ind, scope)
        if label:
            self.labels.pop()
            if label[1] == "end":
                if len(out) == 0:
                    out.append(ind + ";")
                out.append("%s%s:;" % (ind, label[0]))
        g.vars = keep
        return out

    def body(self, d, ind):
        """a statement used as a loop or if body"""
        if self.s.bool(1, 3):
            x = self.simple(ind + "  ")
            return [x]
        return [ind + "{"] + self.block(d, ind + "  ") + [ind + "}"]

    def simple(self, ind):
        s = self.s
        k = s.weighted([(4, "assign"), (3, "trace"), (3, "jump"), (1, "empty")])
        if k == "assign":
            return self.assign(ind)
        if k == "trace":
            return ind + "{ " + self.trace("") + " }"
        if k == "empty":
            return ind + ";"
        return self.jump(ind)

    def jump(self, ind):
        s = self.s
        opts = []
        if self.stack:
            opts += ["break", "break"]
        if "loop" in self.stack:
            opts += ["continue", "continue"]
        if self.labels:
            opts += ["goto"] * 2
        opts.append("return")
        k = s.choice(opts)
        s.tag(k)
        if k == "goto":
            l = s.choice(self.labels)
            if l[1] == "start":
                return "%sif (fu_@@-- > 0) goto %s;" % (ind, l[0])
            return "%sgoto %s;" % (ind, l[0])
        if k == "return":
            return ind + self.retn()
        return ind + k + ";"

    def retn(self):
        if self.ret is None:
            return "return;"
        return "return %s;" % self.g.coerce(self.ret, self.g.ex(2), 2)

    def stmt(self, d, ind, scope):
        s, g = self.s, self.g
        self.size += 1
        forms = [(3, "trace"), (5, "assign"), (3, "decl")]
        if d > 0 and self.size < 40:
            forms += [(6, "if"), (3, "for"), (2, "while"), (2, "do"), (4, "switch"), (1, "block")]
        forms += [(1, "jumpif")]
        k = s.weighted(forms)
        ni = ind + "  "
        if k == "trace":
            return [self.trace(ind)]
        if k == "assign":
            return [self.assign(ind)]
        if k == "decl":
            return [self.decl(ind, scope)]
        s.tag(k)
        if k == "jumpif":
            return ["%sif (%s)" % (ind, self.cond()), self.jump(ni)]
        if k == "block":
            return [ind + "{"] + self.block(d - 1, ni) + [ind + "}"]
        if k == "if":
            c = self.cond()
            if s.bool():
                r = ["%sif (%s) {" % (ind, c)] + self.block(d - 1, ni) + [ind + "}"]
                if s.bool():
                    r[-1] += " else"
                    r += self.body(d - 1, ind)
                return r
            r = ["%sif (%s)" % (ind, c), self.simple(ni)]
            if s.bool():
                r.append(ind + "else")
                r += self.body(d - 1, ind)
            return r
        if k == "switch":
            return self.switch(d, ind)
        # loops
        self.stack.append("loop")
        try:
            lim = s.int(0, 5)
            if k == "for":
                n = "i%d" % self.key()
                keep = g.vars
                f = s.draw(5)
                if f <= 2:
                    t = s.choice([INT, UINT, CHAR, UCHAR, SHORT, LLONG])
                    hdr = "for (%s %s = %s; %s < %d; %s%s)" % (t.c, n, lit(s, t, s.draw(2))[0], n, lim, n, s.choice(["++", " += 1", " += 2"]))
                    g.vars = g.vars + [(n, t, False)]
                    pre = []
                elif f == 3:
                    pre = ["%sint %s;" % (ind, n)]
                    hdr = "for (%s = %d; %s >= 0; --%s)" % (n, lim, n, n)
                    g.vars = g.vars + [(n, INT, False)]
                elif f == 4:
                    pre = []
                    hdr = "for (int %s = 0, %sb = %d; %s < %sb; %s++, --%sb)" % (n, n, lim, n, n, n, n)
                    g.vars = g.vars + [(n, INT, False), (n + "b", INT, False)]
                else:
                    pre = []
                    s.tag("for-ever")
                    hdr = "for (;;)"
                    b = [ind + "{"] + self.block(d - 1, ni, ["%sif (fu_@@-- <= 0) break;" % ni], lab=False) + [ind + "}"]
                    return [ind + hdr] + b
                b = self.body(d - 1, ind)
                g.vars = keep
                if pre:
                    return [ind + "{"] + pre + [ind + hdr] + b + [ind + "}"]
                return [ind + hdr] + b
            if k == "while":
                if s.bool():
                    return ["%swhile (fu_@@-- > 0 && (%s))" % (ind, self.cond())] + self.body(d - 1, ind)
                n = "w%d" % self.key()
                keep = g.vars
                g.vars = g.vars + [(n, INT, False)]
                b = self.body(d - 1, ind)
                g.vars = keep
                return ["%s{ int %s = %d;" % (ind, n, lim), "%swhile (%s%s)" % (ind, n, s.choice(["-- > 0", "-- != 0" if lim >= 0 else "", "--"]))] + b + [ind + "}"]
            # do
            return [ind + "do {"] + self.block(d - 1, ni) + ["%s} while (fu_@@-- > 0 && (%s));" % (ind, self.cond())]
        finally:
            self.stack.pop()

    def switch(self, d, ind):
        s, g = self.s, self.g
        nm, f = s.choice(SW_POOLS)
        s.tag("switch-" + nm)
        vals = list(dict.fromkeys(max(-2147483648, min(2147483647, v)) for v in f(s)))
        # clause order is not value order
        if s.bool():
            vals = [vals[i] for i in sorted(range(len(vals)), key=lambda i: (s.draw(7), i))]
        tgt = s.choice(vals) if vals else 0
        k = s.draw(4)
        if k == 0:
            x = self.iv()
        elif k == 1:
            e = g.ex(1, "i")
            x = "(int)(%s) & %d" % (e.x, s.choice([1, 3, 7, 15]))
        elif k == 2:
            iv = [v for v in g.vars if v[1].kind == "i" and promote(v[1]) is INT and v[1] is not BOOL]
            x = s.choice(iv)[0] if iv else lit(s, INT, tgt)[0]
        elif k == 3:
            e = g.ex(1, "i")
            x = "(%s) + ((int)(%s) & 3)" % (lit(s, INT, tgt)[0], e.x)
            x = "(int)((%s) + (long long)((int)(%s) & 3))" % (lit(s, INT, tgt)[0], e.x)
        else:
            x = "tv_@@(%d, %s)" % (self.key(), lit(s, INT, tgt)[0])
        dpos = s.draw(len(vals) + 1)     # == len+1: no default
        out = ["%sswitch (%s) {" % (ind, x)]
        ni = ind + "  "
        self.stack.append("switch")
        ents = []
        for i, v in enumerate(vals):
            if i == dpos:
                ents.append(None)
            ents.append(v)
        if dpos == len(vals):
            ents.append(None)
        for v in ents:
            if v is None:
                out.append(ind + "default:")
                s.tag("default")
            elif 32 < v < 127 and s.bool(1, 3) and chr(v) not in "'\\":
                out.append("%scase '%s':" % (ind, chr(v)))
            else:
                out.append("%scase %s:" % (ind, lit(s, INT, v)[0]))
            if s.bool(1, 4):
                continue        # shares the next clause
            keep = g.vars
            if s.bool() or d <= 1:
                out.append(ni + "eu(%d);" % self.key())
                if s.bool():
                    out.append(self.assign(ni))
            else:
                out += [ni + "{"] + self.block(d - 1, ni + "  ") + [ni + "}"]
            g.vars = keep
            if s.draw(2) > 0:
                out.append(ni + "break;")
            else:
                s.tag("fallthrough")
        # the last clause needs a statement in C
        out.append(ni + ";")
        self.stack.pop()
        out.append(ind + "}")
        return out


TV = "int fu_@@; int tv_@@(int k, int v) { eu((unsigned long long)(1000 + k)); return v; }\n"


def flow_case(s):
    sg = SG(s)
    g = sg.g
    sg.helpers = []
    top = [TV]
    for k in range(s.draw(2)):
        rt = s.weighted(TW)
        hp = [s.weighted(TW) for _ in range(s.int(1, 3))]
        n = "h%d_@@" % k
        h = SG(s)
        h.helpers = []
        h.ret = rt
        h.k = 100 * (k + 1)
        h.g.vars = [("a%d" % i, t, True) for i, t in enumerate(hp)]
        b = h.block(1, "  ", lab=False)
        b.append("  " + h.retn())
        top.append("%s %s(%s) {\n%s\n}" % (rt.c, n, ", ".join("%s a%d" % (t.c, i) for i, t in enumerate(hp)), "\n".join(b)))
        sg.helpers.append((n, rt, hp))
    gv = []
    for k in range(s.draw(2)):
        t = s.weighted(TW)
        top.append("%s gv%d_@@ = %s;" % (t.c, k, lit(s, t)[0]))
        gv.append(("gv%d_@@" % k, t, True))
    rt = s.weighted(TW + [(3, None)])
    sg.ret = rt
    pts = [s.weighted(TW) for _ in range(s.int(1, 4))]
    g.vars = gv + [("p%d" % i, t, True) for i, t in enumerate(pts)]
    rec = s.bool(1, 5)
    inner = []
    if rec:
        s.tag("recursion")
        inner.append("  if (depth <= 0) { eu(77); %s }" % sg.retn())
    body = sg.block(s.int(1, 4), "  ", inner, lab=False)
    if rec:
        e = "f_@@(depth - 1, %s)" % ", ".join(g.coerce(t, g.ex(1), 2) for t in pts)
        body.append("  %s;" % e if rt is None or s.bool() else "  { %s r = %s; %s }" % (rt.c, e, g.emit(Ex("r", rt, 16))))
    if rt is not None:
        body.append("  " + sg.retn())
    params = (["int depth"] if rec else []) + ["%s p%d" % (t.c, i) for i, t in enumerate(pts)]
    top.append("%s f_@@(%s) {\n%s\n}" % (rt.c if rt else "void", ", ".join(params), "\n".join(body)))
    ind = s.bool(1, 4)
    if ind:
        s.tag("indirect")
        top.append("%s (*fp_@@)(%s);" % (rt.c if rt else "void", ", ".join(params)))
    calls = []
    for _ in range(s.int(1, 4)):
        a = call_args(s, pts)
        if rec:
            a = "%d, %s" % (s.draw(4), a)
        f = "f_@@"
        pre = "  fu_@@ = %d;" % s.int(0, 40)
        if ind:
            pre += " fp_@@ = &f_@@;"
            f = "(*fp_@@)"
        x = "%s(%s)" % (f, a)
        calls.append(pre + " " + (x + ";" if rt is None else g.emit(Ex(x, rt, 15))))
        for n, t, _w in gv:
            calls.append("  " + g.emit(Ex(n, t, 16)))
    return "\n".join(top) + "\n", "\n".join(calls)
