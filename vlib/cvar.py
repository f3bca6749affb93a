"""Generator of programs with variadic functions."""
from . import cgen
from .cgen import (BOOL, CHAR, DOUBLE, Ex, FLOAT, G, INT, LLONG, LONG, SCHAR, SHORT, TW, UCHAR, UINT, ULLONG, ULONG, USHORT, lit)

SRC = {INT: [INT, INT, INT, CHAR, UCHAR, SHORT, USHORT, BOOL, SCHAR], UINT: [UINT], LONG: [LONG], ULONG: [ULONG], LLONG: [LLONG],
       ULLONG: [ULLONG], DOUBLE: [DOUBLE, DOUBLE, FLOAT]}
VT = [(6, INT), (2, UINT), (2, LONG), (2, ULONG), (5, LLONG), (3, ULLONG), (5, DOUBLE)]
PTRS = ["char*", "int*", "SV_@@*", "double*", "void*"]
MEM = {INT: "va_int", UINT: "va_uint", LONG: "va_long", ULONG: "va_ulong", LLONG: "va_llong", ULLONG: "va_ullong", DOUBLE: "va_double"}

TOP = """typedef struct SV { char a; int b; double c; long long d; } SV_@@;
enum EV_@@ { EVa_@@, EVb_@@ = 5, EVc_@@ = -7 };
SV_@@ sv_@@[2]; int iv_@@[3]; double dv_@@[2]; char cv_@@[8];
int ni_@@(int x) { return x * 3 + 1; }
double nd_@@(double x, int k) { return x * 2.0 + k; }
"""
TOP = TOP.replace("struct SV ", "struct SVt_@@ ")


class Fn:
    pass


class V:
    def __init__(self, s):
        self.s = s
        self.fns = []
        self.k = 0
        self.extra = []
        self.vars = [("gi_@@", INT), ("gc_@@", CHAR), ("guc_@@", UCHAR), ("gs_@@", SHORT), ("gf_@@", FLOAT), ("gl_@@", LLONG), ("gu_@@", UINT), ("gd_@@", DOUBLE), ("gb_@@", BOOL)]

    def key(self):
        self.k += 1
        return self.k

    # ---- argument lists
    def types(self, big=True):
        s = self.s
        n = s.weighted([(1, 0), (3, 1), (6, s.draw(8)), (2, s.draw(20))] + ([(1, 30 + s.draw(40))] if big else []))
        return [s.choice(PTRS) if s.bool(1, 7) else s.weighted(VT) for _ in range(n)]

    def arg(self, t, vs, call=None):
        """text of an argument of promoted type t; vs: variables in scope"""
        s = self.s
        if isinstance(t, str):
            s.tag("arg-ptr")
            return {"char*": lambda: s.choice(['"ab%d"' % s.draw(9), '"x" "yz"', "cv_@@", "&cv_@@[%d]" % s.draw(3)]),
                    "int*": lambda: s.choice(["iv_@@", "&iv_@@[%d]" % s.draw(2), "&iv_@@[gi_@@ & 1]"]),
                    "SV_@@*": lambda: s.choice(["sv_@@", "&sv_@@[1]", "&sv_@@[gc_@@ & 1]"]),
                    "double*": lambda: s.choice(["dv_@@", "&dv_@@[1]"]),
                    "void*": lambda: s.choice(["(void*)&cv_@@[1]", "(void*)&cv_@@[2]"])}[t]()
        if t is INT and s.bool(1, 12):
            return s.choice(["EVb_@@", "EVc_@@", "'a'", "gi_@@ > 2", "!gi_@@", "gb_@@"])
        p = s.choice(SRC[t])
        if p is not t:
            s.tag("promoted")
        g = G(s, side=False)
        g.vars = [(n, ty, False) for n, ty in vs]
        g.begin()
        e = g.ex(s.weighted([(3, 0), (3, 1), (1, 2)]))
        if s.bool(1, 4):
            x, pr = lit(s, p)
            e = Ex(x, p, pr)
        return g.coerce(p, e, 2) if e.t is p else "(%s)" % p.c + self.conv(g, p, e)

    def conv(self, g, p, e):
        if p.kind == "i" and p is not BOOL and e.t.kind == "f":
            return ("f2%s(%s)" % ("ll" if p.signed else "ull", e.x)) if p.size == 8 else "f2i(%s)" % e.x
        return g.par(e, 14)

    def args(self, ts, vs, emitting=None):
        out = [self.arg(t, vs) for t in ts]
        c = [i for i, t in enumerate(ts) if t in (INT, LLONG, DOUBLE)]
        if emitting and c:
            i = self.s.choice(c)
            out[i] = "(%s)%s" % (ts[i].c, emitting) if ts[i] is not DOUBLE else "(double)" + emitting
        return out

    def call(self, f, vs, depth=1):
        """text of a call of f (value of type f.ret, or a statement)"""
        s = self.s
        sel = s.draw(len(f.pats) - 1)
        ts = f.pats[sel]
        em = None
        if depth and s.bool(1, 3):
            c = [g for g in self.fns if g.ret not in (None, "SV") and g.ret.kind == "i"]
            if c:
                em = self.call(s.choice(c), vs, depth - 1)
                s.tag("nested")
        va = self.args(ts, vs, em)
        fx = []
        for nm, t in f.fixed:
            if nm == "n_":
                fx.append(str(len(ts)))
            elif nm == "sel_":
                fx.append(str(sel))
            elif nm == "d_":
                fx.append("d_ - 1" if ("d_", INT) in vs else str(s.draw(2)))
            elif nm == "sig_":
                fx.append('"%s"' % sig(ts))
            else:
                fx.append(self.arg2(t, vs))
        fn = f.name
        if s.bool(1, 5):
            fn = "(*p%s)" % f.name
            s.tag("indirect")
        s.tag("nargs-%s" % (len(ts) if len(ts) < 4 else "4-15" if len(ts) < 16 else "16+"))
        return "%s(%s)" % (fn, ", ".join(fx + va))

    def arg2(self, t, vs):
        g = G(self.s, side=False)
        g.vars = [(n, ty, False) for n, ty in vs]
        g.begin()
        e = g.ex(1)
        return g.coerce(t, e, 2)

    # ---- readers
    def use(self, t, x, ind, vs):
        """statements that use the argument expression x once"""
        s = self.s
        if isinstance(t, str):
            if t == "char*":
                return [ind + s.choice(["ei((long long)%s[1]);" % x, "ei((long long)*%s);" % x, "%s[1] = 'q';" % x if False else "ei((long long)%s[0]);" % x])]
            if t == "int*":
                return [ind + s.choice(["ei((long long)*%s);" % x, "*%s = %d;" % (x, s.draw(99)), "%s[0] += %d;" % (x, s.draw(9))])]
            if t == "SV_@@*":
                return [ind + s.choice(["ei((long long)%s->b);" % x, "%s->b = %d;" % (x, s.draw(50)), "ed(%s->c);" % x, "ei(%s->d);" % x, "%s->a = (char)%d;" % (x, s.draw(50))])]
            if t == "double*":
                return [ind + s.choice(["ed(*%s);" % x, "*%s *= 2.0;" % x])]
            return [ind + "ei((long long)*(char*)%s);" % x]
        em = G(s).emit
        k = s.draw(9)
        if k < 4:
            return [ind + em(Ex(x, t, 15))]
        if k == 4:
            n = "x%d_" % self.key()
            vs.append((n, t))
            return [ind + "%s %s = %s;" % (t.c, n, x), ind + em(Ex(n, t, 16))]
        if k == 5:
            return [ind + em(Ex("%s %s %s" % (x, s.choice("+-*"), lit(s, t)[0]), t, 12)) if t is not DOUBLE else ind + "ed(nd_@@(%s, 3));" % x]
        if k == 6 and t is INT:
            return [ind + "ei((long long)ni_@@(%s));" % x]
        if k == 7:
            return [ind + "la_[%d] = %s;" % (s.draw(3), "(int)%s" % x if t is not DOUBLE else "f2i(%s)" % x)]
        if k == 8:
            return [ind + "if (%s) eu(%d); else eu(%d);" % (x + (" > 3" if t is DOUBLE else ""), self.key(), self.key())]
        c = [g for g in self.fns if g.ret != "SV" and any(len(p) == 1 and p[0] is t for p in g.pats)]
        if c and k == 9:
            g = s.choice(c)
            sel = [i for i, p in enumerate(g.pats) if len(p) == 1 and p[0] is t][0]
            fx = []
            for nm, ft in g.fixed:
                fx.append({"n_": "1", "sel_": str(sel), "d_": "0", "sig_": '"%s"' % sig([t])}.get(nm) or lit(s, ft)[0])
            s.tag("pass-on")
            return [ind + "%s(%s);" % (g.name, ", ".join(fx + [x]))]
        return [ind + em(Ex(x, t, 15))]

    def reads(self, ts, ap, ind, vs, names, copies=1, sub=True):
        """statements reading ts from ap; may go on with a copy or hand the list over"""
        s = self.s
        out = []
        i = 0
        pend = None
        while i < len(ts):
            k = s.draw(11)
            if k == 0 and copies and len(ts) - i < 20 and "aq_" in names:
                nm = "aq_" if ap != "aq_" else "ar_"
                if nm in names:
                    s.tag("va_copy")
                    out.append(ind + "va_copy(%s, %s);" % (nm, ap))
                    pend = (nm, i)
                    copies -= 1
            if k == 1 and sub:
                # the rest is read by another function
                n = "vr%d_@@" % self.key()
                s.tag("hand-over")
                sv = []
                b = ["  int la_[4]; la_[0] = 0; la_[1] = 1; la_[2] = 2; la_[3] = 3;"] + self.reads(ts[i:], "l_", "  ", sv, (), 0, False)
                self.extra.append("void %s(int k_, va_list l_) {\n%s\n  eu((unsigned long long)(la_[0] + la_[1] + la_[2] + la_[3] + k_));\n}" % (n, "\n".join(b)))
                out.append(ind + "%s(%d, %s);" % (n, self.key(), ap))
                i = len(ts)
                break
            fs = [f for f in self.fns if f.ret != "SV"]
            if k == 2 and fs and sub:
                s.tag("call-between")
                f = s.choice(fs)
                out.append(ind + self.call(f, [v for v in vs if v[0] != "d_"], 1) + ";")
            t = ts[i]
            c = t if isinstance(t, str) else t.c
            out += self.use(t, "va_arg(%s, %s)" % (ap, c), ind, vs)
            i += 1
        if pend:
            nm, j = pend
            if s.bool():
                out.append(ind + "va_end(%s);" % ap)
            out += self.reads(ts[j:], nm, ind, vs, names, copies, sub)
            out.append(ind + "va_end(%s);" % nm)
        return out

    # ---- functions
    def fn(self):
        s = self.s
        f = Fn()
        f.name = "f%d_@@" % len(self.fns)
        f.ret = s.weighted([(2, None), (4, INT), (1, LLONG), (1, DOUBLE), (1, CHAR), (1, FLOAT), (1, "SV")])
        style = s.weighted([(4, "pats"), (2, "sig"), (1, "pos")])
        s.tag("style-" + style)
        if style == "sig":
            f.pats = [[t for t in self.types() if t not in PTRS] for _ in range(s.int(1, 3))]
        else:
            f.pats = [self.types(big=style == "pats") for _ in range(s.int(1, 3))]
        if s.bool(1, 3):
            f.pats.append([s.weighted(VT)])
        f.fixed = [("q%d_" % i, s.weighted(TW)) for i in range(s.draw(2))]
        rec = style == "pats" and f.ret != "SV" and s.bool(1, 4)
        for nm in ["n_", "sig_" if style == "sig" else "sel_"] + (["d_"] if rec else []):
            f.fixed.insert(s.draw(len(f.fixed)), (nm, INT))
        vs = list(self.vars) + [v for v in f.fixed if v[0][0] == "q"]
        last = f.fixed[-1][0]
        par = ", ".join(("const char *sig_" if nm == "sig_" else "%s %s" % (t.c, nm)) for nm, t in f.fixed)
        rc = {"SV": "SV_@@", None: "void"}.get(f.ret) or f.ret.c
        body = ["  int la_[4]; int *sp_; va_list ap_, aq_, ar_;", "  sp_ = spa_();"] + ["  la_[%d] = %d;" % (i, s.draw(9)) for i in range(4)]
        if f.ret == "SV":
            body.append("  SV_@@ rv_;")
            body.append("  rv_.a = 'r'; rv_.b = %d; rv_.c = %s; rv_.d = n_;" % (s.draw(99), lit(s, DOUBLE)[0]))
        for nm, t in f.fixed:
            if nm[0] == "q":
                body.append("  " + G(s).emit(Ex(nm, t, 16)))
        body.append("  eu((unsigned long long)VAC(n_));")
        alt = None
        if style == "sig":
            body += ["  va_start(ap_, %s);" % last, "  while (*sig_) {", "    switch (*sig_++) {"]
            for t in SRC:
                body.append("      case '%s':" % LET[t])
                body += self.use(t, "va_arg(ap_, %s)" % t.c, "        ", []) if s.bool() else ["        " + G(s).emit(Ex("va_arg(ap_, %s)" % t.c, t, 15))]
                body.append("        break;")
            body += ["    }", "  }", "  va_end(ap_);"]
            # a declaration must not follow a label: put such clauses into braces
            body = fixcase(body)
        elif style == "pos":
            # arguments by position (wcpl only); the reference reads them in order first
            w, r = [], []
            for k, p in enumerate(f.pats):
                w.append("  if (sel_ == %d) {" % k)
                r.append("  if (sel_ == %d) {" % k)
                r.append("    va_start(ap_, %s);" % last)
                for j, t in enumerate(p):
                    c = t if isinstance(t, str) else t.c
                    r.append("    %s y%d_ = va_arg(ap_, %s);" % (c, j, c))
                for _ in range(min(12, s.draw(2 * len(p)) if p else 0)):
                    j = s.draw(len(p) - 1)
                    t = p[j]
                    x = "...[%d]" % j if s.bool() else "...[la_[0] * 0 + %d]" % j
                    wx = "%s.%s" % (x, MEM[t]) if t in MEM else "((%s)%s.va_voidptr)" % (t, x)
                    st = self.use(t, "\0", "    ", [])
                    w += [q.replace("\0", wx) for q in st]
                    r += [q.replace("\0", "y%d_" % j) for q in st]
                w.append("  }")
                r.append("  }")
            alt = r
            body.append("\1")
        else:
            body.append("  va_start(ap_, %s);" % last)
            names = ["aq_", "ar_"]
            for k, p in enumerate(f.pats):
                body.append("  %sif (sel_ == %d) {" % ("else " if k and s.bool() else "", k))
                v2 = list(vs) + ([("d_", INT)] if rec else [])
                ps = p
                if rec and s.bool():
                    a = s.draw(len(p))
                    body += self.reads(p[:a], "ap_", "    ", v2, names, 0, False)
                    self_call = self.call(f, v2, 0) if f.pats else None
                    body.append("    if (d_ > 0) { %s; }" % self_call)
                    s.tag("recursion")
                    ps = p[a:]
                body += self.reads(ps, "ap_", "    ", v2, names)
                body.append("  }")
            body.append("  va_end(ap_);")
        body.append("  eu((unsigned long long)(la_[0] + la_[1] + la_[2] + la_[3]));")
        # calls give back all the stack they used
        body.append("  eu((unsigned long long)SPB(sp_));")
        if f.ret == "SV":
            body.append("  return rv_;")
        elif f.ret is not None:
            body.append("  return %s;" % self.arg2(f.ret, vs))
        head = "%s %s(%s, ...) {" % (rc, f.name, par)
        txt = head + "\n" + "\n".join(body) + "\n}"
        if alt is not None:
            txt = "#ifdef __WCPL__\n%s\n#else\n%s\n#endif" % (txt.replace("\1", "\n".join(w)), txt.replace("\1", "\n".join(r)))
        f.text = txt
        f.ptr = "%s (*p%s)(%s, ...);" % (rc, f.name, par)
        f.proto = "%s %s(%s, ...);" % (rc, f.name, par)
        return f


LET = {INT: "i", UINT: "u", LONG: "l", ULONG: "U", LLONG: "L", ULLONG: "M", DOUBLE: "d"}


def sig(ts):
    return "".join(LET[t] for t in ts)


def fixcase(body):
    out = []
    i = 0
    for l in body:
        out.append(l)
        if l.strip().startswith("case "):
            out.append("      {")
        elif l.strip() == "break;":
            out[-1:] = ["      }", l]
    return out


def var_case(s):
    v = V(s)
    top = [TOP] + ["%s %s = %s;" % (t.c, n, lit(s, t)[0]) for n, t in v.vars]
    protos, defs = [], []
    for _ in range(s.int(1, 3)):
        f = v.fn()
        v.fns.append(f)
        protos += [f.ptr, f.proto] if s.bool() else [f.ptr]
        defs += v.extra + [f.text]
        v.extra = []
    st = []
    body = []
    lv = [("i_", INT), ("l_", LLONG)]
    body.append("  int i_ = %d; long long l_ = %s; SV_@@ s_; int *sp_;" % (s.draw(5), lit(s, LLONG)[0]))
    body.append("  sp_ = spa_();")
    for f in v.fns:
        body.append("  pf%d_@@ = &%s;" % (v.fns.index(f), f.name))
    body.append("  sv_@@[0].b = 11; sv_@@[1].c = 2.5; iv_@@[1] = 12; dv_@@[0] = -1.5; cv_@@[0] = 'k'; cv_@@[1] = 'm'; cv_@@[2] = 'n';")
    for _ in range(s.int(2, 6)):
        f = s.choice(v.fns)
        vs = v.vars + lv
        x = v.call(f, vs)
        if f.ret == "SV":
            body.append("  s_ = %s; ei((long long)s_.a + s_.b + s_.d); ed(s_.c);" % x)
            s.tag("ret-struct")
        elif f.ret is None:
            k = s.draw(3)
            body.append("  %s%s;" % (["", "if (i_ != 99) ", "for (i_ = 0; i_ < 3; ++i_) ", ""][k], x))
        else:
            em = G(s).emit
            k = s.draw(6)
            if k < 3:
                body.append("  " + em(Ex(x, f.ret, 15)))
            elif k == 3:
                body.append("  %s;" % x)
            elif k == 4:
                body.append("  " + em(Ex("(i_ & 1 ? %s : %s)" % (x, v.call(f, vs)), f.ret, 16)))
            elif k == 5:
                body.append("  for (i_ = 0; i_ < %d; ++i_) %s" % (s.draw(4), em(Ex(x, f.ret, 15))))
            else:
                body.append("  if (%s > 3 && %s < 100) eu(3); else eu(4);" % (x, v.call(f, vs)))
    body += ["  ei((long long)iv_@@[%d]);" % i for i in range(3)] + ["  ei((long long)sv_@@[%d].b + sv_@@[%d].a);" % (i, i) for i in range(2)] + ["  ed(dv_@@[0]); ed(dv_@@[1]);", "  eu((unsigned long long)SPB(sp_));"]
    top += protos + defs + ["void run_@@(void) {\n%s\n}" % "\n".join(body)]
    return "\n".join(top) + "\n", "  run_@@();"


HEAD = """
#ifdef __WCPL__
#include <stdarg.h>
#define VAC(n) (va_count())
int *spa_(void) { int a[4]; a[0] = 0; return &a[0]; }
#define SPB(p) (p == spa_())
#else
#define spa_() ((int*)0)
#define SPB(p) 1
typedef __builtin_va_list va_list;
#define va_start __builtin_va_start
#define va_arg __builtin_va_arg
#define va_end __builtin_va_end
#define va_copy __builtin_va_copy
#define VAC(n) (n)
#endif
"""
