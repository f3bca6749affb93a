"""Generator of programs with automatic objects and alloca blocks in nested, recursive and repeated activations."""

QHEAD = """
#ifdef __WCPL__
#include <stdlib.h>
#else
#define alloca __builtin_alloca
long long mb_[60];
#define malloc(n) ((void*)&mb_[0])
#define free(p) ((void)(p))
#endif
unsigned char *qa_[800]; size_t qn_[800]; int qt_[800]; struct { int n; int bad; int tag; int work; } qs_;
void qb_(int k, int i) { qs_.bad += 1; if (qs_.bad < 6) { eu((unsigned long long)(90000 + k)); ei((long long)i); } }
void qw_(unsigned char *p, size_t n, int t) { size_t i; for (i = 0; i < n; ++i) p[i] = (unsigned char)((int)i * 11 + t * 37 + ((int)i >> 5) + 1); }
void qk_(int e) { size_t i, n = qn_[e]; unsigned char *p = qa_[e]; int t = qt_[e]; for (i = 0; i < n; ++i) if (p[i] != (unsigned char)((int)i * 11 + t * 37 + ((int)i >> 5) + 1)) { qb_(1, t); return; } }
int qr_(void *v, size_t n, size_t al) {
  unsigned char *p = (unsigned char *)v; int i; size_t a = (size_t)p;
  qs_.tag += 1;
  if (a % al != 0) qb_(2, qs_.tag);
  if (p == NULL) qb_(3, qs_.tag);
  for (i = 0; i < qs_.n; ++i) { size_t b = (size_t)qa_[i]; if (n > 0 && qn_[i] > 0 && a < b + qn_[i] && b < a + n) qb_(4, qs_.tag); }
  if (qs_.n < 800) { qa_[qs_.n] = p; qn_[qs_.n] = n; qt_[qs_.n] = qs_.tag; qs_.n += 1; }
  qw_(p, n, qs_.tag);
  return qs_.tag;
}
int qx_(void *v, size_t n) { qr_(v, n, (size_t)16); return (int)n; }
void *qi_(void *v, size_t n) { qr_(v, n, (size_t)16); return v; }
void qv_(void) { int i; if (qs_.work > 4000) return; qs_.work += qs_.n; for (i = 0; i < qs_.n; ++i) qk_(i); }
void qp_(bool ok, int k) { if (!ok) qb_(5, k); }
void qu_(int c) { while (qs_.n > c) { qs_.n -= 1; qk_(qs_.n); } }
void qg_(int c, int k) { while (c < qs_.n) { qt_[c] += k; qw_(qa_[c], qn_[c], qt_[c]); c += 1; } }
"""

ELT = [("char", 1), ("short", 2), ("int", 4), ("long long", 8), ("double", 8), ("unsigned char", 1), ("float", 4), ("P_@@", 8), ("T_@@", 2)]

TOP = """typedef struct Pt_@@ { int a; double d; char c; } P_@@;
typedef struct Tt_@@ { short s; char c[3]; } T_@@;
typedef struct Nt_@@ { struct Nt_@@ *next; int v; } N_@@;
unsigned char gst_@@[40]; long long gsl_@@[5]; int gi_@@;
"""


def sp(call):
    """a statement with a call, after which the stack must be as it was"""
    return "{ sp_ = spa_(); %s qp_(SPB(sp_), 1); }" % call


class A:
    def leaf(self, i):
        """a small function without an object of its own in memory (but for results)"""
        s = self.s
        z = "zz_@@((unsigned char*)alloca(%s), %s)"

        def c(x="n"):
            return z % (s.choice(["20", "(%s & 31) + 20" % x, "sizeof(P_@@) * 2", "33", "(unsigned)(%s & 7) + 24u" % x]), x)
        k = s.draw(13)
        s.tag("leaf-%d" % k)
        b = [lambda: "return %s;" % c(),
             lambda: "if (%s > %d) return 1; return 2;" % (c(), s.draw(40)),
             lambda: "while (n > 0 && %s > 0) n -= %d; return n;" % (c(), s.draw(9) + 3),
             lambda: "for (i = %s & 3; i < 9; i += (%s & 3) + 1) k += i; return k;" % (c(), c("i")),
             lambda: "switch (%s & 3) { case 0: return 5; case 1: k = 3; break; default: k = 9; } return k;" % c(),
             lambda: "do { k += 1; n -= 5; } while (n > 0 && %s > 0); return k;" % c(),
             lambda: "return n & 1 ? %s : n;" % c(),
             lambda: "k = (i = n, %s) + i; return k;" % c(),
             lambda: "{ unsigned char *p = (unsigned char*)alloca(24); p[23] = (unsigned char)n; if (n > 5) return (int)p[23]; } return 3;",
             lambda: "if (n & 1) { for (;;) { k += %s; if (k > 20) return k; k += 9; } } return 4;" % c(),
             lambda: "return ei_@@(ei_@@(%s) + 1);" % c(),
             lambda: "k = %s; if (n > 9) goto out; k += 2; out:; return k;" % c(),
             lambda: "return !%s || %s > 9;" % (c(), c()),
             lambda: "eu((unsigned long long)%s); return 0 - n;" % c()][k]()
        if k == 11:
            b = "{ k = %s; if (n > 9) goto out; k += 2; out:; } return k;" % c()
        if s.bool(1, 5):
            s.tag("leaf-frame")
            b = "int a_[3]; a_[1] = n; " + b.replace("return ", "return a_[1] + ")
        return "int t%d_@@(int n) { int i = 0, k = 0; %s }" % (i, b)

    def leaf_s(self, i):
        s = self.s
        e = ["rs.a += n;"]
        for _ in range(s.draw(3)):
            e.append(s.choice(["if (n & %d) { rs.c = (char)n; return rs; }" % (1 << s.draw(3)),
                               "for (i = 0; i < %d; ++i) { rs.a += i; if (i == (n & 7)) return rs; }" % (s.draw(6) + 1),
                               "switch (n & 3) { case %d: return rs; case 3: rs.a = 7; break; default: rs.a += 5; }" % s.draw(2),
                               "while (n > 3) { n -= 2; if ((n & 15) == %d) return rs; rs.d += 0.5; }" % s.draw(15),
                               "p = (unsigned char*)alloca((n & 15) + 1); p[n & 15] = 5; rs.a += p[n & 15];"]))
        s.tag("leaf-struct")
        return "P_@@ u%d_@@(int n) { P_@@ rs; int i = 0; unsigned char *p; rs.a = %d; rs.c = 1; rs.d = n; %s return rs; }" % (i, s.draw(9), " ".join(e))

    def leaf_call(self, w):
        s = self.s
        x = s.choice(list(w))
        i = s.draw(self.nl - 1)
        if s.bool(1, 4):
            return "{ P_@@ ys_; sp_ = spa_(); ys_ = u%d_@@(%s); qp_(SPB(sp_), 3); ei((long long)ys_.a); ed(ys_.d); }" % (i, x)
        return "{ int yi_; sp_ = spa_(); yi_ = t%d_@@(%s & 63); qp_(SPB(sp_), 2); ei((long long)yi_); }" % (i, x)

    def __init__(self, s):
        self.s = s
        self.fns = []

    def size(self, w):
        """(expression, may be evaluated twice); w: names of variables in scope {name: type}"""
        s = self.s
        k = s.draw(11)
        x = s.choice(w)
        if k <= 2:
            s.tag("al-const")
            return str(s.choice([0, 1, 3, 7, 8, 15, 16, 17, 24, 31, 32, 33, 48, 63, 100, s.draw(300)]))
        s.tag("al-dyn" if k != 3 else "al-sizeof")
        if k == 3:
            return s.choice(["sizeof(P_@@)", "sizeof(N_@@)", "sizeof(T_@@)", "sizeof(int) * 5", "sizeof(T_@@) * 3", "16 * 3", "1 + 15"])
        if k == 4:
            return "sizeof(%s) * (size_t)(%s & %d)" % (s.choice(ELT)[0], x, s.choice([1, 3, 7, 15]))
        if k == 5:
            return "(%s & %d)" % (x, s.choice([1, 7, 15, 31, 63, 127]))
        if k == 6:
            return "(unsigned)(%s & 31) + %du" % (x, s.draw(20))
        if k == 7:
            return "(unsigned char)(%s * %d + %d)" % (x, s.draw(9), s.draw(99))
        if k == 8:
            return "(%s & 1 ? %d : %d)" % (x, s.draw(80), s.draw(80))
        if k == 9:
            return "(short)(%s & 15)" % x
        if k == 10:
            return "(size_t)(%s & 3) * %s" % (x, s.choice(["4", "sizeof(double)", "16"]))
        return "(gi_@@ & 15) + %d" % s.draw(30)

    def const_size(self):
        return str(self.s.choice([1, 5, 8, 12, 16, 20, 40, self.s.draw(90) + 1]))

    def loc(self, k):
        """a local object: (declaration, registration)"""
        s = self.s
        e, al = s.choice(ELT)
        n = s.weighted([(2, 1), (4, 1 + s.draw(6)), (1, 1 + s.draw(60))])
        m = s.draw(5)
        v = "a%d_" % k
        if m <= 2:
            s.tag("l-array")
            return "%s %s[%d];" % (e, v, n), "qr_((void*)&%s[0], sizeof(%s), (size_t)%d);" % (v, v, al)
        if m == 3:
            s.tag("l-struct")
            t = s.choice(["P_@@", "T_@@"])
            return "%s %s;" % (t, v), "qr_((void*)&%s, sizeof(%s), (size_t)%d);" % (v, t, 8 if t[0] == "P" else 2)
        if m == 4:
            s.tag("l-2d")
            return "%s %s[%d][%d];" % (e, v, 1 + s.draw(3), 1 + s.draw(3)), "qr_((void*)&%s[0][0], sizeof(%s), (size_t)%d);" % (v, v, al)
        s.tag("l-scalar")
        e, al = s.choice([x for x in ELT if x[0][0] not in "PT"])
        return "%s %s;" % (e, v), "qr_((void*)&%s, sizeof(%s), (size_t)%d);" % (v, v, al)

    def call(self, d="d_ - 1", w=("x_",)):
        s = self.s
        f = s.choice(self.fns)
        a = "%s * %d + %d" % (s.choice(list(w)), 1 + s.draw(4), s.draw(9))
        if f[1] == "v":
            s.tag("call-variadic")
            ar = [s.choice(["%d" % s.draw(99), "2.5", "%s" % s.choice(list(w)), "%dLL" % s.draw(9999)]) for _ in range(s.draw(5))]
            return "%s(%s)" % (f[0], ", ".join([d, a] + ar))
        if f[1] == "s":
            s.tag("call-struct")
            return "sc_@@(%s, %s)" % (d, a)
        if f[1] == "c":
            return "%s(%s, %s, (char)(%s & 63))" % (f[0], d, a, s.choice(list(w)))
        if s.bool(1, 4):
            s.tag("call-pointer")
            return "(*pf_@@[%s & 1])(%s, %s)" % (s.choice(list(w)), d, a)
        return "%s(%s, %s)" % (f[0], d, a)

    def ret(self, w, kind, base="b_"):
        """an early return"""
        s = self.s
        x = s.choice(w)
        if kind == "s":
            return "{ qu_(%s); return rs_; }" % base
        k = s.draw(5)
        if k == 0:
            return "{ qu_(%s); return %s + %d; }" % (base, x, s.draw(9))
        if k == 1:
            s.tag("ret-block")
            return "{ unsigned char *e_; int m_ = %d + (%s & 7); e_ = (unsigned char*)alloca(m_ + 1); e_[m_] = (unsigned char)%s; qu_(%s); return (int)e_[m_]; }" % (s.draw(40), x, x, base)
        if k == 2:
            s.tag("ret-alloca")
            return "{ qu_(%s); return zz_@@((unsigned char*)alloca(%s), %s); }" % (base, "(%s & 15) + 20" % x, x)
        if k == 3:
            s.tag("ret-call")
            return "{ qu_(%s); return d_ > 0 ? %s : %s; }" % (base, self.call(w=w), x)
        if k == 4:
            return "{ qv_(); qu_(%s); return ei_@@(%s); }" % (base, x)
        return "{ qu_(%s); return 0 - %s; }" % (base, x)

    def stmt(self, w, depth, kind, out):
        s = self.s
        ind = "  "
        k = s.draw(19)
        x = s.choice(w)
        if k <= 4:
            s.tag("alloca")
            e = self.size(w)
            m = s.draw(7)
            if m == 0:
                out.append("p_ = alloca(%s); qr_(p_, (size_t)(%s), (size_t)16);" % (e, e))
            elif m == 1:
                out.append("n_ = qx_(alloca(%s), (size_t)(%s)); ei((long long)n_);" % (e, e))
            elif m == 2:
                out.append("if ((p_ = alloca(%s)) != NULL) qr_(p_, (size_t)(%s), (size_t)16);" % (e, e))
            elif m == 3:
                out.append("p_ = (%s & 1) ? qi_(alloca(%s), (size_t)(%s)) : alloca(4);" % (x, e, e))
                s.tag("al-cond")
            elif m == 4:
                out.append("ip_ = alloca(%s); qr_((void*)ip_, (size_t)(%s), (size_t)16);" % (e, e))
            elif m == 5:
                e2 = self.size(w)
                out.append("two_@@(alloca(%s), (size_t)(%s), alloca(%s), (size_t)(%s));" % (e, e, e2, e2))
                s.tag("al-two")
            elif m == 6:
                out.append("n_ = (int)(%s); ip_ = (int*)alloca(sizeof(int) * (size_t)(n_ & 63)); qr_((void*)ip_, sizeof(int) * (size_t)(n_ & 63), (size_t)16);" % e)
            else:
                out.append("r_ += %s > 0 && qx_(alloca(%s), (size_t)(%s)) > 3;" % (x, e, e))
                s.tag("al-and")
        elif k <= 6:
            v = "i%d_" % depth
            b = []
            n = s.int(1, 4)
            s.tag("loop")
            for _ in range(s.int(1, 2)):
                self.simple([*w, v], kind, b)
            if s.bool(1, 3):
                b.append("if (%s == %d) %s;" % (v, s.draw(4), s.choice(["break", "continue"])))
                s.tag("loop-exit")
                self.simple([*w, v], kind, b)
            if s.bool(1, 6):
                b.append("if (((%s + %s) & 7) == %d) %s" % (v, x, s.draw(7), self.ret([*w, v], kind)))
                s.tag("ret-loop")
            m = s.draw(2)
            if m == 0:
                out.append("for (%s = 0; %s < %d; ++%s) {" % (v, v, n, v))
                out += [ind + y for y in b]
                out.append("}")
            elif m == 1:
                out.append("%s = 0; while (%s < %d) { %s += 1;" % (v, v, n, v))
                out += [ind + y for y in b]
                out.append("}")
            else:
                out.append("%s = 0; do { %s += 1;" % (v, v))
                out += [ind + y for y in b]
                out.append("} while (%s < %d);" % (v, n))
        elif k == 7:
            s.tag("list")
            out.append("{ N_@@ *h_ = NULL, *q_; int k_ = %d + (%s & 3); while (k_ > 0) { q_ = alloca(sizeof(N_@@)); q_->next = h_; q_->v = k_; h_ = q_; k_ -= 1; }" % (s.draw(5), x))
            if s.bool():
                out.append("  if (d_ > 0) r_ += %s;" % self.call(w=w))
            out.append("  while (h_ != NULL) { r_ = r_ * 3 + h_->v; h_ = h_->next; } ei((long long)r_); }")
        elif k == 8:
            s.tag("switch")
            out.append("switch (%s & 3) {" % x)
            for i in range(s.int(1, 3)):
                b = []
                self.simple(w, kind, b)
                if s.bool(1, 4):
                    b.append("if ((%s & 12) == %d) %s" % (x, s.choice([0, 4, 8, 12]), self.ret(w, kind)))
                    s.tag("ret-switch")
                out.append("  case %d: %s %s" % (i, " ".join(b), "break;"))
            b = []
            self.simple(w, kind, b)
            out.append("  default: %s" % " ".join(b))
            out.append("}")
        elif k == 9:
            out.append("if ((%s & 7) == %d) %s" % (x, s.draw(7), self.ret(w, kind)))
            s.tag("ret-if")
        elif k == 10:
            b, c = [], []
            self.simple(w, kind, b)
            self.simple(w, kind, c)
            out.append("if (%s & %d) { %s } else { %s }" % (x, 1 << s.draw(3), " ".join(b), " ".join(c)))
        elif k == 11:
            out.append("qg_(%s, %d);" % ("b_", 1 + s.draw(5)))
        elif k == 12 and self.fns:
            s.tag("call-while-live")
            out.append("if (d_ > 0) { %s %s qv_(); }" % (sp("r_ += %s;" % self.call(w=w)), sp("r_ += %s;" % self.call(w=w))))
        elif k == 13:
            d, r = self.loc(100 + s.draw(800) * 10 + depth)
            b = [d, r]
            self.simple(w, kind, b)
            s.tag("inner-local")
            # the block's object ends with the block
            out.append("{ int c_ = qs_.n; %s %s qv_(); %s }" % (d, r, "qu_(c_);"))
        else:
            self.simple(w, kind, out)

    def simple(self, w, kind, out):
        s = self.s
        k = s.draw(7)
        x = s.choice(w)
        if k == 7:
            out.append(self.leaf_call(w))
        elif k <= 2:
            e = self.size(w)
            out.append("n_ = qx_(alloca(%s), (size_t)(%s));" % (e, e))
            s.tag("alloca")
        elif k == 3:
            out.append("if (d_ > 0) " + sp("r_ += %s;" % self.call(w=w)))
        elif k == 4:
            out.append("qv_();")
        elif k == 5:
            out.append("ei((long long)(r_ + %s));" % x)
        else:
            out.append("p_ = alloca(%s); *(unsigned char*)p_ = (unsigned char)%s; r_ += *(unsigned char*)p_;" % (self.const_size(), x))

    def fn(self, i):
        s = self.s
        name, kind = self.fns[i]
        w = ["x_", "r_", "d_"]
        head = {"i": "int %s(int d_, int x_)", "c": "int %s(int d_, int x_, char y_)", "v": "int %s(int d_, int x_, ...)", "s": "P_@@ %s(int d_, int x_)"}[kind] % name
        out = ["%s {" % head, "  int b_ = qs_.n, r_ = x_, n_ = 0, i0_ = 0, i1_ = 0; void *p_ = NULL; int *ip_ = NULL, *sp_ = NULL;"]
        if kind == "c":
            w.append("y_")
        if kind == "s":
            out.append("  P_@@ rs_;")
        nl = s.weighted([(2, 0), (3, 1), (2, 2), (1, 4)])
        ls = [self.loc(j) for j in range(nl)]
        out += ["  " + d for d, _ in ls]
        if kind == "v":
            out.append("  va_list ap_;")
        if kind == "s":
            out.append("  rs_.a = x_; rs_.d = 0.5; rs_.c = (char)(d_ + 60);")
        out += ["  " + r for _, r in ls]
        if s.bool(1, 5):
            s.tag("param-address")
            z = "y_" if kind == "c" else "x_"
            out.append("  %s(&%s);" % ("pc_@@" if kind == "c" else "pi_@@", z))
        if kind == "v":
            out.append("  va_start(ap_, x_); va_end(ap_);")
        b = []
        for _ in range(s.int(2, 6)):
            self.stmt(w, 0, kind, b)
        out += ["  " + y for y in b]
        out.append("  qv_(); qu_(b_); ei((long long)r_);")
        out.append("  return rs_;" if kind == "s" else "  return r_ & 0xffff;")
        out.append("}")
        return out[0][:-2] + ";", "\n".join(out)


def auto_case(s):
    a = A(s)
    nf = s.int(1, 4)
    a.nl = s.int(1, 4)
    kinds = ["i"] + [s.weighted([(4, "i"), (2, "c"), (2, "v"), (2, "s")]) for _ in range(nf - 1)]
    seen_s = False
    for i, k in enumerate(kinds):
        if k == "s":
            if seen_s:
                k = "i"
            seen_s = True
        a.fns.append(("f%d_@@" % i, k))
    fi = [n for n, k in a.fns if k == "i"]
    fs = [n for n, k in a.fns if k == "s"]
    defs = [a.fn(i) for i in range(nf)]
    top = [TOP, "int (*pf_@@[2])(int, int);"]
    top += ["int zz_@@(unsigned char *p, int x) { p[19] = (unsigned char)x; p[0] = 1; return p[19] + p[0]; }",
            "int ei_@@(int x) { ei((long long)x); return x * 2; }",
            "void pc_@@(char *p) { *p = (char)((*p + 1) & 63); }", "void pi_@@(int *p) { *p = *p * 3 + 1; }",
            "void two_@@(void *p, size_t n, void *q, size_t m) { qr_(p, n, (size_t)16); qr_(q, m, (size_t)16); }"]
    top += [a.leaf(i) for i in range(a.nl)] + [a.leaf_s(i) for i in range(a.nl)]
    top += [p for p, _ in defs]
    if fs:
        top.append("int sc_@@(int d_, int x_) { P_@@ s_; int b_ = qs_.n; qr_((void*)&s_, sizeof(s_), (size_t)8); qu_(b_); s_ = %s(d_, x_); ed(s_.d); return s_.a * 2 + s_.c; }" % fs[0])
    top += [d for _, d in defs]
    ms = s.draw(400) + 16
    body = ["  int r_ = 0, b_ = 0; int i_; int *sp_ = spa_(); void *m_ = malloc(%d);" % ms]
    body.append("  qs_.n = 0; qs_.bad = 0; qs_.tag = 0; qs_.work = 0; gi_@@ = %d;" % s.draw(99))
    body.append("  pf_@@[0] = &%s; pf_@@[1] = &%s;" % (fi[0], fi[-1]))
    body.append("  qr_((void*)&gst_@@[0], sizeof(gst_@@), (size_t)1); qr_((void*)&gsl_@@[0], sizeof(gsl_@@), (size_t)8);")
    body.append("  qr_(m_, (size_t)%d, (size_t)8); b_ = qs_.n;" % ms)
    for _ in range(s.draw(4)):
        body.append("  for (i_ = %d; i_ < %d; ++i_) %s" % (s.draw(5), 5 + s.draw(20), a.leaf_call(["i_"])))
    for _ in range(s.int(1, 3)):
        d = s.weighted([(1, 0), (2, 1), (3, 2), (1, 3)])
        c = a.call(d=str(d), w=["i_"])
        n = s.int(1, 3)
        body.append("  for (i_ = 0; i_ < %d; ++i_) { r_ = %s; ei((long long)r_); if (qs_.n != b_) ei(7777LL); eu((unsigned long long)SPB(sp_)); }" % (n, c))
    body.append("  qv_(); eu((unsigned long long)qs_.bad); qu_(0); free(m_);")
    top.append("void run_@@(void) {\n%s\n}" % "\n".join(body))
    return "\n".join(top) + "\n", "  run_@@();"
