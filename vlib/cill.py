"""C programs written with little regard for types: most draw a diagnostic,
some are accepted."""
PRE = """#include <stddef.h>
#include <stdarg.h>
#include <stdbool.h>
struct S { char c; int i; double d; struct S *n; short a[3]; };
union U { int i; float f; char b[8]; struct S s; };
enum E { EA, EB = 7, EC };
typedef struct S T;
typedef int (*fi)(int, int);
typedef unsigned char uc;
char gc; unsigned char guc = 3; short gs; int gi = 5; unsigned gu; long gl; long long gll = 9; unsigned long long gull;
float gf = 1.5f; double gd; bool gb; enum E ge;
struct S gst; union U gun; int ga[5] = { 1, 2 }; char gca[7] = "abc"; double gda[2][3]; struct S gsa[2];
int *gip; char *gcp = "xyz"; struct S *gsp; void *gvp; double *gdp; int **gpp;
fi gfi; void (*gfv)(void); size_t gz; wchar_t gw; v128_t gv;
int f2(int a, int b) { return a + b; }
double fd(double x) { return x * 2.0; }
void fv(void) { }
void fp(char *p) { }
float ff(float x, char c) { return x; }
struct S fs(int i) { gst.i = i; return gst; }
struct S *fsp(struct S *p) { return p; }
long long fll(long long x, unsigned u) { return x; }
int fva(int n, ...) { va_list ap; int r; va_start(ap, n); r = va_arg(ap, int); va_end(ap); return r; }
v128_t fv128(v128_t x) { return x; }
bool fb(bool b) { return b; }
"""
GV = "gc guc gs gi gu gl gll gull gf gd gb ge gst gun ga gca gda gsa gip gcp gsp gvp gdp gpp gfi gfv gz gw gv".split()
LV = "p q r lc lu ls li ll lf ld lb lip lcp lst lun la lsa lv lfi".split()
FN = "f2 fd fv fp ff fs fsp fll fva fv128 fb tst main".split()
DECL = """  char lc = (char)1; unsigned lu = 2; short ls = (short)3; int li = 4; long long ll = 5LL; float lf = 1.0f; double ld = 2.0; bool lb = true;
  int *lip = NULL; char *lcp = NULL; struct S lst; union U lun; int la[4]; struct S lsa[2]; v128_t lv; fi lfi = &f2;
"""
TYPES = ["int", "unsigned", "char", "unsigned char", "short", "unsigned short", "long", "unsigned long", "long long", "unsigned long long", "float",
         "double", "bool", "void", "enum E", "struct S", "union U", "T", "int *", "char *", "struct S *", "void *", "double *", "int **", "fi",
         "uc", "size_t", "wchar_t", "v128_t", "va_list", "int (*)(int, int)", "void (*)(void)", "int[3]", "struct S[2]", "char (*)[7]", "struct Q *",
         "struct Q", "int (*)(void)", "double (*)(double)", "const char *", "struct { int x; }", "va_arg_t"]
LITS = ["0", "1", "2", "-1", "255", "65536", "2147483647", "2147483648U", "4294967295U", "4294967296LL", "0x7fffffffffffffffLL", "1ULL", "1L", "1UL",
        "1.0", "0.5f", "1e300", "1e30f", "'a'", "'\\0'", "L'a'", "L'\\u20ac'", '"abc"', 'L"abc"', '""', "NULL", "true", "false", "EA", "EB", "sizeof(int)", "0.0", "1e-3"]
BIN = "+ - * / % << >> < > <= >= == != & | ^ && || , = += -= *= /= %= <<= >>= &= |= ^=".split()
UN = ["-", "~", "!", "*", "&", "++", "--", "+"]
FLD = "c i d n a f b s x".split()


CLASS = {"n": "gc guc gs gi gu gl gll gull gf gd gb ge gz gw p q lc lu ls li ll lf ld lb".split(),
         "i": "gc guc gs gi gu gl gll gull gb gz gw p lc lu ls li ll lb EA".split() + ["1", "2", "3U", "4LL", "'a'"],
         "p": "gip gcp gsp gvp gdp gpp r lip lcp NULL".split() + ["&ga[1]", "&la[0]", '"abc"', "&gst", "&lst", "&gca[2]"],
         "s": "gst lst".split(), "l": "gc guc gs gi gu gl gll gull gf gd gb gz gw lc lu ls li ll lf ld lb gip gcp lip gst lst gun lun lv gv".split()}


def good(s, d, c="n"):
    """mostly well-typed expression"""
    if d <= 0 or s.bool(1, 4):
        return expr(s, d) if s.bool(1, 25) else s.choice(CLASS[c])
    g = lambda c="n": good(s, d - 1, c)
    if c == "p":
        return s.choice(["(%s + %s)" % (g("p"), g("i")), "(%s ? %s : %s)" % (g("i"), g("p"), g("p")), "((%s)%s)" % (s.choice(["char *", "int *", "void *", "struct S *", "fi"]), g("p")),
                         "(%s, %s)" % (g(s.choice("nips")), g("p")), "fsp(%s)" % g("p"), "((char *)%s)" % g("i"), "&%s.a[%s]" % (s.choice(["gst", "lst"]), g("i")), "(%s = %s)" % (s.choice(["gip", "gcp", "lip", "lcp", "gvp"]), g("p"))])
    if c == "s":
        return s.choice(["gsa[%s]" % g("i"), "*%s" % "gsp", "lsa[%s]" % g("i"), "fs((int)%s)" % g("n"), "(gst = %s)" % g("s"), "(*fsp(%s))" % g("p"), "gun.s", "gst", "(%s ? %s : %s)" % (g("i"), g("s"), g("s")), "(%s, %s)" % (g("n"), g("s"))])
    k = s.draw(15)
    if k <= 4:
        return "(%s %s %s)" % (g(c), s.choice(["+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%"] if c == "i" else ["+", "-", "*", "/"]), g(c))
    if k == 5:
        return "(%s %s %s)" % (g(), s.choice(["<", ">", "==", "!=", "<=", ">="]), g())
    if k == 6:
        return "(%s %s %s)" % (g(), s.choice(["&&", "||"]), g())
    if k == 7:
        return "(%s%s)" % (s.choice(["-", "~", "!", "+"] if c == "i" else ["-", "!", "+"]), g(c))
    if k == 8:
        t = s.choice(["int", "unsigned", "char", "short", "long long", "unsigned char", "bool", "enum E", "size_t"] if c == "i" else ["double", "float", "int"])
        return "((%s)%s)" % (t, g())
    if k == 9:
        return "(%s ? %s : %s)" % (g(), g(c), g(c))
    if k == 10:
        return s.choice(["f2((int)%s, (int)%s)", "(int)fll((long long)%s, (unsigned)%s)", "fva((int)%s, %s)"]) % (g(), g(s.choice("nip")))
    if k == 11:
        return "(%s %s %s)" % (s.choice(CLASS["l"]), s.choice(["=", "+=", "-=", "|=", "<<=", "*="]), g(c))
    if k == 12:
        return s.choice(["(%s++)", "(--%s)", "sizeof(%s)"]) % s.choice(CLASS["l"])
    if k == 13:
        return s.choice(["ga[%s]" % g("i"), "gst.i", "%s.a[%s]" % (g("s"), g("i")), "gsp->i", "%s.i" % g("s"), "(*%s)" % "gip", "gda[%s][%s]" % (g("i"), g("i")) if c != "i" else "gca[%s]" % g("i")])
    if k == 14:
        return "(%s %s %s)" % (g("p"), s.choice(["==", "!=", "<", "-", ">="]), g("p"))
    return "(%s, %s)" % (good(s, d - 1, s.choice("nips")), g(c))


def atom(s):
    k = s.draw(9)
    if k <= 3:
        return s.choice(GV)
    if k <= 6:
        return s.choice(LV)
    if k <= 8:
        return s.choice(LITS)
    return s.choice(FN)


def ty(s):
    return s.choice(TYPES)


def decl(s, n):
    """a declaration of n"""
    t = ty(s)
    if "(*)" in t:
        return t.replace("(*)", "(*%s)" % n)
    if t.endswith("]"):
        i = t.index("[")
        return t[:i] + " " + n + t[i:]
    return t + " " + n


def expr(s, d):
    if d <= 0:
        return atom(s)
    k = s.draw(23)
    s.tag("e%d" % k)
    e = lambda: expr(s, d - 1 - s.draw(1))
    if k <= 2:
        return atom(s)
    if k <= 8:
        return "(%s %s %s)" % (e(), s.choice(BIN), e())
    if k <= 10:
        return "(%s%s)" % (s.choice(UN), " " + e())
    if k == 11:
        return "(%s%s)" % (e(), s.choice(["++", "--"]))
    if k <= 13:
        return "((%s)%s)" % (ty(s), e())
    if k == 14:
        return "(%s ? %s : %s)" % (e(), e(), e())
    if k <= 16:
        return "%s(%s)" % (s.choice(FN), ", ".join(e() for _ in range(s.draw(3))))
    if k == 17:
        return "%s[%s]" % (e(), e())
    if k == 18:
        return "%s.%s" % (e(), s.choice(FLD))
    if k == 19:
        return "%s->%s" % (e(), s.choice(FLD))
    if k == 20:
        return s.choice(["sizeof(%s)", "alignof(%s)", "sizeof %s", "countof(%s)"]) % (ty(s) if s.bool() else e())
    if k == 21:
        return s.choice(["va_arg(ap, %s)" % ty(s), "offsetof(%s, %s)" % (ty(s), s.choice(FLD)),
                         "generic((%s), %s: %s, %s: %s, default: %s)" % (e(), ty(s), e(), ty(s), e(), e())])
    if k == 22:
        return "(*%s)(%s)" % (s.choice(["gfi", "lfi", "gfv", "&f2", "lip"]), ", ".join(e() for _ in range(s.draw(3))))
    return "(%s = %s)" % (s.choice(GV + LV), e())


def stmt(s, d, depth=0):
    k = s.draw(16)
    s.tag("s%d" % k)
    wild = s.bool(1, 4)
    e = lambda: expr(s, s.draw(d)) if wild else good(s, s.draw(d + 1), "n" if k > 6 else s.choice("nnips"))
    if k <= 3:
        return e() + ";"
    if k <= 6:
        return "%s = %s;" % (s.choice(GV + LV), e())
    if k == 7:
        return "%s = %s;" % (decl(s, "x%d" % depth), e())
    if k == 8:
        return "%s[%s];" % (decl(s, "x%d" % depth), e())
    if k == 9:
        return "return %s;" % e() if s.bool(3, 4) else "return;"
    if depth > 2:
        return ";"
    b = lambda: "{ " + " ".join(stmt(s, d, depth + 1) for _ in range(s.draw(2))) + " }"
    if k == 10:
        return "if (%s) %s%s" % (e(), b(), " else " + b() if s.bool() else "")
    if k == 11:
        return "while (%s) %s" % (e(), b())
    if k == 12:
        return "for (%s; %s; %s) %s" % (s.choice(["", "int k = 0", e()]), e() if s.bool() else "", e() if s.bool() else "", b())
    if k == 13:
        return "do %s while (%s);" % (b(), e())
    if k == 14:
        return "switch (%s) { %s%s }" % (e(), " ".join("case %s: %s%s" % (e(), b(), s.choice([" break;", ""])) for _ in range(s.draw(3))),
                                         s.choice(["", " default: ;", " default: break;"]))
    if k == 15:
        return s.choice(["break;", "continue;", "goto L;", "L: ;", "{ L: ; goto L; }", "{ goto L; L: ; }", "{ L%d: %s if (%s) goto L%d; }" % (depth, b(), e(), depth)])
    return "{ " + stmt(s, d, depth + 1) + " " + stmt(s, d, depth + 1) + " }"


def top(s, d):
    k = s.draw(14)
    s.tag("t%d" % k)
    wild = s.bool()
    e = lambda: expr(s, s.draw(d)) if wild else good(s, s.draw(d), s.choice("nnip"))
    if k <= 2:
        return "%s%s = %s;" % (s.choice(["", "static ", "const ", "extern "]), decl(s, "tv"), e())
    if k == 3:
        return "%s tv[%s] = %s;" % (ty(s), s.choice(["3", "", e()]), "{ " + ", ".join(e() for _ in range(s.draw(4))) + " }")
    if k == 4:
        return "%s = { %s };" % (decl(s, "tv"), ", ".join(s.choice([e(), "{ %s }" % e(), ".i = %s" % e(), "{ %s, %s }" % (e(), e())]) for _ in range(s.draw(5))))
    if k == 5:
        return "%s tf(%s) { return %s; }" % (ty(s), ", ".join(decl(s, "p%d" % i) for i in range(s.draw(4))), e())
    if k == 6:
        return "static_assert(%s);" % e()
    if k == 7:
        return "enum Q { QA = %s, QB };" % e()
    if k == 8:
        return "struct W { %s; %s[%s]; };" % (decl(s, "a"), decl(s, "b"), e()) + s.choice(["", " struct W gw1; struct W *gw2 = &gw1;", " struct W fw(void) { struct W w; return w; }"])
    if k == 9:
        return "typedef %s; TQ tq; TQ tqf(TQ x) { return x; }" % decl(s, "TQ")
    if k == 10:
        return "#define M(a, b) (%s)\nint tm(int a, int x) { M(%s, %s); return 0; }" % (s.choice(["a + b", "a", "a ? b : a", "(b)a", "a.i", "f2(a, b)", "sizeof(a)", "&a"]), e(), e())
    if k == 11:
        return "%s tf2(%s); %s tf2(%s) { %s }" % (ty(s), ty(s), ty(s), ty(s), s.choice(["", "return %s;" % e()]))
    if k == 12:
        return s.choice(["int gi;", "double gi;", "int f2(int a, int b) { return 0; }", "int f2(int a, int b);", "double f2(int a, int b);", "struct S { int q; };",
                         "enum E { EZ };", "typedef char T;", "static int f2(int, int);", "int main;", "void main(void) {}", "union S u2;", "int f9(int, int); int tt(void) { return f9(1, 2); }",
                         "int h9(void) { h10(); return 1; }", "struct S8 { struct S8 x; }; struct S8 s8;", "char big[2147483647]; char big2[2147483647];", "char bi3[70000];",
                         "int arr0[0];", "void vv;", "void va[3];", "int fn9(int a, int a) { return a; }", "union U8 { }; struct S9 { }; struct S9 s9; int q9(void) { return sizeof(s9) + sizeof(union U8); }"])
    if k == 13:
        return "%s tfl(%s) { %s; %s return %s; }" % (ty(s), decl(s, "p0"), decl(s, "tl"), stmt(s, d), s.choice(["tl", "p0", e()]))
    return (lambda t, u: "static %s ts(%s p0) { return p0; } int tu(void) { ts(%s); return 0; }" % (t, u, e()))(*(lambda t: (t, s.choice([t, ty(s)])))(ty(s)))


def ill_case(s):
    d = s.int(1, 3)
    tops, body, ret = "", "", "0"
    k = s.draw(3)
    if k <= 1:
        body = "\n  ".join(stmt(s, d) for _ in s.many(1, 3, 2))
    elif k == 2:
        tops = "\n".join(top(s, d) for _ in s.many(1, 2, 2))
    else:
        ret = expr(s, d) if s.bool() else good(s, d + 1, s.choice("nnips"))
        tops = s.choice(["", top(s, d)]) if s.bool() else ""
    rt = s.choice(["int", "int", ty(s)]) if k == 3 else "int"
    return PRE + tops + "\n%s tst(int p, double q, char *r, ...) {\n%s  va_list ap; va_start(ap, r);\n  %s\n  return %s;\n}\nint main(int argc, char **argv) { %s return 0; }\n" % (
        rt, DECL, body, ret, "tst(1, 2.0, NULL, 3);" if s.bool(7, 8) else "")
