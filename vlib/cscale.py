"""Programs in which one thing is very numerous, long, deep or large; the
generator knows what they print."""

BOUNDS = [1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 4095,
          4096, 4097, 8191, 8192, 8193, 16382, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131071, 131072, 262144, 524288,
          1000000, 1048575, 1048576, 1048577, 2097150, 2097151, 2097152, 2097153, 4194304, 5000000]


def count(s, cap, lo=1):
    c = [b for b in BOUNDS if lo <= b <= cap]
    n = s.choice(c) if s.bool(3, 4) else s.choice(c) + s.draw(40)
    return max(lo, min(cap, n))


def u32(x):
    return x & 0xffffffff


class P:
    def __init__(self, s, big):
        self.s = s
        self.big = big
        self.top, self.main, self.exp, self.opts = [], [], [], []
        self.k = 0

    def out(self, expr, v):
        self.main.append("  o((unsigned)(%s));" % expr)
        self.exp.append(u32(v))

    def chunks(self, terms, name, per=150, tp="unsigned"):
        """functions that add up terms; text of the calls"""
        cs = []
        for i in range(0, len(terms), per):
            f = "%s_c%d" % (name, i)
            self.top.append("static unsigned %s(void) { unsigned s = 0u; %s return s; }" % (f, " ".join("s += (unsigned)(%s);" % t for t in terms[i:i + per])))
            cs.append(f + "()")
        while len(cs) > 1:
            nx = []
            for i in range(0, len(cs), per):
                f = "%s_d%d_%d" % (name, len(cs), i)
                self.top.append("static unsigned %s(void) { unsigned s = 0u; %s return s; }" % (f, " ".join("s += %s;" % t for t in cs[i:i + per])))
                nx.append(f + "()")
            cs = nx
        return cs[0]


def d_funs(p, s):
    n = count(s, 4200) if not p.big or s.draw(5) else 16380 + s.draw(60)
    vs, tot = [], 0
    ptr = s.bool()
    for i in range(n):
        a, b = s.draw(200), s.draw(70000)
        p.top.append("%sint fn%d(int x) { return x * %d + %d; }" % (s.choice(["static ", ""]), i, a, b))
        x = s.draw(1000)
        tot += a * x + b
        vs.append(("(*pk(&fn%d))(%d)" if ptr else "fn%d(%d)") % (i, x))
    if ptr:
        p.top.append("typedef int (*pf_t)(int);\nstatic pf_t pk(pf_t f) { return f; }")
    p.out(p.chunks(vs, "funs"), tot)
    return n


def d_table(p, s):
    """a table of function pointers, called by index"""
    n = count(s, 2100)
    a = []
    p.top.append("typedef int (*tf_t)(int);\nstatic tf_t tft[%d];" % n)
    st = []
    for i in range(n):
        a.append(s.draw(9999))
        p.top.append("static int tb%d(int x) { return x ^ %d; }" % (i, a[-1]))
        st.append("tft[%d] = &tb%d;" % (i, i))
    for i in range(0, n, 200):
        p.top.append("static void ti%d(void) { %s }" % (i, " ".join(st[i:i + 200])))
        p.main.append("  ti%d();" % i)
    p.main.append("  for (i = 0, t = 0u; i < %d; ++i) t += (unsigned)(*tft[i])(i);" % n)
    p.out("t", sum(i ^ v for i, v in enumerate(a)))
    return n


def d_globals(p, s):
    n = count(s, 4200) if not p.big or s.draw(5) else 16380 + s.draw(60)
    ty = s.choice(["int", "int", "unsigned char", "long long", "short"])
    m = {"int": 2 ** 31 - 1, "unsigned char": 255, "long long": 2 ** 31 - 1, "short": 32767}[ty]
    tot = 0
    for i in range(n):
        v = s.draw(m)
        tot += v
        p.top.append("%s%s gl%d = %s;" % (s.choice(["static ", ""]), ty, i, "%dLL" % v if ty == "long long" else v))
    p.out(p.chunks(["gl%d" % i for i in range(n)], "globs"), tot)
    k = s.draw(n - 1)
    p.main.append("  gl%d = 1; t = (unsigned)gl%d;" % (k, k))
    p.out("t", 1)
    return n


def d_locals(p, s):
    n = count(s, 1100)
    ty = [s.choice(["int", "unsigned", "long long", "double", "float", "char"]) for _ in range(n)]
    v = [s.draw(100) for _ in range(n)]
    body = ["%s l%d = (%s)(k + %d);" % (t, i, t, x) for i, (t, x) in enumerate(zip(ty, v))]
    p.top.append("static unsigned locs(int k) { %s { unsigned s = 0u; %s return s; } return 0u; }" % (" ".join(body), " ".join("s += (unsigned)(int)l%d;" % i for i in range(n))))
    p.out("locs(3)", sum(v) + 3 * n)
    return n


def d_params(p, s):
    n = count(s, 520)
    ty = [s.choice(["int", "unsigned", "long long", "double", "float", "char", "short"]) for _ in range(n)]
    v = [s.draw(100) for _ in range(n)]
    lit = {"int": "%d", "unsigned": "%du", "long long": "%dLL", "double": "%d.0", "float": "%d.0f", "char": "(char)%d", "short": "(short)%d"}
    p.top.append("static unsigned pars(%s) { unsigned s = 0u; %s return s; }" % (", ".join("%s p%d" % (t, i) for i, t in enumerate(ty)), " ".join("s = s * 3u + (unsigned)(int)p%d;" % i for i in range(n))))
    x = 0
    for a in v:
        x = u32(x * 3 + a)
    args = ", ".join(lit[t] % a for t, a in zip(ty, v))
    if s.bool(1, 3):
        p.top.append("typedef unsigned (*pp_t)(%s);\nstatic pp_t pp;" % ", ".join(ty))
        p.main.append("  pp = &pars;")
        p.out("(*pp)(%s)" % args, x)
    else:
        p.out("pars(%s)" % args, x)
    return n


def d_variadic(p, s):
    n = count(s, 1100)
    ty = [s.choice(["int", "long long", "double"]) for _ in range(n)]
    v = [s.draw(100) for _ in range(n)]
    lit = {"int": "%d", "long long": "%dLL", "double": "%d.0"}
    p.top.append("static unsigned vars(int n, ...) { unsigned s = 0u; va_list ap; va_start(ap, n); %s va_end(ap); return s; }" % " ".join("s = s * 3u + (unsigned)(int)va_arg(ap, %s);" % t for t in ty))
    x = 0
    for a in v:
        x = u32(x * 3 + a)
    p.out("vars(%d, %s)" % (n, ", ".join(lit[t] % a for t, a in zip(ty, v))), x)
    return n


def d_switch(p, s):
    n = count(s, 2100)
    base = s.choice([0, 0, 1, -5, 100, -2 ** 31, 2 ** 31 - 1 - 8 * n, -n // 2])
    step = s.choice([1, 1, 1, 2, 7])
    lab = [base + i * step for i in range(n)]
    if s.bool(1, 3):
        lab = [x for x in lab if s.draw(9)] or [base]
    val = {x: s.draw(60000) for x in lab}
    order = list(lab)
    if s.bool(1, 3):
        for _ in range(len(order)):
            i, j = s.draw(len(order) - 1), s.draw(len(order) - 1)
            order[i], order[j] = order[j], order[i]
    d = s.draw(9)
    cl = ["case %s: r = %d; break;" % (x if x != -2 ** 31 else "(-2147483647 - 1)", val[x]) for x in order]
    cl.insert(s.draw(len(cl)), "default: r = %d; break;" % d)
    p.top.append("static int sw(int x) { int r = -1; switch (x) { %s } return r; }" % " ".join(cl))
    pr = [s.choice(lab) for _ in range(12)] + [s.choice(lab) + s.choice([-1, 1, step, -step]) for _ in range(8)] + [lab[0], lab[-1], lab[0] - 1, lab[-1] + 1, 0, 2 ** 31 - 1, -2 ** 31]
    for x in pr:
        x = (x + 2 ** 31) % 2 ** 32 - 2 ** 31
        p.out("sw(%s)" % (x if x != -2 ** 31 else "-2147483647 - 1"), val.get(x, d))
    return n


def d_nest(p, s):
    n = count(s, 130)
    k = s.draw(3)
    if k == 0:
        b = "r += 1;"
        for i in range(n):
            b = "if (x > %d) { %s } else r += %d;" % (n - 1 - i, b, n - i)
        p.top.append("static int ne(int x) { int r = 0; %s return r; }" % b)
        for x in (0, n // 2, n):
            p.out("ne(%d)" % x, 1 if x >= n else x + 1)
    elif k == 1:
        b = "r += 1;"
        for i in range(n):
            b = s.choice(["while (x-- > 0) { %s break; }", "do { %s } while (x < -100000);", "for (; x != 77777; ) { %s break; }", "{ int y%d = x; r += y%d - x; %%s }" % (i, i), "switch (x + 3) { default: %s }"]).replace("%%", "%") % b
        p.top.append("static int ne(int x) { int r = 0; %s return r; }" % b)
        p.out("ne(%d)" % (2 * n), 1)
    elif k == 2:
        e = "x"
        v = 5
        for i in range(n):
            c = s.draw(9)
            e, v = s.choice([("(%s + %d)" % (e, c), v + c), ("(%d + %s)" % (c, e), c + v), ("(%s ^ %d)" % (e, c), v ^ c), ("(%s * 1)" % e, v)])
        p.top.append("static int ne(int x) { return %s; }" % e)
        p.out("ne(5)", v)
    else:
        e, v = "x", 1
        for i in range(n):
            e = "id(%s + 1)" % e
        p.top.append("static int id(int x) { return x; }\nstatic int ne(int x) { return %s; }" % e)
        p.out("ne(5)", 5 + n)
    return n


def d_body(p, s):
    n = count(s, 9000)
    x, st = 1, []
    for i in range(n):
        c = s.draw(5000)
        x = u32(x * 3 + c)
        st.append("s = s * 3u + %du;" % c)
    if s.bool(1, 4):
        p.top.append("static unsigned bd(int k) { unsigned s = 1u; while (k > 0) {\n%s\nif (k) break; } return s; }" % "\n".join(st))
    else:
        p.top.append("static unsigned bd(int k) { unsigned s = 1u;\n%s\nreturn s; }" % "\n".join(st))
    p.out("bd(1)", x)
    return n


def text(s, n):
    a = "".join(chr(97 + s.draw(25)) for _ in range(min(n, 40)))
    return (a * (n // max(1, len(a)) + 1))[:n]


def d_strings(p, s):
    n = count(s, 2100)
    ln = count(s, max(2, 400000 // n))
    tot = 0
    vs = []
    for i in range(n):
        t = ("%d" % i + text(s, ln))[:max(ln, 1)] if s.bool() else text(s, ln)
        j = s.draw(len(t) - 1)
        vs.append('ck("%s", %d)' % (t, j))
        tot += len(t) * 256 + ord(t[j])
    p.top.append("static unsigned ck(const char *t, int j) { return (unsigned)strlen(t) * 256u + (unsigned)t[j]; }")
    p.out(p.chunks(vs, "strs"), tot)
    return n * ln


def d_bigstring(p, s):
    n = count(s, 2200000, 1000)
    t = text(s, n)
    if s.bool():
        w = s.choice([80, 1000, 60000])
        lit = "\n".join('"%s"' % t[i:i + w] for i in range(0, n, w))
    else:
        lit = '"%s"' % t
    j = s.draw(n - 1)
    p.top.append("static char *bs = %s;" % lit if s.bool() else "static char bs[] = %s;" % lit)
    p.out("strlen(&bs[0])", n)
    p.out("bs[%d]" % j, ord(t[j]))
    p.out("bs[%d]" % (n - 1), ord(t[-1]))
    p.out("bs[%d]" % n, 0)
    return n


def d_ptrs(p, s):
    n = count(s, 4200)
    p.top.append("static char *pt[%d] = { %s };" % (n, ", ".join('"%d"' % (i * 7) for i in range(n))))
    for i in [0, n - 1] + [s.draw(n - 1) for _ in range(6)]:
        p.out("atoi(pt[%d])" % i, i * 7)
    p.main.append("  for (i = 0, t = 0u; i < %d; ++i) t = t * 3u + (unsigned)atoi(pt[i]);" % n)
    x = 0
    for i in range(n):
        x = u32(x * 3 + i * 7)
    p.out("t", x)
    return n


def d_data(p, s):
    n = count(s, 34000)
    ty, m = s.choice([("int", 2 ** 31 - 1), ("char", 127), ("short", 32767), ("unsigned char", 255)])
    v = [s.draw(m) if s.draw(5) else 0 for _ in range(n)]
    p.top.append("static %s da[%d] = { %s };" % (ty, n, ",".join(map(str, v))))
    p.main.append("  for (i = 0, t = 0u; i < %d; ++i) t = t * 3u + (unsigned)da[i];" % n)
    x = 0
    for c in v:
        x = u32(x * 3 + c)
    p.out("t", x)
    return n


def d_bss(p, s):
    """large zeroed arrays side by side"""
    k = 1 + s.draw(3)
    tot = 0
    for i in range(k):
        n = count(s, 5000000)
        tot += n
        ty = s.choice(["char", "int", "double"])
        n = max(1, n // {"char": 1, "int": 4, "double": 8}[ty])
        p.top.append("static %s zz%d[%d]%s;" % (ty, i, n, s.choice(["", " = { 1 }"])))
        p.main.append("  zz%d[0] = 1; zz%d[%d] = %d;" % (i, i, n - 1, 10 + i))
        p.main.append("  for (i = 0, t = 0u; i < %d; ++i) t += (unsigned)zz%d[i];" % (n, i))
        p.out("t", 10 + i + (1 if n > 1 else 0))
    for i in range(k):
        p.out("zz%d[0]" % i, 1 if "zz%d[1]" % i not in "\n".join(p.top) else 10 + i)
    return tot


def d_fields(p, s):
    n = count(s, 1100)
    ty = [s.choice(["int", "char", "short", "double", "long long", "float"]) for _ in range(n)]
    sz = {"int": 4, "char": 1, "short": 2, "double": 8, "long long": 8, "float": 4}
    off, offs, al = 0, [], 1
    for t in ty:
        off = (off + sz[t] - 1) // sz[t] * sz[t]
        offs.append(off)
        off += sz[t]
        al = max(al, sz[t])
    size = (off + al - 1) // al * al
    p.top.append("struct big { %s };\nstatic struct big sb[2];" % " ".join("%s m%d;" % (t, i) for i, t in enumerate(ty)))
    p.out("sizeof(struct big)", size)
    for _ in range(4):
        i = s.draw(n - 1)
        p.out("offsetof(struct big, m%d)" % i, offs[i])
        p.main.append("  sb[1].m%d = 77;" % i)
        p.out("(int)sb[1].m%d" % i, 77)
    p.main.append("  sb[0] = sb[1];")
    p.out("(int)sb[0].m%d" % i, 77)
    return n


def d_names(p, s):
    n = count(s, 5000, 30)
    a, b = "n" + text(s, n), "n" + text(s, n) + "z"
    p.top.append("static int %s = 5;\nint %s(int %s) { return %s + %s; }\nstruct %ss { int %sm; };\nstatic struct %ss %sv;\nenum { %se = 9 };\n#define %sd 11" % (
        a, b, a + "x", a + "x", a, a, a, a, a, a, a))
    p.main.append("  %sv.%sm = 3;" % (a, a))
    p.out("%s(2) + %sv.%sm + %se + %sd" % (b, a, a, a, a), 5 + 2 + 3 + 9 + 11)
    return n


def d_enums(p, s):
    n = count(s, 3000)
    k = s.draw(n - 1)
    p.top.append("enum big { %s };" % ", ".join("e%d%s" % (i, " = 1000" if i == k else "") for i in range(n)))
    for i in [0, n - 1, k]:
        p.out("e%d" % i, i if i < k else 1000 + i - k)
    return n


def d_macros(p, s):
    n = count(s, 1100)
    p.top.append("#define mc0 7")
    for i in range(1, n):
        p.top.append("#define mc%d %d" % (i, i))
    m = count(s, 60)
    p.top.append("#define mf(%s) (%s)" % (", ".join("a%d" % i for i in range(m)), " + ".join("(a%d)" % i for i in range(m))))
    p.out("mc%d" % (n - 1), n - 1 if n > 1 else 7)
    p.out("mf(%s)" % ", ".join(str(i) for i in range(m)), sum(range(m)))
    return n


def d_frame(p, s):
    """large automatic arrays and deep recursion in a stack of given size"""
    st = s.choice([1 << 16, 131072, 1 << 18, 1 << 20, 1 << 22, 1 << 24])
    if st != 131072:
        p.opts += ["-s", str(st)]
    room = st - 6000
    if s.bool():
        n = min(room // 4, count(s, 4000000))
        p.top.append("static unsigned fr(int k) { int a[%d]; unsigned s = 0u; int i; for (i = 0; i < %d; ++i) a[i] = i * k; for (i = 0; i < %d; ++i) s = s * 3u + (unsigned)a[i]; return s; }" % (n, n, n))
        x = 0
        for i in range(n):
            x = (x * 3 + i * 5) & 0xffffffff
        p.out("fr(5)", x)
        p.out("fr(5)", x)
        return n
    d = s.choice([1, 4, 16])
    n = min(room // (4 * d + 16), count(s, 4200))
    p.top.append("static unsigned rc(int n) { int a[%d]; unsigned r; a[0] = n; a[%d] = n; if (n == 0) return 1u; r = rc(n - 1); return r * 3u + (unsigned)a[0] + (unsigned)a[%d]; }" % (d, d - 1, d - 1))
    x = 1
    for i in range(1, n + 1):
        x = u32(x * 3 + 2 * i)
    p.out("rc(%d)" % n, x)
    return n


DIMS = [d_funs, d_table, d_globals, d_locals, d_params, d_variadic, d_switch, d_nest, d_body, d_strings, d_bigstring, d_ptrs, d_data, d_bss, d_fields, d_names,
        d_enums, d_macros, d_frame]


def scale_case(s, big=True):
    """(source, options, expected output)"""
    p = P(s, big)
    ds = [s.choice(DIMS)]
    if s.bool(1, 4):
        ds.append(s.choice([x for x in DIMS if x is not ds[0]]))
        p.big = False
    for d in ds:
        s.tag(d.__name__[2:])
        n = d(p, s)
        s.tag("n-1e%d" % (len(str(n)) - 1))
    src = """#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <stdarg.h>
static void o(unsigned x) { printf("%%u\\n", x); }
%s
int main(void) {
  int i; unsigned t; i = 0; t = 0u; t += (unsigned)i;
%s
  return 0;
}
""" % ("\n".join(p.top), "\n".join(p.main))
    return src, p.opts, "".join("%d\n" % x for x in p.exp)
