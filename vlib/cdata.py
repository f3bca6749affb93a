"""Generated programs over nested aggregates: layout, initialisers, access
paths, pointers, whole-object copies, struct results."""
from .cgen import (ARITH, BOOL, INT, UINT, CHAR, UCHAR, SHORT, USHORT, LONG, LLONG, DOUBLE, FLOAT, TW, G, Ex, lit, gen_value, promote)


class Ag:
    """struct or union: fields [(name, type)]"""

    def __init__(self, kw, tag, fields, td):
        self.kw, self.tag, self.fields, self.td = kw, tag, fields, td

    @property
    def c(self):
        return self.td or "%s %s" % (self.kw, self.tag)


class Arr:
    def __init__(self, el, n):
        self.el, self.n = el, n


class Ptr:
    def __init__(self, to):
        self.to = to


def is_sc(t):
    return not isinstance(t, (Ag, Arr, Ptr))


def layout(t):
    """(size, align) under ILP32"""
    if isinstance(t, Ptr):
        return 4, 4
    if isinstance(t, Arr):
        s, a = layout(t.el)
        return s * t.n, a
    if isinstance(t, Ag):
        off, al = 0, 1
        for _, ft in t.fields:
            s, a = layout(ft)
            al = max(al, a)
            if t.kw == "union":
                off = max(off, s)
            else:
                off = (off + a - 1) // a * a + s
        return (off + al - 1) // al * al, al
    return t.size, t.size


def offsets(t):
    off, r = 0, []
    for n, ft in t.fields:
        s, a = layout(ft)
        if t.kw == "union":
            r.append((n, ft, 0))
        else:
            off = (off + a - 1) // a * a
            r.append((n, ft, off))
            off += s
    return r


def padless(t):
    """an initialiser determines every byte"""
    if isinstance(t, Arr):
        return padless(t.el)
    if isinstance(t, Ag):
        if t.kw == "union":
            return padless(t.fields[0][1]) and layout(t.fields[0][1])[0] == layout(t)[0]
        return all(padless(f) for _, f in t.fields) and sum(layout(f)[0] for _, f in t.fields) == layout(t)[0]
    return True


def has_ptr(t):
    if isinstance(t, Ptr):
        return True
    if isinstance(t, Arr):
        return has_ptr(t.el)
    if isinstance(t, Ag):
        return any(has_ptr(f) for _, f in t.fields)
    return False


def has_bool(t):
    if isinstance(t, Arr):
        return has_bool(t.el)
    if isinstance(t, Ag):
        return any(has_bool(f) for _, f in t.fields)
    return t is BOOL


def ptr_ranges(t, base=0):
    if isinstance(t, Ptr):
        return [(base, base + 4)]
    if isinstance(t, Arr):
        s = layout(t.el)[0]
        return [r for i in range(t.n) for r in ptr_ranges(t.el, base + i * s)] if has_ptr(t.el) else []
    if isinstance(t, Ag):
        return [r for _, f, o in offsets(t) for r in ptr_ranges(f, base + o)]
    return []


def decl(t, name):
    """declaration text of name with type t"""
    if isinstance(t, Arr):
        return decl(t.el, "%s[%d]" % (name, t.n))
    if isinstance(t, Ptr):
        if isinstance(t.to, Arr):
            return decl(t.to, "(*%s)" % name)
        return decl(t.to, "*" + name)
    return "%s %s" % (t.c, name)


def abstract(t):
    return decl(t, "").strip()


class D:
    def __init__(self, s):
        self.s = s
        self.g = G(s, side=False)
        self.ags = []
        self.top = []
        self.n = 0
        self.roots = []     # (text, type, kind)
        self.objs = []      # complete objects for dumps: (text, type)
        self.lines = []
        self.ptrs = []      # pointer variables: (name, Ptr, lo, hi) valid index range

    def nm(self, p):
        self.n += 1
        return "%s%d_@@" % (p, self.n)

    nobool = False      # a bool that overlaps other members may hold no valid value

    def scalar(self):
        t = self.s.weighted(TW)
        return UCHAR if t is BOOL and self.nobool else t

    def gtype(self, d, ptr=True):
        s = self.s
        k = s.weighted([(6, "sc"), (3, "arr"), (3, "ag"), (1, "ptr")])
        if k == "arr" and d > 0:
            return Arr(self.gtype(d - 1, ptr), s.int(1, 4))
        if k == "ag" and self.ags:
            a = s.choice(self.ags)
            if (ptr or not has_ptr(a)) and not (self.nobool and has_bool(a)):
                return a
        if k == "ptr" and ptr:
            s.tag("ptr-field")
            c = [x for x in self.ags if not has_ptr(x)]
            return Ptr(s.choice(c) if c and s.bool() else s.choice([INT, CHAR, UCHAR, SHORT, LLONG, DOUBLE]))
        return self.scalar()

    def aggregate(self):
        s = self.s
        kw = "union" if s.bool(1, 4) else "struct"
        s.tag(kw)
        self.nobool = kw == "union"
        fields = []
        for i in s.many(1, 6, 5):
            fields.append(("f%d" % i, self.gtype(2, kw == "struct")))
        self.nobool = False
        tag = self.nm("S")
        td = None
        body = " ".join(decl(t, n) + ";" for n, t in fields)
        k = s.draw(2)
        if k == 0:
            self.top.append("%s %s { %s };" % (kw, tag, body))
        elif k == 1:
            td = self.nm("T")
            self.top.append("typedef %s %s { %s } %s;" % (kw, tag, body, td))
        else:
            td = self.nm("T")
            self.top.append("typedef %s %s_t { %s } %s;" % (kw, tag, body, td))
        a = Ag(kw, tag, fields, td)
        if layout(a)[0] <= 2000:
            self.ags.append(a)
        return a

    # ---- constant initialisers
    def init(self, t, top=False):
        s = self.s
        if isinstance(t, Ptr):
            c = [n for n, ot, st in self.targets if ot is t.to or (isinstance(ot, Arr) and ot.el is t.to)]
            if c and s.bool(2, 3):
                n = s.choice(c)
                ot = [x[1] for x in self.targets if x[0] == n][0]
                if ot is t.to:
                    s.tag("addr-init")
                    return "&" + n
            return "NULL"
        if isinstance(t, Arr):
            if t.el in (CHAR, UCHAR) and s.bool() and t.n > 1:
                s.tag("str-init")
                return '"%s"' % "".join(s.choice(["a", "B", "0", " ", "\\n", '\\x41" "', "\\0", "\\101", "z"]) for _ in range(s.int(0, t.n - 1)))
            n = t.n
            if s.bool(1, 3):
                n = s.int(1, t.n)
                if n < t.n:
                    s.tag("partial-init")
            x = "{ " + ", ".join(self.init(t.el) for _ in range(n)) + (", }" if s.bool(1, 6) else " }")
            return x
        if isinstance(t, Ag):
            fs = t.fields[:1] if t.kw == "union" else t.fields
            return "{ " + ", ".join(self.init(f) for _, f in fs) + " }"
        v = gen_value(s, t)
        # implicit conversions in initialisers keep the value
        if t.kind == "i" and t.rank < 3 and t is not BOOL and s.bool():
            return lit(s, INT, v)[0]
        return lit(s, t, v)[0]

    # ---- access paths
    def index(self, n):
        s = self.s
        k = s.draw(4)
        if k <= 1 or n == 1 and s.bool():
            return str(s.draw(n - 1))
        if n & (n - 1) == 0 and k == 2:
            return "p%d & %d" % (s.draw(1), n - 1)
        if k == 3:
            return "(unsigned)p%d %% %du" % (s.draw(1), n)
        if k == 4 and n > 1:
            t = s.choice([CHAR, UCHAR, SHORT, USHORT])
            if n & (n - 1) == 0:
                return "(%s)(p%d & %d)" % (t.c, s.draw(1), n - 1)
        return "k%d %% %d" % (s.draw(1), n)     # k0, k1 are small non-negative ints

    def walk(self, x, t, stop=None):
        """extend the path text x of type t to a scalar, or to a type for which stop holds"""
        s = self.s
        while True:
            if stop and stop(t) and (not isinstance(t, (Arr, Ag)) or s.bool()):
                return x, t
            if is_sc(t):
                return (None, None) if stop else (x, t)
            if isinstance(t, Ptr):
                return (None, None)
            if isinstance(t, Arr):
                k = s.draw(5)
                i = self.index(t.n)
                if k == 5:
                    x = "(*(&%s[0] + (%s)))" % (x, i)
                    s.tag("ptr-plus")
                else:
                    x = "%s[%s]" % (x, i)
                t = t.el
            elif isinstance(t, Ag):
                n, ft = s.choice(t.fields)
                if x.startswith("(*") and x.endswith(")") and x.count("(") == x.count(")") == 1 and s.bool():
                    x = "%s->%s" % (x[2:-1], n)
                    s.tag("arrow")
                elif s.bool(1, 8):
                    x = "(&%s)->%s" % (x, n)
                    s.tag("arrow")
                else:
                    x = "%s.%s" % (x, n)
                t = ft

    def root(self):
        s = self.s
        if self.ptrs and s.bool(1, 2):
            n, pt, lo, hi = s.choice(self.ptrs)
            k = s.draw(3)
            i = s.int(lo, hi)
            s.tag("via-ptr")
            if k <= 1 and lo <= 0 <= hi:
                return "(*%s)" % n, pt.to
            if k == 2:
                s.tag("ptr-index")
                return "%s[%d]" % (n, i), pt.to
            s.tag("ptr-plus")
            return "(*(%s %s %d))" % (n, "-" if i < 0 else "+", abs(i)), pt.to
        return s.choice(self.roots)[:2]

    def leaf(self):
        for _ in range(8):
            x, t = self.root()
            x, t = self.walk(x, t)
            if x:
                return x, t
        return "k0", INT

    def bulk(self, want=None):
        for _ in range(6):
            x, t = self.root()
            x, t = self.walk(x, t, (lambda t: t is want) if want is not None else (lambda t: isinstance(t, Ag)))
            if x and (t is want or (want is None and isinstance(t, Ag))):
                return x, t
        return None, None

    def vars(self):
        v = [("p0", INT, True), ("p1", INT, True)]
        for _ in range(4):
            x, t = self.leaf()
            v.append((x, t, True))
        self.g.vars = v

    def stmt(self, ind="  "):
        s, g = self.s, self.g
        k = s.weighted([(8, "set"), (3, "op"), (3, "emit"), (3, "copy"), (2, "ret"), (2, "size"), (2, "ptr"), (1, "loop"), (1, "call"), (1, "cmp")])
        s.tag("st-" + k)
        out = self.lines
        if k in ("set", "op"):
            x, t = self.leaf()
            self.vars()
            if k == "set" or t is BOOL:
                if t.kind == "f":
                    # no NaN in memory: its sign and payload are unspecified
                    out.append("%s%s = %snz_(%s);" % (ind, x, "(float)" if t is FLOAT else "", g.leaf(s.choice(["f", "i"])).x))
                else:
                    out.append("%s%s = %s;" % (ind, x, g.coerce(t, g.ex(2, "i"), 2, True)))
            elif s.bool(1, 3):
                out.append("%s%s%s;" % ((ind, s.choice(["++", "--"]), x) if s.bool() else (ind, x, s.choice(["++", "--"]))))
            elif t.kind == "i":
                g.begin()
                out.append("%s%s;" % (ind, g.asg_text(x, t, s.choice(["+=", "-=", "*=", "^=", "|=", "&=", "<<=", ">>="]), 1).x[1:-1]))
            else:
                out.append("%s%s = %snz_(%s %s %s);" % (ind, x, "(float)" if t is FLOAT else "", x, s.choice("+-*"), lit(s, t, float(s.int(1, 3)))[0]))
        elif k == "emit":
            x, t = self.leaf()
            out.append(ind + g.emit(Ex(x, t, 15)))
        elif k == "copy":
            a, t = self.bulk()
            if a:
                b, t2 = self.bulk(t)
                if b:
                    out.append("%s%s = %s;" % (ind, a, b))
        elif k == "ret":
            fs = [f for f in self.rets]
            if fs:
                n, t = s.choice(fs)
                a, _ = self.bulk(t)
                if a:
                    self.vars()
                    out.append("%s%s = %s(%s, %s);" % (ind, a, n, g.coerce(INT, g.ex(1, "i"), 2), "&" + (self.bulk(t)[0] or a)))
        elif k == "size":
            j = s.draw(3)
            if j == 0 and self.ags:
                a = s.choice(self.ags)
                n, ft = s.choice(a.fields)
                out.append("%sei((int)offsetof(%s, %s));" % (ind, a.c, n))
            elif j == 1:
                t = s.choice(self.ags) if self.ags else INT
                if s.bool():
                    t = Arr(t, s.int(1, 5))
                out.append("%sei((int)sizeof(%s));" % (ind, abstract(t)))
            elif j == 2:
                k = s.draw(2)
                if k == 0:
                    r = s.choice(self.objs)
                    out.append("%sei((int)sizeof(%s));" % (ind, r[0]))
                elif k == 1:
                    x, t = self.leaf()
                    s.tag("sizeof-path")
                    out.append("%sei((int)sizeof(%s));" % (ind, x))
                else:
                    out.append('%sei((int)sizeof("%s"));' % (ind, "".join(s.choice(["a", "\\n", "\\0", "%"]) for _ in range(s.draw(9)))))
            else:
                t = s.choice(self.ags) if self.ags else DOUBLE
                out.append("%sei((int)alignof(%s));" % (ind, t.c))
        elif k == "ptr":
            self.newptr(ind)
        elif k == "loop":
            c = [r for r in self.roots if isinstance(r[1], Arr) and is_sc(r[1].el)]
            if c:
                x, t, _ = s.choice(c)
                i = self.nm("i").replace("_@@", "")
                e = "%s %s %d" % (i, s.choice(["+", "*", "^"]), s.int(1, 9))
                out.append("%sfor (int %s = 0; %s < %d; ++%s) %s[%s] = %s;" % (ind, i, i, t.n, i, x, i, g.coerce(t.el, Ex(e, INT, 6), 2, True)))
        elif k == "call":
            if self.muts:
                n, t = s.choice(self.muts)
                a, _ = self.bulk(t)
                if a:
                    out.append("%s%s(&%s, %s);" % (ind, n, a, lit(s, INT)[0]))
        elif k == "cmp" and self.ptrs:
            n, pt, lo, hi = s.choice(self.ptrs)
            i, j = s.int(lo, hi), s.int(lo, hi)
            out.append("%sei((int)((%s + %d) - (%s + %d)));" % (ind, n, i, n, j) if i >= 0 and j >= 0 else
                       "%sei(&%s[%d] %s &%s[%d]);" % (ind, n, i, s.choice(["<", "==", "!=", ">=", ">", "<="]), n, j))

    def newptr(self, ind):
        """a pointer into an array or to one object"""
        s = self.s
        n = self.nm("q").replace("_@@", "")
        if s.bool():
            c = [r for r in self.roots if isinstance(r[1], Arr)]
            if c:
                x, t, _ = s.choice(c)
                i = s.draw(t.n - 1)
                pt = Ptr(t.el)
                self.lines.append("%s%s = &%s[%d];" % (ind, decl(pt, n), x, i))
                if s.bool(1, 3):
                    j = s.int(-i, t.n - 1 - i)
                    self.lines.append("%s%s %s;" % (ind, n, "+= %d" % j if j >= 0 else "-= %d" % -j) if abs(j) != 1 or s.bool() else "%s%s%s;" % (ind, n, "++" if j > 0 else "--"))
                    i += j
                self.ptrs.append((n, pt, -i, t.n - 1 - i))
                return
        x, t = self.root()
        st = (lambda t: True) if s.bool() else (lambda t: isinstance(t, Ag))
        y, t = self.walk(x, t, st)
        # a scalar global has no address in this language
        if y and not isinstance(t, Arr) and not (is_sc(t) and y == x and not y.startswith("(*") and "[" not in y):
            pt = Ptr(t)
            if isinstance(t, Ptr):
                return
            self.lines.append("%s%s = &%s;" % (ind, decl(pt, n), y))
            self.ptrs.append((n, pt, 0, 0))

    def dump(self, x, t, ind="  "):
        out = []
        if not has_ptr(t):
            out.append("%sdb_((char *)&%s, %d);" % (ind, x, layout(t)[0]))
            return out
        prs = sorted(ptr_ranges(t))
        pos = 0
        for a, b in prs + [(layout(t)[0], 0)]:
            if a > pos:
                out.append("%sdb_((char *)&%s + %d, %d);" % (ind, x, pos, a - pos))
            pos = b
        return out


def data_case(s):
    d = D(s)
    d.targets = []
    d.rets, d.muts = [], []
    for _ in range(s.int(1, 3)):
        d.aggregate()
    if not d.ags:
        d.aggregate()
    # globals
    for _ in range(s.int(1, 4)):
        k = s.draw(3)
        if k <= 1:
            t = s.choice(d.ags) if d.ags else INT
        elif k == 2:
            t = Arr(d.gtype(1), s.int(1, 5))
        else:
            t = Arr(s.choice(d.ags) if d.ags else d.scalar(), s.int(1, 4))
        if layout(t)[0] > 3000:
            continue
        n = d.nm("g")
        st = "static " if s.bool(1, 4) else ""
        if s.draw(3) > 0:
            s.tag("init")
            dt = decl(t, n)
            if isinstance(t, Arr) and s.bool(1, 4):
                # size from the initialiser
                x = d.init(t)
                d.top.append("%s%s = %s;" % (st, dt, x))
            else:
                d.top.append("%s%s = %s;" % (st, dt, d.init(t)))
        else:
            d.top.append("%s%s;" % (st, decl(t, n)))
        d.roots.append((n, t, "g"))
        d.objs.append((n, t))
        d.targets.append((n, t, st))
    if not d.roots:
        d.top.append("int ga_@@[3] = { 1, 2, 3 };")
        d.roots.append(("ga_@@", Arr(INT, 3), "g"))
        d.objs.append(("ga_@@", Arr(INT, 3)))
    if s.bool():
        # scalar globals keep their narrow type
        t = d.scalar()
        n = d.nm("gs")
        d.top.append("%s %s = %s;" % (t.c, n, d.init(t)))
        d.roots.append((n, t, "g"))
    gl = list(d.roots)
    # functions returning an aggregate and changing one through a pointer
    for _ in range(s.draw(2)):
        t = s.choice(d.ags)
        n = d.nm("mk")
        d.lines = []
        d.roots = [("r", t, "l"), ("(*a)", t, "p")]
        d.ptrs = [("a", Ptr(t), 0, 0)]
        d.lines.append("  zf_((char *)&r, (int)sizeof(r));")
        for _ in range(s.int(1, 3)):
            d.stmt()
        body = [x for x in d.lines]
        ret = "r" if s.draw(2) > 0 else "*a"
        d.top.append("%s %s(int p0, %s *a) {\n  %s r; int p1 = p0 ^ 5, k0 = p0 & 7, k1 = p0 & 15;\n%s\n  return %s;\n}" % (t.c, n, t.c, t.c, "\n".join(body), ret))
        d.rets.append((n, t))
        s.tag("struct-ret")
    if s.bool():
        t = s.choice(d.ags)
        n = d.nm("mu")
        d.lines = []
        d.roots = [("(*a)", t, "p")]
        d.ptrs = [("a", Ptr(t), 0, 0)]
        for _ in range(s.int(1, 3)):
            d.stmt()
        d.top.append("void %s(%s *a, int p0) {\n  int p1 = p0 * 3, k0 = p0 & 7, k1 = 1;\n%s\n}" % (n, t.c, "\n".join(d.lines)))
        d.muts.append((n, t))
    # the main function
    d.lines = []
    d.ptrs = []
    d.roots = list(gl)
    locs = []
    for _ in range(s.draw(2)):
        k = s.draw(2)
        t = s.choice(d.ags) if k == 0 else Arr(d.gtype(1), s.int(1, 4)) if k == 1 else d.scalar()
        if layout(t)[0] > 2000:
            continue
        n = d.nm("l").replace("_@@", "")
        if is_sc(t):
            d.lines.append("  %s = %s;" % (decl(t, n), lit(s, t)[0]))
            d.roots.append((n, t, "l"))
            continue
        if padless(t) and s.bool():
            # initialised by a constant display, at the start or each time round a loop
            s.tag("local-init")
            x = d.init(t)
            if s.bool():
                keep, d.roots = d.roots, [(n, t, "l")]
                kp, d.ptrs = d.ptrs, []
                d.lines.append("  { int z%s; for (z%s = 0; z%s < 2; ++z%s) {\n    %s = %s;" % (n, n, n, n, decl(t, n), x))
                d.lines += d.dump(n, t, "    ")
                for _ in range(0 if has_ptr(t) else s.int(1, 2)):
                    x, lt = d.leaf()
                    d.lines.append("    %s = %s;" % (x, lit(s, lt)[0]))
                d.lines += d.dump(n, t, "    ")
                d.lines.append("  } }")
                d.roots, d.ptrs = keep, kp
                continue
            d.lines.append("  %s = %s;" % (decl(t, n), x))
            d.roots.append((n, t, "l"))
            locs.append((n, t))
            d.objs.append((n, t))
            continue
        s.tag("local-bulk")
        d.lines.append("  %s; zf_((char *)&%s, (int)sizeof(%s));" % (decl(t, n), n, n))
        d.roots.append((n, t, "l"))
        locs.append((n, t))
        d.objs.append((n, t))
    for _ in range(s.int(1, 9)):
        d.stmt()
        if s.bool(1, 10):
            d.lines.append("  if (k0 > %d) {" % s.draw(5))
            keep = list(d.ptrs)
            d.stmt("    ")
            d.lines.append("  }")
            d.ptrs = keep
    for n, t in locs:
        d.lines += d.dump(n, t)
    top = "\n".join(d.top) + "\nvoid f_@@(int p0, int p1) {\n  int k0 = p0 & 7, k1 = p1 & 3;\n" + "\n".join(d.lines) + "\n}\n"
    gd = []
    for n, t, _k in gl:
        if not is_sc(t):
            gd += d.dump(n, t)
    calls = list(gd)
    for _ in range(s.int(1, 2)):
        calls.append("  f_@@(%s, %s);" % (lit(s, INT)[0], lit(s, INT)[0]))
        calls += gd
    return top, "\n".join(calls)
