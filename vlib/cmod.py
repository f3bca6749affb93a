"""Generator of programs made of several modules.  Every program is emitted
twice from the same entities: as modules with headers (names may repeat in
different modules), and as one translation unit in which all names are unique,
the input of the reference compiler."""
import re

from . import cgen
from .cgen import ARITH, BOOL, CHAR, DOUBLE, INT, G, TW, Ex, common, gen_value, implicit_ok, lit, promote

MODNAMES = ["alpha", "b", "mod1", "mod_2", "util", "Util2", "io9", "one", "c", "alphabet", "main", "z"]
POOL = ["st", "cnt", "buf", "tab", "next", "get", "val", "acc", "node", "put", "cur", "init", "len", "name"]
STRS = ["", "a", "ab", "b", "abc", "hello", "hello, world", "x\\0y", "\\1\\2\\3", "\\0", "abc\\0", "\\377", "c", "bc", "abcabcabcabcabc"]
PH = re.compile("\x01([^\x02]*)\x02")


class Ent:
    __slots__ = ("mod", "kind", "name", "t", "extra", "exported", "level", "pure", "pts")

    def __init__(s, mod, kind, name, t=None, exported=False, **kw):
        s.mod, s.kind, s.name, s.t, s.exported = mod, kind, name, t, exported
        s.extra, s.level, s.pure, s.pts = None, 0, False, None
        for k, v in kw.items():
            setattr(s, k, v)

    @property
    def r(s):
        """reference text"""
        return "\x01%d:%s\x02" % (s.mod.i, s.name)


class Mod:
    def __init__(self, i, name):
        self.i, self.name = i, name
        self.hincl = []        # modules whose headers the header includes
        self.incl = []         # modules whose headers the source includes
        self.htypes = []       # header text: types, macros
        self.hext = []         # header text: externs
        self.defs = []         # source text
        self.funs = []
        self.ents = []         # own entities
        self.unused = []
        self.used = set()      # private and exported names taken here


def modtext(t):
    return PH.sub(lambda m: m.group(1).split(":", 1)[1], t)


def merged(t):
    return PH.sub(lambda m: "%s__%s" % (m.group(1).split(":", 1)[1], m.group(1).split(":", 1)[0]), t)


class Gen:
    def __init__(self, s):
        self.s = s
        self.nm = 0

    def uniq(self, p):
        self.nm += 1
        return "%s%d" % (p, self.nm)

    def program(self):
        s = self.s
        n = s.int(2, 5)
        names = list(MODNAMES)
        self.mods = []
        for i in range(n):
            nm = names.pop(s.draw(len(names) - 1))
            self.mods.append(Mod(i, nm))
        self.main = s.choice(self.mods)
        # headers may use the types of earlier headers
        for m in self.mods:
            for k in self.mods[:m.i]:
                if s.bool(1, 3):
                    m.hincl.append(k)
        for m in self.mods:
            for k in self.mods:
                if k is m or s.bool(2, 3):
                    m.incl.append(k)
            for j in range(len(m.incl) - 1):
                x = s.int(j, len(m.incl) - 1)
                m.incl[j], m.incl[x] = m.incl[x], m.incl[j]
        self.exnames = set()
        for m in self.mods:
            self.types(m)
        for m in self.mods:
            self.globals_x(m)
        self.fl = []
        for m in self.mods:
            self.functions_x(m)
        for m in self.mods:
            self.privates(m)
        for m in self.mods:
            self.initials(m)
        self.functions()
        self.dumps()
        self.mainfn()
        return self

    def visible(self, m):
        """modules whose header m's source sees"""
        seen, todo = [], list(m.incl)
        while todo:
            k = todo.pop(0)
            if k not in seen:
                seen.append(k)
                todo += k.hincl
        return seen

    # ---- names
    def xname(self, m, p):
        """an exported name: unique in the program"""
        if self.s.bool(1, 3):
            c = [x for x in POOL if x not in self.exnames]
            if c:
                x = self.s.choice(c)
                self.exnames.add(x)
                m.used.add(x)
                self.s.tag("exported-common-name")
                return x
        x = self.uniq(p)
        self.exnames.add(x)
        m.used.add(x)
        return x

    def pname(self, m):
        """a private name of module m: distinct from what m sees"""
        taken = set(m.used)
        for k in self.visible(m):
            taken |= {e.name for e in k.ents + self.fl if e.exported and e.mod is k}
        c = [x for x in POOL if x not in taken]
        if not c or self.s.bool(1, 8):
            x = self.uniq("q")
        else:
            x = self.s.choice(c)
            if any(x in k.used for k in self.mods if k is not m):
                self.s.tag("same-private-name")
        m.used.add(x)
        return x

    # ---- types, constants and macros of the header
    def types(self, m):
        s = self.s
        m.structs = []
        vis = [k for k in self.visible_h(m) if k is not m]
        for _ in range(s.draw(2)):
            nm = self.uniq("T")
            fs = []
            for j in s.many(1, 5, 4):
                k = s.draw(6)
                if k <= 3:
                    t = s.weighted([x for x in TW if x[1] is not BOOL])
                    fs.append(("f%d" % j, "s", t, "%s f%d;" % (t.c, j)))
                elif k == 4:
                    t = s.choice([CHAR, INT, DOUBLE])
                    c = s.int(1, 5)
                    fs.append(("f%d" % j, "a", (t, c), "%s f%d[%d];" % (t.c, j, c)))
                elif k == 5:
                    cs = m.structs + [x for q in vis for x in q.structs]
                    if cs and s.bool():
                        to = s.choice(cs)
                        fs.append(("f%d" % j, "p", to, "struct %s *f%d;" % (to[0], j)))
                    else:
                        fs.append(("f%d" % j, "p", None, "struct %s *f%d;" % (nm, j)))
                else:
                    fs.append(("f%d" % j, "c", None, "char *f%d;" % j))
            ty = [nm, fs, m]
            for j, f in enumerate(fs):
                if f[1] == "p" and f[2] is None:
                    fs[j] = (f[0], "p", ty, f[3])
            m.structs.append(ty)
            m.htypes.append("struct %s { %s };" % (nm, " ".join(f[3] for f in fs)))
        m.hconst = []
        if s.bool(1, 2):
            nm = self.uniq("EC")
            v = s.draw(1000) - 300
            m.htypes.append("enum { %s = %d };" % (nm, v))
            m.hconst.append(nm)
        if s.bool(1, 2):
            nm = self.uniq("MC")
            m.htypes.append("#define %s (%d)" % (nm, s.draw(100000)))
            m.hconst.append(nm)

    def visible_h(self, m):
        seen, todo = [], [m]
        while todo:
            k = todo.pop(0)
            if k not in seen:
                seen.append(k)
                todo += k.hincl
        return seen

    # ---- exported objects
    def globals_x(self, m):
        s = self.s
        for _ in s.many(1, 5, 3):
            k = s.draw(5)
            if k <= 1:
                t = s.weighted(TW)
                e = Ent(m, "var", self.xname(m, "v"), t, True)
                m.hext.append("extern %s %s;" % (t.c, e.r))
            elif k == 2:
                t = s.weighted(TW)
                e = Ent(m, "arr", self.xname(m, "a"), (t, s.int(1, 6)), True)
                m.hext.append("extern %s %s[%d];" % (t.c, e.r, e.t[1]))
            elif k == 3 and any(q.structs for q in self.visible_h(m)):
                ty = s.choice([x for q in self.visible_h(m) for x in q.structs])
                e = Ent(m, "obj", self.xname(m, "o"), ty, True)
                m.hext.append("extern struct %s %s;" % (ty[0], e.r))
            elif k == 4 and any(q.structs for q in self.visible_h(m)):
                ty = s.choice([x for q in self.visible_h(m) for x in q.structs])
                e = Ent(m, "optr", self.xname(m, "op"), ty, True)
                m.hext.append("extern struct %s *%s;" % (ty[0], e.r))
            elif k == 5:
                e = Ent(m, "strs", self.xname(m, "ss"), s.int(1, 4), True)
                m.hext.append("extern char *%s[%d];" % (e.r, e.t))
            else:
                e = Ent(m, "str", self.xname(m, "s"), None, True)
                m.hext.append("extern char *%s;" % e.r)
            m.ents.append(e)
        if s.bool(1, 3):
            e = Ent(m, "fp", self.xname(m, "fp"), None, True)
            m.hext.append("extern int (*%s)(int, int);" % e.r)
            m.ents.append(e)

    # ---- private objects
    def privates(self, m):
        s = self.s
        m.pstructs = []
        m.pconst = []
        if s.bool(1, 3):
            # the same tag with a different layout in several modules
            tag = self.pname(m)
            e = Ent(m, "tag", tag)
            ts = [s.weighted([x for x in TW if x[1] is not BOOL]) for _ in range(s.int(1, 4))]
            fs = [("f%d" % j, "s", t, "%s f%d;" % (t.c, j)) for j, t in enumerate(ts)]
            m.pstructs.append([e.r, fs, m])
            m.defs.append("struct %s { %s };" % (e.r, " ".join(f[3] for f in fs)))
        if s.bool(1, 3):
            e = Ent(m, "enum", self.pname(m))
            m.defs.append("enum { %s = %d };" % (e.r, s.draw(500)))
            m.pconst.append(e.r)
        if s.bool(1, 3):
            e = Ent(m, "macro", self.pname(m))
            m.defs.append("#define %s (%d)" % (e.r, s.draw(500)))
            m.pconst.append(e.r)
        for _ in s.many(1, 5, 3):
            k = s.draw(5)
            if k <= 1:
                e = Ent(m, "var", self.pname(m), s.weighted(TW))
            elif k == 2:
                e = Ent(m, "arr", self.pname(m), (s.weighted(TW), s.int(1, 6)))
            elif k == 3 and self.structs_of(m):
                e = Ent(m, "obj", self.pname(m), s.choice(self.structs_of(m)))
            elif k == 4 and self.structs_of(m):
                e = Ent(m, "optr", self.pname(m), s.choice(self.structs_of(m)))
            elif k == 5:
                e = Ent(m, "strs", self.pname(m), s.int(1, 4))
            else:
                e = Ent(m, "str", self.pname(m))
            m.ents.append(e)

    def structs_of(self, m):
        return m.pstructs + [x for q in self.visible(m) for x in q.structs]

    def seen(self, m, kind=None):
        """entities visible in m's source"""
        r = [e for e in m.ents]
        for k in self.visible(m):
            if k is not m:
                r += [e for e in k.ents if e.exported]
        return [e for e in r if kind is None or e.kind == kind]

    def string(self):
        return '"%s"' % self.s.choice(STRS)

    # ---- definitions with initial values
    def obj_init(self, m, ty, targets):
        s = self.s
        out = []
        for n, k, t, _ in ty[1]:
            if k == "s":
                out.append(self.const(m, t))
            elif k == "a":
                out.append("{ " + ", ".join(lit(s, t[0])[0] for _ in range(t[1])) + " }")
            elif k == "p":
                c = [e for e in targets if e.t is t]
                if c and s.bool(2, 3):
                    e = s.choice(c)
                    s.tag("address-init-other" if e.mod is not m else "address-init-own")
                    out.append("&" + e.r)
                else:
                    out.append("NULL")
            else:
                out.append(self.string() if s.bool(2, 3) else "NULL")
        return "{ " + ", ".join(out) + " }"

    def const(self, m, t):
        s = self.s
        cs = m.pconst + [c for q in self.visible(m) for c in q.hconst]
        if cs and t is INT and s.bool(1, 3):
            s.tag("const-init")
            return s.choice(cs)
        return lit(s, t)[0]

    def initials(self, m):
        s = self.s
        order = list(m.ents)
        own = []
        for e in order:
            q = "" if e.exported else "static "
            init = s.draw(3) > 0
            # what may be named in an initialiser: everything declared by headers, own statics defined before
            targets = [x for k in self.visible(m) for x in k.ents if x.exported and x.kind == "obj"] + [x for x in own if x.kind == "obj"]
            if e.kind == "var":
                d = "%s%s %s%s;" % (q, e.t.c, e.r, " = " + self.const(m, e.t) if init else "")
            elif e.kind == "arr":
                d = "%s%s %s[%d]%s;" % (q, e.t[0].c, e.r, e.t[1],
                                        " = { " + ", ".join(lit(s, e.t[0])[0] for _ in range(s.int(1, e.t[1]))) + " }" if init else "")
            elif e.kind == "obj":
                d = "%sstruct %s %s%s;" % (q, e.t[0], e.r, " = " + self.obj_init(m, e.t, targets) if init else "")
            elif e.kind == "optr":
                c = [x for x in targets if x.t is e.t]
                v = "NULL"
                if c:
                    x = s.choice(c)
                    v = "&" + x.r
                    s.tag("address-init-other" if x.mod is not m else "address-init-own")
                d = "%sstruct %s *%s = %s;" % (q, e.t[0], e.r, v)
            elif e.kind == "strs":
                d = "%schar *%s[%d]%s;" % (q, e.r, e.t, " = { " + ", ".join(self.string() for _ in range(e.t)) + " }" if init else "")
            elif e.kind == "str":
                d = "%schar *%s%s;" % (q, e.r, " = " + self.string() if init else "")
            elif e.kind == "fp":
                m.fps = getattr(m, "fps", []) + [e]
                continue
            m.defs.append(d)
            own.append(e)

    # ---- functions
    def newfun(self, m, exported):
        s = self.s
        rt = s.weighted(TW)
        pts = [s.weighted(TW) for _ in range(s.draw(3))]
        if s.bool(1, 3):
            rt, pts = INT, [INT, INT]
        nm = self.xname(m, "fn") if exported else self.pname(m)
        self.fl.append(Ent(m, "fun", nm, rt, exported, pts=pts, level=s.draw(3), pure=s.bool()))

    def functions_x(self, m):
        for _ in self.s.many(1, 4, 3):
            self.newfun(m, True)

    def functions(self):
        s = self.s
        for m in self.mods:
            for _ in s.many(0, 2, 2):
                self.newfun(m, False)
        fl = self.fl
        # prototypes
        for e in fl:
            ps = ", ".join("%s p%d" % (t.c, i) for i, t in enumerate(e.pts)) or "void"
            if e.exported:
                e.mod.hext.append("extern %s %s(%s);" % (e.t.c, e.r, ps))
            else:
                e.mod.defs.append("static %s %s(%s);" % (e.t.c, e.r, ps))
        for e in fl:
            e.mod.ents.append(e)
        for m in self.mods:
            for e in getattr(m, "fps", []):
                c = [x for x in self.seen(m, "fun") if x.level == 0 and x.t is INT and x.pts == [INT, INT]]
                v = ""
                if c and s.bool(3, 4):
                    x = s.choice(c)
                    v = " = &" + x.r
                    s.tag("function-address-init")
                m.defs.append("int (*%s)(int, int)%s;" % (e.r, v))
        for e in fl:
            self.function(e)

    def scalars(self, m):
        """(text, type) of scalar places of m's view"""
        s = self.s
        r = []
        for e in self.seen(m):
            if e.kind == "var":
                r.append((e.r, e.t))
            elif e.kind == "arr":
                r.append(("%s[%d]" % (e.r, s.draw(e.t[1] - 1)), e.t[0]))
            elif e.kind == "obj":
                for n, k, t, _ in e.t[1]:
                    if k == "s":
                        r.append(("%s.%s" % (e.r, n), t))
                    elif k == "a":
                        r.append(("%s.%s[%d]" % (e.r, n, s.draw(t[1] - 1)), t[0]))
        return r

    def function(self, e):
        s = self.s
        m = e.mod
        g = G(s, side=True)
        g.nm = 100 * self.nm
        self.nm += 1
        sc = self.scalars(m)
        vs = list(sc)
        g.vars = [("p%d" % i, t, True) for i, t in enumerate(e.pts)]
        for _ in range(min(len(vs), 4)):
            g.vars.append(vs.pop(s.draw(len(vs) - 1)) + (True,))
        fs = [x for x in self.seen(m, "fun") if x.level < e.level]
        pure = [x for x in fs if x.pure]
        if pure and s.bool(2, 3):
            x = s.choice(pure)
            g.calls.append((x.r, x.t, x.pts))
            s.tag("call-own" if x.mod is m else "call-other")
        body = []
        for _ in s.many(1, 4 if not e.pure else 2, 3):
            g.begin()
            k = 0 if e.pure else s.draw(8)
            if k <= 2 or not sc:
                body.append((list(g.decl_lines), None))
                g.begin()
                x = g.ex(s.int(1, 3))
                st = g.emit(x) if not e.pure else None
            elif k <= 5:
                n, t = s.choice(sc)
                op = s.choice(["=", "+=", "-=", "*="] if t is not BOOL else ["="])
                st = g.asg_text(n, t, op, 2).x[1:-1] + ";"
                s.tag("store")
            elif k == 6 and fs:
                x = s.choice(fs)
                args = ", ".join(g.coerce(t, g.ex(1), 2) for t in x.pts)
                st = g.emit(Ex("%s(%s)" % (x.r, args), x.t, 15))
                s.tag("call-own" if x.mod is m else "call-other")
            elif k == 7:
                # through an object pointer
                ps = [x for x in self.seen(m, "optr") if any(f[1] == "s" for f in x.t[1])]
                if ps:
                    x = s.choice(ps)
                    f = s.choice([f for f in x.t[1] if f[1] == "s"])
                    st = "if (%s != NULL) { %s; %s }" % (x.r, g.asg_text("%s->%s" % (x.r, f[0]), f[2], "=", 1).x[1:-1],
                                                         g.emit(Ex("%s->%s" % (x.r, f[0]), f[2], 15)))
                    s.tag("store-through")
                else:
                    st = ";"
            else:
                fps = self.seen(m, "fp")
                tg = [x for x in self.seen(m, "fun") if x.level == 0 and x.t is INT and x.pts == [INT, INT]]
                if fps and e.level > 0:
                    x = s.choice(fps)
                    st = "if (%s != NULL) ei((*%s)(%d, %d));" % (x.r, x.r, s.draw(99), s.draw(99))
                    s.tag("call-pointer")
                    if tg and s.bool():
                        st += " %s = &%s;" % (x.r, s.choice(tg).r)
                else:
                    st = ";"
            if st:
                body.append((list(g.decl_lines), [st] + [g.emit(Ex(n, t, 16)) for n, t in g.after]))
        # a local aggregate with constant contents: shared read-only data
        if s.bool(1, 4):
            t = s.weighted(TW)
            c = s.int(1, 4)
            nm = "la_@@"
            body.append((["  %s %s[%d] = { %s };" % (t.c, nm, c, ", ".join(lit(s, t)[0] for _ in range(c)))],
                         [g.emit(Ex("%s[%d]" % (nm, s.draw(c - 1)), t, 15))] if not e.pure else []))
            s.tag("local-const-data")
        if s.bool(1, 3) and not e.pure:
            body.append(([], ["es(%s);" % self.string()]))
        # the value must not have effects
        g.side = False
        r = g.ex(s.int(1, 3))
        lines = []
        for d, st in body:
            if st is None:
                continue
            if d:
                lines += ["  {"] + d + ["    " + x for x in st] + ["  }"]
            else:
                lines += ["  " + x for x in st]
        ps = ", ".join("%s p%d" % (t.c, i) for i, t in enumerate(e.pts)) or "void"
        txt = "%s%s %s(%s)\n{\n%s\n  return %s;\n}" % (
            "" if e.exported else "static ", e.t.c, e.r, ps, "\n".join(lines), g.coerce(e.t, r, 2))
        tag = "%d_%s" % (m.i, self.uniq("k"))
        m.funs.append(("\n".join(g.top) + "\n" + txt).replace("@@", tag))

    # ---- observation
    def dumps(self):
        s = self.s
        for m in self.mods:
            out = []
            for e in m.ents:
                if e.kind == "var":
                    out.append(self.emit(e.r, e.t))
                elif e.kind == "arr":
                    out += [self.emit("%s[%d]" % (e.r, i), e.t[0]) for i in range(e.t[1])]
                elif e.kind == "obj":
                    out += self.dump_obj(e.r + ".", e.t)
                elif e.kind == "optr":
                    out.append("if (%s != NULL) { %s } else ei(-77);" % (e.r, " ".join(self.dump_obj(e.r + "->", e.t, 1))))
                    for x in self.seen(m, "obj"):
                        if x.t is e.t:
                            out.append("ei(%s == &%s);" % (e.r, x.r))
                            s.tag("address-identity")
                elif e.kind == "strs":
                    out += ["es(%s[%d]);" % (e.r, i) for i in range(e.t)]
                elif e.kind == "str":
                    out.append("es(%s);" % e.r)
                elif e.kind == "fp":
                    for x in self.seen(m, "fun"):
                        if x.t is INT and x.pts == [INT, INT]:
                            out.append("ei(%s == &%s);" % (e.r, x.r))
                    out.append("ei(%s == NULL);" % e.r)
            # seen from here, other modules' objects
            for k in self.visible(m):
                if k is not m and s.bool():
                    for e in k.ents:
                        if e.exported and e.kind == "var" and s.bool():
                            out.append(self.emit(e.r, e.t))
                        elif e.exported and e.kind == "obj" and s.bool():
                            out += self.dump_obj(e.r + ".", e.t, 1)
                        elif e.exported and e.kind == "arr" and s.bool():
                            out += [self.emit("%s[%d]" % (e.r, i), e.t[0]) for i in range(e.t[1])]
                        elif e.exported and e.kind == "str":
                            out.append("es(%s);" % e.r)
            if s.bool():
                # private functions of one name in several modules, called through their addresses
                e = Ent(m, "fun", s.choice(["cmpr", "cmpr", "pick"]), INT)
                s.tag("private-function-address")
                m.defs.append("static int %s(int a, int b) { return a * %d - b * %d; }" % (e.r, s.draw(99), m.i + 2))
                if s.bool():
                    m.defs.append("static int (*%s)(int, int) = &%s;" % (Ent(m, "fp", "cmpr_p").r, e.r))
                    out.append("ei((*%s)(%d, 7));" % (Ent(m, "fp", "cmpr_p").r, s.draw(9)))
                if s.bool(2, 3):
                    out.append("{ int (*fp)(int, int) = &%s; ei((*fp)(%d, 5)); }" % (e.r, s.draw(9)))
            m.dump = Ent(m, "fun", "dump_m%d" % m.i, None, True)
            m.hext.append("extern void %s(void);" % m.dump.r)
            m.funs.append("void %s(void)\n{\n  %s\n}" % (m.dump.r, "\n  ".join(out)))

    def emit(self, x, t):
        return G.emit(None, Ex(x, t, 15))

    def dump_obj(self, pre, ty, depth=0):
        out = []
        for n, k, t, _ in ty[1]:
            x = pre + n
            if k == "s":
                out.append(self.emit(x, t))
            elif k == "a":
                out += [self.emit("%s[%d]" % (x, i), t[0]) for i in range(t[1])]
            elif k == "c":
                out.append("es(%s);" % x)
            elif k == "p":
                sub = self.dump_obj(x + "->", t, depth + 1) if depth < 1 else ["ei(3);"]
                out.append("if (%s != NULL) { %s } else ei(-78);" % (x, " ".join(sub)))
        return out

    # ---- main
    def mainfn(self):
        s = self.s
        m = self.main
        body = []
        own = list(m.incl)
        for k in self.mods:
            if k not in self.visible(m):
                m.incl.append(k)
        # names of headers included for main only must not clash with its private names
        vis = self.visible(m)
        priv = {e.name for e in m.ents if not e.exported} | {x for x in m.used}
        for k in vis:
            if k is not m and priv & {e.name for e in k.ents if e.exported}:
                m.incl = own
                # an extra module without names of its own carries main
                m = Mod(len(self.mods), "start")
                m.incl = list(self.mods)
                self.mods.append(m)
                self.main = m
                m.dump = None
                break
        ds = ["%s();" % k.dump.r for k in self.mods if k.dump]
        body += ds
        fs = [x for k in self.visible(m) for x in k.ents if x.kind == "fun" and (x.exported or k is m)]
        for x in fs:
            for _ in range(s.int(1, 2)):
                body.append(self.emit("%s(%s)" % (x.r, ", ".join(lit(s, t)[0] for t in x.pts)), x.t))
        body += ds
        args = s.bool(1, 3)
        m.funs.append("int main(%s)\n{\n  %s\n  fl_();\n  return 0;\n}" % ("int argc, char **argv" if args else "void", "\n  ".join(body)))


def gen_program(s):
    return Gen(s).program()


RT_H = r"""#pragma once
#include <stddef.h>
#include <stdbool.h>
extern void fl_(void);
extern void eu(unsigned long long u);
extern void ei(long long i);
extern void ed(double d);
extern void es(const char *p);
extern double nz_(double d);
extern int f2i(double d);
extern long long f2ll(double d);
extern unsigned long long f2ull(double d);
"""
ES = "void es(const char *p) { if (p != NULL) { while (*p) { ei(*p); p += 1; } } else ei(-1000); ei(-1001); }\n"


def rt_source():
    return cgen.PRELUDE + ES


def header(m, style, hname=None, at=0, part=0):
    """style(module) -> include line for its header; a header of another name says whose it is;
    part 1 holds the types alone, part 2 the rest"""
    out = ["#pragma once", "#include <stddef.h>"]
    if hname and hname != m.name:
        out.insert(at, '#pragma module "%s"' % m.name)
    out += [style(k) for k in m.hincl]
    out += (m.htypes if part != 2 else []) + (m.hext if part != 1 else [])
    return modtext("\n".join(out) + "\n")


def source(m, style, rt_incl):
    out = [rt_incl] + [style(k) for k in m.incl]
    out += m.defs + m.funs
    return modtext("\n".join(out) + "\n")


def whole(g):
    out = [cgen.PRELUDE + ES]
    for m in g.mods:
        out += m.htypes
    for m in g.mods:
        out += m.hext
    for m in g.mods:
        out += m.defs + m.funs
    return merged("\n".join(out) + "\nvoid _start(void) { main(%s); }\n" % ("0, 0" if "main(int argc" in "".join(g.main.funs) else ""))
