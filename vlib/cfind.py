"""Trees of header and library module candidates, and the model of which one is found."""

HEXT = ["", ".h", ".wh"]
OEXT = [".o", ".wo", ".wat"]
HNAMES = ["alpha", "beta_2", "Gamma", "sub.delta", "a.b.eps", "float", "iso_x"]


class Case:
    pass


def spelling(s, name):
    """(directive operand, quoted)"""
    p = name.replace(".", "/")
    p += s.choice(["", ".h", ".h", ".wh"])
    if s.bool():
        return '"%s"' % p, True
    sp = s.choice(["", "", " "])
    return "<%s%s%s>" % (sp, p, sp), False


def content(kind, name, i, s):
    w = name.replace(".", "_")
    if kind == "header":
        return "%s#define W_%s %d\n" % (s.choice(["", "#pragma once\n", "/* c */\n"]), w, i)
    return None


def gen(s):
    c = Case()
    ni, nl = s.int(0, 3), s.int(0, 2)
    c.idirs = ["i%d/" % k for k in range(ni)]
    c.ldirs = ["l%d/" % k for k in range(nl)]
    c.envi = "ei/" if s.bool(1, 4) else None
    c.envl = "el/" if s.bool(1, 4) else None
    ident = [100]

    def new():
        ident[0] += 1 + s.draw(5)
        return ident[0]
    c.files = {}
    c.hdrs = []
    bases = c.idirs + [l + "include/" for l in c.ldirs]
    for name in {s.choice(HNAMES) for _ in range(s.int(1, 4))}:
        c.hdrs.append(name)
    c.hdrs.sort()
    for name in c.hdrs:
        for b in [""] + bases:
            if not s.bool(2, 5):
                continue
            for e in HEXT:
                if s.bool(1, 2):
                    c.files[(b, name, e)] = new()
        # directories named by the environment: no other directory but the current one has the name then
        env = ([c.envi] if c.envi else []) + ([c.envl + "include/"] if c.envl else [])
        if env and s.bool(1, 3):
            for k in [k for k in c.files if k[1] == name and k[0]]:
                del c.files[k]
            c.files[(s.choice(env), name, s.choice(HEXT))] = new()
            s.tag("environment")
    # headers that include another one: looked for in the same places
    c.nested = {}
    ks = sorted(c.files)
    for k in ks:
        if s.bool(1, 6):
            n = s.choice(c.hdrs)
            if n != k[1]:
                c.nested[k] = (n,) + spelling(s, n)
                s.tag("nested")
    # library modules
    c.libs, c.objs = [], {}
    for k in range(s.weighted([(2, 0), (3, 1), (1, 2)])):
        m = "lm%d" % k
        c.libs.append(m)
        for l in c.ldirs:
            for e in OEXT:
                if s.bool(2, 5):
                    c.objs[(l, m, e)] = new()
        if c.envl and s.bool(1, 2):
            for x in [x for x in c.objs if x[1] == m]:
                del c.objs[x]
            c.objs[(c.envl, m, s.choice(OEXT))] = new()
            s.tag("environment")
        if s.bool(1, 4):
            # given explicitly: no library is asked
            c.objs[("own/", m, s.choice([".c", ".wo", ".o", ".wat"]))] = new()
            s.tag("explicit")
    # the modules of the program
    c.mods = []
    for k in range(s.int(1, 2)):
        incs = []
        for n in c.hdrs:
            if k == 0 or s.bool():
                incs.append((n,) + spelling(s, n))
        c.mods.append(incs)
    # what must never be looked at
    c.garbage = s.draw(3)
    c.out = s.choice(["o.wasm", "o.wat", None, "o.wasm"])
    c.msg = s.choice([["-q"], [], ["-v"], ["-w"], ["-q", "-w"], ["-qw"], ["-v", "-v"]])
    o = []
    dirs = [("-I", d) for d in c.idirs] + [("-L", d) for d in c.ldirs]
    # one order of each kind, mixed
    i = [d for d in dirs if d[0] == "-I"]
    l = [d for d in dirs if d[0] == "-L"]
    while i or l:
        q = i if i and (not l or s.bool()) else l
        a, b = q.pop(0)
        o += [a + b] if s.bool() else [a, b]
    c.opts = o
    c.at = s.draw(len(o))
    while c.at and c.at < len(o) and o[c.at - 1] in ("-I", "-L"):
        c.at -= 1
    c.minus = s.bool(1, 6)
    return c


def find(c, name, quoted):
    """identity of the header found"""
    env = ([c.envi] if c.envi else [])
    lib = ([c.envl + "include/"] if c.envl else []) + [l + "include/" for l in c.ldirs]
    for b in ([""] if quoted else []) + env + c.idirs + lib:
        for e in HEXT:
            if (b, name, e) in c.files:
                return (b, name, e)
    return "bundled" if name == "float" else None


def find_obj(c, m):
    for e in (".c", ".wo", ".o", ".wat"):
        if ("own/", m, e) in c.objs:
            return ("own/", m, e)
    for l in ([c.envl] if c.envl else []) + c.ldirs:
        for e in OEXT:
            if (l, m, e) in c.objs:
                return (l, m, e)
    return None


def model(c):
    """(reachable header files, reachable objects, missing names, per module [(name, file)])"""
    used, miss, per = set(), [], []
    for incs in c.mods:
        got = {}
        bad = False

        def go(name, quoted, depth=0):
            nonlocal bad
            if depth > 6:
                bad = True
                return
            f = find(c, name, quoted)
            if f is None:
                miss.append(name)
                return
            used.add(f)
            if name in got and (got[name] != f or f != "bundled"):
                bad = True      # defined twice
            got[name] = f
            if f in c.nested:
                n, _, q = c.nested[f]
                go(n, q, depth + 1)
        for n, _, q in incs:
            if n not in got:
                go(n, q)
        per.append(None if bad else got)
    objs = set()
    for m in c.libs:
        f = find_obj(c, m)
        if f is None:
            miss.append(m)
        else:
            objs.add(f)
    return used, objs, miss, per
