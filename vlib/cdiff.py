"""Differential execution of generated C: wcpl against a reference compiler."""
import os

from . import cgen, core


def compile_run(tool, sc, src, name="p", extra=(), fuel=400_000_000):
    """('ok', Run) | ('reject', msg) | ('crash', msg) | ('invalid', msg)"""
    sc.write(name + ".c", src)
    r = core.wcpl(tool, ["-o", name + ".wasm", *extra, name + ".c"], sc.dir)
    if r.rc != 0:
        kind = "reject" if r.rc == 1 else "crash"
        return kind, "rc=%s %s" % (r.rc, r.err.decode("latin-1")[:1500])
    p = sc.path(name + ".wasm")
    if not os.path.exists(p):
        return "crash", "no output file"
    with open(p, "rb") as f:
        w = f.read()
    x = core.run_simple(w, fuel)
    os.unlink(p)
    if x.status == "invalid-module":
        return "invalid", x.detail[:600]
    return "ok", x


def ref_run(sc, src, name="r", opt="-O1", extra=()):
    sc.write(name + ".c", src)
    r = core.clang_ref(sc.path(name + ".c"), sc.path(name + ".wasm"), opt, extra)
    if r.rc != 0:
        raise RuntimeError("reference compiler: " + r.out.decode("latin-1")[:1500])
    with open(sc.path(name + ".wasm"), "rb") as f:
        w = f.read()
    os.unlink(sc.path(name + ".wasm"))
    x = core.run_simple(w, 4_000_000_000)
    if x.status != 0:
        raise RuntimeError("reference run: %r" % x)
    return x


def diff_cases(tool, sc, cases, opt="-O1", head="", extra=()):
    """cases [(top, main)] -> [None | message] ; whole batch in one program"""
    src = cgen.assemble(cases, head)
    k, x = compile_run(tool, sc, src)
    if k != "ok":
        if len(cases) == 1:
            return ["%s: %s" % (k, x)]
        h = len(cases) // 2
        return diff_cases(tool, sc, cases[:h], opt, head, extra) + diff_cases(tool, sc, cases[h:], opt, head, extra)
    ref = ref_run(sc, src, opt=opt, extra=extra)
    if x.status == 0 and x.out == ref.out:
        return [None] * len(cases)
    a, b = cgen.split_output(x.out), cgen.split_output(ref.out)
    res = []
    stop = False
    for i in range(len(cases)):
        if stop:
            res.append("unknown")
        elif a.get(i) == b.get(i):
            res.append(None)
        else:
            ga, gb = a.get(i), b.get(i)
            if x.status != 0 and (i + 1) not in a:
                stop = True
                res.append("stopped with %s (%s), output %s, expected %s" % (x.status, x.detail[:200], hexl(ga), hexl(gb)))
            else:
                d = [j for j in range(max(len(ga or []), len(gb or []))) if (ga or [])[j:j + 1] != (gb or [])[j:j + 1]]
                res.append("value %d is %s, expected %s" % (d[0], hexl((ga or [])[d[0]:d[0] + 1]), hexl((gb or [])[d[0]:d[0] + 1])))
    if stop:
        # the cases after the one that stopped
        j = res.index("unknown") if "unknown" in res else None
        if j is not None:
            res[j:] = diff_cases(tool, sc, cases[j:], opt, head, extra)
    return res


def hexl(l):
    if l is None:
        return "nothing"
    return "[" + " ".join("%x" % v for v in l[:6]) + "]"
