import os
import resource
import signal
import subprocess

from checks import c08
from vlib import cgen, cill, cmix, cmut, core, cscale, wasmbin, whost
from vlib.check import Family

TECHNIQUE = "grammar-based and mutational fuzzing with module validation as oracle"
RULE = ("ill: programs over globals, locals and functions of every type class whose expressions, statements and declarations are drawn with "
        "little (or, in part, ordinary) regard for types. mutants: well-formed random programs with 1-3 token edits. Whatever is accepted must "
        "validate (wasmtime's validator), export a memory and _start and import only WASI functions; whatever is refused must give exit status 1 "
        "and a diagnostic. scale: valid programs in which one thing is very numerous, long, deep or large (functions, variables, parameters, cases, nesting, strings, tables, data, fields, names, stack frames; counts around powers of two up to millions) must be accepted and validate. full: compilation with the output limited to a generated number of bytes (as on a full disk): success exactly if the output "
        "is the one written without limit. faults: the self-hosted compiler under an emulated host one of whose calls (reads, writes, opens, any), "
        "at a generated point of the run, fails or transfers less than asked: success only with the output of the undisturbed run. Non-trivial: every distinct program; the classes accepted/refused are counted.")
ASSUMPTIONS = ["wasmtime's validator decides validity", "raw inline assembly, which the compiler passes through unchecked, is outside the domain"]


def judge(r, sc, out):
    """verdict on one compiler run: (None|msg, accepted)"""
    if r.rc == 0:
        p = sc.path(out)
        if not os.path.exists(p):
            return "success without an output file", False
        d = sc.read(out)
        os.unlink(p)
        v = core.valid_module(d)
        if v:
            return "accepted, but the module is invalid: " + v.strip()[-300:], True
        try:
            imps, exps = wasmbin.interface(d)
        except (wasmbin.Bad, IndexError) as x:
            return "unreadable module: %s" % x, True
        if ("memory", "memory") not in exps or ("_start", "func") not in exps:
            return "module exports %r" % exps, True
        bad = [i for i in imps if i[2] != "func" or not i[0].startswith("wasi")]
        if bad:
            return "module imports %r" % bad, True
        return None, True
    if r.rc == 1:
        if not r.err.strip():
            return "refused without a diagnostic", False
        return None, False
    return "compiler ends with %s: %s" % (r.rc, r.err.decode("latin-1")[-400:]), False


class Ill(Family):
    name, quick, thorough, batch = "ill", 16000, 300000, 100

    def gen(self, s):
        return cill.ill_case(s)

    def show(self, c):
        return c[len(cill.PRE):]

    def run(self, ctx, cases):
        res = []
        for c in cases:
            ctx.sc.write("p.c", c)
            r = core.wcpl(ctx.tool, ["-o", "p.wasm", "p.c"], ctx.sc.dir, timeout=60)
            res.append(judge(r, ctx.sc, "p.wasm")[0])
        return res


class Mutants(Ill):
    name, quick, thorough, batch = "mutants", 5000, 100000, 50

    def gen(self, s):
        top, main = cmix.mixed_case(s)
        if s.bool():
            top = cmut.mutate(s, top, s.int(1, 3))
        else:
            main = cmut.mutate(s, main, s.int(1, 3))
        return cgen.assemble([(top, main)])

    def show(self, c):
        return c[len(cgen.PRELUDE):]


def io_case(s):
    out = s.weighted([(3, "o.wasm"), (2, "o.wat"), (2, "o.wo"), (2, "")])
    c = out.endswith(".wo") or (not out and s.bool())
    k = s.weighted([(1, "plain"), (3, "mix")])
    if k == "plain":
        src = "#include <stdio.h>\nint main(void)\n{\n%s  return 0;\n}\n" % "".join(
            "  printf(\"%s\\n\");\n" % ("x" * s.int(1, 40)) for _ in range(s.int(1, 6)))
    else:
        src = cgen.assemble([cmix.mixed_case(s)])
    s.tag("to-" + (out or "stdout"))
    return src, out, c


class Scale(Ill):
    """programs with very many, long, deep or large parts"""
    name, quick, thorough, batch = "scale", 250, 20000, 5
    shrink_budget = 60

    def gen(self, s):
        return cscale.scale_case(s)

    def show(self, c):
        return " ".join(c[1]) + "\n" + c[0][:3000]

    def run(self, ctx, cases):
        res = []
        for src, opts, _ in cases:
            ctx.sc.write("p.c", src)
            r = core.wcpl(ctx.tool, opts + ["-o", "p.wasm", "p.c"], ctx.sc.dir, timeout=300)
            if r.rc == 1:
                res.append("refused: " + r.err.decode("latin-1")[:300])
            else:
                res.append(judge(r, ctx.sc, "p.wasm")[0])
        return res


class Full(Ill):
    name, quick, thorough, batch = "full", 400, 30000, 10

    def gen(self, s):
        return io_case(s) + ([(s.bool(1, 3), s.draw(999), s.draw(9000)) for _ in range(4)],)

    def key(self, c):
        return repr(c)

    def show(self, c):
        return "/* -> %s%s, limits %r */\n%s" % (c[1] or "stdout", " -c" if c[2] else "", c[3], c[0].replace(cgen.PRELUDE, ""))

    def once(self, ctx, out, c, limit):
        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        p = ctx.sc.path(out or "stdout")
        if os.path.exists(p):
            os.unlink(p)
        cmd = [ctx.tool.wcpl, "-q", "-L", ctx.tool.lib, "-I", ctx.tool.inc] + (["-c"] if c else []) + (["-o", out] if out else []) + ["p.c"]
        with open(ctx.sc.path("so"), "wb") if out else open(p, "wb") as so:
            r = subprocess.run(cmd, cwd=ctx.sc.dir, env=core.ENV, stdin=subprocess.DEVNULL, stdout=so, stderr=subprocess.PIPE,
                               timeout=60, preexec_fn=pre, restore_signals=False)
        return r.returncode, open(p, "rb").read() if os.path.exists(p) else None, r.stderr

    def run(self, ctx, cases):
        res = []
        for src, out, c, lims in cases:
            ctx.sc.write("p.c", src)
            rc, ref, err = self.once(ctx, out, c, None)
            if rc != 0:
                res.append("discard")
                continue
            msg = None
            for near, a, b in lims:
                lim = max(0, len(ref) + a % 9 - 6) if near else min(len(ref) * a // 999, len(ref)) if b % 2 else b
                rc, got, err = self.once(ctx, out, c, lim)
                if lim < len(ref):
                    if rc not in (1, 2) or not err.strip():
                        msg = "the output is cut at %d of %d bytes, status %s, diagnostic %r" % (lim, len(ref), rc, err[:200])
                elif rc != 0 or got != ref:
                    msg = "limit %d suffices for %d bytes, but status %s (%r), output %s" % (lim, len(ref), rc, err[:200], "same" if got == ref else "differs")
                if msg:
                    break
            res.append(msg)
        return res


_libs = {}


class Faults(Full):
    name, quick, thorough, batch = "faults", 160, 12000, 5
    LOOKUP = ("path_open", "path_filestat_get", "fd_prestat_get", "fd_prestat_dir_name", "environ_get", "environ_sizes_get", "args_get", "args_sizes_get",
              "fd_fdstat_get")

    def setup(self, ctx):
        c08.prepare()
        if os.path.getsize(c08.selfpath()):
            c08.module()
        if not _libs:
            for d, n in ((ctx.tool.lib, "zl"), (ctx.tool.inc, "zi")):
                for top, _, fs in os.walk(d):
                    for f in fs:
                        if f.endswith((".wo", ".h")) or n == "zi":
                            _libs["%s/%s" % (n, os.path.relpath(os.path.join(top, f), d))] = open(os.path.join(top, f), "rb").read()

    def gen(self, s):
        fs = []
        for _ in range(5):
            op = s.weighted([(4, "fd_read"), (4, "fd_write"), (2, "path_open"), (1, "fd_close"), (2, "")])
            how = s.weighted([(3, "once"), (2, "on"), (1, "short")])
            fs.append((op, s.draw(999), how, s.choice(["IO", "NOSPC", "BADF", "INTR", "NOMEM", "NOTCAPABLE", "AGAIN", "DQUOT"]), s.int(1, 300)))
        return io_case(s) + (fs,)

    def once(self, ctx, src, out, c, fault):
        files = {"p.c": src.encode("latin-1")}
        files.update(_libs)
        h = whost.Host(args=["wcpl", "-q", "-L", "/zl/", "-I", "/zi/"] + (["-c"] if c else []) + (["-o", "/" + out] if out else []) + ["/p.c"],
                       files=files, fault=fault, log=fault is None)
        r = h.run(c08.module(), fuel=100_000_000_000, memlimit=1 << 32)
        o = h.get("/" + out) if out else None
        return r, (bytes(r.out) if not out else o), h

    def run(self, ctx, cases):
        if not os.path.getsize(c08.selfpath()):
            return ["discard"] * len(cases)     # another property's business
        res = []
        for src, out, c, fs in cases:
            r, ref, h = self.once(ctx, src, out, c, None)
            if r.status != 0 or ref is None:
                res.append("discard")
                continue
            names = [l[0] for l in h.log]
            msg = None
            for op, at, how, err, n in fs:
                idx = [i for i, x in enumerate(names) if x != "proc_exit" and (x == op or not op)]
                if not idx:
                    continue
                k = idx[at * len(idx) // 1000]
                hit = []

                def fault(i, name, args, host):
                    if i == k or i > k and how == "on" and name == names[k] and (name != "fd_write" or args[0] != 2):
                        hit.append(name)
                        return ("short", n) if how == "short" else ("err", whost.E[err])
                    return None
                r, got, _ = self.once(ctx, src, out, c, fault)
                what = "call %d (%s) %s" % (k, names[k], "transfers %d bytes" % n if how == "short" else "fails with E%s%s" % (err, " from then on" if how == "on" else ""))
                if not isinstance(r.status, int):
                    msg = "%s: the compiler ends with %s %s" % (what, r.status, r.detail[:300])
                elif r.status == 0:
                    if names[k] in self.LOOKUP and how != "short":
                        if out.endswith(".wasm") and (got is None or core.valid_module(got)):
                            msg = "%s: success without a valid module" % what
                    elif got != ref:
                        msg = "%s: success, but the output is %s" % (what, "missing" if got is None else "%d bytes instead of %d" % (len(got), len(ref)))
                elif how == "short":
                    msg = "%s: status %s: %r" % (what, r.status, r.err[:300])
                elif not r.err.strip():
                    msg = "%s: status %s without a diagnostic" % (what, r.status)
                if msg:
                    break
            res.append(msg)
        return res


def scalar_address():
    """int gi = 5; int *tv = &gi; : an unsupported initialiser (README) that is refused by the linker only, exit status 2"""
    t = core.build("plain")
    sc = core.Scratch()
    sc.write("p.c", "int gi = 5;\nint *tv = &gi;\nint main(void)\n{\n  tv = tv;\n  return 0;\n}\n")
    return judge(core.wcpl(t, ["-o", "p.wasm", "p.c"], sc.dir, timeout=60), sc, "p.wasm")[0]


PROBES = {"scalar-address-initialiser": scalar_address}
FAMILIES = [Ill(), Mutants(), Scale(), Full(), Faults()]
