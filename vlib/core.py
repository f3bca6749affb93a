"""Building wcpl from /repo's working tree, compiling C with it (and with the
reference compiler), and running WebAssembly."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.append("/opt/vp/venv/lib/python3.12/site-packages")

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
NPROC = max(2, min(8, os.cpu_count() or 2))
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C"}


class BuildError(Exception):
    pass


def _files():
    out = []
    for n in sorted(os.listdir(REPO)):
        if n.endswith((".c", ".h")) and os.path.isfile(os.path.join(REPO, n)):
            out.append(n)
    for d, ds, fs in os.walk(os.path.join(REPO, "lib")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".c", ".h", ".wh")):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in _files():
        with open(os.path.join(REPO, f), "rb") as fp:
            h.update(f.encode() + b"\0" + hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:16]


CFLAGS = {
    "plain": ["gcc", "-g", "-O1", "-w"],
    # sanitizer build: a memory error or undefined operation aborts the compiler
    "asan": ["clang", "-g", "-O1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # fork server around the compiler, with and without coverage counters
    "srv": ["clang", "-g", "-O1", "-w", "-fsanitize=address,bool,bounds,enum,null,return,unreachable,vla-bound,integer-divide-by-zero,shift-exponent", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-Dmain=wcpl_main"],
    "cov": ["clang", "-g", "-O1", "-w", "-fsanitize=address,bool,bounds,enum,null,return,unreachable,vla-bound,integer-divide-by-zero,shift-exponent", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-Dmain=wcpl_main", "-fsanitize-coverage=inline-8bit-counters"],
    "ubsan": ["clang", "-g", "-O1", "-w", "-fsanitize=address,bool,bounds,enum,null,return,unreachable,vla-bound,integer-divide-by-zero,shift-exponent", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}


class Tool:
    """one build of the compiler and the library"""

    def __init__(self, root, kind):
        self.root = root
        self.wcpl = os.path.join(root, kind, "wcpl")
        self.lib = os.path.join(root, "plain", "lib") + "/"
        self.inc = os.path.join(root, "src", "lib", "include") + "/"
        self.src = os.path.join(root, "src")


def _sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError("%s -> %d\n%s" % (" ".join(cmd)[:400], p.returncode, p.stdout.decode("utf-8", "replace")[-3000:]))


def build(kind="plain"):
    """Build from a snapshot of /repo's working tree; cached by content hash."""
    key = tree_hash()
    root = os.path.join(BUILD, key)
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(root, "src", ".done")):
            # drop older builds so that disk use stays bounded
            for n in sorted(os.listdir(BUILD)):
                p = os.path.join(BUILD, n)
                if n not in (key, "lock", "ref") and os.path.isdir(p):
                    shutil.rmtree(p, ignore_errors=True)
            for f in _files():
                d = os.path.join(root, "src", f)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, f), d)
            open(os.path.join(root, "src", ".done"), "w").close()
        for k in dict.fromkeys(["plain", kind]):
            t = Tool(root, k)
            if os.path.exists(t.wcpl + ".done"):
                continue
            d = os.path.dirname(t.wcpl)
            os.makedirs(d, exist_ok=True)
            srcs = [f for f in _files() if "/" not in f and f.endswith(".c")]
            procs = []
            for s in srcs:
                procs.append((s, subprocess.Popen(CFLAGS[k] + ["-c", "-o", os.path.join(d, s + ".o"), os.path.join(t.src, s)],
                                                  env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                                  stderr=subprocess.STDOUT)))
            for s, p in procs:
                o, _ = p.communicate()
                if p.returncode:
                    raise BuildError("compiling %s: %s" % (s, o.decode("utf-8", "replace")[-2000:]))
            ld = CFLAGS[k] + ["-o", t.wcpl] + [os.path.join(d, s + ".o") for s in srcs] + ["-lm"]
            if k in ("srv", "cov"):
                ld += [os.path.join(VERIF, "native", "forksrv.c")]
            _sh(ld)
            if k == "plain":
                os.makedirs(t.lib, exist_ok=True)
                ls = os.path.join(t.src, "lib", "src")
                ps = []
                for f in sorted(os.listdir(ls)):
                    if f.endswith(".c"):
                        ps.append((f, subprocess.Popen([t.wcpl, "-q", "-c", "-I", "../include/", "-o", t.lib + f[:-2] + ".wo", f],
                                                       cwd=ls, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                                       stderr=subprocess.STDOUT)))
                for f, p in ps:
                    o, _ = p.communicate(timeout=300)
                    if p.returncode:
                        raise BuildError("library %s: %s" % (f, o.decode("utf-8", "replace")[-2000:]))
            open(t.wcpl + ".done", "w").close()
    return Tool(root, kind)


# ---------------------------------------------------------------- scratch

class Scratch:
    """a private directory, removed on exit"""

    def __init__(self, prefix="wv"):
        self.dir = tempfile.mkdtemp(prefix=prefix + ".", dir="/tmp")

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, name, data):
        p = self.path(name)
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("latin-1"))
        return p

    def read(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- compile

class Result:
    __slots__ = ("rc", "out", "err")

    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


def wcpl(tool, args, cwd, timeout=120, env=None, libs=True):
    e = dict(ENV)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1"
    if env:
        e.update(env)
    cmd = [tool.wcpl] + (["-q", "-L", tool.lib, "-I", tool.inc] if libs else []) + list(args)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        return Result(p.returncode, p.stdout, p.stderr)
    except subprocess.TimeoutExpired as x:
        return Result("timeout", x.stdout or b"", x.stderr or b"")


CLANG = ["clang", "--target=wasm32", "-ffreestanding", "-nostdlib", "-fno-builtin", "-w", "-fwrapv",
         "-fno-strict-aliasing", "-ffp-contract=off", "-fno-strict-overflow", "-std=gnu11",
         "-mno-bulk-memory" if False else "-mbulk-memory", "-Wl,--export=_start", "-Wl,--allow-undefined",
         "-Wl,-z,stack-size=262144"]


def clang_ref(src, out, opt="-O1", extra=()):
    p = subprocess.run(CLANG + [opt, *extra, "-o", out, src], env=ENV, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return Result(p.returncode, p.stdout, b"")


# ---------------------------------------------------------------- run

_eng = {}


def engine(fuel=True):
    import wasmtime as w
    k = (os.getpid(), fuel)
    if k not in _eng:
        c = w.Config()
        c.consume_fuel = fuel
        c.cranelift_opt_level = "speed"
        c.parallel_compilation = False
        _eng[k] = w.Engine(c)
    return _eng[k]


class Exit(Exception):
    def __init__(self, code):
        self.code = code


class Run:
    """outcome of one execution.  status: exit code, or a string naming the trap"""
    __slots__ = ("status", "out", "err", "detail")

    def __init__(self, status, out, err, detail=""):
        self.status, self.out, self.err, self.detail = status, out, err, detail

    def key(self):
        return (self.status, self.out, self.err)

    def __repr__(self):
        return "status=%r out=%r err=%r %s" % (self.status, self.out[:300], self.err[:300], self.detail[:300])


TRAPS = (("all fuel consumed", "out-of-fuel"), ("unreachable", "trap:unreachable"),
         ("out of bounds memory", "trap:oob-memory"), ("integer divide by zero", "trap:div0"),
         ("integer overflow", "trap:int-overflow"), ("invalid conversion", "trap:bad-conversion"),
         ("call stack exhausted", "trap:stack"), ("indirect call type", "trap:icall-type"),
         ("uninitialized element", "trap:icall-null"), ("undefined element", "trap:icall-oob"),
         ("out of bounds table", "trap:icall-oob"))


def trap_name(s):
    for pat, n in TRAPS:
        if pat in s:
            return n
    return "trap:other"


def run_simple(wasm, fuel=400_000_000, maxout=1 << 24):
    """Run a module that only uses fd_write and proc_exit (everything else
    returns ENOSYS); WASI is emulated in-process, so nothing of the sandbox is
    reachable."""
    import wasmtime as w
    eng = engine()
    store = w.Store(eng)
    store.set_fuel(fuel)
    store.set_limits(memory_size=1 << 29)
    outs = {1: bytearray(), 2: bytearray()}
    try:
        mod = w.Module(eng, wasm)
    except w.WasmtimeError as x:
        return Run("invalid-module", b"", b"", str(x))
    box = {}
    linker = w.Linker(eng)

    def fd_write(fd, iov, n, pn):
        mem = box["mem"]
        tot = 0
        for i in range(n):
            b = mem.read(store, iov + 8 * i, iov + 8 * i + 8)
            p, l = int.from_bytes(b[:4], "little"), int.from_bytes(b[4:], "little")
            d = mem.read(store, p, p + l)
            if fd in outs and len(outs[fd]) < maxout:
                outs[fd] += d
            tot += l
        mem.write(store, tot.to_bytes(4, "little"), pn)
        return 0

    def proc_exit(code):
        raise Exit(code)

    for imp in mod.imports:
        name, m = imp.name, imp.module
        ft = imp.type
        if not isinstance(ft, w.FuncType):
            continue
        if name == "fd_write":
            f = fd_write
        elif name == "proc_exit":
            f = proc_exit
        elif name in ("args_sizes_get", "environ_sizes_get"):
            def f(a, b):
                box["mem"].write(store, b"\0\0\0\0", a)
                box["mem"].write(store, b"\0\0\0\0", b)
                return 0
        elif name in ("args_get", "environ_get"):
            f = (lambda a, b: 0)
        else:
            n = len(ft.results)
            f = (lambda *a, n=n: 52 if n else None)
        linker.define(store, m, name, w.Func(store, ft, f))
    try:
        inst = linker.instantiate(store, mod)
        ex = inst.exports(store)
        box["mem"] = ex["memory"]
        ex["_start"](store)
        st = 0
        det = ""
    except Exit as x:
        st, det = x.code, ""
    except w.Trap as x:
        st, det = trap_name(str(x)), str(x)
    except w.WasmtimeError as x:
        c = x.__cause__
        if isinstance(c, Exit):
            st, det = c.code, ""
        else:
            st, det = "error:" + trap_name(str(x)), str(x)
    return Run(st, bytes(outs[1]), bytes(outs[2]), det)


def run_wasi(wasm, args=("prog",), stdin=b"", env=None, preopen=None, fuel=2_000_000_000, scratch=None, memlimit=1 << 29):
    """Run under wasmtime's own WASI with stdin/stdout in files of a scratch
    directory and, optionally, one preopened directory as '.'."""
    import wasmtime as w
    eng = engine()
    own = None
    if scratch is None:
        own = scratch = tempfile.mkdtemp(prefix="wr.", dir="/tmp")
    try:
        fi, fo, fe = (os.path.join(scratch, n) for n in (".in", ".out", ".err"))
        with open(fi, "wb") as f:
            f.write(stdin)
        store = w.Store(eng)
        store.set_fuel(fuel)
        store.set_limits(memory_size=memlimit)
        cfg = w.WasiConfig()
        cfg.argv = list(args)
        cfg.env = list((env or {}).items())
        cfg.stdin_file = fi
        cfg.stdout_file = fo
        cfg.stderr_file = fe
        if preopen:
            if isinstance(preopen, str):
                preopen = [(preopen, ".")]
            for h, g in preopen:
                cfg.preopen_dir(h, g)
        store.set_wasi(cfg)
        linker = w.Linker(eng)
        linker.define_wasi()
        det = ""
        try:
            mod = w.Module(eng, wasm)
            inst = linker.instantiate(store, mod)
            inst.exports(store)["_start"](store)
            st = 0
        except w.ExitTrap as x:
            st = x.code
        except w.Trap as x:
            st, det = trap_name(str(x)), str(x)
        except w.WasmtimeError as x:
            st, det = "error:" + trap_name(str(x)), str(x)
        del store
        o = open(fo, "rb").read() if os.path.exists(fo) else b""
        e = open(fe, "rb").read() if os.path.exists(fe) else b""
        return Run(st, o, e, det)
    finally:
        if own:
            shutil.rmtree(own, ignore_errors=True)


def valid_module(wasm):
    import wasmtime as w
    try:
        w.Module.validate(engine(), wasm)
        return None
    except w.WasmtimeError as x:
        return str(x)
