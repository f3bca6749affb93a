"""C23: programs from start to end."""
import os
import shutil

from vlib import clib, cproc, whost
from vlib.check import Family

TECHNIQUE = "model-based property-based testing of whole program runs over generated arguments, environments, exit histories and size options"
RULE = ("A program performing generated scripts (registering exit handlers, writing to streams with and without buffers, reading arguments and environment, allocating, recursing down to the "
        "stack size asked for, and ending by return, exit, _exit, abort, a failed assertion or a trap, at any depth, also from handlers, whose scripts are generated too) is compiled with "
        "generated -s, -a, -O options and main forms, run with generated arguments (also filling the argument area to the byte) and environment; reported arguments, values, handler order, "
        "exit status, and the contents of all files and of standard output must be those of a model. Non-trivial: at least three steps in main; distinct by whole case.")
ASSUMPTIONS = ["a program whose host provides no arguments at all, or more than the argument area holds, may be told that there are none",
               "after _exit, abort or a trap, data not flushed may or may not be in the files",
               "up to 32 exit handlers are guaranteed; exit within a handler is undefined in C and left out",
               "emulated host: all status values; wasmtime's own: 0..125"]


class Proc(Family):
    def setup(self, ctx):
        cproc.build(ctx, cproc.configs()[0])

    def nontrivial(self, c, tags):
        return len(c["scripts"][0]) >= 3

    def key(self, c):
        return repr(sorted(c.items(), key=lambda x: x[0]))

    def show(self, c):
        return cproc.show(c)


class Emulated(Proc):
    name, quick, thorough, batch = "emulated", 6000, 200000, 50

    def gen(self, s):
        return cproc.case(s, False, cproc.CONFS)

    def run(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def one(self, ctx, c):
        mod = cproc.build(ctx, c["cf"])
        h = whost.Host(args=c["args"], env=[n + b"=" + v for n, v in c["env"].items()], stdin=cproc.stdin(c), files=c["files"])
        x = h.run(mod)
        return cproc.judge(c, x, h.get)


class Native(Proc):
    name, quick, thorough, batch = "native", 1500, 50000, 30

    def gen(self, s):
        c = cproc.case(s, True, cproc.CONFS)
        for sc in c["scripts"]:
            for o in sc:
                if o[0] in "ER" and not 0 <= o[-1] < 126:
                    o[-1] &= 63
        return c

    def run(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def one(self, ctx, c):
        mod = cproc.build(ctx, c["cf"])
        root = os.path.join(ctx.sc.dir, "fs")
        os.makedirs(root)
        for n, b in c["files"].items():
            with open(root + n, "wb") as f:
                f.write(b)
        x = clib.run_module(mod, ctx.sc.dir, stdin=cproc.stdin(c), args=[a.decode() for a in c["args"]], env={n.decode(): v.decode() for n, v in c["env"].items()}, preopen=[(root, "/")])

        def get(n):
            try:
                return open(root + n, "rb").read()
            except FileNotFoundError:
                return None
        v = cproc.judge(c, x, get, True)
        shutil.rmtree(root)
        return v


FAMILIES = [Emulated(), Native()]
