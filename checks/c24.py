"""C24: a host that fails or transfers less than asked."""
from vlib import cfault, cfs, cfsfault, cproc, cstream, whost
from checks import c19
from vlib.check import Family

C22_TOL = {(n, "*", "*") for n in ("link", "linkat", "rename", "renameat")}
TECHNIQUE = "fault-injecting, model-based property-based testing over an emulated host"
RULE = ("streams: random stream histories run on an emulated WASI host that, at generated points, fails a read, write, seek, open or close with a generated error code, transfers less than "
        "asked (down to one byte, always or once) or has a full disk. Every call that no fault hit must behave ideally; every call that was hit must report failure with the injected "
        "code and indicator; the set of ideal states consistent with what was reported is tracked, and data read, positions and file contents must belong to it. calls: in a history of "
        "descriptor, name and directory calls the nth host call of one of them fails or transfers less (or all memory is used up before it); it must report that code, leak no descriptor, and all "
        "later results and the final tree must be those of the history without it. no memory: stream histories with all memory used up from some point must stay ideal. start-up: the calls "
        "that fetch arguments or environment fail; the program must say so and run on without them. "
        "Non-trivial: a fault, short transfer or exhaustion was planned in a history of several calls; distinct by history and faults.")
ASSUMPTIONS = ["what follows an operation that C leaves undefined after a failure (for instance reading from an update stream whose repositioning failed) is not judged",
               "data still buffered when the program ends after a failed final write may be lost",
               "a refused removal of a file is taken for 'is a directory' by remove, as documented for hosts without a better answer"]


class Streams(Family):
    name, quick, thorough, batch = "streams", 9000, 250000, 40

    def setup(self, ctx):
        cstream.build(ctx)

    def gen(self, s):
        return cfault.history(s)

    def nontrivial(self, c, tags):
        return len(c["ops"]) > 3

    def key(self, c):
        return repr(sorted(c.items(), key=lambda x: x[0]))

    def show(self, c):
        return cfault.show(c)

    def run(self, ctx, cases):
        mod = cstream.build(ctx)
        return [cfault.judge(c, cfault.run(mod, c)) for c in cases]


class Calls(Family):
    name, quick, thorough, batch = "calls", 3000, 80000, 30

    def setup(self, ctx):
        cfs.build(ctx)

    def gen(self, s):
        return cfsfault.history(s)

    def nontrivial(self, c, tags):
        return len(c["ops"]) > 1

    def key(self, c):
        return repr(sorted(c.items(), key=lambda x: x[0]))

    def show(self, c):
        return "%s\nhost call %d of operation %d meets %s" % (cfs.show(c), c["nth"], c["pick"], c["act"])

    def run(self, ctx, cases):
        return [cfsfault.run(ctx, c, C22_TOL) for c in cases]


class NoMemory(c19.Streams):
    """ideal streams although there is no memory for their buffers"""
    name, quick, thorough, batch = "no memory", 1500, 40000, 40

    def gen(self, s):
        k = s.draw(5)
        c = cstream.history(s, std=k == 0, many=k == 1, nmax=60)
        c["eat"] = s.draw(len(c["ops"])) if s.bool(1, 2) else 0
        return c

    def nontrivial(self, c, tags):
        return len(c["ops"]) > 3

    def show(self, c):
        return "all memory is used up before operation %d\n%s" % (c["eat"], cstream.show(c))


class StartUp(Family):
    """the calls that fetch arguments and environment fail"""
    name, quick, thorough, batch = "start-up", 1200, 30000, 40

    def setup(self, ctx):
        cproc.build(ctx, cproc.CONFS[0])

    def gen(self, s):
        c = cproc.case(s, False, [x for x in cproc.CONFS if x[0] != "void"])
        c["fail"] = s.choice(["args_sizes_get", "args_get", "environ_sizes_get", "environ_get"])
        c["errno"] = s.choice(cfault.ERRS)
        return c

    def nontrivial(self, c, tags):
        return len(c["scripts"][0]) > 1

    def key(self, c):
        return repr(sorted(c.items(), key=lambda x: x[0]))

    def show(self, c):
        return "%s fails with %d\n%s" % (c["fail"], c["errno"], cproc.show(c))

    def run(self, ctx, cases):
        return [self.one(ctx, c) for c in cases]

    def one(self, ctx, c):
        mod = cproc.build(ctx, c["cf"])
        h = whost.Host(args=c["args"], env=[n + b"=" + v for n, v in c["env"].items()], stdin=cproc.stdin(c), files=c["files"],
                       fault=lambda i, name, args, host: ("err", c["errno"]) if name == c["fail"] else None)
        x = h.run(mod)
        if c["fail"][0] == "a":
            # must be told apart from success, and the program goes on without arguments
            if not x.err.startswith(cproc.MSG):
                return "no message on descriptor 2: %r" % x.err[:80]
            return cproc.judge(dict(c, args=[]), x, h.get)
        x.err = x.err.replace(cproc.EMSG, b"", 1)
        return cproc.judge(dict(c, env={}), x, h.get)


FAMILIES = [Streams(), Calls(), NoMemory(), StartUp()]
