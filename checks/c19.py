"""C19: stream histories."""
from vlib import cstream
from vlib.check import Family
from vlib.clib import Rd, split_answers

TECHNIQUE = "stateful model-based property-based testing of stream histories over an emulated host"
RULE = ("A random history of stream calls (fopen/fdopen/freopen/fclose, getc/fgetc/fgets/fread/fscanf/ungetc, putc/fputc/fputs/fwrite/fprintf, fseek/ftell/rewind/fgetpos/fsetpos, "
        "fflush, setvbuf/setbuf, clearerr, all modes, several streams) that is legal in C runs in a fresh instance whose host calls are answered by an emulated WASI host with an "
        "in-memory file system; every return value, datum, indicator and position, the file contents after each flush, close, unbuffered write and line, and the contents "
        "after exit are compared with an ideal stream. Non-trivial: a history with pushback, a seek inside the file, an update stream, the end of a file or an append; distinct by history.")
ASSUMPTIONS = ["histories keep C's rules for update streams and push-back (one character), and no file is open twice unless only for reading",
               "POSIX semantics for fflush of an input stream (position kept) and for the end-of-file indicator (sticky until cleared)"]


def match(r, want):
    if want is None:
        return True
    if want == "nonneg":
        return r >= 0
    if want == "nonzero":
        return r != 0
    if want == "eofany":
        return r in (0, -1)
    return r == want


class Streams(Family):
    name, quick, thorough, batch = "streams", 6000, 200000, 40
    std = False
    many = False
    nmax = 60

    def setup(self, ctx):
        cstream.build(ctx)

    def gen(self, s):
        return cstream.history(s, std=self.std, many=self.many, nmax=self.nmax)

    def nontrivial(self, c, tags):
        return bool(tags & {"pushback", "seek inside", "update write", "end of file", "append", "FOPEN_MAX"}) or self.std and len(c["ops"]) > 4

    def key(self, c):
        return repr((c["files"], c["stdin"], c["tty"], c["ops"]))

    def show(self, c):
        return cstream.show(c)

    def run(self, ctx, cases):
        mod = cstream.build(ctx)
        return [self.one(mod, c) for c in cases]

    def one(self, mod, c):
        h = cstream.host_for(c)
        want = {}
        for i, x in enumerate(c["exps"]):
            if x.get("disk"):
                want[i] = x["disk"]
        seen = {}
        orig, rd0 = h.clock_res_get, h.fd_read
        now, late = [-1], []

        def read(*a):
            # what the program had to deliver before it asks for input
            if 0 <= now[0] < len(c["exps"]) and not late:
                for f, b in (c["exps"][now[0]].get("ask") or {}).items():
                    d = cstream.disk(h, f)
                    if d != b:
                        late.append("op %d %s: asks for input while line-buffered %s holds %r (%d bytes), expected %r (%d bytes)" % (now[0], cstream.show_op(c["ops"][now[0]]), f, *diff(d, b)))
            return rd0(*a)
        h.fd_read = read

        def mark(idx, p):
            j = idx - 1
            now[0] = idx
            if j in want:
                seen[j] = {f: cstream.disk(h, f) for f in want[j]}
            orig(idx, p)
            if idx == c.get("eat"):
                h.w64(p, 77)        # the program uses all memory up now
        h.clock_res_get = mark
        x = h.run(mod, memlimit=1 << 29 if c.get("eat") is None else 1 << 21)
        ans = split_answers(h.get("/ans") or b"")
        ops, exps = c["ops"], c["exps"]
        n = len(exps)
        if x.status != c["code"]:
            return "program ends with %s %s (status %d expected, %d answers of %d)" % (x.status, x.detail[:300], c["code"], len(ans), n)
        if len(ans) < n:
            return "only %d answers of %d" % (len(ans), n)
        for i in range(n):
            e, o = exps[i], ops[i]
            rd = Rd(ans[i])
            r, no, dead, st = rd.i32(), rd.i32(), rd.u8(), rd.u8()
            d, bad = rd.blk(), rd.u8()
            w = "op %d %s: " % (i, cstream.show_op(o))
            if bad:
                return w + "memory behind a buffer was changed"
            if dead:
                return w + "stream is closed"
            if not match(r, e["r"]):
                return w + "returned %d, expected %s" % (r, e["r"])
            if e["no"] and no != cstream.whost.E[e["no"]]:
                return w + "errno %d, expected E%s" % (no, e["no"])
            ed = e["d"]
            if isinstance(ed, tuple):
                if d[:len(ed[0])] != ed[0]:
                    return w + "data %r, expected %r" % (d[:80], ed[0][:80])
            elif ed is not None and d != ed:
                return w + "data %r, expected %r" % (d[:80], ed[:80])
            es = e.get("st")
            if isinstance(es, tuple):
                if (st | 1) != (es[0] | 1):
                    return w + "error indicator: %d, expected %d" % (st, es[0])
            elif es is not None and st != es:
                return w + "end-of-file/error indicators %d, expected %d (1 end of file, 2 error, 9 closed)" % (st, es)
            if i in want and i in seen:
                for f in want[i]:
                    if seen[i][f] != want[i][f]:
                        return w + "file %s holds %r (%d bytes) then, expected %r (%d bytes)" % (f, *diff(seen[i][f], want[i][f]))
        if late:
            return late[0]
        for f, v in c["final"].items():
            b = cstream.disk(h, f)
            if b != v:
                return "after exit file %s holds %r (%d bytes), expected %r (%d bytes)" % (f, *diff(b, v))
        return None


def diff(a, b):
    a = a if a is not None else b""
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    i = max(0, i - 8)
    return (b"..%d.." % i + a[i:i + 40], len(a), b"..%d.." % i + b[i:i + 40], len(b))


class Std(Streams):
    name, quick, thorough, batch = "standard streams", 2500, 60000, 40
    std = True


class Many(Streams):
    name, quick, thorough, batch = "many streams", 600, 20000, 40
    many = True
    nmax = 150


FAMILIES = [Streams(), Std(), Many()]
