"""Descriptor, name and directory calls on a host that fails: one call of a
history is hit; it must report that, and everything else must go on as if it
had not been made (or, where the host did the work, as if it had)."""
import os
import shutil

from . import cfs, whost
from .clib import Rd, split_answers, u32
from .cfs import W, WN
from .whost import E

ERRS = [E[n] for n in ("IO", "NOSPC", "INTR", "AGAIN", "DQUOT", "NOMEM", "NXIO", "BUSY", "PERM", "ACCES", "OVERFLOW", "MFILE", "NOTSUP", "ROFS", "NOTCAPABLE", "FBIG", "INVAL", "TXTBSY")]
MAPPED = {("read", 76): (8,), ("write", 76): (8,), ("pread", 76): (8, 70), ("pwrite", 76): (8, 70), ("lseek", 76): (70,), ("fdatasync", 76): (8,), ("fsync", 76): (28,)}
LISTS = ("opendir", "opendirat", "fdopendir", "scandir", "scandirat")


def history(s):
    c = cfs.history(s, False)
    c["pick"] = s.draw(len(c["ops"]) - 1) if c["ops"] else 0
    c["nth"] = s.weighted([(8, 0), (2, 1), (2, lambda: s.draw(8))])
    c["nth"] = c["nth"]() if callable(c["nth"]) else c["nth"]
    c["act"] = ["eat"] if s.bool(1, 6) else ["short", s.int(0, 40)] if s.bool(1, 8) else ["err", s.choice(ERRS)]
    return c


class Fault:
    def __init__(self, k, nth, act):
        self.k, self.left, self.act = k, nth, act
        self.op, self.hit, self.name = None, False, None

    def __call__(self, i, name, args, h):
        if self.hit or self.op != self.k or name == "clock_res_get" or name == "fd_write" and args[0] == 1:
            return None
        if self.left:
            self.left -= 1
            return None
        if self.act[0] == "short":
            if name not in ("fd_read", "fd_write", "fd_pread", "fd_pwrite") or self.act[1] == 0 and name != "fd_read":
                return None
        elif name == "fd_prestat_get" and self.act[1] == E["BADF"]:
            return None
        self.hit, self.name = True, name
        if name == "fd_close":
            try:
                h.fd_close(*args)
            except whost.Err:
                pass
        return tuple(self.act)


def shortened(o, n):
    r = list(o)
    if o[0] in ("read", "pread"):
        r[2] = min(o[2], n)
    else:
        r[2] = o[2][:n]
    return tuple(r)


def run(ctx, c, tol):
    mod = cfs.build(ctx)
    if not c["ops"]:
        return "discard"
    ops, res, want, base = cfs.reference(ctx, c, False)
    shutil.rmtree(base)
    if not ops:
        return "discard"
    k = c["pick"] % len(ops)
    o, act = ops[k], c["act"]
    if act[0] == "eat":
        return eat(mod, c, ops, res, want, k, tol)
    if act[0] == "short":
        # the nearest call that transfers data
        ks = [i for i, x in enumerate(ops) if x[0] in ("read", "write", "pread", "pwrite")]
        if not ks:
            return "discard"
        k = ks[c["pick"] % len(ks)]
        o = ops[k]
        put = [shortened(o, act[1])]
    else:
        put = [o] if o[0] == "close" else []
    c2 = dict(c, ops=ops[:k] + put + ops[k + 1:])
    ops2, res2, want2, base = cfs.reference(ctx, c2, False)
    shutil.rmtree(base)
    if ops2[:k + len(put)] != ops[:k] + put:
        return "discard"
    seq = ops2[:k] + [o] + ops2[k + len(put):]
    exp = res2[:k] + [res2[k] if put else None] + res2[k + len(put):]
    fin = cfs.finals(c2, want2)
    h = whost.Host(files=c["files"], stdin=b"\1" + b"".join(cfs.enc(x) for x in seq + [q for _, q in fin]), preopens=c["pre"], fault=Fault(k, c["nth"], act))

    def mark(idx, p):
        h.fault.op = idx
        h.w64(p, 1)
    h.clock_res_get = mark
    x = h.run(mod)
    f = h.fault
    if not f.hit or o[0] == "remove" and f.name == "path_unlink_file" and act[1] == 76:
        # (this refusal is taken for "is a directory", whose removal then decides)
        return "discard"
    out = bytes(h.outs[1])
    ans = split_answers(out)
    if len(ans) <= k:
        return "op %d %s: no answer; program ends with %s %s" % (len(ans), cfs.show_op(seq[len(ans)]), x.status, x.detail[:300])
    if act[0] == "err":
        v = hit(o, f, act[1], ans[k], res[k], tol)
        if v:
            return "op %d %s, %s failing with %s: %s" % (k, cfs.show_op(o), f.name, WN.get(act[1], act[1]), v)
        exp[k] = None
    for i, (q, w) in enumerate(zip(seq, exp)):
        if i >= len(ans):
            return "op %d %s: no answer; program ends with %s %s" % (i, cfs.show_op(q), x.status, x.detail[:300])
        if w is None:
            continue
        v = cfs.judge(q, w, ans[i], tol)
        if v:
            return "op %d %s: %s (op %d was hit by %s at %s)" % (i, cfs.show_op(q), v, k, act, f.name)
    if x.status != 0:
        return "program ends with %s %s" % (x.status, x.detail[:300])
    v = cfs.difftree(cfs.htree(h.root), want2)
    if not v:
        for (p, q), b in zip(fin, ans[len(seq):]):
            n = h.look(p)
            v = v or cfs.judge_final(q, b, (n.kind, len(n.data), n.nlink, n.ino, 1, n.times))
    if not v and len(h.fds) != 3 + len(c["pre"]) + c2["left"]:
        v = "%d descriptors are open at the end, expected %d" % (len(h.fds), 3 + len(c["pre"]) + c2["left"])
    return v and "%s (op %d %s was hit by %s at %s)" % (v, k, cfs.show_op(o), act, f.name)


def hit(o, f, e, a, want, tol):
    """the answer of the call that was hit"""
    n = o[0]
    rd = Rd(a)
    r, no = rd.i64(), rd.i32()
    rd.u32()
    ok = (e,) + MAPPED.get((n, e), ())
    if n in ("pread", "pwrite") and f.name == "fd_fdstat_get":
        ok += (76,)         # asked only to explain an earlier refusal
    if no in (8888, 8887):
        return "memory behind a buffer was changed"
    if n in ("posix_fadvise", "posix_fallocate"):
        return None if r in ok else "returned %d" % r
    if n == "isatty":
        return None if r == 0 and no in ok else "returned %d, errno %d" % (r, no)
    if n in LISTS:
        if f.name == "fd_close":
            if n in ("scandir", "scandirat"):
                return cfs.judge(o, want, a, tol) if r >= 0 else None
            return None if r == -1 else "closing returned %d" % r
        if r >= 0 and n[0] != "s" and f.name == "fd_readdir":
            # the listing was cut short: some phase must say so, or the first one is cut
            first = cfs.entries(rd)
            es = []
            for _ in range(3):
                cfs.entries(rd)
                es.append(rd.i32())
            if want[1] is None and (any(x in (e, 9999) for x in es) or len(first) < min(want[2][2], len(want[2][1]))):
                return None
            return "the listing did not report it: %s" % es
    if r != -1:
        return "returned %d, not failure" % r
    if no not in ok:
        return "errno %s (%d)" % (WN.get(no, no), no)
    return None


def eat(mod, c, ops, res, want, k, tol):
    """no memory from some call on: only listings may fail, saying so"""
    fin = cfs.finals(c, want)
    h = whost.Host(files=c["files"], stdin=b"\1" + b"".join(cfs.enc(x) for x in ops + [q for _, q in fin]), preopens=c["pre"])
    at = []
    known = []
    prestat = h.fd_prestat_get

    def fd_prestat_get(fd, p):
        if fd == 3 + len(c["pre"]):
            known.append(True)      # all granted directories are known to the program
        prestat(fd, p)

    def mark(idx, p):
        go = idx >= k and known and not at
        if go:
            at.append(idx)
        h.w64(p, 77 if go else 1)
    h.fd_prestat_get, h.clock_res_get = fd_prestat_get, mark
    x = h.run(mod, memlimit=1 << 21)
    if not at or at[0] >= len(ops):
        return "discard"
    ans = split_answers(bytes(h.outs[1]))
    for i, (q, w) in enumerate(zip(ops, res)):
        if i >= len(ans):
            return "op %d %s: no answer; program ends with %s %s (no memory from op %d on)" % (i, cfs.show_op(q), x.status, x.detail[:300], at[0])
        v = cfs.judge(q, w, ans[i], tol)
        if v and i >= at[0] and q[0] in LISTS:
            rd = Rd(ans[i])
            r, no = rd.i64(), rd.i32()
            rd.u32()
            if r == -1 and no == E["NOMEM"]:
                continue
            if r >= 0 and q[0][0] != "s":
                first = cfs.entries(rd)
                es = [(cfs.entries(rd), rd.i32())[1] for _ in range(3)]
                if E["NOMEM"] in es or 9999 in es or len(first) < min(w[2][2], len(w[2][1])):
                    continue
        if v:
            return "op %d %s: %s (no memory from op %d on)" % (i, cfs.show_op(q), v, at[0])
    if x.status != 0:
        return "program ends with %s %s" % (x.status, x.detail[:300])
    v = cfs.difftree(cfs.htree(h.root), want)
    if not v and len(h.fds) != 3 + len(c["pre"]) + c["left"]:
        v = "%d descriptors are open at the end, expected %d" % (len(h.fds), 3 + len(c["pre"]) + c["left"])
    return v
