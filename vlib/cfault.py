"""Stream histories on a host that fails: the judge keeps the set of ideal
states that are consistent with what the program was told."""
import copy

from . import cstream
from .clib import Rd, split_answers
from .cstream import S, Model
from .whost import E

ERRS = [E[n] for n in ("IO", "NOSPC", "FBIG", "INTR", "AGAIN", "DQUOT", "PIPE", "INVAL", "NOMEM", "NXIO", "BUSY", "PERM", "ACCES", "OVERFLOW")]
WRITES = ("putc", "fputc", "fputs", "fwrite", "fprintf", "puts", "putchar")
READS = ("getc", "fgetc", "fgets", "fread", "fscanf %d", "fscanf %7s", "getchar")


class Stop(Exception):
    """the rest of the history is not defined"""


def history(s):
    """a mostly sequential history of one stream at a time, and the faults"""
    kind = s.weighted([(6, "file"), (1, "stdout"), (1, "stdin"), (1, "stderr")])
    files = {"/sub": None}
    for f in cstream.FILES[:3]:
        if s.bool(3, 4):
            files[f] = cstream.some(s, s.choice([0, 5, 30, 80, 200, 1100, 2500]))
    stdin = cstream.some(s, s.choice([5, 30, 80, 1100, 2500])) if kind == "stdin" else b""
    tty = kind in ("stdin", "stdout") and s.bool(1, 3)
    m = Model(files, stdin, tty)
    k = {"file": 3, "stdin": 0, "stdout": 1, "stderr": 2}[kind]
    ops = []
    for _ in s.many(3, 30, 25):
        st = m.s.get(k)
        if st is None:
            if k != 3:
                break
            o = cstream.opening(s, m, k, "fopen")
        else:
            o = cstream.pick_op(s, m, k)
            if o[0] == "freopen" and (st.last == "w" or k < 3):
                continue
            if o[0] == "fclose" and len(ops) < 8 and s.bool(2, 3):
                continue
            if o[0] in ("fgets", "fread", "fwrite", "fputs", "fprintf", "puts") and s.bool(2, 3):
                # smaller amounts: more calls in a history
                n = s.int(1, 40)
                o = {"fgets": lambda: (o[0], k, n + 1), "fread": lambda: (o[0], k, *((n, 1) if s.bool(1, 4) else (1, n))),
                     "fwrite": lambda: (o[0], k, *((3, n // 3) if s.bool(1, 4) else (1, n)), cstream.some(s, n + 3)),
                     "fputs": lambda: (o[0], k, cstream.some(s, n).replace(b"\0", b"z")), "puts": lambda: (o[0], k, cstream.some(s, n).replace(b"\0", b"z")),
                     "fprintf": lambda: (o[0], k, cstream.some(s, n).replace(b"\0", b"z"), s.int(-9, 99))}[o[0]]()
        x = m.step(o)
        if x["r"] == "any":
            break
        ops.append(o)
    code = None
    if s.bool(1, 2):
        code = s.choice([0, 7])
        ops.append(("exit", 255, code))
    plan = []
    storm = s.weighted([(5, None), (2, 1), (1, 3), (1, 7)])      # every transfer is short
    cap = s.int(0, 2500) if s.bool(1, 6) else None              # the disk is full
    if s.bool(9, 10) or storm is None and cap is None:
        for _ in s.many(1, 3, 2):
            cls = s.weighted([(5, "fd_write"), (3, "fd_read"), (2, "fd_seek"), (1, "path_open"), (1, "fd_close"), (2, "any")])
            act = ("short", s.int(0, 40)) if s.bool(1, 4) else ("err", s.choice(ERRS))
            plan.append((cls, s.weighted([(6, lambda: s.draw(3)), (1, lambda: s.draw(12))])(), act))
    return dict(files=files, stdin=stdin, tty=tty, ops=ops, plan=plan, storm=storm, cap=cap, k=k, code=code or 0)


class Faults:
    """decides about each host call; remembers what was done to which operation"""

    def __init__(self, c):
        self.c = c
        self.op = None
        self.i = 0
        self.skip = c["plan"][0][1] if c["plan"] else 0
        self.hit = {}       # op -> [(name, errno or None when nothing was transferred)]
        self.shorts = 0

    def __call__(self, i, name, args, h):
        if self.op is None or name in ("clock_res_get", "fd_fdstat_get", "fd_fdstat_set_flags") or name.startswith("fd_") and args[0] == self.ans:
            return None
        plan = self.c["plan"]
        if self.i < len(plan) and plan[self.i][0] in (name, "any"):
            if self.skip:
                self.skip -= 1
            else:
                act = plan[self.i][2]
                self.i += 1
                self.skip = plan[self.i][1] if self.i < len(plan) else 0
                if act[0] == "err":
                    self.hit.setdefault(self.op, []).append((name, act[1]))
                    return act
                if name == "fd_write" or name == "fd_read" and act[1] > 0:
                    self.shorts += 1
                    if act[1] == 0:
                        self.hit.setdefault(self.op, []).append((name, None))
                    return act
        if name == "fd_write" and self.c["cap"] is not None:
            d = h.fds.get(args[0])
            if d is not None:
                have = len(d.node.data) if d.node is not None else len(h.outs[d.stream])
                room = self.c["cap"] - have
                if room <= 0:
                    self.hit.setdefault(self.op, []).append((name, E["NOSPC"]))
                    return ("err", E["NOSPC"])
                return ("short", room)
        if self.c["storm"] and name in ("fd_read", "fd_write"):
            self.shorts += 1
            return ("short", self.c["storm"])
        return None


def run(mod, c, memlimit=1 << 29):
    f = Faults(c)
    h = cstream.host_for(c, fault=f)
    k = c["k"]
    poss, disks, nfds = {}, {}, {}
    h.last = None
    po = h.path_open

    def path_open(*a):
        po(*a)
        h.last = int.from_bytes(h.rd(a[-1], 4), "little")
    h.path_open = path_open

    def mark(idx, p):
        if idx == 0:
            f.ans = h.last
        f.op = idx
        d = h.fds.get(k if k < 3 else h.last)
        poss[idx] = d.pos if d is not None else None
        nfds[idx] = len(h.fds)
        o = c["ops"][idx - 1] if 0 < idx <= len(c["ops"]) else None
        if o and o[0] in ("fflush", "fclose", "fseek", "fsetpos") + WRITES:
            disks[idx] = {n: cstream.disk(h, n) for n in [*cstream.FILES[:8], "<1>", "<2>"]}
        h.w64(p, 1)
    h.clock_res_get = mark
    x = h.run(mod, memlimit=memlimit)
    return h, f, x, poss, disks, nfds


def clone(m):
    n = copy.copy(m)
    n.files = {k: bytearray(v) for k, v in m.files.items()}
    n.s = {k: copy.copy(v) for k, v in m.s.items()}
    for v in n.s.values():
        if v is not None:
            v.pb = list(v.pb)
    n.marks = dict(m.marks)
    return n


def state(m, k):
    s = m.s.get(k)
    return (tuple(sorted((f, bytes(b)) for f, b in m.files.items())), None if s is None else (s.name, s.pos, tuple(s.pb), s.eof, s.err, s.last, s.eofunk))


def dedupe(ms, k):
    r, seen = [], set()
    for m in ms:
        t = state(m, k)
        if t not in seen:
            seen.add(t)
            r.append(m)
    return r


def match(r, want):
    if want is None:
        return True
    if want == "nonneg":
        return r >= 0
    if want == "nonzero":
        return r != 0
    if want == "eofany":
        return r in (0, -1)
    return r == want


def judge(c, res):
    h, f, x, poss, disks, nfds = res
    k = c["k"]
    ans = split_answers(h.get("/ans") or b"")
    cands = [Model(c["files"], c["stdin"], c["tty"])]
    try:
        for i, o in enumerate(c["ops"]):
            if o[0] == "exit":
                break
            w = "op %d %s: " % (i, cstream.show_op(o))
            if i >= len(ans):
                # a missing answer: the program ended early
                return w + "no answer; program ends with %s %s" % (x.status, x.detail[:300])
            v = one(c, i, o, ans[i], cands, f.hit.get(i, []), h, poss, disks, nfds, k)
            if isinstance(v, str):
                return w + v
            cands = v
            if len(cands) > 4000:
                raise Stop
    except Stop:
        return None
    if x.status != c["code"]:
        return "program ends with %s %s (status %d expected)" % (x.status, x.detail[:300], c["code"])
    end = [n for j in f.hit if j >= len(c["ops"]) - (1 if c["ops"] and c["ops"][-1][0] == "exit" else 0) for n in f.hit[j]]
    if any(n[0] == "fd_write" for n in end):
        return None         # could not be reported any more
    want = None
    for m in cands:
        bad = [(n, v) for n, v in m.files.items() if n != "<0>" and bytes(v) != cstream.disk(h, n)]
        if not bad:
            return None
        want = bad[0]
    return "after exit file %s holds %r, expected %r (%d possibilities)" % (want[0], (cstream.disk(h, want[0]) or b"")[-60:], bytes(want[1])[-60:], len(cands))


def one(c, i, o, a, cands, hits, h, poss, disks, nfds, k):
    n = o[0]
    rd = Rd(a)
    r, no, dead, st = rd.i32(), rd.i32(), rd.u8(), rd.u8()
    d, bad = rd.blk(), rd.u8()
    if bad:
        return "memory behind a buffer was changed"
    s0 = cands[0].s.get(k)
    if n not in ("fopen", "fdopen") and s0 is None:
        if dead:
            return cands
        raise Stop
    # the history was made for a host that does not fail
    ncand = len(cands)
    if n in READS or n == "ungetc":
        cands = [m for m in cands if cstream.readable(m, m.s[k])]
    elif n in WRITES:
        cands = [m for m in cands if cstream.writable(m, m.s[k])]
    elif n in ("setvbuf", "setbuf"):
        cands = [m for m in cands if m.s[k].fresh]
    elif n == "fsetpos":
        cands = [m for m in cands if o[2] in m.marks and m.marks[o[2]][0] == m.s[k].name]
    elif n in ("fgetpos", "ftell") or n == "fseek" and o[3] == 1:
        cands = [m for m in cands if m.s[k].reportable() or not m.s[k].seekable]
    elif n in ("fopen", "fdopen") and s0 is not None:
        raise Stop
    if n in ("ungetc", "fflush"):       # flushing input is not defined by C
        cands = [m for m in cands if not m.s[k].pb]
    if len(cands) < ncand:
        raise Stop
    errs = [e for _, e in hits]
    if not hits:
        ok, why = [], None
        for m in cands:
            m = clone(m)
            e = m.step(o)
            if e["r"] == "any":
                raise Stop
            t = compare(e, r, no, st, d)
            if t is None and i + 1 in disks:
                t = ondisk(m, n, o, k, disks[i + 1], r)
            if t is None:
                ok.append(m)
            elif why is None:
                why = t
        return dedupe(ok, k) if ok else why + (" (%d possibilities)" % len(cands) if len(cands) > 1 else "")

    kinds = {x for x, _ in hits}
    told = "host call%s %s failed: " % ("s" if len(hits) > 1 else "", ", ".join("%s (errno %s)" % t for t in hits))

    def errno_ok():
        return None in errs or no in errs

    if n in ("fopen", "freopen", "fdopen"):
        if n != "fopen":
            raise Stop
        if r != 0:
            return told + "fopen succeeded"
        if not errno_ok():
            return told + "errno %d" % no
        if "fd_close" not in kinds and nfds.get(i + 1) is not None and nfds[i + 1] != nfds[i]:
            return told + "a descriptor is left open"
        out = []
        for m in cands:
            m = clone(m)
            if "path_open" not in kinds:
                m.open(o[2], o[3])
            out.append(m)
        return dedupe(out, k)
    if n == "fclose":
        if r == 0:
            return told + "fclose succeeded"
        if not errno_ok():
            return told + "errno %d" % no
        if "fd_write" in kinds:
            # what was not written is lost, but this was reported: the file holds what the host took
            m = clone(cands[0])
            nm = m.s[k].name
            b = disks[i + 1].get(nm) or b""
            if m.s[k].app and not any(bytes(y.files[nm]).startswith(b) for y in cands):
                return told + "file %s holds %r, which is not a prefix of what was written" % (nm, b[-60:])
            m.files[nm] = bytearray(b)
            m.s[k] = None
            return [m]
        out = []
        for m in cands:
            m = clone(m)
            m.s[k] = None
            out.append(m)
        return dedupe(out, k)
    if n in READS:
        if kinds != {"fd_read"}:
            raise Stop
        if n in ("getc", "fgetc", "getchar"):
            if r != -1:
                return told + "returned %d" % r
        elif n == "fgets":
            if r != 0:
                return told + "fgets succeeded"
        if not st & 2:
            return told + "the error indicator is not set"
        if n not in ("fscanf %d", "fscanf %7s") and not errno_ok():
            return told + "errno %d" % no
        out, why = [], None
        for m in cands:
            m = clone(m)
            s = m.s[k]
            pos = poss[i + 1]
            dl = bytes(reversed(s.pb)) + bytes(m.files[s.name][s.pos:pos])
            s.pb, s.last, s.fresh, s.err = [], "r", False, True
            t = None
            if pos < s.pos:
                t = "read again what was delivered"
            elif n in ("getc", "fgetc", "getchar") and dl:
                t = "lost %r" % dl
            elif n == "fread":
                if r * o[2] > len(dl) or d[:r * o[2]] != dl[:r * o[2]]:
                    t = "returned %d, data %r, the host delivered %r" % (r, d[:40], dl[:40])
                elif len(dl) - r * o[2] >= o[2]:
                    t = "returned %d, but the host delivered %r" % (r, dl[:40])
            elif n == "fgets" and (len(dl) >= o[2] - 1 or b"\n" in dl):
                t = "lost %r" % dl
            if t is None and bool(st & 1) != s.eof:
                t = "end-of-file indicator %d" % (st & 1)
            s.pos = pos
            if t is None:
                out.append(m)
                if n.startswith("fscanf") and dl:
                    m = clone(m)
                    m.s[k].pb = [dl[-1]]
                    out.append(m)
            elif why is None:
                why = t
        return dedupe(out, k) if out else told + why
    if n in WRITES:
        if kinds - {"fd_write"}:
            raise Stop
        b = bytes([o[2] & 255]) if n in ("putc", "fputc", "putchar") else o[2] + b"\n" if n == "puts" else o[4][:o[2] * o[3]] if n == "fwrite" else o[2] + b"<%d>" % o[3] if n == "fprintf" else o[2]
        low = 0
        if n == "fwrite":
            if not 0 <= r < o[3]:
                return told + "fwrite returned %d" % r
            low = r * o[2]
        elif r >= 0:
            return told + "returned %d" % r
        if not st & 2:
            return told + "the error indicator is not set"
        if not errno_ok():
            return told + "errno %d" % no
        out = []
        dk = disks.get(i + 1)
        if len(cands) * (len(b) + 1 - low) > 3000:
            raise Stop
        for m in cands:
            for j in range(low, len(b) + 1):
                m2 = clone(m)
                s = m2.s[k]
                m2.write(s, b[:j])
                s.last, s.fresh, s.err = "w", False, True
                if s.app and dk is not None and not bytes(m2.files[s.name]).startswith(dk.get(s.name) or b""):
                    continue
                out.append(m2)
        out = dedupe(out, k)
        if not out:
            return told + "the file holds what was not written"
        return out
    # positioning, flushing
    if n in ("fseek", "fsetpos", "fgetpos", "fflush", "ftell"):
        if n == "fflush" and r == 0 and kinds == {"fd_seek"} and all(m.s[k].last != "w" for m in cands):
            pass            # flushing input is up to the library; the stream has to stay consistent
        elif r == 0 and n != "ftell" or n == "ftell" and r != -1:
            return told + "%s returned %d" % (n, r)
        elif not errno_ok():
            return told + "errno %d" % no
        if "fd_write" in kinds and not st & 2:
            return told + "the error indicator is not set"
    elif n != "rewind":
        raise Stop
    out = []
    for m in cands:
        m = clone(m)
        s = m.s[k]
        if "fd_write" in kinds:
            s.err = True
        if n == "rewind":
            s.err = False
        out.append(m)
        if n == "rewind" and "fd_write" not in kinds:
            pass
        if s.pb:
            m = clone(m)
            m.s[k].pb = []
            out.append(m)
    if n == "rewind":
        # may have worked in spite of the failure of a first attempt
        for m in list(out):
            m2 = clone(m)
            m2.step(o)
            out.append(m2)
    return dedupe(out, k)


def compare(e, r, no, st, d):
    if not match(r, e["r"]):
        return "returned %d, expected %s" % (r, e["r"])
    if e["no"] and no != E[e["no"]]:
        return "errno %d, expected E%s" % (no, e["no"])
    ed = e["d"]
    if isinstance(ed, tuple):
        if d[:len(ed[0])] != ed[0]:
            return "data %r, expected %r" % (d[:80], ed[0][:80])
    elif ed is not None and d != ed:
        return "data %r, expected %r" % (d[:80], ed[:80])
    es = e.get("st")
    if isinstance(es, tuple):
        if (st | 1) != (es[0] | 1):
            return "error indicator: %d, expected %d" % (st, es[0])
    elif es is not None and st != es:
        return "end-of-file/error indicators %d, expected %d (1 end of file, 2 error, 9 closed)" % (st, es)
    return None


def ondisk(m, n, o, k, dk, r):
    """what must be in the file after an operation that succeeded"""
    s = m.s.get(k)
    names = []
    if n == "fclose":
        names = [f for f in m.files if f != "<0>"]
    elif s is not None and s.wr and (n in ("fflush", "fseek", "fsetpos") and r == 0 or s.buf == 2):
        names = [s.name]
    for f in names:
        if f in dk and (dk[f] or b"") != bytes(m.files[f]):
            b = dk[f] or b""
            return "file %s then holds %r (%d bytes), expected %r (%d bytes)" % (f, b[-50:], len(b), bytes(m.files[f])[-50:], len(m.files[f]))
    return None


def show(c):
    r = [cstream.show(c)]
    for t in c["plan"]:
        r.append("fault: %s, after %d of them: %s %d" % (t[0], t[1], "fails with errno" if t[2][0] == "err" else "transfers at most", t[2][1]))
    if c["storm"]:
        r.append("every transfer is limited to %d bytes" % c["storm"])
    if c["cap"] is not None:
        r.append("files are limited to %d bytes" % c["cap"])
    return "\n".join(r)
