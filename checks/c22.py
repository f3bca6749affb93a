"""C22: the file system as seen by programs."""
import os
import shutil
import stat

from vlib import cfs, clib, core, whost
from vlib.check import Family

TECHNIQUE = "stateful property-based testing against the same history performed directly on the host"
RULE = ("Random histories of descriptor, name and directory calls (41 functions, paths spelled in varying ways through one to three granted directories, relative to directory "
        "descriptors, symbolic and hard links, existing, missing and conflicting names, invalid arguments) are performed by a compiled program and, directly with the host's own calls, "
        "in a second directory; every result, error code, data, listing and the final trees must be equal. Family 'native' runs on wasmtime's WASI over real files, family 'emulated' on a "
        "WASI host in Python with an in-memory file system, where descriptors left open show as well. Family 'kinds' gives standard descriptors and files every kind and right and compares isatty, the S_IS tests of fstat and lstat, readdir's types and stdout's buffering with a table. "
        "Non-trivial: at least three calls that are comparable, one of which changes the tree or a file; distinct by history.")
ASSUMPTIONS = ["calls whose lookup leaves the granted directories are left out (the sandbox refuses them on purpose)",
               "permission bits do not exist in WASI; the checks run with all permissions",
               "where WASI hosts report another error code than Linux for the same refusal, both are accepted (table TOL)"]
# with two names, or a name and descriptors, hosts differ in what they look at first
TOL = {(n, "*", "*") for n in ("link", "linkat", "rename", "renameat")}


class Fs(Family):
    def setup(self, ctx):
        cfs.build(ctx)

    def nontrivial(self, c, tags):
        return len(c["ops"]) >= 3 and any(o[0] in ("open", "mkdir", "write", "rename", "unlink", "link", "symlink", "remove", "mkdirat", "pwrite", "ftruncate") for o in c["ops"])

    def key(self, c):
        return repr((sorted(c["files"].items(), key=lambda x: x[0]), c["pre"], c["ops"]))

    def show(self, c):
        return cfs.show(c)


class Native(Fs):
    name, quick, thorough, batch = "native", 3000, 80000, 30

    def gen(self, s):
        return cfs.history(s, True)

    def run(self, ctx, cases):
        mod = cfs.build(ctx)
        return [self.one(ctx, mod, c) for c in cases]

    def one(self, ctx, mod, c):
        ops, res, want, base = cfs.reference(ctx, c, True)
        root = os.path.join(base, "got")
        os.makedirs(root)
        cfs.populate(root, c["files"])
        fin = cfs.finals(c, want)
        x = clib.run_module(mod, ctx.sc.dir, stdin=b"\0" + b"".join(cfs.enc(o) for o in ops + [q for _, q in fin]), preopen=[(os.path.join(root, h) if h else root, g) for g, h in c["pre"]])
        v = cfs.check(c, ops, res, x.out, x, TOL)
        if not v:
            ans = clib.split_answers(x.out)[len(ops):]
            for (p, o), b in zip(fin, ans):
                if os.path.lexists(root + p):
                    st = os.lstat(root + p)
                    v = v or cfs.judge_final(o, b, (cfs.KIND[stat.S_IFMT(st.st_mode)], st.st_size, st.st_nlink, None, None, (st.st_atime_ns, st.st_mtime_ns, None)))
        v = v or cfs.difftree(cfs.tree(root), want)
        shutil.rmtree(base)
        return v


class Emulated(Fs):
    name, quick, thorough, batch = "emulated", 3000, 80000, 30

    def gen(self, s):
        return cfs.history(s, False)

    def run(self, ctx, cases):
        mod = cfs.build(ctx)
        return [self.one(ctx, mod, c) for c in cases]

    def one(self, ctx, mod, c):
        ops, res, want, base = cfs.reference(ctx, c, False)
        shutil.rmtree(base)
        fin = cfs.finals(c, want)
        h = whost.Host(files=c["files"], stdin=b"\1" + b"".join(cfs.enc(o) for o in ops + [q for _, q in fin]), preopens=c["pre"])
        x = h.run(mod)
        v = cfs.check(c, ops, res, bytes(h.outs[1]), x, TOL) or cfs.difftree(cfs.htree(h.root), want)
        if v:
            return v
        for (p, o), b in zip(fin, clib.split_answers(bytes(h.outs[1]))[len(ops):]):
            n = h.look(p)
            v = v or cfs.judge_final(o, b, (n.kind, len(n.data), n.nlink, n.ino, 1, n.times))
        if not v and len(h.fds) != 3 + len(c["pre"]) + c["left"]:
            v = "%d descriptors are open at the end, expected %d" % (len(h.fds), 3 + len(c["pre"]) + c["left"])
        return v


class Granted(Fs):
    """directories granted with fewer rights"""
    name, quick, thorough, batch = "granted", 2000, 60000, 100
    BITS = {1: whost.R_READ, 2: whost.R_WRITE, 4: whost.R_READDIR}
    FILES = {"/a": None, "/a/f": b"text", "/a/d": None, "/a/d/g": b"more", "/a/d/e": None, "/b": None, "/b/f": b"", "/b/d": None, "/b/l": "f"}
    NAMES = ["f", "d", "d/g", "d/e", "none", "d/none", "l", "f/x", "./f", "d/../f"]

    def gen(self, s):
        inh = [s.choice([7, 7, 5, 2, 3, 6, 1, 4, 0]) for _ in range(2)]
        ops = []
        for _ in s.many(2, 12, 5):
            k = s.draw(5)
            p = ("/a/", "/b/")[s.draw(1)] + s.choice(self.NAMES)
            fl = s.choice([cfs.RD, cfs.WR, cfs.RW, cfs.RD | cfs.DI])
            if k <= 2:
                ops.append(("access", p, s.choice([0, 1, 2, 3, 8, 9, 10, 11])))
            elif k == 3:
                ops.append(("open", s.draw(3), p, fl))
            elif k == 4:
                ops.append(("openat", s.draw(3), s.draw(3), s.choice(["g", "e", "f", "none"]), fl))
            else:
                ops.append(("F_GETFL", s.draw(3)))
        return {"files": self.FILES, "pre": [("/a", "/a", inh[0]), ("/b", "/b", inh[1])], "ops": ops}

    def nontrivial(self, c, tags):
        return any(i[2] != 7 for i in c["pre"])

    def show(self, c):
        return "granted (1 read, 2 write, 4 list): %s\n" % c["pre"] + "\n".join("  " + cfs.show_op(o) for o in c["ops"])

    def model(self, c):
        tree = {p: (None if v is None else v) for p, v in self.FILES.items()}
        fds, res = {}, []

        def find(p):
            """(node path, error)"""
            out = []
            for w in p.split("/"):
                if w in ("", "."):
                    continue
                cur = "/" + "/".join(out)
                if out and tree[cur] is not None:
                    return None, "ENOTDIR"
                if w == "..":
                    out.pop()
                    continue
                out.append(w)
                n = "/" + "/".join(out)
                if n not in tree:
                    return None, "ENOENT"
                if isinstance(tree[n], str):
                    out[-1] = tree[n]
            return "/" + "/".join(out), None

        def do_open(slot, p, fl, inh):
            old = fds.pop(slot, None)
            n, e = find(p)
            need = (1 if fl & (cfs.RD | cfs.RW) else 0) | (2 if fl & (cfs.WR | cfs.RW) else 0)
            if need & ~inh:
                return -1, "ENOTCAPABLE" + ("|" + e if e else ""), None
            if e:
                return -1, e, None
            isdir = tree[n] is None
            if fl & cfs.DI and not isdir:
                return -1, "ENOTDIR", None
            if isdir and need & 2:
                return -1, "EISDIR", None
            fds[slot] = (n, fl, inh)
            return 1, None, None
        for o in c["ops"]:
            if o[0] == "access":
                n, e = find(o[1])
                m = o[2]
                inh = c["pre"][0 if o[1].startswith("/a") else 1][2]
                if e:
                    res.append((-1, e, None))
                    continue
                need = ((4 if tree[n] is None else 1) if m & 1 else 0) | (2 if m & 2 else 0)
                res.append((-1, "EACCES", None) if need & ~inh else (0, None, None))
            elif o[0] == "open":
                res.append(do_open(o[1], o[2], o[3], c["pre"][0 if o[2].startswith("/a") else 1][2]))
            elif o[0] == "openat":
                d = fds.get(o[2])
                if d is None:
                    fds.pop(o[1], None)
                    res.append((-1, "EBADF", None))
                elif tree[d[0]] is not None:
                    fds.pop(o[1], None)
                    res.append((-1, "ENOTDIR|ENOTCAPABLE", None))
                else:
                    res.append(do_open(o[1], d[0] + "/" + o[3], o[4], d[2]))
            else:
                d = fds.get(o[1])
                if d is None:
                    res.append((-1, "EBADF", None))
                else:
                    res.append((("getfl", 4 if d[1] & cfs.RW else d[1] & 3, 0), None, None))
        return res

    def run(self, ctx, cases):
        mod = cfs.build(ctx)
        out = []
        for c in cases:
            pre = [(g, p, whost.ALL & ~sum(b for k, b in self.BITS.items() if not inh & k)) for g, p, inh in c["pre"]]
            h = whost.Host(files=c["files"], stdin=b"\1" + b"".join(cfs.enc(o) for o in c["ops"]), preopens=pre)
            x = h.run(mod)
            out.append(cfs.check(c, c["ops"], self.model(c), bytes(h.outs[1]), x, TOL))
        return out


class Kinds(Family):
    """terminals, pipes, devices: what isatty, fstat, stat and readdir say of any kind of file"""
    name, quick, thorough, batch = "kinds", 1500, 50000, 100
    SRC = r"""
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
char buf[4096];
void say(const char *w, int a, int b) { size_t n = strlen(&buf[0]); sprintf(&buf[n], "%s %d %d\n", w, a, b); }
int kind(mode_t m) {
  return (S_ISBLK(m) ? 1 : 0) + (S_ISCHR(m) ? 2 : 0) + (S_ISDIR(m) ? 4 : 0) + (S_ISREG(m) ? 8 : 0) + (S_ISSOCK(m) ? 16 : 0) + (S_ISLNK(m) ? 32 : 0);
}
int main(void) {
  int i, r; struct stat st; DIR *d; struct dirent *e; size_t k;
  char nm[8];
  for (i = 0; i < 3; ++i) {
    errno = 0; r = isatty(i); say("tty", r, errno);
    r = fstat(i, &st); say("fd", r, r ? -1 : kind(st.st_mode));
  }
  errno = 0; r = isatty(77); say("tty", r, errno);
  for (i = 0; i < 4; ++i) {
    nm[0] = '/'; nm[1] = (char)('p' + i); nm[2] = 0;
    r = lstat(&nm[0], &st); say(&nm[0], r, r ? -1 : kind(st.st_mode));
  }
  d = opendir("/");
  while (d != NULL && (e = readdir(d)) != NULL) { if (e->d_name[0] != '.') say(&e->d_name[0], 7, (int)e->d_type); }
  k = strlen(&buf[0]);
  write(2, &buf[0], k);
  printf("line\nrest");
  _exit(0);
  return 0;
}
"""

    def setup(self, ctx):
        if "kinds" not in ctx.data:
            ctx.sc.write("kinds.c", self.SRC)
            r = core.wcpl(ctx.tool, ["-o", "kinds.wasm", "kinds.c"], ctx.sc.dir)
            if r.rc:
                raise core.BuildError("kinds: %s" % r.err.decode("latin-1")[:1500])
            import wasmtime
            ctx.data["kinds"] = wasmtime.Module(core.engine(), ctx.sc.read("kinds.wasm"))

    def gen(self, s):
        fds = [(s.draw(7) if s.bool() else 2, s.draw(3)) for _ in range(3)]
        return fds, [s.draw(7) for _ in range(4)]

    def nontrivial(self, c, tags):
        return True

    def show(self, c):
        return "kinds and rights (1 seek, 2 tell) of descriptors 0, 1, 2: %s; kinds of the files p, q, r, s: %s" % c

    def run(self, ctx, cases):
        self.setup(ctx)
        return [self.one(ctx.data["kinds"], *c) for c in cases]

    def one(self, mod, fds, names):
        h = whost.Host(files={"/" + n: b"" for n in "pqrs"})
        for n, (k, r) in enumerate(fds):
            h.fds[n].kind = k
            h.fds[n].rights |= (whost.R_SEEK if r & 1 else 0) | (whost.R_TELL if r & 2 else 0)
        for n, k in zip("pqrs", names):
            h.root.ents[n.encode() if b"p" in h.root.ents else n].kind = k
        x = h.run(mod)
        bit = {0: 0, 1: 1, 2: 2, 3: 4, 4: 8, 5: 16, 6: 16, 7: 32}
        exp = []
        for k, r in fds:
            exp += ["tty 1 0" if k == 2 and not r else "tty 0 59", "fd 0 %d" % bit[k]]
        exp.append("tty 0 8")
        exp += ["/%s 0 %d" % (n, bit[k]) for n, k in zip("pqrs", names)]
        got = bytes(h.outs[2]).decode("latin-1").split("\n")[:-1]
        ents = sorted(got[len(exp):])
        if got[:len(exp)] != exp:
            return "the program sees %r, expected %r" % (got, exp)
        # DT_FIFO is what the header calls a stream socket
        want = sorted("%s 7 %d" % (n, k) for n, k in zip("pqrs", names))
        if ents != want:
            return "readdir says %r, expected %r" % (ents, want)
        out = bytes(h.outs[1])
        line = fds[1][0] == 2 and not fds[1][1]
        if out != (b"line\n" if line else b""):
            return "standard output is %r before it is flushed, a terminal: %s" % (out, line)
        return None


FAMILIES = [Native(), Emulated(), Granted(), Kinds()]
