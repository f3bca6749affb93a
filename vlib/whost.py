"""An emulated WASI host: every host call of a program is answered by Python
code over an in-memory file system, so that calls can be logged, made to fail
or to transfer less than asked, and nothing real is within reach."""
from . import core

E = dict(SUCCESS=0, AGAIN=6, BADF=8, EXIST=20, FBIG=22, INTR=27, INVAL=28, IO=29, ISDIR=31, LOOP=32, MFILE=33, NAMETOOLONG=37,
         NOENT=44, NOMEM=48, NOSPC=51, NOSYS=52, NOTDIR=54, NOTEMPTY=55, NOTSUP=58, PERM=63, PIPE=64, ROFS=69, SPIPE=70,
         NOTCAPABLE=76, ACCES=2, OVERFLOW=61, BUSY=10, NXIO=60, DQUOT=19, TXTBSY=74, XDEV=75)
ALL = (1 << 30) - 1
R_READ, R_SEEK, R_TELL, R_WRITE, R_READDIR = 1 << 1, 1 << 2, 1 << 5, 1 << 6, 1 << 14
CHR, DIR, REG, LNK = 2, 3, 4, 7


class Exit(Exception):
    def __init__(self, code):
        self.code = code


class Err(Exception):
    def __init__(self, name):
        self.no = E[name] if isinstance(name, str) else name


class Node:
    nxt = 1

    def __init__(self, kind, data=None):
        self.kind = kind
        self.data = bytearray(data or b"")
        self.ents = {}
        self.ino = (Node.nxt << 32) + 77 * Node.nxt
        Node.nxt += 1
        self.nlink = 1
        self.gone = False       # a removed directory
        t = Node.nxt * 0x9E3779B97F4A7C15
        self.times = tuple((t >> i) % (1 << 62) for i in (0, 7, 19))


class Desc:
    def __init__(self, node=None, kind=None, flags=0, rights=ALL, stream=None):
        self.node, self.flags, self.rights = node, flags, rights
        self.kind = kind if kind is not None else node.kind
        self.inh = ALL
        self.pos = 0
        self.stream = stream        # standard stream number
        self.name = None            # preopened as


class Host:
    def __init__(self, args=("prog",), env=(), stdin=b"", files=None, preopens=(("/", ""),), tty=(), clock=None, fault=None, log=False):
        """files: {path: bytes | None for a directory | str for a symbolic link}"""
        self.args = [a.encode() if isinstance(a, str) else a for a in args]
        self.env = [e.encode() if isinstance(e, str) else e for e in env]
        self.root = Node(DIR)
        for p in sorted(files or {}):
            self.put(p, files[p])
        self.stdin, self.outs = stdin, {1: bytearray(), 2: bytearray()}
        self.fds = {}
        for n in (0, 1, 2):
            d = Desc(kind=CHR if n in tty else REG, stream=n, rights=(ALL & ~(R_SEEK | R_TELL)))
            if n not in tty:
                d.kind = 6      # a stream socket: not seekable, not a terminal
            self.fds[n] = d
        n = 3
        for name, path, *inh in preopens:       # (optional: rights that files opened below may have)
            d = Desc(self.look(path))
            d.inh = inh[0] if inh else ALL
            d.name = name.encode() if isinstance(name, str) else name
            self.fds[n] = d
            n += 1
        self.clock = clock or (lambda cid, prec: 0)
        self.fault = fault
        self.ncalls = 0
        self.log = [] if log else None
        self.on_out = None

    # --- file system, used from Python too
    def parts(self, path):
        return [p for p in path.split("/") if p and p != "."]

    def look(self, path):
        n = self.root
        for p in self.parts(path):
            n = n.ents[p]
        return n

    def put(self, path, what):
        ps = self.parts(path)
        n = self.root
        for p in ps[:-1]:
            n = n.ents.setdefault(p, Node(DIR))
        if what is None:
            n.ents.setdefault(ps[-1], Node(DIR))
        elif isinstance(what, str):
            n.ents[ps[-1]] = Node(LNK, what.encode())
        else:
            n.ents[ps[-1]] = Node(REG, what)

    def get(self, path):
        try:
            return bytes(self.look(path).data)
        except KeyError:
            return None

    # --- memory
    def rd(self, a, n):
        if n == 0:
            return b""
        if a + n > self.mem.data_len(self.store):
            raise Err("INVAL")      # (a real host traps or returns EFAULT)
        return bytes(self.mem.read(self.store, a, a + n))

    def wr(self, a, b):
        if b:
            self.mem.write(self.store, bytes(b), a)

    def w32(self, a, v):
        self.wr(a, (v & 0xffffffff).to_bytes(4, "little"))

    def w64(self, a, v):
        self.wr(a, (v & (1 << 64) - 1).to_bytes(8, "little"))

    def iov(self, a, n):
        r = []
        for i in range(n):
            b = self.rd(a + 8 * i, 8)
            r.append((int.from_bytes(b[:4], "little"), int.from_bytes(b[4:], "little")))
        return r

    def fd(self, n, right=0):
        d = self.fds.get(n & 0xffffffff)
        if d is None:
            raise Err("BADF")
        if right and not d.rights & right:
            raise Err("NOTCAPABLE")
        return d

    def name(self, a, n):
        b = self.rd(a, n)
        if b"\0" in b:
            raise Err("INVAL")
        return b.decode("utf-8", "surrogateescape")

    def walk(self, dirfd, path, follow, depth=0, want_parent=False):
        """-> (parent node, last name, node or None)"""
        d = self.fd(dirfd)
        if d.kind != DIR:
            raise Err("NOTDIR")
        if path.startswith("/"):
            raise Err("PERM")
        if path == "":
            raise Err("NOENT")
        todo = [p for p in path.split("/") if p]
        slash = path.endswith("/")
        stack, hops = [d.node], 0
        last = "."
        node = d.node
        parent = None
        while todo:
            p = todo.pop(0)
            if stack[-1].kind != DIR:
                raise Err("NOTDIR")
            if p == ".":
                continue
            if p == "..":
                if len(stack) == 1:
                    raise Err("PERM")
                stack.pop()
                node = stack[-1]
                last = "."
                continue
            if len(p.encode("utf-8", "surrogateescape")) > 255:
                raise Err("NAMETOOLONG")
            nx = stack[-1].ents.get(p)
            if nx is not None and nx.kind == LNK and (todo or follow or slash):
                hops += 1
                if hops > 30:
                    raise Err("LOOP")
                t = nx.data.decode("utf-8", "surrogateescape")
                if t.startswith("/"):
                    raise Err("PERM")
                todo = [q for q in t.split("/") if q] + todo
                continue
            if nx is None:
                if todo or stack[-1].gone:
                    raise Err("NOENT")
                return stack[-1], p, None
            stack.append(nx)
            node, last = nx, p
        parent = stack[-2] if len(stack) > 1 else None
        if slash and node.kind != DIR:
            raise Err("NOTDIR")
        return parent, last, node

    # --- calls
    def args_sizes_get(self, a, b):
        self.w32(a, len(self.args))
        self.w32(b, sum(len(x) + 1 for x in self.args))

    def args_get(self, a, b):
        for x in self.args:
            self.w32(a, b)
            self.wr(b, x + b"\0")
            a += 4
            b += len(x) + 1

    def environ_sizes_get(self, a, b):
        self.w32(a, len(self.env))
        self.w32(b, sum(len(x) + 1 for x in self.env))

    def environ_get(self, a, b):
        for x in self.env:
            self.w32(a, b)
            self.wr(b, x + b"\0")
            a += 4
            b += len(x) + 1

    def clock_time_get(self, cid, prec, p):
        self.w64(p, self.clock(cid, prec))

    def clock_res_get(self, cid, p):
        self.w64(p, 1)

    def fd_advise(self, fd, off, ln, adv):
        self.fd(fd)

    def fd_allocate(self, fd, off, ln):
        d = self.fd(fd, R_WRITE)
        if d.kind != REG:
            raise Err("BADF")
        if len(d.node.data) < off + ln:
            d.node.data += bytes(off + ln - len(d.node.data))

    def fd_close(self, fd):
        self.fd(fd)
        del self.fds[fd]

    def fd_datasync(self, fd):
        self.fd(fd)

    fd_sync = fd_datasync

    def fd_fdstat_get(self, fd, p):
        d = self.fd(fd)
        self.wr(p, bytes([d.kind, 0]) + d.flags.to_bytes(2, "little") + bytes(4) + d.rights.to_bytes(8, "little") + d.inh.to_bytes(8, "little"))

    def fd_fdstat_set_flags(self, fd, fl):
        self.fd(fd).flags = fl & 31

    def stat(self, n, p):
        self.wr(p, (1).to_bytes(8, "little") + n.ino.to_bytes(8, "little") + bytes([n.kind]) + bytes(7) + n.nlink.to_bytes(8, "little")
                + len(n.data).to_bytes(8, "little") + b"".join(t.to_bytes(8, "little") for t in n.times))

    def fd_filestat_get(self, fd, p):
        d = self.fd(fd)
        self.stat(d.node or Node(d.kind), p)

    def fd_filestat_set_size(self, fd, n):
        d = self.fd(fd)
        if not d.rights & R_WRITE:
            raise Err("INVAL")
        if d.kind != REG or d.stream is not None:
            raise Err("INVAL")
        if n > 1 << 26:
            raise Err("FBIG")
        if n < len(d.node.data):
            del d.node.data[n:]
        else:
            d.node.data += bytes(n - len(d.node.data))

    def readat(self, d, pos, n):
        if d.kind == DIR:
            raise Err("ISDIR")
        return bytes(d.node.data[pos:pos + n])

    def scatter(self, iov, data):
        i = 0
        for a, n in iov:
            self.wr(a, data[i:i + n])
            i += n
            if i >= len(data):
                break

    def limit(self, n):
        return n if self.short is None else min(n, self.short)

    def fd_read(self, fd, iov, n, pn):
        d = self.fd(fd, R_READ)
        v = self.iov(iov, n)
        want = self.limit(sum(x for _, x in v))
        if d.stream is not None:
            if d.stream != 0:
                raise Err("BADF")
            b = self.stdin[d.pos:d.pos + want]
        else:
            b = self.readat(d, d.pos, want)
        d.pos += len(b)
        self.scatter(v, b)
        self.w32(pn, len(b))

    def fd_pread(self, fd, iov, n, off, pn):
        d = self.fd(fd, R_READ)
        if d.stream is not None:
            raise Err("SPIPE")
        v = self.iov(iov, n)
        b = self.readat(d, off, self.limit(sum(x for _, x in v)))
        self.scatter(v, b)
        self.w32(pn, len(b))

    def writeat(self, d, pos, b):
        if d.kind == DIR:
            raise Err("BADF")
        f = d.node.data
        if pos + len(b) > 1 << 26:
            raise Err("FBIG")
        if b and pos > len(f):
            f += bytes(pos - len(f))
        f[pos:pos + len(b)] = b

    def gather(self, iov, n):
        b = b"".join(self.rd(a, k) for a, k in self.iov(iov, n))
        return b[:self.limit(len(b))]

    def fd_write(self, fd, iov, n, pn):
        d = self.fd(fd, R_WRITE)
        b = self.gather(iov, n)
        if d.stream is not None:
            if d.stream == 0:
                raise Err("BADF")
            self.outs[d.stream] += b
            if self.on_out:
                self.on_out(d.stream, b)
        else:
            if d.flags & 1 and b:
                d.pos = len(d.node.data)
            self.writeat(d, d.pos, b)
            d.pos += len(b)
        self.w32(pn, len(b))

    def fd_pwrite(self, fd, iov, n, off, pn):
        d = self.fd(fd, R_WRITE)
        if d.stream is not None:
            raise Err("SPIPE")
        b = self.gather(iov, n)
        self.writeat(d, off, b)
        self.w32(pn, len(b))

    def fd_seek(self, fd, off, wh, p):
        d = self.fd(fd)
        if d.stream is not None:
            raise Err("SPIPE")
        if d.kind == DIR:
            raise Err("BADF")
        if wh > 2:
            raise Err("INVAL")
        if off >= 1 << 63:
            off -= 1 << 64
        v = off + (0, d.pos, len(d.node.data))[wh]
        if v < 0 or v >= 1 << 63:
            raise Err("INVAL")
        d.pos = v
        self.w64(p, v)

    def fd_tell(self, fd, p):
        d = self.fd(fd)
        if d.stream is not None:
            raise Err("SPIPE")
        self.w64(p, d.pos)

    def fd_prestat_get(self, fd, p):
        d = self.fd(fd)
        if d.name is None:
            raise Err("BADF")
        self.w32(p, 0)
        self.w32(p + 4, len(d.name))

    def fd_prestat_dir_name(self, fd, p, n):
        d = self.fd(fd)
        if d.name is None:
            raise Err("BADF")
        if n < len(d.name):
            raise Err("NAMETOOLONG")
        self.wr(p, d.name)

    def fd_readdir(self, fd, p, n, cookie, pn):
        d = self.fd(fd)
        if d.kind == DIR:
            self.fd(fd, R_READDIR)
        else:
            raise Err("NOTDIR")
        ents = [(".", d.node), ("..", d.node)] + list(d.node.ents.items())
        b = b""
        for i, (nm, nd) in enumerate(ents):
            if i < cookie:
                continue
            e = nm.encode("utf-8", "surrogateescape")
            b += (i + 1).to_bytes(8, "little") + nd.ino.to_bytes(8, "little") + len(e).to_bytes(4, "little") + bytes([nd.kind, 0, 0, 0]) + e
            if len(b) >= n:
                break
        b = b[:n]
        self.wr(p, b)
        self.w32(pn, len(b))

    def path_open(self, dirfd, look, a, n, ofl, rights, inh, fl, pfd):
        path = self.name(a, n)
        parent, last, node = self.walk(dirfd, path, look & 1 and ofl & 5 != 5)
        wants_write = rights & R_WRITE
        top = self.fd(dirfd).inh
        if (rights | inh) & ALL & ~top:
            raise Err("NOTCAPABLE")
        if node is None:
            if not ofl & 1:
                raise Err("NOENT")
            if path.endswith("/"):
                raise Err("ISDIR")
            node = parent.ents[last] = Node(REG)
        else:
            if ofl & 1 and ofl & 4:
                raise Err("EXIST")
            if node.kind == LNK:
                raise Err("LOOP")
            if ofl & 2 and node.kind != DIR:
                raise Err("NOTDIR")
            if node.kind == DIR and (wants_write or ofl & 9):
                raise Err("ISDIR")
            if ofl & 8:
                del node.data[:]
        k = 3
        while k in self.fds:
            k += 1
        if k > 1000:
            raise Err("MFILE")
        self.fds[k] = Desc(node, flags=fl, rights=rights)
        self.fds[k].inh = inh & ALL
        self.w32(pfd, k)

    def path_create_directory(self, dirfd, a, n):
        parent, last, node = self.walk(dirfd, self.name(a, n), 0)
        if node is not None:
            raise Err("EXIST")
        parent.ents[last] = Node(DIR)

    def path_filestat_get(self, dirfd, look, a, n, p):
        node = self.walk(dirfd, self.name(a, n), look & 1)[2]
        if node is None:
            raise Err("NOENT")
        self.stat(node, p)

    def path_link(self, ofd, look, a, n, nfd, b, m):
        node = self.walk(ofd, self.name(a, n), look & 1)[2]
        if node is None:
            raise Err("NOENT")
        if node.kind == DIR:
            raise Err("PERM")
        parent, last, x = self.walk(nfd, self.name(b, m), 0)
        if x is not None:
            raise Err("EXIST")
        parent.ents[last] = node
        node.nlink += 1

    def path_readlink(self, fd, a, n, p, m, pn):
        node = self.walk(fd, self.name(a, n), 0)[2]
        if node is None:
            raise Err("NOENT")
        if node.kind != LNK:
            raise Err("INVAL")
        b = bytes(node.data[:m])
        self.wr(p, b)
        self.w32(pn, len(b))

    def path_remove_directory(self, fd, a, n):
        parent, last, node = self.walk(fd, self.name(a, n), 0)
        if node is None:
            raise Err("NOENT")
        if node.kind != DIR:
            raise Err("NOTDIR")
        if node.ents:
            raise Err("NOTEMPTY")
        if parent is None:
            raise Err("BUSY")
        del parent.ents[last]
        node.gone = True

    def path_unlink_file(self, fd, a, n):
        parent, last, node = self.walk(fd, self.name(a, n), 0)
        if node is None:
            raise Err("NOENT")
        if node.kind == DIR:
            raise Err("ISDIR")
        node.nlink -= 1
        del parent.ents[last]

    def inside(self, top, n):
        return n is top or any(self.inside(x, n) for x in top.ents.values() if x.kind == DIR)

    def path_rename(self, ofd, a, n, nfd, b, m):
        po, lo, node = self.walk(ofd, self.name(a, n), 0)
        pn, ln, tgt = self.walk(nfd, self.name(b, m), 0)
        if node is None:
            raise Err("NOENT")
        if po is None or (tgt is not None and pn is None):
            raise Err("BUSY")
        if tgt is node:
            return
        if node.kind == DIR and self.inside(node, pn):
            raise Err("INVAL")
        if tgt is not None:
            if node.kind == DIR and tgt.kind != DIR:
                raise Err("NOTDIR")
            if node.kind != DIR and tgt.kind == DIR:
                raise Err("ISDIR")
            if tgt.ents:
                raise Err("NOTEMPTY")
            tgt.gone = tgt.kind == DIR
            tgt.nlink -= 1
        del po.ents[lo]
        pn.ents[ln] = node

    def path_symlink(self, a, n, fd, b, m):
        parent, last, node = self.walk(fd, self.name(b, m), 0)
        if node is not None:
            raise Err("EXIST")
        parent.ents[last] = Node(LNK, self.rd(a, n))

    def random_get(self, p, n):
        self.wr(p, bytes(n))

    def sched_yield(self):
        pass

    # --- running
    def call(self, name, args):
        """errno of one host call"""
        i = self.ncalls
        self.ncalls += 1
        self.short = None
        f = self.fault(i, name, args, self) if self.fault else None
        if f is not None:
            if f[0] == "short":
                self.short = f[1]
            else:
                if self.log is not None:
                    self.log.append((name, args, f[1], "injected"))
                return f[1]
        try:
            getattr(self, name)(*args)
            r = 0
        except Err as x:
            r = x.no
        if self.log is not None:
            self.log.append((name, args, r, f))
        return r

    def run(self, mod, fuel=2_000_000_000, memlimit=1 << 29):
        import wasmtime as w
        eng = core.engine()
        store = w.Store(eng)
        store.set_fuel(fuel)
        store.set_limits(memory_size=memlimit)
        self.store = store
        linker = w.Linker(eng)

        def proc_exit(code):
            raise Exit(code)

        for imp in mod.imports:
            ft = imp.type
            if not isinstance(ft, w.FuncType):
                continue
            name = imp.name
            if name == "proc_exit":
                f = proc_exit
            elif hasattr(Host, name):
                masks = [0xffffffff if str(t) == "i32" else (1 << 64) - 1 for t in ft.params]

                def f(*a, name=name, masks=masks):
                    return self.call(name, [x & m for x, m in zip(a, masks)])
            else:
                f = (lambda *a, n=len(ft.results): 52 if n else None)
            linker.define(store, imp.module, name, w.Func(store, ft, f))
        det = ""
        try:
            ex = linker.instantiate(store, mod).exports(store)
            self.mem = ex["memory"]
            ex["_start"](store)
            st = 0
        except Exit as x:
            st = x.code
        except w.Trap as x:
            st, det = core.trap_name(str(x)), str(x)
        except w.WasmtimeError as x:
            c = x.__cause__
            if isinstance(c, Exit):
                st = c.code
            else:
                st, det = "error:" + core.trap_name(str(x)), str(x)
        self.store = self.mem = None
        del store
        return core.Run(st, bytes(self.outs[1]), bytes(self.outs[2]), det)
