"""Histories of file-system calls: the driver program, the reference (the same
history performed directly on the host) and the generator."""
import errno as _errno
import os
import shutil
import stat as _stat

from . import clib, core, whost
from .clib import Rd, blk, u32, u64, split_answers

DRV = r'''
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <wasi/api.h>
unsigned char ib_[65536]; unsigned char ob_[262144]; unsigned char data_[8192];
int fd_[16]; struct stat st_[3];
struct { int ip, in, op; } io_;
int g8(void) { int r = ib_[io_.ip]; io_.ip += 1; return r; }
int g32(void) { int a = g8(); a |= g8() << 8; a |= g8() << 16; a |= g8() << 24; return a; }
long long g64(void) { unsigned long long a = (unsigned)g32(); a |= (unsigned long long)(unsigned)g32() << 32; return (long long)a; }
void p8(int v) { if (io_.op < 262144) { ob_[io_.op] = (unsigned char)v; io_.op += 1; } }
void p32(int v) { p8(v); p8(v >> 8); p8(v >> 16); p8(v >> 24); }
void p64(long long v) { p32((int)v); p32((int)(v >> 32)); }
void w32(int at, int v) { ob_[at] = (unsigned char)v; ob_[at + 1] = (unsigned char)(v >> 8); ob_[at + 2] = (unsigned char)(v >> 16); ob_[at + 3] = (unsigned char)(v >> 24); }
int gn_;
char *gs(void) { char *r; gn_ = g32(); r = (char *)&ib_[io_.ip]; io_.ip += gn_; return r; } /* the terminator is counted */
void flush_(void) { int n = 0, k; while (n < io_.op) { k = (int)write(1, &ob_[n], (size_t)(io_.op - n)); if (k <= 0) break; n += k; } io_.op = 0; }
int slot(void) { int k = g8(); return k < 16 ? fd_[k] : k == 16 ? 7777 : k == 17 ? -1 : k - 20; }
int flags(void) {
  int b = g32(), f = 0;
  if (b & 1) f |= O_RDONLY;
  if (b & 2) f |= O_WRONLY;
  if (b & 4) f |= O_RDWR;
  if (b & 8) f |= O_EXEC;
  if (b & 16) f |= O_APPEND;
  if (b & 32) f |= O_CREAT;
  if (b & 64) f |= O_EXCL;
  if (b & 128) f |= O_TRUNC;
  if (b & 256) f |= O_DIRECTORY;
  if (b & 512) f |= O_NOFOLLOW;
  if (b & 1024) f |= O_NONBLOCK;
  if (b & 2048) f |= O_SYNC;
  if (b & 4096) f |= O_SEARCH;
  return f;
}
void names(DIR *d, int k) {
  /* k names, then the others, the others once more from the same place, all again from the start */
  struct dirent *e; int i = 0, at, n = 0, e0; long pos;
  for (; i < k; ++i) { e = readdir(d); if (e == NULL) break; p8(e->d_type); p64((long long)e->d_ino); at = (int)strlen(&e->d_name[0]); p32(at); for (n = 0; n < at; ++n) p8(e->d_name[n]); }
  p8(255);
  pos = telldir(d);
  for (i = 0; i < 3; ++i) {
    errno = 0;
    for (;;) {
      e = readdir(d);
      if (e == NULL) break;
      p8(e->d_type); p64((long long)e->d_ino); at = (int)strlen(&e->d_name[0]); p32(at); for (n = 0; n < at; ++n) p8(e->d_name[n]);
    }
    e0 = errno;
    if (readdir(d) != NULL) e0 = 9999;
    p8(255); p32(e0);
    if (i == 0) seekdir(d, pos); else rewinddir(d);
  }
}
int filter(const struct dirent *e) { return e->d_name[0] != '.'; }
int odd(const struct dirent *e) { return (int)strlen(&e->d_name[0]) & 1; }
int reverse(const struct dirent **a, const struct dirent **b) { return alphasort(b, a); }
int scan(int at, const char *p, int fi, int co) {
  struct dirent **l; int n, i, k, m; const struct dirent *e; unsigned char *g; unsigned char *gs[12];
  /* blocks with holes between them: the list must stay within its own memory */
  for (i = 0; i < 12; ++i) { m = 28 << (i >> 1); g = malloc((size_t)m); gs[i] = g; if (g != NULL) memset(g, 0xC3, (size_t)m); }
  for (i = 0; i < 12; i += 2) free(gs[i]);
  l = NULL; errno = 0;
  if (at == -99) n = scandir(p, &l, fi == 0 ? NULL : fi == 1 ? &filter : &odd, co == 0 ? NULL : co == 1 ? &alphasort : &reverse);
  else n = scandirat(at, p, &l, fi == 0 ? NULL : fi == 1 ? &filter : &odd, co == 0 ? NULL : co == 1 ? &alphasort : &reverse);
  i = errno;
  if (n > 0 && l == NULL) n = -5;
  if (n >= 0) {
    for (i = 0; i < n; ++i) { e = l[i]; p8(e->d_type); p64((long long)e->d_ino); m = (int)strlen(&e->d_name[0]); p32(m); for (k = 0; k < m; ++k) p8(e->d_name[k]); free(l[i]); }
    if (n > 0) free(l);
    i = 0;
  }
  for (k = 1; k < 12; k += 2) { g = gs[k]; if (g != NULL) for (m = 0; m < 28 << (k >> 1); ++m) if (g[m] != 0xC3) n = -7; free(g); }
  errno = i;
  return n;
}
int main(int argc, char **argv) {
  int k, i, n, m, idx = 0, a, b, mark; char *s; char *t; DIR *d; unsigned long long res; long long r, off; struct stat *ps = &st_[1];
  for (i = 0; i < 16; ++i) fd_[i] = 7777;
  for (;;) { k = (int)read(0, &ib_[io_.in], (size_t)(65536 - io_.in)); if (k <= 0) break; io_.in += k; }
  mark = g8();
  while (io_.ip < io_.in) {
    int at = io_.op, o = g8(), e;
    if (mark) clock_res_get((clockid_t)idx, &res); /* tells an emulated host where we are */
    if (mark && res == 77ULL) { size_t sz = 1048576; for (; sz > 0; sz >>= 1) while (malloc(sz) != NULL) continue; }
    idx += 1;
    p32(0); p64(0LL); p32(0); p32(0);
    memset(&data_[0], 0xA5, 8192); memset(&st_[0], 0xA5, 3 * sizeof(struct stat));
    errno = 0; n = 0; r = 0LL;
    switch (o) {
      case 0: m = g8(); s = gs(); i = flags(); r = open(s, i); fd_[m] = r < 0LL ? 7777 : (int)r; if (r >= 0LL) r = 1LL; break;
      case 1: m = g8(); a = slot(); s = gs(); i = flags(); r = openat(a, s, i); fd_[m] = r < 0LL ? 7777 : (int)r; if (r >= 0LL) r = 1LL; break;
      case 2: m = g8(); r = close(m < 16 ? fd_[m] : m == 16 ? 7777 : -1); if (m < 16) fd_[m] = 7777; break;
      case 3: a = slot(); m = g32(); r = read(a, &data_[0], (size_t)m); n = r > 0LL ? (int)r : 0; break;
      case 4: a = slot(); s = gs(); r = write(a, s, (size_t)(gn_ - 1)); break;
      case 5: a = slot(); m = g32(); off = g64(); r = pread(a, &data_[0], (size_t)m, off); n = r > 0LL ? (int)r : 0; break;
      case 6: a = slot(); s = gs(); m = gn_; off = g64(); r = pwrite(a, s, (size_t)(m - 1), off); break;
      case 7: a = slot(); off = g64(); m = g32(); r = lseek(a, off, m == 0 ? SEEK_SET : m == 1 ? SEEK_CUR : m == 2 ? SEEK_END : m); break;
      case 8: a = slot(); off = g64(); r = ftruncate(a, off); break;
      case 9: a = slot(); r = fstat(a, ps); n = r == 0LL ? -1 : 0; break;
      case 10: a = slot(); m = fcntl(a, F_GETFL); r = m < 0 ? -1 : ((m & O_ACCMODE) == O_RDONLY ? 1 : (m & O_ACCMODE) == O_WRONLY ? 2 : (m & O_ACCMODE) == O_RDWR ? 4 : (m & O_ACCMODE) == O_SEARCH ? 4096 : 8) | (m & O_APPEND ? 16 : 0) | (m & O_NONBLOCK ? 1024 : 0); break;
      case 11: a = slot(); i = flags(); r = fcntl(a, F_SETFL, i); break;
      case 12: a = slot(); r = isatty(a); break;
      case 13: a = slot(); r = fsync(a); break;
      case 14: a = slot(); r = fdatasync(a); break;
      case 15: a = slot(); off = g64(); res = (unsigned long long)g64(); m = g8(); r = posix_fadvise(a, off, (off_t)res, m == 0 ? POSIX_FADV_NORMAL : m == 1 ? POSIX_FADV_SEQUENTIAL : m == 2 ? POSIX_FADV_RANDOM : m == 3 ? POSIX_FADV_WILLNEED : m == 4 ? POSIX_FADV_DONTNEED : POSIX_FADV_NOREUSE); break;
      case 16: a = slot(); off = g64(); res = (unsigned long long)g64(); r = posix_fallocate(a, off, (off_t)res); break;
      case 17: s = gs(); m = g8(); r = access(s, (m & 1 ? R_OK : 0) | (m & 2 ? W_OK : 0) | (m & 4 ? 64 : 0) | (m & 8 ? X_OK : 0)); break;
      case 19: s = gs(); r = unlink(s); break;
      case 20: a = slot(); s = gs(); m = g8(); r = unlinkat(a, s, m ? AT_REMOVEDIR : 0); break;
      case 21: s = gs(); t = gs(); r = link(s, t); break;
      case 22: a = slot(); s = gs(); b = slot(); t = gs(); m = g8(); r = linkat(a, s, b, t, m ? AT_SYMLINK_FOLLOW : 0); break;
      case 23: s = gs(); t = gs(); r = symlink(s, t); break;
      case 24: s = gs(); a = slot(); t = gs(); r = symlinkat(s, a, t); break;
      case 25: s = gs(); m = g32(); r = readlink(s, (char *)&data_[0], (size_t)m); n = r > 0LL ? (int)r : 0; break;
      case 26: a = slot(); s = gs(); m = g32(); r = readlinkat(a, s, (char *)&data_[0], (size_t)m); n = r > 0LL ? (int)r : 0; break;
      case 27: s = gs(); r = rmdir(s); break;
      case 28: a = slot(); s = gs(); r = rmdirat(a, s); break;
      case 29: s = gs(); r = mkdir(s, S_IRWXU); break;
      case 30: a = slot(); s = gs(); r = mkdirat(a, s, S_IRWXU); break;
      case 31: s = gs(); r = stat(s, ps); n = r == 0LL ? -1 : 0; break;
      case 32: s = gs(); r = lstat(s, ps); n = r == 0LL ? -1 : 0; break;
      case 33: a = slot(); s = gs(); m = g8(); r = fstatat(a, s, ps, m ? AT_SYMLINK_NOFOLLOW : 0); n = r == 0LL ? -1 : 0; break;
      case 34: s = gs(); t = gs(); r = rename(s, t); break;
      case 35: a = slot(); s = gs(); b = slot(); t = gs(); r = renameat(a, s, b, t); break;
      case 36: s = gs(); r = remove(s); break;
      case 37: case 38: case 39:
        if (o == 37) { s = gs(); d = opendir(s); }
        else if (o == 38) { a = slot(); s = gs(); d = opendirat(a, s); }
        else { a = slot(); d = fdopendir(a); }
        m = g8();
        if (d == NULL) { r = -1LL; }
        else {
          r = 0LL; e = errno;
          if (o == 39 && dirfd(d) != a) r = 77LL;
          names(d, m);
          if (o == 39) { if (fdclosedir(d) != a) r = 78LL; } else r = closedir(d);
          errno = e;
        }
        n = -2;
        break;
      case 40: s = gs(); a = g8(); b = g8(); r = scan(-99, s, a, b); n = -2; break;
      case 41: k = slot(); s = gs(); a = g8(); b = g8(); r = scan(k, s, a, b); n = -2; break;
      default: abort();
    }
    e = errno;
    if (n == -1) {
      n = io_.op;
      p32((int)ps->st_mode); p64(ps->st_size); p64((long long)ps->st_nlink); p64((long long)ps->st_ino); p64((long long)ps->st_dev);
      p64(ps->st_atime); p32((int)ps->st_atime_ns); p64(ps->st_mtime); p32((int)ps->st_mtime_ns); p64(ps->st_ctime); p32((int)ps->st_ctime_ns);
      n = -1;
    } else if (n >= 0) {
      for (i = 0; i < n && i < 8192; ++i) p8(data_[i]);
      m = 0; for (i = n; i < n + 64 && i < 8192; ++i) if (data_[i] != 0xA5) m += 1;
      if (m) e = 8888;
    }
    { unsigned char *q = (unsigned char *)&st_[0]; m = 0;
      for (i = 0; i < (int)sizeof(struct stat); ++i) { if (q[i] != 0xA5) m += 1; if (q[i + 2 * (int)sizeof(struct stat)] != 0xA5) m += 1; }
      if (m) e = 8887; }
    w32(at, io_.op - at - 4); w32(at + 4, (int)r); w32(at + 8, (int)(r >> 32)); w32(at + 12, e);
    flush_();
  }
  if (mark) clock_res_get((clockid_t)idx, &res);
  flush_();
  return 0;
}
'''
NAMES = ["open", "openat", "close", "read", "write", "pread", "pwrite", "lseek", "ftruncate", "fstat", "F_GETFL", "F_SETFL", "isatty", "fsync", "fdatasync",
         "posix_fadvise", "posix_fallocate", "access", "faccessat", "unlink", "unlinkat", "link", "linkat", "symlink", "symlinkat", "readlink", "readlinkat",
         "rmdir", "rmdirat", "mkdir", "mkdirat", "stat", "lstat", "fstatat", "rename", "renameat", "remove", "opendir", "opendirat", "fdopendir", "scandir", "scandirat"]
CODE = {n: i for i, n in enumerate(NAMES)}
# how the arguments are encoded: p path, s slot, o slot to open, i int, b byte, d data, q offset
SIG = dict(open="opi", openat="ospi", close="o", read="si", write="sd", pread="siq", pwrite="sdq", lseek="sqi", ftruncate="sq", fstat="s", F_GETFL="s", F_SETFL="si",
           isatty="s", fsync="s", fdatasync="s", posix_fadvise="sqqb", posix_fallocate="sqq", access="pb", faccessat="spbb", unlink="p", unlinkat="spb", link="pp",
           linkat="spspb", symlink="tp", symlinkat="tsp", readlink="pi", readlinkat="spi", rmdir="p", rmdirat="sp", mkdir="p", mkdirat="sp", stat="p", lstat="p",
           fstatat="spb", rename="pp", renameat="spsp", remove="p", opendir="pb", opendirat="spb", fdopendir="sb", scandir="pbb", scandirat="spbb")
RD, WR, RW, EX, AP, CR, EXC, TR, DI, NF, NB, SY, SE = (1 << i for i in range(13))
W = {"ENOENT": 44, "EEXIST": 20, "ENOTDIR": 54, "EISDIR": 31, "ENOTEMPTY": 55, "EINVAL": 28, "EBADF": 8, "ELOOP": 32, "EPERM": 63, "EACCES": 2, "ENAMETOOLONG": 37,
     "ESPIPE": 70, "EBUSY": 10, "EXDEV": 75, "ENOTTY": 59, "EFBIG": 22, "ENXIO": 60, "EMLINK": 34, "EOVERFLOW": 61, "ENOTCAPABLE": 76, "ENOTSUP": 58, "EIO": 29, "EROFS": 69}
WN = {v: k for k, v in W.items()}
KIND = {_stat.S_IFREG: 4, _stat.S_IFDIR: 3, _stat.S_IFLNK: 7}
MODE = {4: 0x8000, 3: 0x4000, 7: 0xa000}


def enc(o):
    n, *a = o
    r = bytes([CODE[n]])
    for k, x in zip(SIG[n], a):
        if k in "pt":
            r += blk(x.encode() + b"\0")
        elif k == "d":
            r += blk(x + b"\0")
        elif k in "sob":
            r += bytes([x])
        elif k == "i":
            r += u32(x)
        else:
            r += u64(x)
    return r


# ---------------------------------------------------------------- reference
class Skip(Exception):
    """leaves the granted directories, or is not comparable"""


class Err(Exception):
    pass


class Ref:
    """performs the history with the host's own calls below one directory"""

    def __init__(self, root, preopens, native=False):
        self.root = root
        self.native = native
        self.pre = [(self.strip(g).rstrip("/"), os.path.join(root, h) if h else root) for g, h in preopens]
        self.fds = {}
        self.dirs = {}          # slot -> path of a directory descriptor
        self.fl = {}

    def close(self):
        for f in self.fds.values():
            os.close(f)
        self.fds = {}

    @staticmethod
    def strip(p):
        while p.startswith("/") or p.startswith("./"):
            p = p.lstrip("/") if p[0] == "/" else p[2:]
        return "" if p == "." else p

    def at(self, path):
        """-> host directory, relative path"""
        if path == "":
            raise Err("ENOENT")
        p = self.strip(path)
        best = None
        for g, h in self.pre:
            if g == "" or p == g or p.startswith(g + "/"):
                if best is None or len(g) > len(best[0]):
                    best = g, h
        if best is None:
            raise Err("ENOTCAPABLE")
        rel = p[len(best[0]):].lstrip("/") if best[0] else p
        return best[1], rel or "."

    def contained(self, base, rel, follow):
        """the lookup never leaves base"""
        if rel.startswith("/"):
            raise Skip
        todo = [c for c in rel.split("/") if c]
        cur = []
        hops = 0
        while todo:
            c = todo.pop(0)
            if c == ".":
                continue
            if c == "..":
                if not cur:
                    raise Skip
                full = os.path.join(base, *cur)
                if not os.path.isdir(full):
                    return
                cur.pop()
                continue
            full = os.path.join(base, *cur, c)
            if os.path.islink(full) and (todo or follow or rel.endswith("/")):
                hops += 1
                if hops > 45:
                    return
                t = os.readlink(full)
                if t.startswith("/"):
                    raise Skip
                todo = [x for x in t.split("/") if x] + todo
                continue
            cur.append(c)

    def full(self, base, rel, follow=True):
        self.contained(base, rel, follow)
        return os.path.join(base, rel)

    def path(self, p, follow=True, mutate=False):
        b, r = self.at(p)
        if mutate and r.endswith("/"):
            raise Skip          # hosts differ
        if mutate and (r.rstrip("/").split("/")[-1] in (".", "..", "") or os.path.realpath(os.path.join(b, r)) in [h for _, h in self.pre]):
            raise Skip
        return self.full(b, r, follow)

    def pathat(self, s, p, follow=True, mutate=False):
        if s not in self.fds:
            raise Err("EBADF")
        if p == "":
            raise Err("ENOENT|EBADF|ENOTDIR")
        if s not in self.dirs:
            raise Err("ENOTDIR|EBADF" if self.native else "ENOTDIR")
        b = os.readlink("/proc/self/fd/%d" % self.fds[s])
        if b.endswith(" (deleted)"):
            raise Err("ENOENT|ENAMETOOLONG") if p.strip("./") and p[0] != "/" else Skip
        if mutate and p.endswith("/"):
            raise Skip          # hosts differ
        if mutate and (p.rstrip("/").split("/")[-1] in (".", "..", "") or os.path.realpath(os.path.join(b, p)) in [h for _, h in self.pre]):
            raise Skip
        return self.full(b, p, follow)

    def fd(self, s):
        if s in (20, 21, 22):
            raise Skip
        if s not in self.fds:
            raise Err("EBADF")
        return self.fds[s]

    def do(self, o):
        """-> (result, errno name or None, data)"""
        n, *a = o
        try:
            r, d = getattr(self, "op_" + n)(*a)
            return r, None, d
        except Err as x:
            e = x.args[0]
        except OSError as x:
            e = _errno.errorcode[x.errno]
            if e == "EOPNOTSUPP":
                e = "ENOTSUP"
        if n in ("posix_fadvise", "posix_fallocate"):
            return e, None, None
        return (0 if n == "isatty" else -1), e, None

    def opened(self, k, full, fl):
        f = 0
        acc = fl & (RD | WR | RW | EX | SE)
        if acc == RW or acc == RD | WR:
            f = os.O_RDWR
        elif acc == WR:
            f = os.O_WRONLY
        elif acc == RD:
            f = os.O_RDONLY
        else:
            raise Err("EINVAL")
        for b, x in ((AP, os.O_APPEND), (CR, os.O_CREAT), (EXC, os.O_EXCL), (TR, os.O_TRUNC), (DI, os.O_DIRECTORY), (NF, os.O_NOFOLLOW), (NB, os.O_NONBLOCK)):
            if fl & b:
                f |= x
        if fl & EXC and not fl & CR or fl & DI and fl & (CR | WR | RW) or fl & TR and acc == RD:
            raise Skip
        if self.native and (fl & SY or fl & CR and acc == RD or f & (os.O_WRONLY | os.O_RDWR) and os.path.isdir(full)):
            raise Skip          # wasmtime refuses the first, grants writing with the second, opens in the third case
        d = os.open(full, f, 0o666)
        self.fds[k] = d
        self.fl[k] = fl
        if _stat.S_ISDIR(os.fstat(d).st_mode):
            self.dirs[k] = True
        return 1, None

    def op_open(self, k, p, fl):
        if self.native and fl & SY or k in self.fds or fl & CR and p.endswith("/"):
            raise Skip
        if fl & (RD | WR | RW | EX | SE) not in (RD, WR, RW, RD | WR):
            try:
                self.path(p)
            except Err:
                raise Skip
            raise Err("EINVAL")
        return self.opened(k, self.path(p, not fl & NF and fl & (CR | EXC) != CR | EXC), fl)

    def op_openat(self, k, s, p, fl):
        if self.native and fl & SY or k in self.fds or fl & CR and p.endswith("/"):
            raise Skip
        if fl & (RD | WR | RW | EX | SE) not in (RD, WR, RW, RD | WR):
            try:
                self.pathat(s, p)
            except Err:
                raise Skip
            if s not in self.fds:
                raise Skip
            raise Err("EINVAL")
        return self.opened(k, self.pathat(s, p, not fl & NF and fl & (CR | EXC) != CR | EXC), fl)

    def op_close(self, k):
        os.close(self.fd(k))
        del self.fds[k]
        self.dirs.pop(k, None)
        return 0, None

    def notdir(self, s):
        f = self.fd(s)
        if s in self.dirs:
            raise Skip
        return f

    def op_read(self, s, n):
        f = self.notdir(s)
        b = os.read(f, n)
        return len(b), b

    def op_write(self, s, b):
        f = self.notdir(s)
        if self.native and not b and self.fl[s] & AP:
            raise Skip      # wasmtime then moves to the end
        return os.write(f, b), None

    def op_pread(self, s, n, off):
        if off < 0:
            if s not in self.fds:
                raise Skip
            raise Err("EINVAL")
        b = os.pread(self.notdir(s), n, off)
        return len(b), b

    def op_pwrite(self, s, b, off):
        if off < 0:
            if s not in self.fds:
                raise Skip
            raise Err("EINVAL")
        f = self.notdir(s)
        if self.fl[s] & AP:
            raise Skip      # Linux appends
        return os.pwrite(f, b, off), None

    def op_lseek(self, s, off, wh):
        if wh not in (0, 1, 2):
            raise Err("EINVAL|EBADF")
        f = self.notdir(s)
        return os.lseek(f, off, wh), None

    def op_ftruncate(self, s, n):
        if n < 0:
            if s not in self.fds:
                raise Skip
            raise Err("EINVAL")
        f = self.notdir(s)
        if not self.fl[s] & (WR | RW):
            raise Err("EINVAL|EBADF")
        os.ftruncate(f, n)
        return 0, None

    def stat(self, st):
        return 0, ("stat", KIND[_stat.S_IFMT(st.st_mode)], st.st_size, st.st_nlink)

    def op_fstat(self, s):
        return self.stat(os.fstat(self.fd(s)))

    def op_F_GETFL(self, s):
        self.fd(s)
        f = self.fl[s]
        return ("getfl", 4 if f & RW or f & (RD | WR) == RD | WR else f & 3, f & AP), None

    def op_F_SETFL(self, s, fl):
        f = self.notdir(s)
        import fcntl
        fcntl.fcntl(f, fcntl.F_SETFL, (os.O_APPEND if fl & AP else 0) | (os.O_NONBLOCK if fl & NB else 0))
        self.fl[s] = self.fl[s] & ~(AP | NB) | fl & (AP | NB)
        return 0, None

    def op_isatty(self, s):
        self.fd(s)
        raise Err("ENOTTY")

    def op_fsync(self, s):
        self.notdir(s)
        return 0, None

    op_fdatasync = op_fsync

    def op_posix_fadvise(self, s, off, n, adv):
        if off < 0 or n < 0:
            if s not in self.fds:
                raise Skip
            raise Err("EINVAL")
        self.notdir(s)
        return 0, None

    def op_posix_fallocate(self, s, off, n):
        if off < 0 or n < 0:
            if s not in self.fds:
                raise Skip
            raise Err("EINVAL")
        f = self.notdir(s)
        if not self.fl[s] & (WR | RW) or n == 0 or self.native:
            raise Skip
        os.posix_fallocate(f, off, n)
        return 0, None

    def acc(self, full, m):
        os.stat(full)
        return 0, None

    def op_access(self, p, m):
        if m & 4:
            self.path(p)
            raise Err("EINVAL")
        return self.acc(self.path(p), m)

    def op_faccessat(self, s, p, m, f):
        if m & 4 or f:
            raise Err("EINVAL")
        return self.acc(self.pathat(s, p), m)

    def op_unlink(self, p):
        os.unlink(self.path(p, False, True))
        return 0, None

    def op_unlinkat(self, s, p, m):
        f = self.pathat(s, p, False, True)
        (os.rmdir if m else os.unlink)(f)
        return 0, None

    def op_link(self, p, q):
        os.link(self.path(p, False, True), self.path(q, False, True), follow_symlinks=False)
        return 0, None

    def op_linkat(self, s, p, t, q, m):
        x, y = self.pathat(s, p, bool(m), True), self.pathat(t, q, False, True)
        if m and (os.path.islink(x) or self.native):
            raise Skip          # (not supported by every host)
        os.link(x, y, follow_symlinks=False)
        return 0, None

    def op_symlink(self, t, p):
        os.symlink(t, self.path(p, False, True))
        return 0, None

    def op_symlinkat(self, t, s, p):
        os.symlink(t, self.pathat(s, p, False, True))
        return 0, None

    def rl(self, f, n):
        b = os.readlink(f).encode()[:n]
        return len(b), b

    def op_readlink(self, p, n):
        return self.rl(self.path(p, False), n)

    def op_readlinkat(self, s, p, n):
        return self.rl(self.pathat(s, p, False), n)

    def op_rmdir(self, p):
        os.rmdir(self.path(p, False, True))
        return 0, None

    def op_rmdirat(self, s, p):
        os.rmdir(self.pathat(s, p, False, True))
        return 0, None

    def op_mkdir(self, p):
        os.mkdir(self.path(p, False, True))
        return 0, None

    def op_mkdirat(self, s, p):
        os.mkdir(self.pathat(s, p, False, True))
        return 0, None

    def op_stat(self, p):
        return self.stat(os.stat(self.path(p)))

    def op_lstat(self, p):
        return self.stat(os.lstat(self.path(p, False)))

    def op_fstatat(self, s, p, m):
        return self.stat((os.lstat if m else os.stat)(self.pathat(s, p, not m)))

    def ren(self, x, y):
        for h in [h for _, h in self.pre]:
            if h == x.rstrip("/") or h.startswith(x.rstrip("/") + "/"):
                raise Skip
        os.rename(x, y)
        return 0, None

    def op_rename(self, p, q):
        return self.ren(self.path(p, False, True), self.path(q, False, True))

    def op_renameat(self, s, p, t, q):
        return self.ren(self.pathat(s, p, False, True), self.pathat(t, q, False, True))

    def op_remove(self, p):
        f = self.path(p, False, True)
        try:
            os.unlink(f)
        except IsADirectoryError:
            os.rmdir(f)
        return 0, None

    def lst(self, full):
        if not os.path.isdir(full):
            os.listdir(full)
        return sorted([(".", 3), ("..", 3)] + [(e.name, 7 if e.is_symlink() else 3 if e.is_dir() else 4) for e in os.scandir(full)])

    def op_opendir(self, p, k):
        return 0, ("dir", self.lst(self.path(p)), k)

    def op_opendirat(self, s, p, k):
        return 0, ("dir", self.lst(self.pathat(s, p)), k)

    def op_fdopendir(self, s, k):
        f = self.fd(s)
        if s not in self.dirs:
            raise Err("ENOTDIR|EBADF")
        full = os.readlink("/proc/self/fd/%d" % f)
        if full.endswith(" (deleted)"):
            raise Skip
        return 0, ("dir", self.lst(full), k)

    def sc(self, full, fi, co):
        r = [x for x in self.lst(full) if not (fi == 1 and x[0][0] == "." or fi == 2 and not len(x[0].encode()) & 1)]
        r.sort(key=lambda x: x[0].encode(), reverse=co == 2)
        return len(r), ("scan", r, co)

    def op_scandir(self, p, fi, co):
        return self.sc(self.path(p), fi, co)

    def op_scandirat(self, s, p, fi, co):
        return self.sc(self.pathat(s, p), fi, co)


def populate(root, files):
    for p in sorted(files):
        v = files[p]
        f = root + p
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if v is None:
            os.makedirs(f, exist_ok=True)
        elif isinstance(v, str):
            os.symlink(v, f)
        else:
            with open(f, "wb") as h:
                h.write(v)


def tree(root):
    r = {}
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            f = os.path.join(d, x)
            st = os.lstat(f)
            k = KIND[_stat.S_IFMT(st.st_mode)]
            if k == 7:
                c = os.readlink(f)
            elif k == 4:
                with open(f, "rb") as h:
                    c = (st.st_size, h.read(1 << 16))
                    if st.st_size > 1 << 17:
                        h.seek(st.st_size - (1 << 16))
                        c += (h.read(),)
                    else:
                        c += (h.read(),)
            else:
                c = None
            r[f[len(root):]] = (k, c, st.st_nlink if k == 4 else 0)
    return r


def htree(node, at=""):
    """the same of an emulated host"""
    r = {}
    for n, x in node.ents.items():
        p = at + "/" + n
        if x.kind == 3:
            r[p] = (3, None, 0)
            r.update(htree(x, p))
        elif x.kind == 7:
            r[p] = (7, x.data.decode(), 0)
        else:
            b = bytes(x.data)
            r[p] = (4, (len(b), b[:1 << 16], b[max(1 << 16, len(b) - (1 << 16)):] if len(b) > 1 << 17 else b[1 << 16:]), x.nlink)
    return r


# ---------------------------------------------------------------- generator
COMP = ["a", "b", "c", "l", "d", "e", "x.y", "long-name-0123456789"]


class Steer:
    """a rough idea of what exists"""

    def __init__(self, s, files):
        self.s = s
        self.t = {p: (3 if v is None else 7 if isinstance(v, str) else 4) for p, v in files.items()}
        self.slots = {}

    def pick(self, kind=None, want=(4, 1)):
        s = self.s
        c = [p for p, k in self.t.items() if kind is None or k == kind]
        if c and s.bool(*want if want[0] < want[1] else (4, 5)):
            return s.choice(sorted(c))
        return self.fresh()

    def fresh(self):
        s = self.s
        ds = [""] + [p for p, k in self.t.items() if k == 3]
        d = s.choice(sorted(ds)) if s.bool(4, 5) else s.choice(sorted([""] + list(self.t)))
        return d + "/" + (s.choice(COMP) if s.bool(14, 15) else s.choice(["", "é", "n" * 255, "n" * 256, "..a", "a b", "-"]))

    def spell(self, p, pre):
        """a path inside the root -> one of its names in the program"""
        s = self.s
        c = []
        for g, h in pre:
            hp = "/" + h if h else ""
            if p == hp or p.startswith(hp + "/"):
                c.append((g, p[len(hp):].lstrip("/")))
        g, r = s.choice(c) if c else ("/", p.lstrip("/"))
        if s.bool(1, 8) and r:
            # detours
            q = r.split("/")
            i = s.draw(len(q) - 1)
            q[i:i] = s.choice([["."], [""], ["d", ".."], ["e", ".."], [q[i], ".."]])
            r = "/".join(q)
        if s.bool(1, 25):
            r += "/"
        g2 = Ref.strip(g).rstrip("/")
        r = (g2 + "/" + r if r or s.bool(1, 3) else g2) if g2 else r
        if not r:
            return s.choice(["/", ".", "./", "/."])
        return s.choice(["/", "", "./", "/", "//"]) + r.lstrip("/")


def history(s, native):
    files = {}
    for _ in s.many(0, 8, 6):
        ds = [""] + sorted(p for p, v in files.items() if v is None)
        p = s.choice(ds) + "/" + s.choice(COMP)
        if p in files:
            continue
        if s.bool(3, 7):
            files[p] = None
        elif s.bool(1, 4):
            files[p] = s.choice(["a", "b", "d", "../a", "d/b", "l", ".", "nothere"])
        else:
            files[p] = s.bytes(s.draw(12)) * s.choice([1, 1, 3, 100])
    pre = s.weighted([(4, [("/", "")]), (2, [(".", "")]), (1, [("/", ""), ("/d", "d")]), (1, [("/d", "d"), ("/", "")]), (1, [("/", ""), ("/x", "d"), ("/x/y", "e")]),
                      (1, [("d", "d"), ("e", "e")]), (1, [("/a", "d"), ("/ab", "e"), ("/", "")]), (1, [("/p/q", "d"), ("./p", "e")])])
    for _, h in pre:
        if h and files.get("/" + h, 0) is not None:
            for p in [p for p in files if p == "/" + h or p.startswith("/" + h + "/")]:
                del files[p]
            files["/" + h] = None
    if s.bool(1, 12):
        # a big directory
        for i in range(s.int(20, 120)):
            files["/e/%s%d" % (s.choice(["f", "name", "x" * 40]) if i % 3 else "y" * s.int(1, 200), i)] = b""
        files["/e"] = None
    m = Steer(s, files)
    ops = []
    for _ in s.many(2, 40, 30):
        ops.append(one(s, m, pre, native))
    return dict(files=files, pre=pre, ops=ops)


def offset(s, native):
    return s.weighted([(6, lambda: s.int(0, 40)), (2, lambda: s.int(0, 5000)), (1, lambda: -s.int(1, 40)),
                       (1, lambda: s.choice([1 << 31, (1 << 32) + 5, (1 << 32) - 1, 1 << 33]) if native else s.int(0, 100000))])()


def some(s):
    return bytes((s.int(32, 126) + 7 * i) % 251 for i in range(s.choice([0, 1, 1, 3, 5, 10, 40, 300])))


def one(s, m, pre, native):
    def path(kind=None, want=(4, 5)):
        return m.spell(m.pick(kind, want), pre)

    def old(kind=None):
        p = m.pick(kind)
        return p, m.spell(p, pre)

    def new():
        p = m.fresh() if s.bool(5, 6) else m.pick()
        return p, m.spell(p, pre)

    opened = sorted(m.slots)
    fslots = [k for k in opened if m.slots[k][1] != 3]
    dslots = [k for k in opened if m.slots[k][1] == 3]

    def slot(c=None):
        c = fslots if c is None else c
        return s.choice(c) if c and s.bool(19, 20) else s.choice(opened) if opened and s.bool(5, 6) else s.choice([16, 17])

    def at(p=None):
        """directory slot and relative path"""
        k = slot(dslots)
        base = m.slots[k][0] if k in m.slots else ""
        c = sorted(p[len(base) + 1:] for p in m.t if p.startswith(base + "/"))
        r = s.choice(c) if c and s.bool(3, 4) else s.choice(COMP)
        if s.bool(1, 12):
            r = s.choice(["./" + r, "d/../" + r, r + "/", ".", ""])
        return k, r, base + "/" + r

    c = [(6, "open")]
    if fslots:
        c += [(3, "read"), (4, "write"), (2, "pread"), (2, "pwrite"), (3, "lseek"), (2, "ftruncate"), (1, "F_GETFL"), (1, "F_SETFL"), (1, "fd misc"), (1, "fstat")]
    elif s.bool(1, 6):
        c += [(1, n) for n in ("read", "write", "pread", "pwrite", "lseek", "ftruncate", "F_GETFL", "F_SETFL", "fd misc", "fstat", "close")]
    if opened:
        c += [(2, "close")]
    if dslots:
        c += [(3, "openat"), (1, "unlinkat"), (1, "linkat"), (1, "symlinkat"), (1, "readlinkat"), (1, "rmdirat"), (2, "mkdirat"), (2, "fstatat"), (1, "renameat"),
              (1, "opendirat"), (1, "fdopendir"), (1, "scandirat")]
    else:
        c += [(2, "open dir")]
    c += [(1, "access"), (2, "unlink"), (2, "link"), (2, "symlink"), (2, "readlink"), (2, "rmdir"), (3, "mkdir"), (3, "stat"), (2, "lstat"), (4, "rename"), (2, "remove"), (3, "opendir"), (2, "scandir")]
    n = s.weighted(c)
    if n in ("open", "openat", "open dir"):
        free = [k for k in range(10) if k not in m.slots]
        k = s.choice(free) if free else s.draw(9)
        fl = s.weighted([(3, RD), (2, WR), (3, RW), (1, RD | WR)])
        kind = s.weighted([(4, 4), (1, 3), (1, None)])
        if n == "open dir" or s.bool(1, 5):
            fl, kind = RD | s.choice([DI, DI, 0, DI | NB]), 3
        else:
            if fl != RD and s.bool(1, 4):
                fl |= AP
            if s.bool(1, 2):
                fl |= CR
                if s.bool(1, 4):
                    fl |= EXC
            if fl & ~RD and s.bool(1, 5):
                fl |= TR
            if s.bool(1, 8):
                fl |= s.choice([NF, NB, SY, NF])
            if s.bool(1, 40):
                fl = s.choice([0, RD | EX, WR | SE, RW | EX, CR])
        if n == "openat":
            d, r, p = at()
            o = ("openat", k, d, r, fl)
        else:
            p = m.pick(kind) if not fl & CR or s.bool(1, 2) else m.fresh()
            o = ("open", k, m.spell(p, pre), fl)
        if fl & CR and p not in m.t:
            m.t[p] = 4
        if p in m.t or p == "":
            m.slots[k] = (p, 3 if p == "" else m.t[p])
        return o
    if n == "close":
        k = slot(opened)
        m.slots.pop(k, None)
        return ("close", k)
    if n == "read":
        return (n, slot(), s.choice([0, 1, 3, 10, 100, 5000]))
    if n == "write":
        return (n, slot(), some(s))
    if n == "pread":
        return (n, slot(), s.choice([0, 1, 3, 10, 100, 5000]), offset(s, native))
    if n == "pwrite":
        return (n, slot(), some(s), offset(s, native))
    if n == "lseek":
        return (n, slot(), s.weighted([(3, lambda: s.int(-20, 60)), (1, lambda: offset(s, native))])(), s.choice([0, 0, 1, 1, 2, 2, 0, 1, 2, s.choice([5, 256, -1, 257])]))
    if n == "ftruncate":
        return (n, slot(), offset(s, native))
    if n == "fstat":
        return (n, slot(opened))
    if n == "F_GETFL":
        return (n, slot())
    if n == "F_SETFL":
        return (n, slot(), s.choice([0, AP, AP, NB]))
    if n == "fd misc":
        x = s.choice(["isatty", "fsync", "fdatasync", "posix_fadvise", "posix_fallocate"])
        if x == "posix_fadvise":
            return (x, slot(), offset(s, False), offset(s, False), s.draw(5))
        if x == "posix_fallocate":
            return (x, slot(), offset(s, False), offset(s, False) if not native or s.bool(1, 2) else -1)
        return (x, slot())
    if n == "access":
        return (n, path(), s.choice([0, 1, 2, 3, 4]))
    if n == "faccessat":
        return (n, *at()[:2], s.choice([0, 1, 2, 3, 4]), s.choice([0, 0, 0, 1]))
    if n in ("unlink", "remove"):
        p, q = old(s.choice([4, 7, 4, None]))
        if m.t.get(p) != 3:
            m.t.pop(p, None)
        elif n == "remove" and not any(x.startswith(p + "/") for x in m.t):
            m.t.pop(p, None)
        return (n, q)
    if n == "unlinkat":
        d, r, p = at()
        return (n, d, r, int(m.t.get(p) == 3) ^ int(s.bool(1, 6)))
    if n == "link":
        p, a = old(s.choice([4, 4, 7, None]))
        q, b = new()
        m.t.setdefault(q, m.t.get(p, 4))
        return (n, a, b)
    if n == "linkat":
        d, r, p = at()
        e, t, q = at()
        return (n, d, r, e, t, int(s.bool(1, 4)))
    if n in ("symlink", "symlinkat"):
        t = s.choice(["a", "b", "d", "e/a", "../a", "../d", "l", ".", "nothere", "d/../b", "x" * 300])
        if n == "symlink":
            q, b = new()
            m.t.setdefault(q, 7)
            return (n, t, b)
        return (n, t, *at()[:2])
    if n == "readlink":
        return (n, path(s.choice([7, 7, 7, None])), s.choice([0, 1, 3, 10, 400]) if not native else 400)
    if n == "readlinkat":
        return (n, *at()[:2], s.choice([0, 1, 3, 10, 400]) if not native else 400)
    if n == "rmdir":
        p, q = old(s.choice([3, 3, 3, None]))
        if not any(x.startswith(p + "/") for x in m.t):
            m.t.pop(p, None)
        return (n, q)
    if n in ("rmdirat", "mkdirat"):
        return (n, *at()[:2])
    if n == "mkdir":
        p, q = new()
        m.t.setdefault(p, 3)
        return (n, q)
    if n in ("stat", "lstat"):
        return (n, path())
    if n == "fstatat":
        return (n, *at()[:2], int(s.bool(1, 2)))
    if n == "rename":
        p, a = old()
        q, b = new() if s.bool(2, 3) else old(m.t.get(p))
        if p in m.t:
            for x in [x for x in m.t if x == p or x.startswith(p + "/")]:
                k = m.t.pop(x)
                m.t[q + x[len(p):]] = k
        return (n, a, b)
    if n == "renameat":
        d, r, p = at()
        e, t, q = at()
        return (n, d, r, e, t)
    if n == "opendir":
        return (n, path(s.choice([3, 3, 3, None])), s.choice([0, 1, 2, 5, 30]))
    if n == "opendirat":
        return (n, *at()[:2], s.choice([0, 1, 2, 5, 30]))
    if n == "fdopendir":
        return (n, slot(dslots), s.choice([0, 1, 2, 5, 30]))
    if n == "scandir":
        return (n, path(s.choice([3, 3, 3, None])), s.draw(2), s.draw(2))
    if n == "scandirat":
        return (n, *at()[:2], s.draw(2), s.draw(2))
    raise AssertionError(n)


# ---------------------------------------------------------------- running
def build(ctx):
    if "fsdrv" not in ctx.data:
        ctx.sc.write("fsdrv.c", DRV)
        r = core.wcpl(ctx.tool, ["-o", "fsdrv.wasm", "fsdrv.c"], ctx.sc.dir)
        if r.rc != 0:
            raise core.BuildError("driver fsdrv: %s %s" % (r.rc, r.err.decode("latin-1")[:2000]))
        import wasmtime as w
        ctx.data["fsdrv"] = w.Module(core.engine(), ctx.sc.read("fsdrv.wasm"))
    return ctx.data["fsdrv"]


def reference(ctx, c, native):
    """-> ops performed, their results, the tree"""
    base = os.path.join(ctx.sc.dir, "fs", *"123456789")
    if os.path.exists(base):
        shutil.rmtree(base)
    root = os.path.join(base, "ref")
    os.makedirs(root)
    populate(root, c["files"])
    ref = Ref(root, c["pre"], native)
    ops, res = [], []
    for o in c["ops"]:
        try:
            r = ref.do(o)
        except Skip:
            continue
        ops.append(o)
        res.append(r)
    c["left"] = len(ref.fds)
    ref.close()
    return ops, res, tree(root), base


def finals(c, want):
    """status of everything that is left, asked for at the end"""
    r = []
    for p in sorted(want)[:12]:
        g = [(g, h) for g, h in c["pre"] if not h or p == "/" + h or p.startswith("/" + h + "/")]
        # a granted name hides what lies below it
        for n, h in g:
            n = Ref.strip(n).rstrip("/")
            q = n + p[len(h) + 1 if h else 0:]
            if any(Ref.strip(x).rstrip("/").startswith(n) and len(Ref.strip(x).rstrip("/")) > len(n) and (q.lstrip("/") + "/").startswith(Ref.strip(x).rstrip("/") + "/") for x, _ in c["pre"]):
                continue
            if q.strip("/"):
                r.append((p, ("lstat", q)))
                break
    return r


def judge_final(o, a, st):
    """st: kind, size, links, ino, dev, three times in nanoseconds"""
    rd = Rd(a)
    r, no = rd.i64(), rd.i32()
    rd.u32()
    if r != 0:
        return "%s at the end fails with errno %s" % (show_op(o), WN.get(no, no))
    mode, size, nlink, ino, dev = rd.u32(), rd.i64(), rd.u64(), rd.u64(), rd.u64()
    ts = []
    for _ in range(3):
        t = rd.i64()
        ns = rd.i32()
        ts.append((t, ns))
    got = (mode, size, nlink, ino, dev, *ts)
    want = (MODE[st[0]], *st[1:5], *(divmod(t, 10**9) if t is not None else None for t in st[5]))
    got = tuple(g if w is not None else None for g, w in zip(got, want))        # (not every host passes everything on)
    if got != want:
        return "%s at the end: mode, size, links, inode, device, times %s, expected %s" % (show_op(o), got, want)
    return None


def entries(rd):
    r = []
    while True:
        k = rd.u8()
        if k == 255:
            return r
        ino = rd.u64()
        r.append((rd.blk().decode("utf-8", "replace"), k, ino))


def judge(o, want, a, tol, dup=False):
    n = o[0]
    rd = Rd(a)
    r, no = rd.i64(), rd.i32()
    rd.u32()
    wr, we, wd = want
    if no in (8888, 8887):
        return "memory behind a buffer was changed"
    if n in ("posix_fadvise", "posix_fallocate"):
        w = 0 if wr == 0 else wr
        if w == 0 and r != 0 or w and (r not in W.values() or WN.get(r) not in w.split("|") and (n, w, WN.get(r)) not in tol):
            return "returned %d (%s), expected %s" % (r, WN.get(r), w)
        return None
    if we is not None:
        if r != wr:
            return "returned %d, expected failure with %s" % (r, we)
        got = WN.get(no, no)
        if got not in we.split("|") and (n, we, got) not in tol and ("*", we, got) not in tol and (n, "*", "*") not in tol:
            return "failed with errno %s (%s), expected %s" % (no, got, we)
        return None
    if isinstance(wr, tuple):
        if r & ~(16 | 1024) != wr[1] or r & 16 != wr[2]:
            return "returned flags %#x, expected %#x" % (r, wr[1] | wr[2])
        return None
    if r != wr:
        return "returned %d%s, expected %d" % (r, " (errno %s)" % WN.get(no, no) if r < 0 else "", wr)
    if isinstance(wd, bytes):
        d = rd.raw(len(wd))
        if d != wd:
            return "data %r, expected %r" % (d[:60], wd[:60])
    elif wd and wd[0] == "stat":
        mode, size, nlink = rd.u32(), rd.i64(), rd.i64()
        if mode != MODE[wd[1]]:
            return "st_mode %#x, expected %#x" % (mode, MODE[wd[1]])
        if wd[1] != 3 and (size != wd[2] or nlink != wd[3]):
            return "size %d, %d links; expected %d, %d" % (size, nlink, wd[2], wd[3])
    elif wd and wd[0] == "dir":
        first = entries(rd)
        if len(first) != min(wd[2], len(wd[1])):
            return "%d entries, expected %d" % (len(first), min(wd[2], len(wd[1])))
        rest = entries(rd)
        e1 = rd.i32()
        again = entries(rd)
        e2 = rd.i32()
        whole = entries(rd)
        e3 = rd.i32()
        if e1 or e2 or e3:
            return "end of directory with errno %s" % ([e1, e2, e3],)
        if again != rest:
            return "after seekdir %s, before %s" % (again[:20], rest[:20])
        if whole != first + rest:
            return "after rewinddir %s, before %s" % (whole[:20], (first + rest)[:20])
        g = sorted(x[:2] for x in whole)
        if g != wd[1]:
            return "entries %s, expected %s" % ([x for x in g if x not in wd[1]][:9] or g[:9], [x for x in wd[1] if x not in g][:9] or wd[1][:9])
    elif wd and wd[0] == "scan":
        g = []
        for _ in range(r):
            k = rd.u8()
            rd.u64()
            g.append((rd.blk().decode("utf-8", "replace"), k))
        if wd[2] == 0:
            g, w = sorted(g), sorted(wd[1])
        else:
            w = wd[1]
        if g != w:
            return "names %s, expected %s" % (g[:20], w[:20])
    return None


def difftree(got, want):
    for p in sorted(set(got) | set(want)):
        if got.get(p) != want.get(p):
            return "at the end %s is %s, expected %s" % (p, repr(got.get(p))[:200], repr(want.get(p))[:200])
    return None


def check(c, ops, res, out, run, tol):
    ans = split_answers(out)
    for i, (o, w) in enumerate(zip(ops, res)):
        if i >= len(ans):
            return "op %d %s: no answer; program ends with %s %s" % (i, show_op(o), run.status, run.detail[:300])
        v = judge(o, w, ans[i], tol)
        if v:
            return "op %d %s: %s" % (i, show_op(o), v)
    if run.status != 0:
        return "program ends with %s %s" % (run.status, run.detail[:300])
    return None


def show_op(o):
    return "%s(%s)" % (o[0], ", ".join("#%d" % x if k in "so" else repr(x) if len(repr(x)) < 50 else repr(x)[:40] + "..[%d]" % len(x) for k, x in zip(SIG[o[0]], o[1:])))


def show(c):
    return "\n".join(["granted: %s" % ", ".join("%s = <root>/%s" % x for x in c["pre"]),
                      "tree: %s" % ", ".join("%s%s" % (p, "/" if v is None else " -> " + v if isinstance(v, str) else "[%d]" % len(v)) for p, v in sorted(c["files"].items())[:40])]
                     + ["%3d %s" % (i, show_op(o)) for i, o in enumerate(c["ops"])])
