"""Histories of stream calls: the driver program, the ideal model, the generator."""
import os

from . import clib, core, whost
from .clib import Rd, blk, u32

DRV = r'''
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <wasi/api.h>
unsigned char ib_[65536]; unsigned char ob_[131072]; unsigned char data_[40960]; char ub_[24][600]; char guard_[64];
FILE *f_[24]; fpos_t pos_[8]; long tells_[8];
struct { int ip, in, op, ans; } io_;
int g8(void) { int r = ib_[io_.ip]; io_.ip += 1; return r; }
int g32(void) { int a = g8(); a |= g8() << 8; a |= g8() << 16; a |= g8() << 24; return a; }
void p8(int v) { if (io_.op < 131072) { ob_[io_.op] = (unsigned char)v; io_.op += 1; } }
void p32(int v) { p8(v); p8(v >> 8); p8(v >> 16); p8(v >> 24); }
char *gs(void) { char *r; int n = g32(); r = (char *)&ib_[io_.ip]; io_.ip += n; return r; } /* the terminator is counted */
void flush_(void) { int n = 0, k; while (n < io_.op) { k = (int)write(io_.ans, &ob_[n], (size_t)(io_.op - n)); if (k <= 0) break; n += k; } io_.op = 0; }
int at_(const char *s) { int fd = open(s, O_RDONLY); return fd; }
int junk_; int atx_;
void onexit_(void) { if (f_[atx_] != NULL) fputs("bye", f_[atx_]); }
int main(int argc, char **argv) {
  int fd = open("/req", O_RDONLY), k, i, n, m, r, idx = 0; char *s; char *t; FILE *fp; unsigned long long res;
  for (;;) { k = (int)read(fd, &ib_[io_.in], (size_t)(65536 - io_.in)); if (k <= 0) break; io_.in += k; }
  close(fd);
  io_.ans = open("/ans", O_WRONLY);
  for (i = 0; i < 64; ++i) guard_[i] = (char)(i + 1);
  while (io_.ip < io_.in) {
    int at = io_.op, o = g8();
    bool dead;
    k = g8(); fp = k < 24 ? f_[k] : NULL; r = 0; n = 0;
    if (k < 3 && fp == NULL && idx == 0) { f_[0] = stdin; f_[1] = stdout; f_[2] = stderr; fp = f_[k]; }
    if (idx == 0) { f_[0] = stdin; f_[1] = stdout; f_[2] = stderr; }
    if (k < 24) fp = f_[k];
    clock_res_get((clockid_t)idx, &res); /* tells the host where we are */
    if (res == 77ULL) { size_t sz = 1048576; for (; sz > 0; sz >>= 1) while (malloc(sz) != NULL) continue; }
    idx += 1;
    p32(0);
    memset(&data_[0], 0xA5, 40960);
    errno = 0;
    dead = (fp == NULL && o != 0 && o != 22 && o != 24 && o != 19 && o != 40 && o != 41);
    switch (o) {
      case 0: s = gs(); t = gs(); fp = fopen(s, t); f_[k] = fp; r = fp != NULL; break;
      case 1: if (!dead) { r = fclose(fp); f_[k] = NULL; fp = NULL; } break;
      case 2: if (!dead) r = getc(fp); break;
      case 3: if (!dead) r = fgetc(fp); break;
      case 4: n = g32(); if (!dead) { s = fgets((char *)&data_[0], n, fp); r = s == NULL ? 0 : s == (char *)&data_[0] ? 1 : 2; } break;
      case 5: n = g32(); m = g32(); if (!dead) { r = (int)fread(&data_[0], (size_t)n, (size_t)m, fp); n = n * m; } else n = 0; break;
      case 6: m = g32(); if (!dead) r = ungetc(m, fp); break;
      case 7: m = g32(); if (!dead) r = putc(m, fp); break;
      case 8: m = g32(); if (!dead) r = fputc(m, fp); break;
      case 9: s = gs(); if (!dead) r = fputs(s, fp); break;
      case 10: n = g32(); m = g32(); s = gs(); if (!dead) r = (int)fwrite(s, (size_t)n, (size_t)m, fp); n = 0; break;
      case 11: s = gs(); m = g32(); if (!dead) r = fprintf(fp, "%s<%d>", s, m); break;
      case 12: m = -99; if (!dead) r = fscanf(fp, "%d", &m); data_[0] = (unsigned char)m; data_[1] = (unsigned char)(m >> 8); data_[2] = (unsigned char)(m >> 16); data_[3] = (unsigned char)(m >> 24); n = 4; break;
      case 13: n = g32(); m = g8(); if (!dead) r = fseek(fp, n, m == 0 ? SEEK_SET : m == 1 ? SEEK_CUR : m == 2 ? SEEK_END : 77); n = 0; break;
      case 14: if (!dead) r = (int)ftell(fp); break;
      case 15: if (!dead) rewind(fp); break;
      case 16: m = g8(); if (!dead) r = fgetpos(fp, &pos_[m]); break;
      case 17: m = g8(); if (!dead) r = fsetpos(fp, &pos_[m]); break;
      case 18: if (!dead) r = fflush(fp); break;
      case 19: r = fflush(NULL); fp = NULL; break;
      case 20: n = g8(); m = g32(); i = g8(); if (!dead) r = setvbuf(fp, i ? &ub_[k][40] : NULL, n == 0 ? _IOFBF : n == 1 ? _IOLBF : n == 2 ? _IONBF : 99, (size_t)m); n = 0; break;
      case 21: if (!dead) setbuf(fp, NULL); break;
      case 22: s = gs(); t = gs(); if (fp != NULL) { FILE *g = freopen(s, t, fp); r = g == fp ? 1 : g == NULL ? 0 : 2; f_[k] = g; fp = g; } break;
      case 23: if (!dead) clearerr(fp); break;
      case 24: s = gs(); m = g32(); t = gs(); fd = open(s, m); if (fd < 0) { r = -1; } else { fp = fdopen(fd, t); f_[k] = fp; r = fp != NULL; } break;
      case 25: if (!dead) r = fscanf(fp, "%7s", (char *)&data_[0]); n = 8; break;
      case 26: s = gs(); if (!dead && k == 1) r = puts(s); break;
      case 27: if (!dead && k == 0) r = getchar(); break;
      case 28: m = g32(); if (!dead && k == 1) r = putchar(m); break;
      case 29: m = g32(); if (!dead) { fputc('x', fp); errno = m; perror(NULL); r = 0; } break;
      case 40: flush_(); exit(g8()); break;
      case 41: atx_ = k; r = atexit(&onexit_); break;
      default: abort();
    }
    { int e = errno; p32(r); p32(e); }
    p8(dead);
    p8(fp == NULL ? 9 : (feof(fp) ? 1 : 0) | (ferror(fp) ? 2 : 0));
    p32(n); for (i = 0; i < n && i < 40000; ++i) p8(data_[i]);
    /* nothing written behind the data */
    m = 0; for (i = n + 1; i < n + 64; ++i) if (data_[i] != 0xA5) m += 1;
    for (i = 0; i < 64; ++i) if (guard_[i] != (char)(i + 1)) m += 1;
    if (k < 24) for (i = 0; i < 40; ++i) if (ub_[k][i] != 0) m += 1;
    if (k < 24) for (i = 552; i < 600; ++i) if (ub_[k][i] != 0) m += 1;
    p8(m != 0);
    n = io_.op - at - 4;
    ob_[at] = (unsigned char)n; ob_[at + 1] = (unsigned char)(n >> 8); ob_[at + 2] = (unsigned char)(n >> 16); ob_[at + 3] = (unsigned char)(n >> 24);
    if (io_.op > 60000) flush_();
  }
  clock_res_get((clockid_t)idx, &res);
  flush_();
  return 0;
}
'''
NAMES = ["fopen", "fclose", "getc", "fgetc", "fgets", "fread", "ungetc", "putc", "fputc", "fputs", "fwrite", "fprintf", "fscanf %d", "fseek", "ftell", "rewind",
         "fgetpos", "fsetpos", "fflush", "fflush(NULL)", "setvbuf", "setbuf", "freopen", "clearerr", "fdopen", "fscanf %7s", "puts", "getchar", "putchar", "perror"]
OP = {n: i for i, n in enumerate(NAMES)}
OP["exit"], OP["atexit"] = 40, 41
NAMES += ["?"] * 12
NAMES[40], NAMES[41] = "exit", "atexit"
O_APPEND, O_CREAT, O_EXCL, O_TRUNC = 1, 0x1000, 0x4000, 0x8000
O_RDONLY, O_WRONLY = 0x04000000, 0x10000000


def cs(b):
    b = b.encode() if isinstance(b, str) else b
    return blk(b + b"\0")


def enc(o):
    """(op, slot, *args) -> request bytes"""
    n, k, *a = o
    r = bytes([OP[n], k])
    if n in ("fopen", "freopen"):
        return r + cs(a[0]) + cs(a[1])
    if n == "fgets":
        return r + u32(a[0])
    if n == "fread":
        return r + u32(a[0]) + u32(a[1])
    if n in ("ungetc", "putc", "fputc", "putchar", "perror"):
        return r + u32(a[0])
    if n in ("fputs", "puts"):
        return r + cs(a[0])
    if n == "fwrite":
        return r + u32(a[0]) + u32(a[1]) + cs(a[2])
    if n == "fprintf":
        return r + cs(a[0]) + u32(a[1])
    if n == "fseek":
        return r + u32(a[0]) + bytes([a[1]])
    if n in ("fgetpos", "fsetpos", "exit"):
        return r + bytes([a[0]])
    if n == "setvbuf":
        return r + bytes([a[0]]) + u32(a[1]) + bytes([a[2]])
    if n == "fdopen":
        return r + cs(a[0]) + u32(a[1]) + cs(a[2])
    return r


class S:
    """an ideal stream"""

    def __init__(self, name, rd, wr, app):
        self.name, self.rd, self.wr, self.app = name, rd, wr, app
        self.pos = 0
        self.unk = app          # the position is not specified yet
        self.pb = []
        self.eof = self.err = False
        self.last = None        # None, "r", "w"
        self.fresh = True
        self.eofunk = False     # written to after the end was met
        self.buf = 0            # 0 full, 1 line, 2 none
        self.seekable = True

    def reportable(self):
        return not self.unk and self.pos - len(self.pb) >= 0


class Model:
    def __init__(self, files, stdin=b"", tty=False):
        self.files = {k: bytearray(v) for k, v in files.items() if v is not None}
        self.dirs = {k for k, v in files.items() if v is None}
        self.files["<0>"] = bytearray(stdin)
        self.files["<1>"] = bytearray()
        self.files["<2>"] = bytearray()
        self.s = {}
        for k in (0, 1, 2):
            s = self.s[k] = S("<%d>" % k, k == 0, k != 0, False)
            s.seekable = False
            s.buf = 2 if k == 2 else 1 if tty else 0
        self.marks = {}
        self.atexit = []

    def open(self, name, mode):
        """stream or errno name"""
        plus, x = "+" in mode, "x" in mode
        m = mode[0]
        if m not in "rwa":
            return "INVAL"
        if name in self.dirs:
            if m == "r" and not plus:
                return None     # open of a directory: either way
            return "EXIST" if x else "ISDIR"
        if any(name.startswith(f + "/") for f in self.files):
            return "NOTDIR"
        if "/" in name.strip("/") and name.rsplit("/", 1)[0] not in self.dirs:
            return "NOENT"
        if name not in self.files:
            if m == "r":
                return "NOENT"
            self.files[name] = bytearray()
        elif x and m != "r":
            return "EXIST"
        if m == "w":
            del self.files[name][:]
        return S(name, m == "r" or plus, m != "r" or plus, m == "a")

    def getc(self, s):
        """ideal character input, -1 at end"""
        s.last = "r"
        s.fresh = False
        if s.pb:
            return s.pb.pop()
        if s.eof:
            return -1
        f = self.files[s.name]
        if s.pos < len(f):
            s.pos += 1
            return f[s.pos - 1]
        s.eof = True
        return -1

    def unget(self, s, c):
        s.pb.append(c)
        s.eof = s.eofunk = False

    def write(self, s, b):
        s.last = "w"
        s.fresh = False
        if s.eof:
            s.eof, s.eofunk = False, True
        if not b:
            return
        f = self.files[s.name]
        if s.app:
            s.pos = len(f)
            s.unk = False
        if s.pos > len(f):
            f += bytes(s.pos - len(f))
        f[s.pos:s.pos + len(b)] = b
        s.pos += len(b)

    def seek(self, s, off, wh):
        """True when it succeeds"""
        if not s.seekable:
            return False
        v = off + (0, s.pos - len(s.pb), len(self.files[s.name]))[wh]
        if v < 0:
            return False
        s.pos, s.pb, s.eof, s.last, s.unk, s.fresh, s.eofunk = v, [], False, None, False, False, False
        return True

    def step(self, o):
        """-> dict(r=value or None for don't care or callable, d=data, eof, err)"""
        n, k, *a = o
        s = self.s.get(k)
        e = dict(r=None, d=b"", no=None)
        if n in ("fopen", "freopen"):
            if n == "freopen":
                self.s[k] = None
            x = self.open(a[0], a[1])
            if x is None:
                e["r"] = "any"
            elif isinstance(x, str):
                e["r"], e["no"] = 0, x
            else:
                self.s[k] = x
                e["r"] = 1
        elif n == "fdopen":
            name, fl, mode = a
            acc = fl & (O_RDONLY | O_WRONLY)
            if fl & O_TRUNC:
                del self.files[name][:]
            x = self.s[k] = S(name, mode[0] == "r" or "+" in mode, mode[0] != "r" or "+" in mode, mode[0] == "a" or bool(fl & O_APPEND))
            e["r"] = 1
        elif n == "fclose":
            self.s[k] = None
            e["r"] = 0
        elif n in ("getc", "fgetc", "getchar"):
            e["r"] = self.getc(s)
        elif n == "fgets":
            b = b""
            while len(b) < a[0] - 1:
                c = self.getc(s)
                if c < 0:
                    break
                b += bytes([c])
                if c == 10:
                    break
            e["r"] = 1 if b else 0
            e["d"] = (b + b"\0" if b else b"", "prefix")
        elif n == "fread":
            b = b""
            while len(b) < a[0] * a[1]:
                c = self.getc(s)
                if c < 0:
                    break
                b += bytes([c])
            e["r"] = len(b) // a[0] if a[0] and a[1] else 0
            e["d"] = (b[:e["r"] * a[0]] if a[0] else b"", "prefix")
        elif n == "ungetc":
            if a[0] == -1:
                e["r"] = -1
            else:
                e["r"] = a[0] & 255
                self.unget(s, a[0] & 255)
                s.last = "r"
                s.fresh = False
        elif n in ("putc", "fputc", "putchar"):
            e["r"] = a[0] & 255
            self.write(s, bytes([a[0] & 255]))
        elif n == "fputs":
            e["r"] = "nonneg"
            self.write(s, a[0])
        elif n == "puts":
            e["r"] = "nonneg"
            self.write(s, a[0] + b"\n")
        elif n == "perror":
            self.write(s, b"x")
        elif n == "fwrite":
            e["r"] = a[1] if a[0] else 0
            self.write(s, a[2][:a[0] * a[1]])
        elif n == "fprintf":
            b = a[0] + b"<%d>" % a[1]
            e["r"] = len(b)
            self.write(s, b)
        elif n == "fscanf %d":
            c = self.getc(s)
            while c in (32, 9, 10, 11, 12, 13):
                c = self.getc(s)
            v, e["d"] = b"", u32(-99)
            if c < 0:
                e["r"] = -1
            else:
                if c in b"+-":
                    v = bytes([c])
                    c = self.getc(s)
                while 48 <= c <= 57:
                    v += bytes([c])
                    c = self.getc(s)
                if c >= 0:
                    self.unget(s, c)
                if v[-1:].isdigit():
                    if abs(int(v)) >= 1 << 31:
                        e["r"], e["d"] = 1, None
                    else:
                        e["r"], e["d"] = 1, u32(int(v))
                else:
                    e["r"] = 0 if v == b"" or c >= 0 else "eofany"
        elif n == "fscanf %7s":
            c = self.getc(s)
            while c in (32, 9, 10, 11, 12, 13):
                c = self.getc(s)
            v = b""
            if c < 0:
                e["r"], e["d"] = -1, None
            else:
                while c >= 0 and c not in (32, 9, 10, 11, 12, 13) and len(v) < 7:
                    v += bytes([c])
                    if len(v) < 7:
                        c = self.getc(s)
                    else:
                        c = -2
                if c >= 0:
                    self.unget(s, c)
                e["r"], e["d"] = 1, (v + b"\0", "prefix")
        elif n == "fseek":
            if a[1] == 3:
                e["r"] = "nonzero"
            else:
                e["r"] = 0 if self.seek(s, a[0], a[1]) else "nonzero"
        elif n == "ftell":
            e["r"] = s.pos - len(s.pb) if s.seekable else -1
        elif n == "rewind":
            if self.seek(s, 0, 0):
                s.err = False
        elif n == "fgetpos":
            self.marks[a[0]] = (s.name, s.pos - len(s.pb))
            e["r"] = 0
        elif n == "fsetpos":
            self.seek(s, self.marks[a[0]][1], 0)
            e["r"] = 0
        elif n == "fflush":
            e["r"] = 0
            if s.last == "w":
                s.last = None
            elif s.last == "r" and s.seekable and s.wr:
                s.last = "r"
        elif n == "fflush(NULL)":
            e["r"] = 0
            for x in self.s.values():
                if x is not None and x.last == "w":
                    x.last = None
        elif n in ("setvbuf", "setbuf"):
            if n == "setvbuf" and a[0] > 2:
                e["r"] = "nonzero"
            else:
                s.buf = 2 if n == "setbuf" else a[0]
                e["r"] = 0 if n == "setvbuf" else None
        elif n == "clearerr":
            s.eof = s.err = s.eofunk = False
        elif n == "atexit":
            self.atexit.append(k)
            e["r"] = 0
        if n == "atexit":
            pass
        elif n == "fflush(NULL)":
            e["st"] = 9
        else:
            s = self.s.get(k)
            e["st"] = None if e["r"] == "any" else 9 if s is None else (1 if s.eof else 0) | (2 if s.err else 0)
            if s is not None and s.eofunk:
                e["st"] = (e["st"], 1)      # the end-of-file indicator is not compared
        return e


TEXT = b"0123456789 abc\nxyz -17\t+4 \n\n99999 q\xff\x00\x80end 5"


def some(s, n):
    if s.bool(1, 4):
        return s.bytes(n)
    o = s.draw(len(TEXT) - 1)
    return (TEXT[o:] + TEXT * (n // len(TEXT) + 1))[:n]


def amount(s):
    return s.weighted([(6, lambda: s.int(1, 12)), (3, lambda: s.int(0, 80)), (2, lambda: s.choice([1, 7, 8, 9, 15, 16, 503, 504, 511, 512, 513, 520]) + s.int(-1, 1)),
                       (2, lambda: s.choice([1023, 1024, 1031, 1032, 1033, 2048, 2064, 3000])), (1, lambda: s.int(100, 4000))])()


MODES = ["r", "w", "a", "r+", "w+", "a+", "rb", "wb", "w+b", "wb+", "r+b", "ab+", "wx", "w+x"]


def readable(m, s):
    return s.rd and not s.unk and not s.eofunk and not (s.wr and s.last == "w")


def writable(m, s):
    return s.wr and not (s.rd and s.last == "r" and not (s.eof and not s.pb))


def pick_op(s, m, k):
    """a legal operation on open stream k"""
    st = m.s[k]
    c = []
    if readable(m, st):
        c += [(5, "getc"), (2, "fgetc"), (4, "fgets"), (5, "fread"), (1, "fscanf %d"), (1, "fscanf %7s")]
        if not st.pb:
            c += [(4, "ungetc")]
        if k == 0:
            c += [(2, "getchar")]
    if writable(m, st):
        c += [(5, "putc"), (2, "fputc"), (4, "fputs"), (5, "fwrite"), (2, "fprintf")]
        if k == 1:
            c += [(2, "puts"), (2, "putchar")]
    if st.seekable:
        c += [(5, "fseek"), (1, "rewind")]
        if st.reportable():
            c += [(4, "ftell"), (2, "fgetpos")]
        if any(v[0] == st.name for v in m.marks.values()):
            c += [(2, "fsetpos")]
    elif st.reportable() and not st.pb:
        c += [(1, "ftell"), (1, "fseek")]
    if st.wr and st.last != "r" or st.seekable and not st.pb:
        c += [(3, "fflush")]
    c += [(2, "fclose"), (1, "clearerr"), (1, "freopen")]
    if st.fresh:
        c += [(9, "setvbuf"), (1, "setbuf")]
    n = s.weighted(c)
    if n == "fgets":
        return (n, k, max(2, amount(s) + 1))
    if n == "fread":
        t = amount(s)
        z = s.weighted([(5, 1), (1, 2), (1, 3), (1, 7), (1, 1024), (1, 0)])
        return (n, k, z, s.draw(3) if z == 1024 else t // max(z, 1))
    if n == "ungetc":
        f = m.files[st.name]
        p = st.pos - 1
        if 0 <= p < len(f) and s.bool(1, 2):
            return (n, k, f[p])
        return (n, k, s.weighted([(6, 120), (3, s.draw(255)), (1, -1), (1, 255), (1, 256 + 65), (1, -2)]))
    if n in ("putc", "fputc", "putchar"):
        return (n, k, s.weighted([(6, 97 + s.draw(25)), (3, 10), (2, s.draw(255)), (1, -1), (1, 0x141), (1, 255)]))
    if n in ("fputs", "puts"):
        return (n, k, some(s, amount(s)).replace(b"\0", b"z"))
    if n == "fwrite":
        t = amount(s)
        z = s.weighted([(5, 1), (1, 2), (1, 3), (1, 7), (1, 1024), (1, 0)])
        cnt = s.draw(3) if z == 1024 else t // max(z, 1)
        return (n, k, z, cnt, some(s, z * cnt))
    if n == "fprintf":
        return (n, k, some(s, amount(s)).replace(b"\0", b"z"), s.int(-1000, 1000))
    if n == "fseek":
        wh = s.weighted([(4, 0), (5, 1 if st.reportable() else 0), (3, 2), (1, 3 if not st.pb else 0)])
        ln = len(m.files[st.name])
        if wh == 0:
            off = s.weighted([(5, lambda: s.draw(ln + 3)), (3, lambda: max(0, st.pos + s.int(-12, 12))), (1, lambda: -1 - s.draw(3)), (1, lambda: ln + s.draw(2000))])()
        elif wh == 1:
            off = s.weighted([(6, lambda: s.int(-12, 12)), (2, lambda: 0), (2, lambda: s.int(-1100, 1100)), (1, lambda: -st.pos)])()
        else:
            off = s.weighted([(5, lambda: -s.draw(ln + 2)), (2, lambda: 0), (1, lambda: s.draw(40))])()
        cur = (0, st.pos - len(st.pb), ln, 0)[wh]
        if st.pb and cur + off < 0:
            off = 0 if wh != 2 else -ln      # what a failing seek does to pushed back characters is not specified
        return (n, k, off, wh)
    if n == "fgetpos":
        return (n, k, s.draw(7))
    if n == "fsetpos":
        return (n, k, s.choice([i for i in sorted(m.marks) if m.marks[i][0] == st.name]))
    if n == "setvbuf":
        mode = s.weighted([(3, 0), (3, 1), (3, 2), (1, 3)])
        user = s.draw(1)
        size = s.choice([512, 9, 10, 11, 16, 17, 64, 0, 1, 8, 500]) if user else s.choice([512, 1, 7, 8, 9, 10, 16, 64, 100, 1024, 0, 5000])
        if user and size == 0:
            user = 0
        return (n, k, mode, size, user)
    if n == "freopen":
        return opening(s, m, k, n, {x.name for i, x in m.s.items() if x is not None and i != k})
    return (n, k)


FILES = ["/a", "/b", "/c", "/d", "/sub/e", "/new1", "/new2", "/sub/new3"]


def opening(s, m, k, n, busy_any=None):
    """a legal fopen/freopen: no file is open twice unless all its streams only read"""
    wr = {x.name for i, x in m.s.items() if x is not None and x.wr and i != k}
    any_ = {x.name for i, x in m.s.items() if x is not None and i != k}
    c = s.weighted([(20, 0), (1, 1), (1, 2)])
    if c == 1:
        return (n, k, s.choice(["/nosuch/x", "/a/x", "/missing"]), s.choice(["r", "r+"]))
    if c == 2:
        return (n, k, "/sub", s.choice(["w", "r+", "a", "w+"]))
    mode = s.choice(MODES)
    ro = mode[0] == "r" and "+" not in mode
    ok = [f for f in FILES if f not in (wr if ro else any_)]
    if not ok:
        return (n, k, "/missing", "r")
    if ro or mode[0] == "r":
        e = [f for f in ok if f in m.files]
        if e and s.bool(9, 10):
            ok = e
    return (n, k, s.choice(ok), mode)


def fdopening(s, m, k):
    any_ = {x.name for i, x in m.s.items() if x is not None}
    ok = [f for f in FILES if f not in any_ and f in m.files]
    if not ok:
        return opening(s, m, k, "fopen")
    name = s.choice(ok)
    mode = s.choice(["r", "w", "a", "r+", "w+", "a+"])
    fl = {"r": O_RDONLY, "w": O_WRONLY, "a": O_WRONLY | O_APPEND}[mode[0]]
    if "+" in mode:
        fl |= O_RDONLY | O_WRONLY
    if mode == "a" and s.bool(1, 3):
        fl &= ~O_APPEND
    if s.bool(1, 5):
        fl |= O_TRUNC if fl & O_WRONLY else 0
    return ("fdopen", k, name, fl, mode)


def history(s, std=False, many=False, nmax=60):
    """-> dict(files, stdin, tty, ops); ops legal in C and judged by the model"""
    files = {"/sub": None}
    for f in FILES[:5]:
        if s.bool(3, 4):
            files[f] = some(s, amount(s) if s.bool(2, 3) else s.choice([0, 1, 1024, 2064, 5000]))
    tty = std and s.bool(1, 2)
    stdin = some(s, amount(s)) if std else b""
    m = Model(files, stdin, tty)
    ops, exps = [], []
    slots = list(range(3, 23)) if many else list(range(3, 3 + s.int(1, 4)))
    nopen = 0
    for _ in s.many(3, nmax, 30):
        live = [k for k in slots if m.s.get(k) is not None]
        if std:
            live += [k for k in (0, 1, 2) if m.s.get(k) is not None] * 2
        if not live or (len(live) < len(slots) and s.bool(1, 2 if many else 12)):
            k = s.choice([k for k in slots if m.s.get(k) is None] or slots)
            if m.s.get(k) is not None:
                continue
            o = opening(s, m, k, "fopen") if s.bool(7, 8) else fdopening(s, m, k)
        elif s.bool(1, 25):
            o = ("fflush(NULL)", 255)
        elif s.bool(1, 60) and live:
            k = s.choice([k for k in live])
            if not (m.s[k].wr and not m.s[k].rd) or m.atexit:
                continue
            o = ("atexit", k)
        else:
            # mostly stay with one stream
            if ops and ops[-1][1] in live and s.bool(3, 4):
                k = ops[-1][1]
            else:
                k = s.choice(live)
            o = pick_op(s, m, k)
        n, k = o[0], o[1]
        if n in ("fclose", "freopen") and m.atexit and k in m.atexit:
            continue
        if n in ("fclose", "freopen") and k < 3 and s.bool(3, 4):
            continue
        full = n in ("fopen", "fdopen") and sum(x is not None for x in m.s.values()) >= 20
        if full:
            if n == "fdopen" or o[3][0] != "r":
                continue
            ops.append(o)
            exps.append(dict(r=0, d=b"", st=9, no=None))
            s.tag("FOPEN_MAX")
            continue
        ask = None
        if n in ("getc", "fgetc", "getchar", "fgets", "fread", "fscanf %d", "fscanf %7s") and m.s[k].buf:
            # before input for an unbuffered or line-buffered stream is asked for, line-buffered output is delivered
            ask = {y.name: bytes(m.files[y.name]) for y in m.s.values() if y is not None and y.buf == 1 and y.last == "w"}
        x = m.step(o)
        ops.append(o)
        if ask:
            x["ask"] = ask
            s.tag("prompt")
        if x["r"] == "any":
            continue
        x["disk"] = None
        st = m.s.get(k)
        data = None
        if n in ("fclose", "freopen", "fflush", "fflush(NULL)", "exit"):
            x["disk"] = "all" if n == "fflush(NULL)" else "closed" if st is None or n in ("fclose", "freopen") else st.name
        elif n in ("putc", "fputc", "fputs", "fwrite", "fprintf", "puts", "putchar") and st is not None:
            b = bytes([o[2] & 255]) if n in ("putc", "fputc", "putchar") else o[2] + b"\n" if n == "puts" else o[4] if n == "fwrite" else o[2] + b">"
            if st.buf == 2 or st.buf == 1 and b.endswith(b"\n"):
                x["disk"] = st.name
        if x["disk"]:
            open_w = {y.name for y in m.s.values() if y is not None and y.wr}
            names = list(m.files) if x["disk"] == "all" else [f for f in m.files if f not in open_w] if x["disk"] == "closed" else [x["disk"]]
            x["disk"] = {f: bytes(m.files[f]) for f in names if f != "<0>"}
        if n == "ungetc":
            s.tag("pushback")
        if st is not None:
            if st.rd and st.wr and st.last == "w":
                s.tag("update write")
            if st.eof:
                s.tag("end of file")
            if n == "fseek" and st.rd and st.pos < len(m.files[st.name]):
                s.tag("seek inside")
            if st.app and st.last == "w":
                s.tag("append")
            s.tag("buffering %d" % st.buf)
        exps.append(x)
    code = None
    if s.bool(1, 2):
        code = s.choice([0, 7])
        ops.append(("exit", 255, code))
    for k in m.atexit:
        if m.s.get(k) is not None and writable(m, m.s[k]):
            m.write(m.s[k], b"bye")
        elif m.s.get(k) is not None:
            pass
    final = {f: bytes(v) for f, v in m.files.items() if f != "<0>"}
    return dict(files=files, stdin=stdin, tty=tty, ops=ops, exps=exps, final=final, code=code or 0, exits=code is not None)


def build(ctx, name="streams", opts=(), drv=DRV):
    k = "drv-" + name
    if k not in ctx.data:
        ctx.sc.write(name + ".c", drv)
        r = core.wcpl(ctx.tool, ["-o", name + ".wasm", *opts, name + ".c"], ctx.sc.dir)
        if r.rc != 0:
            raise core.BuildError("driver %s: %s %s" % (name, r.rc, r.err.decode("latin-1")[:2000]))
        import wasmtime as w
        ctx.data[k] = w.Module(core.engine(), ctx.sc.read(name + ".wasm"))
    return ctx.data[k]


def host_for(c, fault=None, log=False):
    files = dict(c["files"])
    files["/req"] = b"".join(enc(o) for o in c["ops"])
    files["/ans"] = b""
    return whost.Host(files=files, stdin=c["stdin"], tty=(0, 1, 2) if c["tty"] else (), fault=fault, log=log)


def disk(h, name):
    if name.startswith("<"):
        return bytes(h.outs[int(name[1])])
    return h.get(name)


def show_op(o):
    n, k, *a = o
    return "%s(%s)" % (n, ", ".join(["#%d" % k if k < 24 else "-"] + [repr(x) if len(repr(x)) < 60 else "%s...[%d]" % (repr(x)[:40], len(x)) for x in a]))


def show(c, upto=None):
    r = ["files: %s" % ", ".join("%s[%s]" % (f, "dir" if v is None else len(v)) for f, v in sorted(c["files"].items()))]
    if c["stdin"] or c["tty"]:
        r.append("stdin: %d bytes%s" % (len(c["stdin"]), ", terminal" if c["tty"] else ""))
    for i, o in enumerate(c["ops"] if upto is None else c["ops"][:upto + 1]):
        r.append("%3d %s" % (i, show_op(o)))
    return "\n".join(r)
