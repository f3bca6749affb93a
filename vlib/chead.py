"""What the standard headers give: constants, types, format macros and declarations."""
import re

from . import cconst, cgen
from .cgen import (BOOL, CHAR, SCHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, LLONG, ULLONG, FLOAT, DOUBLE, Ex)

# ------------------------------------------------ constants and types in expressions

# (the type of UINT8_C and UINT16_C is the promoted one, C99 7.18.4; clang's own header makes it unsigned)
HEAD = ("#include <limits.h>\n#include <float.h>\n#include <stdint.h>\n"
        "#ifndef __WCPL__\n#undef UINT8_C\n#undef UINT16_C\n#define UINT8_C(c) c\n#define UINT16_C(c) c\n#endif\n")

INTC = {
    INT: "CHAR_BIT CHAR_MAX CHAR_MIN INT_MAX INT_MIN SCHAR_MAX SCHAR_MIN SHRT_MAX SHRT_MIN UCHAR_MAX USHRT_MAX INT8_MIN INT8_MAX INT16_MIN INT16_MAX "
         "INT32_MIN INT32_MAX UINT8_MAX UINT16_MAX INT_FAST8_MIN INT_FAST8_MAX UINT_FAST8_MAX INT_LEAST8_MIN INT_LEAST8_MAX UINT_LEAST8_MAX INT_LEAST16_MIN "
         "INT_LEAST16_MAX UINT_LEAST16_MAX INT_LEAST32_MIN INT_LEAST32_MAX WCHAR_MIN WCHAR_MAX WINT_MIN WINT_MAX "
         "DBL_DIG DBL_MANT_DIG DBL_MAX_10_EXP DBL_MAX_EXP DBL_MIN_10_EXP DBL_MIN_EXP FLT_DIG FLT_MANT_DIG FLT_MAX_10_EXP FLT_MAX_EXP FLT_MIN_10_EXP FLT_MIN_EXP FLT_RADIX",
    UINT: "UINT_MAX UINT32_MAX UINT_LEAST32_MAX",
    LONG: "LONG_MAX LONG_MIN INTPTR_MIN INTPTR_MAX PTRDIFF_MIN PTRDIFF_MAX",
    ULONG: "ULONG_MAX SIZE_MAX UINTPTR_MAX",
    LLONG: "LLONG_MAX LLONG_MIN INT64_MIN INT64_MAX INTMAX_MIN INTMAX_MAX INT_FAST64_MIN INT_FAST64_MAX INT_LEAST64_MIN INT_LEAST64_MAX",
    ULLONG: "ULLONG_MAX UINT64_MAX UINTMAX_MAX UINT_FAST64_MAX UINT_LEAST64_MAX",
    DOUBLE: "DBL_MAX DBL_MIN DBL_EPSILON",
    FLOAT: "FLT_MAX FLT_MIN FLT_EPSILON",
}
INTC = {t: x.split() for t, x in INTC.items()}
CMAC = [("INT8_C", INT, -128, 127), ("UINT8_C", INT, 0, 255), ("INT16_C", INT, -32768, 32767), ("UINT16_C", INT, 0, 65535), ("INT32_C", INT, -2147483647, 2147483647),
        ("INT64_C", LLONG, -2147483647, 2147483647), ("UINT32_C", UINT, 0, 2147483647), ("UINT64_C", ULLONG, 0, 2147483647)]

NAMES = {
    "signed char": ["int8_t", "int_least8_t", "int_fast8_t"],
    "unsigned char": ["uint8_t", "uint_least8_t", "uint_fast8_t"],
    "short": ["int16_t", "int_least16_t"],
    "unsigned short": ["uint16_t", "uint_least16_t"],
    "int": ["int32_t", "int_least32_t", "wchar_t"],
    "unsigned": ["uint32_t", "uint_least32_t"],
    "long": ["ptrdiff_t", "intptr_t"],
    "unsigned long": ["size_t", "uintptr_t"],
    "long long": ["int64_t", "int_least64_t", "int_fast64_t", "intmax_t"],
    "unsigned long long": ["uint64_t", "uint_least64_t", "uint_fast64_t", "uintmax_t"],
}
CAST = re.compile(r"\((%s)\)" % "|".join(sorted(NAMES, key=len, reverse=True)))
DECL = re.compile(r"(?m)^(\s*)(%s) (v\d+_\d+;)" % "|".join(sorted(NAMES, key=len, reverse=True)))


class HG(cconst.FG):
    def leaf(self, want=None):
        s = self.s
        if s.bool(1, 4):
            return super().leaf(want)
        if s.bool(1, 8) and want != "f":
            n, t, lo, hi = s.choice(CMAC)
            v = s.choice([lo, hi, 0 if lo <= 0 else lo, 1, s.int(max(lo, 0), hi)])
            x = "%s(%d)" % (n, v)
            s.tag(n)
        elif s.bool(1, 8) and want != "f":
            n = s.choice(s.choice(list(NAMES.values())))
            s.tag(n)
            return Ex("(int)sizeof(%s)" % n, INT, 14)
        else:
            t = s.choice([t for t in INTC if want is None or (t.kind == "i") == (want == "i")])
            x = s.choice(INTC[t])
            s.tag(x)
        self.lits.append((x, t))
        return Ex("\x01%d\x02" % (len(self.lits) - 1), t, 16)


def respell(s, x):
    def c(m):
        if s.bool(2, 3):
            n = s.choice(NAMES[m[1]])
            s.tag(n)
            return "(%s)" % n
        return m[0]

    def d(m):
        if s.bool(1, 2):
            n = s.choice(NAMES[m[2]])
            s.tag(n)
            return "%s%s %s" % (m[1], n, m[3])
        return m[0]
    # a literal converted for a static initialiser keeps its plain type where _Generic looks at it
    return DECL.sub(d, CAST.sub(c, x))


def const_case(s):
    top, main = cconst.const_case(s, HG)
    top = respell(s, top)
    # properties of the type names themselves
    out = []
    for _ in range(s.draw(3)):
        n = s.choice(s.choice(list(NAMES.values())))
        k = s.draw(4)
        s.tag("type-" + n)
        if k == 0:
            out.append("  ei((int)((%s)(-1) < (%s)0));" % (n, n))
        elif k == 1:
            out.append("  { %s x[3]; ei((int)sizeof(x)); ei((int)alignof(%s)); }" % (n, n))
        elif k == 2:
            x, p = cgen.lit(s, s.choice(cgen.INTS))
            out.append("  ei((long long)(%s)(%s));" % (n, x))
        else:
            top += "\ntypedef struct { char a; %s b; char c; } st%d_@@;" % (n, len(out))
            out.append("  ei((int)sizeof(st%d_@@)); ei((int)offsetof(st%d_@@, c));" % (len(out), len(out)))
    if out:
        top += "\nvoid t_@@(void) {\n%s\n}\n" % "\n".join(out)
        main += " t_@@();"
    return top, main

# ------------------------------------------------ format macros

from . import cprintf  # noqa: E402

KINDS = [("%d" % n, "int%d_t" % n, n) for n in (8, 16, 32, 64)] + [("LEAST%d" % n, "int_least%d_t" % n, n) for n in (8, 16, 32, 64)] + \
        [("FAST%d" % n, "int_fast%d_t" % n, m) for n, m in ((8, 8), (16, 32), (32, 32), (64, 64))] + [("MAX", "intmax_t", 64), ("PTR", "intptr_t", 32)]


def value(s, bits, signed):
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    k = s.draw(5)
    v = (lo, hi, 0, s.draw(hi), -s.draw(hi), (1 << s.draw(bits - 1)) - s.draw(2))[k]
    return max(lo, min(hi, v))


def clit(v, bits, signed):
    if bits == 64:
        if not signed:
            return "%dULL" % v
        return "(-9223372036854775807LL - 1LL)" if v == -(1 << 63) else "%dLL" % v
    if not signed:
        return "%dU" % v if bits == 32 else "%d" % v
    return "(-2147483647 - 1)" if v == -(1 << 31) else "%d" % v


def fmt_case(s):
    """(statements, expected output)"""
    out, exp = [], []
    for _ in s.many(1, 6, 6):
        if s.bool(3, 5):
            fmt, args, dec, e = '"', [], [], ""
            for j in s.many(1, 3, 6):
                conv = s.choice("diouxX")
                nm, ty, bits = s.choice(KINDS)
                sg = conv in "di"
                v = value(s, bits, sg)
                fl = "".join(f for f in ("-", "+", "0") if s.bool(1, 4) and not (f == "+" and not sg))
                if "-" in fl:
                    fl = fl.replace("0", "")
                w = s.draw(26) if s.bool() else 0
                pre = s.choice(["", " ", "v=", "[", "%%"])
                fmt += '%s%%%s%s" PRI%s%s "' % (pre, fl, w or "", conv, nm)
                s.tag("PRI%s%s" % (conv, nm))
                dec.append("%s%s a%d; a%d = %s;" % ("" if sg else "u", ty, j, j, clit(v, bits, sg)))
                args.append("a%d" % j)
                e += pre.replace("%%", "%") + cprintf.fmt_int(conv, fl, w, None, v)
            out.append('  { %s printf(%s\\n", %s); }' % (" ".join(dec), fmt, ", ".join(args)))
            exp.append(e)
        else:
            conv = s.choice("dioux")
            nm, ty, bits = s.choice(KINDS)
            s.tag("SCN%s%s" % (conv, nm))
            sg = conv in "di"
            v = value(s, bits, sg)
            a = abs(v)
            if conv == "i":
                t = s.choice(["%d", "0x%x", "0X%X", "0%o"]) % a
            else:
                t = {"d": "%d", "u": "%d", "o": "%o", "x": s.choice(["%x", "%X", "0x%x"])}[conv] % a
            t = s.choice(["", " ", "\\t  "]) + ("-" if v < 0 else s.choice(["", "+"]) if sg else "") + t
            u = "" if sg else "u"
            g = s.choice([0, 1, 85])
            out.append('  { struct gd_%d_@@ { %s%s g, v, h; } x; int n; x.g = %d; x.v = 7; x.h = %d; n = sscanf("%s;", "%%" SCN%s%s ";", &x.v);\n'
                       '    printf("%%d %%d %%d %%lld\\n", n, (int)x.g, (int)x.h, (long long)x.v); }' % (len(out), u, ty, g, g + 1, t, conv, nm))
            exp.append("1 %d %d %d" % (g, g + 1, v if v < 1 << 63 else v - (1 << 64)))
    return "\n".join(out), "".join(x + "\n" for x in exp)


def fmt_program(cases):
    top = ["#include <stdio.h>\n#include <inttypes.h>"]
    for i, (b, e) in enumerate(cases):
        top.append(("void f_@@(void) {\n%s\n}" % b).replace("@@", str(i)))
    top.append("int main(void) {\n%s\n  return 0;\n}\n" % "\n".join('  printf("=\\n"); f_%d();' % i for i in range(len(cases))))
    return "\n".join(top)

# ------------------------------------------------ declarations and numbers, any headers in any order

PROTOS = {
    "ctype": """
int isalnum(int c)
int isalpha(int c)
int iscntrl(int c)
int isdigit(int c)
int isgraph(int c)
int islower(int c)
int isprint(int c)
int ispunct(int c)
int isspace(int c)
int isupper(int c)
int isxdigit(int c)
int toupper(int c)
int tolower(int c)
int isascii(int c)
int isblank(int c)
""",
    "dirent": """
DIR * fdopendir(int fd)
int fdclosedir(DIR *dirp)
DIR * opendirat(int dirfd, const char *dirname)
DIR * opendir(const char *dirname)
int dirfd(DIR *dirp)
int closedir(DIR *dirp)
struct dirent * readdir(DIR *dirp)
void rewinddir(DIR *dirp)
void seekdir(DIR *dirp, long loc)
long telldir(DIR *dirp)
int scandirat(int dirfd, const char *dir, struct dirent ***namelist, int (*filter)(const struct dirent *), int (*compar)(const struct dirent **, const struct dirent **))
int scandir(const char *dir, struct dirent ***namelist, int (*filter)(const struct dirent *), int (*compar)(const struct dirent **, const struct dirent **))
int alphasort(const struct dirent **a, const struct dirent **b)
""",
    "errno": """
""",
    "fcntl": """
int open(const char *path, int oflags)
int openat(int fd, const char *path, int oflags)
int fcntl(int fd, int cmd, ...)
int posix_fadvise(int fd, off_t offset, off_t len, int advice)
int posix_fallocate(int fd, off_t offset, off_t len)
int find_relpath(const char *path, char **relpath)
""",
    "fenv": """
void feclearexcept(int excepts)
void fegetexceptflag(fexcept_t* flagp, int excepts)
void feraiseexcept(int excepts)
void fesetexceptflag(const fexcept_t* flagp, int excepts)
int fetestexcept(int excepts)
int fegetround(void)
int fesetround(int round)
void fegetenv(fenv_t* envp)
int feholdexcept(fenv_t* envp)
void fesetenv(const fenv_t* envp)
void feupdateenv(const fenv_t* envp)
""",
    "math": """
double acos(double x)
double asin(double x)
double atan(double x)
double atan2(double x, double y)
double cos(double x)
double sin(double x)
double tan(double x)
double cosh(double x)
double sinh(double x)
double tanh(double x)
double exp(double x)
double frexp(double value, int *exp)
double ldexp(double x, int exp)
double log(double x)
double log10(double x)
double modf(double value, double *iptr)
double pow(double x, double y)
double sqrt(double x)
double ceil(double x)
double fabs(double x)
double floor(double x)
double fmod(double x, double y)
int fpclassify(double x)
int isfinite(double x)
int isinf(double x)
int isnan(double x)
int isnormal(double x)
int signbit(double x)
double copysign(double x, double y)
double scalbn(double x, int n)
double round(double x)
double trunc(double x)
double nearbyint(double x)
double fmax(double x, double y)
double fmin(double x, double y)
double expm1(double x)
""",
    "stdio": """
FILE * fopen(const char *filename, const char *mode)
FILE * fdopen(int fd, const char *mode)
FILE * freopen(const char *filename, const char *mode, FILE *stream)
int fclose(FILE *stream)
int fgetc(FILE *stream)
char * fgets(char *s, int n, FILE *stream)
int fputc(int c, FILE *stream)
int fputs(const char *s, FILE *stream)
int puts(const char *s)
int ungetc(int c, FILE *stream)
size_t fread(void *ptr, size_t size, size_t nobj, FILE *stream)
size_t fwrite(const void *ptr, size_t size, size_t nobj, FILE *stream)
int fseek(FILE *stream, long offset, int origin)
long ftell(FILE *stream)
void rewind(FILE *stream)
int fgetpos(FILE *stream, fpos_t *ptr)
int fsetpos(FILE *stream, const fpos_t *ptr)
int fflush(FILE *stream)
int setvbuf(FILE *stream, char *buf, int mode, size_t size)
void setbuf(FILE *stream, char *buf)
int fprintf(FILE *stream, const char *format, ...)
int printf(const char *format, ...)
int sprintf(char *s, const char *format, ...)
int snprintf(char *s, size_t count, const char *format, ...)
int vprintf(const char *format, va_list arg)
int vfprintf(FILE *stream, const char *format, va_list arg)
int vsprintf(char *s, const char *format, va_list arg)
int vsnprintf(char *s, size_t count, const char* format, va_list arg)
int fscanf(FILE *stream, const char *format, ...)
int scanf(const char *format, ...)
int sscanf(const char *s, const char *format, ...)
int snscanf(const char *s, size_t count, const char *format, ...)
int vfscanf(FILE *stream, const char *format, va_list arg)
int vscanf(const char *format, va_list arg)
int vsscanf(const char *s, const char *format, va_list arg)
int vsnscanf(const char *s, size_t count, const char *format, va_list arg)
int remove(const char *filename)
int rename(const char *oldname, const char *newname)
void perror(const char *s)
int renameat(int oldfd, const char *oldpath, int newfd, const char *newpath)
""",
    "stdlib": """
double atof(const char *s)
int atoi(const char *s)
long atol(const char *s)
long long atoll(const char *s)
double strtod(const char *s, char **end)
long strtol(const char *s, char **end, int base)
long long strtoll(const char *s, char **end, int base)
unsigned long strtoul(const char *s, char **end, int base)
unsigned long long strtoull(const char *, char **, int base)
int rand(void)
void srand(unsigned seed)
void * calloc(size_t n, size_t sz)
void free(void *ptr)
void * malloc(size_t sz)
void * realloc(void *ptr, size_t sz)
void abort(void)
int atexit(void (*func)(void))
void exit(int status)
char * getenv(const char *name)
void * bsearch(const void *key, const void *base, size_t n, size_t sz, int (*) (const void *, const void *))
void qsort(const void *base, size_t n, size_t sz, int (*) (const void *, const void *))
int abs(int n)
long labs(long n)
long long llabs(long long n)
div_t div(int n, int d)
ldiv_t ldiv(long n, long d)
lldiv_t lldiv(long long n, long long d)
int mblen(const char *s, size_t n)
int mbtowc(wchar_t *pwc, const char *s, size_t n)
int wctomb(char *s, wchar_t wc)
size_t mbstowcs(wchar_t *pwcs, const char *s, size_t n)
size_t wcstombs(char *s, const wchar_t *pwcs, size_t n)
""",
    "string": """
void * memcpy(void *dst, const void *src, size_t n)
void * memmove(void *, const void *, size_t)
char * strcpy(char *dst, const char *src)
char * strncpy(char *, const char *, size_t)
char * strcat(char *, const char *)
char * strncat(char *, const char *, size_t)
int memcmp(const void *s1, const void *s2, size_t n)
int strcmp(const char *, const char *)
int strcoll(const char *s1, const char *s2)
int strncmp(const char *s1, const char *s2, size_t n)
size_t strxfrm(char *dst, const char *src, size_t n)
void * memchr(const void *s, int c, size_t n)
char * strchr(const char *s, int c)
size_t strcspn(const char *s, const char *cs)
char * strpbrk(const char *, const char *)
char * strrchr(const char *s, int c)
size_t strspn(const char *s, const char *cs)
char * strstr(const char *s, const char *ss)
char * strtok(char *, const char *)
char * strtok_r(char *, const char *, char **)
void * memset(void *dst, int c, size_t n)
size_t strlen(const char *s)
const char * strerror(int errno)
char * strdup(const char *s)
char * strndup(const char *s, size_t n)
void * memccpy(void *d, const void *s, int c, size_t n)
void * memmem(const void *, size_t, const void *, size_t)
size_t strnlen(const char *s, size_t maxlen)
void memswap(void *s1, void *s2, size_t n)
void bzero(void *s, size_t n)
int strcasecmp(const char *s1, const char *s2)
int strncasecmp(const char *s1, const char *s2, size_t n)
""",
    "sys/stat": """
int fstat(int fd, struct stat *ps)
int fstatat(int fd, const char *path, struct stat *ps, int atflag)
int stat(const char *path, struct stat *ps)
int lstat(const char *path, struct stat *ps)
int mkdirat(int fd, const char *path, mode_t )
int mkdir(const char *path, mode_t )
""",
    "time": """
clock_t clock(void)
double difftime(time_t t1, time_t t0)
time_t mktime(struct tm *ptm)
time_t time(time_t *pt)
char * asctime(const struct tm *ptm)
char * ctime(const time_t *pt)
struct tm * gmtime(const time_t *pt)
struct tm * localtime(const time_t *pt)
size_t strftime(char *s, size_t maxsz, const char *fmt, const struct tm *ptm)
void tzset(void)
struct tm * gmtime_r(const time_t *pt, struct tm *ptm)
char * ctime_r(const time_t *pt, char *buf)
char * asctime_r(const struct tm *ptm, char *buf)
struct tm * localtime_r(const time_t *pt, struct tm *ptm)
""",
    "unistd": """
ssize_t read(int fd, void *buf, size_t n)
ssize_t write(int fd, const void *buf, size_t n)
ssize_t pread(int fd, void *buf, size_t nbyte, off_t offset)
ssize_t pwrite(int fd, const void *buf, size_t nbyte, off_t offset)
off_t lseek(int fd, off_t offset, int whence)
int ftruncate(int fd, off_t length)
int close(int fd)
int isatty(int fd)
void * sbrk(intptr_t inc)
int access(const char *path, int amode)
int unlinkat(int fd, const char *path, int atflag)
int unlink(const char *path)
int linkat(int oldfd, const char *oldpath, int newfd, const char *newpath, int atflag)
int link(const char *oldpath, const char *newpath)
int symlinkat(const char *tgtpath, int fd, const char *lnkpath)
int symlink(const char *tgtpath, const char *lnkpath)
ssize_t readlinkat(int fd, const char *path, char *buf, size_t bufsize)
ssize_t readlink(const char *path, char *buf, size_t bufsize)
int rmdirat(int fd, const char *path)
int rmdir(const char *path)
int fdatasync(int fd)
int fsync(int fd)
void _exit(int status)
""",
}
WASI_ERR = ("SUCCESS 2BIG ACCES ADDRINUSE ADDRNOTAVAIL AFNOSUPPORT AGAIN ALREADY BADF BADMSG BUSY CANCELED CHILD CONNABORTED CONNREFUSED CONNRESET DEADLK DESTADDRREQ "
            "DOM DQUOT EXIST FAULT FBIG HOSTUNREACH IDRM ILSEQ INPROGRESS INTR INVAL IO ISCONN ISDIR LOOP MFILE MLINK MSGSIZE MULTIHOP NAMETOOLONG NETDOWN NETRESET "
            "NETUNREACH NFILE NOBUFS NODEV NOENT NOEXEC NOLCK NOLINK NOMEM NOMSG NOPROTOOPT NOSPC NOSYS NOTCONN NOTDIR NOTEMPTY NOTRECOVERABLE NOTSOCK NOTSUP NOTTY "
            "NXIO OVERFLOW OWNERDEAD PERM PIPE PROTO PROTONOSUPPORT PROTOTYPE RANGE ROFS SPIPE SRCH STALE TIMEDOUT TXTBSY XDEV NOTCAPABLE").split()
STAT = dict(S_IFBLK=0x6000, S_IFCHR=0x2000, S_IFDIR=0x4000, S_IFLNK=0xa000, S_IFREG=0x8000, S_IFSOCK=0xc000, S_IFIFO=0xc000, S_IFMT=0xe000 | 0x6000,
            S_IXOTH=1, S_IWOTH=2, S_IROTH=4, S_IRWXO=7, S_IXGRP=8, S_IWGRP=16, S_IRGRP=32, S_IRWXG=56, S_IXUSR=64, S_IWUSR=128, S_IRUSR=256, S_IRWXU=448,
            S_ISVTX=0x200, S_ISGID=0x400, S_ISUID=0x800)
VALUES = {
    "errno": {"E" + n: i for i, n in enumerate(WASI_ERR)},
    "fcntl": dict(O_APPEND=1, O_DSYNC=2, O_NONBLOCK=4, O_RSYNC=8, O_SYNC=16, O_CREAT=1 << 12, O_DIRECTORY=2 << 12, O_EXCL=4 << 12, O_TRUNC=8 << 12,
                  POSIX_FADV_NORMAL=0, POSIX_FADV_SEQUENTIAL=1, POSIX_FADV_RANDOM=2, POSIX_FADV_WILLNEED=3, POSIX_FADV_DONTNEED=4, POSIX_FADV_NOREUSE=5,
                  SEEK_SET=0, SEEK_CUR=1, SEEK_END=2),
    "unistd": dict(STDIN_FILENO=0, STDOUT_FILENO=1, STDERR_FILENO=2, F_OK=0, X_OK=1, W_OK=2, R_OK=4, SEEK_SET=0, SEEK_CUR=1, SEEK_END=2),
    "stdio": dict(EOF=-1, SEEK_SET=0, SEEK_CUR=1, SEEK_END=2),
    "stdlib": dict(EXIT_FAILURE=1, EXIT_SUCCESS=0, MB_CUR_MAX=4, RAND_MAX=0x7fffffff),
    "sys/stat": STAT,
    "dirent": dict(DT_UNKNOWN=0, DT_BLK=1, DT_CHR=2, DT_DIR=3, DT_REG=4, DT_FIFO=6, DT_LNK=7),
    "time": dict(CLOCKS_PER_SEC=1000000000),
    "limits": dict(CHAR_BIT=8, INT_MAX=0x7fffffff, INT_MIN=-0x80000000, SHRT_MIN=-32768, CHAR_MIN=-128),
    "float": dict(DBL_DIG=15, FLT_DIG=6, DBL_MIN_EXP=-1021, FLT_RADIX=2, FLT_ROUNDS=1),
    "stdint": dict(INT8_MIN=-128, INT16_MIN=-32768, INT32_MIN=-0x80000000, UINT8_MAX=255),
    "inttypes": dict(INT8_MIN=-128, INT_FAST16_MAX=0x7fffffff),
    "stdbool": {"true": 1, "false": 0},
    "math": {}, "string": {}, "ctype": {}, "fenv": {}, "locale": {}, "stdarg": {}, "stddef": {}, "sys/types": {}, "wchar": dict(WCHAR_MAX=0x7fffffff),
}
# size, signed (None: not a number)
TYPES = {"sys/types": dict(off_t=(8, 1), nlink_t=(8, 0), dev_t=(8, 0), ino_t=(8, 0), mode_t=(4, 0), time_t=(8, 1), clock_t=(8, 1), ssize_t=(4, 1)),
         "stddef": dict(size_t=(4, 0), ptrdiff_t=(4, 1), wchar_t=(4, 1)), "stdlib": dict(size_t=(4, 0), wchar_t=(4, 1), div_t=(8, None), ldiv_t=(8, None), lldiv_t=(16, None)),
         "time": dict(time_t=(8, 1), clock_t=(8, 1), size_t=(4, 0)), "stdio": dict(fpos_t=(8, 1), size_t=(4, 0)), "unistd": dict(off_t=(8, 1), ssize_t=(4, 1)),
         "sys/stat": dict(mode_t=(4, 0), ino_t=(8, 0)), "stdbool": {"bool": (1, 0)}, "wchar": {"wint_t": (4, 1)}, "string": dict(size_t=(4, 0)), "stdarg": dict(va_list=(4, None))}
MEMBERS = {"time": ("struct tm", {m: 4 for m in "tm_sec tm_min tm_hour tm_mday tm_mon tm_year tm_wday tm_yday tm_isdst".split()}),
           "sys/stat": ("struct stat", dict(st_dev=8, st_ino=8, st_nlink=8, st_mode=4, st_size=8, st_atime=8, st_mtime=8, st_ctime=8)),
           "dirent": ("struct dirent", dict(d_ino=8, d_type=1)), "stdlib": ("lldiv_t", dict(quot=8, rem=8))}


def split_args(a):
    out, d, c = [], 0, ""
    for ch in a:
        d += (ch == "(") - (ch == ")")
        if ch == "," and d == 0:
            out.append(c.strip())
            c = ""
        else:
            c += ch
    return out + [c.strip()]


def parse_protos():
    r = {}
    for h, t in PROTOS.items():
        for l in t.split("\n"):
            m = re.match(r"(.*?)(\w+)\((.*)\)$", l)
            if m:
                r.setdefault(h, []).append((m[2], m[1].replace(" *", "*").strip(), split_args(m[3])))
    return r


FUNCS = parse_protos()


def arg(s, a):
    if a == "void" or a == "...":
        return None
    if "(" in a:
        return "NULL"
    if "*" in a:
        if re.match(r"const char \*\w*$", a) and s.bool():
            return s.choice(['"x"', '"%d"', '""'])
        return "NULL"
    t = re.sub(r"\b(const|restrict)\b", "", a).split()
    if t[0] in ("int", "long", "double", "intptr_t", "wchar_t") or "long" in t and "unsigned" not in t:
        return str(s.draw(9))
    if t[0] == "va_list":
        return "(va_list)NULL"
    if t[0] in ("off_t", "time_t"):
        return "(%s)%d" % (t[0], s.draw(9))
    return "%s%du" % ("(size_t)" if t[0] == "size_t" else "", s.draw(9))


def i64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def i32(v):
    v &= (1 << 32) - 1
    return v - (1 << 32) if v >> 31 else v


def names_case(s):
    """(source, expected output or None for a failed assertion, output before it)"""
    hs = [h for h in VALUES if s.bool(1, 4)]
    if s.bool(1, 10):
        hs = list(VALUES)
    order = s_shuffle(s, hs + [h for h in hs if s.bool(1, 6)])
    pos = s.draw(len(order))
    if "stdio" not in hs:
        order.insert(pos, "stdio")
        hs.append("stdio")
    asr = s.weighted([(3, None), (2, "assert.h"), (1, "NDEBUG/assert.h")])
    order = ["%s.h" % h for h in order]
    if asr:
        order.insert(s.draw(len(order)), asr)
    top = ["#include <%s>" % h if h[0] != "N" else "#include <assert.h> /* NDEBUG */" for h in order]
    body, exp, dead = [], [], []
    vals = [(h, n, v) for h in hs for n, v in VALUES[h].items()]
    for k in s.many(0, 8, 8):
        if not vals:
            break
        h, n, v = s.choice(vals)
        s.tag(n)
        f = s.draw(7)
        wide = n == "CLOCKS_PER_SEC"
        wr = i64 if wide else i32
        if f == 0:
            x, r = n, v
        elif f == 1:
            o = s.choice(["%s * 3", "1 - %s", "~%s", "-%s", "!%s", "%s & 12", "%s | 1", "%s ^ 5", "%s + 1", "5 - %s - 1", "%s << 1", "2 * %s"])
            if n in ("true", "false"):
                o = "%s + 1"
            x, r = o % n, wr(int(eval((o % "(v)").replace("!", "not "), {"v": v})))
        elif f == 2:
            top.append("long long gc%d = %s;" % (k, n) if not n.islower() else "bool gc%d = %s;" % (k, n))
            x, r = "gc%d" % k, v
        elif f == 3 and not wide:
            top.append("int sw%d(int x) { switch (x) { case %s: return 1; case (%s) ^ 64: return 2; default: return 3; } return 0; }" % (k, n, n) if not n.islower() else "int sw%d(int x) { return 1; }" % k)
            x, r = "sw%d(%s)" % (k, str(v) if v != -0x80000000 else "-0x7fffffff - 1"), 1
        elif f == 4 and 0 <= v < 5000 and not n.islower():
            top.append("char ar%d[%s + 1];" % (k, n))
            x, r = "(int)sizeof(ar%d)" % k, v + 1
        elif f == 5 and not wide and not n.islower():
            top.append("enum { en%d = %s };" % (k, n))
            x, r = "(int)en%d" % k, v
        else:
            x, r = "(%s) == (%s) ? 5 : 6" % (n, "%dLL" % v if wide else "-0x7fffffff - 1" if v == -0x80000000 else v), 5
            if n.islower():
                x = "%s ? 5 : 6" % n
                r = 6 - v
        body.append('  printf("%%lld\\n", (long long)(%s));' % x)
        exp.append(str(r))
    if "sys/stat" in hs:
        for _ in range(s.draw(3)):
            m = s.choice([0x6000, 0x2000, 0x4000, 0xa000, 0x8000, 0xc000, 0, 0x1000, 0xe000])
            p = s.draw(0xfff)
            n, w = s.choice([("S_ISBLK", 0x6000), ("S_ISCHR", 0x2000), ("S_ISDIR", 0x4000), ("S_ISFIFO", 0xc000), ("S_ISLNK", 0xa000), ("S_ISREG", 0x8000), ("S_ISSOCK", 0xc000)])
            s.tag(n)
            body.append('  { mode_t m; m = %du; printf("%%d\\n", %s(%s) ? 1 : 0); }' % (m, n, s.choice(["m | %du", "%du | m", "m ^ %du", "m + %du"]) % p))
            exp.append("%d" % (m == w))
    ts = [(h, n, v) for h in hs for n, v in TYPES.get(h, {}).items()]
    for k in range(min(len(ts), s.draw(3))):
        h, n, (sz, sg) = s.choice(ts)
        s.tag(n)
        body.append('  { %s x[2]; printf("%%d\\n", (int)sizeof(x)); }' % n)
        exp.append(str(sz * 2))
        if sg is not None and n != "bool":
            body.append('  printf("%%d\\n", (%s)(-1) < (%s)0 ? 1 : 0);' % (n, n))
            exp.append(str(sg))
    ms = [MEMBERS[h] for h in hs if h in MEMBERS]
    for _ in range(s.draw(2) if ms else 0):
        t, d = s.choice(ms)
        n = s.choice(list(d))
        s.tag("." + n)
        body.append('  { static_assert(sizeof(((%s *)NULL)->%s) == %d, "size"); printf("%%d\\n", %d); }' % (t, n, d[n], d[n]) if False else
                    '  { %s x; x.%s = 77; printf("%%d %%d\\n", (int)x.%s, (int)sizeof(x.%s)); }' % (t, n, n, n))
        exp.append("77 %d" % d[n])
    fs = [(h,) + f for h in hs for f in FUNCS.get(h, [])]
    for k in range(min(len(fs), s.draw(12))):
        h, n, ret, args = s.choice(fs)
        s.tag(n + "()")
        av = [arg(s, a) for a in args]
        c = "%s(%s)" % (n, ", ".join(x for x in av if x is not None))
        if ret == "void":
            dead.append("    %s;" % c)
        else:
            dead.append("    { %s r%d; r%d = %s; }" % (ret.replace("const ", ""), k, k, c) if not ret.startswith("const") else "    { %s r%d = %s; }" % (ret, k, c))
    stop = None
    if asr:
        nd = asr[0] == "N"
        body.append("  { int n = 0;")
        n = 0
        for _ in range(s.draw(3) + 1):
            ok = s.bool(7, 8)
            c, t = s.choice([("++n < 100", "n == 0 && ++n < 0"), ("(n += 2) != 0", "(n += 2) == -7"), ("n >= 0 ? ++n : 0", "n < 0 ? ++n : 0"), ("n | 1", "n & 0"), ("&n != NULL", "&n == NULL")])
            if (c, t)[not ok] == "n == 0 && ++n < 0":
                t = "++n < 0"
            body.append("    assert(%s);" % (c if ok else t))
            if not nd:
                if not ok:
                    stop = True
                    break
                n += 1 if "++n" in c else 2 if "+= 2" in c else 0
        s.tag(asr + ("-fails" if stop else ""))
        body.append('    printf("%d\\n", n); }')
        if not stop:
            exp.append(str(n))
    top.append("int main(int argc, char **argv) {\n%s\n%s  fflush(stdout);\n  return 0;\n}" % ("\n".join("%s" % b if "assert(" not in b else "    fflush(stdout);\n" + b for b in body),
               "  if (argc > 99) {\n%s\n  }\n" % "\n".join(dead) if dead else ""))
    return "\n".join(top) + "\n", "".join(x + "\n" for x in exp), bool(stop)


def s_shuffle(s, l):
    l = list(l)
    for i in range(len(l) - 1, 0, -1):
        j = s.draw(i)
        l[i], l[j] = l[j], l[i]
    return l
