"""C20: calendar computations."""
from vlib.check import Family
from vlib.clib import LibFamily, Rd, blk, build_driver, run_module, split_answers, u32, u64

TECHNIQUE = "property-based testing of time.h against an independent integer model of the proleptic Gregorian calendar"
RULE = ("times are drawn around year, century, 400-year and day boundaries, over the whole representable range and past both of its ends; broken-down fields for mktime are arbitrary "
        "ints (each possibly far out of range); strftime gets random formats of every C90 conversion with buffers of exactly fitting, one short and random sizes inside guard bytes; "
        "TZ values cover names, signs, one to three offset fields and invalid text. The model works on unbounded integers. Non-trivial: every case; distinct by case.")
ASSUMPTIONS = ["daylight saving rules are not supported by the library: TZ gives names and a constant offset", "%x is dd.mm.yyyy (or mm/dd/yy) and %X hh:mm:ss: C90 leaves them to the implementation",
               "asctime is asked for years of at most four characters only", "%Y below year 1000 may be padded with zeros"]

DRV = r'''
#include <time.h>
char b_[8192], f_[4096];
void ptm_(struct tm *t) {
  p32(t->tm_sec); p32(t->tm_min); p32(t->tm_hour); p32(t->tm_mday); p32(t->tm_mon); p32(t->tm_year); p32(t->tm_wday); p32(t->tm_yday); p32(t->tm_isdst);
}
void gtm_(struct tm *t) {
  t->tm_sec = g32(); t->tm_min = g32(); t->tm_hour = g32(); t->tm_mday = g32(); t->tm_mon = g32(); t->tm_year = g32(); t->tm_wday = g32(); t->tm_yday = g32(); t->tm_isdst = g32();
}
void cmd_(int op) {
  struct tm t, *q; time_t x, y; int k, n, sz; char *p;
  if (op == 0) {            /* gmtime and the like */
    x = (time_t)g64(); k = g32();
    memset(&t, 0x55, sizeof(t)); errno = 0;
    q = gmtime_r(&x, &t); p8(q == NULL ? 0 : q == &t ? 1 : 2); p32(errno); if (q != NULL) ptm_(q);
    q = gmtime(&x); p8(q == NULL ? 0 : 1); if (q != NULL) ptm_(q);
    q = localtime(&x); p8(q == NULL ? 0 : 1); if (q != NULL) ptm_(q);
    memset(&t, 0x55, sizeof(t));
    q = localtime_r(&x, &t); p8(q == NULL ? 0 : q == &t ? 1 : 2); if (q != NULL) ptm_(q);
    if (k & 1) {
      p = asctime(q); ps(p); memset(&b_[0], '#', 100); p = asctime_r(q, &b_[0]); p8(p == &b_[0]); ps(&b_[0]); p8(b_[26]);
      p = ctime(&x); ps(p); memset(&b_[0], '#', 100); p = ctime_r(&x, &b_[0]); p8(p == &b_[0]); ps(&b_[0]); p8(b_[26]);
    }
    if (q != NULL) { y = mktime(q); p64((unsigned long long)y); ptm_(q); }
  } else if (op == 1) {     /* mktime */
    gtm_(&t); errno = 0;
    x = mktime(&t); p64((unsigned long long)x); p32(errno); ptm_(&t);
  } else if (op == 2) {     /* strftime */
    sz = g32(); gs(&f_[0], 4096); gtm_(&t);
    memset(&b_[0], '#', sizeof(b_));
    n = (int)strftime(&b_[16], (size_t)sz, &f_[0], &t);
    p32(n); pn(&b_[0], 16); pn(&b_[16], sz); pn(&b_[16 + sz], 32);
  } else if (op == 3) {
    x = (time_t)g64(); y = (time_t)g64(); pd(difftime(x, y));
  } else if (op == 4) {
    tzset(); ps(tzname[0]); ps(tzname[1]); p64((unsigned long long)(long long)timezone);
  }
}
'''
IMIN, IMAX = -2 ** 31, 2 ** 31 - 1
WD = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"]
MN = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def before_year(y):
    """days from 1970-01-01 to y-01-01"""
    p = y - 1
    return 365 * y + p // 4 - p // 100 + p // 400 - 719527 + (0 if y else 0)


assert before_year(1970) == 0 and before_year(1972) == 730 and before_year(1973) == 1096, before_year(1970)


def civil(t):
    """fields of the time t: (sec, min, hour, mday, mon, year-1900, wday, yday)"""
    d, r = divmod(t, 86400)
    y = 1970 + d * 400 // 146097
    while before_year(y) > d:
        y -= 1
    while before_year(y + 1) <= d:
        y += 1
    yd = d - before_year(y)
    m, k = 0, yd
    while True:
        l = ML[m] + (1 if m == 1 and leap(y) else 0)
        if k < l:
            break
        k -= l
        m += 1
    return (r % 60, r // 60 % 60, r // 3600, k + 1, m, y - 1900, (d + 4) % 7, yd)


def seconds(f):
    sec, mi, h, md, mo, y = f[:6]
    y += 1900 + mo // 12
    mo %= 12
    d = before_year(y) + sum(ML[:mo]) + (1 if mo > 1 and leap(y) else 0) + md - 1
    return ((d * 24 + h) * 60 + mi) * 60 + sec


TMIN = seconds((0, 0, 0, 1, 0, IMIN))
TMAX = seconds((59, 59, 23, 31, 11, IMAX))


def asct(f):
    return ("%s %s%3d %.2d:%.2d:%.2d %d\n" % (WD[f[6]][:3], MN[f[4]][:3], f[3], f[2], f[1], f[0], 1900 + f[5])).encode()


def gen_time(s):
    k = s.weighted([(3, "day"), (3, "year"), (2, "cent"), (1, "edge"), (2, "near"), (2, "all"), (1, "past")])
    s.tag("t-" + k)
    if k == "near":
        return s.int(-100000, 100000)
    if k == "day":
        return 86400 * s.int(-800000, 3000000) + s.choice([0, -1, 1, 43200, s.draw(86399)])
    if k == "year":
        y = s.int(-3000, 12000) if s.bool() else s.int(1890, 2110)
        return 86400 * (before_year(y) + s.choice([0, 31, 58, 59, 60, 364, 365, s.draw(366)])) + s.choice([0, -1, s.draw(86399)])
    if k == "cent":
        y = 100 * (s.int(-40, 150) if s.bool() else s.int(-21000000, 21000000))
        return 86400 * (before_year(y) + s.choice([-366, -1, 0, 31, 58, 59, 60, 365, s.draw(366)])) + s.choice([0, -1, s.draw(86399)])
    if k == "edge":
        return s.choice([TMIN, TMAX, 0, -1, IMAX, IMIN, 2 ** 32, -2 ** 32, 2 ** 33, TMIN + 86400 * 366, TMAX - 86400 * 366]) + s.choice([0, -1, 1, s.int(-100000, 100000)])
    if k == "all":
        return s.int(TMIN, TMAX)
    return s.choice([TMIN - s.draw(10 ** 9), TMAX + s.draw(10 ** 9), 2 ** 63 - 1 - s.draw(10 ** 12), -2 ** 63 + s.draw(10 ** 12), 67768036191676799 + s.int(-3 * 10 ** 7, 3 * 10 ** 9)])


def rtm(rd):
    return tuple(rd.i32() for _ in range(9))


def judge_time(t, flag, rd, tz=0):
    """answers of op 0"""
    for nm, off, two in (("gmtime_r", 0, 1), ("gmtime", 0, 0), ("localtime", tz, 0), ("localtime_r", tz, 1)):
        k = rd.u8()
        er = rd.i32() if nm == "gmtime_r" else 0
        e = t - off
        ok = TMIN <= e <= TMAX
        if (k != 0) != ok or two and k == 2:
            return "%s of %d gives %s; %s" % (nm, t, "NULL" if not k else "a result", "it is representable" if ok else "its year does not fit an int")
        if not ok:
            if nm == "gmtime_r" and er == 0:
                return "gmtime_r of %d fails without errno" % t
            continue
        g, x = rtm(rd), civil(e) + (0,)
        if g != x:
            return "%s of %d gives %s, expected %s" % (nm, t, g, x)
    if not TMIN <= t - tz <= TMAX:
        return None
    x = civil(t - tz)
    if flag:
        a = asct(x)
        for nm in ("asctime", "asctime_r", "ctime", "ctime_r"):
            if nm[-1] == "r" and rd.u8() != 1:
                return "%s does not return its buffer" % nm
            g = rd.blk()
            if g != a:
                return "%s of %d gives %r, expected %r" % (nm, t, g, a)
            if nm[-1] == "r" and rd.u8() != 35:
                return "%s writes past 26 characters" % nm
    y, m = rd.i64(), rtm(rd)
    if y != t or m != x + (0,):
        return "mktime of localtime(%d) gives %d and fields %s" % (t, y, m)
    return None


class Times(LibFamily):
    name, quick, thorough, batch = "times", 100000, 3000000, 4000
    driver = DRV

    def gen(self, s):
        t = gen_time(s)
        f = civil(t)[5] + 1900
        return t, 1 if -999 <= f <= 9999 else 0

    def key(self, c):
        return str(c[0])

    def show(self, c):
        return "gmtime, localtime, asctime, ctime, mktime of time %d" % c[0]

    def req(self, c):
        return b"\0" + u64(c[0]) + u32(c[1])

    def judge(self, c, rd):
        return judge_time(c[0], c[1], rd)


def gen_field(s, lo, hi):
    k = s.weighted([(5, 0), (2, 1), (2, 2), (1, 3)])
    if k == 0:
        return s.int(lo, hi)
    if k == 1:
        return s.choice([lo, hi, lo - 1, hi + 1, lo - s.draw(100), hi + s.draw(100)])
    if k == 2:
        return s.int(-100000, 100000)
    return s.choice([IMIN, IMAX, s.int(IMIN, IMAX)])


def gen_fields(s):
    y = s.weighted([(4, 0), (3, 1), (2, 2), (1, 3), (1, 4)])
    y = s.int(0, 200) if y == 0 else s.choice([70, 0, -300, 100, 200, 300, 400, -1900, 8099]) + s.int(-2, 2) if y == 1 else s.int(-10000, 10000) if y == 2 else s.int(IMIN, IMAX) if y == 3 \
        else s.choice([IMIN + s.draw(3), IMAX - s.draw(3)])
    return (gen_field(s, 0, 60), gen_field(s, 0, 59), gen_field(s, 0, 23), gen_field(s, 1, 31), gen_field(s, 0, 11), y, s.int(-3, 9), s.int(-3, 400), s.choice([0, -1]))


class Mk(LibFamily):
    name, quick, thorough, batch = "mktime", 100000, 3000000, 4000
    driver = DRV

    def gen(self, s):
        return gen_fields(s)

    def show(self, c):
        return "mktime of sec %d min %d hour %d mday %d mon %d year %d (wday %d yday %d isdst %d)" % c

    def req(self, c):
        return b"\1" + b"".join(u32(v) for v in c)

    def judge(self, c, rd):
        x, er, m = rd.i64(), rd.i32(), rtm(rd)
        e = seconds(c)
        if not TMIN <= e <= TMAX:
            return None if x == -1 else "result %d although the year does not fit an int" % x
        if x != e:
            return "result %d, expected %d" % (x, e)
        f = civil(e) + (0,)
        return None if m == f else "fields become %s, expected %s" % (m, f)


SPECS = "aAbBcdHIjmMpSUwWxXyYZ%"


def fmt_spec(ch, f, tz):
    """acceptable texts of one conversion"""
    sec, mi, h, md, mo, y, wd, yd, dst = f
    y += 1900
    x2 = "%.2d"
    cl = "%.2d:%.2d:%.2d" % (h, mi, sec)
    ys = ["%d" % y, "%.4d" % y]
    if ch == "a":
        return [WD[wd][:3]]
    if ch == "A":
        return [WD[wd]]
    if ch == "b":
        return [MN[mo][:3]]
    if ch == "B":
        return [MN[mo]]
    if ch == "c":
        return ["%s %s %s %s %s" % (WD[wd][:3], MN[mo][:3], d, cl, q) for d in ("%.2d" % md, "%2d" % md) for q in ys]
    if ch == "d":
        return [x2 % md]
    if ch == "H":
        return [x2 % h]
    if ch == "I":
        return [x2 % ((h + 11) % 12 + 1)]
    if ch == "j":
        return ["%.3d" % (yd + 1)]
    if ch == "m":
        return [x2 % (mo + 1)]
    if ch == "M":
        return [x2 % mi]
    if ch == "p":
        return ["PM" if h >= 12 else "AM"]
    if ch == "S":
        return [x2 % sec]
    if ch == "U":
        return [x2 % ((yd + 7 - wd) // 7)]
    if ch == "W":
        return [x2 % ((yd + 7 - (wd + 6) % 7) // 7)]
    if ch == "w":
        return [str(wd)]
    if ch == "x":
        return ["%.2d.%.2d.%s" % (md, mo + 1, q) for q in ys] + ["%.2d/%.2d/%.2d" % (mo + 1, md, y % 100)]
    if ch == "X":
        return [cl]
    if ch == "y":
        return [x2 % (y % 100)]
    if ch == "Y":
        return ys
    if ch == "Z":
        return [tz[0]]
    return ["%"]


class Fmt(LibFamily):
    name, quick, thorough, batch = "strftime", 60000, 2000000, 3000
    driver = DRV

    def gen(self, s):
        t = gen_time(s)
        if not TMIN <= t <= TMAX:
            t %= 10 ** 11
        if s.bool():
            t %= 4 * 10 ** 9
        f = list(civil(t)) + [0]
        if s.bool(1, 10):
            f[0] = 60 + s.draw(1)          # leap seconds
        items = []
        for _ in s.many(1, 12, 4):
            if s.bool(2, 3):
                items.append("%" + s.choice(SPECS))
            else:
                items.append(s.choice(["x", " ", "-", "ab:", "\xe9", "T", "0123456789" * 3]))
        # exact size, one short, or other
        ln = sum(len(fmt_spec(i[1], f, ["   "])[0]) if i[0] == "%" else len(i) for i in items)
        k = s.weighted([(3, "big"), (3, "fit"), (2, "short"), (1, "any"), (1, "zero")])
        s.tag("size-" + k)
        sz = ln + 50 if k == "big" else ln + 1 if k == "fit" else ln if k == "short" else s.draw(ln + 20) if k == "any" else s.draw(3)
        return tuple(items), sz, tuple(f)

    def show(self, c):
        return "strftime(buffer, %d, %r, fields %s)" % (c[1], "".join(c[0]), c[2])

    def req(self, c):
        return b"\2" + u32(c[1]) + blk("".join(c[0]).encode("latin-1")) + b"".join(u32(v) for v in c[2])

    def judge(self, c, rd):
        items, sz, f = c
        n, g0, b, g1 = rd.i32(), rd.blk(), rd.blk(), rd.blk()
        if g0 != b"#" * 16 or g1 != b"#" * 32:
            return "writes outside its buffer"
        # the set of acceptable texts is small: match greedily by branching
        outs = {b""}
        for i in items:
            alt = fmt_spec(i[1], f, ["   ", ""]) if i[0] == "%" else [i]
            outs = {o + a.encode("latin-1") for o in outs for a in alt}
            if len(outs) > 64:
                # keep those agreeing with what was written
                outs = {o for o in outs if b.startswith(o[:max(0, sz - 1)])} or set(list(outs)[:8])
        if any(n == len(o) and len(o) < sz and b[:n + 1] == o + b"\0" for o in outs):
            return None
        if n == 0 and any(len(o) >= sz for o in outs):
            return None
        return "returns %d and %r, expected %s" % (n, b[:max(n, 0) + 20], " or ".join("%d %r" % (len(o) if len(o) < sz else 0, o) for o in sorted(outs)[:3]))


class Diff(LibFamily):
    name, quick, thorough, batch = "difftime", 10000, 300000, 3000
    driver = DRV

    def gen(self, s):
        g = lambda: s.int(-2 ** 62, 2 ** 62 - 1) if s.bool(1, 4) else gen_time(s) % 2 ** 53 if s.bool() else s.int(-1000, 1000)
        return g(), g()

    def show(self, c):
        return "difftime(%d, %d)" % c

    def req(self, c):
        return b"\3" + u64(c[0]) + u64(c[1])

    def judge(self, c, rd):
        g = rd.f64()
        e = float(c[0] - c[1])
        return None if g == e or g == float(c[0]) - float(c[1]) and abs(g - e) <= abs(e) * 1e-15 else "gives %r, expected %r" % (g, e)


def gen_tz(s):
    """text, (names, offset) or None when the text has no defined meaning"""
    k = s.weighted([(1, "none"), (6, "std"), (3, "dst"), (1, "empty"), (2, "bad")])
    s.tag("tz-" + k)
    if k == "none":
        return None, 0, None
    if k == "empty":
        return "", 0, None
    nm = lambda: "".join(s.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZabcxyz") for _ in range(s.int(3, 6)))
    a = nm()
    if k == "bad":          # no offset can be made out: universal time
        d2 = lambda: "%02d" % s.draw(24)
        o = s.choice([d2() + ":%02d" % s.int(60, 99), d2() + ":%02d:%02d" % (s.draw(59), s.int(60, 99)), d2() + ":%02d:%02d" % (s.int(60, 99), s.draw(59)),
                      "%d" % s.int(100, 999), d2() + ":%d" % s.int(100, 999), d2() + ":%02d:%d" % (s.draw(59), s.int(100, 999))])
        return a + s.choice(["", "+", "-"]) + o, 0, None
    h, m, sc = s.draw(24), 0, 0
    o = "%02d" % h if s.bool() else "%d" % h
    if s.bool():
        m = s.draw(59)
        o += ":%02d" % m
        if s.bool():
            sc = s.draw(59)
            o += ":%02d" % sc
    sg = s.choice(["", "+", "-"])
    off = (h * 3600 + m * 60 + sc) * (-1 if sg == "-" else 1)
    b = nm() if k == "dst" else None
    return a + sg + o + (b or ""), off, (a, b)


class Tz(Family):
    name, quick, thorough, batch = "zones", 1200, 30000, 30

    def setup(self, ctx):
        build_driver(ctx, "tz", DRV)

    def gen(self, s):
        tz = gen_tz(s)
        ts = []
        for _ in s.many(1, 12, 5):
            t = gen_time(s)
            if not -2 ** 62 < t < 2 ** 62:
                t //= 4
            ts.append(t)
        return tz, tuple(ts)

    def show(self, c):
        return "TZ=%r: tzset, localtime, ctime, mktime of %s" % (c[0][0], list(c[1]))

    def run(self, ctx, cases):
        mod = build_driver(ctx, "tz", DRV)
        res = []
        for (txt, off, names), ts in cases:
            rq, fl = b"\4", []
            for t in ts:
                ok = all(TMIN <= x <= TMAX and -999 <= civil(x)[5] + 1900 <= 9999 for x in (t, t - off))
                fl.append(1 if ok else 0)
                rq += b"\0" + u64(t) + u32(fl[-1])
            x = run_module(mod, ctx.sc.dir, rq + b"\4", env=None if txt is None else {"TZ": txt})
            an = split_answers(x.out)
            if x.status or len(an) != len(ts) + 2:
                res.append("program ends with %s %s" % (x.status, x.err[:200]))
                continue
            m = None
            for a in (an[0], an[-1]):
                rd = Rd(a)
                n0, n1, z = rd.blk(), rd.blk(), rd.i64()
                if z != off:
                    m = m or "timezone is %d, expected %d" % (z, off)
                if names and (n0.decode("latin-1") != names[0] or names[1] and n1.decode("latin-1") != names[1]):
                    m = m or "tzname is %r %r, expected %s" % (n0, n1, names)
            for t, f, a in zip(ts, fl, an[1:]):
                m = m or judge_time(t, f, Rd(a), off)
            res.append(m)
        return res


FAMILIES = [Times(), Mk(), Fmt(), Diff(), Tz()]
