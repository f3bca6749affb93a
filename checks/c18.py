"""C18: qsort, bsearch, integer helpers, rand."""
from vlib.check import Family
from vlib.clib import LibFamily, Rd, blk, build_driver, run_module, split_answers, u32, u64

TECHNIQUE = "property-based testing with permutation/order/pointer invariants and an exact integer model"
RULE = ("qsort runs over random and adversarially patterned arrays (all element sizes 1..48, counts to 1000, key anywhere in the element, five orders including inconsistent ties) "
        "inside a guarded buffer, comparison calls are checked to stay on elements; bsearch runs over arrays sorted by the model with present and absent keys; div/abs run on edge "
        "values; rand is checked for range, reproducibility by seed and seed 1 at start. Non-trivial: at least two elements (or any helper call); distinct by case.")
ASSUMPTIONS = ["qsort need not be stable", "INT_MIN / -1 and division by zero are undefined and not generated"]

DRV = r'''
unsigned char arr_[65536]; unsigned char key_[64];
struct { unsigned char *b; int n, sz, koff, klen, mode, bad, calls; bool search; } q_;
int keycmp_(const unsigned char *a, const unsigned char *b) {
  int i, d = 0;
  for (i = 0; i < q_.klen && d == 0; ++i) d = (int)a[i] - (int)b[i];
  return d;
}
int cmp_(const void *x, const void *y) {
  const unsigned char *a = (const unsigned char *)x, *b = (const unsigned char *)y; int d;
  ++q_.calls;
  if (q_.search) { if (a != &key_[0]) ++q_.bad; } else if (a < q_.b || a >= q_.b + q_.n * q_.sz || (a - q_.b) % q_.sz != 0) { ++q_.bad; return 0; }
  if (b < q_.b || b >= q_.b + q_.n * q_.sz || (b - q_.b) % q_.sz != 0) { ++q_.bad; return 0; }
  switch (q_.mode) {
    case 0: d = keycmp_(a + q_.koff, b + q_.koff); break;
    case 1: d = -keycmp_(a + q_.koff, b + q_.koff); break;
    case 2: d = (int)(a[q_.koff] & 3) - (int)(b[q_.koff] & 3); break;
    case 3: d = 0; break;
    case 4: d = keycmp_(a + q_.koff, b + q_.koff); d = d < 0 ? -2147483647 - 1 : d > 0 ? 2147483647 : 0; break;
    default: d = 0;
  }
  return d;
}
void cmd_(int op) {
  int i, off; void *r;
  if (op <= 1) {
    off = g32(); q_.sz = g32(); q_.koff = g32(); q_.klen = g32(); q_.mode = g32(); q_.search = op == 1; q_.bad = 0; q_.calls = 0;
    for (i = 0; i < off; ++i) arr_[i] = 0xa5;
    i = gn((char*)&arr_[0] + off, 60000); q_.n = i / q_.sz; q_.b = &arr_[0] + off;
    for (i = 0; i < 64; ++i) arr_[off + q_.n * q_.sz + i] = 0x5a;
    if (op == 0) { qsort(q_.b, (size_t)q_.n, (size_t)q_.sz, &cmp_); p32(0); }
    else { gn((char*)&key_[0], 64); r = bsearch(&key_[0], q_.b, (size_t)q_.n, (size_t)q_.sz, &cmp_); p32(r == NULL ? -1 : (int)((unsigned char*)r - q_.b)); }
    p32(q_.bad); p32(q_.calls);
    pn(&arr_[0], off + q_.n * q_.sz + 64);
  } else if (op == 2) {
    int a = g32(), b = g32(); long long c = (long long)g64(), d = (long long)g64(); div_t x = div(a, b); ldiv_t y = ldiv((long)a, (long)b); lldiv_t z = lldiv(c, d);
    p32(x.quot); p32(x.rem); p32((int)y.quot); p32((int)y.rem); p64((unsigned long long)z.quot); p64((unsigned long long)z.rem);
    p32(abs(a)); p32((int)labs((long)a)); p64((unsigned long long)llabs(c));
  } else if (op == 3) {
    int n = g32(), k; unsigned s1 = gu32(), s2 = gu32();
    for (k = 0; k < n; ++k) p32(rand());
    srand(1); for (k = 0; k < n; ++k) p32(rand());
    srand(s1); for (k = 0; k < n; ++k) p32(rand());
    srand(s2); for (k = 0; k < n; ++k) p32(rand());
    srand(s1); for (k = 0; k < n; ++k) p32(rand());
  }
}
'''


def order(case):
    sz, koff, klen, mode = case[2:6]

    def k(e):
        x = e[koff:koff + klen]
        if mode == 1:
            return bytes(255 - v for v in x)
        if mode == 2:
            return bytes([e[koff] & 3])
        if mode == 3:
            return b""
        return x
    return k


def elems(s, n, sz, koff, klen):
    """n elements with patterned keys"""
    pat = s.weighted([(3, "rand"), (2, "few"), (1, "up"), (1, "down"), (1, "almost"), (1, "saw"), (1, "organ"), (1, "equal")])
    s.tag("pat-" + pat)
    r = []
    for i in range(n):
        e = bytearray(s.bytes(sz)) if n < 60 else bytearray((i * 7 + j * 13) & 255 for j in range(sz))
        if pat == "rand":
            kv = s.draw(256 ** klen - 1)
        elif pat == "few":
            kv = s.draw(2)
        elif pat == "up":
            kv = i
        elif pat == "down":
            kv = n - i
        elif pat == "almost":
            kv = i if s.bool(9, 10) else s.draw(n)
        elif pat == "saw":
            kv = i % 7
        elif pat == "organ":
            kv = min(i, n - i)
        else:
            kv = 5
        e[koff:koff + klen] = (kv % 256 ** klen).to_bytes(klen, "big")
        r.append(bytes(e))
    return r


class Sort(LibFamily):
    name, quick, thorough, batch = "sort", 30000, 1000000, 400
    driver = DRV

    def gen(self, s):
        op = s.weighted([(3, 0), (2, 1)])
        sz = s.weighted([(3, s.int(1, 8)), (2, s.int(9, 48)), (1, 4), (1, 16)])
        klen = s.int(1, min(sz, 3))
        koff = s.draw(sz - klen)
        n = s.weighted([(5, s.draw(16)), (4, s.draw(60)), (1, s.draw(min(1000, 50000 // sz))) if s.bool(1, 4) else (1, s.draw(4))])
        mode = s.weighted([(4, 0), (2, 1), (1, 2), (1, 3), (2, 4)])
        es = elems(s, n, sz, koff, klen)
        off = s.draw(20)
        case = (op, off, sz, koff, klen, mode, es, b"")
        s.tag("bsearch" if op else "qsort")
        if op:
            k = order(case)
            es.sort(key=k)
            if es and s.bool():
                key = bytearray(s.bytes(sz))
                key[koff:koff + klen] = s.choice(es)[koff:koff + klen]
            else:
                key = bytearray(s.bytes(sz))
            if es and s.bool(1, 4):
                key[koff:koff + klen] = s.choice([es[0], es[-1]])[koff:koff + klen]
            case = (op, off, sz, koff, klen, mode, es, bytes(key))
        return case

    def key(self, c):
        return repr(c)

    def nontrivial(self, c, tags=None):
        return len(c[6]) > 1

    def show(self, c):
        return "%s of %d elements of %d bytes, key bytes %d..%d, order %d, at offset %d%s: %s" % (
            "bsearch" if c[0] else "qsort", len(c[6]), c[2], c[3], c[3] + c[4] - 1, c[5], c[1], " key %s" % c[7].hex() if c[0] else "", " ".join(e.hex() for e in c[6]))

    def req(self, c):
        op, off, sz, koff, klen, mode, es, key = c
        return bytes([op]) + u32(off) + u32(sz) + u32(koff) + u32(klen) + u32(mode) + blk(b"".join(es)) + (blk(key) if op else b"")

    def judge(self, c, rd):
        op, off, sz, koff, klen, mode, es, key = c
        r, bad, calls, m = rd.i32(), rd.i32(), rd.i32(), rd.blk()
        if bad:
            return "%d comparison calls with wrong arguments" % bad
        n = len(es)
        if m[:off] != b"\xa5" * off or m[off + n * sz:] != b"\x5a" * 64:
            return "memory around the array is modified"
        out = [m[off + i * sz:off + i * sz + sz] for i in range(n)]
        k = order(c)
        if op == 0:
            if sorted(out) != sorted(es):
                return "result is not a permutation: %s" % " ".join(e.hex() for e in out[:40])
            for a, b in zip(out, out[1:]):
                if k(a) > k(b):
                    return "result is not ordered: %s" % " ".join(e.hex() for e in out[:40])
            return None
        if out != es:
            return "bsearch modifies the array"
        kk = k(key)
        hit = [i for i in range(n) if k(es[i]) == kk]
        if r == -1:
            return None if not hit else "bsearch misses element %d" % hit[0]
        if r % sz or r // sz not in hit:
            return "bsearch gives offset %d; equal elements are %s" % (r, hit[:10])
        return None


def ival(s, bits):
    k = s.draw(3)
    lo, hi = -(1 << bits - 1), (1 << bits - 1) - 1
    if k == 0:
        return s.int(-20, 20)
    if k == 1:
        return s.choice([lo, hi, lo + 1, hi - 1, -1, 0, 1])
    if k == 2:
        v = (1 << s.draw(bits - 2)) + s.int(-1, 1)
        return -v if s.bool() else v
    return s.int(lo, hi)


def cdiv(a, b):
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return q, a - q * b


class Helpers(LibFamily):
    name, quick, thorough, batch = "helpers", 30000, 1000000, 2000
    driver = DRV

    def gen(self, s):
        a, b, c, d = ival(s, 32), ival(s, 32) or 1, ival(s, 64), ival(s, 64) or 1
        if a == -2 ** 31:
            b = b if b != -1 else 3
        if c == -2 ** 63 and d == -1:
            d = 3
        return a, b, c, d

    def key(self, c):
        return repr(c)

    def nontrivial(self, c, tags=None):
        return True

    def show(self, c):
        return "div/ldiv/abs/labs of %d, %d; lldiv/llabs of %d, %d" % c

    def req(self, c):
        return b"\2" + u32(c[0]) + u32(c[1]) + u64(c[2]) + u64(c[3])

    def judge(self, c, rd):
        a, b, x, y = c
        g = [rd.i32() for _ in range(4)] + [rd.i64(), rd.i64(), rd.i32(), rd.i32(), rd.i64()]
        e = [*cdiv(a, b), *cdiv(a, b), *cdiv(x, y)]
        e += [abs(a)] * 2 + [abs(x)]
        for i in (6, 7):
            if a == -2 ** 31:
                g[i] = e[i]
        if x == -2 ** 63:
            g[8] = e[8]
        return None if g == e else "got %s, expected %s" % (g, e)


class Rand(Family):
    name, quick, thorough, batch = "rand", 2000, 40000, 50

    def setup(self, ctx):
        build_driver(ctx, "rand", DRV)

    def gen(self, s):
        f = lambda: s.choice([0, 1, 2, 0xffffffff, 0x10000, 0x80000000]) if s.bool(1, 3) else s.draw(0xffffffff)
        return s.int(1, 80), f(), f()

    def key(self, c):
        return repr(c)

    def show(self, c):
        return "%d numbers each: at start, after srand(1), srand(%d), srand(%d), srand(%d)" % (c[0], c[1], c[2], c[1])

    def run(self, ctx, cases):
        mod = build_driver(ctx, "rand", DRV)
        res = []
        for n, a, b in cases:
            x = run_module(mod, ctx.sc.dir, b"\3" + u32(n) + u32(a) + u32(b))
            an = split_answers(x.out)
            if x.status or len(an) != 1:
                res.append("program ends with %s %s" % (x.status, x.err[:200]))
                continue
            rd = Rd(an[0])
            r = [[rd.i32() for _ in range(n)] for _ in range(5)]
            m = None
            if any(v < 0 for l in r for v in l):
                m = "negative number %d" % min(v for l in r for v in l)
            elif r[0] != r[1]:
                m = "the initial sequence is not that of srand(1)"
            elif r[2] != r[4]:
                m = "srand(%d) does not restart its sequence" % a
            elif n >= 60 and len(set(r[2])) < n // 2:
                m = "only %d different numbers in %d" % (len(set(r[2])), n)
            elif n >= 60 and not all(0 < sum(v >> i & 1 for v in r[2]) < n for i in range(31)):
                m = "a bit never changes"
            elif n >= 5 and a != b and r[2] == r[3]:
                m = "seeds %d and %d give the same sequence" % (a, b)
            res.append(m)
        return res


FAMILIES = [Sort(), Helpers(), Rand()]
