"""C17: heap histories."""
from vlib import clib, core
from vlib.check import Family
from vlib.clib import LibFamily, Rd, build_driver, run_module, split_answers, u32

TECHNIQUE = "stateful model-based property-based testing of allocator histories"
RULE = ("A random history of malloc, calloc, realloc, free and memory growth by the program itself (sizes biased to bucket limits, zero and impossible amounts) runs in a "
        "fresh instance with a memory limit; every block is filled on allocation and verified before it is resized or freed and at the end. Block ranges must be aligned, "
        "disjoint, inside memory, apart from static data; after everything is freed the history is run again and may not grow memory further. "
        "Non-trivial: at least three blocks live at once; distinct by history.")
ASSUMPTIONS = ["a null result is accepted only if the request does not fit the size limit, or is larger than half of what the memory limit leaves"]

LIMIT = 1 << 26

DRV = r'''
#include <wasm.h>
typedef struct { char *p; unsigned n, tag; } slot_t;
slot_t sl_[64];
char guard_[64];
char pat_(unsigned tag, unsigned i) { return (char)(tag * 37 + i * 11 + (i >> 8) * 5 + 1); }
void fill_(int k, unsigned from) { unsigned i, n = sl_[k].n; char *p = sl_[k].p;
  if (n <= 8192) { for (i = from; i < n; ++i) p[i] = pat_(sl_[k].tag, i); }
  else { for (i = from; i < 4096; ++i) p[i] = pat_(sl_[k].tag, i); for (i = from > n - 4096 ? from : n - 4096; i < n; ++i) p[i] = pat_(sl_[k].tag, i); } }
/* verify the first n bytes, as filled when the size was m */
int bad_(int k, unsigned n, unsigned m) { unsigned i; int b = 0; char *p = sl_[k].p;
  for (i = 0; i < n; ++i) { if (m > 8192 && i == 4096 && n > m - 4096) i = m - 4096; if (m > 8192 && i >= 4096 && i < m - 4096) break; if (p[i] != pat_(sl_[k].tag, i)) ++b; }
  return b; }
void cmd_(int op) {
  int rep = g32(), cnt = g32(), at = io_.ip, r, i, k; char stk[64]; unsigned n, m, tag = 1; char *p;
  for (i = 0; i < 64; ++i) { guard_[i] = (char)i; stk[i] = (char)(i + 9); }
  p32((int)(size_t)&ib_[0]); p32((int)(size_t)&ob_[0] + 2097152); p32((int)(size_t)&sl_[0]); p32((int)(size_t)&stk[0]);
  for (r = 0; r < rep; ++r) {
    io_.ip = at;
    for (i = 0; i < cnt; ++i) {
      int o = g8(); k = g8(); n = gu32(); m = gu32();
      switch (o) {
        case 0: sl_[k].p = (char *)malloc((size_t)n); sl_[k].n = n; sl_[k].tag = tag++; p32((int)(size_t)sl_[k].p); if (sl_[k].p != NULL) fill_(k, 0); else sl_[k].n = 0; break;
        case 1: { unsigned j, z = 0, t = n * m; p = (char *)calloc((size_t)n, (size_t)m); sl_[k].p = p; sl_[k].n = t; sl_[k].tag = tag++; p32((int)(size_t)p);
          if (p != NULL) { for (j = 0; j < t; ++j) if (p[j] != 0) ++z; fill_(k, 0); } else sl_[k].n = 0; p32((int)z); } break;
        case 2: { unsigned old = sl_[k].n, c = old < n ? old : n; int b = bad_(k, old, old);
          p = (char *)realloc(sl_[k].p, (size_t)n); p32((int)(size_t)p);
          if (p != NULL) { sl_[k].p = p; b += bad_(k, c, old); sl_[k].n = n; fill_(k, 0); } else { b += bad_(k, old, old); }
          p32(b); } break;
        case 3: p32(bad_(k, sl_[k].n, sl_[k].n)); free(sl_[k].p); sl_[k].p = NULL; break;
        case 4: p32(wasm_memory_grow((int)n)); break;
        case 5: free(NULL); p32(0); break;
        case 6: sl_[k].p = (char *)realloc(NULL, (size_t)n); sl_[k].n = n; sl_[k].tag = tag++; p32((int)(size_t)sl_[k].p); if (sl_[k].p != NULL) fill_(k, 0); else sl_[k].n = 0; break;
        case 7: p32(bad_(k, sl_[k].n, sl_[k].n)); p = (char *)realloc(sl_[k].p, (size_t)0); p32(p != NULL); if (sl_[k].p == NULL) free(p); sl_[k].p = NULL; break;
      }
      p32(wasm_memory_size());
    }
    { int b = 0; for (i = 0; i < 64; ++i) { if (sl_[i].p != NULL) { b += bad_(i, sl_[i].n, sl_[i].n); free(sl_[i].p); sl_[i].p = NULL; } if (guard_[i] != (char)i) ++b; if (stk[i] != (char)(i + 9)) ++b; } p32(b); }
    p32(wasm_memory_size());
  }
}
'''
OPS = ["malloc", "calloc", "realloc", "free", "memory.grow", "free(NULL)", "realloc(NULL)", "realloc(,0)"]
NSLOT = 64


def size(s):
    k = s.weighted([(5, "small"), (4, "edge"), (2, "mid"), (1, "big"), (1, "huge")])
    if k == "small":
        return s.draw(200)
    if k == "edge":
        return max(0, (1 << s.int(4, 18)) - 16 + s.int(-2, 2))
    if k == "mid":
        return s.draw(20000)
    if k == "big":
        return s.int(60000, 3000000)
    return s.choice([0x7ffffff0, 0x7ffffff1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, 0xffffffef, 0x40000000, 0x60000000, 0x3ffffff0, 0x3ffffff1, 0xfffffff5, LIMIT, LIMIT - 100000])


class Heap(Family):
    name, quick, thorough, batch = "heap", 24000, 600000, 40

    def setup(self, ctx):
        build_driver(ctx, "heap", DRV)

    def gen(self, s):
        live, ops = {}, []
        nslot = s.choice([3, 8, 24, NSLOT])
        pool = [size(s) for _ in range(s.int(1, 4))] if s.bool() else None

        def sz():
            return s.choice(pool) if pool and s.bool(3, 4) else size(s)
        for _ in s.many(1, 160, 40):
            fr = [k for k in range(nslot) if k not in live]
            k = s.weighted([(5 if fr else 0, 0), (2 if fr else 0, 1), (3 if live else 0, 2), (5 if live else 0, 3), (1 if s.bool(1, 6) else 0, 4), (1 if s.bool(1, 6) else 0, 5),
                            (1 if fr else 0, 6), (1 if live and s.bool(1, 3) else 0, 7), (1 if not fr and not live else 0, 5)])
            s.tag(OPS[k])
            if k in (0, 6):
                i = s.choice(fr)
                n = sz()
                live[i] = n
                ops.append((k, i, n, 0))
            elif k == 1:
                i = s.choice(fr)
                if s.bool(1, 10):
                    n, m = s.choice([(0, 5), (5, 0), (0, 0), (65536, 65536), (0x10001, 0xffff), (0xffffffff, 2), (2, 0x80000001), (0x40000000, 4), (0x20000000, 8), (3, 0x55555556)])
                else:
                    m = s.choice([1, 2, 3, 4, 8, 12, 16, 24, 100])
                    n = s.draw(3000) // m
                live[i] = n * m
                ops.append((k, i, n, m))
            elif k == 2:
                i = s.choice(sorted(live))
                n = max(1, sz() if s.bool() else max(0, live[i] + s.int(-20, 40)) & 0xffffffff)
                ops.append((k, i, n, 0))
                live[i] = n         # as if it worked: an impossible size leaves the old block, then only freed
            elif k in (3, 7):
                i = s.choice(sorted(live))
                del live[i]
                ops.append((k, i, 0, 0))
            elif k == 4:
                ops.append((k, 0, s.int(0, 3), 0))
            else:
                ops.append((k, 0, 0, 0))
        return tuple(ops)

    def nontrivial(self, case, tags=None):
        n = mx = 0
        for o in case:
            if o[0] in (0, 1, 6):
                n += 1
            elif o[0] in (3, 7):
                n -= 1
            mx = max(mx, n)
        return mx >= 3

    def key(self, c):
        return repr(c)

    def show(self, c):
        return "; ".join("%s slot%d %d%s" % (OPS[o], k, n, "*%d" % m if o == 1 else "") for o, k, n, m in c)

    def run(self, ctx, cases):
        mod = build_driver(ctx, "heap", DRV)
        res = []
        for c in cases:
            req = bytes([0]) + u32(3) + u32(len(c)) + b"".join(bytes([o, k]) + u32(n) + u32(m) for o, k, n, m in c)
            x = run_module(mod, ctx.sc.dir, req, memlimit=LIMIT)
            a = split_answers(x.out)
            if x.status != 0 or len(a) != 1:
                res.append("program ends with %s %s (stderr %r)" % (x.status, x.detail[:300], x.err[:200]))
                continue
            try:
                res.append(self.judge(c, Rd(a[0])))
            except EOFError:
                res.append("answer malformed")
        return res

    def judge(self, c, rd):
        st0, st1, sl, stk = rd.u32(), rd.u32(), rd.u32(), rd.u32()
        grown, first = 0, None
        for rnd in range(3):
            live, size = {}, {}
            start = None
            for i, (o, k, n, m) in enumerate(c):
                w = "run %d, step %d (%s slot%d %d%s): " % (rnd + 1, i, OPS[o], k, n, "*%d" % m if o == 1 else "")
                if o in (0, 1, 6):
                    p = rd.u32()
                    want = n * m if o == 1 else n
                    z = rd.u32() if o == 1 else 0
                    pages = rd.u32()
                    if z and p:
                        return w + "%d bytes are not zero" % z
                    live[k] = (p, want if p else 0)
                elif o == 2:
                    p, b, pages = rd.u32(), rd.u32(), rd.u32()
                    want = n
                    if b:
                        return w + "%d bytes lost" % b
                    if p or not live[k][0]:
                        live[k] = (p, n if p else 0)
                elif o in (3, 7):
                    b = rd.u32()
                    if o == 7 and rd.u32() and live[k][0]:
                        return w + "result is not null"
                    pages = rd.u32()
                    if b and live[k][0]:
                        return w + "%d bytes lost" % b
                    del live[k]
                    continue
                else:
                    v = rd.i32()
                    pages = rd.u32()
                    if o == 4 and v >= 0 and n:
                        live["g", i] = (v * 65536, n * 65536)
                    continue
                if not p:
                    # exhaustion must be real: the block, rounded up to the next power of two, does not fit any more
                    if 2 * (want + 16) + pages * 65536 + 65536 < LIMIT:
                        return w + "null although only %d of %d bytes are in use" % (pages * 65536, LIMIT)
                    continue
                if p % 16:
                    return w + "address %#x is not aligned" % p
                if p + want > pages * 65536:
                    return w + "block %#x+%d ends outside memory of %d pages" % (p, want, pages)
                for a, e in ((st0, st1), (sl, sl + 64 * 12), (stk, stk + 64)):
                    if p < e and a < p + max(want, 1):
                        return w + "block %#x+%d overlaps the program's own data" % (p, want)
                for k2, (q, l) in live.items():
                    if k2 != k and q and p < q + max(l, 1) and q < p + max(want, 1):
                        return w + "block %#x+%d overlaps the live block %#x+%d" % (p, want, q, l)
            b, pages = rd.u32(), rd.u32()
            if b:
                return "run %d: %d bytes lost at the end" % (rnd + 1, b)
            g = sum(o[2] for o in c if o[0] == 4)
            if rnd == 0:
                first = pages
            elif pages > first + rnd * g and pages * 65536 < LIMIT // 2:
                return "run %d: the same history needs %d pages, %d were enough before" % (rnd + 1, pages, first + rnd * g)
        return None if rd.end() else "answer too long"


FAMILIES = [Heap()]
