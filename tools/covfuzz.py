#!/usr/bin/env python3
"""Coverage-guided exploration behind the seed corpus of C09 (not part of any check).

usage: python3-vt tools/covfuzz.py KIND SECONDS OUTDIR [SEED]
KIND: c, h or w.  Every worker evolves its own corpus; inputs that reach new
coverage are kept in OUTDIR/corpus, failures (deduplicated by the place they
fail in, then reduced) in OUTDIR/crash."""
import hashlib
import multiprocessing
import os
import random
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import bytemut, choice, core, forksrv          # noqa: E402
from checks import c09                                   # noqa: E402

KIND, SECS, OUT = sys.argv[1], int(sys.argv[2]), sys.argv[3]
SEED = int(sys.argv[4]) if len(sys.argv) > 4 else 1


def frames(tool, err):
    a = re.findall(r"#\d+ 0x[0-9a-f]+ +\((\S+?)\+0x([0-9a-f]+)\)", err)[:12]
    ad = [x[1] for x in a if x[0].endswith("/wcpl")]
    if not ad:
        return ""
    p = subprocess.run(["addr2line", "-f", "-s", "-e", tool.wcpl] + ["0x" + x for x in ad], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    l = [x for x in p.stdout.decode().split("\n") if x]
    fs = ["%s@%s" % (l[i], l[i + 1]) for i in range(0, len(l) - 1, 2)]
    return " ".join(f for f in fs if re.search(r"@[a-z]\.c", f))


def sig(tool, v):
    m = re.search(r"(\w+\.c:\d+): (\S+ ?\S*): Assertion", v)
    if m:
        return "assert " + m.group(1)
    fr = frames(tool, v)
    if fr:
        return re.sub(r":\d+$", "", " ".join(fr.split()[:2]))
    return re.sub(r"\d+", "N", v)[:60]


def worker(n):
    tool = core.build("cov")
    rng = random.Random(repr((SEED, KIND, n)))
    fam = {"c": c09.Sources, "h": c09.Headers, "w": c09.Objects}[KIND]()
    fam.build = "cov"

    class X:
        pass
    ctx = X()
    ctx.tool, ctx.data = tool, {}
    sc = ctx.sc = core.Scratch("cf%d" % n)
    fam.setup(ctx)
    pool = list(c09.corpus(KIND))
    rng.shuffle(pool)
    seen = set()
    fresh_box = [0]
    orig = fam.exec

    def ex(c, args, secs=c09.SECS):
        r = orig(c, args, secs)
        fresh_box[0] |= r[2]
        fresh_box.append(r[3])
        return r
    fam.exec = ex

    def case(b):
        if KIND == "c":
            return {"opts": ["-c", "-o", "o.wo"], "src": b}
        if KIND == "h":
            return {"h": b, "src": b'#include "h.h"\nint main(void) { return 0; }\n'}
        return {"o": b, "opts": ["-o", "o.wat"]}

    def run(b):
        fresh_box[:] = [0]
        try:
            v = fam.one(ctx, case(b))
        except forksrv.Died:
            fam.setup(ctx)
            return "died", 0
        return v, fresh_box[0]
    for b in pool:
        run(b)
    t0 = time.time()
    cnt = 0
    dic = bytemut.WDICT if KIND == "w" else bytemut.CDICT
    while time.time() - t0 < SECS:
        s = choice.Src(rng=rng)
        k = rng.random()
        if KIND == "c" and k < 0.25:
            try:
                b = c09.gen_c(s)
            except choice.Invalid:
                continue
        else:
            b = rng.choice(pool[-200:] if rng.random() < 0.4 else pool)
            if k < 0.7:
                b = bytemut.mutate_wtokens(s, b, 1 + rng.randrange(4)) if KIND == "w" else bytemut.mutate_ctokens(s, b, 1 + rng.randrange(4))
            if k > 0.5:
                b = bytemut.mutate_bytes(s, b, 1 + rng.randrange(4), dic, pool)
        if len(b) > 60000:
            continue
        v, fresh = run(b)
        cnt += 1
        if v:
            sg = sig(tool, v)
            h = hashlib.sha1(sg.encode()).hexdigest()[:8]
            p = os.path.join(OUT, "crash", "%s-%s" % (KIND, h))
            if sg in seen or os.path.exists(p):
                seen.add(sg)
                continue
            seen.add(sg)
            # reduce by chunks
            tr = time.time()
            best, size = b, max(1, len(b) // 2)
            while size >= 1 and time.time() - tr < 40:
                i = 0
                while i < len(best) and time.time() - tr < 40:
                    c = best[:i] + best[i + size:]
                    v2, _ = run(c)
                    if v2 and sig(tool, v2) == sg:
                        best, v = c, v2
                    else:
                        i += size
                size //= 2
            with open(p, "wb") as f:
                f.write(best)
            with open(p + ".txt", "w") as f:
                f.write(sg + "\n" + frames(tool, v) + "\n" + v)
        elif fresh:
            pool.append(b)
            with open(os.path.join(OUT, "corpus", "%s-%d-%06d" % (KIND, n, cnt)), "wb") as f:
                f.write(b)
    sc.__exit__()
    print("worker %d: %d cases, pool %d, edges %s" % (n, cnt, len(pool), fresh_box[-1]), flush=True)


if __name__ == "__main__":
    os.makedirs(os.path.join(OUT, "crash"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "corpus"), exist_ok=True)
    core.build("cov")
    ps = [multiprocessing.Process(target=worker, args=(i,)) for i in range(core.NPROC)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()
