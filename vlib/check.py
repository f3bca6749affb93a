"""Driver of one property's check.

A property module (checks/<id>.py) defines FAMILIES: generators of cases with
an oracle.  The driver generates cases from VERIF_SEED, runs them in a pool of
worker processes, and on a failure shrinks the choice sequence, replays it
three times and only then reports it.

usage: python3-vt -m vlib.check C01 [--replay FILE] [--seed N] [--tier T] [--scale F]
"""
import hashlib
import importlib
import json
import glob
import os
import random
import shutil
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait
import multiprocessing

from . import choice, core

VERIF = core.VERIF


class Family:
    """one kind of generated case

    gen(src) -> case               (may raise choice.Invalid)
    run(ctx, cases) -> [None|str]  oracle verdicts for a batch of cases
    """
    name = "main"
    quick = 100             # number of cases per tier
    thorough = 1000
    batch = 50
    build = "plain"
    shrink_budget = 300

    def setup(self, ctx):
        """once per worker process"""

    def gen(self, s):
        raise NotImplementedError

    def run(self, ctx, cases):
        raise NotImplementedError

    def nontrivial(self, case, tags):
        return True

    def key(self, case):
        return repr(case)

    def show(self, case):
        return case if isinstance(case, str) else repr(case)


class Probe(Exception):
    pass


class Ctx:
    """per-worker context: the build under test and a scratch directory"""

    def __init__(self, build):
        self.tool = core.build(build)
        self.sc = core.Scratch("wv%d" % os.getpid())
        self.data = {}


_ctx = {}


def get_ctx(fam):
    k = fam.name
    if k not in _ctx:
        _ctx[k] = Ctx(fam.build)
        fam.setup(_ctx[k])
    return _ctx[k]


_mod = None


def _fam(name):
    for f in _mod.FAMILIES:
        if f.name == name:
            return f
    raise KeyError(name)


def _cleanup():
    for c in _ctx.values():
        c.sc.__exit__()


def _init(modname):
    global _mod
    import atexit
    import multiprocessing.util as mu
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _mod = importlib.import_module(modname)
    mu.Finalize(None, _cleanup, exitpriority=10)
    atexit.register(_cleanup)


def _one(fam, s):
    s.tags = set()
    return fam.gen(s)


def work(famname, seed, lo, hi):
    """generate and run cases lo..hi of a family"""
    fam = _fam(famname)
    ctx = get_ctx(fam)
    cases, srcs = [], []
    disc = 0
    for i in range(lo, hi):
        s = choice.from_rng((seed, famname, i))
        try:
            c = _one(fam, s)
        except choice.Invalid:
            disc += 1
            continue
        cases.append(c)
        srcs.append(s)
    out = {"n": len(cases), "disc": disc, "tags": {}, "keys": [], "fails": [], "samples": []}
    if not cases:
        return out
    vs = fam.run(ctx, cases)
    assert len(vs) == len(cases), (len(vs), len(cases))
    for i, (c, s, v) in enumerate(zip(cases, srcs, vs)):
        if v == "discard":
            out["disc"] += 1
            continue
        for t in s.tags:
            out["tags"][t] = out["tags"].get(t, 0) + 1
        if fam.nontrivial(c, s.tags):
            out["keys"].append(hashlib.blake2b(fam.key(c).encode("utf-8", "replace"), digest_size=8).digest())
            if len(out["samples"]) < 1:
                out["samples"].append(fam.show(c)[:1500])
        if v is not None:
            out["fails"].append((s.rec, v, i))
    return out


def test_choices(famname, choices):
    """(message or None or 'invalid', recorded choices)"""
    fam = _fam(famname)
    ctx = get_ctx(fam)
    s = choice.Src(prefix=list(choices))
    try:
        c = _one(fam, s)
        v = fam.run(ctx, [c])[0]
        if v == "discard":
            v = None
    except choice.Invalid:
        return "invalid", s.rec
    except Exception as x:          # a shrunk case the harness cannot judge is not a failure
        return "invalid", s.rec
    return v, s.rec


def _batch_failure(ex, famname, seed, lo, hi):
    """the smallest tried range of cases that fails when run in sequence"""
    def bad(a, b):
        return bool(ex.submit(work, famname, seed, a, b).result()["fails"])
    if not (bad(lo, hi) and bad(lo, hi)):
        return None
    step = (hi - lo) // 2
    tend = time.time() + 120
    while step > 0 and time.time() < tend:
        while hi - lo > step and time.time() < tend and bad(lo, hi - step):
            hi -= step
        while hi - lo > step and time.time() < tend and bad(lo + step, hi):
            lo += step
        step //= 2
    return lo, hi


def show_choices(famname, choices):
    fam = _fam(famname)
    s = choice.Src(prefix=list(choices))
    return fam.show(_one(fam, s))


def run_probe(name):
    return _mod.PROBES[name]()


def known_findings(pid):
    """keys of recorded (unrepaired) findings: lines 'finding: property=<id> key=<key> <what>'"""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % pid):
                w = l.split(None, 3)
                res[w[2][4:]] = w[3].strip()
    return res


class Pool:
    """worker processes that can be replaced when they do not answer"""

    def __init__(self, modname):
        self.modname = modname
        self.start()

    def start(self):
        self.ex = ProcessPoolExecutor(core.NPROC, mp_context=multiprocessing.get_context("fork"), initializer=_init, initargs=(self.modname,))

    def submit(self, *a):
        return self.ex.submit(*a)

    def restart(self):
        ps = list((self.ex._processes or {}).values())
        for p in ps:
            p.kill()
        self.ex.shutdown(wait=False, cancel_futures=True)
        for p in ps:
            p.join(10)
            for d in glob.glob("/tmp/wv%d.*" % p.pid):
                shutil.rmtree(d, ignore_errors=True)
        self.start()

    def close(self):
        self.ex.shutdown(wait=True, cancel_futures=True)


STUCK = 60          # seconds without any batch finishing: its cases are then run one by one
SHRINK = {"quick": 120, "thorough": 900}


def main(argv=None):
    global _mod
    argv = list(sys.argv[1:] if argv is None else argv)
    pid = argv.pop(0)
    opt = {}
    while argv:
        a = argv.pop(0)
        opt[a.lstrip("-")] = argv.pop(0)
    tier = opt.get("tier") or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(opt.get("seed") or os.environ.get("VERIF_SEED") or "1")
    scale = float(opt.get("scale", "1"))
    os.chdir(VERIF)
    sys.path.insert(0, VERIF)
    modname = "checks." + pid.lower()
    _mod = importlib.import_module(modname)
    t0 = time.time()
    try:
        for b in sorted({f.build for f in _mod.FAMILIES} | set(getattr(_mod, "BUILDS", ()))):
            core.build(b)
        if hasattr(_mod, "prepare"):
            _mod.prepare()
    except core.BuildError as x:
        print("BUILD-ERROR %s" % x)
        return 2
    ex = Pool(modname)
    try:
        return _run(pid, tier, seed, scale, opt, ex, t0)
    finally:
        ex.close()


def _run(pid, tier, seed, scale, opt, ex, t0):
    if "replay" in opt:
        r = json.load(open(opt["replay"]))
        if r.get("probe"):
            v = ex.submit(run_probe, r["probe"]).result()
        elif "lo" in r:
            o = ex.submit(work, r["family"], r["seed"], r["lo"], r["hi"]).result()["fails"]
            v = o[0][1] if o else None
        else:
            v, _ = ex.submit(test_choices, r["family"], r["choices"]).result()
            print(ex.submit(show_choices, r["family"], r["choices"]).result())
        print("replay: %s" % (v or "holds"))
        if v and v != "invalid":
            print("VIOLATION property=%s replay=%s" % (pid, opt["replay"]))
            return 1
        return 0
    fams = [f for f in _mod.FAMILIES if "family" not in opt or f.name in opt["family"].split(",")]
    stats = {f.name: {"n": 0, "disc": 0, "tags": {}, "keys": set(), "samples": []} for f in fams}
    jobs = []
    for f in fams:
        n = max(1, int((f.quick if tier == "quick" else f.thorough) * scale))
        for lo in range(0, n, f.batch):
            jobs.append((lo / n, f.name, lo, min(n, lo + f.batch)))
    jobs.sort()          # interleave the families
    fails = []
    errors = []
    violations = []
    # recorded findings and standing probes
    kf = known_findings(pid)
    for name in getattr(_mod, "PROBES", {}):
        v = ex.submit(run_probe, name).result()
        if v:
            if name in kf:
                print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kf[name], name))
            else:
                violations.append(("probe", name, v))
    pend = {}
    it = iter(jobs)
    done = False
    singles = []
    last = time.time()
    while True:
        while not done and len(pend) < core.NPROC + 4:
            j = singles.pop(0) if singles else next(it, None)
            if j is None or fails:
                done = True
                break
            pend[ex.submit(work, j[1], seed, j[2], j[3])] = j
        if not pend:
            break
        fin, _ = wait(pend, timeout=5, return_when=FIRST_COMPLETED)
        if fin:
            last = time.time()
        elif fails and time.time() - last > 15:
            ex.restart()            # enough is known
            break
        elif time.time() - last > STUCK and any(j[3] - j[2] > 1 for j in pend.values()):
            ex.restart()
            for j in pend.values():
                singles += [(j[0], j[1], k, k + 1) for k in range(j[2], j[3])]
            random.Random(seed).shuffle(singles)
            pend = {}
            last = time.time()
            done = False
            continue
        for f in fin:
            j = pend.pop(f)
            try:
                o = f.result()
            except Exception as x:
                errors.append("%s %s: %s" % (j[1], j[2], "".join(traceback.format_exception(x))[-2500:]))
                if len(errors) > 3:
                    done = True
                continue
            st = stats[j[1]]
            st["n"] += o["n"]
            st["disc"] += o["disc"]
            for t, c in o["tags"].items():
                st["tags"][t] = st["tags"].get(t, 0) + c
            st["keys"].update(o["keys"])
            if len(st["samples"]) < 3:
                st["samples"] += o["samples"]
            for rec, msg, _ in o["fails"]:
                fails.append((j[1], rec, msg, j[2], j[3]))
    # report
    reported = 0
    if fails:
        seen = set()
        fails.sort(key=lambda f: len(f[1]))
        tend = time.time() + SHRINK[tier]
        for famname, rec, msg, lo, hi in fails:
            k = (famname, msg[:12])
            if k in seen or reported >= 2 or len(errors) > 6 or reported and time.time() > tend:
                continue
            seen.add(k)
            fam = _fam(famname)
            tries = [ex.submit(test_choices, famname, rec).result()[0] for _ in range(3)]
            if not all(t and t != "invalid" for t in tries):
                # passes alone: does it depend on the cases before it?
                rng = _batch_failure(ex, famname, seed, lo, hi)
                if rng is None:
                    errors.append("unstable failure in %s: %s -> %s" % (famname, msg, tries))
                    continue
                p = _write_replay(pid, {"property": pid, "family": famname, "seed": seed, "tier": tier, "lo": rng[0], "hi": rng[1], "message": msg})
                print("%s [%s] %s (in a sequence of %d cases)" % (pid, famname, msg, rng[1] - rng[0]))
                print("VIOLATION property=%s replay=%s" % (pid, p))
                reported += 1
                continue

            def many(cs):
                if time.time() > tend:
                    return [(False, c) for c in cs]
                fs = [ex.submit(test_choices, famname, c) for c in cs]
                return [((v is not None and v != "invalid"), r) for v, r in (f.result() for f in fs)]
            try:
                small = choice.shrink(rec, many, fam.shrink_budget)
            except Exception as x:
                small = rec
            tries = [ex.submit(test_choices, famname, small).result()[0] for _ in range(3)]
            if not all(t and t != "invalid" for t in tries):
                small = rec
                tries = [ex.submit(test_choices, famname, small).result()[0] for _ in range(3)]
            shown = ex.submit(show_choices, famname, small).result()
            p = _write_replay(pid, {"property": pid, "family": famname, "seed": seed, "tier": tier, "choices": small,
                                    "message": tries[0] or msg, "case": shown})
            print("%s [%s] %s" % (pid, famname, tries[0] or msg))
            print(shown[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, p))
            reported += 1
    for kind, name, v in violations:
        p = _write_replay(pid, {"property": pid, "probe": name, "message": v})
        print("%s [probe %s] %s" % (pid, name, v))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        reported += 1
    _evidence(pid, tier, seed, fams, stats, reported, time.time() - t0)
    tot = sum(s["n"] for s in stats.values())
    dn = sum(len(s["keys"]) for s in stats.values())
    dis = sum(s["disc"] for s in stats.values())
    print("%s tier=%s seed=%d cases=%d distinct-nontrivial=%d discarded=%d violations=%d wall=%.1fs" % (
        pid, tier, seed, tot, dn, dis, reported, time.time() - t0))
    if reported:
        return 1
    if errors:
        print("ERRORS:\n" + "\n".join(errors[:2]))
        return 2
    return 0


def _write_replay(pid, d):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    h = hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h))
    with open(p, "w") as f:
        json.dump(d, f, indent=1)
    return p


def _evidence(pid, tier, seed, fams, stats, nviol, wall):
    cov = {
        "evaluations": sum(s["n"] for s in stats.values()),
        "distinct_nontrivial": sum(len(s["keys"]) for s in stats.values()),
        "rule": _mod.RULE,
        "samples": [x for s in stats.values() for x in s["samples"]][:8],
        "families": {k: {"cases": s["n"], "distinct_nontrivial": len(s["keys"]), "discarded": s["disc"],
                         "classes": dict(sorted(s["tags"].items(), key=lambda x: -x[1])[:60])} for k, s in stats.items()},
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": list(getattr(_mod, "ASSUMPTIONS", [])), "violations": nviol, "wall_s": round(wall, 2)}
    d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))


if __name__ == "__main__":
    sys.exit(main())
