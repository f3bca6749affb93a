"""Plants bugs: plant.py SPECFILE [ID...]

SPECFILE defines PLANTS = [dict(id=, property=, file=, edits=[(old, new)...], needs=, breaks=,
prog=<C text> (optional: expect=<bytes or None>, opts=[...], main= name), or demo=<shell text>, files={name: text})].
A plant is kept (written to seeded/<id>/) only if it builds, passes the stable
tests and its demonstration fails with it and passes without it.  The check of
the property is then run against the changed copy."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = open(os.path.join(R, "tools", "run.py.in")).read()
DEMO = '''#!/bin/bash
# exit 0: the program behaves as C prescribes
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
/repo/_build/wcpl -q -L /repo/_build/lib/ -I /repo/lib/include/ %s-o p.wasm "$D/prog.c" || exit 3
/opt/vp/venv/bin/python "$D/run.py" p.wasm > out.txt || echo "status $?" >> out.txt
diff "$D/expected.txt" out.txt
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def plant(p):
    w = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        c = w + "/repo"
        sh(["cp", "-a", "/repo", c], check=True)
        es = p["edits"] if isinstance(p["edits"], list) else [p["edits"]]
        for e in es:
            f, old, new = (p["file"],) + tuple(e) if len(e) == 2 else e
            b = open(c + "/" + f, "rb").read()
            crlf = b"\r\n" in b
            t = b.decode("latin-1").replace("\r\n", "\n")
            if t.count(old) != 1:
                return "edit occurs %d times: %r" % (t.count(old), old)
            t = t.replace(old, new)
            open(c + "/" + f, "wb").write((t.replace("\n", "\r\n") if crlf else t).encode("latin-1"))
        diff = subprocess.run(["git", "-C", c, "diff"], stdout=subprocess.PIPE).stdout
        # the changed lines must be the repository's own
        orig = False
        root = subprocess.run(["git", "-C", c, "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.split()[0][:7]
        for f in {(e[0] if len(e) == 3 else p["file"]) for e in es}:
            bl = subprocess.run(["git", "-C", c, "blame", "-s", "--abbrev=8", "HEAD", "--", f], stdout=subprocess.PIPE).stdout.decode("latin-1").split("\n")
            hunk = subprocess.run(["git", "-C", c, "diff", "-U0", "--", f], stdout=subprocess.PIPE).stdout.decode("latin-1").split("\n")
            for h in hunk:
                if h.startswith("@@"):
                    a = h.split()[1][1:].split(",")
                    n = int(a[1]) if len(a) > 1 else 1
                    for k in range(int(a[0]), int(a[0]) + n):
                        if bl[k - 1].lstrip("^").startswith(root):
                            orig = True
        if not orig:
            return "changes no original line"
        d = w + "/seed"
        os.mkdir(d)
        open(d + "/patch.diff", "wb").write(diff)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if "prog" in p:
            open(d + "/prog.c", "w").write(p["prog"].lstrip())
            open(d + "/run.py", "w").write(RUN)
            open(d + "/expected.txt", "w").write(p["expect"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(DEMO % "".join(o + " " for o in p.get("opts", [])))
        else:
            open(d + "/demo.sh", "w").write(p["demo"].lstrip())
            if p.get("run"):
                open(d + "/run.py", "w").write(RUN)
        for n, t in p.get("files", {}).items():
            open(d + "/" + n, "wb").write(t if isinstance(t, bytes) else t.encode("latin-1"))
        os.chmod(d + "/demo.sh", 0o755)
        r = sh(["bash", d + "/demo.sh"], cwd="/repo")
        if r.returncode:
            return "demo fails on the clean tree:\n" + r.stdout.decode("latin-1")[:1500]
        # in a private mount namespace the changed copy stands in for /repo
        ns = ["unshare", "-m", "bash", "-c", 'mount --bind "$0" /repo && cd /repo && exec "$@"', c]
        r = sh(ns + ["bash", "/opt/vp/test.sh", w + "/out.json"])
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        o = json.load(open(w + "/out.json"))
        miss = b - set(o["passed"])
        if miss:
            return "stable tests fail: %d %s\n%s" % (len(miss), sorted(miss)[:4], r.stdout.decode("latin-1")[-600:] if not o["passed"] else "")
        r = sh(ns + ["bash", d + "/demo.sh"])
        if r.returncode == 0:
            return "demo passes with the change"
        t = os.path.join(R, "seeded", p["id"])
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        msg = "kept; demo: " + r.stdout.decode("latin-1")[:200].replace("\n", " | ")
        env = dict(os.environ, VERIF_REPO=c, VERIF_BUILD=w + "/build", VERIF_EVIDENCE=w + "/ev")
        import time
        t0 = time.time()
        r = sh(["python3-vt", "-m", "vlib.check", p["property"]], cwd=R, env=env)
        o = r.stdout.decode("latin-1")
        return "%s\n    CHECK %s rc=%d %.0fs %s" % (msg, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p["property"] in o else "*** MISSED", r.returncode, time.time() - t0, o[-700:].replace("\n", "\n      ") if "-v" in sys.argv or r.returncode != 1 else "")
    finally:
        shutil.rmtree(w, ignore_errors=True)


sp = importlib.util.spec_from_file_location("plants", sys.argv[1])
m = importlib.util.module_from_spec(sp)
sp.loader.exec_module(m)
want = [a for a in sys.argv[2:] if not a.startswith("-")]
for p in m.PLANTS:
    if not want or p["id"] in want:
        print(p["id"], ":", plant(p), flush=True)
