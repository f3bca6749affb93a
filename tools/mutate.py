"""Mutation campaign: mutate.py gen FILE-REGEX COUNT OUTDIR [SEED]  -- make mutants that build and pass the stable tests
                    mutate.py run OUTDIR                            -- run the checks of each against it, until one catches it

A mutant is one small edit of one source line of a copy of /repo (which, in a private mount
namespace, stands in for /repo while the tests run).  Results: OUTDIR/<n>.diff and OUTDIR/results.txt."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "stdlib.c": "C17 C15 C18 C16 C23", "stdio.c": "C19 C13 C14 C24", "string.c": "C16", "ctype.c": "C16",
    "time.c": "C20", "math.c": "C21 C15 C13", "fenv.c": "C21", "wasm_simd128.h": "C25", "math.h": "C21", "fcntl.c": "C22 C24", "unistd.c": "C22 C24 C23", "stat.c": "C22 C24",
    "dirent.c": "C22 C24", "crt.args.c": "C23 C24", "crt.argv.c": "C23 C24", "crt.void.c": "C23", "errno.c": "C16 C24 C22",
    "c.c": "C01 C03 C02 C04 C12 C11 C05 C10 C09 C25 C06 C07 C08",
    "p.c": "C10 C04 C01 C03 C02 C11 C09 C12 C07 C06 C08",
    "w.c": "C06 C12 C05 C25 C01 C07 C09 C08 C02", "l.c": "C10 C06 C09 C12 C08 C15 C04",
}
HDR = "C16 C13 C21 C22 C19 C25 C11 C23"


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def mutate(line, rnd):
    """one mutated form of a source line, or None"""
    code = line.split("/*")[0]
    if not code.strip() or code.lstrip().startswith(("#", "*", "//")):
        return None
    ops = []

    def sub(m, new, what):
        ops.append((line[:m.start()] + new + line[m.end():], what))
    for m in re.finditer(r"(?<![<>=!\-+*/&|^])(<=|>=|<|>|==|!=)(?![<>=])", code):
        if m.group() in "<>" and "include" in code:
            continue
        for n in {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!=", ">="], "!=": ["==", "<"]}[m.group()]:
            sub(m, n, "cmp")
    for m in re.finditer(r"&&|\|\|", code):
        sub(m, "||" if m.group() == "&&" else "&&", "logic")
    for m in re.finditer(r" ([+\-]) ", code):
        sub(m, " - " if m.group(1) == "+" else " + ", "arith")
    for m in re.finditer(r"\s*[+\-] 1\b(?![.\w])", code):
        sub(m, "", "drop1")
    for m in re.finditer(r"(?<![\w.'])(\d+)(?![\w.'])", code):
        v = int(m.group())
        if v < 1 << 31:
            sub(m, str(v + 1), "const"); 
            if v: sub(m, str(v - 1), "const")
    for m in re.finditer(r"0[xX]([0-9a-fA-F]+)", code):
        v = int(m.group(), 16)
        sub(m, hex(v ^ (1 << rnd.randrange(max(1, v.bit_length())))), "hex")
    for m in re.finditer(r"\bif \((.*)\)(?= |$|\{)", code):
        if m.group(1).count("(") == m.group(1).count(")"):
            sub(m, "if (0 && (%s))" % m.group(1), "never")
            sub(m, "if (!(%s))" % m.group(1), "not")
    for m in re.finditer(r"(?<=[;{]) *((?!return\b|break\b|case\b|goto\b|else\b|for\b|while\b|if\b)[a-zA-Z_*(][\w\->.\[\]*() ,&]*(?:[-+|&]?=|\+\+|--|\()[^;{}]*;)", code):
        if not re.match(r"(const |static |unsigned |int |char |long |double |float |size_t |node_t |sym_t |cbuf_t |struct |u?int\d+_t |bool )", m.group(1)):
            sub(m, " ;" if m.group()[0] == " " else ";", "delete")
    m = re.match(r"^( +)((?!return\b|break\b|case\b|goto\b|else\b|for\b|while\b|if\b|do\b|default\b|\})[a-zA-Z_*(][^;{}]*;)\s*$", code)
    if m and not re.match(r"(const |static |unsigned |int |char |long |double |float |size_t |node_t |sym_t |cbuf_t |struct |u?int\d+_t |bool |\w+ \*?\w+( =|;|,|\[))", m.group(2)):
        ops.append((m.group(1) + ";" + line[m.end(2):], "delete"))
    for m in re.finditer(r"\bbreak;", code):
        if "case" in code or rnd.random() < .3:
            sub(m, "/* break */;", "break")
    for m in re.finditer(r"\b(unsigned|signed) (char|int|long|short)\b", code):
        sub(m, ("signed " if m.group(1) == "unsigned" else "unsigned ") + m.group(2), "sign")
    for m in re.finditer(r"<<|>>", code):
        sub(m, ">>" if m.group() == "<<" else "<<", "shift")
    for m in re.finditer(r"(?<=\w) ?([&|]) (?=\w)", code):
        sub(m, " %s " % ("|" if m.group(1) == "&" else "&"), "bit")
    for m in re.finditer(r"\b(IN|TS|TT|NT)_([A-Z]\w+)", code):
        a = m.group()
        for x, y in (("_S", "_U"), ("_U", "_S"), ("I32", "I64"), ("I64", "I32"), ("F32", "F64"), ("8", "16"), ("_GT", "_GE"), ("_LT", "_LE"), ("INT", "UINT"), ("LONG", "ULONG"), ("UINT", "INT"), ("CHAR", "UCHAR"), ("USHORT", "SHORT")):
            if a.endswith(x) or x in ("I32", "I64", "F32", "8", "INT", "CHAR", "LONG") and x in a:
                n = a.replace(x, y, 1)
                sub(m, n, "ident")
    if not ops:
        return None
    # one kind first, so that constants do not crowd out the rest
    k = rnd.choice(sorted({w for _, w in ops}))
    return rnd.choice([o for o in ops if o[1] == k])


def one(args):
    n, f, ln, new, what, out = args
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        c = w + "/repo"
        sh(["cp", "-a", "/repo", c], check=True)
        b = open(c + "/" + f, "rb").read().decode("latin-1")
        ls = b.split("\n")
        cr = "\r" if ls[ln].endswith("\r") else ""
        ls[ln] = new + cr
        open(c + "/" + f, "wb").write("\n".join(ls).encode("latin-1"))
        ns = ["unshare", "-m", "bash", "-c", 'mount --bind "$0" /repo && cd /repo && exec "$@"', c]
        try:
            r = sh(ns + ["timeout", "60", "bash", "/opt/vp/build.sh"], timeout=90)
            if r.returncode:
                return (n, "nobuild")
            r = sh(ns + ["timeout", "100", "bash", "/opt/vp/test.sh", w + "/out.json"], timeout=130)
        except subprocess.TimeoutExpired:
            return (n, "hang")
        if not os.path.exists(w + "/out.json"):
            return (n, "hang")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        if base - set(json.load(open(w + "/out.json"))["passed"]):
            return (n, "killed")
        d = subprocess.run(["git", "-C", c, "diff"], stdout=subprocess.PIPE).stdout
        open("%s/%03d.diff" % (out, n), "wb").write(d)
        return (n, "survives")
    finally:
        shutil.rmtree(w, ignore_errors=True)


def gen(rx, count, out, seed):
    os.makedirs(out, exist_ok=True)
    rnd = random.Random(seed)
    fs = [f for f in subprocess.run(["git", "-C", "/repo", "ls-files"], stdout=subprocess.PIPE, text=True).stdout.split()
          if re.search(rx, f) and f.endswith((".c", ".h")) and not f.startswith(("tests/", "examples/"))]
    sites = []
    for f in fs:
        ls = open("/repo/" + f, "rb").read().decode("latin-1").split("\n")
        for i, l in enumerate(ls):
            if len(l) < 400:
                sites.append((f, i, l.rstrip("\r")))
    jobs, seen = [], set()
    start = len([x for x in os.listdir(out) if x.endswith(".diff")])
    while len(jobs) < count:
        f, i, l = rnd.choice(sites)
        m = mutate(l, rnd)
        if not m or (f, i) in seen or m[0] == l:
            continue
        seen.add((f, i))
        jobs.append((start * 1000 + len(jobs), f, i, m[0], m[1], out))
    tally = {}
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for n, r in ex.map(one, jobs):
            tally[r] = tally.get(r, 0) + 1
    print(tally, flush=True)


def run(out):
    res = out + "/results.txt"
    done = {l.split()[0] for l in open(res)} if os.path.exists(res) else set()
    for x in sorted(os.listdir(out)):
        if not x.endswith(".diff") or x in done:
            continue
        w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
        try:
            c = w + "/repo"
            sh(["cp", "-a", "/repo", c], check=True)
            p = sh(["git", "-C", c, "apply", "--whitespace=nowarn", os.path.abspath(out + "/" + x)])
            if p.returncode:
                continue
            f = re.search(r"^\+\+\+ b/(\S+)", open(out + "/" + x, "rb").read().decode("latin-1"), re.M).group(1)
            cs = CHECKS.get(os.path.basename(f), HDR).split()
            env = dict(os.environ, VERIF_REPO=c, VERIF_BUILD=w + "/build", VERIF_EVIDENCE=w + "/ev")
            t0 = time.time()
            got = "MISSED"
            for k in cs:
                r = sh(["timeout", "900", "python3-vt", "-m", "vlib.check", k], cwd=R, env=env)
                if r.returncode:
                    got = "%s(rc=%d)" % (k, r.returncode)
                    if r.returncode != 1:
                        open("%s/%s.log" % (out, x), "wb").write(r.stdout)
                    break
            with open(res, "a") as o:
                o.write("%s %s %s %.0fs\n" % (x, f, got, time.time() - t0))
        finally:
            shutil.rmtree(w, ignore_errors=True)


if sys.argv[1] == "gen":
    gen(sys.argv[2], int(sys.argv[3]), sys.argv[4], int(sys.argv[5]) if len(sys.argv) > 5 else 1)
else:
    run(sys.argv[2])
