#!/usr/bin/env python3
"""mutate.py OUT.jsonl [FILE ...]: small systematic changes to the sources, each run through the checks until one reports it.

Only an aid for finding gaps: survivors are looked at by hand, many of them are no change in behaviour.
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    "main.c": "C19 C06 C01 C07 C03 C22 C18 C16 C13 C12",
    "store.c": "C03 C07 C08 C14 C19",
    "store-local.c": "C04 C05 C01 C03 C15 C21 C14",
    "index.c": "C03 C04 C07 C05 C14 C01",
    "target.c": "C06 C07 C01 C02 C15 C21",
    "caibx.c": "C13 C04 C01 C14 C15",
    "chunker.c": "C05 C13 C14 C15 C04",
    "chunk.c": "C07 C10 C01 C16",
    "encrypt.c": "C10 C11 C12 C14 C20",
    "sha.c": "C16 C01 C14 C20",
    "utils.c": "C15 C12 C11 C17 C21 C14",
    "csn-tool.c": "C11 C12 C14 C15 C18",
    "patchdd.c": "C17 C15 C18 C21 C22 C14",
    "store-http.c": "C09 C08 C10 C07 C12 C03 C20 C14 C02",
    "ui.c": "C22 C14", "log.c": "C22 C12 C14 C18",
    "utils.h": "C13 C05 C10", "store.h": "C03", "log.h": "C22",
}
ALL = ["C%02d" % i for i in range(1, 23)]
CHEAP = [k for k in ALL if k not in ("C20",)]


def muts(line):
    s = line.rstrip("\n")
    body = s.strip()
    if not body or body.startswith(("//", "/*", "*", "#", "u_log", "static const", "case ", "default", "fprintf")) or re.match(r"^(0x|\[U_LOG|\"|COLOR)", body):
        return
    code = s
    out = set()

    def sub(pat, rep):
        for m in re.finditer(pat, code):
            # not within string literals
            if code[:m.start()].count('"') % 2:
                continue
            out.add(code[:m.start()] + m.expand(rep) + code[m.end():])
    sub(r" < ", " <= ")
    sub(r" <= ", " < ")
    sub(r" > ", " >= ")
    sub(r" >= ", " > ")
    sub(r" == ", " != ")
    sub(r" != ", " == ")
    sub(r" && ", " || ")
    sub(r" \|\| ", " && ")
    sub(r" \+ 1\b", "")
    sub(r" - 1\b", "")
    sub(r" \+ ", " - ")
    sub(r" - ", " + ")
    sub(r"\+= ", "= ")
    sub(r"-= ", "= ")
    sub(r"\btrue\b", "false")
    sub(r"\bfalse\b", "true")
    sub(r"\breturn -1;", "return 0;")
    sub(r"\breturn 0;", "return -1;")
    sub(r"\bcontinue;", "break;")
    sub(r"\bEXIT_FAILURE\b", "EXIT_SUCCESS")
    sub(r"\bEXIT_SUCCESS\b", "EXIT_FAILURE")
    sub(r"(?<![\w.])0(?![\w.])", "1")
    sub(r"(?<![\w.])([1-9]\d*)(?![\w.])", r"\g<1>0")
    sub(r"(?<![\w.])(1|2|4|8|32|24|16|64|48|40|10)(?![\w.])", r"(\g<1>-1)")
    sub(r"if \((?!.*\belse\b)(.*)\) \{$", r"if (!(\1)) {")
    sub(r"if \(([^{]*)\)$", r"if (!(\1))")
    sub(r"\bMIN\(", "MAX(")
    sub(r" & ~", " & ")
    sub(r"CHUNK_ID_LEN\b", "(CHUNK_ID_LEN-1)")
    if body.endswith(";") and not re.match(r"^(static |const |struct |uint|int |size_t|ssize_t|char |off_t|long |bool |void |unsigned|return\b|break|enum|u_assert|\}|FILE|time_t|CURLcode|double)", body) and "(" in body or re.match(r"^[\w\->.\[\]*]+ [+\-]?= .*;$", body) or re.match(r"^(goto|continue|break)\b.*;$", body) or re.match(r"^[\w\->.()*]+(\+\+|--);$", body):
        out.add(re.sub(r"\S.*$", ";", code, count=1))
    for o in out:
        if o != code:
            yield o


def main():
    outp = sys.argv[1]
    files = sys.argv[2:] or [f for f in ORDER if f.endswith(".c")]
    limit = int(os.environ.get("MUT_LIMIT", "0"))
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)["id"] for l in open(outp)}
    todo = []
    for f in files:
        src = open("/repo/" + f).read().split("\n")
        for n, line in enumerate(src):
            for m in muts(line):
                todo.append((f, n, line, m))
    rng = random.Random(os.environ.get("MUT_SEED", "1"))
    rng.shuffle(todo)
    if limit:
        todo = todo[:limit]
    print(len(todo), "mutants", flush=True)
    part, parts = (int(x) for x in os.environ.get("MUT_PART", "0/1").split("/"))
    wd = "/tmp/mut-wd-%d" % part
    if os.environ.get("MUT_ONLY"):
        only = set(open(os.environ["MUT_ONLY"]).read().split())
        todo = [x for x in todo if hashlib.md5(("%s:%s:%s" % (x[0], x[2], x[3])).encode()).hexdigest()[:10] in only]
    for k, (f, n, line, m) in enumerate(todo):
        if k % parts != part:
            continue
        ident = hashlib.md5(("%s:%s:%s" % (f, line, m)).encode()).hexdigest()[:10]
        if ident in done:
            continue
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        subprocess.run("git -C /repo archive HEAD | tar -x -C " + wd, shell=True, check=True)
        src = open(wd + "/" + f).read().split("\n")
        src[n] = m
        open(wd + "/" + f, "w").write("\n".join(src))
        res = None
        t = time.time()
        env = dict(os.environ, CSNV_REPO=wd, CSNV_STOP="1", CSNV_ROOT="/tmp/mut-build-%d" % part)
        first = ORDER[f].split()
        frac = os.environ.get("MUT_FRACTION", "0.15")
        env["CSNV_FRACTION"] = frac
        if frac == "1":
            del env["CSNV_FRACTION"]
        for c in first + ([x for x in CHEAP if x not in first] if os.environ.get("MUT_ALL") else []):
            try:
                r = subprocess.run([sys.executable, V + "/run.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
            except subprocess.TimeoutExpired:
                res = "timeout " + c
                break
            if "build failed" in r.stdout:
                res = "nobuild"
                break
            if r.returncode == 1:
                res = "killed " + c
                break
            if r.returncode != 0:
                res = "rc%d %s %s" % (r.returncode, c, r.stdout[-300:])
                break
        rec = dict(id=ident, file=f, line=n + 1, old=line.strip(), new=m.strip(), res=res or "SURVIVED", t=round(time.time() - t))
        with open(outp, "a") as o:
            o.write(json.dumps(rec) + "\n")
        if not res or not res.startswith(("killed", "nobuild")):
            print(rec, flush=True)
    shutil.rmtree(wd, ignore_errors=True)


main()
