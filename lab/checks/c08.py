"""Transient HTTP failures: bounded retries with growing waits, full recovery, shutdown after more than ten failures."""
import socket
from .. import ref, gen
from ..model import *

LEVEL = "fault_enumeration"
RULE = ("each case scripts, for every chunk of a first HTTP store, the outcome of each transfer attempt (connect, resolve and time-out failures after any "
        "number of delivered bytes, then success, 404/410, another error status or none) at the libcurl boundary and gives a second store with "
        "everything; the logged attempts and waits, the requests to both stores, exit status and image are compared with a reference model of the retry rules. "
        "The number of failing attempts 0..12 and the byte count of the cut are enumerated. Some cases use really refused, slow and stalled connections. Distinct by script")
ASSUMPTIONS = ["a bad body may or may not count as a valid response for the failure counter", "waits are recorded at usleep/nanosleep and not performed; they advance every clock the process can read by their length, and the calendar clock may jump at any reading",
               "a wait after the last attempt is allowed"]
REQUIRE = {"attempts": 500, "recovered": 100, "shutdowns": 20, "exhausted": 50}
WAITS = [min(200000 << i, 10_000_000) for i in range(10)]
# neither success nor error, and nowhere to go: the answer supplies no chunk, but is no failure that counts
ODD = [300, 301, 302, 303, 305, 306, 307, 308, 399, 203, 202, 206, 299]
ERRS = [400, 401, 403, 405, 409, 411, 418, 429, 451, 499, 500, 501, 502, 503, 504, 511, 599]


def cases(tier):
    n = 200 if tier == "quick" else 2500
    # first, as they take long: real time, nothing injected
    out = ["slow/%d" % i for i in range(6 if tier == "quick" else 24)]
    out += ["%s/%d" % (k, i) for i in range(n) for k in ("retry", "cut", "count", "mixed", "edge")]
    out += ["odd/%d" % i for i in range(n // 2)]
    out += ["enum/%d" % i for i in range(13)]
    out += ["refused/%d" % i for i in range(3 if tier == "quick" else 12)]
    out += ["stall/%d" % i for i in range(5 if tier == "quick" else 16)]
    return out


def failures(rng, n, body):
    out = []
    for _ in range(n):
        code = rng.choice((6, 7, 28, 28))
        if code == 28 and rng.random() < .75:
            b = rng.choice((0, 1, 3, 4, 5, len(body) // 2, len(body) - 1, len(body), rng.randrange(len(body) + 1)))
        else:
            b = -1
        out.append((code, b))
    return out


class Step:
    """outcome of asking for one chunk: failing attempts, then an answer"""

    def __init__(self, fails, answer):
        self.fails, self.answer = fails, answer

    def __repr__(self):
        return "%s->%s" % (",".join("%d:%d" % f for f in self.fails), self.answer)


def make(rng, kind, i, n, body):
    if kind == "retry":
        return Step(failures(rng, rng.choice((0, 1, 2, 3, 5, 8, 9, 9, 10, 11)), body), rng.choice(("ok", "ok", "ok", "ok", "miss", "err")))
    if kind == "cut":
        b = rng.choice((1, 2, 3, 4, 5, 6, len(body) - 1, len(body) - 2, len(body), rng.randrange(len(body) + 1), rng.randrange(len(body) + 1)))
        k = rng.choice((1, 1, 2, 9))
        f = [(28, max(0, rng.choice((b, b, rng.randrange(len(body) + 1))))) for _ in range(k)]
        return Step(f, "ok")
    if kind == "odd":
        return Step([], rng.choice(("odd", "odd", "odd", "odd", "odd", "miss", "err")))
    if kind in ("count", "edge"):
        return Step([], "err")
    w = rng.random()
    if w < .35:
        return Step([], "err")
    if w < .5:
        return Step(failures(rng, 10, body), "ok")
    if w < .6:
        return Step(failures(rng, rng.randrange(4), body), "miss")
    if w < .66:
        return Step([], rng.choice(("bad", "odd")))
    return Step(failures(rng, rng.choice((0, 0, 1, 3)), body), "ok")


def case(c, key):
    kind, num = key.split("/")
    num = int(num)
    rng = c.rng
    if kind == "refused":
        return refused(c, rng)
    if kind == "stall":
        return stall(c, rng, num)
    if kind == "slow":
        return slow(c, rng, num)
    if kind == "enum":
        n = 2
    elif kind in ("retry", "cut"):
        n = rng.choice((1, 2, 3, 5))
    else:
        n = rng.choice((9, 10, 11, 12, 13, 14, 22, 30))
    chunks = list(dict.fromkeys(gen.free_chunks(rng, n, sizes=(40, 100, 500, 3000, 30000) if kind in ("cut", "retry") else (40, 64, 200))))
    n = len(chunks)
    prm = (64, 256, 1024)
    enc = rng.randbytes(32) if rng.random() < .3 else None
    a = Http(key=enc)
    a.default = Resp(404)
    bodies = {}
    for x in chunks:
        r = ok(x, enc, level=rng.choice((1, 3, 19)))
        if rng.random() < .25 and len(x) > 4:
            k = rng.randrange(1, len(x))
            b = ref.zc(x[:k]) + ref.zc(x[k:])
            r = Resp(200, ref.xchacha(enc, ref.sha(x), b) if enc else b)
            r.plain = x
        r.mode = rng.choice(("cl", "cl", "chunked", "close"))
        bodies[x] = r
    steps = [make(rng, kind, i, n, bodies[x].body) for i, x in enumerate(chunks)]
    if kind == "enum":
        steps = [Step(failures(rng, num, bodies[chunks[0]].body), "ok"), Step([], "ok")][:n]
    if kind == "edge":
        # runs of failures around the limit, interrupted by something
        steps = []
        while len(steps) < n:
            steps += [Step([], "err") for _ in range(rng.choice((9, 10, 10, 11)))]
            w = rng.choice(("ok", "ok", "miss", "retried", "odd"))
            steps.append(Step([(28, -1)] * 3, "ok") if w == "retried" else Step([], w))
        steps = steps[:n]
    if kind == "count" and rng.random() < .5:
        j = rng.randrange(n)
        steps[j] = Step([], rng.choice(("ok", "miss")))
    # ---- reference model
    third = rng.random() < .15
    base = known_base(c, 1 if third else 0, a)

    def match(cid):
        return "-s%d%s/%s/%s" % (1 if third else 0, base, cid.hex()[:4], cid.hex()[:40])
    plan, expect = [], []
    lo = hi = 0
    state = "on"
    second = []
    for x, s in zip(chunks, steps):
        cid = ref.sha(x)
        for j, (code, b) in enumerate(s.fails):
            plan.append("cperf %s %d %d %d %d" % (match(cid), j + 1, j + 1, code, b))
        st = rng.choice(ERRS)
        resp = {"ok": bodies[x], "miss": rng.choice((Resp(404), Resp(410, b"gone"), Resp(404, bodies[x].body))),
                "err": rng.choice((Resp(st), Resp(st, b"<html>error</html>"), Resp(st, bodies[x].body))),
                "odd": Resp(rng.choice(ODD), rng.choice((b"", b"<html>elsewhere</html>"))),
                "bad": rng.choice((bad(b""), bad(b"not zstd at all"), bad(ref.zc(b"something else"))))}[s.answer]
        # attempts that fail after contact get the same body, cut by the plan
        if s.fails and s.answer != "ok":
            s.fails = [(f, -1) for f, _ in s.fails]
            plan = [l for l in plan if match(cid) not in l] + ["cperf %s %d %d %d -1" % (match(cid), j + 1, j + 1, f) for j, (f, _) in enumerate(s.fails)]
        a.table[cid] = resp
        if state == "off":
            second.append((cid, True))
            continue
        att = min(10, len(s.fails) + 1)
        done = len(s.fails) < 10
        expect.append((cid, att, state == "on"))
        got = False
        if not done or s.answer == "err":
            lo, hi = lo + 1, hi + 1
        elif s.answer == "ok":
            lo = hi = 0
            got = True
        elif s.answer in ("bad", "odd"):
            lo = 0
        second.append((cid, None if state == "unsure" else not got))
        if lo > 10:
            state = "off"
            c.count("shutdowns")
        elif hi > 10 and state == "on":
            state = "unsure"
        if not done:
            c.count("exhausted")
        elif s.fails and got:
            c.count("recovered")
    fall = gen.http_all(chunks)
    scn = Scn(ref.entries_of(chunks), prm, rng.choice((b"", rng.randbytes(50))), [a, fall], chunks={ref.sha(x): x for x in chunks})
    if third:
        scn.stores.insert(0, Local(b""))
    if len(plan) > 480:
        return
    if rng.random() < .3:
        plan += ["csegmax %d" % rng.choice((1, 5, 100)), "seed %d" % rng.randrange(1 << 30)]
    _, p = setup(c, scn)
    r = csn(c, scn, p, plan=roles(p) + plan, tool=rng.choice(("csn", "csn", "casync")))
    after = c.read("target")
    check_exact(c, scn, r, after)
    desc = "%s" % steps
    if r.rc != 0 and not c.problems:
        c.fail("run failed", "the second store has everything: exit %d; script %s\n%s" % (r.rc, desc[:700], r.tail()))
    judge(c, r, expect, desc)
    # who was asked for what
    asked = [bytes.fromhex(PATH_RE.match(x[1]).group(2)) for x in fall.log if PATH_RE.match(x[1])]
    for cid, want in second:
        if want is None:
            continue
        if want and cid not in asked and not c.problems:
            c.fail("next store", "chunk %s failed in the first store and was not asked for in the second; script %s" % (cid.hex()[:16], desc[:700]))
        if not want and cid in asked:
            c.fail("not recovered", "chunk %s should have come from the first store but was asked for in the second; script %s" % (cid.hex()[:16], desc[:700]))
    c.sig(kind, desc)
    c.sample("%s: %s -> %d attempts logged" % (kind, desc[:300], len(r.ev("P"))))


def judge(c, r, expect, desc, marker=None):
    """the logged attempts of the first store, and the waits between them"""
    seq = []      # (id, [waits before each further attempt])
    pend = 0
    first = None
    for e in r.events:
        if e[0] == "S":
            pend += int(e[1])
        elif e[0] == "P":
            m = re.search(r"/([0-9a-f]{4})/([0-9a-f]{64})\.cacnk(?:\.enc)?$", e[4])
            pre = e[4][:m.start()] if m else e[4]
            if first is None:
                first = pre
            if pre != first:
                pend = 0
                continue
            cid = bytes.fromhex(m.group(2)) if m else b""
            if seq and seq[-1][0] == cid:
                seq[-1][1].append(pend)
            else:
                seq.append((cid, []))
            pend = 0
            c.count("attempts")
    want = [(cid, n) for cid, n, sure in expect if sure]
    for i, (cid, n) in enumerate(want):
        if i >= len(seq):
            c.fail("store given up", "store was contacted for %d chunks, expected at least %d (attempts for %s missing); script %s" %
                   (len(seq), len(want), cid.hex()[:16], desc[:700]))
            return
        if seq[i][0] != cid:
            c.fail("order of attempts", "chunk number %d asked for was %s, expected %s; script %s" % (i, seq[i][0].hex()[:16], cid.hex()[:16], desc[:700]))
            return
        if len(seq[i][1]) + 1 != n:
            c.fail("number of attempts", "%d attempts for chunk number %d, expected %d; script %s" % (len(seq[i][1]) + 1, i, n, desc[:700]))
            return
        if seq[i][1] != WAITS[:n - 1]:
            c.fail("waits", "waits between attempts were %r us, expected %r" % (seq[i][1], WAITS[:n - 1]))
            return
    if all(s for _, _, s in expect) and len(seq) > len(want):
        c.fail("contacted after shutdown", "store was contacted for %d chunks, expected %d; script %s" % (len(seq), len(want), desc[:700]))


def refused(c, rng):
    """nobody listens at the port"""
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    try:
        n = rng.choice((2, 13))
        chunks = list(dict.fromkeys(gen.free_chunks(rng, n, sizes=(60, 100))))
        scn = Scn(ref.entries_of(chunks), (64, 256, 1024), b"", [gen.http_all(chunks)], chunks={ref.sha(x): x for x in chunks})
        args, p = setup(c, scn)
        args.insert(0, "http://127.0.0.1:%d/x" % s.getsockname()[1])
        p["args"] = args
        r = csn(c, scn, p, plan=["csegmax 0"])
        check_exact(c, scn, r, c.read("target"))
        if r.rc != 0 and not c.problems:
            c.fail("run failed", "one store refuses connections, the other has everything: exit %d\n%s" % (r.rc, r.tail()))
        judge(c, r, [(ref.sha(x), 10, True) for x in chunks[:11]], "refused port")
        c.sig("refused", n)
    finally:
        s.close()


def stall(c, rng, num):
    """the server stops sending, really"""
    x = rng.randbytes(5000)
    y = rng.randbytes(100)
    good = ok(x)
    cut = [0, 2, 7, 3000, len(good.body) - 1][num % 5]
    a = Http({ref.sha(x): [ok(x, cut=cut), good], ref.sha(y): ok(y)})
    a.table[ref.sha(x)][0].stall = 1
    scn = Scn(ref.entries_of([x, y]), (64, 256, 1024), b"", [a], chunks={ref.sha(x): x, ref.sha(y): y})
    _, p = setup(c, scn)
    r = csn(c, scn, p, plan=["clowspeed 1"], timeout=80)
    check_exact(c, scn, r, c.read("target"))
    if r.rc != 0 and not c.problems:
        c.fail("not recovered", "download stalled after %d bytes, the second attempt is fine: exit %d\n%s" % (cut, r.rc, r.tail()))
    c.count("real_stalls")
    c.sig("stall", cut)


def slow(c, rng, num):
    """in real time: a download that keeps arriving is not given up, one that stops is, and neither loses the chunk"""
    x, y = rng.randbytes(40000), rng.randbytes(100)
    good = ok(x)
    good.mode = rng.choice(("cl", "close"))
    n = len(good.body)
    how = num % 6
    if how in (0, 1, 2):
        # well above the limit of 10 bytes per second, for longer than any plausible limit on the whole
        secs = (72, 40, 36)[how] if num < 6 else rng.randrange(30, 100)
        rate = rng.choice((150, 300, 450))
        rate = min(rate, n // secs - 1)
        good.slow = [(rate // 2, .5)] * (2 * secs)
    elif how == 3:
        good.slow = [(rng.randrange(1, n), 9), (1, 2)]
    elif how == 4:
        good.slow = [(0, 9)]
    first = [good]
    if how == 5:
        # stops for good after the start
        s = ok(x, cut=rng.choice((0, 3, n // 2, n - 1)))
        s.stall = 1
        first = [s, good]
    a = Http({ref.sha(x): first, ref.sha(y): ok(y)})
    scn = Scn(ref.entries_of([x, y]), (64, 256, 1024), b"", [a], chunks={ref.sha(x): x, ref.sha(y): y})
    _, p = setup(c, scn)
    r = csn(c, scn, p, plan=["csegmax 0"], timeout=180)
    check_exact(c, scn, r, c.read("target"))
    if r.rc != 0 and not c.problems:
        c.fail("not recovered", "slow download (%s): exit %d\n%s" % (how, r.rc, r.tail()))
    n = [path for _, path, _ in a.log].count(a.log[0][1])
    if n != len(first) and not c.problems:
        c.fail("number of attempts", "slow download (%s, %d bytes): %d attempts, expected %d" % (how, len(good.body), n, len(first)))
    c.count("real_seconds", int(r.wall))
    c.count("slow_downloads")
    c.sig("slow", how, len(first))
