"""Stores are asked in order and nothing is fetched needlessly."""
from .. import ref, gen
from ..model import *

RULE = ("each case builds an index with repetitions (immediate, distant, with other lengths excluded), 1 to 6 stores of all kinds in random order "
        "(local ones with and without side-loaded index, HTTP ones with different chunk sets, URL forms, errors, bad bodies, encryption, the target itself) "
        "and any initial target, and compares every request log, entry by entry, with a reference simulation. Distinct by "
        "kinds of stores, entries, prefix and numbers of requests; non-trivial if at least one request was made")
ASSUMPTIONS = ["the reference simulation of the store chain in lab/model.py"]
VARIANTS = ["san", "plain"]
REQUIRE = {"runs": 100, "requests": 500, "target_hits": 30, "repeats": 100, "crowds": 20}


def cases(tier):
    n = 1500 if tier == "quick" else 10000
    return ["many/%d" % i for i in range(3 if tier == "quick" else 12)] + ["%s/%d" % (k, i) for i in range(n) for k in ("mix", "target", "order", "rep")]


def many(c, rng):
    """more distinct chunks than any table of a fixed size would hold, the target listed first"""
    n = rng.choice((2100, 4200, 17000))
    tag = rng.randbytes(8)
    uniq = [tag + b"%d" % i + bytes(rng.randrange(30)) for i in range(n)]
    again = rng.sample(uniq, 300) + uniq[-100:]
    t = b"".join(uniq[:rng.choice((0, 0, 500, n // 2))])
    seq = uniq + again
    scn = Scn(ref.entries_of(seq), (64, 256, 1024), t, [Target(), gen.http_all(uniq)], chunks={ref.sha(x): x for x in seq})
    if rng.random() < .5:
        scn.stores.append(gen.http_all(uniq))
    pred = predict(scn)
    _, p = setup(c, scn)
    r = csn(c, scn, p, tool=rng.choice(("csn", "casync")), variant="plain", env={"LOGLEVEL": "err"}, timeout=150)
    check_requests(c, scn, pred)
    if not c.problems:
        check_outcome(c, scn, pred, r, c.read("target"))
    c.count("requests", len(scn.stores[1].log))
    c.count("repeats", len(again))
    c.sig("many", n, len(t), len(scn.stores))


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    if kind == "many":
        return many(c, rng)
    prm = gen.params(rng, big=.03)
    chunks = gen.free_chunks(rng, rng.choice((2, 4, 7, 12)), sizes=(1, 48, 100, 500, 1000, 4096)) if rng.random() < .7 else gen.image(rng, prm, rng.choice((3, 8)))
    uniq = list(dict.fromkeys(chunks))
    seq = gen.repeat(rng, chunks)
    if kind in ("target", "rep"):
        seq = [rng.choice(uniq) for _ in range(rng.choice((5, 12, 30, 60)))]
        if rng.random() < .5:
            seq = [x for x in seq for _ in range(rng.choice((1, 1, 2, 4)))]
    t = gen.target_for(rng, seq, rng.choice(("zero", "empty", "prefix", "prefix", "compl", "exact", "hole")))
    scn = Scn(ref.entries_of(seq), prm, t, chunks={ref.sha(x): x for x in seq})
    ns = rng.choice((1, 2, 3, 4)) if kind != "order" else rng.choice((3, 4, 6))
    where = {}
    for x in uniq:
        if rng.random() < .93:
            where[x] = {rng.randrange(ns) for _ in range(rng.choice((1, 1, 2, 3)))}
        else:
            where[x] = set() if rng.random() < .15 else {ns - 1}
    for i in range(ns):
        mine = [x for x in uniq if i in where[x]]
        w = rng.random()
        if w < .28 and kind != "rep":
            rng.shuffle(mine)
            d = b"".join(mine)
            scn.stores.append(Local(d, ref.caibx(ref.entries_of(mine), prm)) if mine and rng.random() < .8 else Local(d))
        else:
            k = rng.randbytes(32) if rng.random() < .2 else None
            h = gen.http_all(mine, k, suffix=rng.choice(("", "", "/", "/deep/er", "/x/")))
            sub = h.suffix.rstrip("/")
            if rng.random() < .25:
                for x in rng.sample(uniq, min(len(uniq), 2)):
                    if i not in where[x]:
                        h.table[ref.sha(x)] = rng.choice((Resp(410), Resp(404, b"x"), Resp(500), Resp(403, b"no"), bad(b""), bad(b"abc"), bad(ref.zc(b"other"))))
            scn.stores.append(h)
    if kind == "target" or rng.random() < .2:
        scn.stores.insert(rng.randrange(len(scn.stores) + 1) if kind != "target" else 0, Target())
    if rng.random() < .03:
        # a crowd of stores with nothing of use
        dull = c.write("dull", b"nothing of use")
        for _ in range(rng.choice((30, 64, 100, 256))):
            scn.stores.insert(rng.randrange(len(scn.stores) + 1), Local(b"nothing of use", None, dull))
        c.count("crowds")
    # strip URL sub-paths in front of the simulation
    pred = predict(scn)
    _, p = setup(c, scn)
    tool = rng.choice(("csn", "casync"))
    r = csn(c, scn, p, tool=tool)
    for s in scn.stores:
        if isinstance(s, Http):
            sub = s.suffix.rstrip("/")
            if sub:
                for j, (m, path, h) in enumerate(s.log):
                    if not path.startswith(sub + "/"):
                        c.fail("odd request", "path %s does not extend the store's path %s" % (path, sub))
                    else:
                        s.log[j] = (m, path[len(sub):], h)
            c.count("requests", len(s.log))
    check_requests(c, scn, pred)
    if not c.problems:
        check_outcome(c, scn, pred, r, c.read("target"))
    nreq = sum(len(s.log) for s in scn.stores if isinstance(s, Http))
    c.count("target_hits", max(0, pred.queries - nreq) if any(isinstance(s, Target) for s in scn.stores) else 0)
    c.count("repeats", len(seq) - len(set(seq)))
    if nreq:
        c.sig(kind, [type(s).__name__ for s in scn.stores], len(seq), pred.skipped, nreq, pred.ok)
    c.sample("%s %s: %d entries (%d distinct), stores %s, %d requests, exit %d" % (kind, tool, len(seq), len(uniq), [type(s).__name__ for s in scn.stores], nreq, r.rc))
