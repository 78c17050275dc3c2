"""If every chunk is available from some usable store, the run succeeds, whatever the other stores do."""
import socket
from .. import ref, gen
from ..model import *
from . import c01

RULE = ("each case spreads the chunks of a generated index over well-behaved stores (scanned, side-loaded, HTTP, target prefix) and mixes in hostile "
        "ones (empty, tiny, corrupt, bogus side-loaded index, refusing, cutting or resetting connections, error statuses, redirect loops, garbage "
        "responses) in random order, or names one file or URL several times with different side-loaded indices or keys; the reference simulation must find every chunk obtainable, then exit 0 and the exact image are required. "
        "Distinct by store sequence and number of entries")
ASSUMPTIONS = ["retry delays are skipped by the harness", "HTTP servers run on the loopback interface"]
REQUIRE = {"runs": 100, "must_succeed": 100, "shared_places": 20, "crowds": 30}
HOSTILE = ["empty", "tiny", "random", "bogus-side", "noside", "sideempty", "corrupt-side", "oversized-side", "refuse", "drop", "reset", "cut", "cutreset", "err", "404",
           "410", "redirloop", "garbage", "badbody", "status", "bigbody", "headeronly", "shortside", "params-side", "injected"]


def cases(tier):
    n = 240 if tier == "quick" else 3000
    return ["one:%s/%d" % (h, i) for i in range(n // 3) for h in HOSTILE] + ["many/%d" % i for i in range(n * 10)] + ["big/%d" % i for i in range(n // 3)] + ["long/%d" % i for i in range(n)] + \
        ["huge/%d" % i for i in range(n // 40)] + ["twice/%d" % i for i in range(n)] + ["crowd/%d" % i for i in range(n)]


def closed_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Raw:
    """a store argument used as is"""

    def __init__(self, arg):
        self.arg = arg


def hostile(rng, kind, chunks, prm, n_later, plan):
    uniq = list(dict.fromkeys(chunks))
    img = b"".join(uniq)
    ents = ref.entries_of(uniq)
    if kind == "empty":
        return Local(b"", rng.choice((None, None, ref.caibx(ents, prm))))
    if kind == "tiny":
        return Local(rng.randbytes(rng.choice((1, 10, 47, 48, 49, 100))))
    if kind == "random":
        return Local(gen.content(rng, rng.randrange(5000)))
    if kind == "bogus-side":
        b = ref.caibx(ents, prm)
        return Local(img, rng.choice((b[:-1], b[:50], b"", gen.mutate(rng, b[:64]) + b[64:], b + bytes(40), rng.randbytes(len(b)))))
    if kind == "noside":
        return Local(img[:3000], b"", sidepath="/nonexistent/side.caibx")
    if kind == "sideempty":
        return Local(img, ref.caibx([], prm))
    if kind == "corrupt-side":
        w = rng.randrange(4)
        if w == 0:
            return Local(gen.mutate(rng, img, 20), ref.caibx(ents, prm))
        if w == 1:
            return Local(img, ref.caibx([(e + 1, i) for e, i in ents], prm))
        if w == 2:
            return Local(rng.randbytes(len(img)), ref.caibx(ents, prm))
        ids = [i for _, i in ents]
        rng.shuffle(ids)
        return Local(img, ref.caibx([(e, i) for (e, _), i in zip(ents, ids)], prm))
    if kind == "oversized-side":
        big = rng.choice((262145, 1 << 20, (1 << 32) - 1))
        out, o = [], 0
        for e, i in ents:
            o += big
            out.append((o, i))
        return Local(img, ref.caibx(out, prm))
    if kind == "shortside":
        return Local(img[:len(img) // 2], ref.caibx(ents, prm))
    if kind == "params-side":
        return Local(img, ref.caibx(ents, (prm[0], prm[1], prm[2] + 1)))
    if kind == "refuse":
        return Raw("http://127.0.0.1:%d/store" % closed_port())
    if kind == "garbage":
        return Http({}, Resp(raw=rng.choice((b"\0\1\2garbage\r\n\r\n", b"HTTP/9.9 what\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n", b"\r\n\r\n", b"HTTP/1.1 20"))))
    if kind == "redirloop":
        h = Http({}, Resp(drop=True))
        h.always = Resp(302, b"", headers=("Location: x",))
        return h
    if kind == "drop":
        return Http({}, Resp(drop=True))
    if kind == "reset":
        return Http({}, Resp(reset=True))
    if kind == "injected":
        # each tuple: curl result code for a request, body bytes delivered before
        code, n = rng.choice(((6, -1), (7, -1), (28, -1), (28, 30), (28, 3), (28, 0), (56, 10), (18, 8), (52, -1), (92, 4), (35, -1), (60, -1)))
        plan.append("cperf %s 1 1000000 %d %d" % ("%s", code, n))
        return gen.http_all(uniq)

    def mk(d):
        body = ref.zc(d)
        if kind == "cut":
            return Resp(200, body, cut=rng.randrange(len(body)))
        if kind == "cutreset":
            return Resp(200, body, cut=rng.randrange(len(body)), reset=True)
        if kind == "err":
            return Resp(rng.choice((400, 401, 403, 429, 500, 502, 503, 504)), rng.choice((b"", b"error", body, bytes(100))))
        if kind in ("404", "410"):
            return Resp(int(kind), rng.choice((b"", b"gone", body)))
        if kind == "status":
            return Resp(rng.choice((201, 204, 206, 300, 304)), b"")
        if kind == "bigbody":
            return bad(ref.zc(d + bytes(rng.choice((262144, 1 << 20)))))
        if kind == "headeronly":
            return bad(rng.choice((b"", b"\x28", b"\x28\xb5\x2f", b"\x28\xb5\x2f\xfd", body[:5])))
        return bad(c01.hostile_body(rng, d, [o for o in uniq if o != d]))
    return Http({ref.sha(d): mk(d) for d in uniq if rng.random() < .9}, Resp(404))


def long(c, rng, kind):
    """many small chunks; the stores take turns, some of them first needed or needed again after hundreds of others"""
    n = rng.choice((150, 260, 300, 600, 1100, 2100)) if kind == "long" else rng.choice((9000, 20000))
    tag = rng.randbytes(6)
    chunks = [(b"%d " % i + tag)[:rng.choice((9, 10, 11))].ljust(9) + bytes([i & 255, i >> 8 & 255, i >> 16]) for i in range(n)]
    prm = rng.choice(gen.SMALL)
    k = rng.choice((1, 2, 2, 3, 5))
    cuts = sorted(rng.choice((rng.randrange(n), n - 1, n - 2, n - rng.randrange(1, 20), rng.randrange(1, 20))) for _ in range(k - 1))
    parts = [chunks[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    stores = []
    for q in parts:
        # part of each may also be found elsewhere
        q = q + rng.sample(chunks, rng.choice((0, 0, 3)))
        if len(q) < 1200 and rng.random() < .4:
            stores.append(gen.http_all(q, rng.choice((None, None, rng.randbytes(32)))))
        else:
            stores.append(Local(b"".join(q), ref.caibx(ref.entries_of(q), prm)))
    rng.shuffle(stores)
    names = []
    for _ in range(rng.choice((0, 1, 2))):
        h = rng.choice(("empty", "tiny", "noside", "sideempty", "params-side", "404", "410", "err"))
        some = rng.sample(chunks, min(n, 8))
        if h in ("404", "410", "err") and n > 3000:
            continue
        hs = hostile(rng, h, some, prm, 0, [])
        names.append(h)
        stores.insert(rng.randrange(len(stores) + 1), hs)
    seq = chunks[:]
    if rng.random() < .3:
        seq += rng.sample(chunks, min(n, 300))
    if kind == "long" and rng.random() < .3:
        stores.insert(rng.randrange(len(stores) + 1), Target())
    img = b"".join(seq)
    scn = Scn(ref.entries_of(seq), prm, rng.choice((b"", b"", img[:rng.randrange(len(img))], b"".join(chunks[:n - 3]))), stores, chunks={ref.sha(x): x for x in chunks})
    pred = predict(scn)
    _, p = setup(c, scn)
    r = csn(c, scn, p, tool=rng.choice(("csn", "csn", "casync")) if kind == "long" else "csn", timeout=200)
    after = c.read(p["target"])
    check_exact(c, scn, r, after)
    if pred.ok:
        c.count("must_succeed")
        c.count("long_runs")
        check_outcome(c, scn, pred, r, after, "did not succeed")
        c.sig(kind, n, cuts, names)
        c.sample("%s: %d entries, stores take over at %s, hostile %s -> exit %d" % (kind, len(seq), cuts, names, r.rc))
    else:
        c.count("no_demand")


def crowd(c, rng):
    """more stores than anyone would expect; some fail on the way, those that have the chunks are anywhere among them"""
    prm = rng.choice(gen.SMALL)
    n = rng.choice((17, 33, 34, 65, 66, 80, 100, 129, 130, 200, 257, 258, 300))
    chunks = [rng.randbytes(rng.choice((20, 64, 100, 500))) for _ in range(rng.choice((3, 6, 12)))]
    seq = gen.repeat(rng, chunks)
    dull = c.write("dull", rng.randbytes(20))
    empty = c.write("nothing", b"")
    stores = [Local(b"x" * 20, None, rng.choice((dull, dull, empty))) for _ in range(n)]
    for s in stores:
        s.data = c.read(s.path)
    plan = ["seed 1"]
    # those that give up, and the ones that share their number in a byte, a word's bits, ...
    bads = sorted(rng.sample(range(min(n - 1, 40)), rng.choice((1, 2, 3))))
    near = [b + d for b in bads for d in (8, 16, 32, 64, 128, 256) if b + d < n and b + d not in bads]
    goods = sorted(set(rng.sample([i for i in range(n) if i not in bads], rng.choice((0, 1, 2))) + rng.sample(near, min(len(near), rng.choice((1, 2, 4))))))
    inject = {}
    for b in bads:
        w = rng.choice(("gone", "gone", "err", "404", "cut"))
        if w == "gone":
            stores[b] = gen.http_all(chunks)
            inject[b] = "cperf %s 1 1000000 %d %d" % ("%s", rng.choice((56, 18, 52)), rng.choice((-1, 0, 5)))
        elif w == "cut":
            stores[b] = Http({}, Resp(drop=True))
        else:
            stores[b] = Http({}, Resp(500 if w == "err" else 404))
    left = chunks[:]
    for g in goods:
        mine = [x for x in chunks if rng.random() < .5]
        if g == goods[-1]:
            mine = left
        left = [x for x in left if x not in mine]
        stores[g] = gen.http_all(mine) if rng.random() < .4 else Local(b"".join(mine), ref.caibx(ref.entries_of(mine), prm)) if mine else stores[g]
    scn = Scn(ref.entries_of(seq), prm, gen.target_for(rng, seq), stores, chunks={ref.sha(x): x for x in chunks})
    sim = Scn(scn.entries, prm, scn.target, [Http({}, Resp(drop=True)) if i in inject else s for i, s in enumerate(stores)], chunks=scn.chunks)
    pred = predict(sim)
    args, p = setup(c, scn)
    for i, l in inject.items():
        plan.append(l % (args[i].split("#")[0].split("/", 3)[3] + "/")[:150])
    r = csn(c, scn, p, plan=plan, tool=rng.choice(("csn", "csn", "casync")))
    after = c.read(p["target"])
    check_exact(c, scn, r, after)
    if pred.ok:
        c.count("must_succeed")
        c.count("crowds")
        check_outcome(c, scn, pred, r, after, "did not succeed")
        c.sig("crowd", n, bads, goods)
        c.sample("crowd: %d stores, %s fail, %s have the chunks -> exit %d" % (n, bads, goods, r.rc))
    else:
        c.count("no_demand")


def twice(c, rng):
    """stores which share a place (file, URL) and differ in the index or the key that goes with it, or in nothing"""
    prm = gen.params(rng, big=.05)
    n = rng.choice((2, 3, 6, 14))
    chunks = gen.image(rng, prm, n) if rng.random() < .5 else gen.free_chunks(rng, n, sizes=(1, 47, 48, 64, 500, 3000))
    uniq = list(dict.fromkeys(chunks))
    table = {ref.sha(x): x for x in chunks}
    kind = rng.choice(("file", "file", "url"))
    k = rng.choice((2, 2, 3, 4))
    owner = {d: rng.randrange(k) for d in uniq}
    stores, args = [], []
    if kind == "file":
        img = b"".join(uniq)
        if len(img) < max(prm[1], 64):
            img += rng.randbytes(64)
        path = c.write("shared", img)
        ents = ref.entries_of(uniq)
        style = rng.choice(("split", "split", "bare", "useless"))
        for i in range(k):
            if style == "bare" and i == k - 1:
                stores.append(Local(img, None, path))       # to be scanned
                continue
            # this index names only the owner's chunks, the others' places bear names of something else
            e = [(end, cid if style == "split" and owner[d] == i else rng.randbytes(32)) for (end, cid), d in zip(ents, uniq)]
            if style == "useless" and i == k - 1:
                e = ents
            side = c.write("side%d" % i, ref.caibx(e, prm))
            stores.append(Local(img, c.read(side), path, side))
        args = [s.path + (":" + s.sidepath if s.side is not None else "") for s in stores]
        order = list(range(k))
        rng.shuffle(order)
        stores, args = [stores[i] for i in order], [args[i] for i in order]
        if rng.random() < .3:
            w = rng.randrange(k)
            stores.insert(0, stores[w])
            args.insert(0, args[w])
    else:
        keys = [None if i == 0 and rng.random() < .5 else rng.randbytes(32) for i in range(k)]
        both = {}
        for d in uniq:
            both[ref.sha(d)] = ok(d, keys[owner[d]])

        def handler(path, headers):
            m = PATH_RE.match(path)
            cid = bytes.fromhex(m.group(2)) if m else None
            if cid not in both or bool(m.group(3)) != bool(keys[owner[table[cid]]]):
                return Resp(404)
            return both[cid]
        url, _ = c.route("t", handler)
        for i in range(k):
            t = {ref.sha(d): both[ref.sha(d)] if owner[d] == i else bad(b"") if bool(keys[i]) == bool(keys[owner[d]]) else Resp(404) for d in uniq}
            stores.append(Http(t, None, keys[i]))
            args.append(url + ("#encrypt=key:" + keys[i].hex() if keys[i] else ""))
    scn = Scn(ref.entries_of(chunks), prm, gen.target_for(rng, chunks), stores, chunks=table)
    pred = predict(scn)
    p = setup(c, Scn(scn.entries, prm, scn.target, chunks=table))[1]
    p["args"] = args
    r = csn(c, scn, p, tool=rng.choice(("csn", "csn", "casync")))
    after = c.read(p["target"])
    check_exact(c, scn, r, after)
    if pred.ok:
        c.count("must_succeed")
        c.count("shared_places")
        check_outcome(c, scn, pred, r, after, "did not succeed")
        c.sig("twice", kind, k, len(chunks))
        c.sample("twice: %d stores at one %s, %d entries -> exit %d" % (len(args), kind, len(chunks), r.rc))
    else:
        c.count("no_demand")


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    if kind == "twice":
        return twice(c, rng)
    if kind == "crowd":
        return crowd(c, rng)
    if kind in ("long", "huge"):
        return long(c, rng, kind)
    prm = gen.params(rng, big=.1)
    if kind == "big":
        chunks = gen.free_chunks(rng, rng.choice((3, 14)), sizes=(262144, 262143, 262144 - 4096, 131072, 65536))
    else:
        w = rng.random()
        n = rng.choice((1, 3, 6, 14, 25))
        chunks = gen.image(rng, prm, n) if w < .7 else gen.free_chunks(rng, n, sizes=(1, 47, 48, 64, 500, 3000))
        if rng.random() < .5:
            chunks = gen.repeat(rng, chunks)
    uniq = list(dict.fromkeys(chunks))
    plan = ["seed 1"]
    # who has what
    good = []
    have = {d: set() for d in uniq}
    for _ in range(rng.choice((1, 1, 2, 3))):
        sub = [d for d in uniq if rng.random() < .7]
        rng.shuffle(sub)
        g = rng.choice(("http", "http", "side", "scan", "enc"))
        if g == "http":
            good.append(gen.http_all(sub))
        elif g == "enc":
            good.append(gen.http_all(sub, rng.randbytes(32)))
        elif g == "side":
            good.append(Local(b"".join(sub), ref.caibx(ref.entries_of(sub), prm)))
        else:
            good.append(Local(b"".join(sub)))
    if rng.random() < .3:
        good.append(Local(b"".join(uniq), ref.caibx(ref.entries_of(uniq), prm)))
    scn = Scn(ref.entries_of(chunks), prm, gen.target_for(rng, chunks), chunks={ref.sha(x): x for x in chunks})
    if rng.random() < .5:
        good.append(Target())
    # the last word: whatever nobody has yet
    scn.stores = good
    lacking = [d for d in uniq]
    good.append(gen.http_all(lacking) if rng.random() < .7 else Local(b"".join(uniq), ref.caibx(ref.entries_of(uniq), prm)))
    for g in good:
        if isinstance(g, Http):
            g.redir = any_redir(rng, .15)
    names = []
    stores = list(good)
    if kind.startswith("one:"):
        hk = [kind[4:]]
    else:
        hk = [rng.choice(HOSTILE) for _ in range(rng.choice((1, 2, 3, 6)) if rng.random() < .95 else 30)]
    for h in hk:
        inj = []
        hs = hostile(rng, h, chunks, prm, 0, inj)
        hs.inject = inj
        stores.insert(rng.randrange(len(stores)) if rng.random() < .8 else 0, hs)
        names.append(h)
    scn.stores = [s for s in stores if not isinstance(s, Raw)]
    # simulation: injected failures make a store unsure
    sim = Scn(scn.entries, prm, scn.target, chunks=scn.chunks)
    for s in scn.stores:
        if getattr(s, "inject", None):
            z = Http({}, Resp(drop=True))
            sim.stores.append(z)
        else:
            sim.stores.append(s)
    pred = predict(sim)
    args, p = setup(c, scn)
    it = iter(args)
    p["args"] = [s.arg if isinstance(s, Raw) else next(it) for s in stores]
    for s, a in zip(stores, p["args"]):
        for l in getattr(s, "inject", None) or []:
            plan.append(l % (a.split("#")[0].split("/", 3)[3] + "/")[:150])
    c.count("redirecting_stores", sum(1 for g in good if isinstance(g, Http) and g.redir))
    r = csn(c, scn, p, plan=plan, tool=rng.choice(("csn", "csn", "casync")))
    after = c.read(p["target"])
    check_exact(c, scn, r, after)
    if pred.ok:
        c.count("must_succeed")
        check_outcome(c, scn, pred, r, after, "did not succeed")
        c.sig(names, [type(s).__name__ for s in stores], len(chunks))
        c.sample("%s with %s: %d entries -> exit %d" % (kind, names, len(chunks), r.rc))
    else:
        c.count("no_demand")
