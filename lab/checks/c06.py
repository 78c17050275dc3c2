"""Interrupted runs resume: no lost progress, correct final image, prefix neither fetched nor written again."""
import os, threading, time
from .. import ref, gen
from ..model import *
from . import c02

LEVEL = "fault_enumeration"
RULE = ("each case takes a scenario all of whose chunks are available, kills 1 to 4 runs in a row at enumerated or random writes (with part of the "
        "write done), reads or other operations - or prepares a partly correct target - and then runs undisturbed, with the chunks that occur only in "
        "the already correct prefix removed from the stores. Non-trivial: the final run starts on a target that is neither untouched nor complete; "
        "distinct by kill points, prefix length and number of entries")
ASSUMPTIONS = ["a kill is SIGKILL between two system calls or after a partial write; page cache contents survive (no power failure)"]
VARIANTS = ["san", "plain"]
REQUIRE = {"killed": 100, "skipped": 100, "resumed": 100}


def cases(tier):
    n = 700 if tier == "quick" else 6000
    out = ["%s/%d" % (k, i) for i in range(n) for k in ("kill", "state", "multi")]
    out += ["enum/%d" % i for i in range(n // 10)]
    out += ["long/%d" % i for i in range(4 if tier == "quick" else 40)]
    out += ["pair/%d" % i for i in range(n // 6)]
    out = ["gig/%d" % i for i in range(1 if tier == "quick" else 4)] + ["many/%d" % i for i in range(2 if tier == "quick" else 12)] + out
    return out


def prefix(scn, t):
    """number of leading entries the target holds correctly, and their end"""
    k, end = 0, 0
    for s, l, cid in scn.spans():
        d = t[s:s + l]
        if len(d) != l or ref.sha(d) != cid:
            break
        k, end = k + 1, s + l
    return k, end


def stores(rng, chunks, prm, scn):
    """stores that supply all of chunks"""
    uniq = list(dict.fromkeys(chunks))
    w = rng.random()
    if w < .5 or not uniq:
        st = [gen.http_all(uniq)]
    elif w < .7:
        st = [Local(b"".join(uniq), ref.caibx(ref.entries_of(uniq), prm)), gen.http_all(uniq)]
    else:
        a = uniq[:len(uniq) // 2]
        st = [Local(b"".join(a), ref.caibx(ref.entries_of(a), prm)), gen.http_all(uniq)]
    if rng.random() < .35:
        st.insert(rng.randrange(2), Target())
    return st


def resume(c, scn, plan=(), note="", tool="csn", extra=()):
    """the final run on the target as it is on disk"""
    rng = c.rng
    mid = c.read("target")
    k, pend = prefix(scn, mid)
    spans = list(scn.spans())
    rest = {cid for _, _, cid in spans[k:]}
    drop = {cid for _, _, cid in spans[:k]} - rest
    s2 = Scn(scn.entries, scn.params, mid, chunks=scn.chunks)
    if rng.random() < .7:
        need = [scn.chunks[i] for i in dict.fromkeys(x for _, _, x in spans[k:])]
    else:
        need = [scn.chunks[i] for i in dict.fromkeys(x for _, _, x in spans)]
        drop_served = True
    rng.shuffle(need)
    s2.stores = stores(rng, need, scn.params, s2)
    _, p = setup(c, s2)
    r = csn(c, s2, p, plan=roles(p) + list(plan), tool=tool)
    after = c.read("target")
    if r.rc != 0:
        if not c.problems:
            c.fail("not resumed", "%s: exit %d on a target with %d of %d leading chunks correct\n%s" % (note, r.rc, k, len(spans), r.tail()))
    else:
        for s, l, cid in spans:
            if after[s:s + l] != scn.chunks[cid]:
                c.fail("wrong image", "%s: bytes %d..%d wrong after the final run" % (note, s, s + l))
                break
        if after[scn.end:] != mid[scn.end:]:
            c.fail("tail", "bytes beyond the image changed")
    for s in s2.stores:
        if isinstance(s, Http):
            for _, path, _ in s.log:
                m = PATH_RE.match(path)
                if m and bytes.fromhex(m.group(2)) in drop:
                    c.fail("fetched again", "%s: chunk %s lies in the correct prefix only and was requested" % (note, m.group(2)))
                    break
    for e in r.ev("W", "T"):
        if int(e[3]) and int(e[2]) < pend:
            c.fail("written again", "%s: write of %s bytes at %s inside the correct prefix of %d bytes" % (note, e[3], e[2], pend))
            break
    c.count("skipped", k)
    if 0 < k < len(spans) or mid != scn.target:
        c.count("resumed")
        c.sig(note, k, len(spans), [type(x).__name__ for x in s2.stores])
    return r


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    if kind == "gig":
        return gig(c, rng)
    if kind == "many":
        return many(c, rng)
    if kind == "pair":
        return pair(c, rng)
    n = rng.choice((1, 2, 3, 5, 9, 14))
    prm = gen.params(rng, big=.08)
    chunks = gen.repeat(rng, gen.image(rng, prm, n) if rng.random() < .6 else gen.free_chunks(rng, n))
    if kind == "long":
        prm = (16, 64, 256)
        base = gen.free_chunks(rng, 60, sizes=(1, 2, 30, 64, 65))
        chunks = [rng.choice(base) for _ in range(3000)]
    if kind == "state":
        if rng.random() < .3:
            img = bytearray(b"".join(chunks))
            # arbitrary patches
            t = bytearray(img)
            for _ in range(rng.randrange(1, 5)):
                a = rng.randrange(len(t))
                b = min(len(t), a + rng.choice((1, 10, 1000)))
                t[a:b] = gen.complement(img[a:b])
            t = bytes(t)
            if rng.random() < .3:
                t = t[:rng.randrange(len(t) + 1)]
        else:
            t = gen.target_for(rng, chunks)
    else:
        t = c02.fresh_target(rng, chunks)
    scn = Scn(ref.entries_of(chunks), prm, t, chunks={ref.sha(x): x for x in chunks})
    scn.stores = stores(rng, chunks, prm, scn)
    tool = rng.choice(("csn", "csn", "casync"))
    shortw = ["seed %d" % rng.randrange(1 << 30), "short T w 600", "eintr T w 100"] if rng.random() < .3 else []
    _, p = setup(c, scn)
    base = roles(p)
    if kind == "state":
        resume(c, scn, note="prepared", tool=tool)
        return
    before = t
    if kind == "enum":
        r0 = csn(c, scn, p, plan=base)
        ws = r0.ev("W", "T")
        pts = [(k + 1, b) for k, e in enumerate(ws) for b in {0, 1, int(e[3]) // 2, int(e[3]) - 1, int(e[3])} if b >= 0]
        if len(pts) > 25:
            pts = rng.sample(pts, 25)
        for k, b in pts:
            c.write("target", t)
            _, p = setup(c, scn)
            r = csn(c, scn, p, plan=base + ["kill T w %d %d" % (k, b)])
            c.count("killed", 1 if r.killed else 0)
            grow(c, scn, t)
            resume(c, scn, note="kill w%d+%d" % (k, b), tool=tool)
        return
    rounds = 1 if kind == "kill" else rng.randrange(2, 5)
    note = []
    for i in range(rounds):
        w = rng.random()
        if w < .6:
            pl = "kill T w %d %d" % (1 + rng.randrange(max(1, len(chunks) // (2 if rounds > 1 else 1))), rng.choice((0, 1, 20, 1000, 1 << 30)))
            if kind == "long":
                pl = "kill T w %d 0" % rng.randrange(1, 1500)
        elif w < .7:
            pl = "kill T r %d 0" % (1 + rng.randrange(len(chunks)))
        else:
            pl = "killop %d" % (1 + rng.randrange(3 * len(chunks) + 5))
        prev = c.read("target")
        if i:
            scn2 = Scn(scn.entries, scn.params, prev, chunks=scn.chunks)
            scn2.stores = stores(rng, chunks, prm, scn2)
            _, p = setup(c, scn2)
        else:
            scn2 = scn
        r = csn(c, scn2, p, plan=roles(p) + shortw + [pl], tool=tool)
        c.count("killed", 1 if r.killed else 0)
        if not r.killed and r.rc != 0 and not c.problems:
            c.fail("not resumed", "round %d, not killed: exit %d\n%s" % (i, r.rc, r.tail()))
        grow(c, scn, prev)
        note.append(pl)
    resume(c, scn, plan=shortw, note="; ".join(note), tool=tool)
    c.sample("%s: %d entries, %s" % (kind, len(chunks), note))


def grow(c, scn, prev):
    a, b = prefix(scn, prev)[0], prefix(scn, c.read("target"))[0]
    if b < a:
        c.fail("progress lost", "an interrupted run reduced the correct prefix from %d to %d chunks" % (a, b))


def pair(c, rng):
    """two or three runs at once on the same target, at different speeds; one of them may be killed"""
    prm = gen.params(rng, big=.08)
    chunks = gen.repeat(rng, gen.free_chunks(rng, rng.choice((2, 5, 9, 20)), sizes=(1, 50, 1000, 4096, 30000)))
    t = c02.fresh_target(rng, chunks)
    if rng.random() < .3:
        t = gen.target_for(rng, chunks)
    scn = Scn(ref.entries_of(chunks), prm, t, chunks={ref.sha(x): x for x in chunks})
    n = rng.choice((2, 2, 2, 3))
    jobs = []
    for i in range(n):
        s = Scn(scn.entries, prm, t, chunks=scn.chunks)
        s.stores = stores(rng, chunks, prm, s)
        pause = rng.choice((0, 0, .002, .01))
        for h in s.stores:
            if isinstance(h, Http) and pause:
                for cid, r in list(h.table.items()):
                    h.table[cid] = lambda _, r=r, pause=rng.choice((0, pause, 3 * pause)): (time.sleep(pause), r)[1]
        _, p = setup(c, s)
        # the servers of the runs answer under different paths
        for j, h in enumerate(s.stores):
            if isinstance(h, Http):
                handler = c.srv.routes[c.uid + "-s%d" % j + h.at][0]
                p["args"][j] = c.route("p%d-%d" % (i, j), handler)[0]
            elif isinstance(h, Local):
                d = p["args"][j].split(":", 1)
                new = [c.write("p%d-%s" % (i, os.path.basename(x)), c.read(x)) for x in d]
                p["args"][j] = ":".join(new)
        kill = i and rng.random() < .3
        plan = roles({k: v for k, v in p.items() if k in ("index", "target")})
        if kill:
            plan.append("kill T w %d %d" % (1 + rng.randrange(len(chunks)), rng.choice((0, 1, 1000))))
        if rng.random() < .4:
            plan += ["seed %d" % rng.randrange(1 << 30), "short T w 500", "short T r 300", "eintr T w 100"]
        jobs.append((s, p, plan))
    res = [None] * n

    def go(i):
        time.sleep(delays[i])
        res[i] = csn(c, jobs[i][0], jobs[i][1], plan=jobs[i][2])
    delays = [rng.choice((0, 0, .005, .03)) for _ in range(n)]
    th = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    for x in th:
        x.start()
    for x in th:
        x.join()
    after = c.read("target")
    if any(r is None for r in res):
        raise RuntimeError("a run was lost")
    for i, r in enumerate(res):
        c.count("killed", 1 if r.killed else 0)
        if r.rc != 0 and not r.killed and not c.problems:
            c.fail("not resumed", "run %d of %d at once on the same target: exit %d\n%s" % (i, n, r.rc, r.tail()))
    if not c.problems:
        for s, l, cid in scn.spans():
            if after[s:s + l] != scn.chunks[cid]:
                c.fail("wrong image", "%d runs at once: bytes %d..%d wrong at the end" % (n, s, s + l))
                break
        if after[scn.end:] != t[scn.end:]:
            c.fail("tail", "bytes beyond the image changed")
    c.count("runs_at_once", n)
    c.sig("pair", n, len(chunks), [r.killed for r in res], [len(r.ev("W", "T")) for r in res])


def many(c, rng):
    """a correct prefix of very many chunks"""
    x, y, z = rng.randbytes(1), rng.randbytes(2), rng.randbytes(3)
    k = rng.choice((32768, 65535, 65536, 65537, 100000, 131072, 140000)) + rng.randrange(100)
    rest = rng.choice((1, 5, 300))
    seq = [x] * k
    for _ in range(3):
        seq[rng.randrange(k)] = y
    t0 = b"".join(seq)
    tail = [rng.choice((x, z)) for _ in range(rest)]
    tail[0] = z
    chunks = seq + tail
    scn = Scn(ref.entries_of(chunks), (1024, 2048, 4096), t0 + rng.choice((b"", bytes(len(b"".join(tail))))), chunks={ref.sha(v): v for v in (x, y, z)})
    if scn.target[len(t0):] and z == bytes(3):
        return
    scn.stores = [gen.http_all([x, z])]
    _, p = setup(c, scn)
    r = csn(c, scn, p, plan=["role T " + p["target"]], variant="plain", timeout=200)
    if r.crash:
        return
    note = "%d chunks present" % k
    if r.rc != 0:
        c.fail("not resumed", "%s: exit %d\n%s" % (note, r.rc, r.tail()))
    elif c.read("target") != b"".join(chunks):
        c.fail("wrong image", note)
    for e in r.ev("W", "T"):
        if int(e[3]) and int(e[2]) < len(t0):
            c.fail("written again", "%s: write of %s bytes at %s inside the correct prefix of %d bytes" % (note, e[3], e[2], len(t0)))
            break
    reqs = [q for _, q, _ in scn.stores[0].log]
    if ref.sha(x) not in [ref.sha(v) for v in tail] and any(ref.sha(x).hex() in q for q in reqs):
        c.fail("fetched again", "%s: a chunk that lies in the correct prefix only was requested" % note)
    c.count("skipped", k)
    c.count("resumed")
    c.sig("many", k, rest)


def gig(c, rng):
    """a prefix of more than 4 GiB of zeroes (sparse) with one other chunk below, then missing chunks"""
    k = ref.CHUNK_MAX
    z = bytes(k)
    x = rng.randbytes(k)
    y = [rng.randbytes(n) for n in (1000, k, 5)]
    n = (1 << 32) // k + 1
    kx = rng.randrange(3)
    lead = [z] * n
    lead[kx] = x
    path = c.path("target")
    zi, xi = ref.sha(z), ref.sha(x)
    ents = [((i + 1) * k, xi if i == kx else zi) for i in range(n)]
    o = n * k
    for d in y:
        o += len(d)
        ents.append((o, ref.sha(d)))
    with open(path, "wb") as f:
        f.seek(kx * k)
        f.write(x)
        f.truncate(n * k + sum(map(len, y)))
    ip = c.write("i.caibx", ref.caibx(ents, (16384, 65536, 262144)))
    scn = Scn(ents, (16384, 65536, 262144), b"")
    h = gen.http_all(y)
    scn.stores = [h]

    def handler(pa, hd):
        m = PATH_RE.match(pa)
        return h.table.get(bytes.fromhex(m.group(2)), Resp(404)) if m else Resp(404)
    url, log = c.route("s0", handler)
    r = c.run("csn", [ip, path, url], plan=["role T " + path], timeout=200)
    if r.rc != 0:
        if not c.problems:
            c.fail("not resumed", "prefix of %d bytes: exit %d\n%s" % (n * k, r.rc, r.tail()))
        return
    with open(path, "rb") as f:
        f.seek(n * k)
        if f.read() != b"".join(y):
            c.fail("wrong image", "bytes beyond 4 GiB are wrong")
        f.seek(0)
        if f.read(3 * k) != b"".join(lead[:3]):
            c.fail("written again", "bytes at the start of the image changed")
    if len(log) != 3:
        c.fail("fetched again", "%d requests, 3 chunks were missing" % len(log))
    bad = [e for e in r.ev("W", "T") if int(e[2]) < n * k]
    if bad:
        c.fail("written again", "write at %s inside the correct prefix of %d bytes" % (bad[0][2], n * k))
    c.count("skipped", n)
    c.sig("gig", kx)
