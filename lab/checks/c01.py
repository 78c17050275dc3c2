"""Exit 0 implies that the target is exactly what the index lists."""
import os
from .. import ref, gen
from ..model import *

LEVEL = "exploration"
RULE = ("each case is a generated index, target and set of sources of one hostile kind (ids off by one bit, aliased or changing local stores, "
        "read glitches injected at the n-th read, corrupt HTTP bodies, repeated ids with other lengths, random mixes); non-trivial means the "
        "run got past opening its inputs and touched at least one entry; distinct by kind, sources, exit status and fault position")
ASSUMPTIONS = ["SHA-256 of the Python library", "the index file itself is read without glitches"]
REQUIRE = {"runs": 100, "exit0": 20, "exit_nonzero": 20}

KINDS = ["near-http", "near-side", "near-prefix", "near-tgtstore", "alias", "change", "glitch", "http", "length", "zerobyte", "late", "mix", "mix"]


def cases(tier):
    n = 500 if tier == "quick" else 4000
    return ["%s/%d" % (k, i) for i in range(n) for k in dict.fromkeys(KINDS) if k != "late" or i % 5 == 0] + ["mix/%d" % (n + i) for i in range(n)]


def verdict(c, scn, r, p, kind, extra=""):
    after = c.read(p["target"])
    good = check_exact(c, scn, r, after)
    c.count("exit0" if r.rc == 0 else "exit_nonzero")
    c.count("entries_checked", len(scn.entries) if r.rc == 0 else 0)
    c.sig(kind, r.rc, extra, len(scn.entries), [type(s).__name__ for s in scn.stores])
    c.sample("%s %s: %d entries, stores %s -> exit %d" % (kind, extra, len(scn.entries), [type(s).__name__ for s in scn.stores], r.rc))
    return good


def case(c, key):
    kind, _ = key.split("/")
    globals()["k_" + kind.replace("-", "_")](c, c.rng, kind)


def _near(c, rng, kind, build):
    prm = gen.params(rng)
    chunks = gen.image(rng, prm) if rng.random() < .5 else gen.free_chunks(rng)
    n = rng.randrange(len(chunks))
    pos = rng.choice((31, 30, 24, 23, 16, 8, 7, 4, 1, 0, rng.randrange(32)))
    ids = [ref.sha(x) for x in chunks]
    ids[n] = gen.near(rng, ids[n], pos)
    scn = Scn(ref.entries_of(chunks, ids), prm, chunks={i: x for i, x in zip(ids, chunks)})
    build(scn, chunks, ids, n)
    _, p = setup(c, scn)
    r = csn(c, scn, p, tool=rng.choice(("csn", "csn", "casync")))
    verdict(c, scn, r, p, kind, "bit in id byte %d" % pos)
    if r.rc == 0 and not c.problems:
        c.fail("wrong image", "exit 0 although an id matches no data")


def k_near_http(c, rng, kind):
    def b(scn, chunks, ids, n):
        scn.target = bytes(rng.choice((0, scn.end)))
        t = {i: ok(x, mode=rng.choice(("cl", "chunked", "close"))) for i, x in zip(ids, chunks)}
        scn.stores = [Http(t)] * 1
        if rng.random() < .3:
            k = rng.randbytes(32)
            scn.stores = [Http({i: ok(x, k, i) for i, x in zip(ids, chunks)}, key=k)]
        if rng.random() < .5:
            scn.stores.append(Http(dict(t)))
    _near(c, rng, kind, b)


def k_near_side(c, rng, kind):
    def b(scn, chunks, ids, n):
        scn.target = bytes(scn.end)
        scn.stores = [Local(b"".join(chunks), ref.caibx(ref.entries_of(chunks, ids), scn.params))]
    _near(c, rng, kind, b)


def k_near_prefix(c, rng, kind):
    def b(scn, chunks, ids, n):
        scn.target = b"".join(chunks)
        good = [x for i, x in enumerate(chunks) if i != n]
        scn.stores = [gen.http_all(good)]
    _near(c, rng, kind, b)


def k_near_tgtstore(c, rng, kind):
    """the good id is written first, then its neighbour is asked for"""
    prm = gen.params(rng)
    chunks = gen.free_chunks(rng, rng.choice((1, 3, 6)))
    ids = [ref.sha(x) for x in chunks]
    j = rng.randrange(len(chunks))
    pos = rng.choice((31, 30, 24, 16, 8, 4, 0, rng.randrange(32)))
    nid = gen.near(rng, ids[j], pos)
    k = rng.randrange(j + 1, len(chunks) + 1)
    ch2 = chunks[:k] + [chunks[j]] + chunks[k:]
    id2 = ids[:k] + [nid] + ids[k:]
    scn = Scn(ref.entries_of(ch2, id2), prm, chunks=dict(zip(id2, ch2)))
    scn.target = rng.choice((bytes(scn.end), b"".join(chunks[:rng.randrange(len(chunks) + 1)])))
    scn.stores = [Target(), gen.http_all(chunks)]
    _, p = setup(c, scn)
    r = csn(c, scn, p)
    verdict(c, scn, r, p, kind, "bit in id byte %d" % pos)
    if r.rc == 0 and not c.problems:
        c.fail("wrong image", "exit 0 although an id matches no data")


def k_alias(c, rng, kind):
    """the target itself, under another name, as local store"""
    prm = gen.params(rng)
    chunks = gen.image(rng, prm, rng.choice((4, 8, 16)))
    order = chunks[:]
    w = rng.random()
    if w < .5:
        order = order[1:] + order[:1]
    elif w < .8:
        rng.shuffle(order)
    else:
        order = [rng.choice(chunks) for _ in chunks]
    scn = Scn(ref.entries_of(order), prm, b"".join(chunks), chunks={ref.sha(x): x for x in chunks})
    how = rng.choice(("symlink", "hardlink", "dot", "abs"))
    tp = c.path("target")
    other = {"symlink": c.path("sl"), "hardlink": c.path("hl"), "dot": c.tmp + "/./target", "abs": c.tmp + "//target"}[how]
    side = None
    if rng.random() < .4:
        side = ref.caibx(ref.entries_of(chunks), prm)
    scn.stores = [Local(scn.target, side, path=other)]
    fb = rng.random() < .6
    if fb:
        scn.stores.append(gen.http_all(chunks))
    if rng.random() < .3:
        scn.stores.insert(0, Target())
    _, p = setup(c, scn)
    if how == "symlink":
        os.symlink(tp, other)
    elif how == "hardlink":
        os.link(tp, other)
    r = csn(c, scn, p)
    verdict(c, scn, r, p, kind, "%s fallback=%s side=%s" % (how, fb, side is not None))


def k_change(c, rng, kind):
    """a local store changes between two reads of it"""
    prm = gen.params(rng)
    chunks = gen.repeat(rng, gen.image(rng, prm, rng.choice((3, 6, 10))))
    if rng.random() < .6 and len(chunks) > 1:
        chunks += chunks[:-1]
    uniq = list(dict.fromkeys(chunks))
    store = b"".join(uniq)
    side = ref.caibx(ref.entries_of(uniq), prm) if rng.random() < .6 else None
    scn = Scn(ref.entries_of(chunks), prm, b"", chunks={ref.sha(x): x for x in chunks})
    scn.stores = [Local(store, side)]
    fb = rng.random() < .5
    if fb:
        scn.stores.append(gen.http_all(uniq))
    _, p = setup(c, scn)
    # number of reads of the store in an undisturbed run
    r0 = csn(c, scn, p, plan=roles(p))
    verdict(c, scn, r0, p, kind, "undisturbed")
    nr = len(r0.ev("R", "L0"))
    for _ in range(3):
        n = max(1, nr - rng.randrange(min(nr, len(chunks) + 2))) if nr else 1
        off = rng.randrange(len(store))
        ln = rng.choice((1, 1, 100, len(store)))
        c.write(os.path.basename(p["l0"]), store)
        c.write("target", b"")
        r = csn(c, scn, p, plan=roles(p) + ["poke L0 r %d %d %d %d %s" % (n, off, min(ln, len(store) - off), rng.randrange(1, 256), p["l0"])])
        if r.ev("X"):
            c.count("changes_made")
        verdict(c, scn, r, p, kind, "read %d of %d fallback=%s side=%s" % (n, nr, fb, side is not None))


def k_glitch(c, rng, kind):
    """one bit flipped in the result of the n-th read of a store or the target"""
    prm = gen.params(rng)
    chunks = gen.repeat(rng, gen.image(rng, prm, rng.choice((3, 6, 10))))
    uniq = list(dict.fromkeys(chunks))
    store = b"".join(uniq)
    side = ref.caibx(ref.entries_of(uniq), prm) if rng.random() < .5 else None
    k = rng.randrange(len(chunks) + 1)
    t0 = b"".join(chunks[:k])
    scn = Scn(ref.entries_of(chunks), prm, t0, chunks={ref.sha(x): x for x in chunks})
    scn.stores = [Local(store, side)]
    if rng.random() < .5:
        scn.stores.insert(0, Target())
    fb = rng.random() < .5
    if fb:
        scn.stores.append(gen.http_all(uniq))
    li = [i for i, s in enumerate(scn.stores) if isinstance(s, Local)][0]
    _, p = setup(c, scn)
    r0 = csn(c, scn, p, plan=roles(p))
    verdict(c, scn, r0, p, kind, "undisturbed")
    roles_n = [(x, len(r0.ev("R", x))) for x in ("L%d" % li, "T", "D%d" % li) if r0.ev("R", x)]
    for _ in range(5):
        if not roles_n:
            break
        role, nr = rng.choice(roles_n)
        n = 1 + rng.randrange(nr) if rng.random() < .4 else max(1, nr - rng.randrange(min(nr, len(chunks) + 2)))
        c.write("target", t0)
        plan = roles(p) + ["flip %s r %d %d" % (role, n, rng.randrange(1 << 20))]
        if rng.random() < .3:
            plan.append("flip %s r %d %d" % (role, n + 1, rng.randrange(1 << 20)))
        r = csn(c, scn, p, plan=plan)
        if r.ev("B"):
            c.count("glitches_made")
        verdict(c, scn, r, p, kind, "%s read %d of %d fallback=%s" % (role, n, nr, fb))


def hostile_body(rng, d, others):
    """a body that is not a good one for d"""
    w = rng.randrange(11)
    if w == 0:
        return ref.zc(rng.choice(others)) if others else ref.zc(b"x" + d)
    if w == 1:
        return ref.zc(gen.mutate(rng, d) if d else b"z")
    if w == 2:
        return gen.mutate(rng, ref.zc(d, checksum=rng.random() < .5), 1)
    if w == 3:
        return ref.zc(d + rng.randbytes(rng.choice((1, 2, 100))))
    if w == 4:
        return ref.zc(d[:-1])
    if w == 5:
        return ref.zc(d)[:rng.randrange(len(ref.zc(d)))]
    if w == 6:
        return ref.zc(d) + ref.zc(rng.randbytes(rng.choice((1, 50))))
    if w == 7:
        return d
    if w == 8:
        return ref.zc(rng.randbytes(3)) + ref.zc(d)
    if w == 9:
        return ref.zc(d + bytes(ref.CHUNK_MAX))
    return ref.zc(d[::-1] + b"q")


def k_http(c, rng, kind):
    prm = gen.params(rng)
    chunks = gen.repeat(rng, gen.image(rng, prm) if rng.random() < .5 else gen.free_chunks(rng))
    uniq = list(dict.fromkeys(chunks))
    scn = Scn(ref.entries_of(chunks), prm, bytes(rng.choice((0, 10))), chunks={ref.sha(x): x for x in chunks})
    hn = rng.choice((1, 1, 2))
    for _ in range(hn):
        t = {}
        for d in uniq:
            x = ref.sha(d)
            if rng.random() < .35:
                t[x] = bad(hostile_body(rng, d, [o for o in uniq if o != d]), mode=rng.choice(("cl", "close", "chunked")))
            else:
                t[x] = ok(d)
        scn.stores.append(Http(t))
    if rng.random() < .5:
        scn.stores.append(gen.http_all(uniq))
    _, p = setup(c, scn)
    plan = None
    if rng.random() < .5:
        plan = ["seed %d" % rng.randrange(1 << 30), "csegmax %d" % rng.choice((1, 3, 10, 100, 4000))]
    r = csn(c, scn, p, plan=plan)
    verdict(c, scn, r, p, kind, "stores %d seg=%s" % (len(scn.stores), plan and plan[1]))


def k_length(c, rng, kind):
    """right ids, wrong lengths"""
    prm = gen.params(rng)
    chunks = gen.free_chunks(rng, rng.choice((2, 4, 6)))
    ids = [ref.sha(x) for x in chunks]
    ents = ref.entries_of(chunks)
    off = list(zip([0] + [e for e, _ in ents[:-1]], [len(x) for x in chunks], ids))
    j = rng.randrange(len(chunks))
    s, l, i = off[j]
    nl = rng.choice((l + 1, max(1, l - 1), 2 * l, 1, l + 4096, 262144, 262145, 300000, 1 << 24))
    if nl == l:
        nl = l + 1
    mode = rng.choice(("change", "repeat", "repeat"))
    lens = [(len(x), y) for x, y in zip(chunks, ids)]
    if mode == "change":
        lens[j] = (nl, i)
    else:
        lens.insert(j + 1, (nl, i))
    ents, o = [], 0
    for a, b in lens:
        o += a
        ents.append((o, b))
    scn = Scn(ents, prm, b"", chunks={})
    img = b"".join(chunks)
    scn.stores = []
    if rng.random() < .3:
        scn.stores.append(Target())
    if rng.random() < .5:
        scn.stores.append(Local(img, ref.caibx(ref.entries_of(chunks), prm)))
    if rng.random() < .3:
        scn.stores.append(Local(img + bytes(70000), ref.caibx(ents, prm)))
    if rng.random() < .6 or not scn.stores:
        scn.stores.append(gen.http_all(chunks))
    if rng.random() < .4:
        scn.target = b"".join(chunks[:j + 1])
    _, p = setup(c, scn)
    r = csn(c, scn, p)
    verdict(c, scn, r, p, kind, "%s %d->%d" % (mode, l, nl))
    if r.rc == 0 and not c.problems:
        c.fail("wrong image", "exit 0 although a listed length does not fit its id")


def k_zerobyte(c, rng, kind):
    """ids that contain a zero byte early; the wanted id differs only behind it"""
    prm = gen.params(rng)
    pos = rng.choice((0, 1, 2))
    a = gen.with_zero_byte(rng, rng.choice((100, 2000)), pos)
    cid = ref.sha(a)
    nid = gen.near(rng, cid, rng.randrange(pos + 1, 32))
    other = gen.free_chunks(rng, 2)
    chunks = [other[0], a, other[1]]
    ids = [ref.sha(other[0]), nid, ref.sha(other[1])]
    via = rng.choice(("http", "side", "prefix", "repeat", "tgtstore"))
    if via in ("repeat", "tgtstore"):
        chunks.insert(1, a)
        ids.insert(1, cid)
    if via == "tgtstore":
        chunks.insert(2, other[1])
        ids.insert(2, ref.sha(other[1]))
    scn = Scn(ref.entries_of(chunks, ids), prm, b"")
    h = {i: ok(x) for i, x in zip(ids, chunks)}
    if via == "http":
        scn.stores = [Http(h)]
    elif via == "side":
        scn.stores = [Local(b"".join(chunks), ref.caibx(scn.entries, prm))]
    else:
        h.pop(nid)
        scn.stores = [Http(h)]
        if via == "prefix":
            scn.target = b"".join(chunks)
        if via == "tgtstore":
            scn.stores.insert(0, Target())
    _, p = setup(c, scn)
    r = csn(c, scn, p)
    verdict(c, scn, r, p, kind, via)
    if r.rc == 0 and not c.problems:
        c.fail("wrong image", "exit 0 although an id matches no data")


def k_late(c, rng, kind):
    """a source that is right for a long time (more than a hundred chunks) and then wrong once"""
    n = rng.choice((30, 70, 110, 140, 260, 300, 520, 700, 1040))
    chunks = [rng.randbytes(rng.choice((33, 64, 100, 150))) for _ in range(n)]
    j = n - 1 - rng.randrange(min(n // 2, 20))
    wrong = gen.mutate(rng, chunks[j], 1)
    prm = rng.choice(((16, 64, 256), (64, 256, 1024)))
    scn = Scn(ref.entries_of(chunks), prm, b"", chunks={ref.sha(x): x for x in chunks})
    via = rng.choice(("side", "side", "http", "enc", "prefix", "prefix", "tstore", "two", "repeat"))
    have = chunks[:j] + [wrong] + chunks[j + 1:]
    if via == "side":
        scn.stores = [Local(b"".join(have), ref.caibx(scn.entries, prm))]
    elif via in ("http", "enc"):
        k = rng.randbytes(32) if via == "enc" else None
        t = {ref.sha(x): ok(x, k) for x in chunks}
        w = ref.zc(wrong)
        t[ref.sha(chunks[j])] = bad(w if not k else ref.xchacha(k, ref.sha(chunks[j]), w))
        scn.stores = [Http(t, key=k)]
    elif via == "prefix":
        scn.target = b"".join(have)
        scn.stores = [gen.http_all(chunks[:j] + chunks[j + 1:])]
    elif via == "tstore":
        # every chunk is taken from the target a second time; one changes in between, as the image lists another one for its place
        order = chunks + chunks
        scn = Scn(ref.entries_of(order), prm, b"", chunks=scn.chunks)
        scn.stores = [Target(), gen.http_all(chunks[:j] + chunks[j + 1:])]
    elif via == "two":
        # an earlier store with all the chunks but this
        scn.stores = [gen.http_all(chunks[:j] + chunks[j + 1:]), Local(b"".join(have), ref.caibx(scn.entries, prm))]
    else:
        order = chunks[:j] + [chunks[j]] * rng.choice((2, 3)) + chunks[j:]
        scn = Scn(ref.entries_of(order), prm, b"".join(chunks[:j + 1]) + wrong, chunks=scn.chunks)
        scn.stores = [gen.http_all([x for x in chunks if rng.random() < .5 or x == chunks[j]])]
    fb = rng.random() < .5
    if fb:
        scn.stores.append(gen.http_all(chunks))
    _, p = setup(c, scn)
    pred = predict(scn)
    r = csn(c, scn, p)
    verdict(c, scn, r, p, kind, "%s %d of %d fallback=%s" % (via, j, n, fb))
    if pred.ok is False and r.rc == 0 and not c.problems:
        c.fail("wrong image", "exit 0 although entry %s cannot be obtained" % pred.fail_at)


def k_mix(c, rng, kind):
    """everything at once; the simulation says whether the run has to fail"""
    scn, desc = mix(rng)
    _, p = setup(c, scn)
    pred = predict(scn)
    r = csn(c, scn, p, tool=rng.choice(("csn", "csn", "casync")))
    verdict(c, scn, r, p, kind, desc)
    if pred.ok is False and r.rc == 0 and not c.problems:
        c.fail("wrong image", "exit 0 although entry %s cannot be obtained" % pred.fail_at)


def mix(rng):
    prm = gen.params(rng)
    chunks = gen.repeat(rng, gen.image(rng, prm) if rng.random() < .6 else gen.free_chunks(rng))
    uniq = list(dict.fromkeys(chunks))
    scn = Scn(ref.entries_of(chunks), prm, gen.target_for(rng, chunks), chunks={ref.sha(x): x for x in chunks})
    desc = []
    for _ in range(rng.choice((1, 2, 2, 3, 4))):
        w = rng.random()
        if w < .25:
            sub = [x for x in uniq if rng.random() < .6]
            rng.shuffle(sub)
            scn.stores.append(Local(b"".join(sub) + gen.content(rng, rng.choice((0, 0, 500)))))
            desc.append("scan")
        elif w < .5:
            sub = [x for x in uniq if rng.random() < .7]
            rng.shuffle(sub)
            data = b"".join(sub)
            side = ref.caibx(ref.entries_of(sub), prm)
            if rng.random() < .5:
                data = gen.mutate(rng, data)
                desc.append("side-bitrot")
            else:
                desc.append("side")
            scn.stores.append(Local(data, side))
        elif w < .65:
            scn.stores.append(Target())
            desc.append("target")
        else:
            t = {}
            for d in uniq:
                x = ref.sha(d)
                q = rng.random()
                if q < .5:
                    t[x] = ok(d)
                elif q < .65:
                    t[x] = bad(hostile_body(rng, d, [o for o in uniq if o != d]))
                elif q < .75:
                    t[x] = Resp(rng.choice((500, 503, 403, 410)), b"error page")
            scn.stores.append(Http(t))
            desc.append("http")
    if rng.random() < .6:
        scn.stores.append(gen.http_all(uniq))
        desc.append("http-all")
    return scn, ",".join(desc)
