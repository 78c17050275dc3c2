"""A wrong side-loaded index is discarded and the store used as if it had none; a right one is used."""
import os
from .. import ref, gen
from ..model import *

RULE = ("each case builds a local store with a side-loaded index of one kind (malformed, other parameters, bit-rot, shifted, out of range, wrong "
        "lengths, shuffled or near-miss ids, other image, duplicates, good ones with arbitrary boundaries, beyond 4 GiB), followed by nothing or by an "
        "HTTP store that counts requests; requests beyond those of the reference simulation, a failure or a wrong image is a violation. Distinct by "
        "kind, position of the defect, number of entries, requests")
ASSUMPTIONS = ["an index is 'found to disagree' when an entry of it is used"]
REQUIRE = {"runs": 100, "discards": 50, "good_used": 30}
KINDS = ["malformed", "params", "bitrot", "shift", "beyond", "huge", "length", "shuffle", "near", "other", "missing", "empty", "dup", "zero", "desc",
         "good", "goodfree", "goodsparse", "truncated", "late", "replaced"]


def cases(tier):
    n = 400 if tier == "quick" else 2500
    return ["%s/%d" % (k, i) for i in range(n) for k in KINDS if k != "goodsparse" or i % 10 == 0] + ["several/%d" % i for i in range(2 * n)] + ["large/%d" % i for i in range(6 if tier == "quick" else 60)]


def bad_framing(rng, b):
    """an index the tool has to refuse"""
    import struct
    w = rng.randrange(10)
    x = bytearray(b)
    if w == 0:
        return bytes(x[:-1 - rng.randrange(39)])
    if w == 1:
        return bytes(x) + rng.randbytes(rng.randrange(1, 40))
    if w == 2:
        x[8 + rng.randrange(8)] ^= 1 << rng.randrange(8)
    elif w == 3:
        x[56 + rng.randrange(8)] ^= 1 << rng.randrange(8)
    elif w == 4:
        x[-1 - rng.randrange(40)] ^= 1 << rng.randrange(8)
    elif w == 5:
        struct.pack_into("<Q", x, 16, 0xb000000000000000)
    elif w == 6:
        struct.pack_into("<Q", x, 24, 1 << 40)
    elif w == 7:
        return b""
    elif w == 8:
        return rng.randbytes(len(b))
    else:
        struct.pack_into("<Q", x, 0, rng.randrange(0x30))
    return bytes(x)


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    if kind == "goodsparse":
        return sparse(c, rng)
    if kind == "several":
        return several(c, rng)
    if kind == "large":
        return large(c, rng)
    prm = gen.params(rng, big=.08)
    chunks = gen.image(rng, prm, rng.choice((2, 4, 8, 15)) if rng.random() > .03 else 250)
    if len(chunks[-1]) < 48 and len(chunks) > 1:
        chunks = chunks[:-1]
    uniq = list(dict.fromkeys(chunks))
    last = chunks[-1]
    if kind in ("goodfree",):
        uniq = gen.free_chunks(rng, rng.choice((2, 5, 9)))
        chunks = list(uniq)
    store_chunks = uniq[:]
    # the final chunk of the image keeps its boundaries only at the end of the store
    body = [x for x in store_chunks if x != last or kind == "goodfree"]
    if rng.random() < .5:
        rng.shuffle(body)
    store_chunks = body + ([last] if kind != "goodfree" else [])
    data = b"".join(store_chunks)
    ents = ref.entries_of(store_chunks)
    ids = [i for _, i in ents]
    side = None
    sidepath = None
    note = ""
    n = len(ents)
    j = rng.randrange(n)
    if kind == "malformed":
        side = bad_framing(rng, ref.caibx(ents, prm))
    elif kind == "params":
        q = list(prm)
        q[rng.randrange(3)] += rng.choice((1, -1)) if rng.random() < .5 else rng.randrange(1, 50)
        if not q[0] < q[1] < q[2] or tuple(q) == prm or q[0] < 0:
            q = [prm[0], prm[1] + 1, prm[2] + 2]
        # entries that look good but have other boundaries: would be used if accepted
        wrong = [(max(1, e - 1) if k < n - 1 else e, i) for k, (e, i) in enumerate(ents)]
        # correct for the store, but with none of the wanted chunks
        pairs = [store_chunks[k] + (store_chunks[k + 1] if k + 1 < n else b"") for k in range(0, n, 2)]
        side = ref.caibx(rng.choice((ents, wrong, ref.entries_of(pairs), ref.entries_of(pairs), [])), tuple(q))
    elif kind == "bitrot":
        side = ref.caibx(ents, prm)
        data = gen.mutate(rng, data)
    elif kind == "shift":
        d = rng.choice((1, 7, 48, 4096))
        side = ref.caibx([(e + d, i) for e, i in ents], prm)
    elif kind == "beyond":
        d = rng.choice((len(data), len(data) - 1, 1 << 20, 1 << 31, (1 << 32) - len(data) - 1))
        if rng.random() < .3:
            d = 3
        lead = [] if rng.random() < .3 else ents[:j]
        side = ref.caibx(lead + [(e + d, i) for e, i in ents[len(lead):]], prm)
    elif kind == "huge":
        out, o = [], 0
        for k, (e, i) in enumerate(ents):
            o += len(store_chunks[k]) if k < j and rng.random() < .8 else rng.choice((262145, 262144, 300000, (1 << 32) - 1))
            out.append((o, i))
        side = ref.caibx(out, prm)
    elif kind == "length":
        out = []
        prev = 0
        for k, (e, i) in enumerate(ents):
            if k == j:
                e = max(prev + 1, e + rng.choice((-1, 1, -10, 10)))
            e = max(e, prev + 1)
            out.append((e, i))
            prev = e
        side = ref.caibx(out, prm)
    elif kind == "shuffle":
        s2 = ids[:]
        if n > 1:
            a, b = rng.sample(range(n), 2)
            s2[a], s2[b] = s2[b], s2[a]
        side = ref.caibx([(e, i) for (e, _), i in zip(ents, s2)], prm)
    elif kind == "near":
        # an entry in front of the good one whose id differs in one bit only
        s2 = ids[:]
        s2[j] = gen.near(rng, s2[j])
        side = ref.caibx([(e, i) for (e, _), i in zip(ents, s2)], prm)
    elif kind == "other":
        o = gen.image(rng, prm, rng.choice((1, 5)))
        if rng.random() < .7:
            oe = [(e, rng.choice(ids)) for e, i in ref.entries_of(o)]
            oe = [(e, i) for k, (e, i) in enumerate(oe) if i not in [x for _, x in oe[:k]]]
        else:
            oe = ref.entries_of(o)
        side = ref.caibx(oe, prm)
    elif kind == "missing":
        side, sidepath = b"", rng.choice((c.path("nope"), c.tmp, "/dev/null", ""))
    elif kind == "empty":
        side = ref.caibx([], prm)
    elif kind == "dup":
        # the same id twice, both wrong: the second is found after the first was discarded together with the index
        out = [(e, ids[j] if k in (j, (j + 1) % n) else i) for k, (e, i) in enumerate(ents)]
        w = rng.randrange(1, 5)
        side = ref.caibx([(e + w, i) for e, i in out], prm)
    elif kind == "zero":
        out = ents[:]
        out.insert(j, (out[j - 1][0] if j else 0, rng.choice(ids)))
        side = ref.caibx(out, prm)
    elif kind == "desc":
        out = ents[:]
        out.insert(j, (((out[j - 1][0] if j else 0) + rng.choice((0, 1 << 33, 1 << 40, (1 << 64) - 5))) % (1 << 64), rng.choice(ids)))
        side = ref.caibx(out, prm)
    elif kind in ("good", "goodfree"):
        side = ref.caibx(ents, prm)
        data += gen.content(rng, rng.choice((0, 0, 100)))
    elif kind == "truncated":
        side = ref.caibx(ents, prm)
        data = data[:rng.randrange(len(data))]
    elif kind == "late":
        # many good entries are used before the wrong one
        side = ref.caibx(ents, prm)
        pos = sum(map(len, store_chunks[:n - 1 - rng.randrange(min(n, 3))]))
        data = data[:pos] + gen.mutate(rng, data[pos:], 3)
    elif kind == "replaced":
        # the store was replaced by a new version in which chunks moved
        side = ref.caibx(ents, prm)
        ins = gen.image(rng, prm, 2)
        data = b"".join(store_chunks[:j] + ins[:-1] + store_chunks[j:])
    order = gen.repeat(rng, chunks) if rng.random() < .6 else chunks[:]
    if rng.random() < .3:
        rng.shuffle(order)
    if rng.random() < .4:
        order = order + order[:-1]
    scn = Scn(ref.entries_of(order), prm, gen.target_for(rng, order, rng.choice(("zero", "empty", "prefix", "compl"))), chunks={ref.sha(x): x for x in order})
    loc = Local(data, side, sidepath=sidepath)
    scn.stores = [loc]
    fb = rng.random() < .7
    if fb:
        scn.stores.append(gen.http_all(order))
    if rng.random() < .15:
        scn.stores.insert(0, Local(data[:len(data) // 3]))
    pred = predict(scn)
    if sidepath is None and side is not None and kind in ("malformed",):
        try:
            ref.parse_caibx(side)
            return
        except ref.BadIndex:
            pass
    _, p = setup(c, scn)
    r = csn(c, scn, p)
    after = c.read(p["target"])
    check_exact(c, scn, r, after)
    c.count("discards", pred.discards)
    c.count("good_used", 1 if kind.startswith("good") and pred.local_hits else 0)
    if pred.ok is None:
        c.count("no_demand")
        return
    if pred.ok:
        check_outcome(c, scn, pred, r, after, "run failed")
    check_requests(c, scn, None)
    if fb and pred.certain and r.rc == 0:
        # nothing may be asked for beyond what the local store lacks
        i = len(scn.stores) - 1
        want = pred.stores[i].expect
        got = [bytes.fromhex(PATH_RE.match(x[1]).group(2)) for x in scn.stores[i].log if PATH_RE.match(x[1])]
        it = iter(want)
        extra = [x for x in got if not any(x == y for y in it)]
        c.count("fallback_requests", len(got))
        if extra:
            c.fail("not served locally", "%d chunks were requested from the next store although the local store yields them (requested %d, expected at most %d); first %s" %
                   (len(extra), len(got), len(want), extra[0].hex()))
        c.sig(kind, len(ents), len(got), pred.discards, j)
    else:
        c.sig(kind, len(ents), pred.ok, pred.discards, j)
    c.sample("%s: store %d bytes, %d entries, %d discards predicted, fallback=%s -> exit %d" % (kind, len(data), n, pred.discards, fb, r.rc))


def wrong_side(rng, parts, prm):
    """an index of the right form for the store, wrong about it"""
    ents = ref.entries_of(parts)
    ids = [i for _, i in ents]
    w = rng.randrange(5)
    if w == 0:
        return ref.caibx([(e + 1, i) for e, i in ents], prm)
    if w == 1:
        return ref.caibx([(e, i) for (e, _), i in zip(ents, ids[1:] + ids[:1])], prm)
    if w == 2:
        return ref.caibx([(e + (1 << 20), i) for e, i in ents], prm)
    if w == 3:
        j = rng.randrange(len(ents))
        return ref.caibx([(e + (k >= j), i) for k, (e, i) in enumerate(ents)], prm)
    return rng.choice((b"", ref.caibx(ents, prm)[:-1], ref.caibx(ents, (prm[0], prm[1], prm[2] + 1))))


def several(c, rng):
    """the image is spread over several local stores, most of them with wrong indices; nothing else has it"""
    prm = gen.params(rng, big=.03)
    k = rng.choice((2, 3, 4, 5, 8, 12))
    parts = []
    for _ in range(k):
        x = gen.image(rng, prm, rng.choice((2, 3, 6)))
        if len(x) > 1 and len(x[-1]) < 48:
            x = x[:-1]
        parts.append(x)
    order = [x for q in parts for x in q]
    w = rng.random()
    if w < .4:
        rng.shuffle(order)
    elif w < .6:
        order = order[::-1]
    if rng.random() < .3:
        order += rng.sample(order, len(order) // 2)
    stores = []
    for q in parts:
        v = rng.random()
        side = wrong_side(rng, q, prm) if v < .8 else ref.caibx(ref.entries_of(q), prm) if v < .9 else None
        stores.append(Local(b"".join(q), side))
    if rng.random() < .3:
        # the same store twice
        stores.append(rng.choice(stores))
    rng.shuffle(stores)
    scn = Scn(ref.entries_of(order), prm, gen.target_for(rng, order, rng.choice(("zero", "empty", "prefix", "compl"))), stores, chunks={ref.sha(x): x for x in order})
    pred = predict(scn)
    fb = rng.random() < .5
    if fb:
        scn.stores.append(gen.http_all(order))
    _, p = setup(c, scn)
    r = csn(c, scn, p, tool=rng.choice(("csn", "casync")))
    after = c.read(p["target"])
    check_exact(c, scn, r, after)
    c.count("discards", pred.discards)
    c.count("max_discards_in_a_run", 0)
    c.stats["max_discards_in_a_run"] = pred.discards
    if not pred.ok:
        c.count("no_demand")
        return
    check_outcome(c, scn, pred, r, after, "run failed")
    if fb and scn.stores[-1].log and not c.problems:
        c.fail("not served locally", "%d chunks were requested although %d local stores hold them all" % (len(scn.stores[-1].log), len(stores)))
    c.sig("several", k, pred.discards, len(order), fb)


def large(c, rng):
    """a side-loaded index with more entries than fit in 16 bits; chunks from all parts of it are needed"""
    prm = (1024, 4096, 16384)
    n = rng.choice((65535, 65536, 65537, 70000, 132000))
    k = rng.choice((4, 5))
    parts = [i.to_bytes(k, "big") for i in range(n)]
    ents = ref.entries_of(parts)
    want = sorted(rng.sample(range(n), 40) + [0, 1, n - 2, n - 1, 65533, 65534])
    if rng.random() < .5:
        rng.shuffle(want)
    seq = [parts[i] for i in want]
    data = b"".join(parts)
    style = rng.choice(("good", "good", "wrong"))
    if style == "wrong":
        # one bad entry among all these, needed last; what the store itself yields has to be found then
        img = gen.image(rng, prm, 3)
        if len(img) > 1:
            img = img[:-1]
        data = b"".join(img) + data
        o = len(b"".join(img))
        ents = ref.entries_of(img[:-1]) + [(o, rng.randbytes(32))] + [(o + e, i) for e, i in ents]
        seq = seq + img
        ents[0] = (ents[0][0], ref.sha(img[-1]))
    scn = Scn(ref.entries_of(seq), prm, b"", [Local(data, ref.caibx(ents, prm))], chunks={ref.sha(x): x for x in seq})
    pred = predict(scn)
    if style == "wrong":
        scn.stores.append(gen.http_all(seq))
        pred = predict(scn)
    _, p = setup(c, scn)
    r = csn(c, scn, p, env={"LOGLEVEL": "warn"}, timeout=120)
    after = c.read(p["target"])
    check_exact(c, scn, r, after)
    c.count("good_used")
    c.count("discards", pred.discards)
    if pred.ok:
        check_outcome(c, scn, pred, r, after, "run failed")
        check_requests(c, scn, pred)
    c.sig("large", n, style, pred.discards)
    c.sample("large: %d entries, %s -> exit %d" % (n, style, r.rc))


def sparse(c, rng):
    """a good side-loaded index whose chunks lie beyond 2 and 4 GiB"""
    prm = (16384, 65536, 262144)
    chunks = gen.free_chunks(rng, 5, sizes=(100, 4096, 70000, 262144))
    base = rng.choice(((1 << 32) - 1, (1 << 32) - 50, (1 << 31) - 3))
    gaps = [base, rng.choice((1, 300000, 1 << 31)), 0, rng.choice((0, 1 << 32 - 1)), 5]
    path = c.path("big")
    ents, o = [], 0
    with open(path, "wb") as f:
        for g, ch in zip(gaps, chunks):
            while g > 0:
                k = min(g, (1 << 32) - 1)
                o += k
                g -= k
                ents.append((o, rng.randbytes(32)))
            f.seek(o)
            f.write(ch)
            o += len(ch)
            ents.append((o, ref.sha(ch)))
    scn = Scn(ref.entries_of(chunks), prm, b"", [Local(b"", ref.caibx(ents, prm), path=path)], chunks={ref.sha(x): x for x in chunks})
    _, p = setup(c, scn)
    r = csn(c, scn, p)
    after = c.read(p["target"])
    check_exact(c, scn, r, after)
    c.count("good_used")
    if r.rc != 0 and not c.problems:
        c.fail("run failed", "a matching side-loaded index with chunks beyond %d was not used: exit %d\n%s" % (base, r.rc, r.tail()))
    c.sig("sparse", base, tuple(gaps))
