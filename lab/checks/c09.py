"""HTTP bodies: the result depends on the bytes only, complete streams are accepted, all others refused."""
from .. import ref, gen
from ..model import *

RULE = ("each case builds one body (well-formed in many ways, or mutated, truncated, extended, empty, foreign, oversized) for the first of two chunks and runs "
        "the same download under several segmentations (all in one, byte by byte, fixed and random pieces, three HTTP framings), with a second store that "
        "has only that chunk; libzstd applied to the whole body decides whether it must be accepted, must be refused, or may be either way but always the same. "
        "Distinct by body kind, class, length and segmentation")
ASSUMPTIONS = ["libzstd's whole-body decoder as oracle", "truncated bodies that already carry all data, and bodies with skippable frames or a short odd tail, may be taken or not",
               "a body with frames whose stated length is not met, which nevertheless yields exactly the chunk, is up to libzstd, whose own streaming decoder decides "
               "that by the pieces (counted as library_undecided)"]
REQUIRE = {"runs": 500, "must_accept": 200, "must_refuse": 200}
KINDS = ["plain", "plain", "frames", "frames", "levels", "big", "flip", "flip", "trunc", "garbage", "empty", "short", "text", "other", "longer", "shorter",
         "oversize", "skippable", "emptyframe", "magic", "zeros", "id"]


def cases(tier):
    n = 70 if tier == "quick" else 700
    return ["%s.%d/%d" % (k, j, i) for i in range(n) for j, k in enumerate(KINDS)] + ["many/%d" % i for i in range(3 * n)]


def frames(rng, x, n):
    cuts = sorted(rng.randrange(len(x) + 1) for _ in range(n - 1))
    cuts = [0] + cuts + [len(x)]
    return b"".join(streamed(rng, x[a:b]) if rng.random() < .15 else ref.zc(x[a:b], rng.choice((1, 3, 9)), rng.random() < .4, rng.random() < .6)
                    for a, b in zip(cuts, cuts[1:]))


def streamed(rng, x):
    """as made by a program that does not know the length in advance: large windows, no length in the header"""
    w = rng.choice((0, 0, 10, 17, 20, 21, 22, 23, 24, 25, 26, 27))
    return ref.zstream(x, rng.choice((-5, 1, 3, 9, 19)) if not w or w < 24 else rng.choice((1, 3)), rng.random() < .4, w,
                       [rng.randrange(len(x) + 1) for _ in range(rng.choice((0, 0, 1, 5, 40)))], rng.random() < .5)


def make(rng, kind, x):
    if kind == "plain":
        return ref.zc(x, rng.choice((1, 3)), rng.random() < .5, rng.random() < .5)
    if kind == "frames":
        return frames(rng, x, rng.choice((2, 2, 3, 5, 20)))
    if kind == "levels" and rng.random() < .5:
        return streamed(rng, x)
    if kind == "levels":
        return ref.zc(x, rng.choice((-50, -5, 1, 2, 4, 6, 9, 12, 15, 19)), rng.random() < .5, rng.random() < .5)
    if kind == "big":
        return frames(rng, x, rng.choice((1, 1, 2, 7)))
    b = frames(rng, x, rng.choice((1, 1, 2)))
    if kind == "flip":
        b = bytearray(b)
        for _ in range(rng.choice((1, 1, 3))):
            b[rng.choice((rng.randrange(len(b)), rng.randrange(min(len(b), 20))))] ^= 1 << rng.randrange(8)
        return bytes(b)
    if kind == "trunc":
        return b[:rng.choice((len(b) - 1, len(b) - 2, len(b) - 4, len(b) - 5, rng.randrange(len(b)), rng.randrange(min(20, len(b)))))]
    if kind == "garbage":
        return b + rng.choice((rng.randbytes(rng.choice((4, 10, 100, 5000))), b"\0" * rng.choice((4, 9)), b"\n\n\n\n", b[:4] + rng.randbytes(30), x[:50] + b"abcd"))
    if kind == "empty":
        return b""
    if kind == "short":
        return b[:rng.randrange(1, 8)]
    if kind == "text":
        return rng.choice((b"<html><body>404 not found</body></html>", b"\x1f\x8b\x08" + rng.randbytes(50), x, rng.randbytes(500), b"\x28\xb5\x2f\xfc" + b[4:]))
    if kind == "other":
        return ref.zc(rng.choice((gen.mutate(rng, x), rng.randbytes(len(x)), x[::-1] + b"a")))
    if kind == "longer":
        return rng.choice((ref.zc(x + x), ref.zc(x + b"\0"), b + ref.zc(b"\0"), b + b, ref.zc(b"a") + b))
    if kind == "shorter":
        return rng.choice((ref.zc(x[:-1]), ref.zc(x[1:]), ref.zc(b""), ref.zc(b"") * 3))
    if kind == "oversize":
        n = rng.choice((ref.CHUNK_MAX + 1, ref.CHUNK_MAX * 3, 5_000_000))
        y = x + bytes(n - len(x)) if n > len(x) else x
        return rng.choice((ref.zc(y), ref.zc(y, size=False), b + ref.zc(bytes(ref.CHUNK_MAX)), ref.zc(rng.randbytes(ref.CHUNK_MAX)) + b))
    if kind == "skippable":
        sk = (0x184D2A50 + rng.randrange(16)).to_bytes(4, "little")
        d = rng.randbytes(rng.choice((0, 1, 100)))
        sk += len(d).to_bytes(4, "little") + d
        return rng.choice((sk + b, b + sk, ref.zc(x[:9]) + sk + ref.zc(x[9:])))
    if kind == "emptyframe":
        e = ref.zc(b"", 1, rng.random() < .5, rng.random() < .5)
        return rng.choice((e + b, b + e, e + b + e, e * 5 + b, ref.zc(x[:5]) + e + ref.zc(x[5:])))
    if kind == "magic":
        m = b"\x28\xb5\x2f\xfd"
        return rng.choice((m, m * 2, m + b, b + m, m[:3], m + rng.randbytes(20), m + b"\xff" * 12))
    if kind == "zeros":
        return b"\0" * rng.choice((1, 4, 100, 70000))
    raise Exception(kind)


def verdict(body, x):
    """accept, refuse or either"""
    d = ref.zd(body, 8 << 20) if body else None
    if d is not None and b"\x4d\x2a" not in body and d == x and body[:4] == b"\x28\xb5\x2f\xfd":
        return "accept"
    if d is not None and d == x:
        return "either"       # skippable frames
    if d is not None:
        return "refuse"
    # not a sequence of complete frames: may it have yielded all of the data and nothing else?
    y = ref.zpartial(body)
    if y is not None and y == x:
        return "either"
    return "refuse"


def case(c, key):
    kind = key.split("/")[0].split(".")[0]
    rng = c.rng
    if kind == "many":
        return many(c, rng)
    n = rng.choice((1, 2, 47, 100, 500, 1000, 4096, 10000))
    if kind == "big":
        n = rng.choice((65536, 131072, 131073, 262143, 262144, 200000))
    x = gen.content(rng, n) if rng.random() < .7 else rng.randbytes(n)
    enc = rng.randbytes(32) if rng.random() < .3 else None
    y = rng.randbytes(200)
    want = x
    cid = ref.sha(x)
    if kind == "id":
        # the right stream for another id that agrees in part
        body = ref.zc(x)
        cid = gen.near(rng, cid)
        v = "refuse"
    else:
        body = make(rng, kind, x)
        v = verdict(body, x)
    c.count("must_" + v if v != "either" else "either")
    wire = ref.xchacha(enc, cid, body) if enc else body
    outcomes = {}
    segs = [[], ["csegs 1"], ["csegs %d,100000" % rng.randrange(1, 20)], ["csegs %d" % rng.choice((2, 3, 4, 5, 7, 16, 100, 1000, 4096, 16384))],
            ["csegmax %d" % rng.choice((2, 5, 50, 3000)), "seed %d" % rng.randrange(1 << 30)]]
    if len(wire) > 1:
        # around the ends of the frames and of the body
        fl = ref.zframes(body) or [len(body)]
        e = fl[0] if len(fl) > 1 else len(body) - 1
        segs.append(["csegs %d,1,100000" % max(1, e + rng.choice((-3, -2, -1, 0, 1, 2, 3)))])
    if len(wire) > 20000:
        segs[1] = ["csegs 63"]
    k = 4 if kind not in ("frames", "emptyframe", "magic") else 6
    pick = [segs[0]] + rng.sample(segs[1:], min(k - 1, len(segs) - 1))
    for sg in pick:
        mode = rng.choice(("cl", "chunked", "close"))
        r0 = Resp(200, wire, mode=mode)
        a = Http({cid: r0, ref.sha(y): ok(y, enc)}, key=enc)
        chunks = {ref.sha(y): y}
        ents = [(len(x), cid), (len(x) + len(y), ref.sha(y))]
        a.redir = any_redir(rng)
        b = Http()
        if kind != "id":
            b.table[cid] = ok(x)
            chunks[cid] = x
        scn = Scn(ents, (64, 256, 1024), b"", [a, b], chunks=chunks)
        _, p = setup(c, scn)
        c.write("target", b"")
        r = csn(c, scn, p, plan=sg or ["csegmax 0"])
        after = c.read("target")
        check_exact(c, scn, r, after)
        fellback = len(b.log) > 0
        yreq = sum(1 for q in a.log if ref.sha(y).hex() in q[1] and "/hop" not in q[1])
        c.count("redirected", bool(a.redir))
        note = "body %s (%d bytes, %s%s), segments %r, %s, redirect %s" % (kind, len(wire), v, ", encrypted" if enc else "", sg, mode, a.redir and a.redir[:3])
        if kind == "id":
            if r.rc == 0:
                c.fail("wrong chunk", "a body for a similar id was accepted; " + note)
            if not fellback:
                c.fail("wrong chunk", "next store was not asked; " + note)
            continue
        if r.rc != 0 and not c.problems:
            c.fail("store lost", "exit %d although every chunk is available; %s\n%s" % (r.rc, note, r.tail()))
        if v == "accept" and fellback:
            c.fail("refused", "complete stream was not accepted; " + note)
        if v == "refuse" and not fellback:
            c.fail("accepted", "bad body was taken without asking the next store; " + note)
        if yreq != 1 and not c.problems:
            c.fail("store lost", "the following chunk was requested %d times from the store; %s" % (yreq, note))
        outcomes[fellback] = note
        c.sig(kind, v, len(wire), sg, mode, bool(enc))
    if len(outcomes) == 2 and ref.zfussy(body):
        c.count("library_undecided")
    elif len(outcomes) == 2 and not c.problems:
        c.fail("depends on segmentation", "same body taken (%s) and not taken (%s)" % (outcomes[False], outcomes[True]))
    c.sample("%s: %d bytes for a chunk of %d, %s, %d segmentations" % (kind, len(wire), len(x), v, len(pick)))


def many(c, rng):
    """long rows of bad bodies do not disable the store; every body decodes from a clean state"""
    n = rng.choice((12, 15, 25, 40))
    xs = list(dict.fromkeys(rng.randbytes(rng.choice((20, 100, 3000))) for _ in range(n)))
    enc = rng.randbytes(32) if rng.random() < .3 else None
    a, b = Http(key=enc), Http()
    want = []
    pg = rng.choice((0, .1, .5))
    for i, x in enumerate(xs):
        k = rng.choice(("flip", "trunc", "garbage", "empty", "short", "text", "other", "longer", "shorter", "oversize", "magic", "zeros"))
        if i == len(xs) - 1 or rng.random() < pg:
            k = rng.choice(("plain", "frames", "emptyframe"))
        cid = ref.sha(x)
        body = make(rng, k, x)
        v = verdict(body, x)
        c.count("must_" + v if v != "either" else "either")
        wire = ref.xchacha(enc, cid, body) if enc else body
        a.table[cid] = Resp(200, wire, mode=rng.choice(("cl", "chunked", "close")))
        if v != "accept":
            b.table[cid] = ok(x)
        want.append((cid, v, k))
    scn = Scn(ref.entries_of(xs), (64, 256, 1024), b"", [a, b], chunks={ref.sha(x): x for x in xs})
    _, p = setup(c, scn)
    r = csn(c, scn, p, plan=rng.choice((["csegmax 0"], ["csegmax %d" % rng.choice((1, 3, 50))])))
    check_exact(c, scn, r, c.read("target"))
    asked = {bytes.fromhex(PATH_RE.match(q[1]).group(2)) for q in b.log}
    first = {bytes.fromhex(PATH_RE.match(q[1]).group(2)) for q in a.log}
    for i, (cid, v, k) in enumerate(want):
        if cid not in first and not c.problems:
            c.fail("store lost", "chunk %d of %d was not asked for in the first store (%s)" % (i, len(want), [k for _, _, k in want[:i + 1]]))
        if v == "accept" and cid in asked:
            c.fail("refused", "complete stream (%s) was not accepted after %s" % (k, [k for _, _, k in want[:i]]))
        if v == "refuse" and cid not in asked:
            c.fail("accepted", "bad body (%s) was taken after %s" % (k, [k for _, _, k in want[:i]]))
    if r.rc != 0 and not c.problems:
        c.fail("store lost", "exit %d although every chunk is available\n%s" % (r.rc, r.tail()))
    c.sig("many", tuple(k for _, _, k in want))
