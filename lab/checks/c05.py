"""Local stores are chunked exactly as casync does it."""
import subprocess
from .. import ref, gen
from ..model import *
from . import c21

RULE = ("each case generates content and chunk sizes, computes the chunk list with an independent implementation of casync's chunker (and, for some "
        "cases, with casync itself), and extracts the image from a store with the same bytes and no other source, once undisturbed and once with "
        "short and interrupted reads, and in the company of other stores chunked in the same run; exit 0 and the exact image are required. Distinct by sizes, content length and number of chunks; non-trivial if there is at least one chunk")
ASSUMPTIONS = ["the reference chunker, compared with /usr/bin/casync in the same check", "chunks above 256 KiB cannot be extracted and are left out"]
REQUIRE = {"runs": 100, "chunks": 2000, "in_company": 50}
VARIANTS = ["san", "plain"]


def cases(tier):
    n = 900 if tier == "quick" else 5000
    out = ["huge/%d" % i for i in range(1 if tier == "quick" else 3)] + ["many/%d" % i for i in range(2 if tier == "quick" else 20)]
    for i in range(n):
        out += ["small/%d" % i, "rand/%d" % i, "edge/%d" % i]
        if i % 3 == 0:
            out += ["big/%d" % i, "bufsiz/%d" % i, "modulus/%d" % i]
        if i % 10 == 0:
            out.append("casync/%d" % i)
    out.append("discriminator/0")
    return out


def edge_params(rng):
    w = rng.randrange(8)
    if w == 0:
        return rng.choice(((1, 2, 3), (1, 2, 47), (0, 2, 48), (46, 47, 48), (47, 48, 49), (48, 49, 50), (49, 50, 51), (1, 3, 100), (0, 5, 1000)))
    if w == 1:
        a = rng.randrange(2, 60)
        return rng.randrange(0, a), a, a + rng.randrange(1, 100)
    if w == 2:
        return 48, 49, 4096
    if w == 3:
        a = rng.randrange(2, 2000)
        return a - 1, a, a + 1
    if w == 4:
        return rng.randrange(0, 65536), 65536, rng.choice((65537, 100000, 262144))
    if w == 5:
        a = rng.choice((65535, 65537, 32768, 131072, 200000, 262143))
        return rng.randrange(a), a, 262144
    if w == 6:
        return rng.choice(((64, 1 << 20, 5000), (64, 100, 200)))if False else (64, 4000, 4001)
    return rng.randrange(8000, 8400), 8500, rng.randrange(8501, 30000)


def lengths(rng, prm):
    mn, avg, mx = prm
    base = rng.choice((0, 1, 47, 48, 49, mn, avg, mx, 2 * mx, 8192, 16384, 24576, 65536, 20000, 3 * mx + mn))
    return max(0, min(base + rng.choice((-49, -48, -47, -2, -1, 0, 0, 1, 2, 47, 48, 49, rng.randrange(3000))), 400_000))


def many(c, rng):
    """more chunks than fit in 16 bits"""
    prm = rng.choice(((1, 2, 48), (1, 2, 49), (16, 64, 65)))
    size = rng.choice((3_300_000, 4_500_000, 6_600_000))
    data = rng.randbytes(size)
    chunks = ref.cdc_chunks(data, prm)
    # those of the image: all, or some from everywhere
    want = chunks if rng.random() < .5 else [chunks[i] for i in sorted(rng.sample(range(len(chunks)), 200))] + chunks[-20:] + chunks[65530:65545]
    scn = Scn(ref.entries_of(want), prm, b"", [Local(data)], chunks={ref.sha(x): x for x in want})
    _, p = setup(c, scn)
    r = csn(c, scn, p, variant="plain", env={"LOGLEVEL": "warn"}, timeout=150)
    if r.rc != 0:
        if not c.problems:
            c.fail("not extractable", "store of %d bytes, sizes %r, %d chunks: exit %d\n%s" % (size, prm, len(chunks), r.rc, r.tail()))
    elif c.read("target") != b"".join(want):
        c.fail("wrong image", "target differs from the store it was extracted from")
    c.count("chunks", len(chunks))
    c.sig("many", prm, size, len(want))


def company(c, rng, prm, data, chunks):
    """several stores are chunked in one run, at the start or later on because of a wrong index; the image takes chunks from all of them"""
    lists, locs = [(data, chunks)], []
    for _ in range(rng.randrange(1, 4)):
        k = rng.randrange(6)
        x = (b"", data[rng.randrange(len(data) + 1):], data[:rng.randrange(len(data) + 1)], rng.randbytes(rng.randrange(1, 100)), gen.content(rng, lengths(rng, prm)),
             data[::-1])[k]
        y = ref.cdc_chunks(x, prm)
        if not any(len(z) > ref.CHUNK_MAX for z in y):
            lists.append((x, y))
    rng.shuffle(lists)
    want = []
    for x, y in lists:
        # with an index that is off by one byte the store is chunked when it is asked first
        if y and rng.random() < .3:
            locs.append(Local(x, ref.caibx([(e + 1, q) for e, q in ref.entries_of(y)], prm)))
        else:
            locs.append(Local(x))
        want += rng.sample(y, min(len(y), 60))
    rng.shuffle(want)
    if not want:
        return
    scn = Scn(ref.entries_of(want), prm, b"", locs, chunks={ref.sha(z): z for z in want})
    _, p = setup(c, scn)
    r = csn(c, scn, p, plan=roles(p) + ["seed %d" % rng.randrange(1 << 30)] + ["short L%d r %d" % (i, rng.choice((200, 1000))) for i in range(len(locs)) if rng.random() < .3])
    if r.rc != 0:
        if not c.problems:
            c.fail("not extractable", "%d stores %r, sizes %r, %d chunks: exit %d\n%s" % (len(locs), [(len(l.data), l.side is not None) for l in locs], prm, len(want), r.rc, r.tail()))
    elif c.read("target") != b"".join(want):
        c.fail("wrong image", "target differs from the chunks of the %d stores it was extracted from" % len(locs))
    c.count("in_company")
    c.sig("company", prm, len(locs), len(want), tuple(l.side is not None for l in locs))


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    tool_index = None
    if kind == "discriminator":
        # the constant documented for the default size
        if ref.discriminator(65536) != 0xc17f:
            raise Exception("reference is off")
        return
    if kind == "many":
        return many(c, rng)
    if kind == "huge":
        c21.hugescan(c, rng, False)
        c.count("beyond_4g")
        return
    if kind == "small":
        prm = rng.choice(gen.SMALL)
        data = gen.content(rng, rng.randrange(0, 60000))
    elif kind == "rand":
        prm = gen.params(rng, 0)
        data = rng.randbytes(lengths(rng, prm)) if rng.random() < .5 else gen.content(rng, lengths(rng, prm))
    elif kind == "edge":
        prm = edge_params(rng)
        data = gen.content(rng, lengths(rng, prm))
    elif kind == "big":
        prm = rng.choice(gen.BIG + [(16384, 65536, 262144)] * 3)
        data = gen.content(rng, rng.randrange(1, 1_500_000))
        if rng.random() < .3:
            data = bytes([rng.choice((0, 0, 0x41))]) * rng.randrange(300_000) + data[:600_000]
    elif kind == "modulus":
        # average sizes for which the modulus is as good as an integer before it is cut off
        def frac(a):
            q = a / (-1.42888852e-7 * a + 1.33237515)
            return abs(q - round(q))
        avg = min((rng.randrange(2, 180_000) if rng.random() < .5 else rng.randrange(2, 40_000) for _ in range(4000)), key=frac)
        prm = rng.randrange(0, max(1, avg // 4)), avg, min(262144, 4 * avg)
        data = rng.randbytes(min(1_000_000, 12 * avg))
    elif kind == "bufsiz":
        # break points at and around multiples of the read size
        prm = (64, 256, 9000)
        out = bytearray()
        while len(out) < 40000:
            nxt = (len(out) // 8192 + 1) * 8192 + rng.randrange(-3, 4)
            pad = rng.randbytes(max(0, nxt - len(out)))
            out += pad
        data = bytes(out[:rng.choice((8192, 8191, 8193, 16384, 16385, 24576, 40000, rng.randrange(1, 40000))) + 0])
        prm = rng.choice((prm, (16, 64, 256), (8000, 8100, 8192), (8000, 8191, 8193), (4096, 8000, 16384), (100, 8192, 8240)))
    else:
        prm = rng.choice(((64, 256, 1024), (16, 64, 256), (16384, 65536, 262144), (1024, 4096, 16384), (2000, 8000, 30000)))
        data = gen.content(rng, rng.randrange(1, 30 * prm[1]))
    chunks = ref.cdc_chunks(data, prm)
    if any(len(x) > ref.CHUNK_MAX for x in chunks):
        return
    scn = Scn(ref.entries_of(chunks), prm, b"", [Local(data)], chunks={ref.sha(x): x for x in chunks})
    if kind == "casync":
        ip = c.path("c.caibx")
        sp = c.write("src", data)
        q = subprocess.run(["casync", "make", "--digest=sha256", "--chunk-size=%d:%d:%d" % prm, "--store=" + c.path("castr"), ip, sp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode:
            raise Exception("casync make failed: %r" % q.stdout)
        scn.raw_index = c.read(ip)
        p2, ents, _, _ = ref.parse_caibx(scn.raw_index)
        if ents != list(scn.spans()) or p2 != prm:
            raise Exception("reference chunker disagrees with casync for %r, %d bytes" % (prm, len(data)))
        c.count("casync_agreed")
    _, p = setup(c, scn)
    plans = [None]
    plans.append(["seed %d" % rng.randrange(1 << 30), "short L0 r %d" % rng.choice((200, 900, 1000)), "eintr L0 r %d" % rng.choice((0, 100, 300))])
    for plan in plans:
        c.write("target", b"")
        r = csn(c, scn, p, plan=roles(p) + plan if plan else None)
        after = c.read("target")
        if r.rc != 0:
            if not c.problems:
                c.fail("not extractable", "store with the same bytes (%d, sizes %r, %d chunks, plan %r): exit %d\n%s" %
                       (len(data), prm, len(chunks), plan, r.rc, r.tail()))
        elif after != data:
            c.fail("wrong image", "target differs from the store it was extracted from")
        if plan:
            c.count("short_reads", len(r.ev("H")))
            c.count("interrupts", len(r.ev("E")))
    if kind != "casync" and rng.random() < .5:
        company(c, rng, prm, data, chunks)
    c.count("chunks", len(chunks))
    if chunks:
        c.sig(prm, len(data), len(chunks))
    c.sample("%s: sizes %r, %d bytes, %d chunks" % (kind, prm, len(data), len(chunks)))
