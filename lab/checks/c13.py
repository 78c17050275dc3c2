"""Invalid index files are refused before the target is modified; valid ones are interpreted exactly."""
import struct, subprocess
from .. import ref, gen
from ..model import *

RULE = ("each case takes a well-formed index (generated, or made by casync) and changes one header, table or footer field to an interesting value, one bit, its "
        "length, entries, or several of these; an independent parser says whether it must be refused untouched, must fail at some entry, or must extract "
        "exactly. Every field is visited with each interesting value; every bit of a small index is flipped and every length tried in the 'bits' and 'len' cases. "
        "Distinct by field, value, verdict and number of entries")
ASSUMPTIONS = ["headers longer than 48 bytes or another table length are 'either way': only 'exit 0 implies the exact image' is required",
               "before entry k fails, the chunks before it may be written"]
VARIANTS = ["san", "plain"]
REQUIRE = {"runs": 500, "must_refuse": 200, "must_accept": 100, "must_fail": 50}
FIELDS = {"hlen": 0, "hmagic": 8, "flags": 16, "min": 24, "avg": 32, "max": 40, "tlen": 48, "tmagic": 56}
FOOT = {"z0": 40, "z1": 32, "ioff": 24, "fsize": 16, "tail": 8}


def cases(tier):
    n = 240 if tier == "quick" else 900
    out = []
    for f in list(FIELDS) + list(FOOT):
        for j in range(14):
            out += ["f.%s.%d/%d" % (f, j, i) for i in range(n // 30 or 1)]
    out += ["%s/%d" % (k, i) for i in range(n) for k in ("trunc", "extend", "flip", "flip", "entry", "entry", "multi", "good", "sizes", "swap", "store")]
    out += ["bits/%d" % i for i in range(0, 8 * (64 + 40 * 2 + 40), 4)]
    out += ["len/%d" % i for i in range(0, 64 + 40 * 3 + 40 + 45)]
    out += ["casync/%d" % i for i in range(n // 2)]
    out += ["empty/%d" % i for i in range(6)] + ["file/%d" % i for i in range(6)] + ["near/%d" % i for i in range(n // 3)]
    return ["vast/%d" % i for i in range(1 if tier == "quick" else 5)] + out


def interesting(rng, v, j):
    M = (1 << 64) - 1
    return [v + 1, v - 1, 0, 1, M, 1 << 63, v ^ (1 << rng.randrange(64)), v ^ (1 << rng.randrange(64)), rng.getrandbits(64), v << 8, v ^ (1 << 61), v + 40, v + (1 << 32),
            int.from_bytes((v & M).to_bytes(8, "little"), "big")][j] & M


def put(b, off, v):
    b = bytearray(b)
    struct.pack_into("<Q", b, off, v & ((1 << 64) - 1))
    return bytes(b)


def get(b, off):
    return struct.unpack_from("<Q", b, off)[0]


def vast(c, rng):
    """a valid index of some millions of entries"""
    n = rng.randrange(1_700_000, 2_700_000)
    x = rng.randbytes(1)
    y = rng.randbytes(3)
    k = n - rng.randrange(1000)
    ents = [(i + 1, ref.sha(x)) for i in range(k)]
    o = k
    for _ in range(n - k):
        o += 3
        ents.append((o, ref.sha(y)))
    b = ref.caibx(ents, (1024, 2048, 4096))
    image = x * k + y * (n - k)
    bad_ = rng.random() < .3
    if bad_:
        j = rng.randrange(n - 5)
        b = put(b, 64 + 40 * j, rng.choice((0, 1 << 63, ents[j][0] + (1 << 33)))) if j else b[:-1]
    q = Scn([], (1024, 2048, 4096), image, chunks={}, raw_index=b)
    q.stores = [gen.http_all([x, y])]
    _, p = setup(c, q)
    t0 = image[:-rng.randrange(1, 2000)] + b"" if not bad_ else image
    c.write("target", t0)
    r = csn(c, q, p, variant="plain", timeout=300)
    after = c.read("target")
    c.count("vast_entries", n)
    note = "%d entries" % n
    if bad_:
        if r.rc == 0:
            c.fail("bad entry accepted", "exit 0; %s" % note)
        return
    if r.crash:
        return
    if r.rc != 0:
        c.fail("valid index refused", "exit %d; %s\n%s" % (r.rc, note, r.tail()))
    elif after != image:
        c.fail("wrong image", note)
    c.sig("vast", n)
    c.sample(note + " -> exit %d" % r.rc)


def case(c, key):
    kind = key.split("/")[0]
    if kind == "vast":
        return vast(c, c.rng)
    num = int(key.split("/")[1])
    rng = c.rng
    prm = gen.params(rng, big=.1)
    small = kind in ("bits", "len")
    rs = rng
    if small:
        import random
        rs = random.Random("%s-%d" % (kind, c.seed))
        prm = (16384, 65536, 262144)
    chunks = gen.free_chunks(rs, 2 if small else rng.choice((1, 2, 3, 6, 12)), sizes=(20, 300) if small else None)
    if kind == "empty":
        chunks = []
    ents = ref.entries_of(chunks)
    good = b = ref.caibx(ents, prm)
    n = len(ents)
    what = kind
    if kind.startswith("f."):
        _, f, j = kind.split(".")
        off = FIELDS[f] if f in FIELDS else len(b) - FOOT[f]
        b = put(b, off, interesting(rng, get(b, off), int(j)))
        what = f
    elif kind == "trunc":
        b = b[:rng.choice((rng.randrange(len(b)), len(b) - 40 * rng.randrange(1, n + 2), 0, 48, 64, 104, len(b) - 1))] if n else b[:-1]
    elif kind == "extend":
        w = rng.randrange(5)
        b = [b + rng.randbytes(rng.randrange(1, 100)), b + bytes(40), b + b[-40:], rng.randbytes(40) + b, b[:64] + bytes(40) + b[64:]][w]
    elif kind == "flip":
        b = gen.mutate(rng, b[:64]) + b[64:] if rng.random() < .5 else b[:-40] + gen.mutate(rng, b[-40:])
    elif kind == "bits":
        i = num
        x = bytearray(b)
        i = (num + rng.randrange(4)) % (8 * len(x))
        x[i // 8] ^= 1 << (i % 8)
        b = bytes(x)
        what = "bit"
    elif kind == "len":
        b = (b + rng.randbytes(64))[:num]
    elif kind == "entry":
        j = rng.randrange(n)
        off = 64 + 40 * j
        prev = ents[j - 1][0] if j else 0
        v = rng.choice((prev, prev - 1, 0, prev + ref.CHUNK_MAX + 1, prev + (1 << 32), prev + (1 << 32) + len(chunks[j]), prev + (1 << 32) - 1, (1 << 64) - 1, 1 << 63, prev + (1 << 31),
                        ents[j][0] + (1 << 32), ents[j][0] + (1 << 63), ents[j][0] - 1, ents[j][0] + 1, prev + (1 << 40)))
        b = put(b, off, v)
    elif kind == "swap":
        if n < 2:
            return
        i = rng.randrange(n - 1)
        x = b[64 + 40 * i:104 + 40 * i]
        y = b[104 + 40 * i:144 + 40 * i]
        b = b[:64 + 40 * i] + rng.choice((y + x, x + x, x[:8] + y[8:] + y[:8] + x[8:])) + b[144 + 40 * i:]
    elif kind == "sizes":
        s = [rng.choice((0, 1, 2, 48, 64, 65, 255, 256, 65536, 65537, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 64) - 1, (1 << 32) + 64)) for _ in range(3)]
        if rng.random() < .5:
            s.sort()
        b = ref.caibx(ents, tuple(s))
    elif kind == "multi":
        for _ in range(rng.randrange(2, 4)):
            f = rng.choice(list(FIELDS))
            b = put(b, FIELDS[f], interesting(rng, get(b, FIELDS[f]), rng.randrange(14)))
    elif kind == "near":
        # sizes of the entry table that do not fit the footer's or the file's
        m = rng.randrange(n + 1)
        b = rng.choice((ref.caibx(ents, prm, fsize=16 + 40 * m), b[:64 + 40 * m] + b[-40:], b[:64 + 40 * m] + rng.randbytes(20) + b[-40:],
                        ref.caibx(ents, prm, hlen=0x30 + 40), ref.caibx(ents, prm, hlen=0x28), ref.caibx(ents, prm, ioff=0), ref.caibx(ents, prm, tlen=len(b) - 48)))
    elif kind == "store":
        pass
    elif kind == "file":
        b = [b"", b"\0" * 200, rng.randbytes(500), b"#!/bin/sh\n" * 20, b[::-1], b * 2][num]
    elif kind == "casync":
        prm = rng.choice(((64, 256, 1024), (16, 64, 256), (16384, 65536, 262144), (1024, 4096, 16384)))
        data = gen.content(rng, rng.choice((0, 1, prm[0], prm[2], rng.randrange(1, 20 * prm[1]), rng.randrange(1, 20 * prm[1]))))
        ip, sp = c.path("c.caibx"), c.write("src", data)
        q = subprocess.run(["casync", "make", "--digest=sha256", "--chunk-size=%d:%d:%d" % prm, "--store=" + c.path("castr"), ip, sp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode:
            raise Exception("casync make failed: %r" % q.stdout)
        good = b = c.read(ip)
        chunks, last = [], 0
        for s, l, cid in ref.parse_caibx(b)[1]:
            chunks.append(data[s:s + l])
        c.count("casync_made")
    # ---- what must happen
    table = {ref.sha(x): x for x in chunks}
    t0 = rng.choice((gen.complement(b"".join(chunks)), rng.randbytes(sum(map(len, chunks)) + 30), b"", rng.randbytes(10)))
    if kind in ("casync", "empty", "good") and rng.random() < .4:
        t0 = gen.target_for(rng, chunks) if chunks else rng.choice((b"", b"keep"))
    try:
        p2, e2, dontcare, badat = ref.parse_caibx(b)
        verdict = "either" if dontcare else "fail" if badat is not None else "parse"
    except ref.BadIndex as e:
        verdict = "refuse"
        e2, p2 = [], prm
    scn = Scn([(s + l, i) for s, l, i in e2], p2, t0, chunks=table, raw_index=b)
    if verdict == "parse":
        # an entry whose chunk is unknown or of other length makes it fail
        verdict = "accept"
        for s, l, i in e2:
            if len(t0[s:s + l]) == l and ref.sha(t0[s:s + l]) == i:
                continue
            if i not in table or len(table[i]) != l:
                verdict = "fail"
    if kind == "store" or rng.random() < .15:
        scn.stores = [Local(b"".join(chunks), good), gen.http_all(chunks)] if prm[1] < 100000 else [gen.http_all(chunks)]
        if verdict != "refuse" and p2 != prm and len(scn.stores) == 2:
            scn.stores = scn.stores[1:]
    else:
        scn.stores = [gen.http_all(chunks)]
    _, p = setup(c, scn)
    r = csn(c, scn, p, plan=roles(p), tool=rng.choice(("csn", "csn", "casync")))
    after = c.read("target")
    note = "%s -> %s, %d entries, index of %d bytes" % (key, verdict, n, len(b))
    c.count("must_" + verdict)
    if verdict == "refuse":
        if r.rc == 0:
            c.fail("invalid index accepted", "exit 0; %s" % note)
        if after != t0 or any(int(e[3]) for e in r.ev("W", "T")) or r.ev("T", "T"):
            c.fail("target modified", "target was modified with an index that has to be refused; %s" % note)
    elif verdict == "fail":
        if r.rc == 0:
            c.fail("bad entry accepted", "exit 0; %s" % note)
        check_bytes(c, scn, t0, after)
    elif verdict == "accept":
        if r.rc != 0 and not c.problems:
            c.fail("valid index refused", "exit %d; %s\n%s" % (r.rc, note, r.tail()))
        check_exact(c, scn, r, after)
        check_bytes(c, scn, t0, after)
        if r.rc == 0 and kind in ("casync", "empty", "good") and after[:scn.end] != b"".join(chunks):
            c.fail("wrong image", note)
    elif verdict == "either" and r.rc == 0:
        # whatever it was taken for, only listed content may have been written
        pass
    c.sig(what, verdict, n, b[:64], len(b))
    c.sample(note + " -> exit %d" % r.rc)
