"""At every moment each target byte is the old one or the prescribed one; nothing beyond the image is touched."""
import os
from .. import ref, gen
from ..model import *
from . import c01

LEVEL = "fault_enumeration"
RULE = ("each case is a generated scenario whose target starts as the complement of the image (or other contents that differ everywhere); it is run "
        "undisturbed, then killed at target writes (every one for small cases, with 0, 1, some, all-but-one or all bytes of that write done), at reads, "
        "with failing and short writes, and with a bit of what is read back from the target flipped; after each run the whole target is compared byte by byte. a further kind has targets up to 40 GiB larger than the image. Non-trivial: at least one target byte was written; "
        "distinct by sources, write number, bytes done and exit status")
ASSUMPTIONS = ["a kill is SIGKILL between two system calls or after a partial one; page cache contents survive (no power failure)"]
VARIANTS = ["san", "plain"]
REQUIRE = {"killed": 100, "writes_seen": 500, "roomy": 20, "glitched": 50}


def cases(tier):
    n = 500 if tier == "quick" else 6000
    return ["giga/%d" % i for i in range(1 if tier == "quick" else 6)] + ["%s/%d" % (k, i) for i in range(n) for k in ("kill", "fail", "hostile")] + ["roomy/%d" % i for i in range(n // 5)]


def fresh_target(rng, chunks):
    img = b"".join(chunks)
    w = rng.random()
    t = gen.complement(img)
    if w < .35:
        t += rng.randbytes(rng.choice((0, 1, 100, 9000)))
    elif w < .5:
        t = t[:rng.randrange(len(t) + 1)]
    elif w < .65:
        n = len(b"".join(chunks[:rng.randrange(len(chunks) + 1)]))
        t = img[:n] + t[n:] + rng.randbytes(rng.choice((0, 77)))
    elif w < .75:
        # later chunks are right already
        n = len(b"".join(chunks[:rng.randrange(len(chunks) + 1)]))
        t = t[:n] + img[n:]
    return t


def writes(c, scn, r):
    for e in r.ev("W", "T"):
        off, ln, ret = int(e[2]), int(e[3]), int(e[4])
        c.count("writes_seen")
        if ln and (off < 0 or off + ln > scn.end):
            c.fail("write outside the image", "write of %d bytes at %d, the image ends at %d" % (ln, off, scn.end))
    for e in r.ev("T", "T"):
        if int(e[2]) < max(len(scn.target), 0):
            c.fail("truncated", "target truncated to %s" % e[2])


def look(c, scn, p, r, before, note):
    after = c.read(p["target"])
    writes(c, scn, r)
    check_bytes(c, scn, before, after)
    check_exact(c, scn, r, after)
    if after != before:
        c.sig(note, r.rc, [type(s).__name__ for s in scn.stores], len(scn.entries))
    c.count("exit0" if r.rc == 0 else "killed" if r.killed else "exit_nonzero")
    return after


def scenario(rng, n=None):
    prm = gen.params(rng, big=.05)
    chunks = gen.repeat(rng, gen.image(rng, prm, n) if rng.random() < .6 else gen.free_chunks(rng, n))
    uniq = list(dict.fromkeys(chunks))
    scn = Scn(ref.entries_of(chunks), prm, fresh_target(rng, chunks), chunks={ref.sha(x): x for x in chunks})
    w = rng.random()
    if w < .35:
        scn.stores = [gen.http_all(uniq)]
    elif w < .6:
        img = b"".join(uniq)
        scn.stores = [Local(img, ref.caibx(ref.entries_of(uniq), prm))]
    elif w < .8:
        img = b"".join(uniq)
        scn.stores = [Local(img), gen.http_all(uniq)]
    else:
        scn.stores = [Target(), gen.http_all(uniq)]
    if rng.random() < .3 and not isinstance(scn.stores[0], Target):
        scn.stores.insert(rng.randrange(2), Target())
    return scn


def data_of(path, start):
    """what is not zero from start on: {offset: bytes}"""
    out = {}
    with open(path, "rb") as f:
        end = f.seek(0, 2)
        pos = start
        while pos < end:
            try:
                pos = max(pos, os.lseek(f.fileno(), pos, os.SEEK_DATA))
            except OSError:
                break
            n = min(os.lseek(f.fileno(), pos, os.SEEK_HOLE), end) - pos
            for o in range(0, n, 4096):
                b = os.pread(f.fileno(), min(4096, n - o), pos + o)
                if b.count(0) != len(b):
                    for i in range(0, len(b), 64):
                        if any(b[i:i + 64]):
                            a = pos + o + i
                            for j, v in enumerate(b[i:i + 64]):
                                if v:
                                    out[a + j] = v
            pos += n
    return out, end


def roomy(c):
    """targets much larger than the image"""
    rng = c.rng
    scn = scenario(rng, rng.choice((0, 1, 2, 5, 9)))
    w = rng.random()
    if w < .3:
        scn.stores = [gen.http_all([])]
    elif w < .5:
        scn.target = scn.expected()
    _, p = setup(c, scn)
    size = max(len(scn.target), scn.end) + rng.choice((1, 511, 512, 4096, 65536, 262144, 1 << 20, (1 << 20) + 1, 1 << 21, 8 << 20, 17 << 20, 33 << 20, 65 << 20, 100 << 20, 300 << 20, 600 << 20, 1 << 30, 2 << 30, 5 << 30, 40 << 30))
    os.truncate(p["target"], size)
    with open(p["target"], "r+b") as f:
        for o in (scn.end, scn.end + rng.randrange(1 + size - scn.end), size - 8, (scn.end + 511) // 512 * 512, (scn.end + 4095) // 4096 * 4096, (scn.end + (1 << 20)) >> 20 << 20):
            if scn.end <= o < size:
                f.seek(o)
                f.write(rng.randbytes(min(rng.choice((1, 8, 700)), size - o)))
    c.age(p["target"])
    with open(p["target"], "rb") as f:
        head = f.read(scn.end)
    before = data_of(p["target"], scn.end)
    plan = roles(p)
    w = rng.random()
    if w < .25:
        plan += ["kill T w %d %d" % (rng.randrange(1, 4), rng.randrange(100))]
    elif w < .4:
        plan += ["fail T w %d 5 1" % rng.randrange(1, 4)]
    r = csn(c, scn, p, plan=plan, tool=rng.choice(("csn", "casync")))
    after = data_of(p["target"], scn.end)
    if before[1] != after[1]:
        c.fail("size changed", "the target had %d bytes, has %d (image of %d, exit %d)" % (before[1], after[1], scn.end, r.rc))
    elif before[0] != after[0]:
        o = min(k for k in set(before[0]) | set(after[0]) if before[0].get(k) != after[0].get(k))
        c.fail("tail changed", "byte %d of a target of %d bytes changed, the image ends at %d (exit %d)" % (o, size, scn.end, r.rc))
    with open(p["target"], "rb") as f:
        now = f.read(scn.end)
    t, scn.target = scn.target, head
    check_bytes(c, scn, head, now)
    check_exact(c, scn, r, now)
    c.count("roomy")
    c.count("exit0" if r.rc == 0 else "killed" if r.killed else "exit_nonzero")
    c.sig("roomy", size - scn.end, r.rc, [type(s).__name__ for s in scn.stores])


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    if kind == "roomy":
        return roomy(c)
    if kind == "giga":
        g = giga(c, rng, rng.choice(((), ("target",))))
        if not g["run"].crash:
            if not g["lead"]:
                c.fail("foreign bytes", "bytes of the first %d, which were right, have changed (exit %d)" % (g["prefix"], g["run"].rc))
            if not g["good"]:
                c.fail("wrong image", "image beyond %d bytes is wrong or incomplete (exit %d)" % (g["prefix"], g["run"].rc))
        return
    if kind == "hostile":
        scn, desc = c01.mix(rng)
        if rng.random() < .5:
            scn.target = gen.complement(b"".join(scn.chunks[i] for _, _, i in scn.spans())) + rng.randbytes(rng.choice((0, 50)))
        _, p = setup(c, scn)
        plan = roles(p)
        if rng.random() < .5:
            plan += ["seed %d" % rng.randrange(1 << 30), "short T w %d" % rng.choice((300, 900)), "eintr T w 200"]
        r = csn(c, scn, p, plan=plan)
        look(c, scn, p, r, scn.target, "hostile " + desc)
        return
    scn = scenario(rng, rng.choice((1, 2, 3, 5, 9)))
    _, p = setup(c, scn)
    base = roles(p)
    shortw = []
    if rng.random() < .4:
        shortw = ["seed %d" % rng.randrange(1 << 30), "short T w 700", "eintr T w 100"]
    r0 = csn(c, scn, p, plan=base + shortw)
    look(c, scn, p, r0, scn.target, kind)
    if r0.rc != 0 and not c.problems:
        # the scenario is one that succeeds; without its writes there is nothing to enumerate
        c.count("undisturbed_failed")
    ws = r0.ev("W", "T")
    nw = len(ws)
    nr = len(r0.ev("R", "T"))
    c.sample("%s: %d entries, %d target writes, stores %s" % (kind, len(scn.entries), nw, [type(s).__name__ for s in scn.stores]))
    pts = list(range(1, nw + 1))
    if len(pts) > 8:
        pts = sorted(rng.sample(pts, 8))
    for k in pts:
        ln = int(ws[k - 1][3])
        if kind == "kill":
            opts = [0, 1, ln // 2, ln - 1, ln]
            bs = rng.sample(opts, 2)
            plans = [["kill T w %d %d" % (k, max(0, b))] for b in bs]
        else:
            plans = [["fail T w %d %d %d" % (k, rng.choice((5, 28, 27)), rng.randrange(2))]]
        for pl in plans:
            c.write("target", scn.target)
            r = csn(c, scn, p, plan=base + shortw + pl)
            look(c, scn, p, r, scn.target, pl[0].split()[0] + str(k))
    if kind == "kill" and nr:
        c.write("target", scn.target)
        k = 1 + rng.randrange(nr)
        r = csn(c, scn, p, plan=base + ["kill T r %d 0" % k])
        look(c, scn, p, r, scn.target, "kill at read")
    # the target's own bytes are read wrongly now and then, and the run is killed at a write that follows
    if kind == "kill" and rng.random() < .5:
        for k in rng.sample(range(1, nr + 2 * nw + 3), min(3, nr + 2 * nw + 2)):
            glitch = ["flip T r %d %d" % (k, rng.randrange(rng.choice((8, 512, 262144))))]
            c.write("target", scn.target)
            r = csn(c, scn, p, plan=base + glitch)
            look(c, scn, p, r, scn.target, "glitch")
            c.count("glitched")
            n = len(r.ev("W", "T"))
            for w in rng.sample(range(1, n + 1), min(n, 5)):
                c.write("target", scn.target)
                r2 = csn(c, scn, p, plan=base + glitch + ["kill T w %d %d" % (w, rng.choice((0, 1 << 20, int(r.ev("W", "T")[w - 1][3]))))])
                look(c, scn, p, r2, scn.target, "glitch, killed")
    # running on after a kill must stay within the same limits relative to the state left behind
    if kind == "kill" and nw > 1:
        c.write("target", scn.target)
        csn(c, scn, p, plan=base + ["kill T w %d 3" % (1 + rng.randrange(nw))])
        mid = c.read("target")
        r = csn(c, scn, p, plan=base)
        writes(c, scn, r)
        check_bytes(c, scn, mid, c.read("target"))
