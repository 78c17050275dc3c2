"""Short and interrupted I/O is invisible; hard I/O errors are never swallowed."""
import os
from .. import ref, gen
from ..model import *
from . import c01
from .c11 import snap

LEVEL = "fault_enumeration"
RULE = ("each case runs a generated scenario undisturbed, records every read and write of the index, target, stores, side-loaded indices, key file and the files of "
        "patchdd and csn-tool, and repeats it (a) with short and interrupted transfers on one or all of these, where status, target and requests must be the same, and "
        "(b) with a hard error or premature end at single recorded operations (all of them in the thorough tier, up to 6 per role in the quick one), once or from there "
        "on. Distinct by kind, role, operation number and error")
ASSUMPTIONS = ["errors while a local store is opened or first scanned may end the run", "errors are injected at the libc boundary; reads served from a stdio buffer appear as the underlying read",
               "errors of close and of delayed write-back are not injected for the target"]
REQUIRE = {"runs": 600, "short_or_eintr": 3000, "faults": 300}
KINDS = ["short", "short1", "twrite", "index", "iopen", "local", "localside", "target", "tstore", "shortp", "pfault", "shortk", "kfault", "keyfile", "combined"]
ERR = {"r": (5, 5, 5, 0, 0, 9, 61, 116, 6, 14, 22, 74, 84, 117, 121), "w": (28, 28, 5, 5, 27, 122, 30, 6, 19, 116, 117, 1)}
# errors that may well be gone at the next try; whoever tries again has to stop some time
SOFT = (11, 12, 16, 62, 105, 110)


def error(rng, op, sticky):
    return rng.choice(ERR[op] + SOFT if sticky else ERR[op])


def cases(tier):
    n = 100 if tier == "quick" else 500
    return ["%s/%d" % (k, i) for i in range(n) for k in KINDS]


def pick(c, ns, k=6):
    """some of the operation numbers: always the first and last"""
    ns = list(ns)
    if c.tier == "thorough" or len(ns) <= k:
        return ns[:200]
    return sorted(set([ns[0], ns[-1]] + c.rng.sample(ns, k - 2)))


def again(c, scn, p, plan, tool="csn"):
    """a run from the initial state; status, target, requests"""
    c.write("target", scn.target)
    for s in scn.stores:
        if isinstance(s, Http):
            s.n = {}
            s.log.clear()
    r = csn(c, scn, p, plan=plan, tool=tool)
    c.count("short_or_eintr", len(r.ev("H")) + len(r.ev("E")))
    return r, c.read("target"), [[(m, u) for m, u, _ in s.log] for s in scn.stores if isinstance(s, Http)]


def scenario(rng, kind):
    if kind in ("short", "short1", "combined"):
        scn, desc = c01.mix(rng)
        return scn
    prm = gen.params(rng, .1)
    chunks = gen.image(rng, prm, rng.choice((2, 4, 8)))
    order = gen.repeat(rng, chunks)
    scn = Scn(ref.entries_of(order), prm, gen.target_for(rng, order), chunks={ref.sha(x): x for x in chunks})
    return scn


def compare(c, a, b, what):
    (ra, ta, qa), (rb, tb, qb) = a, b
    if rb.crash:
        return
    if (ra.rc == 0) != (rb.rc == 0):
        c.fail("status differs", "%s: exit %d, undisturbed %d\n%s" % (what, rb.rc, ra.rc, rb.tail()))
    elif ta != tb:
        c.fail("target differs", "%s: target differs from that of the undisturbed run (exit %d)" % (what, rb.rc))
    elif qa != qb:
        c.fail("requests differ", "%s: %s requests, undisturbed %s" % (what, [len(x) for x in qb], [len(x) for x in qa]))


def perturb(rng, names):
    out = []
    for n in names:
        for op in "rw":
            w = rng.random()
            if w < .7:
                out.append("short %s %s %d" % (n, op, rng.choice((100, 500, 1000))))
            if w > .4:
                out.append("eintr %s %s %d" % (n, op, rng.choice((50, 300, 700))))
    return out


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    if kind in ("shortp", "pfault"):
        return patchdd(c, rng, kind)
    if kind in ("shortk", "kfault"):
        return ctool(c, rng, kind)
    if kind == "keyfile":
        return keyfile(c, rng)
    scn = scenario(rng, kind)
    known = list(scn.chunks.values())
    img = b"".join(scn.chunks[i] for _, _, i in scn.spans()) if all(i in scn.chunks for _, _, i in scn.spans()) else b""
    if kind == "local":
        scn.stores = [Local(b"".join(known)), gen.http_all(known)]
    elif kind == "localside":
        scn.stores = [Local(b"".join(known), ref.caibx(ref.entries_of(known), scn.params)), gen.http_all(known)]
    elif kind == "tstore":
        scn.stores = [Target(), gen.http_all(known)]
    elif kind == "target":
        scn.target = img[:rng.randrange(len(img) + 1)] if rng.random() < .5 else img
        scn.stores = [gen.http_all(known)]
    elif kind not in ("short", "short1", "combined"):
        scn.stores = [rng.choice((gen.http_all(known), Local(img), Local(img, scn.index())))]
        if rng.random() < .3:
            scn.stores.insert(0, Target())
    _, p = setup(c, scn)
    rl = roles(p)
    names = [x.split()[1] for x in rl]
    base = again(c, scn, p, rl)
    r0, t0, q0 = base
    if r0.crash:
        return
    seed = ["seed %d" % rng.randrange(1 << 30)]

    def reads(role, positive=True):
        out, n = [], 0
        for e in r0.ev("R", role):
            n += 1
            if not positive or int(e[4]) > 0:
                out.append(n)
        return out

    if kind in ("short", "short1"):
        for i in range(3):
            who = names if kind == "short" else [rng.choice(names)]
            pl = perturb(rng, who)
            b = again(c, scn, p, rl + seed + pl + ["seed %d" % rng.randrange(1 << 30)])
            compare(c, base, b, "short or interrupted transfers on %s" % " ".join(who))
            c.sig(kind, tuple(pl), r0.rc, len(scn.entries))
        c.sample("%s: %d entries, %d stores, exit %d, target and requests equal under %s" % (kind, len(scn.entries), len(scn.stores), r0.rc, pl[:4]))
    elif kind == "combined":
        # an error behind short transfers
        nw = len(r0.ev("W", "T"))
        if not nw or r0.rc:
            return
        for _ in range(3):
            n = rng.randrange(1, 3 * nw + 1)
            sticky = rng.randrange(2)
            e = error(rng, "w", sticky)
            b = again(c, scn, p, rl + seed + ["short T w 1000", "eintr T w 100", "fail T w %d %d %d" % (n, e, sticky)])
            hit = b[0].ev("F", "T")
            if hit:
                c.count("faults")
                if b[0].rc == 0:
                    c.fail("write error ignored", "exit 0 although write %d of the target failed with errno %d" % (n, e))
            check_bytes(c, scn, scn.target, b[1])
            check_exact(c, scn, b[0], b[1])
            c.sig(kind, n, e, nw)
    elif kind == "twrite":
        for n in pick(c, range(1, len(r0.ev("W", "T")) + 1)):
            sticky = rng.randrange(2)
            e = error(rng, "w", sticky)
            b = again(c, scn, p, rl + ["fail T w %d %d %d" % (n, e, sticky)])
            if b[0].ev("F", "T"):
                c.count("faults")
                if b[0].rc == 0:
                    c.fail("write error ignored", "exit 0 although write %d of the target failed with errno %d" % (n, e))
            check_bytes(c, scn, scn.target, b[1])
            c.sig(kind, n, e, len(scn.entries))
        c.sample("twrite: %d writes, each failed in turn -> non-zero exit" % len(r0.ev("W", "T")))
    elif kind == "index":
        for n in pick(c, reads("I")):
            sticky = rng.randrange(2)
            e = error(rng, "r", sticky)
            b = again(c, scn, p, rl + ["fail I r %d %d %d" % (n, e, 1 if e == 0 else sticky)])
            if b[0].ev("F", "I"):
                c.count("faults")
                if b[0].rc == 0:
                    c.fail("index error ignored", "exit 0 although read %d of the index %s" % (n, "met the end of the file" if e == 0 else "failed with errno %d" % e))
            check_bytes(c, scn, scn.target, b[1])
            c.sig(kind, n, e, len(scn.entries))
        # within an entry or header: an error behind short transfers
        sh = ["short I r 1000", "seed %d" % rng.randrange(1 << 30)]
        b = again(c, scn, p, rl + sh)
        pos = [i + 1 for i, e in enumerate(b[0].ev("R", "I")) if int(e[4]) > 0]
        for n in pick(c, pos, 4):
            e = rng.choice((0, 0, 5))
            b = again(c, scn, p, rl + sh + ["fail I r %d %d 1" % (n, e)])
            if b[0].ev("F", "I"):
                c.count("faults")
                if b[0].rc == 0:
                    c.fail("index error ignored", "exit 0 although read %d of the index, behind short ones, %s" % (n, "met the end of the file" if e == 0 else "failed with errno %d" % e))
            check_bytes(c, scn, scn.target, b[1])
            c.sig(kind, "short", n, e, len(scn.entries))
    elif kind == "iopen":
        for who in ("I", "T"):
            e = rng.choice((2, 13, 24, 30, 5))
            b = again(c, scn, p, rl + ["openfail %s 1 %d" % (who, e)])
            if b[0].ev("F", who):
                c.count("faults")
                if b[0].rc == 0:
                    c.fail("open error ignored", "exit 0 although opening %s failed with errno %d" % (who, e))
                if b[1] != scn.target:
                    c.fail("target modified", "target changed although opening %s failed" % who)
            c.sig(kind, who, e)
        for who in names:
            if who in ("I", "T"):
                continue
            b = again(c, scn, p, rl + ["openfail %s 1 %d" % (who, rng.choice((2, 13, 24)))])
            check_exact(c, scn, b[0], b[1])
            if who[0] == "D" and b[0].rc != r0.rc and b[0].ev("F"):
                # the store itself is fine and was made by the chunker in this scenario
                if isinstance(scn.stores[int(who[1:])], Local) and r0.rc == 0 and scn.stores[int(who[1:])].data == img and predict_without_side(scn, int(who[1:])):
                    c.fail("side-loaded index needed", "exit %d because the side-loaded index could not be opened\n%s" % (b[0].rc, b[0].tail()))
            c.sig(kind, who)
    elif kind in ("local", "localside"):
        # reads of the store once the synchronisation has started
        seen_t, n, use, start = False, 0, [], []
        for ev in r0.events:
            if ev[0] == "R" and ev[1] == "T":
                seen_t = True
            if ev[0] == "R" and ev[1] == "L0":
                n += 1
                (use if seen_t or kind == "localside" else start).append(n)
        for n in pick(c, use):
            for sticky in (0, 1):
                e = error(rng, "r", sticky)
                sh = ["short L0 r 1000", "seed %d" % rng.randrange(1 << 30)] if rng.random() < .3 else []
                b = again(c, scn, p, rl + sh + ["fail L0 r %d %d %d" % (n * 2 if sh else n, e, sticky)])
                if b[0].ev("F", "L0"):
                    c.count("faults")
                    began = next((i for i, v in enumerate(b[0].events) if v[0] == "R" and v[1] == "T"), None)
                    if sh and kind == "local" and (began is None or began > next(i for i, v in enumerate(b[0].events) if v[0] == "F")):
                        # many short reads: still chunking the store at the start, which may fail
                        pass
                    elif b[0].rc != 0 and not b[0].crash:
                        c.fail("store error fatal", "exit %d after read %d of the local store %s (%s), although the HTTP store has every chunk\n%s" %
                               (b[0].rc, n, "failed with errno %d" % e if e else "met the end of the file", "from there on" if sticky else "once", b[0].tail()))
                    elif b[0].rc == 0 and b[1] != t0:
                        c.fail("wrong image", "target differs from the undisturbed run after a failed read of the store")
                c.sig(kind, n, e, sticky)
        for n in pick(c, start, 3):
            b = again(c, scn, p, rl + ["fail L0 r %d %d %d" % (n, *rng.choice(((error(rng, "r", 1), 1), (error(rng, "r", 0), 0))))])
            c.count("faults")
            check_exact(c, scn, b[0], b[1])
            check_bytes(c, scn, scn.target, b[1])
            c.sig(kind, "start", n)
        if kind == "localside":
            for n in pick(c, range(1, len(r0.ev("R", "D0")) + 1), 4):
                b = again(c, scn, p, rl + ["fail D0 r %d %d 1" % (n, error(rng, "r", 1))])
                c.count("faults")
                if b[0].rc != 0 and not b[0].crash:
                    c.fail("side-loaded index needed", "exit %d after read %d of the side-loaded index failed\n%s" % (b[0].rc, n, b[0].tail()))
                check_exact(c, scn, b[0], b[1])
                c.sig(kind, "D", n)
    elif kind in ("target", "tstore"):
        for n in pick(c, range(1, len(r0.ev("R", "T")) + 1)):
            for sticky in (0, 1):
                e = error(rng, "r", sticky)
                sh = ["short T r 1000", "seed %d" % rng.randrange(1 << 30)] if rng.random() < .3 else []
                b = again(c, scn, p, rl + sh + ["fail T r %d %d %d" % (n * 2 if sh else n, e, sticky)])
                c.count("faults")
                if b[0].rc != 0 and not b[0].crash:
                    c.fail("target read error fatal", "exit %d after read %d of the target %s, although the HTTP store has every chunk\n%s" %
                           (b[0].rc, n, "failed with errno %d" % e if e else "met the end of the file", b[0].tail()))
                elif b[0].rc == 0 and b[1] != t0:
                    c.fail("wrong image", "target differs from the undisturbed run after a failed read of the target")
                c.sig(kind, n, e, sticky)


def predict_without_side(scn, i):
    s = scn.stores[i]
    keep, s.side = s.side, None
    pr = predict(scn)
    s.side = keep
    return pr.ok is True


def keyfile(c, rng):
    prm = gen.params(rng, 0)
    chunks = gen.free_chunks(rng, 2)
    k = rng.randbytes(32)
    scn = Scn(ref.entries_of(chunks), prm, b"", chunks={ref.sha(x): x for x in chunks})
    h = gen.http_all(chunks, k)
    kf = c.write("keyfile", k.hex().encode() + rng.choice((b"", b"\n", b"\r\n")))
    h.keyspec = "file:" + kf
    scn.stores = [h]
    _, p = setup(c, scn)
    rl = roles(p) + ["role K " + kf]
    base = again(c, scn, p, rl)
    if base[0].rc != 0:
        c.fail("status differs", "exit %d with a key file\n%s" % (base[0].rc, base[0].tail()))
        return
    for _ in range(2):
        b = again(c, scn, p, rl + ["seed %d" % rng.randrange(1 << 30), "short K r %d" % rng.choice((500, 1000)), "eintr K r %d" % rng.choice((0, 400))])
        compare(c, base, b, "short or interrupted reads of the key file")
    n = len([e for e in base[0].ev("R", "K") if int(e[4]) > 0])
    for i in range(1, n + 1):
        b = again(c, scn, p, rl + ["fail K r %d %d 1" % (i, rng.choice((5, 0)))])
        if b[0].ev("F", "K"):
            c.count("faults")
            if b[0].rc == 0:
                c.fail("key error ignored", "exit 0 although reading the key file failed")
            if any(b[2]):
                c.fail("key error ignored", "requests were made although reading the key file failed")
    c.sig("keyfile", n, len(chunks))


def patchdd(c, rng, kind):
    M = 1 << 20
    n = rng.choice((1, 4096, 70001, M - 1, M, M + 1, 2 * M + 5, rng.randrange(1, 3 * M)))
    src = rng.randbytes(n)
    t = bytearray(src if rng.random() < .4 else rng.randbytes(n))
    for _ in range(rng.choice((1, 1, 3))):
        t[rng.randrange(n)] ^= 1 << rng.randrange(8)
    dst = bytes(t) + rng.randbytes(rng.choice((0, 0, 1, 5000)))
    s, d = c.write("S", src), c.write("T", dst)
    rl = ["role S " + s, "role T " + d]
    want = src + dst[n:]

    def go(plan):
        c.write("T", dst)
        r = c.run("patchdd", [s, d], plan=rl + plan)
        c.count("short_or_eintr", len(r.ev("H")) + len(r.ev("E")))
        return r, c.read("T")
    r0, t0 = go([])
    if r0.rc != 0 or t0 != want:
        c.fail("status differs", "patchdd: exit %d, undisturbed, destination %s\n%s" % (r0.rc, "right" if t0 == want else "wrong", r0.tail()))
        return
    if kind == "shortp":
        for _ in range(3):
            pl = ["seed %d" % rng.randrange(1 << 30)] + perturb(rng, rng.choice((["S", "T"], ["S"], ["T"])))
            r, t = go(pl)
            if not r.crash and (r.rc != 0 or t != want):
                c.fail("status differs", "patchdd: exit %d, destination %s, with %s\n%s" % (r.rc, "right" if t == want else "wrong", pl, r.tail()))
            c.sig(kind, n, tuple(pl))
        return
    for role, op in (("S", "r"), ("T", "r"), ("T", "w")):
        evs = r0.ev("R" if op == "r" else "W", role)
        pos = [i + 1 for i, e in enumerate(evs) if int(e[4]) > 0]
        for i in pick(c, pos, 4):
            e = error(rng, op, 1)
            sh = ["short %s %s 1000" % (role, op), "seed %d" % rng.randrange(1 << 30)] if rng.random() < .4 else []
            r, t = go(sh + ["fail %s %s %d %d 1" % (role, op, i + (rng.randrange(4) if sh else 0), e)])
            if not r.ev("F"):
                continue
            c.count("faults")
            if r.rc == 0 and (op == "w" or role == "S" or t != want):
                c.fail("error ignored", "patchdd: exit 0 although %s %d of %s %s" % ("read" if op == "r" else "write", i, role, "failed with errno %d" % e if e else "met the end of the file"))
            if len(t) != len(dst) or any(a != x and a != y for a, x, y in zip(t, dst, want)):
                c.fail("foreign bytes", "patchdd: the destination holds bytes that are neither old nor the source's")
            c.sig(kind, role, op, i, e, n)
    r, t = go(["syncfail T %d %d" % (rng.choice((5, 28)), rng.randrange(2))])
    if r.ev("F"):
        c.count("faults")
        if r.rc == 0:
            c.fail("error ignored", "patchdd: exit 0 although syncing the destination failed")
    c.sample("patchdd: %d bytes, %d reads and %d writes, faults at each kind of operation" % (n, len(r0.ev("R")), len(r0.ev("W"))))


def ctool(c, rng, kind):
    d = c.path("d")
    os.mkdir(d)
    n = rng.choice((1, 2, 64, 4096, 70001, 262144))
    data = rng.randbytes(n)
    cid, k = rng.randbytes(32), rng.randbytes(32)
    f = os.path.join(d, cid.hex() + ".cacnk")
    open(f, "wb").write(data)
    kf = c.write("kf", k.hex().encode() + b"\n")
    o = f + ".enc"
    want = ref.xchacha(k, cid, data)
    rl = ["role N " + f, "role O " + o, "role K " + kf]

    def go(plan):
        if os.path.exists(o):
            os.unlink(o)
        r = c.run("csn-tool", ["crypt", "file:" + kf, f], plan=rl + plan)
        c.count("short_or_eintr", len(r.ev("H")) + len(r.ev("E")))
        return r, snap(d).get(os.path.basename(o))
    r0, o0 = go([])
    if r0.rc != 0 or o0 != want:
        c.fail("status differs", "csn-tool: exit %d undisturbed, output %s" % (r0.rc, "right" if o0 == want else "wrong"))
        return
    if kind == "shortk":
        for _ in range(3):
            pl = ["seed %d" % rng.randrange(1 << 30)] + perturb(rng, ["N", "O", "K"])
            r, t = go(pl)
            if not r.crash and (r.rc != 0 or t != want):
                c.fail("status differs", "csn-tool: exit %d, output %s, with %s\n%s" % (r.rc, "right" if t == want else "wrong", pl, r.tail()))
            c.sig(kind, n, tuple(pl))
        return
    for role, op in (("N", "r"), ("K", "r"), ("O", "w")):
        evs = r0.ev("R" if op == "r" else "W", role)
        pos = [i + 1 for i, e in enumerate(evs) if int(e[4]) > 0]
        for i in pick(c, pos, 3):
            e = error(rng, op, 1)
            r, t = go(["fail %s %s %d %d 1" % (role, op, i, e)])
            if r.ev("F"):
                c.count("faults")
                if r.rc == 0:
                    c.fail("error ignored", "csn-tool: exit 0 although %s %d of %s %s" % ("read" if op == "r" else "write", i, role, "failed with errno %d" % e if e else "met the end of the file"))
            c.sig(kind, role, i, e, n)
