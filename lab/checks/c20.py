"""Memory and descriptors stay bounded whatever the image or server sends."""
import os, struct
from .. import ref, gen
from ..model import *

RULE = ("each case runs the same kind of extraction at a small and at a large scale (number of chunks from HTTP, local, side-loaded and target stores and the prefix; chunk "
        "size; size and kind of response bodies, damaged ones among them; retries, misses and errors; rescans) on a build without sanitizers, takes the peak resident memory the kernel recorded for "
        "each run and the number of open descriptors at every transfer and target write, and compares the growth with 200 bytes per additional table entry plus a fixed "
        "allowance. Distinct by kind, scale and exit status")
ASSUMPTIONS = ["peak resident memory (VmHWM) stands for memory use; allocations never touched are not counted", "the allowance is 3 MB, about ten times the noise observed",
               "a response without end is cut off by the server after some hundred megabytes"]
REQUIRE = {"runs": 60, "peaks": 60, "fd_samples": 10000}
VARIANTS = ["plain"]
PROCS = 8
SLACK = 3000        # kB
KINDS = ["http", "httpclose", "local", "side", "prefix", "tstore", "chunksize", "storesize", "miss", "retry", "rescan", "rescan2", "encrypted", "bad", "badenc", "mixed", "repeat"]
BODIES = ["garbage", "notfound", "error", "trail", "bomb", "skip", "frames", "enc", "enctrail", "encgarbage", "zeros", "window", "chunkedtrail", "okbig", "redirect", "longheader",
          "blank", "space", "ff", "magic", "text", "halfmagic"]


def cases(tier):
    n = 2 if tier == "quick" else 12
    return ["%s/%d" % (k, i) for i in range(n) for k in KINDS] + ["body.%s/%d" % (k, i) for i in range(n) for k in BODIES]


def peak(c, scn, plan=(), tool="csn", want=None, env=None):
    _, p = setup(c, scn)
    r = csn(c, scn, p, plan=["role T " + p["target"], "fdcount"] + list(plan), variant="plain", env=dict({"LOGLEVEL": "err"}, **(env or {})), timeout=200, tool=tool)
    if r.crash:
        return None, r
    m = r.ev("M")
    if not m:
        raise Exception("no peak recorded")
    c.count("peaks")
    c.stats["max_peak_kB"] = max(c.stats.get("max_peak_kB", 0), int(m[0][1]))
    d = [int(e[1]) for e in r.ev("D")]
    c.count("fd_samples", len(d))
    if len(d) >= 20:
        k = len(d) // 10
        if max(d) > max(d[:k] or [0]) + 8 and max(d) > d[0] + 8:
            c.fail("descriptors grow", "open descriptors grow from %d to %d over %d transfers and writes" % (d[0], max(d), len(d)))
    if want is not None and r.rc != want:
        if c.problems:
            return None, r
        raise Exception("exit %d, expected %d: %s" % (r.rc, want, r.tail()))
    return int(m[0][1]), r


def grow(c, key, small, big, entries, what):
    if small is None or big is None:
        return
    d = big - small
    c.stats["max_growth_kB"] = max(c.stats.get("max_growth_kB", 0), d)
    lim = SLACK + 200 * entries // 1000
    c.sample("%s: peak %d kB, at small scale %d kB (allowed growth %d kB)" % (what, big, small, lim))
    if d > lim:
        c.fail("memory grows", "%s: peak memory %d kB instead of %d kB at small scale, allowed are %d kB more" % (what, big, small, lim))


def image(rng, n, size, prm):
    """n distinct chunks of the given size"""
    tag = rng.randbytes(8)
    return [(tag + struct.pack("<Q", i) + rng.randbytes(min(size, 64)))[:size].ljust(size, b"\xa5") for i in range(n)]


WRONG = ["flip", "cut", "short", "nomagic", "other", "twice", "tail", "larger", "empty", "dict"]


def misfit(rng, x, ch, k, cls):
    """a body that does not supply the chunk"""
    z = bytearray(ref.zc(x))
    if cls == "flip":
        for i in range(6, len(z)):
            z[i] ^= rng.choice((0, 0, 255))
        z[4] |= 0x08        # reserved bit: an error for sure
    elif cls == "cut":
        z = z[:rng.randrange(5, len(z))]
    elif cls == "short":
        z = z[:rng.randrange(4)]
    elif cls == "nomagic":
        z[:4] = b"\x1f\x8b\x08\x00"
    elif cls == "other":
        z = ref.zc(x[:-1] + bytes([x[-1] ^ 1]))
    elif cls == "twice":
        z = z + z
    elif cls == "tail":
        z = z + b"trailing rubbish"
    elif cls == "larger":
        z = ref.zc(x + bytes(300000))
    elif cls == "empty":
        z = ref.zc(b"")
    else:
        # asks for a dictionary
        z = b"\x28\xb5\x2f\xfd\x23\x01\x02\x03\x04" + bytes([len(x) & 255]) + z[6:]
    z = bytes(z)
    return ref.xchacha(k, ref.sha(x), z) if k else z


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    deep = c.tier == "thorough"
    prm = (1024, 4096, 65536)
    if kind.startswith("body."):
        return body(c, rng, kind[5:], deep)

    def scn_for(n, size=2000):
        ch = image(rng, n, size, prm)
        return ch, Scn(ref.entries_of(ch), prm, b"", chunks={})
    N = rng.choice((2500, 3000)) * (8 if deep else 1)
    M = rng.choice((30000, 35000)) * (8 if deep else 1)
    res = []
    if kind in ("http", "httpclose", "encrypted", "miss", "tstore"):
        k = rng.randbytes(32) if kind == "encrypted" else None
        for n in (30, N):
            ch, scn = scn_for(n, rng.choice((1000, 5000)))
            if kind == "miss":
                scn.stores = [Http(), Http(default=Resp(410, b"x" * 5000)), gen.http_all(ch)]
            elif kind == "tstore":
                scn.entries = ref.entries_of(ch + ch[::-1] + ch)
                scn.stores = [Target(), gen.http_all(ch)]
            else:
                scn.stores = [Http({ref.sha(x): ok(x, k, mode="close" if kind == "httpclose" else "cl") for x in ch}, key=k)]
            res.append(peak(c, scn, want=0)[0])
        grow(c, kind, res[0], res[1], 3 * N if kind == "tstore" else N, "%s, %d chunks" % (kind, N))
    elif kind in ("bad", "badenc", "mixed"):
        k = rng.randbytes(32) if kind == "badenc" or (kind == "mixed" and rng.random() < .5) else None
        cls = rng.choice(WRONG) if rng.random() < .4 else None
        for n in (30, N):
            ch, scn = scn_for(n, rng.choice((300, 1000, 5000)))
            tab = {}
            for i, x in enumerate(ch):
                if kind == "mixed" and i % 2:
                    tab[ref.sha(x)] = rng.choice((ok(x, k), Resp(404), ok(x, k)))
                elif kind == "mixed" and rng.random() < .2:
                    tab[ref.sha(x)] = Resp(rng.choice((500, 503, 403)), b"x" * 500)
                else:
                    tab[ref.sha(x)] = Resp(200, misfit(rng, x, ch, k, cls or rng.choice(WRONG)), mode=rng.choice(("cl", "cl", "chunked")))
            side = scn.index()
            scn.stores = [Http(tab, key=k), Local(b"".join(ch), side)]
            if kind == "mixed":
                # side-loaded indices that are wrong for a part of it, and the target
                scn.stores = [Target(), Http(tab, key=k), Local(b"".join(bytes(300) if i % 3 else x for i, x in enumerate(ch)), side),
                              Local(b"".join(ch), side)]
                scn.entries = ref.entries_of(ch + ch[::3])
            res.append(peak(c, scn, want=0)[0])
        grow(c, kind, res[0], res[1], 3 * N, "%s, %d chunks" % (kind, N))
    elif kind == "repeat":
        # few chunks, but many entries
        ch = image(rng, 5, 600, prm)
        for n in (100, M):
            seq = [rng.choice(ch) for _ in range(n)]
            scn = Scn(ref.entries_of(seq), prm, b"", chunks={})
            scn.stores = rng.choice(([Local(b"".join(ch), ref.caibx(ref.entries_of(ch), prm))], [Target(), Local(b"".join(ch), ref.caibx(ref.entries_of(ch), prm))]))
            res.append(peak(c, scn, want=0)[0])
        grow(c, kind, res[0], res[1], 0, "%d entries, 5 chunks" % M)
    elif kind in ("local", "side", "prefix", "storesize", "rescan", "rescan2"):
        for n in (100, M):
            ch, scn = scn_for(n, 600)
            data = b"".join(ch)
            if kind == "local":
                data = rng.randbytes(n * 1500)
                cc = ref.cdc_chunks(data, (256, 1024, 8192))
                scn = Scn(ref.entries_of(cc), (256, 1024, 8192), b"")
                scn.stores = [Local(data)]
            elif kind == "side":
                scn.stores = [Local(data, scn.index())]
            elif kind == "prefix":
                scn.target = data
                scn.stores = rng.choice(([Local(b"x")], [Target(), Local(b"x")]))
            elif kind == "storesize":
                # a big store of no use
                big = rng.randbytes(4 << 20) * (1 if n == 100 else 16 * (8 if deep else 1))
                ch, scn = scn_for(50)
                prm2 = (16384, 65536, 262144)
                scn.params = prm2
                scn.stores = [Local(big), Local(b"".join(ch), ref.caibx(scn.entries, prm2))]
            elif kind == "rescan":
                # the side-loaded index is wrong everywhere, HTTP would be too slow: the target has all but the end
                sub = rng.randbytes(n * 600)
                cc = ref.cdc_chunks(sub, (256, 1024, 8192))
                scn = Scn(ref.entries_of(cc), (256, 1024, 8192), b"")
                wrong = [ref.sha(x) for x in cc[1:]] + [ref.sha(cc[0])]
                scn.stores = [Local(sub, ref.caibx(ref.entries_of(cc, wrong), scn.params))]
            else:
                # every chunk of the first store has rotted, the second supplies it
                rot = b"".join(bytes([x[0] ^ 255]) + x[1:] for x in ch)
                scn.stores = [Local(rot, scn.index()), Local(data, scn.index())]
            res.append(peak(c, scn, want=0)[0])
            for f in ("l0", "l1", "target"):
                if os.path.exists(c.path(f)):
                    os.unlink(c.path(f))
        per = {"local": 2 * M, "side": M, "prefix": M, "storesize": 16 * 64 * 2 * (8 if deep else 1), "rescan": 2 * M, "rescan2": 3 * M}[kind]
        grow(c, kind, res[0], res[1], per, "%s, scale %d" % (kind, M))
    elif kind == "chunksize":
        n = 200 * (5 if deep else 1)
        for size in (1000, 262144):
            ch = image(rng, n, size, prm)
            scn = Scn(ref.entries_of(ch), prm, b"", chunks={})
            scn.stores = [gen.http_all(ch)] if rng.random() < .5 else [Local(b"".join(ch), scn.index())]
            res.append(peak(c, scn, want=0)[0])
        grow(c, kind, res[0], res[1], 0, "%d chunks of 256 KiB" % n)
    elif kind == "retry":
        for n in (30, N // 3):
            ch, scn = scn_for(n)
            scn.stores = [gen.http_all(ch)]
            cid = [ref.sha(x).hex() for x in ch]
            res.append(peak(c, scn, plan=["cperf %s 1 %d %d %d" % (x, rng.randrange(1, 5), rng.choice((28, 7)), rng.choice((-1, 0, 30))) for x in [y[:40] for y in cid[:300:3]]], want=0)[0])
        grow(c, kind, res[0], res[1], N, "retries, %d chunks" % (N // 3))
    c.sig(kind, N, M)


def body(c, rng, kind, deep):
    """the first store sends something large for some chunks, the second has them all"""
    big = rng.choice((48, 64)) << 20
    if deep:
        big *= 6
    ch = image(rng, 4, 3000, None)
    res = []
    k = rng.randbytes(32) if kind.startswith("enc") else None
    out = []
    for size in (20000, big):
        def mk(x):
            z = ref.zc(x)
            cid = ref.sha(x)
            fill = rng.randbytes(1 << 16)
            if kind in ("trail", "chunkedtrail", "enctrail"):
                b = z + bytes(size)
            elif kind == "bomb":
                b = ref.zc(x[:10] + bytes(size * 2), 3)
            elif kind == "skip":
                b = struct.pack("<II", 0x184D2A50, size) + bytes(size) + z
            elif kind == "frames":
                b = ref.zc(b"") * (size // 9 // 4) + z
            elif kind == "zeros":
                b = bytes(size)
            elif kind == "window":
                # a frame that declares a huge window
                b = b"\x28\xb5\x2f\xfd\x00" + bytes([(27 - 10) << 3]) + b"\x01\x00\x00" + bytes(0)
            elif kind == "okbig":
                # the chunk in as many tiny blocks as fit, then an empty tail of skippable frames
                b = z + (struct.pack("<II", 0x184D2A5F, 1000) + bytes(1000)) * (size // 1008)
            elif kind == "longheader":
                b = z
            else:
                b = (fill * (size // len(fill) + 1))[:size]
            pat = {"blank": b"\r\n", "space": rng.choice((b" ", b"\n", b"\t \n")), "ff": b"\xff", "magic": b"\x28\xb5\x2f\xfd", "text": b"<p>moved</p>\n", "halfmagic": b"\x28\xb5"}.get(kind)
            if pat:
                # nothing but one pattern, with or without the chunk after it
                b = (pat * (size // len(pat) + 1))[:size] + rng.choice((b"", z))
            if k and kind != "encgarbage":
                b = ref.xchacha(k, cid, b[:8 << 20]) + b[8 << 20:]
            st = {"notfound": 404, "error": 500, "redirect": 300}.get(kind, 200)
            r = Resp(st, b, mode="chunked" if kind == "chunkedtrail" else "close" if rng.random() < .5 else "cl")
            if kind == "longheader":
                r.headers = ["X-%d: %s" % (i, "y" * 200) for i in range(300 if size > 20000 else 3)]
            if kind == "garbage" and size > 20000:
                r.endless = size
                r.stall = b"\x28\xb5\x2f\xfd" if rng.random() < .5 else b"Z"
                r.body = z if rng.random() < .5 else b""
            return r
        cache = {}

        def table(cid):
            if cid not in cache:
                cache.clear()
                cache[cid] = mk(next(x for x in ch if ref.sha(x) == cid))
            return cache[cid]
        scn = Scn(ref.entries_of(ch), (1024, 4096, 65536), b"")
        scn.stores = [Http(default=table, key=k), gen.http_all(ch)]
        m, r = peak(c, scn)
        if r.rc != 0 and not r.crash:
            raise Exception("exit %d: %s" % (r.rc, r.tail()))
        res.append(m)
        out.append(r.rc)
    grow(c, kind, res[0], res[1], 0, "response bodies of %d bytes (%s)" % (big, kind))
    c.sig("body", kind, big, tuple(out))
