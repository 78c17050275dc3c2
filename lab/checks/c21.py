"""Block devices as target, store, source or destination behave like files."""
import os
from .. import ref, gen
from ..model import *
from . import c01
from .c15 import compare
from .c17 import mixed, pair, M

RULE = ("each case runs a scenario with regular files and again with some of the same files presented as block devices of the same size (status, size ioctl, size 0 in stat, no "
        "writes beyond the end, no truncation), and compares status, target and requests; other cases use devices too small for the image, devices beyond 4 GiB backed by "
        "sparse files in every role, and patchdd. Distinct by kind, roles, device sizes and outcome")
ASSUMPTIONS = ["devices are emulated at the libc boundary (fstat, stat, the size, sector and discard ioctls, lseek, read, write, ftruncate, fallocate); the sandbox has no block devices", "only size and mode are emulated, not block caches or partial-sector errors"]
REQUIRE = {"runs": 600, "device_runs": 350, "too_small": 50, "beyond_4g": 4}
VARIANTS = ["san", "plain"]
KINDS = ["pair", "pair2", "small", "pdd", "pddsmall", "scan", "casync", "exact", "vast"]
HUGE = ["hugeside", "hugescan", "hugetarget", "hugepdd", "hugepdddst"]
G4 = 1 << 32


def cases(tier):
    n = 130 if tier == "quick" else 1500
    return ["%s/%d" % (k, i) for i in range(1 if tier == "quick" else 5) for k in HUGE] + ["%s/%d" % (k, i) for i in range(n) for k in KINDS]


def pad(rng, b, extra=True):
    k = -len(b) % 512 + 512 * (rng.choice((0, 0, 1, 3, 20)) if extra else 0)
    return b + (bytes(k) if rng.random() < .5 else rng.randbytes(k))


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    if kind.startswith("huge"):
        c.count("beyond_4g")
        return globals()[kind](c, rng)
    if kind == "vast":
        return vast(c, rng)
    if kind.startswith("pdd"):
        return pdd(c, rng, kind)
    scn, _ = c01.mix(rng)
    known = list(scn.chunks.values())
    if kind == "scan":
        # the device is the only source
        img = b"".join(known)
        dev = pad(rng, img)
        cc = ref.cdc_chunks(dev, scn.params)
        cc = [x for x in cc if len(x) <= ref.CHUNK_MAX]
        rng.shuffle(cc)
        if not cc:
            return
        scn = Scn(ref.entries_of(cc), scn.params, b"", chunks={ref.sha(x): x for x in cc})
        scn.stores = [Local(dev)] if rng.random() < .6 else [Target(), Local(dev)]
    for s in scn.stores:
        if isinstance(s, Local) and kind != "scan":
            s.data = pad(rng, s.data)
            if kind == "exact":
                s.data = s.data[:-512] or bytes(512)
    t = scn.target
    end = scn.end
    if kind == "small":
        k = rng.choice((0, 512, (end - 1) // 512 * 512, rng.randrange(0, end) // 512 * 512))
        k = k if k < end else 0
        t = (t + bytes(end))[:k]
        if rng.random() < .4 and known:
            t = scn.expected()[:k]
        scn.stores = [gen.http_all(known)] + ([Target()] if rng.random() < .3 else [])
    else:
        # as large as the image at least
        t = t + bytes(max(0, end - len(t)))
        t = t[:end] + t[end:] + bytes(-len(t) % 512) + rng.randbytes(512 * rng.choice((0, 0, 1, 9)))
    scn.target = t
    _, p = setup(c, scn)
    rl = roles(p)
    tool = "casync" if kind == "casync" else "csn"

    def go(plan):
        c.write("target", scn.target)
        for s in scn.stores:
            if isinstance(s, Http):
                s.n = {}
                s.log.clear()
        r = csn(c, scn, p, plan=rl + plan, tool=tool)
        if plan:
            c.count("device_runs")
        return r, c.read("target"), [[(m, u) for m, u, _ in s.log] for s in scn.stores if isinstance(s, Http)]
    devs = ["blk T %d" % len(t)]
    for i, s in enumerate(scn.stores):
        if isinstance(s, Local):
            devs.append("blk L%d %d" % (i, len(s.data)))
    if kind == "small":
        r, after, _ = go(devs)
        c.count("too_small")
        if r.rc == 0:
            c.fail("small device accepted", "exit 0 with a device of %d bytes and an image of %d" % (len(t), end))
        if len(after) != len(t):
            raise Exception("the emulated device has grown")
        for s, l, cid in scn.spans():
            want = scn.chunks[cid][:max(0, len(t) - s)]
            a, b = after[s:s + l], t[s:s + l]
            if a != b and any(x != y and x != z for x, y, z in zip(a, b, want)):
                c.fail("foreign bytes", "the device holds bytes that are neither old nor prescribed at %d" % s)
        c.sig(kind, len(t), end, r.rc)
        return
    base = go([])
    if base[0].crash:
        return
    sets = [devs, [rng.choice(devs)]] if kind != "pair2" else [[d for d in devs if rng.random() < .6] or devs[:1], devs[:1], devs]
    for d in sets:
        b = go(d)
        compare(c, base, b, "as block device: %s" % ", ".join(x[4:] for x in d))
        check_exact(c, scn, b[0], b[1])
        if kind == "scan" and b[0].rc != 0 and not b[0].crash and not c.problems:
            c.fail("status differs", "exit %d, although the store holds every chunk: %s\n%s" % (b[0].rc, d, b[0].tail()))
        c.sig(kind, tuple(d), b[0].rc, len(scn.entries))
    c.sample("%s: %s, exit %d and target as with files" % (kind, ", ".join(x[4:] for x in d), base[0].rc))


def pdd(c, rng, kind):
    n = rng.choice((512, 1024, M - 512, M, M + 512, 512 * rng.randrange(1, 5000)))
    src, dst, what = pair(rng, n, 512 * rng.choice((0, 0, 1, 2048, rng.randrange(3000))))
    if kind == "pddsmall":
        k = rng.choice((0, n - 512, rng.randrange(0, n) // 512 * 512))
        dst = dst[:k]
    s, t = c.write("S", src), c.write("T", dst)
    rl = ["role S " + s, "role T " + t]
    ds, dt = "blk S %d" % n, "blk T %d" % len(dst)
    for d in ([ds, dt], [ds], [dt]):
        c.write("T", dst)
        r = c.run("patchdd", [s, t], plan=rl + d)
        c.count("device_runs")
        got = c.read("T")
        note = "patchdd, source %d, destination %d bytes, %s" % (n, len(dst), d)
        if kind == "pddsmall":
            c.count("too_small")
            if r.rc == 0:
                c.fail("small device accepted", "%s: exit 0" % note)
            if got != dst:
                c.fail("target modified", "%s: the destination was modified" % note)
        elif r.rc != 0:
            if not r.crash:
                c.fail("status differs", "%s: exit %d\n%s" % (note, r.rc, r.tail()))
        elif got != src + dst[n:]:
            c.fail("target differs", "%s: wrong destination" % note)
        c.sig(kind, tuple(d), len(dst), what)


VAST = [(1 << k) + d for k in (31, 32, 33, 39, 40, 41, 42, 43, 44, 48, 50, 53, 62) for d in (0, 512, -512)]


def vast(c, rng):
    """devices of any size, of which only the beginning is used"""
    size = rng.choice(VAST) if rng.random() < .7 else 512 * rng.randrange(1 << 22, 1 << 52)
    n = 512 * rng.randrange(1, 3000)
    src, dst, _ = pair(rng, n, 512 * rng.randrange(1, 50))
    s, t = c.write("S", src), c.write("T", dst)
    r = c.run("patchdd", [s, t], plan=["role S " + s, "role T " + t, "blk T %d" % size] + rng.choice(([], ["blk S %d" % n])))
    c.count("device_runs")
    if r.rc != 0 and not r.crash:
        c.fail("status differs", "patchdd with a destination of %d bytes: exit %d\n%s" % (size, r.rc, r.tail()))
    elif r.rc == 0 and c.read("T") != src + dst[n:]:
        c.fail("target differs", "patchdd with a destination of %d bytes: wrong contents" % size)
    # the source is the larger one
    c.write("T", dst)
    if size > len(dst):
        r = c.run("patchdd", [s, t], plan=["role S " + s, "role T " + t, "blk S %d" % size, "blk T %d" % len(dst)])
        c.count("too_small")
        if r.rc == 0:
            c.fail("small device accepted", "patchdd with a source of %d bytes and a destination of %d: exit 0" % (size, len(dst)))
        if c.read("T") != dst:
            c.fail("target modified", "patchdd with a source of %d bytes and a destination of %d modified the destination" % (size, len(dst)))
    # target and side-loaded store of csn
    scn, _ = c01.mix(rng)
    known = list(scn.chunks.values())
    body = b"".join(known)
    scn.stores = [Local(body, ref.caibx(ref.entries_of(known), scn.params)), gen.http_all(known)] if known else [gen.http_all(known)]
    scn.target = scn.target + bytes(max(0, scn.end - len(scn.target)))
    _, p = setup(c, scn)
    devs = ["blk T %d" % size] + (["blk L0 %d" % size] if known else [])
    r = csn(c, scn, p, plan=roles(p) + devs)
    c.count("device_runs")
    check_exact(c, scn, r, c.read("target"))
    if r.rc != 0 and not r.crash:
        c.fail("status differs", "csn with devices of %d bytes: exit %d\n%s" % (size, r.rc, r.tail()))
    if any(s.log for s in scn.stores[1:]) and r.rc == 0:
        c.fail("requests differ", "chunks were requested although the store of %d bytes has them" % size)
    c.sig("vast", size, n, len(scn.entries))


def sparse(path, size, parts):
    with open(path, "wb") as f:
        f.truncate(size)
        for o, d in parts:
            f.seek(o)
            f.write(d)


def hugeside(c, rng):
    """a device beyond 4 GiB with a side-loaded index"""
    y = [rng.randbytes(rng.choice((1000, 5000, ref.CHUNK_MAX))) for _ in range(3)]
    o = G4 + 512 * rng.randrange(1, 1000)
    size = (o + sum(map(len, y)) + 511) // 512 * 512
    lp = c.path("dev")
    ents, pos, parts = [((1 << 31), rng.randbytes(32)), (G4 - 5, rng.randbytes(32)), (o, rng.randbytes(32))], o, []
    for d in y:
        parts.append((pos, d))
        pos += len(d)
        ents.append((pos, ref.sha(d)))
    sparse(lp, size, parts)
    prm = (16384, 65536, 262144)
    scn = Scn(ref.entries_of(y), prm, b"", chunks={ref.sha(d): d for d in y})
    scn.stores = [Local(None, ref.caibx(ents, prm), path=lp)]
    _, p = setup(c, scn)
    for pl in ([], ["blk L0 %d" % size]):
        c.write("target", b"")
        r = csn(c, scn, p, plan=roles(p) + pl)
        c.count("device_runs", bool(pl))
        after = c.read("target")
        check_exact(c, scn, r, after)
        if r.rc != 0 and not r.crash:
            c.fail("status differs", "%s beyond 4 GiB with a side-loaded index: exit %d\n%s" % ("device" if pl else "file", r.rc, r.tail()))
        c.sig("hugeside", bool(pl), size)


def hugescan(c, rng, dev=True):
    """scanned beyond 4 GiB; the wanted chunks lie there"""
    prm = (65536, 131072, 262144)
    k = ref.CHUNK_MAX
    z = bytes(k)
    # zeroes are cut at the maximum size or where the chunker likes it
    cz = ref.cdc_chunks(bytes(4 * k), prm)
    if any(len(x) != k for x in cz):
        raise Exception("zeroes are not chunked at the maximum")
    y = ref.cdc_chunks(rng.randbytes(600_000), prm)
    o = G4 + k * rng.randrange(1, 4)
    body = b"".join(y)
    size = (o + len(body) + 511) // 512 * 512
    y = ref.cdc_chunks(body + bytes(size - o - len(body)), prm)
    lp = c.path("dev")
    sparse(lp, size, [(o, body)])
    img = [z] + y
    scn = Scn(ref.entries_of(img), prm, b"", chunks={ref.sha(d): d for d in img})
    scn.stores = [Local(None, None, path=lp)]
    _, p = setup(c, scn)
    r = csn(c, scn, p, plan=roles(p) + (["blk L0 %d" % size] if dev else []), variant="plain", timeout=200)
    if dev:
        c.count("device_runs")
    check_exact(c, scn, r, c.read("target"))
    if r.rc != 0 and not r.crash:
        c.fail("status differs", "%s of %d bytes as the only store: exit %d\n%s" % ("device" if dev else "file", size, r.rc, r.tail()))
    c.sig("hugescan", size)


def hugetarget(c, rng):
    """a target beyond 4 GiB that is complete up to there, and is a store as well"""
    k = ref.CHUNK_MAX
    zi = ref.sha(bytes(k))
    y = [rng.randbytes(n) for n in (1000, k, 5, 7000)]
    seq = [y[0], y[1], y[2], y[0], y[3], y[1], y[0]]
    n = G4 // k + 1
    ents, o = [((i + 1) * k, zi) for i in range(n)], n * k
    for d in seq:
        o += len(d)
        ents.append((o, ref.sha(d)))
    path = c.path("target")
    size = (o + 511) // 512 * 512 + 512
    sparse(path, size, [(size - 512, b"\xee" * 512)])
    ip = c.write("i.caibx", ref.caibx(ents, (16384, 65536, 262144)))
    table = {ref.sha(d): ok(d) for d in y}

    def handler(pa, hd):
        m = PATH_RE.match(pa)
        return table.get(bytes.fromhex(m.group(2)), Resp(404)) if m else Resp(404)
    url, log = c.route("s0", handler)
    r = c.run("csn", [ip, path, path, url], plan=["role T " + path, "blk T %d" % size], variant="plain", timeout=200)
    c.count("device_runs")
    c.sig("hugetarget", len(log))
    if r.rc != 0:
        if not r.crash:
            c.fail("status differs", "target device of %d bytes: exit %d\n%s" % (size, r.rc, r.tail()))
        return
    with open(path, "rb") as f:
        f.seek(n * k)
        if f.read() != b"".join(seq) + bytes(size - 512 - o) + b"\xee" * 512:
            c.fail("wrong image", "bytes beyond 4 GiB are wrong")
        f.seek(0)
        if any(f.read(4 * k)):
            c.fail("wrong image", "bytes at the start of the image changed")
    if len(log) != len(y):
        c.fail("requests differ", "%d requests for %d distinct chunks, with the target as first store" % (len(log), len(y)))


def hugepdd(c, rng):
    n = G4 + 512 * rng.randrange(1, 3000)
    s, t = c.path("S"), c.path("T")
    marks = sorted({0, (1 << 31) - 1, G4 - 1, G4, n - 1} | {rng.randrange(n) for _ in range(4)})
    sparse(s, n, [(m, b"S") for m in marks])
    tail = rng.randbytes(512 * 5)
    sparse(t, n, [(m, b"D") for m in marks[::2] + [n - 77]] + [(n, tail)])
    r = c.run("patchdd", [s, t], plan=["role S " + s, "role T " + t, "blk S %d" % n, "blk T %d" % (n + len(tail))], variant="plain", timeout=200)
    c.count("device_runs")
    c.sig("hugepdd", n)
    if r.rc != 0:
        if not r.crash:
            c.fail("status differs", "patchdd with devices of %d bytes: exit %d\n%s" % (n, r.rc, r.tail()))
        return
    with open(s, "rb") as f, open(t, "rb") as g:
        o = 0
        while o < n:
            a = f.read(min(4 * M, n - o))
            if a != g.read(len(a)):
                c.fail("target differs", "patchdd with devices of %d bytes: difference behind %d" % (n, o))
                break
            o += len(a)
        else:
            if g.read() != tail:
                c.fail("target differs", "patchdd with devices of %d bytes: the tail changed" % n)


def hugepdddst(c, rng):
    """small source, huge destination, whose size is small when cut to 32 bits"""
    n = 512 * rng.randrange(2, 4000)
    size = G4 + 512 * rng.randrange(0, n // 512)
    s, t = c.write("S", rng.randbytes(n)), c.path("T")
    sparse(t, size, [(size - 5, b"tail!")])
    for pl in ([], ["blk T %d" % size]):
        r = c.run("patchdd", [s, t], plan=["role S " + s, "role T " + t] + pl)
        c.count("device_runs", bool(pl))
        if r.rc != 0:
            if not r.crash:
                c.fail("status differs", "patchdd with a destination of %d bytes: exit %d\n%s" % (size, r.rc, r.tail()))
            continue
        with open(t, "r+b") as f:
            if f.read(n) != c.read("S"):
                c.fail("target differs", "patchdd with a destination of %d bytes: wrong contents" % size)
            f.seek(size - 5)
            if f.read() != b"tail!":
                c.fail("target differs", "patchdd with a destination of %d bytes: the tail changed" % size)
            f.seek(0)
            f.write(bytes(n))
        c.sig("hugepdddst", bool(pl), size)
