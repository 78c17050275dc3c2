"""patchdd makes the destination start with the source and changes nothing else."""
import os
from .. import ref, gen
from ..model import *
from .c11 import snap

LEVEL = "fault_enumeration"
RULE = ("each case makes a source and a destination with a chosen relation (equal, differing at chosen bytes, longer, shorter, empty, boundaries around 1 MiB) in a scratch "
        "directory and runs patchdd undisturbed, killed at recorded operations (before, within and after writes) followed by a further run, with failing operations, and with "
        "bad arguments; contents of all files, the sequence of writes and syncs and the exit status are compared with the model 'source followed by the old tail'. "
        "Distinct by kind, sizes, differing ranges and fault position")
ASSUMPTIONS = ["durability is judged from the sequence of write and sync calls", "kills happen at system-call boundaries or after partial writes"]
VARIANTS = ["san", "plain"]
REQUIRE = {"runs": 500, "kills": 100, "syncs": 100, "noop": 30, "refused": 30}
KINDS = ["plain", "plain", "equal", "small", "kill", "kill", "fault", "samefile", "missing", "block", "prefix", "args", "tail"]
M = 1 << 20


def cases(tier):
    n = 70 if tier == "quick" else 700
    return ["huge/%d" % i for i in range(1 if tier == "quick" else 3)] + ["%s/%d" % (k, i) for i in range(n) for k in dict.fromkeys(KINDS)] + ["%s/%d" % (k, n + i) for i in range(n) for k in ("plain", "kill")]


def size(rng):
    w = rng.random()
    if w < .3:
        return rng.choice((1, 2, 511, 512, 513, 4095, 4096, 4097))
    if w < .7:
        return max(1, rng.choice((M, M, 2 * M, 3 * M)) + rng.choice((-4097, -4096, -1, 0, 0, 1, 512, 4096)))
    return rng.randrange(1, 3 * M + 100)


def sparse(rng, n):
    """mostly blank source with a few islands of data, and a destination that is blank, old or stray here and there"""
    fill = bytes([rng.choice((0, 0, 0, 255))])
    unit = rng.choice((1, 512, 512, 4096))

    def island(b):
        at = rng.randrange(n) // unit * unit
        ln = min(rng.choice((1, 8, 100, unit, 4096, M // 2)), n - at)
        b[at:at + ln] = rng.randbytes(ln)
        return at, ln
    src = bytearray(fill * n)
    for _ in range(rng.choice((0, 1, 3, 8))):
        island(src)
    dst = bytearray(src if rng.random() < .6 else fill * n)
    what = [island(dst) for _ in range(rng.choice((1, 1, 2, 5)))]
    if rng.random() < .3:
        # each block starts with a difference
        for b in range(0, n, M):
            dst[b] ^= 1
    return bytes(src), bytes(dst), tuple(what)


def pair(rng, n, extra=None):
    if n and rng.random() < .3:
        src, t, what = sparse(rng, n)
        k = extra if extra is not None else rng.choice((0, 0, 1, 4096, M))
        return src, t + rng.choice((bytes(k), rng.randbytes(k))), what
    src = gen.content(rng, n) if rng.random() < .4 else rng.randbytes(n)
    t = bytearray(src)
    what = []
    for _ in range(rng.choice((1, 1, 2, 4))):
        w = rng.randrange(6)
        if not n:
            break
        at = rng.choice((0, n - 1, M - 1, M, M + 1, 2 * M - 1, 2 * M, rng.randrange(n), rng.randrange(n))) % n
        ln = 1 if w < 3 else min(rng.choice((2, 4096, M, rng.randrange(1, n + 1))), n - at)
        t[at:at + ln] = bytes(x ^ 255 for x in t[at:at + ln]) if rng.random() < .7 else bytes(ln)
        what.append((at, ln))
    k = extra if extra is not None else rng.choice((0, 0, 1, 4096, M - 1, M, M + 1, rng.randrange(5000)))
    return src, bytes(t) + rng.randbytes(k), tuple(what)


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    d = c.path("d")
    os.mkdir(d)
    s, t = os.path.join(d, "S"), os.path.join(d, "T")
    n = size(rng)
    src, dst, what = pair(rng, n)
    rl = ["role S " + s, "role T " + t]
    if kind == "huge":
        return huge(c, rng, s, t)

    def put(a, b):
        open(s, "wb").write(a)
        open(t, "wb").write(b)

    def go(plan=(), args=None, env=None):
        return c.run("patchdd", args or [s, t], plan=rl + list(plan), env=env)

    def others(want, note):
        got = snap(d)
        got.pop("T", None)
        if got != {"S": src}:
            c.fail("other files changed", "%s: files are now %s" % (note, {k: len(v or b"") for k, v in got.items()}))

    def full(r, note, noop=False):
        """a run that has to succeed"""
        want = src + dst[n:]
        got = open(t, "rb").read()
        if r.rc != 0:
            if not r.crash:
                c.fail("failed", "%s: exit %d\n%s" % (note, r.rc, r.tail()))
            return False
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            c.fail("wrong destination", "%s: exit 0, destination of %d bytes (expected %d), first wrong byte %d (source has %d)" % (note, len(got), len(want), i, n))
            return False
        ev = [e for e in r.events if e[0] in "WY" and len(e) > 1 and e[1] == "T" and (e[0] == "Y" or int(e[4]) > 0)]
        ws = [e for e in ev if e[0] == "W"]
        c.count("writes", len(ws))
        if ws and noop:
            c.fail("needless write", "%s: a destination that already starts with the source was written to at %s" % (note, ws[0]))
            return False
        if ws:
            if ev[-1][0] != "Y":
                c.fail("not synced", "%s: the last of %d writes is not followed by a sync of the destination" % (note, len(ws)))
                return False
            c.count("syncs")
        elif not noop and src != dst[:n]:
            raise Exception("the shim saw no writes")
        others(want, note)
        return True

    note = "%s: source %d, destination %d bytes, differing %s" % (kind, n, len(dst), what)
    if kind == "equal":
        dst = src + dst[n:]
        put(src, dst)
        before = os.stat(t).st_mtime_ns
        r = go()
        full(r, note, noop=True)
        if os.stat(t).st_mtime_ns != before and not c.problems:
            c.fail("needless write", "%s: modification time changed" % note)
        c.count("noop")
        c.sig(kind, n, len(dst))
    elif kind == "small":
        k = rng.choice((n - 1, 0, max(0, n - M), rng.randrange(n)))
        dst = dst[:k]
        put(src, dst)
        r = go()
        c.count("refused")
        if r.rc == 0:
            c.fail("small destination accepted", "exit 0 with a destination of %d bytes and a source of %d" % (k, n))
        if open(t, "rb").read() != dst or r.ev("W", "T"):
            c.fail("small destination written", "destination of %d bytes was modified although the source has %d" % (k, n))
        others(dst, note)
        c.sig(kind, n, k)
    elif kind in ("plain", "tail", "prefix"):
        if kind == "tail":
            src, dst, what = pair(rng, n, rng.choice((1, M, M + 1, 2 * M)))
        elif kind == "prefix":
            # equal up to some point
            k = rng.randrange(n)
            dst = src[:k] + bytes(x ^ 1 for x in src[k:]) + dst[n:]
        put(src, dst)
        full(go(), note)
        c.sig(kind, n, len(dst), what)
        c.sample(note)
        if not c.problems:
            before = os.stat(t).st_mtime_ns
            full(go(), note + ", again", noop=True)
            c.count("noop")
    elif kind == "kill":
        put(src, dst)
        r0 = go()
        if not full(r0, note):
            return
        want = src + dst[n:]
        ws = [e for e in r0.ev("W", "T")]
        for _ in range(4 if c.tier == "quick" else 12):
            put(src, dst)
            w = rng.random()
            if w < .6 and ws:
                i = rng.randrange(len(ws))
                pl = ["kill T w %d %d" % (i + 1, rng.choice((-1, 0, 1, rng.randrange(int(ws[i][3]) + 1))))]
            else:
                pl = ["killop %d" % rng.randrange(1, len(r0.ev("R")) + len(ws) + 5)]
            if rng.random() < .3:
                pl += ["short T w 600", "seed %d" % rng.randrange(1 << 30)]
            r = go(pl)
            got = open(t, "rb").read()
            if r.killed:
                c.count("kills")
            if len(got) != len(dst) or any(len(x) != 1 for x in ()) or not mixed(got, dst, want):
                c.fail("foreign bytes", "%s: after %s the destination has %d bytes (had %d) or holds bytes that are neither old nor the source's" % (note, pl, len(got), len(dst)))
                return
            others(got, note)
            r = go()
            if not full(r, "%s, rerun after %s" % (note, pl), noop=(got[:n] == src)):
                return
            c.sig(kind, n, tuple(pl))
    elif kind == "fault":
        put(src, dst)
        r0 = go()
        if not full(r0, note):
            return
        want = src + dst[n:]
        for _ in range(4):
            put(src, dst)
            role, op = rng.choice((("S", "r"), ("T", "r"), ("T", "w"), ("T", "s")))
            if op == "s":
                pl = ["syncfail T %d %d" % (rng.choice((5, 28)), rng.randrange(2))]
            else:
                m = len(r0.ev("R" if op == "r" else "W", role)) or 1
                pl = ["fail %s %s %d %d 1" % (role, op, rng.randrange(1, m + 1), rng.choice((5, 28) if op == "w" else (5, 0, 0)))]
                if rng.random() < .5:
                    # within a block
                    pl = ["short %s %s 1000" % (role, op), "seed %d" % rng.randrange(1 << 30), "fail %s %s %d %s 1" % (role, op, rng.randrange(1, 3 * m + 4), pl[0].split()[4])]
            r = go(pl)
            got = open(t, "rb").read()
            if r.ev("F"):
                c.count("faults")
                if r.rc == 0 and (op in "ws" or role == "S" or got != want):
                    c.fail("error ignored", "%s: exit 0 in spite of %s" % (note, pl))
            if len(got) != len(dst) or not mixed(got, dst, want):
                c.fail("foreign bytes", "%s: after %s the destination holds bytes that are neither old nor the source's" % (note, pl))
            others(got, note)
            if not c.problems:
                full(go(), "%s, rerun after %s" % (note, pl), noop=(got[:n] == src))
            c.sig(kind, n, tuple(pl))
    elif kind == "samefile":
        open(s, "wb").write(src)
        w = rng.choice(("same", "hard", "sym"))
        a = s
        if w == "hard":
            os.link(s, t)
            a = t
        elif w == "sym":
            os.symlink(s, t)
            a = t
        r = go(args=[s, a])
        if open(s, "rb").read() != src:
            c.fail("wrong destination", "source and destination the same file (%s): contents changed" % w)
        elif r.rc != 0 and not r.crash:
            c.fail("failed", "source and destination the same file (%s): exit %d" % (w, r.rc))
        c.count("noop")
        c.sig(kind, w, n)
    elif kind == "missing":
        which = rng.choice("STBD")
        if which in "TD":
            open(s, "wb").write(src)
        if which == "S":
            open(t, "wb").write(dst)
        if which == "D":
            os.mkdir(t)
        before = snap(d)
        r = go()
        c.count("refused")
        if r.rc == 0:
            c.fail("missing file accepted", "exit 0 although %s is missing or no file" % which)
        if snap(d) != before:
            c.fail("missing file created", "files changed from %s to %s" % (sorted(before), sorted(snap(d))))
        c.sig(kind, which)
    elif kind == "args":
        put(src, dst)
        before = snap(d)
        a = rng.choice(([s], [], ["-h"], ["--help"], ["--help", s, t], ["-h", s], ["", t], [s, ""]))
        r = c.run("patchdd", a, plan=rl)
        if snap(d) != before:
            c.fail("other files changed", "arguments %s changed files" % a)
        if r.rc == 0 and a not in (["-h"], ["--help"], ["-h", s], ["--help", s, t]):
            c.fail("missing file accepted", "exit 0 for arguments %s" % a)
        c.sig(kind, tuple(a)[:1], len(a))
    elif kind == "block":
        # emulated devices: sizes from the device, not from the file
        k = rng.choice((0, 512, 1 << 20, 512 * rng.randrange(1, 3000)))
        n = (n + 511) // 512 * 512
        src, dst, what = pair(rng, n, k)
        put(src, dst)
        pl = rng.choice((["blk T %d" % len(dst)], ["blk S %d" % n], ["blk T %d" % len(dst), "blk S %d" % n]))
        full(go(pl), "%s devices %s" % (note, pl))
        c.sig(kind, n, k, tuple(x[:5] for x in pl))
    if kind == "plain" and rng.random() < .25 and not c.problems:
        # an empty source
        src, n = b"", 0
        put(src, dst)
        full(go(), "empty source", noop=True)


def mixed(got, old, new):
    """every byte old or new"""
    if got == old or got == new:
        return True
    B = 4096
    for i in range(0, len(got), B):
        a, b, x = got[i:i + B], old[i:i + B], new[i:i + B]
        if a != b and a != x and any(p != q and p != r for p, q, r in zip(a, b, x)):
            return False
    return True


def huge(c, rng, s, t):
    """sparse files beyond 4 GiB"""
    n = (1 << 32) + rng.choice((5, 4096, 3 * M + 77))
    marks = sorted({rng.randrange(n) for _ in range(5)} | {0, n - 1, (1 << 32) - 1, 1 << 32, (1 << 31) - 1})
    tail = rng.randbytes(5000)
    with open(s, "wb") as f:
        f.truncate(n)
        for m in marks:
            f.seek(m)
            f.write(b"S")
    with open(t, "wb") as f:
        f.truncate(n)
        for m in marks[::2] + [rng.randrange(n) for _ in range(3)]:
            f.seek(m)
            f.write(b"D")
        f.seek(n)
        f.write(tail)
    r = c.run("patchdd", [s, t], variant="plain", timeout=150)
    c.sig("huge", n)
    if r.rc != 0:
        c.fail("failed", "source of %d bytes: exit %d\n%s" % (n, r.rc, r.tail()))
        return
    with open(s, "rb") as f, open(t, "rb") as g:
        off = 0
        while True:
            a, b = f.read(4 * M), g.read(4 * M)
            if off + len(a) == n:
                if b != a + tail[:len(b) - len(a)] or g.read() != tail[len(b) - len(a):]:
                    c.fail("wrong destination", "source of %d bytes: the last part at %d differs" % (n, off))
                break
            if a != b:
                i = next(i for i in range(len(a)) if a[i] != b[i])
                c.fail("wrong destination", "source of %d bytes: byte %d differs" % (n, off + i))
                break
            off += len(a)
    os.truncate(t, 0)
    c.count("huge")
