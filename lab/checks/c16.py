"""Hashing through the kernel crypto API gives the same results as software hashing."""
from .. import ref, gen
from ..model import *
from . import c01
from .c15 import compare

LEVEL = "fault_enumeration"
RULE = ("each case runs a scenario (matching and hostile stores, wrong targets, side-loaded indices) with software hashing and then with CSN_KCAPI_DRIVER set and an AF_ALG "
        "socket emulated at the libc boundary: undisturbed, accepting data in parts, interrupted, and with an error, an interruption or a wrong-sized digest at single sends and "
        "receives; status, target and requests must equal those of the software run. Set-up failures must end the run before the target or a server is touched. "
        "Distinct by kind, fault, position and scenario size")
ASSUMPTIONS = ["the emulated socket behaves as the kernel documents AF_ALG hashes (MSG_MORE, digest on receive, state reset afterwards); the sandbox has no AF_ALG"]
REQUIRE = {"runs": 600, "kernel_digests": 1000, "faults": 250, "setup_failures": 30}
KINDS = ["plain", "parts", "fault", "fault", "fault", "first", "multi", "setup", "hostile"]


def cases(tier):
    n = 200 if tier == "quick" else 700
    return ["%s/%d" % (k, i) for i in range(n) for k in dict.fromkeys(KINDS)] + ["fault/%d" % (n + i) for i in range(n)]


def fault(rng, ns, nr):
    if rng.random() < .5 and ns:
        w = rng.choice(("err", "err", "errs", "eintr", "short"))
        return "algfail send %d %s %d" % (rng.randrange(1, ns + 1), w, rng.choice((5, 12, 32, 11, 107, 22, 16, 105, 110, 74)) if w != "eintr" and w != "short" else rng.choice((1, 2, 63, 64, 65, 1000)))
    w = rng.choice(("err", "errs", "eintr", "short", "short"))
    return "algfail recv %d %s %d" % (rng.randrange(1, nr + 1), w, rng.choice((5, 12, 11, 22, 107, 16, 105, 110, 74)) if w != "eintr" and w != "short" else rng.choice((0, 1, 16, 20, 31)))


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    if kind == "hostile":
        # ids that differ in one bit from the data's
        prm = gen.params(rng, 0)
        chunks = gen.free_chunks(rng, rng.choice((1, 3)))
        ids = [ref.sha(x) for x in chunks]
        n = rng.randrange(len(chunks))
        ids[n] = gen.near(rng, ids[n])
        scn = Scn(ref.entries_of(chunks, ids), prm, b"", chunks=dict(zip(ids, chunks)))
        scn.stores = [rng.choice((Http({i: ok(x) for i, x in zip(ids, chunks)}), Local(b"".join(chunks), ref.caibx(ref.entries_of(chunks, ids), prm))))]
    elif kind == "first":
        # everything is already there: only the prefix is hashed
        prm = gen.params(rng, .1)
        chunks = gen.image(rng, prm)
        scn = Scn(ref.entries_of(chunks), prm, b"".join(chunks), chunks={ref.sha(x): x for x in chunks})
        scn.stores = [Http()]
    else:
        scn, _ = c01.mix(rng)
    _, p = setup(c, scn)
    rl = roles(p)

    def go(plan, driver):
        c.write("target", scn.target)
        for s in scn.stores:
            if isinstance(s, Http):
                s.n = {}
                s.log.clear()
        r = csn(c, scn, p, plan=rl + plan, env={"CSN_KCAPI_DRIVER": driver})
        c.count("kernel_digests", len(r.ev("AR")))
        c.count("faults", len(r.ev("AF")) + len(r.ev("AE")))
        return r, c.read("target"), [[(m, u) for m, u, _ in s.log] for s in scn.stores if isinstance(s, Http)]
    if kind == "setup":
        w = rng.choice(("socket", "bind", "accept", "name"))
        if w == "name":
            r, t, q = go(["alg 1"], "x" * rng.choice((64, 65, 200)))
        else:
            r, t, q = go(["alg 1", "algfail %s 1 err %d" % (w, rng.choice((97, 2, 12, 13, 22, 24)))], rng.choice(("sha256", "sha256-generic")))
        c.count("setup_failures")
        if r.rc == 0:
            c.fail("set-up failure ignored", "exit 0 although the kernel interface could not be set up (%s)" % w)
        if t != scn.target or r.ev("W", "T"):
            c.fail("target modified", "the target was written although the kernel interface could not be set up (%s)" % w)
        c.sig(kind, w, len(scn.entries), t)
        return
    soft = go([], None)
    if soft[0].crash:
        return
    if soft[0].ev("AO"):
        c.fail("kernel used", "the kernel interface was used without CSN_KCAPI_DRIVER")
    drv = rng.choice(("sha256", "sha256-generic", "sha256-caam", "x" * 63))
    plain = go(["alg 1"], drv)
    compare(c, soft, plain, "kernel hashing")
    ns, nr = len(plain[0].ev("AS")), len(plain[0].ev("AR"))
    c.sig(kind, "plain", soft[0].rc, ns, nr)
    if kind == "plain":
        c.sample("%d entries: %d sends and %d digests through the emulated kernel, exit %d as with software" % (len(scn.entries), ns, nr, soft[0].rc))
    if kind == "parts" or kind == "first":
        for pl in (["algshort %d" % rng.choice((200, 1000))], ["algeintr %d" % rng.choice((100, 500))], ["algshort 600", "algeintr 300"]):
            compare(c, soft, go(["seed %d" % rng.randrange(1 << 30), "alg 1"] + pl, drv), "kernel hashing with %s" % pl)
            c.sig(kind, tuple(pl), ns)
    if kind in ("fault", "hostile", "first", "multi") and nr:
        for _ in range(4):
            f = [fault(rng, ns, nr) for _ in range(rng.choice((2, 3)) if kind == "multi" else 1)]
            if rng.random() < .3:
                f += ["algshort 400", "seed %d" % rng.randrange(1 << 30)]
            r = go(["alg 1"] + f, drv)
            compare(c, soft, r, "kernel hashing with %s" % f)
            c.sig(kind, tuple(f[:1]), ns, len(scn.entries))
