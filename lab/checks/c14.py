"""No input makes the tools crash, hang or violate memory safety."""
import os, re
from .. import ref, gen
from ..model import *
from . import c01, c08, c09, c12, c13, c04

RULE = ("each case feeds one tool malformed, adversarial or randomly mutated inputs - index, side-loaded index, stores, target, HTTP responses under forced "
        "segmentation, key files, list input, command lines, environment, failing I/O - and watches for sanitizer reports, failed assertions, signals and hangs; every "
        "tenth case repeats the run under valgrind memcheck on a build without sanitizers (uninitialised memory). Distinct by kind, exit status and input bytes")
ASSUMPTIONS = ["no leak checking: the tools exit without freeing on some paths, and the property does not cover leaks", "a run of more than 40 s counts as a hang"]
REQUIRE = {"runs": 800, "valgrind": 40}
VARIANTS = ["san", "plain"]
KINDS = ["mix", "index", "side", "http", "args", "cargs", "ctool", "pargs", "key", "iofault", "alg", "struct", "target", "rep", "url", "order", "long", "fmt", "bigent"]


def cases(tier):
    n = 150 if tier == "quick" else 2500
    return ["%s/%d" % (k, i) for i in range(n) for k in KINDS] + ["large/%d" % (i + 1) for i in range(n * 2 // 5)]


VG = ["valgrind", "-q", "--error-exitcode=78", "--leak-check=no", "--track-fds=no", "--num-callers=12", "--child-silent-after-fork=yes"]


def vrun(c, tool, args, **kw):
    """one run, and for some cases the same under valgrind"""
    if kw.get("plan") is None:
        kw["plan"] = []         # so that waits are not performed
    kw["env"] = dict(kw.get("env") or {}, RES_OPTIONS="timeout:1 attempts:1")
    vk = {k: v for k, v in kw.items() if k != "timeout"}
    r = c.run(tool, args, **kw)
    c.sig(tool, r.rc, args[:1], kw.get("stdin"), kw.get("plan"), c.key)
    c.count("exit_%s" % ("0" if r.rc == 0 else "nonzero"))
    if int(c.key.split("/")[1]) % 10 == 0:
        v = c.run(tool, args, variant="plain", wrapper=VG, timeout=150, crash_ok=True, **vk)
        c.count("valgrind")
        if v.hung:
            pass
        elif v.rc == 78 or re.search(rb"==\d+== (Conditional|Use of|Invalid|Syscall param|Source and dest|Argument|Mismatched)", v.err):
            m = re.search(rb"==\d+== \S", v.err)
            t = v.err[m.start() if m else 0:][:1200].decode("latin-1")
            if not foreign(t):
                c.fail("memcheck", "valgrind reports: %s" % t)
        elif v.rc < 0 and not v.killed:
            c.fail("abnormal end", "under valgrind: signal %d: %s" % (-v.rc, v.tail()))
    return r


def foreign(text):
    """a report whose frames all lie in libraries"""
    fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (\S+) \((.*?)\)", text)
    return bool(fr) and all(w.startswith("in /") for _, w in fr)


def blob(rng, n=None):
    w = rng.random()
    n = n if n is not None else rng.choice((0, 1, 3, 39, 40, 41, 64, 104, 200, 1000, 5000, 70000))
    if w < .3:
        return rng.randbytes(n)
    if w < .5:
        return bytes([rng.choice((0, 255, 0x28, 10))]) * n
    return gen.content(rng, n)


def havoc(rng, b, others=(), n=None):
    """AFL-like mutations"""
    b = bytearray(b)
    for _ in range(n or rng.choice((1, 2, 4, 8))):
        w = rng.randrange(9)
        if not b:
            b += rng.randbytes(5)
            continue
        p = rng.randrange(len(b))
        if w == 0:
            b[p] ^= 1 << rng.randrange(8)
        elif w == 1:
            b[p] = rng.choice((0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)))
        elif w == 2:
            k = rng.choice((1, 2, 4, 8))
            v = rng.choice((0, 1, -1, 1 << 31, (1 << 31) - 1, 1 << 32, 1 << 63, (1 << 63) - 1, rng.getrandbits(64), 262144, 262145, 40, len(b)))
            p = p // 8 * 8
            b[p:p + k] = (v & ((1 << 8 * k) - 1)).to_bytes(k, "little")
        elif w == 3:
            del b[p:p + rng.choice((1, 8, 40, 1000))]
        elif w == 4:
            b[p:p] = rng.randbytes(rng.choice((1, 8, 40)))
        elif w == 5:
            k = rng.choice((8, 32, 40))
            q = rng.randrange(len(b))
            b[p:p + k] = b[q:q + k]
        elif w == 6:
            q = rng.randrange(len(b))
            b[p:p] = b[q:q + rng.choice((8, 40, 80))]
        elif w == 7:
            del b[p:]
        elif others:
            o = rng.choice(others)
            b = b[:p] + o[min(p, len(o)):]
    return bytes(b)


def any_resp(rng, x, key=None):
    if rng.random() < .5:
        k = rng.choice([k for k in set(c09.KINDS) if k not in ("id", "big")])
        if k == "zeros" or x:
            body = c09.make(rng, k, x or b"ab")
        else:
            body = b""
    else:
        body = havoc(rng, ref.zc(x, checksum=rng.random() < .5))
    if key and rng.random() < .7:
        body = ref.xchacha(key, ref.sha(x), body)
    r = Resp(rng.choice((200, 200, 200, 200, 200, 206, 204, 301, 404, 500, 100, 999, 0)), body, mode=rng.choice(("cl", "chunked", "close")))
    if r.status in (100, 204, 0):
        r.mode = "close"
    w = rng.random()
    if w < .08:
        r.cut = rng.randrange(len(body) + 1)
        r.reset = rng.random() < .5
    elif w < .11:
        r.drop = True
    elif w < .16:
        r.raw = rng.choice((b"", b"\0" * 100, b"HTTP/1.1 200 OK\r\n\r\n" + body, b"HTTP/0.9\r\n\r\n", rng.randbytes(300), b"HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n" + body,
                            b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999\r\n\r\n" + body,
                            b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\n\r\n" + body, b"HTTP/1.1 302 x\r\nLocation: http://127.0.0.1:1/\r\n\r\n"))
    elif w < .19:
        r.cl = rng.choice((len(body) + 10, max(0, len(body) - 3), 0))
        r.mode = "cl"
        r.headers = ["Connection: close"]
        if r.cl > len(body):
            r.cut = len(body)
    return r


def base(rng, big=.04):
    prm = gen.params(rng, big)
    chunks = gen.image(rng, prm, rng.choice((1, 3, 8))) if rng.random() < .6 else gen.free_chunks(rng, rng.choice((1, 3, 7)))
    seq = gen.repeat(rng, chunks)
    return prm, chunks, seq, Scn(ref.entries_of(seq), prm, gen.target_for(rng, seq), chunks={ref.sha(x): x for x in chunks})


def words(c, rng, extra=()):
    return list(extra) + ["", "-", "--", "-h", "--help", "--store", "--store=", "--seed", "--seed=x", "--seed-output=1", "--seed-output", "extract", "make", "x" * 5000, "%s%n%x",
                          "http", "http:", "http://", "http://#", "https://#encrypt=", "http://127.0.0.1:1/", ":", "::", "a:b:c", "/", ".", "/dev/null", "/dev/zero", "/dev/full",
                          c.tmp, c.path("nope"), "http#", "http://127.0.0.1:1/#encrypt=key:" + "0" * 64, "crypt", "key:" + "1" * 64, "key:" + "1" * 65, "env:", "env:PATH",
                          "file:", "file:/dev/null", "a" * 64 + ".cacnk", "\xff\xfe", " ", "#", "http://127.0.0.1:1/#,,,", "http://127.0.0.1:1/#encrypt=file:/dev/zero"]


def large(c, rng, env):
    """files far larger than they should be"""
    n = rng.choice((1 << 20, 5 << 20, 9 << 20, 33 << 20, 80 << 20))
    prm, chunks, seq, scn = base(rng)

    def huge(path, head=b""):
        with open(path, "wb") as f:
            f.write(head)
            w = rng.randrange(3)
            if w == 0:
                f.truncate(n)       # zeros
            elif w == 1:
                f.write(rng.choice((b"a", b"0", b"\n", b"\xff")) * n)
            else:
                f.write(rng.randbytes(1 << 16) * (n >> 16))
        return path
    what = rng.choice(("key", "key", "index", "side", "local", "target", "toolin", "stdin", "resp", "resp", "env"))
    c.count("large_" + what)
    if what == "toolin":
        vrun(c, "csn-tool", ["crypt", "key:" + "ab" * 32, huge(c.path(rng.randbytes(32).hex() + ".cacnk")), rng.choice((c.path("out"), "/dev/null"))], env=env, timeout=80)
        return
    if what == "stdin":
        vrun(c, "csn-tool", ["crypt", "key:" + "ab" * 32], stdin=rng.choice((b"x", b"\n/", b"\0", b"/" * 4095 + b"\n", c.path("nope").encode() + b"\n")) * rng.choice((1000, 300000)), env=env, timeout=80)
        return
    if what == "key" and rng.random() < .3:
        vrun(c, "csn-tool", ["crypt", "file:" + huge(c.path("k"), rng.choice((b"", b"ab" * 32, b"ab" * 32 + b"\n"))), c.write(rng.randbytes(32).hex() + ".cacnk", b"x")], env=env, timeout=80)
        return
    scn.stores = [gen.http_all(chunks), Local(b"".join(chunks), ref.caibx(ref.entries_of(chunks), prm))]
    if rng.random() < .5:
        scn.stores.reverse()
    if what == "resp":
        # much more than the chunk can take; the server stops sending when nobody takes it
        a = gen.http_all(chunks)
        x = rng.choice(chunks)
        r = Resp(200, rng.choice((ref.zc(x), b"", ref.zc(bytes(1 << 16)), ref.zc(bytes(20 << 20)))) + rng.choice((b"", bytes(min(n, 9 << 20)))), mode=rng.choice(("cl", "chunked", "close")))
        a.table[ref.sha(x)] = [r]
        scn.stores = [a] + scn.stores
    if what in ("key", "env"):
        a = gen.http_all(chunks)
        a.keyspec = "file:" + huge(c.path("k"), rng.choice((b"", b"ab" * 32, b"ab" * 32 + b"\n"))) if what == "key" else "env:KK"
        env["KK"] = rng.choice(("a", "\n", "ab" * 32 + "\n")) * 120000
        env["KK"] = env["KK"][:120000]
        scn.stores = [a] + scn.stores
    args, p = setup(c, scn)
    if what == "index":
        huge(p["index"], rng.choice((b"", scn.index(), scn.index()[:64])))
    elif what == "target":
        huge(p["target"], rng.choice((b"", b"".join(chunks))))
    elif what in ("side", "local"):
        f = [a for a in args if not a.startswith("http")][0].split(":", 1)
        if what == "local":
            huge(f[0], rng.choice((b"", b"".join(chunks))))
        else:
            huge(f[1], rng.choice((b"", scn.index()[:64])))
    vrun(c, "csn", [p["index"], p["target"]] + args, env=env, timeout=80)


def bigent(c, rng, env):
    """entries about and beyond the largest chunk, in the index or beside a store, of which the target or the store has all the bytes"""
    prm, chunks, seq, scn = base(rng)
    chunks = list(dict.fromkeys(seq))[:4]
    for _ in range(rng.choice((1, 1, 2))):
        n = rng.choice((262143, 262144, 262145, 262145, 262144 + 64, 262144 + rng.randrange(1, 5000), 300000, 2 * 262144, 1 << 20, 5 << 20))
        chunks.insert(rng.randrange(len(chunks) + 1), rng.randbytes(1 << 12) * (n >> 12) + rng.randbytes(n & 4095))
    big = b"".join(chunks)
    ents = ref.entries_of(chunks)
    keep = rng.randrange(len(chunks) + 1)
    lead = b"".join(chunks[:keep])
    hole = bytearray(big)
    for (o, _), x in list(zip(ents, chunks))[:rng.randrange(3)]:
        # a chunk that is missing before one that is there
        if x:
            hole[o - 1] ^= 1
    scn.entries = ents
    scn.chunks = {ref.sha(x): x for x in chunks}
    scn.target = rng.choice((big, bytes(hole), bytes(hole), lead, lead + gen.complement(big[len(lead):]), bytes(len(big)), b"", bytes(hole) + bytes(300000)))
    side = ref.caibx(ents, prm)
    # a server has only what it could deliver, or all
    h = gen.http_all([x for x in chunks if len(x) <= 262144] if rng.random() < .6 else chunks)
    scn.stores = rng.choice(([h], [h, Target()], [Target(), h], [Local(big, side), h], [h, Local(big, side)], [Local(big, side), Target()], [Local(bytes(hole), side), h], [Local(lead, side)]))
    args, p = setup(c, scn)
    vrun(c, "csn", [p["index"], p["target"]] + args, env=env)


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    env = {"LOGLEVEL": rng.choice(("debug", "debug", "info", "err"))}
    if kind == "mix":
        scn, _ = c01.mix(rng)
        args, p = setup(c, scn)
        vrun(c, "csn", [p["index"], p["target"]] + args, env=env)
    elif kind == "index":
        prm, chunks, seq, scn = base(rng)
        b = scn.index()
        o = ref.caibx(ref.entries_of(gen.free_chunks(rng, 3)), prm)
        scn.raw_index = havoc(rng, b, [o])
        if rng.random() < .7:
            # keep the framing intact
            n = rng.randrange(6)
            body = havoc(rng, b[64:-40], [o[64:-40]])
            body = body[:len(body) // 40 * 40]
            ents = [(int.from_bytes(body[i:i + 8], "little"), body[i + 8:i + 40]) for i in range(0, len(body), 40)]
            scn.raw_index = ref.caibx(ents, prm)
        scn.stores = [rng.choice((Local(b"".join(chunks)), gen.http_all(chunks), Target(), Local(b"".join(chunks), b)))]
        if rng.random() < .5:
            scn.stores.append(gen.http_all(chunks))
        args, p = setup(c, scn)
        vrun(c, "csn", [p["index"], p["target"]] + args, env=env)
    elif kind == "side":
        prm, chunks, seq, scn = base(rng)
        data = b"".join(chunks)
        ents = ref.entries_of(chunks)
        side = ref.caibx(ents, prm)
        w = rng.randrange(4)
        if w == 0:
            side = havoc(rng, side)
        elif w == 1:
            body = havoc(rng, side[64:-40], [scn.index()[64:-40]])
            body = body[:len(body) // 40 * 40]
            side = ref.caibx([(int.from_bytes(body[i:i + 8], "little"), body[i + 8:i + 40]) for i in range(0, len(body), 40)], prm)
        elif w == 2:
            data = havoc(rng, data)
        else:
            o = 0
            out = []
            for _, i in ents:
                o += rng.choice((1, 100, 262144, 262145, 1 << 31, 1 << 32, (1 << 32) - 1))
                out.append((o, i))
            side = ref.caibx(out, prm)
        scn.stores = [Local(data, side), gen.http_all(chunks)]
        if rng.random() < .3:
            scn.stores.insert(0, Local(data[:3], side))
        args, p = setup(c, scn)
        vrun(c, "csn", [p["index"], p["target"]] + args, env=env)
    elif kind == "http":
        prm, chunks, seq, scn = base(rng)
        k = rng.randbytes(32) if rng.random() < .3 else None
        a = Http({ref.sha(x): [any_resp(rng, x, k) for _ in range(2)] for x in chunks}, key=k)
        if k:
            a.keyspec = rng.choice(("key:" + k.hex(), "env:K", "file:k"))
            env["K"] = k.hex()
            c.write("k", k.hex().encode())
        scn.stores = [a, gen.http_all(chunks)]
        args, p = setup(c, scn)
        plan = rng.choice((["csegs 1"], ["csegmax 7"], ["csegmax 1000"], ["csegs 4,1"], []))
        if rng.random() < .3:
            plan = plan + ["cperf * %d %d 28 %d" % (1, rng.randrange(1, 4), rng.choice((0, 1, 5, 60)))]
        vrun(c, "csn", [p["index"], p["target"]] + args, env=env, plan=["clowspeed 2"] + plan, timeout=80)
    elif kind == "args":
        prm, chunks, seq, scn = base(rng)
        scn.stores = [gen.http_all(chunks), Local(b"".join(chunks))]
        args, p = setup(c, scn)
        good = [p["index"], p["target"]] + args
        av = rng.choice((good[:], good[:rng.randrange(5)], []))
        for _ in range(rng.choice((0, 1, 1, 2, 4))):
            av.insert(rng.randrange(len(av) + 1), rng.choice(words(c, rng, good + [p["index"] + ":" + p["index"], p["target"] + ":" + p["index"]])))
        av = [x for x in av if x not in ("/dev/zero",)]
        vrun(c, "csn", av, env=dict(env, **rng.choice(({}, {}, {"CSN_KCAPI_DRIVER": "x"}, {"CSN_KCAPI_DRIVER": ""}, {"CSN_KCAPI_DRIVER": "y" * 300}))))
    elif kind == "cargs":
        prm, chunks, seq, scn = base(rng)
        scn.stores = [gen.http_all(chunks), Local(b"".join(chunks))] * rng.choice((1, 1, 4))
        args, p = setup(c, scn)
        av = []
        for x in args:
            av += rng.choice((["--store=" + x], ["--store", x], ["--seed=" + x], ["--seed", x]))
        av += ["extract", p["index"], p["target"]]
        for _ in range(rng.choice((0, 1, 1, 2, 4))):
            w = rng.randrange(3)
            if w == 0 and av:
                del av[rng.randrange(len(av))]
            else:
                av.insert(rng.randrange(len(av) + 1), rng.choice(words(c, rng, av)))
        if rng.random() < .2:
            av = av[:rng.randrange(4)]
        av = [x for x in av if x not in ("/dev/zero",)]
        vrun(c, "casync", av, env=env)
    elif kind == "ctool":
        d = c.path("d")
        os.mkdir(d)
        f = os.path.join(d, rng.randbytes(32).hex() + rng.choice((".cacnk", ".cacnk.enc", ".cacn", "")))
        open(f, "wb").write(blob(rng))
        k = "key:" + rng.randbytes(32).hex()
        av = rng.choice((["crypt", k, f], ["crypt", k, f, os.path.join(d, "out")], ["crypt", k, f, "-"], ["crypt", k], ["crypt"], []))
        for _ in range(rng.choice((0, 0, 1, 2))):
            av.insert(rng.randrange(len(av) + 1), rng.choice([x for x in words(c, rng, av) if x not in ("/dev/zero", "/dev/full", "/dev/null") and "zero" not in x]))
        stdin = rng.choice((b"", (f + "\n").encode(), b"\n\n\n", b"x" * 10000 + b"\n", rng.randbytes(200), ("/" * 4000 + f + "\n").encode(), (f[:-3] + "\0\n" + f).encode(),
                            (os.path.join(d, "./" * 2000) + os.path.basename(f) + "\n").encode(), b"\0" * 50, ("/" * (4095 - len(f)) + f).encode(), ("/" * (4091 - len(f)) + f).encode()))
        if rng.random() < .4:
            # names whose length is at the limit
            for n in rng.sample((4085, 4086, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4100, 8192), 4):
                f2 = d + "/" * max(1, n - len(d) - len(os.path.basename(f))) + os.path.basename(f)
                if rng.random() < .6:
                    vrun(c, "csn-tool", ["crypt", k, f2] + rng.choice(([], [], [f2 + "x"], ["-"])), cwd=d)
                else:
                    vrun(c, "csn-tool", ["crypt", k], stdin=f2.encode() + rng.choice((b"", b"\n")), cwd=d)
        vrun(c, "csn-tool", av, stdin=stdin, cwd=d)
    elif kind == "pargs":
        n = rng.choice((0, 1, 100, 4096, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 2 << 20))
        s = c.write("s", gen.content(rng, n))
        t = c.write("t", gen.content(rng, max(0, n + rng.choice((-1, 0, 0, 1, 5000)))))
        av = rng.choice(([s, t], [s, t], [s, s], [t], [], [s, t, "x"]))
        if rng.random() < .3:
            av.insert(rng.randrange(len(av) + 1), rng.choice(["", "-h", "--help", "/dev/null", c.tmp, c.path("nope"), "%s%n", "x" * 5000]))
        vrun(c, "patchdd", av, env=env, plan=rng.choice((None, ["role S " + s, "role T " + t, "short S r 500", "eintr T w 300"],
                                                       ["role S " + s, "role T " + t, "fail T %s %d %d 1" % (rng.choice("rw"), rng.choice((1, 2)), rng.choice((5, 28)))])))
    elif kind == "key":
        kf = c.write("k", rng.choice((blob(rng), rng.randbytes(32).hex().encode() + rng.choice((b"\n", b"\r\n\n", b"\0", b"\n\nabc", b"\nabc\n")), b"\n" * 1000, b"\xff" * 64,
                                      b"a" * 64, b"", b"\0" * 64, rng.randbytes(64))))
        e = dict(env, KK=rng.choice(("a" * 64, "", "g" * 64, "\x80" * 64, "a" * 100000)))
        ks = rng.choice(("file:" + kf, "env:KK", "key:" + rng.choice(("\x80" * 64, "a" * 64, "ab" * 40000, ""))))
        if rng.random() < .5:
            d = c.path("d")
            os.mkdir(d)
            f = os.path.join(d, rng.randbytes(32).hex() + ".cacnk")
            open(f, "wb").write(blob(rng))
            vrun(c, "csn-tool", ["crypt", ks, f], env=e)
        else:
            prm, chunks, seq, scn = base(rng)
            a = gen.http_all(chunks, b"\xaa" * 32)
            a.keyspec = ks
            scn.stores = [a]
            args, p = setup(c, scn)
            vrun(c, "csn", [p["index"], p["target"]] + args, env=e)
    elif kind == "large":
        large(c, rng, env)
    elif kind == "iofault":
        scn, _ = c01.mix(rng)
        args, p = setup(c, scn)
        rl = roles(p)
        names = [x.split()[1] for x in rl]
        plan = rl + ["seed %d" % rng.randrange(1 << 30)]
        for _ in range(rng.choice((1, 2, 3))):
            n = rng.choice(names)
            plan.append(rng.choice(("fail %s r %d %d %d" % (n, rng.randrange(1, 12), rng.choice((5, 0, 9)), rng.randrange(2)), "short %s r %d" % (n, rng.choice((200, 1000))),
                                    "eintr %s r 300" % n, "fail T w %d 28 %d" % (rng.randrange(1, 6), rng.randrange(2)), "openfail %s 1 %d" % (n, rng.choice((2, 13, 24))),
                                    "flip %s r %d %d" % (n, rng.randrange(1, 12), rng.randrange(4000)))))
        vrun(c, "csn", [p["index"], p["target"]] + args, env=env, plan=plan)
    elif kind == "alg":
        prm, chunks, seq, scn = base(rng)
        scn.stores = [Local(b"".join(chunks)), gen.http_all(chunks)]
        args, p = setup(c, scn)
        plan = roles(p) + ["alg 1", "seed %d" % rng.randrange(1 << 30)]
        plan += rng.choice((["algshort 500"], ["algeintr 200"], ["algfail %s %d %s %d" % (rng.choice(("send", "recv")), rng.randrange(1, 20), rng.choice(("err", "eintr", "short")),
                                                                                          rng.choice((0, 1, 5, 31)) or 5)], ["algfail %s 1 err 97" % rng.choice(("socket", "bind", "accept"))]))
        vrun(c, "csn", [p["index"], p["target"]] + args, env=dict(env, CSN_KCAPI_DRIVER="sha256"), plan=plan)
    elif kind == "struct":
        # degenerate structure
        prm = rng.choice(((16384, 65536, 262144), (1, 2, 3), (0, 1, 2), (0, 3, 4), (64, (1 << 31), (1 << 32) - 1), (0, 1 << 20, 1 << 21), (48, 49, 50), (1 << 31, (1 << 31) + 1, (1 << 32) - 1),
                          (rng.randrange(1 << 10), rng.randrange(1 << 10, 1 << 26), (1 << 32) - 1), (5, 700000 + rng.randrange(3000000), 1 << 30)))
        n = rng.choice((0, 1, 2, 3, 500))
        chunks = [bytes([rng.randrange(4)]) * rng.choice((1, 2)) for _ in range(n)]
        scn = Scn(ref.entries_of(chunks), prm, rng.choice((b"", bytes(3))), chunks={})
        scn.stores = [Local(rng.choice((b"", b"\1", b"\1" * 48, b"\1" * 49, bytes(200000), rng.randbytes(100000))), rng.choice((None, ref.caibx([], prm), scn.index()))),
                      rng.choice((gen.http_all(chunks), Local(b""), Target()))]
        args, p = setup(c, scn)
        vrun(c, "csn", [p["index"], p["target"]] + args, env=env)
    elif kind == "target":
        prm, chunks, seq, scn = base(rng)
        scn.target = rng.choice((blob(rng), havoc(rng, b"".join(seq))))
        scn.stores = rng.choice(([Target()], [Target(), gen.http_all(chunks)], [Target(), Local(b"".join(chunks)), Target(), gen.http_all(chunks)]))
        args, p = setup(c, scn)
        plan = roles(p)
        if rng.random() < .4:
            plan += ["poke T w %d %d %d 255 %s" % (rng.randrange(1, 6), rng.randrange(500), rng.randrange(1, 500), p["target"])]
        vrun(c, "csn", [p["index"], p["target"]] + args, env=env, plan=plan)
    elif kind == "rep":
        # same ids with other lengths
        prm, chunks, seq, scn = base(rng)
        ids = [ref.sha(x) for x in chunks[:3]]
        o, ents = 0, []
        for _ in range(rng.randrange(1, 30)):
            o += rng.choice((1, 2, len(chunks[0]), 100, 262144, 262145))
            ents.append((o, rng.choice(ids)))
        if rng.random() < .6:
            ents.insert(0, (0, ids[0]))
            ents = [(len(chunks[0]) + e, i) for e, i in ents]
        scn = Scn(ents, prm, gen.target_for(rng, seq))
        scn.stores = [rng.choice((Local(b"".join(chunks), ref.caibx(ents, prm)), Target())), gen.http_all(chunks)]
        args, p = setup(c, scn)
        vrun(c, "csn", [p["index"], p["target"]] + args, env=env)
    elif kind == "url":
        prm, chunks, seq, scn = base(rng)
        a = gen.http_all(chunks)
        scn.stores = [a]
        args, p = setup(c, scn)
        u = args[0]
        x = rng.choice((u + "/" * 3, u + "/" + "a" * rng.choice((100, 126, 127, 128, 129, 255, 256, 1000, 5000)), u.replace("http", "httpx"), u.replace("//", "/"), u + "%zz", u + "\xff", u + " ",
                        "http" + u[4:].replace("127", "[::1]"), "http://" + "h" * 300 + "/", "http://127.0.0.1:99999/", "http://127.0.0.1:0/", "http://user:pw@127.0.0.1:1/", u + "#", u + "##",
                        "httpfile", "http:///etc/passwd", u + "?q=1#encrypt=key:" + "a" * 64, "httpfile:" + p["index"]))
        vrun(c, "csn", [p["index"], p["target"], x] + rng.choice(([], [u])), env=env, plan=["csegmax 50"])
    elif kind == "fmt":
        # names with conversion specifiers in runs that end in all kinds of ways
        prm, chunks, seq, scn = base(rng)
        spec = rng.choice(("%s%s%s%s%s%s%n%n", "%n%n%n%n", "%1$s%200$s", "%s" * 20, "%99999d%n", "%*d%.*s%n%n%n", "%hhn%hhn%s%s", "%.5s%.99999999s%n"))
        data = b"".join(chunks)
        side = ref.caibx(ref.entries_of(chunks), prm)
        some = [x for x in chunks if rng.random() < .6]
        env["LOGLEVEL"] = rng.choice(("debug", "debug", "info", "warn"))
        plan = []

        def web():
            h = gen.http_all(some, suffix="/a" + spec)
            h.default = rng.choice((Resp(404), Resp(500), bad(b"x" * 50), Resp(200, b"")))
            return h

        def disk():
            d = rng.choice((data, gen.mutate(rng, data), data[:len(data) // 2], b"", None))
            q = c.path("l%d%s" % (rng.randrange(1 << 30), spec))
            return Local(d or b"", rng.choice((None, side, side[:-1], side, b"")), path=q, sidepath=rng.choice((None, q + ".i")))
        for _ in range(rng.choice((1, 1, 2, 3))):
            scn.stores.append(rng.choice((web, disk))())
        if rng.random() < .3:
            scn.stores.insert(0, Target())
        _, p = setup(c, scn)
        for s in scn.stores:
            if isinstance(s, Local) and s.path and rng.random() < .85:
                with open(s.path, "wb") as f:
                    f.write(s.data)
                if s.side is not None and s.sidepath:
                    with open(s.sidepath, "wb") as f:
                        f.write(s.side)
        for what in ("index", "target"):
            if rng.random() < .6:
                q = c.path(what + spec)
                if rng.random() < .9:
                    os.rename(p[what], q)
                p["args"] = [q if a == p[what] else a for a in p["args"]]
                p[what] = q
        if rng.random() < .4:
            # unusable or deactivated
            p["args"].insert(rng.randrange(len(p["args"]) + 1), rng.choice(("http://127.0.0.1:9000000/" + spec, "httpx://" + spec, "http://" + spec, "https://127.0.0.1:1/" + spec,
                                                                          p["args"][0].split("#")[0] + "#" + spec, p["args"][0].split("#")[0] + "#encrypt=" + spec,
                                                                          p["args"][0].split("#")[0] + "#encrypt=env:" + spec, p["args"][0].split("#")[0] + "#encrypt=file:" + c.path(spec), c.path(spec), spec)))
        if rng.random() < .4:
            plan += ["cperf * %d %d %d -1" % (rng.randrange(1, 4), rng.choice((3, 100000)), rng.choice((1, 3, 7, 18, 23, 28, 35, 52, 56, 60)))]
        if rng.random() < .3:
            plan += roles(p) + ["fail %s r %d %d %d" % (rng.choice([x.split()[1] for x in roles(p)]), rng.randrange(1, 8), rng.choice((5, 0)), rng.randrange(2))]
        if rng.random() < .15:
            env["CSN_KCAPI_DRIVER"] = spec
            plan += rng.choice((["alg 1"], ["alg 1", "algfail bind 1 err 2"], []))
        av = [p["index"], p["target"]] + p["args"]
        if rng.random() < .3:
            vrun(c, "casync", ["--store=" + x for x in p["args"]] + ["extract", p["index"], p["target"]] + rng.choice(([], [], [spec])), env=env, plan=plan)
        elif rng.random() < .85:
            vrun(c, "csn", av, env=env, plan=plan)
        elif rng.random() < .5:
            vrun(c, "patchdd", [p["index"] + rng.choice(("", spec)), p["target"] + rng.choice(("", spec))], env=env)
        else:
            vrun(c, "csn-tool", ["crypt", rng.choice(("key:" + "ab" * 32, "file:" + spec, "env:" + spec, spec)), rng.choice((c.path("0" * 64 + ".cacnk"), spec, "0" * 62 + spec + ".cacnk"))] + rng.choice(([], [c.path(spec)])),
                 env=env, stdin=(spec + "\n").encode())
    elif kind == "long":
        # names of any length that the system allows, for each file in turn
        prm, chunks, seq, scn = base(rng)
        data = b"".join(chunks)
        side = ref.caibx(ref.entries_of(chunks), prm)
        scn.stores = rng.choice(([Local(data, side)], [Local(data, side), Local(data, side)], [Local(data[:len(data) // 2], side), gen.http_all(chunks)], [Target(), Local(data)]))
        long_names(c, rng, scn)
        _, p = setup(c, scn)
        for what in ("index", "target"):
            if rng.random() < .5:
                q = long_path(c, rng)
                os.rename(p[what], q)
                p["args"] = [q if a == p[what] else a for a in p["args"]]
                p[what] = q
        if rng.random() < .6:
            vrun(c, "csn", [p["index"], p["target"]] + p["args"], env=env)
        else:
            vrun(c, "casync", ["--store=" + x for x in p["args"]] + ["extract", p["index"], p["target"]], env=env)
    elif kind == "bigent":
        bigent(c, rng, env)
    elif kind == "order":
        # many stores, beyond what the chain was sized for
        prm, chunks, seq, scn = base(rng)
        h = gen.http_all(chunks)
        scn.stores = [Local(b"".join(rng.sample(chunks, len(chunks))))] * rng.choice((1, 3, 9)) + [h]
        args, p = setup(c, scn)
        av = []
        for x in args:
            av += rng.choice((["--store=" + x], ["--store=" + x], ["--seed", x]))
        if rng.random() < .5:
            vrun(c, "casync", av + ["extract", p["index"], p["target"]], env=env)
        else:
            vrun(c, "csn", [p["index"], p["target"]] + args, env=env)
