"""Inputs are never modified and a missing target is never created."""
import os
from .. import ref, gen
from ..model import *
from . import c01, c12, c14

RULE = ("each case runs one tool in a scratch directory - succeeding, failing, killed, with faults, with odd command lines, with a missing target - and compares the whole "
        "directory tree (names, types, contents) before and after; only the existing target's contents and csn-tool's output may differ. Home and temporary directories are in that tree too. Opens that create files, writes, "
        "truncations and removals elsewhere are watched in the event log. Distinct by kind, tool, exit status and arguments")
ASSUMPTIONS = ["a local store that is the target under another name counts as the target"]
REQUIRE = {"runs": 800, "missing_target": 120, "inputs_compared": 3000}
KINDS = ["mix", "mix2", "fault", "kill", "missing", "missing2", "args", "cargs", "tool", "toolodd", "patchdd", "shared", "badindex", "key", "side"]


def cases(tier):
    n = 500 if tier == "quick" else 1500
    return ["%s/%d" % (k, i) for i in range(n) for k in KINDS]


def tree(d):
    out = {}
    for a, ds, fs in os.walk(d):
        for f in ds + fs:
            p = os.path.join(a, f)
            r = os.path.relpath(p, d)
            if r.startswith(".plan") or r.startswith(".log"):
                continue
            if os.path.islink(p):
                out[r] = "->" + os.readlink(p)
            elif os.path.isdir(p):
                out[r] = "dir"
            elif os.path.isfile(p):
                with open(p, "rb") as h:
                    out[r] = h.read()
            else:
                out[r] = "special"
    return out


def check(c, before, allowed, note, r=None):
    after = tree(c.tmp)
    ok = True
    for k in sorted(set(before) | set(after)):
        if k in allowed:
            if k in before and k not in after:
                c.fail("file removed", "%s: %s is gone" % (note, k))
            continue
        if k not in after:
            c.fail("file removed", "%s: %s is gone" % (note, k))
        elif k not in before:
            c.fail("file created", "%s: %s was created (%s)" % (note, k, len(after[k])))
        elif before[k] != after[k]:
            c.fail("input modified", "%s: %s changed from %d to %d bytes" % (note, k, len(before[k]), len(after[k])))
        else:
            c.count("inputs_compared")
            continue
        ok = False
    for e in (r.events if r is not None else ()):
        if e[0] == "O" and int(e[1]) >= 0 and int(e[2], 16) & os.O_CREAT and len(e) > 3:
            p = os.path.normpath(os.path.join(c.tmp, e[3]))
            if not p.startswith("/dev/") and os.path.relpath(p, c.tmp) not in allowed and os.path.relpath(os.path.realpath(p), c.tmp) not in allowed:
                c.fail("file created", "%s: opened %s for creation" % (note, p))
                ok = False
        elif e[0] == "T" and e[1] not in ("T", "O") or e[0] == "W" and e[1] not in ("T", "O") and int(e[4]) > 0:
            c.fail("input modified", "%s: %s" % (note, " ".join(e)))
            ok = False
    return ok


def missing(c, rng, p, note):
    """makes the target missing; returns its path"""
    os.unlink(p["target"])
    w = rng.choice(("gone", "gone", "gone", "dangling", "nodir", "empty", "dir", "slash"))
    t = p["target"]
    if w == "dangling":
        os.symlink(c.path("nothing"), t)
    elif w == "nodir":
        t = c.path("nodir/target")
    elif w == "empty":
        t = ""
    elif w == "dir":
        os.mkdir(t)
    elif w == "slash":
        t += "/"
    return t, w


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    if kind in ("tool", "toolodd"):
        return tool(c, rng, kind)
    if kind == "patchdd":
        return patchdd(c, rng)
    scn, _ = c01.mix(rng)
    if kind == "badindex":
        b = scn.index()
        scn.raw_index = rng.choice((b[:rng.randrange(len(b))], gen.mutate(rng, b), c14.havoc(rng, b), b""))
    if kind == "side":
        ch = list(scn.chunks.values())
        side = ref.caibx(ref.entries_of(ch), scn.params)
        scn.stores = [Local(gen.mutate(rng, b"".join(ch)), rng.choice((side, gen.mutate(rng, side), side[:-7]))), Local(b"".join(ch), side)] + scn.stores
    t = rng.choice(("csn", "csn", "casync"))
    if kind == "key":
        k = rng.randbytes(32)
        kf = c.write("keyfile", k.hex().encode() + rng.choice((b"", b"\n", b"\r\n\n")))
        h = gen.http_all(list(scn.chunks.values()), k)
        h.keyspec = "file:" + kf
        scn.stores = [h] + scn.stores
    args, p = setup(c, scn)
    rl = roles(p)
    note = "%s %s" % (kind, t)
    allowed = {"target"}
    if kind == "shared":
        # one file in several roles, none of them the target
        ch = list(scn.chunks.values())
        side = p["index"]
        args = [p["index"] + ":" + p["index"], p["index"]] + [a + ":" + p["index"] for a in args if not a.startswith("http") and ":" not in a and a != p["target"]]
        args += [p["target"]]
        p["args"] = args
    if kind in ("missing", "missing2"):
        tp, w = missing(c, rng, p, note)
        if kind == "missing2":
            # the stores alone could provide everything
            ch = list(scn.chunks.values())
            p["l9"] = c.write("l9", b"".join(ch))
            p["d9"] = c.write("d9", ref.caibx(ref.entries_of(ch), scn.params))
            p["args"] = rng.choice(([p["l9"] + ":" + p["d9"]], [tp, p["l9"] + ":" + p["d9"]], args + [tp or p["l9"]]))
        p["target"] = tp
        before = tree(c.tmp)
        r = csn(c, scn, p, plan=rl, tool=t)
        c.count("missing_target")
        if r.rc == 0:
            c.fail("missing target accepted", "%s: exit 0 although the target is missing (%s)" % (note, w))
        check(c, before, (), "%s, target %s" % (note, w), r)
        c.sig(kind, t, w, r.rc, len(p["args"]))
        c.sample("%s: target %s -> exit %d, nothing created" % (note, w, r.rc))
        return
    before = tree(c.tmp)
    if kind in ("args", "cargs"):
        av = ["--store=" + x for x in args] + ["extract", p["index"], p["target"]] if kind == "cargs" else [p["index"], p["target"]] + args
        words = [w for w in c14.words(c, rng, av) if w not in ("/dev/zero", "/dev/full", "/dev/null") and len(w) < 3000]
        for _ in range(rng.choice((1, 1, 2))):
            q = rng.randrange(3)
            if q == 0:
                del av[rng.randrange(len(av))]
            elif q == 1:
                av.insert(rng.randrange(len(av) + 1), rng.choice(words))
            else:
                # never moves another file into the target's place
                av.append(p["target"] if kind == "cargs" else rng.choice(words))
        # which argument is taken for the target depends on their number
        tgt = (av[1:2] if kind == "args" else av[-1:]) or [""]
        al = {os.path.relpath(os.path.realpath(os.path.join(c.tmp, tgt[0])), c.tmp)} | ({"target"} if tgt[0] == p["target"] else set())
        if kind == "cargs":
            # options behind the last word still count as options
            al |= {os.path.relpath(os.path.realpath(os.path.join(c.tmp, x)), c.tmp) for x in av[-3:] if not x.startswith("-")} - {"i.caibx"}
        r = c.run("csn" if kind == "args" else "casync", av, plan=["cperf * 1 1000000 7 -1"] if rng.random() < .3 else [], env={"RES_OPTIONS": "timeout:1 attempts:1"})
        check(c, before, al, "%s %s" % (note, av), r)
        c.sig(kind, r.rc, tuple(a[:9] for a in av if not a.startswith("/")))
        return
    plan = list(rl)
    if kind == "fault":
        names = [x.split()[1] for x in rl]
        for _ in range(rng.choice((1, 2))):
            n = rng.choice(names)
            plan.append(rng.choice(("fail %s r %d %d %d" % (n, rng.randrange(1, 12), rng.choice((5, 0, 9)), rng.randrange(2)), "openfail %s 1 %d" % (n, rng.choice((2, 13, 24))),
                                    "fail T w %d 28 %d" % (rng.randrange(1, 6), rng.randrange(2)), "short T w 900")))
    elif kind == "kill":
        plan.append("killop %d" % rng.randrange(1, 80))
    r = csn(c, scn, p, plan=plan, tool=t)
    check(c, before, allowed, note, r)
    c.sig(kind, t, r.rc, tuple(type(s).__name__ for s in scn.stores), len(scn.entries))


def tool(c, rng, kind):
    d = c.path("d")
    os.mkdir(d)
    cid, k = rng.randbytes(32), rng.randbytes(32)
    enc = rng.random() < .5
    f = os.path.join(d, cid.hex() + (".cacnk.enc" if enc else ".cacnk"))
    data = rng.randbytes(rng.choice((0, 1, 1000, 70000)))
    open(f, "wb").write(data)
    kf = c.write("kf", k.hex().encode() + b"\n")
    out = f[:-4] if enc else f + ".enc"
    ks = rng.choice(("file:" + kf, "key:" + k.hex()))
    plan = ["role N " + f, "role K " + kf]
    args, stdin = [ks, f], None
    allowed = {os.path.relpath(out, c.tmp)}
    if kind == "toolodd":
        w = rng.choice(("self", "symself", "keyout", "listself", "kill", "fault", "badkey", "badname", "minus", "existing", "hard"))
        if w == "self":
            args.append(f)
            allowed = set()
        elif w in ("symself", "hard"):
            o = os.path.join(d, "lnk")
            (os.symlink if w == "symself" else os.link)(f, o)
            args.append(o)
            allowed = set()
        elif w == "keyout":
            args.append(kf)
            allowed = set()
        elif w == "listself":
            args = [ks]
            stdin = (f + "\n" + out + "\n" + f + "\n").encode()
        elif w == "kill":
            plan.append("killop %d" % rng.randrange(1, 6))
        elif w == "fault":
            plan += rng.choice((["role O " + out, "fail O w 1 28 1"], ["fail N r 1 5 1"], ["fail K r 1 5 1"], ["openfail N 1 13"]))
        elif w == "badkey":
            args[0] = "key:" + k.hex()[:-1]
            allowed = set()
        elif w == "badname":
            g = os.path.join(d, "x" + os.path.basename(f))
            os.rename(f, g)
            args[1] = g
            allowed = set()
        elif w == "minus":
            args.append("-")
            allowed = set()
        else:
            open(out, "wb").write(b"old")
            allowed = set()
    else:
        w = ""
        if rng.random() < .3:
            args.append(os.path.join(d, "o"))
            allowed = {"d/o"}
    before = tree(c.tmp)
    r = c.run("csn-tool", ["crypt"] + args, plan=plan, stdin=stdin, cwd=d)
    check(c, before, allowed, "csn-tool %s %s" % (kind, w), r)
    c.sig(kind, w, r.rc, len(data), enc, len(args))


def patchdd(c, rng):
    n = rng.choice((0, 1, 5000, 70000))
    s, t = c.write("S", rng.randbytes(n)), c.path("T")
    w = rng.choice(("ok", "missing", "missing", "small", "kill", "fault"))
    allowed = {"T"}
    plan = ["role S " + s, "role T " + t]
    if w == "missing":
        allowed = set()
        q = rng.choice(("gone", "dangling", "nodir", "empty"))
        if q == "dangling":
            os.symlink(c.path("nothing"), t)
        elif q == "nodir":
            t = c.path("nodir/T")
        elif q == "empty":
            t = ""
    elif w == "small":
        n = max(n, 1)
        c.write("S", rng.randbytes(n))
        c.write("T", rng.randbytes(n - 1))
        allowed = set()
    else:
        c.write("T", rng.randbytes(n + rng.choice((0, 100))))
        plan += {"ok": [], "kill": ["killop %d" % rng.randrange(1, 7)], "fault": [rng.choice(("fail S r 1 5 1", "fail T w 1 28 1", "fail T r 1 5 1", "openfail S 1 13"))]}[w]
    before = tree(c.tmp)
    r = c.run("patchdd", [s, t], plan=plan)
    if w == "missing":
        c.count("missing_target")
    if w in ("missing", "small") and r.rc == 0:
        c.fail("missing target accepted", "patchdd: exit 0 with destination %s" % w)
    check(c, before, allowed, "patchdd %s" % w, r)
    c.sig("patchdd", w, r.rc, n)
