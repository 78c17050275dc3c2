"""Keys: one meaning in all forms, strict syntax, never disclosed."""
import os
from .. import ref, gen
from ..model import *

RULE = ("each case gives a key text in one form (key:, env:, file:) to csn, casync or csn-tool: valid ones in all three forms must do the same, invalid ones "
        "(from a strict grammar: exactly 64 hex digits, a key file may end in line breaks) must be refused without request, output or change of the target; "
        "everything printed at a random log level, and every request, is searched for pieces of the key. Distinct by tool, form, kind of key text and log level")
ASSUMPTIONS = ["a piece is 8 or more hex digits of the key in either case, or 6 or more of its bytes"]
REQUIRE = {"runs": 300, "accepted": 100, "rejected": 200, "scanned_bytes": 10000}
LEVELS = ["debug", "debug", "info", "warn", "err", None, "verbose", "DEBUG", "4", "7", "", "all"]


def cases(tier):
    n = 600 if tier == "quick" else 3000
    return ["%s/%d" % (k, i) for i in range(n) for k in ("valid", "invalid", "toolvalid", "toolinvalid", "attr", "leak")]


def hexcase(rng, k):
    h = k.hex()
    w = rng.random()
    return h if w < .5 else h.upper() if w < .7 else "".join(x.upper() if rng.random() < .5 else x for x in h)


def invalid_text(rng, h):
    """(text, kind): never 64 hex digits"""
    w = rng.randrange(15)
    i = rng.randrange(64)
    if w == 0:
        return h[:-1], "63"
    if w == 1:
        return h + rng.choice("0a"), "65"
    if w == 2:
        return h[:rng.choice((0, 1, 2, 16, 32, 62))], "short"
    if w == 3:
        return h + h, "128"
    if w == 4:
        return h[:i] + rng.choice("gGhzxX/:@[`{~!- ._") + h[i + 1:], "char"
    if w == 5:
        return " " + h, "lead"
    if w == 6:
        return h + " ", "trail"
    if w == 7:
        return "0x" + h, "0x"
    if w == 8:
        return "0x" + h[2:], "0x64"
    if w == 9:
        return h[:i] + chr(rng.randrange(128, 255)) + h[i + 1:], "high"
    if w == 10:
        return h[:-1] + rng.choice("\t \x0b\x7f"), "ctrl"
    if w == 11:
        return h + rng.choice((";", "=", "==", "h", "-")), "suffix"
    if w == 12:
        return h[:i] + chr(rng.choice((0x10 + rng.randrange(10), 0x1a, 0x11))) + h[i + 1:], "ctl"
    if w == 13:
        return "", "empty"
    return ("key:" + h), "nested"


def spec(c, rng, form, text, env, breaks=""):
    if form == "key":
        return "key:" + text
    if form == "env":
        n = "K%d_%d" % (rng.randrange(1000), len(env))
        env[n] = text
        return "env:" + n
    p = c.path("key%d" % rng.randrange(1 << 30) + rng.choice(("", "", "", "#", "#1", ".#encrypt=x", " key", "%23", ":", "=", "\u00e9?&")))
    with open(p, "wb") as f:
        f.write((text + breaks).encode("latin-1"))
    return "file:" + p


def bad_spec(c, rng, h, env):
    """an invalid keyspec and its kind"""
    w = rng.random()
    if w < .6:
        form = rng.choice(("key", "env", "file"))
        t, kind = invalid_text(rng, h)
        if form == "key" and "\0" in t:
            t = t[:-1]
        return spec(c, rng, form, t, env, rng.choice(("", "\n")) if form == "file" else ""), form + " " + kind
    if w < .72:
        # files that have the digits and more
        t, kind = rng.choice(((h + "\n" + h, "two keys"), (h + "\n# key", "comment"), (h + "\nx", "second line"), (h + "\n\n" + h + "\n", "gap"), (h + "\r\n" + h[:5] + "\r\n", "dos lines"),
                              (h + "\n \n", "blank"), (h + "\n\t", "tab"), ("\n" + h, "line first"), ("# key\n" + h, "comment first"), (h[:32] + "\n" + h[32:], "wrapped"),
                              (h[:32] + "\n" + h[32:] + "\n", "wrapped"), (h + "\0", "NUL"), (h + "\0\n", "NUL"), (h + "\n\0", "NUL"), (h + "\0" + h, "NUL"), (h + "\0junk\n", "NUL"),
                              ("\0" + h, "NUL"), (h + "\r" + h, "cr"), ("\r\n" + h + "\r\n", "line first"), ("\ufeff".encode().decode("latin-1") + h, "mark"), (h + "\n\x1a", "dos end"),
                              (h + "\x0b", "vt"), (h + "\x0c\n", "ff"), (h + "\n" + "0" * 5000, "long"), (h + "\0" * 4096, "page")))
        return spec(c, rng, "file", t, env), "file " + kind
    return rng.choice((("env:NOSUCHVARIABLE", "env missing"), ("file:" + c.path("nosuchfile"), "file missing"), ("file:" + c.tmp, "file dir"), ("file:", "file empty name"),
                       ("env:", "env empty name"), (h, "no form"), ("hex:" + h, "unknown form"), ("KEY:" + h, "upper form"), ("", "nothing"), ("key", "no colon"),
                       ("file:/dev/null", "device"), (" key:" + h, "space"), ("keys:" + h, "long form"), ("key=" + h, "equals"), ("ey:" + h, "cut form"),
                       ("file:" + c.write("e", b""), "empty file"), ("file:" + c.write("nl", b"\n"), "blank file"), ("file:" + c.write("bin", os.urandom(32).replace(b"\n", b"x")), "raw")))


def scan(c, r, k, reqs, note):
    blob = r.out + b"\n" + r.err
    for q in reqs:
        blob += b"\n" + ("%s %s %s" % (q[0], q[1], " ".join(q[2]))).encode("latin-1")
    c.count("scanned_bytes", len(blob))
    low = blob.lower()
    h = k.hex().encode()
    for i in range(0, 64 - 7):
        if h[i:i + 8] in low:
            j = low.index(h[i:i + 8])
            c.fail("disclosed", "%s: digits %d.. of the key appear in the output or a request: ...%r" % (note, i, blob[max(0, j - 100):j + 20]))
            return
    if len(set(k)) > 8:
        for i in range(32 - 5):
            if k[i:i + 6] in blob:
                c.fail("disclosed", "%s: bytes %d.. of the key appear in the output or a request" % (note, i))
                return


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    k = rng.randbytes(32)
    h = hexcase(rng, k)
    env = {"LOGLEVEL": rng.choice(LEVELS)}
    breaks = rng.choice(("", "\n", "\r\n", "\n\n", "\r", "\r\n\r\n", "\n" * 5000))
    if kind in ("toolvalid", "toolinvalid"):
        d = c.path("d")
        os.mkdir(d)
        cid = rng.randbytes(32)
        data = rng.randbytes(rng.choice((0, 1, 100, 5000)))
        f = os.path.join(d, cid.hex() + ".cacnk")
        open(f, "wb").write(data)
        stdin = None
        args = rng.choice(([f], [f, os.path.join(d, "out")], [f, "-"], []))
        if not args:
            stdin = (f + "\n").encode()
        if kind == "toolvalid":
            for form in ("key", "env", "file"):
                for x in os.listdir(d):
                    if os.path.join(d, x) != f:
                        os.unlink(os.path.join(d, x))
                r = c.run("csn-tool", ["crypt", spec(c, rng, form, h, env, breaks)] + args, env=env, stdin=stdin)
                note = "csn-tool, %s form, line break %r, LOGLEVEL %r" % (form, breaks, env["LOGLEVEL"])
                want = ref.xchacha(k, cid, data)
                new = [x for x in os.listdir(d) if os.path.join(d, x) != f]
                if args[1:] == ["-"]:
                    got = r.out
                else:
                    got = open(os.path.join(d, new[0]), "rb").read() if len(new) == 1 else None
                if r.rc != 0 or got != want:
                    if not c.problems:
                        c.fail("key misread", "%s: exit %d, %s output\n%s" % (note, r.rc, "wrong" if got is not None else "no", r.tail()))
                if args[1:] != ["-"]:
                    scan(c, r, k, [], note)
                c.count("accepted")
                c.sig("tool", form, breaks, env["LOGLEVEL"], len(args))
        else:
            sp, what = bad_spec(c, rng, h, env)
            r = c.run("csn-tool", ["crypt", sp] + args, env=env, stdin=stdin)
            new = [x for x in os.listdir(d) if os.path.join(d, x) != f]
            if r.rc == 0 or new:
                c.fail("bad key accepted", "csn-tool took %s (%r): exit %d, new files %r" % (what, sp[:100], r.rc, new))
            if args[1:] == ["-"] and r.out and data:
                c.fail("bad key accepted", "csn-tool wrote to standard output with %s (%r)" % (what, sp[:100]))
            c.count("rejected")
            c.sig("tool", what)
        return
    chunks = list(dict.fromkeys(gen.free_chunks(rng, 3, sizes=(20, 100, 500))))
    a = gen.http_all(chunks, k)
    t0 = rng.randbytes(300)
    scn = Scn(ref.entries_of(chunks), (64, 256, 1024), t0, [a], chunks={ref.sha(x): x for x in chunks})
    tool = rng.choice(("csn", "casync"))
    if kind == "valid":
        b = None
        if rng.random() < .5:
            # several stores with the same key or one of its own, in the same or another form
            kb = k if rng.random() < .5 else rng.randbytes(32)
            b = gen.http_all(chunks, kb)
            for x in rng.sample(chunks, rng.randrange(1, len(chunks) + 1)):
                a.table.pop(ref.sha(x), None)
            scn.stores.append(b)
        for form in ("key", "env", "file"):
            a.keyspec = spec(c, rng, form, h, env, breaks)
            if b:
                if kb != k:
                    b.keyspec = spec(c, rng, form if rng.random() < .7 else rng.choice(("key", "env", "file")), hexcase(rng, kb), env, rng.choice(("", "\n")))
                else:
                    b.keyspec = a.keyspec if rng.random() < .6 else spec(c, rng, rng.choice(("key", "env", "file")), h, env, "")
            _, p = setup(c, scn)
            c.write("target", t0)
            r = csn(c, scn, p, env=env, tool=tool)
            note = "%s, %s form, line break %r, LOGLEVEL %r" % (tool, form, breaks, env["LOGLEVEL"])
            if r.rc != 0 and not c.problems:
                c.fail("key misread", "%s: exit %d\n%s" % (note, r.rc, r.tail()))
            check_exact(c, scn, r, c.read("target"))
            scan(c, r, k, a.log + (b.log if b else []), note)
            if b and kb != k:
                scan(c, r, kb, [], note)
            c.count("accepted")
            c.count("shared_keys", bool(b) and kb == k)
            c.count("two_keys", bool(b) and kb != k)
            c.sig(tool, bool(b), form, breaks, env["LOGLEVEL"])
        return
    if kind == "leak":
        # runs that fail or warn in many ways
        form = rng.choice(("key", "key", "env", "file"))
        a.keyspec = spec(c, rng, form, h, env, breaks)
        w = rng.randrange(9)
        extra = None
        plan = []
        if w == 0:
            a.table, a.default = {}, Resp(500)
        elif w == 1:
            a.table = {}
        elif w == 2:
            a.table = {i: bad(b"nonsense") for i in a.table}
        elif w == 3:
            plan = ["cperf * 1 11 %d -1" % rng.choice((6, 7, 28))]
        elif w == 4:
            a.table = {i: Resp(200, ref.zc(x)) for i, x in scn.chunks.items()}
        elif w == 5:
            a.keyspec += rng.choice((",foo=1", ",encrypt=key:12", ",", ",x"))
        elif w == 6:
            a.suffix = rng.choice(("/" + "d" * 200, "?x=%20", "/%s%n%d", "/a b"))
        elif w == 7:
            plan = ["cperf * 1 1 %d -1" % rng.choice((1, 3, 35, 56, 18, 52, 60, 27))]
        _, p = setup(c, scn)
        if w == 8:
            p["args"].append(rng.choice(("http://127.0.0.1:1/#nonsense", c.path("missing"), "http://127.0.0.1:1/#encrypt=key:00")))
        r = csn(c, scn, p, env=env, tool=tool, plan=["csegmax 0"] + plan)
        check_exact(c, scn, r, c.read("target"))
        scan(c, r, k, a.log, "%s, %s form, situation %d, LOGLEVEL %r, exit %d" % (tool, form, w, env["LOGLEVEL"], r.rc))
        c.sig(tool, form, w, env["LOGLEVEL"], r.rc)
        return
    # invalid: key text or attributes
    if kind == "invalid":
        a.keyspec, what = bad_spec(c, rng, h, env)
        if "," in a.keyspec:
            return
        tail = None
    else:
        good = "encrypt=key:" + h
        tail, what = rng.choice((("encrypt", "no value"), ("encrypt:" + h, "colon"), ("Encrypt=key:" + h, "case"), ("foo", "unknown"), ("foo=bar", "unknown"),
                                 ("foo=1," + good, "unknown first"), (good + ",foo=1", "unknown last"), (good + ",foo", "unknown last"), ("encrypt=", "empty"),
                                 ("encrypt=" + h, "no form"), (" " + good, "space"), ("encrypted=key:" + h, "longer"), ("key:" + h, "no attribute"),
                                 (good + ",encrypt=key:" + h[:-2], "second bad"),
                                 (good + "#", "trailing #"), ("#" + good, "second #"), (good + "#" + good, "attributes twice"), ("foo=1#" + good, "unknown before #"),
                                 (good + "#foo=1", "unknown behind #"), (good + "#,", "comma behind #")))
    others = rng.random() < .5
    if others:
        scn.stores.append(gen.http_all(chunks))
        if tail is None and rng.random() < .5:
            # an encrypted one whose key is fine, in the same form
            k2 = rng.randbytes(32)
            scn.stores[-1] = gen.http_all(chunks, k2)
            scn.stores[-1].keyspec = spec(c, rng, next((x for x in ("env", "file") if a.keyspec.startswith(x)), "key"), k2.hex(), env)
    if rng.random() < .3:
        scn.stores.reverse()
    _, p = setup(c, scn)
    if tail is not None:
        p["args"] = [x.split("#")[0] + "#" + tail if "#" in x else x for x in p["args"]]
    r = csn(c, scn, p, env=env, tool=tool)
    nreq = sum(len(s.log) for s in scn.stores)
    after = c.read("target")
    if r.rc == 0 or nreq or after != t0:
        c.fail("bad key accepted", "%s took %s (%r): exit %d, %d requests, target %s" %
               (tool, what, p["args"][0][-90:], r.rc, nreq, "changed" if after != t0 else "unchanged"))
    c.count("rejected")
    c.sig(tool, what)
    c.sample("%s: %s -> exit %d" % (tool, what, r.rc))
