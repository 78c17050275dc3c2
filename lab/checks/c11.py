"""csn-tool crypt writes exactly the crypted input, once, and nothing else."""
import os, threading
from .. import ref, gen
from ..model import *

LEVEL = "fault_enumeration"
RULE = ("each case makes chunk files of random and boundary lengths in a scratch directory and runs csn-tool crypt in one form (derived output, given output, "
        "standard output, list on standard input, two lists at once on one directory, hundreds of names with few descriptors, the same or similar IDs one after the other; existing outputs; bad names; missing inputs), undisturbed or with short, interrupted or failing reads, "
        "writes and opens at each position; the whole directory is compared with the independent XChaCha20 afterwards. Distinct by form, name, lengths and fault")
ASSUMPTIONS = ["the independent XChaCha20", "errors reported only by close (network file systems) are not injected",
               "in list mode lines after a failing one may or may not be processed"]
REQUIRE = {"runs": 300, "outputs": 300, "faults": 60, "refused": 60}
FORMS = ["derived", "given", "stdout", "list", "exists", "badname", "missing", "twice", "short", "wfail", "rfail", "ofail", "listfail", "dest", "longname", "longline", "listpair"]


def cases(tier):
    n = 300 if tier == "quick" else 2000
    return ["%s/%d" % (k, i) for i in range(n) for k in FORMS] + ["%s/%d" % (k, i) for i in range(2 if tier == "quick" else 8) for k in ("bigfile", "longlist")]


LENS = (0, 0, 1, 2, 63, 64, 65, 127, 128, 129, 1000, 4095, 4096, 4097, 65536, 70001, 262144, 1048577)


SUBS = ("", "", "sub", "sub", "a.cacnk", "dir with space", "0000.enc", "#a", "#", ";", "~", "-x", "--help", "!x", "$HOME", '"q"', "'q'", "b\\c", "%s%n", "a,b", "@f", "\u00e9", " lead", "trail ", "t\tb", "a\rb", "=", "a:b",
        "key:", "...", "&", "|", "<", "`", "x" * 200)


def hidden(f):
    """cannot be named in a plan"""
    return any(ch in f for ch in " \t\r")


def snap(d):
    out = {}
    for a, ds, fs in os.walk(d):
        for f in ds:
            out[os.path.relpath(os.path.join(a, f), d)] = None
        for f in fs:
            p = os.path.join(a, f)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = "->" + os.readlink(p)
            else:
                with open(p, "rb") as h:
                    out[os.path.relpath(p, d)] = h.read()
    return out


def compare(c, note, want, got, optional=()):
    """optional: names that may be absent"""
    for k in sorted(set(want) | set(got)):
        if k in want and k in got:
            if want[k] != got[k]:
                a, b = want[k] or b"", got[k] or b""
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                c.fail("wrong contents", "%s: %s has %d bytes, expected %d; first difference at %d" % (note, k, len(b), len(a), i))
                return False
        elif k in got:
            c.fail("extra file", "%s: %s (%d bytes) should not be there" % (note, k, len(got[k] or b"")))
            return False
        elif k not in optional:
            c.fail("missing file", "%s: %s is missing" % (note, k))
            return False
    return True


def name(rng, up=True):
    cid = rng.choice((rng.randbytes(32), rng.randbytes(32), bytes(32), b"\xff" * 32))
    h = cid.hex()
    w = rng.random()
    if w < .2:
        h = h.upper()
    elif w < .3:
        h = "".join(ch.upper() if rng.random() < .5 else ch for ch in h)
    return cid, h


def badname(rng, h):
    ext = rng.choice((".cacnk", ".cacnk.enc"))
    w = rng.randrange(12)
    if w == 0:
        return h[:-1] + ext
    if w == 1:
        return h + "0" + ext
    if w == 2:
        i = rng.randrange(64)
        return h[:i] + rng.choice("gGxz_ -.@`~\xe9") + h[i + 1:] + ext
    if w == 3:
        return h + rng.choice((".cacn", ".CACNK", ".cacnk.", ".cacnk.en", ".cacnk.encc", ".cacnk.ENC", "cacnk", ".cacnkenc", ".enc", ".cacnk.enc.enc", ".cacnk "))
    if w == 4:
        return h[:rng.randrange(64)] + ext
    if w == 5:
        return h
    if w == 6:
        return ext
    if w == 7:
        return "x" * 64 + ext
    if w == 8:
        return h[:62] + "0x" + ext
    if w == 9:
        return ".cacnk" * 10 + h[:4] + ext
    if w == 10:
        i = rng.randrange(60)
        return h[:i] + ".enc" + h[i + 4:] + ext
    return h[:63] + "." + ext


def case(c, key):
    form = key.split("/")[0]
    rng = c.rng
    d = c.path("d")
    os.mkdir(d)
    k = rng.choice((rng.randbytes(32), rng.randbytes(32), bytes(32)))
    ks = "key:" + k.hex()
    if form == "bigfile":
        sizes = [20_000_000]
    elif form == "longlist":
        sizes = [rng.choice((0, 1, 60, 200, 5000)) for _ in range(rng.choice((300, 1100)))]
    else:
        sizes = [rng.choice(LENS) if rng.random() < .7 else rng.randrange(5000) for _ in range(rng.choice((1, 1, 2, 4, 12)) if form.startswith("list") else 1)]
    sub = rng.choice(SUBS)
    if sub:
        os.mkdir(os.path.join(d, sub))
    files = []
    for n in sizes:
        cid, h = name(rng)
        enc = rng.random() < .4
        data = rng.randbytes(n)
        where = sub
        if files and rng.random() < .4:
            # the same chunk once more, in another directory, or an id that begins like another
            old = rng.choice((files[-1], files[-1], rng.choice(files)))[4]
            cid = old[:rng.choice((8, 16, 16, 23, 24, 24, 31, 32, 32, 32))]
            cid += rng.randbytes(32 - len(cid))
            h = cid.hex()
        if any(x[4] == cid for x in files):
            where = os.path.join(sub, "d%d" % len(files))
            os.mkdir(os.path.join(d, where))
        f = os.path.join(where, h + (".cacnk.enc" if enc else ".cacnk"))
        with open(os.path.join(d, f), "wb") as o:
            o.write(data)
        files.append((f, f[:-4] if enc else f + ".enc", data, ref.xchacha(k, cid, data), cid))
    f, out, data, want, cid = files[0]
    absolute = rng.random() < .5
    P = (lambda x: os.path.join(d, x)) if absolute else (lambda x: rng.choice(("", "./")) + x)
    before = snap(d)
    note = "%s, %d bytes, %s" % (form, len(data), f)
    plan = []

    lvl = rng.choice(("info", "info", "debug", None, "err", "bogus"))

    # many files, few descriptors
    few = ["/bin/sh", "-c", 'ulimit -n 40; exec "$0" "$@"'] if form == "longlist" else None

    def run(args, stdin=None, plan=None):
        return c.run("csn-tool", ["crypt", ks] + args, stdin=stdin, cwd=d, plan=plan, env={"LOGLEVEL": lvl}, wrapper=few)

    if form in ("derived", "bigfile"):
        r = run([P(f)])
        exp = dict(before, **{out: want})
    elif form == "given":
        o = rng.choice(("out", os.path.join(sub, "o.bin"), out + ".x", f + "x"))
        r = run([P(f), P(o)])
        exp = dict(before, **{o: want})
    elif form == "stdout":
        if rng.random() < .3:
            # a file called like that in the way
            with open(os.path.join(d, "-"), "wb") as h:
                h.write(b"x")
            before = snap(d)
        r = run([P(f), "-"])
        exp = before
        if r.rc == 0 and r.out != want[:400_000 if len(want) > 400_000 else None] and len(want) < 390_000:
            c.fail("wrong contents", "%s: standard output has %d bytes, expected %d" % (note, len(r.out), len(want)))
    elif form == "listpair":
        # several runs over the same files at once
        runs, ts = [], []
        for _ in range(rng.choice((2, 2, 3, 4))):
            order = [P(x[0]) for x in files]
            if rng.random() < .5:
                rng.shuffle(order)
            ts.append(threading.Thread(target=lambda b: runs.append(run([], stdin=b)), args=("".join(x + "\n" for x in order).encode(),)))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        r = next((x for x in runs if x.rc == 0), runs[0])
        exp = dict(before, **{x[1]: x[3] for x in files})
        c.count("at_once", len(runs))
        if r.rc != 0 and not c.problems:
            c.fail("failed", "%s: all of %d runs at once exit non-zero\n%s" % (note, len(runs), r.tail()))
    elif form in ("list", "listfail", "longlist"):
        lines = [P(x[0]) for x in files]
        bad = None
        if form == "listfail":
            w = rng.choice(("missing", "badname", "write"))
            bad = rng.randrange(len(lines))
            if w == "missing":
                os.unlink(os.path.join(d, files[bad][0]))
                before = snap(d)
            elif w == "badname":
                lines[bad] = lines[bad][:-1]
            else:
                plan = ["role O " + lines[bad].removesuffix(".enc") if lines[bad].endswith(".enc") else "role O " + lines[bad] + ".enc", "openfail O 1 13"]
                if hidden(plan[0][7:]):
                    return
        nl = rng.choice(("\n", "\n", "\r\n"))
        r = run([], stdin=(nl.join(lines) + ("" if rng.random() < .4 else nl)).encode(), plan=plan or None)
        exp = dict(before)
        opt = set()
        for i, x in enumerate(files):
            if bad is not None and i >= bad:
                opt.add(x[1])
            if i != bad:
                exp[x[1]] = x[3]
        if bad is not None:
            c.count("faults")
            if r.rc == 0:
                c.fail("error ignored", "%s: exit 0 although line %d of %d cannot be processed (%s)" % (note, bad + 1, len(lines), w))
        elif r.rc != 0 and not c.problems:
            c.fail("failed", "%s: exit %d\n%s" % (note, r.rc, r.tail()))
        compare(c, note, exp, snap(d), opt)
        c.count("outputs", len(files))
        c.sig(form, len(files), tuple(len(x[2]) for x in files), bad)
        return
    elif form == "exists":
        o = out if rng.random() < .6 else "other"
        w = rng.choice(("data", "empty", "right", "input", "dir"))
        if w == "input":
            o = f
        elif w == "dir":
            os.mkdir(os.path.join(d, o))
        else:
            with open(os.path.join(d, o), "wb") as h:
                h.write({"data": rng.randbytes(77), "empty": b"", "right": want}[w])
        before = snap(d)
        if o == out and w != "input" and rng.random() < .5:
            r = run([], stdin=(P(f) + "\n").encode())
        else:
            r = run([P(f)] if o == out else [P(f), P(o)])
        compare(c, note + " existing output (%s)" % w, before, snap(d))
        c.sig(form, w, o == out, len(data))
        c.count("outputs")
        return
    elif form == "badname":
        b = badname(rng, ref.sha(data).hex())
        if "/" in b or "\0" in b:
            return
        bp = os.path.join(sub, b)
        if len(b) > 250 or bp in before:
            return
        with open(os.path.join(d, bp), "wb") as h:
            h.write(data)
        before = snap(d)
        how = rng.choice((0, 1, 2, 3))
        r = run([P(bp)] if how == 0 else [P(bp), "out"] if how == 1 else [P(bp), "-"] if how == 2 else [], stdin=(P(bp) + "\n").encode("latin-1") if how == 3 else None)
        c.count("refused")
        if r.rc == 0:
            c.fail("bad name accepted", "%s: exit 0 for %r" % (note, b))
        if how == 2 and r.out and len(data):
            c.fail("bad name accepted", "%s: wrote %d bytes to standard output for %r" % (note, len(r.out), b))
        compare(c, note, before, snap(d))
        c.sig(form, how, b[60:])
        return
    elif form == "longname":
        # a path whose length is about what the system allows
        n = rng.choice((4080, 4085, 4086, 4087, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4100, rng.randrange(4080, 4105)))
        base = os.path.basename(f)
        pre = os.path.join(d, sub) if rng.random() < .5 else sub or "."
        fill = n - len(os.fsencode(pre)) - len(base)
        pad = "/" * fill if rng.random() < .5 else ("/." * fill)[:(fill - 1) // 2 * 2] + "//"[:1 + (fill - 1) % 2]
        f2 = pre + pad + base
        if len(os.fsencode(f2)) != n:
            raise Exception("length %d, not %d" % (len(f2), n))
        how = rng.choice(("arg", "arg", "list", "given", "stdout"))
        if how == "given":
            r = run([f2, "out"])
            exp = dict(before, out=want)
            may = n < 4096
        elif how == "stdout":
            r = run([f2, "-"])
            exp = before
            may = n < 4096
            if r.rc == 0 and len(want) < 390_000 and r.out != want:
                c.fail("wrong contents", "%s: standard output has %d bytes, expected %d" % (note, len(r.out), len(want)))
        else:
            r = run([f2]) if how == "arg" else run([], stdin=f2.encode() + rng.choice((b"", b"\n", b"\r\n")))
            exp = dict(before, **{out: want})
            may = n < 4096 and (f.endswith(".enc") or n + 4 < 4096)
        if not may:
            exp = before
            c.count("refused")
        c.count("outputs", may)
        if (r.rc == 0) != may:
            c.fail("failed" if may else "error ignored", "%s: exit %d for a path of %d characters (%s)\n%s" % (note, r.rc, n, how, r.tail()))
        compare(c, "%s, path of %d characters, %s" % (note, n, how), exp, snap(d))
        c.sig(form, n, how, len(data))
        return
    elif form == "longline":
        w = rng.choice(("dir", "wronly", "two", "two", "none"))
        if w == "two":
            # one line, which is not the names of two files
            g = os.path.join(sub, rng.randbytes(32).hex() + ".cacnk")
            with open(os.path.join(d, g), "wb") as h:
                h.write(b"y")
            before = snap(d)
            n = rng.choice((1023, 1024, 2048, 4094, 4095, 4096, 8191, 65535)) - len(os.fsencode(f)) - 2
            if n < 0:
                return
            line = "./" + "/" * n + f + g
            r = run([], stdin=line.encode() + rng.choice((b"", b"\n")))
            # if it is not too long this is one name in a directory that does not exist
        elif w == "none":
            r = run([], stdin=b"")
        else:
            # a list that cannot be read
            c.write("list", (P(f) + "\n").encode())
            c.count("faults")
            r = c.run("csn-tool", ["crypt", ks], cwd=d, streams={"stdin": "null"}, env={"LOGLEVEL": lvl},
                      wrapper=["/bin/sh", "-c", 'exec "$0" "$@" ' + ("< ." if w == "dir" else "0>> ../list")])
        if not r.crash and (r.rc == 0) != (w == "none"):
            c.fail("error ignored" if w != "none" else "failed", "list (%s): exit %d\n%s" % (w, r.rc, r.tail()))
        compare(c, "%s, list (%s)" % (note, w), before, snap(d))
        c.sig(form, w, len(data), f)
        c.count("refused")
        return
    elif form == "missing":
        os.unlink(os.path.join(d, f))
        if rng.random() < .3:
            os.mkdir(os.path.join(d, f))
        before = snap(d)
        r = run(rng.choice(([P(f)], [P(f), "out"], [P(f), "-"])))
        c.count("refused")
        if r.rc == 0:
            c.fail("error ignored", "%s: exit 0 without input" % note)
        compare(c, note, before, snap(d))
        c.sig(form)
        return
    elif form == "twice":
        r = run([P(f), "mid"])
        b2 = snap(d)
        c.path("d")
        # the crypted file under the same id
        os.rename(os.path.join(d, "mid"), os.path.join(d, "x" + os.path.basename(f)))
        os.mkdir(os.path.join(d, "back"))
        os.rename(os.path.join(d, "x" + os.path.basename(f)), os.path.join(d, "back", os.path.basename(f)))
        r = run([os.path.join("back", os.path.basename(f)), "again"])
        exp = dict(before, **{"back": None, os.path.join("back", os.path.basename(f)): want, "again": data})
    elif form == "short":
        o = os.path.join(d, "out")
        plan = ["role N " + os.path.join(d, f), "role O " + o, "seed %d" % rng.randrange(1 << 30)]
        if hidden(f):
            plan = plan[1:]
        else:
            plan += ["short N r %d" % rng.choice((100, 900)), "eintr N r %d" % rng.choice((0, 400))]
        plan += ["short O w %d" % rng.choice((100, 900)), "eintr O w %d" % rng.choice((0, 400))]
        r = run([os.path.join(d, f), o], plan=plan)
        c.count("faults", len(r.ev("H")) + len(r.ev("E")))
        exp = dict(before, out=want)
    elif form in ("wfail", "rfail", "ofail"):
        if hidden(f):
            return
        inp = os.path.join(d, f)
        o = rng.choice((os.path.join(d, "out"), os.path.join(d, out)))
        args = [inp, o] if not o.endswith(out) or rng.random() < .5 else [inp]
        roles = ["role N " + inp, "role O " + o]
        plan = roles + ["seed %d" % rng.randrange(1 << 30)]
        if form == "wfail":
            if not data:
                return
            if rng.random() < .5:
                plan += ["short O w 1000"]
                plan += ["fail O w %d %d %d" % (rng.choice((1, 2, 3)), rng.choice((28, 5, 27, 122)), rng.randrange(2))]
            else:
                plan += ["fail O w 1 %d %d" % (rng.choice((28, 5)), rng.randrange(2))]
        elif form == "rfail":
            if not data:
                return
            plan += ["short N r 700", "fail N r %d %d 1" % (rng.choice((1, 1, 2)), rng.choice((5, 5, 0)))]
        else:
            plan += ["openfail %s 1 %d" % (rng.choice("NO"), rng.choice((13, 28, 24)))]
        r = run(args, plan=plan)
        hit = bool(r.ev("F"))
        got = snap(d)
        rel = os.path.relpath(o, d)
        if hit:
            c.count("faults")
            if r.rc == 0:
                c.fail("error ignored", "%s: exit 0 in spite of %s" % (note, plan[3:]))
            if rel in got and got[rel] != want:
                c.fail("partial output", "%s: %d of %d bytes left behind in the output after %s" % (note, len(got[rel]), len(want), plan[3:]))
            got.pop(rel, None)
            compare(c, note, before, got)
            if not c.problems:
                # and now without the fault
                r = c.run("csn-tool", ["crypt", ks] + args, cwd=d)
                if r.rc != 0:
                    c.fail("failed", "%s: rerun exits %d\n%s" % (note, r.rc, r.tail()))
                compare(c, note + ", rerun", dict(before, **{rel: want}), snap(d))
            c.sig(form, tuple(plan[3:]), len(data))
            c.count("outputs")
            return
        exp = dict(before, **{rel: want})
    elif form == "dest":
        # the output cannot be created, or the stream is full
        w = rng.choice(("nodir", "full", "isfile"))
        if w == "full":
            if not data:
                return
            r = c.run("/bin/sh", ["-c", 'exec "$0" "$@" >/dev/full', os.path.join(core_bin(), "csn-tool"), "crypt", ks, os.path.join(d, f), "-"], cwd=d)
        elif w == "nodir":
            r = run([P(f), "nodir/out"])
        else:
            r = run([P(f), P(f) + "/out"])
        c.count("faults")
        if r.rc == 0:
            c.fail("error ignored", "%s: exit 0 with output %s" % (note, w))
        compare(c, note, before, snap(d))
        c.sig(form, w, len(data))
        return
    if r.rc != 0 and not c.problems:
        c.fail("failed", "%s: exit %d\n%s" % (note, r.rc, r.tail()))
        return
    compare(c, note, exp, snap(d))
    c.count("outputs")
    c.sig(form, len(data), f[-10:], bool(sub), absolute)
    c.sample(note)


def core_bin():
    from .. import core
    return core.BINS["san"]
