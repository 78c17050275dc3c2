"""Logging, terminal and progress display never change the outcome."""
import os, re
from .. import ref, gen
from ..model import *
from . import c01
from .c15 import compare, again
from .c17 import pair

RULE = ("each case runs a generated scenario (or patchdd, or csn-tool) in the default environment and in others: all log levels, unknown, empty and very long ones, standard "
        "streams that are terminals, files, closed, full, hung up or without a reader, and compares exit status, target and requests; what a terminal receives is parsed and the "
        "percentages must not decrease, not exceed 100 and end at 100 in a successful run. Distinct by kind, log level, streams, outcome and number of entries")
ASSUMPTIONS = ["a reader that closes a pipe is outside the property unless SIGPIPE is ignored", "the display is off at log level debug by design"]
VARIANTS = ["san", "plain"]
REQUIRE = {"runs": 700, "terminal_runs": 150, "progress_values": 1500, "closed": 80, "full": 80, "unsuccessful": 30, "tool_outputs": 30, "left": 60}
KINDS = ["mix", "mix", "fail", "count", "names", "pdd", "resume", "casync", "tool"]
LEVELS = ["debug", "info", "warn", "warning", "err", "error", None, "", "DEBUG", "trace", "0", "-1", "%s%s%n", "infoinfo", "x" * 5000, "\xff\xfe", "4", "info "]
STREAMS = ["pipe", "pty", "closed", "/dev/full", "FILE", "null"]
PROG = re.compile(rb"\x1b\[0G\[(.)\] \|(.{60})\| *(\d+)%")


def cases(tier):
    n = 60 if tier == "quick" else 500
    sw = ["sweep/%d" % i for i in range(20 if tier == "quick" else 150)] + ["psweep/%d" % i for i in range(8 if tier == "quick" else 40)]
    return sw + ["big/%d" % i for i in range(2 if tier == "quick" else 6)] + ["%s/%d" % (k, i) for i in range(n) for k in dict.fromkeys(KINDS)] + ["mix/%d" % (n + i) for i in range(n)]


def envs(c, k):
    rng = c.rng
    for i in range(k):
        lvl = rng.choice(LEVELS)
        st = {x: rng.choice(STREAMS) for x in ("stdin", "stdout", "stderr")}
        if i == 0:
            st["stdout"] = "pty"
            lvl = rng.choice((None, "info", "warn", "bogus", "error"))
        if i == 1:
            st = {x: "closed" for x in ("stdin", "stdout", "stderr") if rng.random() < .7}
        if i == 2:
            st = dict(stdout="/dev/full", stderr="/dev/full")
        if i == 3:
            # whoever looks at the output leaves, at once or in between
            for x in rng.choice((("stdout",), ("stdout",), ("stderr",), ("stdout", "stderr"))):
                st[x] = "%s:%d" % (rng.choice(("hup", "hup", "gone")), rng.choice((0, 1, 1, 50, 90, 300, 1000)))
        if "pty" in st.values() and rng.random() < .6:
            # windows of all sizes
            st["window"] = "%dx%d" % (rng.choice((0, 1, 2, 5, 10, 14, 15, 16, 17, 20, 40, 60, 75, 76, 79, 80, 81, 120, 128, 132, 200, 250, 256, 300, 500, 1000, 65535)), rng.choice((0, 1, 24, 65535)))
        yield lvl, {x: (c.path("stream-" + x) if v == "FILE" else v) for x, v in st.items()}, surroundings(rng)


def surroundings(rng):
    """variables terminals and shells set"""
    e = {}
    if rng.random() < .5:
        e["TERM"] = rng.choice((None, "", "dumb", "xterm-256color", "vt100", "unknown-terminal", "linux"))
    if rng.random() < .4:
        e["COLUMNS"] = rng.choice(("0", "1", "10", "16", "80", "300", "100000", "-1", "", "x"))
        e["LINES"] = rng.choice(("0", "1", "24", "-1", ""))
    if rng.random() < .3:
        e[rng.choice(("LANG", "LC_ALL", "LC_NUMERIC", "LANGUAGE"))] = rng.choice(("C", "POSIX", "C.UTF-8", "de_DE.UTF-8", "tr_TR", "nonsense", ""))
    if rng.random() < .2:
        e["TZ"] = rng.choice(("UTC", "Asia/Kathmandu", ":/etc/localtime", "nonsense"))
    if rng.random() < .3:
        e[rng.choice(("NO_COLOR", "FORCE_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "COLORTERM", "CI", "DEBUG", "VERBOSE", "QUIET"))] = rng.choice(("1", "0", ""))
    if rng.random() < .2:
        e.update(rng.choice(({"JOURNAL_STREAM": "8:1"}, {"INVOCATION_ID": "x", "NOTIFY_SOCKET": ""}, {"MALLOC_PERTURB_": "170"})))
    return e

def progress(c, r, ok, n, lvl, st, tool="csn", end=False):
    """what the terminal saw"""
    if st.get("stdout") != "pty" or r.crash:
        return
    c.count("terminal_runs")
    vals = [int(m[2]) for m in PROG.findall(r.out)]
    c.count("progress_values", len(vals))
    note = "%s, log level %s, %d steps" % (tool, lvl and lvl[:20], n)
    if any(v > 100 for v in vals):
        c.fail("progress", "%s: the display shows %d %%" % (note, max(vals)))
    if any(a > b for a, b in zip(vals, vals[1:])):
        c.fail("progress", "%s: the percentage decreases: %s" % (note, vals[:50]))
    if vals and lvl == "debug" and tool == "csn":
        c.count("shown_at_debug")
    if ok and n and not (lvl == "debug" and tool == "csn"):
        if not vals:
            c.fail("progress", "%s: no progress display on a terminal in a successful run" % note)
        elif vals[-1] != 100:
            c.fail("progress", "%s: successful run, last value %d %%" % (note, vals[-1]))
    if not ok and vals and vals[-1] == 100 and end:
        c.fail("progress", "%s: 100 %% shown in a run that failed before the end" % note)


def tally(c, lvl, st):
    c.count("closed", "closed" in st.values())
    c.count("full", "/dev/full" in st.values())
    c.count("left", any(v.startswith(("hup:", "gone:")) for v in st.values()))


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    if kind == "big":
        return big(c, rng)
    if kind == "sweep":
        return sweep(c, rng, int(key.split("/")[1]))
    if kind == "psweep":
        return psweep(c, rng, int(key.split("/")[1]))
    if kind == "pdd":
        return pdd(c, rng)
    if kind == "tool":
        return tool_(c, rng)
    if kind in ("mix", "casync"):
        scn, _ = c01.mix(rng)
    else:
        prm = gen.params(rng, .1)
        n = rng.choice((1, 2, 3, 7, 99, 100, 101, 255, 256, 257, 300, 656, 1000)) if kind == "count" else rng.choice((2, 5, 9))
        chunks = [rng.randbytes(rng.randrange(1, 300)) for _ in range(min(n, 12))] if kind == "count" else gen.free_chunks(rng, n)
        order = [rng.choice(chunks) for _ in range(n)] if kind == "count" else chunks
        scn = Scn(ref.entries_of(order), prm, gen.target_for(rng, order), chunks={ref.sha(x): x for x in order})
        some = order
        if kind == "fail":
            some = [x for x in chunks if rng.random() < .7]
        if kind == "resume":
            scn.target = b"".join(order[:rng.randrange(len(order) + 1)])
        scn.stores = [gen.http_all(some)]
        if rng.random() < .4:
            scn.stores.insert(0, Target())
        if rng.random() < .3:
            scn.stores.insert(0, Local(b"".join(some), ref.caibx(ref.entries_of(some), prm)))
    _, p = setup(c, scn)
    if kind == "names":
        # long and odd file names end up in messages
        nm = rng.choice(("%s%n%d", "a" * 200, "\x1b[31m", "%" * 100, "a\nb", "%-200s%1$s"))
        ip = c.path(nm)
        os.rename(p["index"], ip)
        p["index"] = ip
        if rng.random() < .4:
            os.unlink(ip)
    rl = roles(p) if kind != "names" else None
    tool = "casync" if kind == "casync" else "csn"

    def go(lvl, st, more={}):
        c.write("target", scn.target)
        for s in scn.stores:
            if isinstance(s, Http):
                s.n = {}
                s.log.clear()
        r = csn(c, scn, p, plan=rl, tool=tool, env={"LOGLEVEL": lvl, **more}, streams=st)
        return r, c.read("target"), [[(m, u) for m, u, _ in s.log] for s in scn.stores if isinstance(s, Http)]
    base = go(None, None)
    if base[0].crash:
        return
    ok = base[0].rc == 0
    c.count("unsuccessful", not ok)
    for lvl, st, more in envs(c, 6 if c.tier == "thorough" else 4):
        b = go(lvl, st, more)
        tally(c, lvl, st)
        compare(c, base, b, "LOGLEVEL=%r %s %s" % (lvl and lvl[:20], {k: v.split("/")[-1] for k, v in st.items()}, more))
        check_exact(c, scn, b[0], b[1])
        progress(c, b[0], ok, len(scn.entries), lvl, st)
        c.sig(kind, lvl, tuple(sorted((k, v.split("/")[-1]) for k, v in st.items())), b[0].rc, len(scn.entries))
    c.sample("%s: %d entries, exit %d, same in %d environments" % (kind, len(scn.entries), base[0].rc, 4))


def pdd(c, rng):
    n = rng.choice((0, 1, 512, 1 << 20, (1 << 20) + 1, rng.randrange(5 << 20)))
    src, dst, what = pair(rng, n)
    if rng.random() < .2:
        dst = dst[:n // 2]
    s, t = c.write("S", src), c.write("T", dst)
    base = c.run("patchdd", [s, t], env={"LOGLEVEL": None})
    want = c.read("T")
    if base.crash:
        return
    c.count("unsuccessful", base.rc != 0)
    for lvl, st, more in envs(c, 4):
        c.write("T", dst)
        r = c.run("patchdd", [s, t], env={"LOGLEVEL": lvl, **more}, streams=st)
        tally(c, lvl, st)
        if not r.crash and (r.rc == 0) != (base.rc == 0):
            c.fail("status differs", "patchdd LOGLEVEL=%r %s: exit %d, by default %d\n%s" % (lvl and lvl[:20], st, r.rc, base.rc, r.tail()))
        if c.read("T") != want:
            c.fail("target differs", "patchdd LOGLEVEL=%r %s: another destination" % (lvl and lvl[:20], st))
        progress(c, r, base.rc == 0, (n + (1 << 20) - 1) >> 20, lvl, st, "patchdd")
        c.sig("pdd", lvl, tuple(sorted((k, v.split("/")[-1]) for k, v in st.items())), r.rc, n)


def tool_(c, rng):
    """csn-tool: the same status, files and data on standard output everywhere"""
    d = c.path("d")
    os.mkdir(d)
    names = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        x = rng.randbytes(rng.choice((0, 1, 64, 1000, 4096, 70000)))
        names.append(rng.randbytes(32).hex() + rng.choice((".cacnk", ".cacnk.enc")))
        with open(os.path.join(d, names[-1]), "wb") as f:
            f.write(x)
    args = ["crypt", "key:" + rng.randbytes(32).hex()]
    form = rng.choice(("-", "-", "-", "given", "derived", "list", "missing", "badkey"))
    stdin = None
    if form == "list":
        stdin = "".join(x + "\n" for x in names).encode()
    elif form == "missing":
        args += [rng.randbytes(32).hex() + ".cacnk", rng.choice(("-", "out"))]
    elif form == "badkey":
        args[1] = rng.choice(("key:00", "key", "env:NOSUCH", "file:nosuch"))
        args += [names[0], "-"]
    else:
        args += [names[0]] + {"-": ["-"], "given": ["out"], "derived": []}[form]
    inputs = set(names)

    def go(lvl, st, more={}):
        for x in os.listdir(d):
            if x not in inputs:
                os.unlink(os.path.join(d, x))
        st = dict(st or {})
        if stdin is not None:
            st.pop("stdin", None)
        f = st.get("stdout")
        if f and f.startswith(c.tmp) and os.path.exists(f):
            os.unlink(f)
        r = c.run("csn-tool", args, stdin=stdin, cwd=d, env={"LOGLEVEL": lvl, **more}, streams=st)
        o = r.out if st.get("stdout", "pipe") == "pipe" else open(f, "rb").read() if f.startswith(c.tmp) else None
        return r, {x: open(os.path.join(d, x), "rb").read() for x in os.listdir(d)}, o
    base = go(None, None)
    if base[0].crash:
        return
    c.count("unsuccessful", base[0].rc != 0)
    for lvl, st, more in envs(c, 5):
        w = rng.random()
        if w < .6:
            # the data must arrive
            st = dict(st, stdout=rng.choice(("pipe", c.path("stream-stdout"))))
        if form == "-" and st.get("stdout", "").startswith(("closed", "/dev/full", "hup:", "gone:")):
            continue
        b = go(lvl, st, more)
        tally(c, lvl, st)
        note = "csn-tool %s LOGLEVEL=%r %s" % (form, lvl and lvl[:20], {k: v.split("/")[-1] for k, v in st.items()})
        if not b[0].crash and (b[0].rc == 0) != (base[0].rc == 0):
            c.fail("status differs", "%s: exit %d, by default %d\n%s" % (note, b[0].rc, base[0].rc, b[0].tail()))
        if b[1] != base[1]:
            c.fail("files differ", "%s: other files" % note)
        if b[2] is not None and b[2] != base[2]:
            c.fail("output differs", "%s: %d bytes on standard output, by default %d" % (note, len(b[2]), len(base[2])))
        c.count("tool_outputs", b[2] is not None and len(b[2]) > 0)
        c.sig("tool", form, lvl, tuple(sorted((k, v.split("/")[-1]) for k, v in st.items())), b[0].rc)


def big(c, rng):
    """many entries"""
    n = rng.choice((65536, 65537, 70000, 131073))
    x = rng.randbytes(1)
    scn = Scn(ref.entries_of([x] * n), (1024, 2048, 4096), b"", chunks={ref.sha(x): x})
    scn.stores = [gen.http_all([x])]
    scn.target = x * rng.choice((0, n // 2, n))
    _, p = setup(c, scn)
    st = {"stdout": "pty"}
    r = csn(c, scn, p, env={"LOGLEVEL": None}, streams=st, timeout=120, variant="plain")
    check_exact(c, scn, r, c.read("target"))
    if r.rc != 0 and not r.crash:
        c.fail("status differs", "%d entries of one byte, on a terminal: exit %d\n%s" % (n, r.rc, r.tail()))
    progress(c, r, r.rc == 0, n, None, st)
    c.sig("big", n, r.rc)


def sweep(c, rng, k):
    """every number of entries from 1 on, and larger ones; most values are reached by some part of the sweep"""
    few = list(range(20 * k + 1, 20 * k + 21)) if k < 60 else []
    for n in few + [rng.randrange(400, 3000) for _ in range(4)]:
        xs = [rng.randbytes(rng.randrange(1, 4)) for _ in range(rng.choice((1, 2, 5)))]
        order = [rng.choice(xs) for _ in range(n)]
        have = rng.choice((0, n, n, n // 2, max(0, n - 1)))
        scn = Scn(ref.entries_of(order), (1024, 2048, 4096), b"".join(order[:have]), chunks={ref.sha(x): x for x in order})
        scn.stores = [gen.http_all(order)]
        if rng.random() < .5:
            scn.stores.insert(0, Target())
        _, p = setup(c, scn)
        st = {"stdout": "pty"}
        r = csn(c, scn, p, env={"LOGLEVEL": rng.choice((None, "warn", "error"))}, streams=st, variant="plain")
        check_exact(c, scn, r, c.read("target"))
        if r.rc != 0 and not r.crash:
            c.fail("status differs", "%d entries, on a terminal: exit %d\n%s" % (n, r.rc, r.tail()))
        progress(c, r, r.rc == 0, n, None, st, end=True)
        c.sig("sweep", n)


def psweep(c, rng, k):
    for mb in range(8 * k, 8 * k + 8):
        n = (mb << 20) + rng.choice((0, 1, -1, 4096, rng.randrange(1 << 20)))
        if n < 0:
            continue
        for f in "ST":
            with open(c.path(f), "wb") as h:
                h.truncate(n)
                if rng.random() < .5 and n:
                    h.seek(rng.randrange(n))
                    h.write(b"x")
                    h.truncate(n)
        st = {"stdout": "pty"}
        r = c.run("patchdd", [c.path("S"), c.path("T")], env={"LOGLEVEL": None}, streams=st, variant="plain")
        if r.rc != 0 and not r.crash:
            c.fail("status differs", "patchdd of %d bytes on a terminal: exit %d\n%s" % (n, r.rc, r.tail()))
        progress(c, r, r.rc == 0, (n + (1 << 20) - 1) >> 20, None, st, "patchdd")
        c.sig("psweep", n)
