"""casync extract behaves like csn with the same stores."""
from .. import ref, gen
from ..model import *
from . import c01

RULE = ("each case runs a generated scenario (any mix of local, side-loaded, HTTP, encrypted and target stores, up to 12 of them) with csn and then with casync in several "
        "spellings of the options, from the same initial state, and compares status class, final target and the requests of every server; other cases run malformed command "
        "lines, which must leave the target alone and, except for a request for help, exit non-zero. Distinct by kind, option forms, number of stores and outcome")
ASSUMPTIONS = ["without any store casync may exit 0 if the target is complete, which csn's usage does not allow", "abbreviated options are not tried"]
REQUIRE = {"runs": 900, "pairs": 400, "malformed": 300}
KINDS = ["pair", "pair", "many", "enc", "target", "again", "bad", "bad", "nostore"]


def cases(tier):
    n = 350 if tier == "quick" else 1800
    return ["%s/%d" % (k, i) for i in range(n) for k in dict.fromkeys(KINDS)] + ["bad/%d" % (n + i) for i in range(2 * n)]


def spell(rng, args, form=None):
    """the stores as options, in one of the accepted forms"""
    out, tags = [], []
    form = form or rng.choice(("=", " ", "mix"))
    noise = rng.random() < .5
    for a in args:
        o = rng.choice(("--store", "--seed"))
        f = rng.choice("= ") if form == "mix" else form
        out += [[o + "=" + a]] if f == "=" else [[o, a]]
        tags.append(o[3] + f)
        if noise and rng.random() < .5:
            v = rng.choice(("no", "yes", "1", "0", "", "extract", "/x"))
            out.append(["--seed-output=" + v] if rng.random() < .6 else ["--seed-output", v])
            tags.append("o")
    if noise and rng.random() < .4:
        out.insert(0, ["--seed-output=no"])
    return out, "".join(tags)


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    scn, desc = c01.mix(rng)
    known = list(scn.chunks.values())
    if kind == "many":
        scn.stores = []
        for _ in range(rng.choice((3, 5, 8, 12))):
            sub = [x for x in known if rng.random() < .4]
            w = rng.randrange(4)
            if w == 0:
                scn.stores.append(gen.http_all(sub))
            elif w == 1:
                scn.stores.append(Local(b"".join(sub)))
            elif w == 2:
                scn.stores.append(Local(b"".join(sub), ref.caibx(ref.entries_of(sub), scn.params)))
            else:
                scn.stores.append(Target())
    elif kind == "enc":
        k = rng.randbytes(32)
        scn.stores = [gen.http_all([x for x in known if rng.random() < .7], k), gen.http_all(known, rng.randbytes(32))]
        rng.shuffle(scn.stores)
        if rng.random() < .3:
            scn.stores.insert(rng.randrange(3), Local(b"".join(known[:1])))
    elif kind == "target":
        scn.stores = [Target(), gen.http_all(known)] if rng.random() < .7 else [gen.http_all(known[::2]), Target(), gen.http_all(known)]
    if kind == "again" and not scn.stores:
        scn.stores = [gen.http_all(known[::2])]
    args, p = setup(c, scn)
    if kind == "again":
        # some of them more than once
        for _ in range(rng.choice((1, 1, 2, 4))):
            k = rng.randrange(len(args))
            args.insert(k + 1 if rng.random() < .6 else rng.randrange(len(args) + 1), args[k])

    def go(tool, av, plan=None):
        c.write("target", scn.target)
        for s in scn.stores:
            if isinstance(s, Http):
                s.n = {}
                s.log.clear()
        r = c.run(tool, av, plan=plan)
        return r, c.read("target"), [[(m, u) for m, u, _ in s.log] for s in scn.stores if isinstance(s, Http)]
    if kind == "bad":
        return malformed(c, rng, scn, args, p, go)
    if kind == "nostore":
        tail = ["extract", p["index"], p["target"]]
        r, t, q = go("casync", rng.choice((["--seed-output=no"], [])) + tail)
        check_exact(c, scn, r, t)
        if t != scn.target:
            c.fail("target modified", "the target changed without any store")
        c.sig(kind, r.rc, len(scn.entries))
        return
    a, ta, qa = go("csn", [p["index"], p["target"]] + args)
    if a.crash:
        return
    for i in range(2):
        opts, tags = spell(rng, args)
        pos = rng.choice((len(opts), len(opts), 0, rng.randrange(len(opts) + 1)))
        av = sum(opts[:pos], []) + ["extract"] + sum(opts[pos:], []) + [p["index"], p["target"]]
        b, tb, qb = go("casync", av)
        c.count("pairs")
        note = "casync %s (%d stores, command at option %d)" % (" ".join(x if len(x) < 60 else x[:57] + "..." for x in av[:6]), len(args), pos)
        if b.crash:
            return
        if (a.rc == 0) != (b.rc == 0):
            c.fail("status differs", "%s: exit %d, csn exits %d\n%s" % (note, b.rc, a.rc, b.tail()))
        elif ta != tb:
            c.fail("target differs", "%s: final target differs from that of csn (exit %d)" % (note, b.rc))
        elif qa != qb:
            c.fail("requests differ", "%s: requests %s, csn makes %s" % (note, [len(x) for x in qb], [len(x) for x in qa]))
        c.sig(kind, tags, pos, a.rc, len(args), len(scn.entries))
    c.sample("%s: %s -> both exit %d, same target, requests %s" % (kind, tags, a.rc, [len(x) for x in qa]))


def malformed(c, rng, scn, args, p, go):
    opts, tags = spell(rng, args)
    flat = sum(opts, [])
    i, t = p["index"], p["target"]
    helped = False
    w = rng.choice(("help", "help2", "command", "command2", "nocommand", "unknown", "unknown2", "short", "noindex", "notarget", "empty", "novalue", "only", "helpval", "prefix", "afterdash"))
    if w == "help":
        at = rng.randrange(len(opts) + 1)
        av = sum(opts[:at], []) + [rng.choice(("-h", "--help"))] + sum(opts[at:], []) + ["extract", i, t]
        helped = True
    elif w == "help2":
        av = rng.choice((["-h"], ["--help"], ["--help", "extract", i, t], ["extract", "-h", i, t], ["extract", i, t, "--help"], ["extract", i, t, "-h"], flat + ["--help"], ["-h", "make", i, t]))
        helped = True
    elif w in ("command", "command2"):
        av = flat + [rng.choice(("make", "list", "mtree", "digest", "mount", "mkdev", "gc", "udev", "stat", "", "Extract", "extrac", "extractx", "extract ", "EXTRACT", "e", i, t)), i, t]
    elif w == "nocommand":
        av = flat + [i, t]
    elif w in ("unknown", "unknown2"):
        u = rng.choice(("--foo", "--cache=/x", "--with=2sec", "--verbose", "-v", "-x", "--extract", "--seeds=x", "--storex=y", "--digest=sha256", "--what=blob", "-n", "--no-seed"))
        at = rng.randrange(len(opts) + 1)
        av = sum(opts[:at], []) + [u] + sum(opts[at:], []) + ["extract", i, t]
    elif w == "short":
        av = flat + ["-s", "extract", i, t]
    elif w == "noindex":
        av = flat + ["extract", t]
    elif w == "notarget":
        av = flat + ["extract", i]
    elif w == "empty":
        av = []
    elif w == "novalue":
        av = rng.choice((flat + ["extract", i, t, "--store"], ["--seed"], ["extract", i, t, "--seed"], flat + ["extract", i, t, "--seed-output"]))
    elif w == "only":
        av = rng.choice((["extract"], flat + ["extract"], flat[:2], [i], [t]))
    elif w == "helpval":
        av = flat + [rng.choice(("--help=1", "--help=")), "extract", i, t]
    elif w == "prefix":
        av = flat + ["extract", "", ""]
    else:
        av = flat + ["--", "make", i, t]
    r, after, q = go("casync", av)
    c.count("malformed")
    note = "casync %s" % " ".join(x if len(x) < 50 else x[:47] + "..." for x in av)
    if after != scn.target:
        c.fail("target modified", "%s: the target was modified (%s)" % (note, w))
    if r.rc == 0 and not helped:
        c.fail("command line accepted", "%s: exit 0 (%s)" % (note, w))
    c.sig("bad", w, r.rc, tags, tuple(x for x in av if len(x) < 12))
