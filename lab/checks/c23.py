"""HTTPS stores: same results behind a valid certificate, nothing taken from and nothing told to anyone else."""
import socket
from .. import ref, gen
from ..model import *

LEVEL = "exploration"
RULE = ("each case runs a generated scenario with some or all HTTP stores behind TLS on the loopback server, whose certificates come from a certificate "
        "authority made for the run: valid ones (also through an intermediate), and ones with an unknown issuer, another name, no name, an end in the past or a start "
        "in the future, self-signed, signed by a non-authority, with the intermediate missing, or a peer that does not speak TLS; other cases redirect to such servers, to "
        "local files, to other protocols or in circles. Exit status, final target and the requests every server saw are compared with a reference simulation in which the "
        "refused stores do not exist. Distinct by kind, certificate, stores and outcome")
ASSUMPTIONS = ["the system's trust store is replaced by the run's own authority at the libcurl boundary unless the program chooses one itself",
               "checking of certificates is OpenSSL's and libcurl's; revocation is not covered"]
REQUIRE = {"tls_requests": 800, "refused": 300, "redirects": 300}


def cases(tier):
    n = 800 if tier == "quick" else 900
    out = ["%s/%d" % (k, i) for i in range(n) for k in ("same", "bad", "only", "redirect", "partly")]
    return out


def scenario(rng):
    prm = gen.params(rng, big=.03)
    chunks = gen.free_chunks(rng, rng.choice((1, 3, 6, 12)), sizes=(1, 48, 100, 500, 4096, 30000))
    seq = gen.repeat(rng, chunks)
    t = gen.target_for(rng, seq, rng.choice(("zero", "empty", "prefix", "compl", "hole")))
    return Scn(ref.entries_of(seq), prm, t, chunks={ref.sha(x): x for x in seq}), list(dict.fromkeys(chunks))


def https(rng, chunks, tls):
    h = gen.http_all(chunks, rng.randbytes(32) if rng.random() < .3 else None)
    h.tls = tls
    for r in h.table.values():
        r.mode = rng.choice(("cl", "cl", "chunked", "close"))
    return h


def run(c, scn, p, extra=()):
    rng = c.rng
    plan = roles(p) + ["cainfo " + certs(c).file("ca.crt")] + list(extra)
    if rng.random() < .3:
        plan += ["csegmax %d" % rng.choice((1, 3, 100)), "seed %d" % rng.randrange(1 << 30)]
    return csn(c, scn, p, plan=plan, tool=rng.choice(("csn", "csn", "casync")))


def judge(c, scn, r, refused, desc):
    """against the simulation without the refused stores"""
    model = Scn(scn.entries, scn.params, scn.target, [s for s in scn.stores if s not in refused], chunks=scn.chunks)
    pred = predict(model)
    for s in refused:
        if s.log:
            c.fail("request sent", "%s: %d requests (first: %s) reached a server that must be refused" % (desc, len(s.log), s.log[0][1][:80]))
            return
    check_requests(c, model, pred)
    if not c.problems:
        check_outcome(c, model, pred, r, c.read("target"))
    check_exact(c, scn, r, c.read("target"))
    c.sig(desc, [type(s).__name__ + str(getattr(s, "tls", "")) for s in scn.stores], r.rc, len(scn.entries))
    c.sample("%s: %d entries -> exit %d" % (desc, len(scn.entries), r.rc))
    return pred


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    scn, uniq = scenario(rng)
    if kind == "partly":
        return partly(c, rng, scn, uniq)
    if kind == "redirect":
        return redirect(c, rng, scn, uniq)
    refused = []
    if kind == "same":
        for i in range(rng.choice((1, 1, 2, 3))):
            sub = uniq if rng.random() < .5 else [x for x in uniq if rng.random() < .6]
            h = https(rng, sub, rng.choice(("good", "good", "chained", None)))
            for x in uniq:
                if x not in sub and rng.random() < .3:
                    h.table[ref.sha(x)] = rng.choice((Resp(410), Resp(500), bad(b""), bad(ref.zc(b"other"))))
            scn.stores.append(h)
        scn.stores[0].tls = scn.stores[0].tls or "good"
    else:
        cert = rng.choice(BAD_TLS)
        scn.stores = [https(rng, uniq, cert)]
        refused = [scn.stores[0]]
        if kind == "bad":
            other = https(rng, uniq, rng.choice(("good", None))) if rng.random() < .7 else Local(b"".join(uniq), ref.caibx(ref.entries_of(uniq), scn.params))
            scn.stores.append(other)
            if rng.random() < .3:
                first = https(rng, rng.sample(uniq, (len(uniq) + 1) // 2), rng.choice(("good", None)))
                scn.stores.insert(0, first)
            if rng.random() < .2:
                b2 = https(rng, uniq, rng.choice(BAD_TLS))
                refused.append(b2)
                scn.stores.insert(rng.randrange(len(scn.stores) + 1), b2)
    if rng.random() < .2:
        scn.stores.insert(0, Target())
    _, p = setup(c, scn)
    if rng.random() < .25:
        # by name instead of by address; certificates are for both
        p["args"] = [a.replace("https://127.0.0.1:", "https://localhost:") if a.startswith("https") else a for a in p["args"]]
    r = run(c, scn, p)
    judge(c, scn, r, refused, "%s %s" % (kind, "+".join(str(s.tls) for s in scn.stores if isinstance(s, Http))))
    c.count("refused", len(refused))
    c.count("tls_requests", sum(len(s.log) for s in scn.stores if isinstance(s, Http) and s.tls))


def partly(c, rng, scn, uniq):
    """a store that has some chunks itself and redirects to some place for the others"""
    to = rng.choice(("tls", "tls", "badtls", "badtls", "badtls", "badtls", "loop", "nowhere", "file"))
    away = {ref.sha(x) for x in uniq if rng.random() < rng.choice((.2, .5))} or {ref.sha(uniq[-1])}
    real = https(rng, uniq, {"tls": rng.choice(("good", "chained", None)), "badtls": rng.choice(BAD_TLS)}.get(to, "good"))
    if to == "file":
        for x in uniq:
            i = ref.sha(x)
            c.write(i.hex() + (".cacnk.enc" if real.key else ".cacnk"), ref.zc(x) if not real.key else ref.xchacha(real.key, i, ref.zc(x)))
    scn.stores = [real]
    if rng.random() < .5:
        scn.stores.append(https(rng, uniq, rng.choice(("good", None))))
    _, p = setup(c, scn)
    base, _, frag = p["args"][0].partition("#")
    status = rng.choice((301, 302, 303, 307, 308))
    own = rng.random() < .5

    def front(path, headers):
        m = PATH_RE.match(path)
        if not m:
            return Resp(404)
        i = bytes.fromhex(m.group(2))
        if i not in away:
            return real.table.get(i) or Resp(404)
        return Resp(status, rng.choice((b"", b"moved")), headers=("Location: " + {"file": "file://%s/%s" % (c.tmp, path.rsplit("/", 1)[1]), "loop": "/%s-front%s" % (c.uid, path),
                                                                              "nowhere": "https://127.0.0.1:%d" % 1 + path}.get(to, base + path),))
    furl, flog = c.route("front", front)
    cert = rng.choice(("good", "good", "chained", None))
    if cert:
        furl = tls_url(c, furl, cert)
    p["args"][0] = furl + ("#" + frag if frag else "")
    r = run(c, scn, p)
    desc = "partly %s %s, front %s" % (to, real.tls, cert)
    have = dict(real.table) if to == "tls" else {i: v for i, v in real.table.items() if i not in away}
    seen = Http(have, real.default, key=real.key)
    model = Scn(scn.entries, scn.params, scn.target, [seen] + scn.stores[1:], chunks=scn.chunks)
    pred = predict(model)
    for q in real.log:
        m = PATH_RE.match(q[1])
        if to != "tls":
            c.fail("request sent", "%s: a request (%s) reached a server that must be refused" % (desc, q[1][:80]))
            return
        if not m or bytes.fromhex(m.group(2)) not in away:
            c.fail("request sent", "%s: the other place was asked for %s, which was not redirected" % (desc, q[1][:80]))
            return
    if to == "tls":
        seen.log = flog
        check_requests(c, model, pred)
    if not c.problems:
        check_outcome(c, model, pred, r, c.read("target"))
    check_exact(c, scn, r, c.read("target"))
    c.count("redirects", len(flog))
    c.count("partly")
    c.sig(desc, r.rc, len(scn.entries), len(scn.stores))


def redirect(c, rng, scn, uniq):
    """the first store answers every request with a redirect"""
    to = rng.choice(("tls", "tls", "badtls", "badtls", "file", "file", "scheme", "loop", "nowhere"))
    real = https(rng, uniq, {"tls": rng.choice(("good", "chained")), "badtls": rng.choice(BAD_TLS)}.get(to, "good"))
    if to == "file":
        # the files the redirect points at are right
        for x in uniq:
            i = ref.sha(x)
            b = ref.zc(x) if not real.key else ref.xchacha(real.key, i, ref.zc(x))
            c.write(i.hex() + (".cacnk.enc" if real.key else ".cacnk"), b)
    scn.stores = [real]
    if rng.random() < .6:
        scn.stores.append(https(rng, uniq, rng.choice(("good", None))))
    _, p = setup(c, scn)
    base, _, frag = p["args"][0].partition("#")
    front_tls = rng.choice((None, "good"))
    status = rng.choice((301, 302, 303, 307, 308))
    trap = socket.socket()
    try:
        return _redirect(c, rng, scn, uniq, to, real, p, base, frag, front_tls, status, trap)
    finally:
        trap.close()


def _redirect(c, rng, scn, uniq, to, real, p, base, frag, front_tls, status, trap):
    trap.bind(("127.0.0.1", 0))
    trap.listen(50)
    trap.setblocking(False)
    mail = rng.choice(("ftp", "ftp", "ftps", "FTP", "tftp", "telnet", "smtp", "imap", "pop3", "rtsp", "ldap", "sftp", "mqtt", "smb"))
    scheme = rng.choice(("%s://127.0.0.1:%d" % (mail, trap.getsockname()[1]), "gopher://127.0.0.1:%d/_GET%%20" % c.srv.port, "dict://127.0.0.1:%d/d:" % c.srv.port, "scp://127.0.0.1:9", "FILE://" + c.tmp))

    def front(path, headers):
        name = path.rsplit("/", 1)[1]
        loc = {"file": "file://%s/%s" % (c.tmp, name), "scheme": scheme + "/" + name, "loop": path,
               "nowhere": "https://127.0.0.1:%d" % 1 + path}.get(to, base + path)
        if to == "loop":
            loc = "/%s-front%s" % (c.uid, path)
        return Resp(status, rng.choice((b"", b"moved")), headers=("Location: " + loc,))
    furl, flog = c.route("front", front)
    if front_tls:
        furl = tls_url(c, furl, front_tls)
    p["args"][0] = furl + ("#" + frag if frag else "")
    r = run(c, scn, p)
    judge(c, scn, r, [] if to == "tls" else [real], "redirect %s %s" % (to, real.tls if to == "badtls" else scheme.split(":")[0] if to == "scheme" else ""))
    c.count("redirects", len(flog))
    try:
        trap.accept()[0].close()
        c.fail("other protocol", "a redirect to %s was followed: the program connected there" % scheme)
    except BlockingIOError:
        pass
    if to == "loop" and len(flog) > 200 * len(uniq):
        c.fail("endless redirects", "%d requests for %d chunks" % (len(flog), len(uniq)))
