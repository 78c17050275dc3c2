"""Scenarios (index, target, stores), their set-up on disk and server, a reference simulation, and the oracles common to checks."""
import random, re, os
from . import ref
from .server import Resp, Certs, BAD_TLS

PATH_RE = re.compile(r"^/([0-9a-f]{4})/([0-9a-f]{64})\.cacnk(\.enc)?$")


BASES = ("/v1/stable", "/store", "/default.castr", "/a%20b", "/a+b", "/%C3%BC", "/~u", "/a;b=c", "/@x", "/a:b", "/%25s", "/x=y,z", "/.hidden", "/dir.cacnk", "/img.caibx", "/a&b=c", "/!$'()*", "/0000",
         "/abcd/" + "0" * 64 + ".cacnk", "/%23x", "/%3F", "/" + "d" * 200, "/" + "/".join("abcdefghij" * 4), "/a..b", "/...", "/-", "/_", "/http:", "/x.enc", "/encrypt=", "/1.2.3/x86_64")
# of files; in front of a side-loaded index there is a colon, behind that there may be more
NAMES = ("%s.caibx", "-%s", "--%s", "%%s%s", "%%n%s", "%s#x", "%s#encrypt=key", "http%s", "https%s", "%s,1", "%s=1", "%s;", "%s?x=y", "\u00fc%s", "%s.cacnk", "%s.", ".%s", "%s&", "%s'", '%s"', "$%s", "%s*", "[%s]", "~%s", "%s@2",
         "Target%s", "target%s", "%s" + "n" * 200)
NAMES_SIDE = ("%s:1", "%s:", ":%s", "http:%s", "%s:img:v2.caibx")
HOSTS = ("localhost:", "user:secret@127.0.0.1:", "user@127.0.0.1:", "127.1:", "2130706433:", "0x7f.1:", "LOCALHOST:", "a%40b:c%3Ad@127.0.0.1:")
HOSTS6 = ("[::1]:", "[0:0:0:0:0:0:0:1]:", "u:p@[::1]:")


class Local:
    def __init__(self, data, side=None, path=None, sidepath=None):
        self.data, self.side, self.path, self.sidepath = data, side, path, sidepath


class Http:
    """table: id -> Resp or list of Resp (one per request, the last one repeats)"""

    def __init__(self, table=None, default=None, key=None, suffix="", keyspec=None):
        self.table = table or {}
        self.default = default or Resp(404, b"not here")
        self.key, self.suffix, self.keyspec = key, suffix, keyspec
        self.log = None
        self.always = None      # answer to every request, whatever its path
        self.n = {}
        self.tls = None         # served with TLS, with this certificate (see server.Certs)
        self.base = True        # now and then the store is further down, or its host is given in another form
        self.redir = None       # (status, hops, style, body, part): every request, or a part of them, is answered with a redirect to the real place


class Target:
    pass


class Scn:
    def __init__(self, entries, params, target=b"", stores=(), raw_index=None, chunks=None):
        self.entries, self.params, self.target, self.stores = entries, params, target, list(stores)
        self.raw_index = raw_index
        self.chunks = chunks or {}      # id -> data of the right content, where known

    def index(self):
        return self.raw_index if self.raw_index is not None else ref.caibx(self.entries, self.params)

    def spans(self):
        last = 0
        for end, cid in self.entries:
            yield last, end - last, cid
            last = end

    @property
    def end(self):
        return self.entries[-1][0] if self.entries else 0

    def expected(self, upto=None):
        """final target where every chunk content is known"""
        out = bytearray(self.target)
        if len(out) < self.end:
            out += bytes(self.end - len(out))
        for s, l, cid in self.spans():
            out[s:s + l] = self.chunks[cid]
        return bytes(out)


def ok(data, key=None, cid=None, level=1, **kw):
    body = ref.zc(data, level)
    if key is not None:
        body = ref.xchacha(key, cid or ref.sha(data), body)
    r = Resp(200, body, **kw)
    r.plain = data
    return r


def bad(body, **kw):
    r = Resp(200, body, **kw)
    r.plain = None
    return r


def classify(r, cid):
    if r.drop or r.reset or r.cut is not None or r.raw is not None or (r.cl is not None and r.cl != len(r.body)):
        return "unsure", None
    if r.status in (404, 410):
        return "miss", None
    if r.status >= 400:
        return "err", None
    if r.endless is not None:
        return "bad", None
    if r.status == 200:
        d = getattr(r, "plain", None)
        if d is not None and ref.sha(d) == cid and len(d) <= ref.CHUNK_MAX:
            return "hit", d
        return "bad", None
    return "bad", None


def name_of(c, name, names):
    """now and then files have less simple names"""
    r = random.Random("%s|%s|%s|%s|name" % (c.check, c.seed, c.key, name))
    return r.choice(names) % name if c.odd_names and r.random() < .08 else name


def base_rng(c, i, what):
    return random.Random("%s|%s|%s|%d|%s" % (c.check, c.seed, c.key, i, what))


def base_of(c, i, s):
    """the path below which the ith store is served"""
    r = base_rng(c, i, "base")
    return r.choice(BASES) if s.base and not s.suffix and not s.redir and r.random() < .08 else ""


def known_base(c, i, s):
    """the same, for plans that name it: short"""
    if len(base_of(c, i, s)) > 40:
        s.base = False
    return base_of(c, i, s)


def setup(c, scn, tool="csn", names=None):
    """writes everything; returns the argument list for csn and a dict of paths"""
    p = {"index": c.write("i.caibx", scn.index()), "target": c.write("target", scn.target)}
    args = []
    for i, s in enumerate(scn.stores):
        if isinstance(s, Local):
            if s.path is None:
                p["l%d" % i] = c.write(name_of(c, "l%d" % i, NAMES), s.data)
            else:
                p["l%d" % i] = s.path
            a = p["l%d" % i]
            if s.side is not None:
                p["d%d" % i] = c.write(name_of(c, "d%d" % i, NAMES + NAMES_SIDE), s.side) if s.sidepath is None else s.sidepath
                a += ":" + p["d%d" % i]
            args.append(a)
        elif isinstance(s, Http):
            s.n = {}

            def handler(path, headers, s=s):
                if s.always is not None:
                    return s.always
                sub = s.suffix.rstrip("/")
                if sub and path.startswith(sub + "/"):
                    path = path[len(sub):]
                m = PATH_RE.match(path)
                if not m or m.group(1) != m.group(2)[:4] or bool(m.group(3)) != bool(s.key):
                    return Resp(404, b"odd path")
                cid = bytes.fromhex(m.group(2))
                r = s.table.get(cid, s.default)
                if callable(r):
                    r = r(cid)
                k = s.n.get(cid, 0)
                s.n[cid] = k + 1
                if isinstance(r, list):
                    r = r[min(k, len(r) - 1)]
                return r
            if s.redir:
                handler = redirecting(c, i, s.redir, handler)
            s.at = base = base_of(c, i, s)
            url, s.log = c.route("s%d%s" % (i, base), handler)
            if s.tls:
                url = tls_url(c, url, s.tls)
            elif s.base and base_rng(c, i, "host").random() < .08:
                url = url.replace("127.0.0.1:", base_rng(c, i, "which").choice(HOSTS if not c.srv.port6 else HOSTS + HOSTS6))
            url += s.suffix
            if s.key:
                url += "#encrypt=" + (s.keyspec if s.keyspec is not None else "key:" + s.key.hex())
            args.append(url)
        else:
            args.append(p["target"])
    p["args"] = args
    return args, p


def certs(c):
    """the certificate authority of this worker"""
    if getattr(c.srv, "certs", None) is None:
        d = os.path.join(os.path.dirname(c.tmp), "certs-%d" % os.getpid())
        os.mkdir(d)
        c.srv.certs = Certs(d)
    return c.srv.certs


def tls_url(c, url, cert, host="127.0.0.1"):
    port = c.srv.tls_port(cert, certs(c))
    return url.replace("http://127.0.0.1:%d/" % c.srv.port, "https://%s:%d/" % (host, port))


def long_path(c, rng, n=None):
    """the name of a file in the scratch directory, of n characters; its directories are made"""
    n = n or rng.choice((100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4000, 4093, 4094, 4095))
    p = c.tmp
    while n - len(p) > 250:
        p += "/" + "d" * rng.randrange(1, 200)
        if n - len(p) < 4:
            p = p[:n - 4]
        if not os.path.isdir(p):
            os.mkdir(p)
    room = max(n - len(p) - 1, 3)
    c.nlong = getattr(c, "nlong", 0) + 1
    return p + "/" + ("%x" % c.nlong).rjust(room, "f")[-room:]


def long_names(c, rng, scn, p=.7):
    """gives local stores and side-loaded indices long names"""
    for s in scn.stores:
        if isinstance(s, Local):
            for w, d in (("path", s.data), ("sidepath", s.side)):
                if getattr(s, w) is None and d is not None and rng.random() < p:
                    q = long_path(c, rng)
                    with open(q, "wb") as f:
                        f.write(d)
                    setattr(s, w, q)


def redirecting(c, i, redir, handler):
    status, hops, style, body, part = redir

    def elsewhere(path):
        """only some of the chunks are; the other place has no others"""
        m = re.search(r"/[0-9a-f]{60}([0-9a-f]{4})\.cacnk", path)
        return part is None or (m is not None and int(m.group(1), 16) < part * 65536)

    def away(path, headers):
        return handler(path, headers) if elsewhere(path) else Resp(404, b"not at this place")
    real = c.route("q%d" % i, away)[0]

    def first(path, headers):
        if not elsewhere(path):
            return handler(path, headers)
        n = hops
        if path.startswith("/hop"):
            n, path = path[4:].split("/", 1)
            n, path = int(n), "/" + path
        if n > 1:
            to = c.srv.url("%s-s%d" % (c.uid, i)) + "/hop%d" % (n - 1) + path
        else:
            to = real + path
        if style == "relative":
            to = "/" + to.split("/", 3)[3]
        elif style == "host":
            to = to.replace("127.0.0.1", "localhost")
        return Resp(status, body, headers=("Location: " + to,))
    return first


def any_redir(rng, p=.2):
    if rng.random() >= p:
        return None
    return (rng.choice((301, 302, 303, 307, 308)), rng.choice((1, 1, 1, 2, 5, 10, 20)), rng.choice(("relative", "absolute")),
            rng.choice((b"", b"<html>moved</html>", ref.zc(b"moved, but this is a stream too"), bytes(5000))), rng.choice((None, None, .15, .5)))


def roles(p):
    out = []
    for k, v in p.items():
        if k == "args":
            continue
        name = {"index": "I", "target": "T"}.get(k, k.upper())
        out.append("role %s %s" % (name, v))
    return out


def csn(c, scn, p, plan=None, tool="csn", **kw):
    """runs csn (or casync with the same stores)"""
    if tool == "casync":
        a = []
        for x in p["args"]:
            a += ["--store=" + x]
        a += ["extract", p["index"], p["target"]]
    else:
        a = [p["index"], p["target"]] + p["args"]
    return c.run(tool, a, plan=plan, **kw)


def giga(c, rng, first=()):
    """an image of more than 4 GiB, whose first part (zeros, sparse, and one other chunk) the target holds; the others come from a server, or, where they are
    repeated, from the target"""
    k = ref.CHUNK_MAX
    z = bytes(k)
    x = rng.randbytes(k)
    a, b, d = [rng.randbytes(n) for n in (rng.randrange(1, 3000), k, 5)]
    n = (1 << 32) // k + 1
    kx = rng.randrange(3)
    ids = [ref.sha(z)] * n
    ids[kx] = ref.sha(x)
    ends = [(i + 1) * k for i in range(n)]
    tail = [a, b, d, a, b, z, a] if rng.random() < .5 else [b, a, d, d, b, a]
    for y in tail:
        ends.append(ends[-1] + len(y))
        ids.append(ref.sha(y))
    extra = rng.choice((b"", b"beyond"))
    path = c.path("target")
    with open(path, "wb") as f:
        f.seek(kx * k)
        f.write(x)
        f.truncate(ends[-1])
        f.seek(ends[-1])
        f.write(extra)
    side = c.write("i.caibx", ref.caibx(list(zip(ends, ids)), (16384, 65536, 262144)))
    h = Http({ref.sha(y): ok(y) for y in (a, b, d)})

    def handler(pa, hd):
        m = PATH_RE.match(pa)
        return h.table.get(bytes.fromhex(m.group(2)), Resp(404)) if m else Resp(404)
    url, log = c.route("s0", handler)
    r = c.run("csn", [side, path] + (["%s" % path] if "target" in first else []) + [url], plan=["role T " + path], timeout=280, variant="plain")
    out = {"run": r, "n": n, "prefix": n * k, "tail": b"".join(tail), "requests": [PATH_RE.match(q).group(2) for _, q, _ in log]}
    if r.crash:
        return out
    with open(path, "rb") as f:
        f.seek(n * k)
        out["after"] = f.read()
        out["good"] = out["after"] == out["tail"] + extra
        f.seek(0)
        out["lead"] = f.read(3 * k) == b"".join([x if i == kx else z for i in range(3)])
        pos, bad_ = 3 * k, False
        import os
        while pos < n * k and not bad_:
            try:
                pos = os.lseek(f.fileno(), pos, os.SEEK_DATA)
            except OSError:
                break
            if pos < n * k:
                bad_ = any(os.pread(f.fileno(), min(4096, n * k - pos), pos))
                pos += 4096
        out["lead"] = out["lead"] and not bad_
    out["tail_writes"] = [(int(e[2]), int(e[3])) for e in r.ev("W", "T")]
    c.count("giga")
    c.sig("giga", kx, len(tail), first, r.rc)
    return out


# ---- reference simulation ------------------------------------------------------------
class _L:
    def __init__(self, s, params, pred):
        self.s, self.params, self.pred = s, params, pred
        self.idx = None
        self.validated = False
        self.unsure = False
        if s.side is not None:
            try:
                prm, ents, dontcare, badat = ref.parse_caibx(s.side)
                if dontcare:
                    self.unsure = True
                elif prm == params and badat is None:
                    self.idx = {}
                    for st, ln, cid in ents:
                        self.idx.setdefault(cid, []).append((st, ln))
                    pred.side_used.append(s)
            except ref.BadIndex:
                pass
        if self.idx is None:
            self.scan()

    def scan(self):
        self.validated = True
        self.idx = {}
        last = 0
        for e in ref.cdc(self.s.data, self.params):
            self.idx.setdefault(ref.sha(self.s.data[last:e]), []).append((last, e - last))
            last = e

    def query(self, cid):
        if self.unsure:
            return "unsure", None
        for _ in range(2):
            cand = self.idx.get(cid)
            if not cand:
                return "miss", None
            good = []
            for st, ln in cand:
                d = self.s.data[st:st + ln]
                good.append(d if len(d) == ln and ln <= ref.CHUNK_MAX and ref.sha(d) == cid else None)
            if all(g is not None for g in good):
                self.pred.local_hits += 1
                return "hit", good[0]
            if self.validated:
                return "miss", None
            if any(g is not None for g in good):
                self.unsure = True
                return "unsure", None
            self.pred.discards += 1
            self.scan()
        return "miss", None


class _H:
    def __init__(self, s):
        self.s, self.lo, self.hi, self.dead = s, 0, 0, False
        self.n = {}
        self.expect = []

    def query(self, cid):
        if self.dead:
            return "miss", None
        if self.dead is None:
            return "unsure", None
        r = self.s.table.get(cid, self.s.default)
        if callable(r):
            r = r(cid)
        k = self.n.get(cid, 0)
        self.n[cid] = k + 1
        if isinstance(r, list):
            r = r[min(k, len(r) - 1)]
        self.expect.append(cid)
        what, d = classify(r, cid)
        if what == "hit":
            self.lo = self.hi = 0
        elif what == "bad":
            self.lo = 0
        elif what == "err":
            self.lo += 1
            self.hi += 1
            if self.lo > 10:
                self.dead = True
            elif self.hi > 10:
                self.dead = None
            return "miss", None
        elif what == "unsure":
            self.dead = None
            return "miss", None
        return ("hit", d) if what == "hit" else ("miss", None)


class _T:
    def __init__(self):
        self.have = {}

    def query(self, cid):
        return ("hit", self.have[cid]) if cid in self.have else ("miss", None)


class Pred:
    """ok: True/False/None(either). requests[i]: expected request list of store i, valid up to certain"""


def predict(scn):
    p = Pred()
    p.side_used, p.local_hits, p.discards, p.skipped, p.queries = [], 0, 0, 0, 0
    p.ok, p.certain, p.fail_at = True, True, None
    p.writes = []
    tstore = _T()
    st = []
    for s in scn.stores:
        st.append(_L(s, scn.params, p) if isinstance(s, Local) else _H(s) if isinstance(s, Http) else tstore)
    p.stores = st
    resuming, last = True, None
    for i, (off, ln, cid) in enumerate(scn.spans()):
        if resuming:
            if ln > ref.CHUNK_MAX or ln <= 0:
                p.ok, p.fail_at = False, i
                return p
            d = scn.target[off:off + ln]
            if len(d) == ln and ref.sha(d) == cid:
                p.skipped += 1
                tstore.have.setdefault(cid, d)
                continue
            resuming = False
        if last is None or last[0] != (cid, ln):
            p.queries += 1
            got, maybe = None, False
            for s in st:
                w, d = s.query(cid)
                if w == "unsure":
                    maybe = True
                    p.certain = False
                if w == "hit":
                    got = d
                    break
            if got is None:
                p.ok, p.fail_at = (None if maybe else False), i
                return p
            if len(got) != ln:
                p.ok, p.fail_at = False, i
                return p
            last = ((cid, ln), got)
        tstore.have.setdefault(cid, last[1])
        p.writes.append((off, ln))
    return p


# ---- oracles -------------------------------------------------------------
def check_exact(c, scn, run, after, key="wrong image"):
    """exit 0 => the target is exactly what the index describes"""
    if run.rc != 0:
        return True
    for s, l, cid in scn.spans():
        d = after[s:s + l]
        if len(d) != l or ref.sha(d) != cid:
            c.fail(key, "exit status 0, but target bytes %d..%d do not hash to the listed id %s" % (s, s + l, cid.hex()))
            return False
    return True


def check_bytes(c, scn, before, after, key="foreign bytes"):
    """every byte old or prescribed; nothing beyond the end altered; sizes"""
    end = scn.end
    if len(after) > max(len(before), end):
        c.fail(key, "target grew from %d to %d bytes, image has %d" % (len(before), len(after), end))
        return False
    if len(after) < len(before):
        c.fail(key, "target was truncated from %d to %d bytes" % (len(before), len(after)))
        return False
    if after[end:] != before[end:]:
        c.fail(key, "bytes beyond the end of the image (%d) were altered" % end)
        return False
    for s, l, cid in scn.spans():
        a = after[s:s + l]
        b = before[s:s + l]
        if a == b:
            continue
        want = scn.chunks.get(cid)
        if want is not None and len(want) == l:
            if a == want[:len(a)]:
                continue
            b2 = b + bytes(max(0, len(a) - len(b)))     # a hole between the old end and new data reads as zero
            for i in range(len(a)):
                if a[i] != want[i] and a[i] != b2[i]:
                    c.fail(key, "target byte %d is %#x, neither old (%s) nor prescribed (%#x)" %
                           (s + i, a[i], "%#x" % b[i] if i < len(b) else "none", want[i]))
                    return False
        elif len(a) == l and ref.sha(a) == cid:
            continue
        elif a[:len(b)] == b and not any(a[len(b):]):
            continue
        else:
            c.fail(key, "range %d..%d was changed to data that does not match its id" % (s, s + l))
            return False
    return True


def check_requests(c, scn, pred, key="requests"):
    """actual requests of the HTTP stores against the simulated ones (unsegmented, no retries)"""
    listed = {cid for _, _, cid in scn.spans()}
    good = True
    for i, s in enumerate(scn.stores):
        if not isinstance(s, Http):
            continue
        got = []
        for method, path, _ in s.log:
            m = PATH_RE.match(path)
            if method != "GET" or not m or m.group(1) != m.group(2)[:4] or bool(m.group(3)) != bool(s.key):
                c.fail(key, "odd request %s %s to store %d" % (method, path, i))
                good = False
                continue
            cid = bytes.fromhex(m.group(2))
            got.append(cid)
            if cid not in listed:
                c.fail(key, "request for %s, which the index does not list" % cid.hex())
                good = False
        if pred is not None and pred.certain and pred.ok is not None:
            want = pred.stores[i].expect
            if got != want:
                k = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
                c.fail(key, "store %d: %d requests, expected %d; first difference at request %d: got %s, expected %s" %
                       (i, len(got), len(want), k, got[k].hex()[:16] if k < len(got) else "nothing", want[k].hex()[:16] if k < len(want) else "nothing"))
                good = False
    return good


def check_outcome(c, scn, pred, run, after, key="outcome"):
    """exit status and final target against the simulation"""
    if run.crash or pred.ok is None:
        return
    if pred.ok and run.rc != 0:
        c.fail(key, "exit status %d, expected success (%d chunks, %d skipped)\n%s" % (run.rc, len(scn.entries), pred.skipped, run.tail()))
    elif not pred.ok and run.rc == 0:
        c.fail(key, "exit status 0, expected failure at entry %s" % pred.fail_at)
    elif pred.ok:
        want = bytearray(scn.target)
        if len(want) < scn.end:
            want += bytes(scn.end - len(want))
        good = True
        for s, l, cid in scn.spans():
            d = scn.chunks.get(cid)
            if d is None:
                good = False
                break
            want[s:s + l] = d
        if good and bytes(want) != after:
            c.fail(key, "final target differs from the image plus the old tail")
