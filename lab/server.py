"""A scriptable HTTP server: one per worker process, routes by path prefix, logs requests."""
import os, socket, ssl, struct, subprocess, threading, time


class Resp:
    def __init__(self, status=200, body=b"", mode="cl", cut=None, reset=False, drop=False, endless=None, stall=None,
                 headers=(), cl=None, reason="X", raw=None, kind="ok", slow=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def decorate(rng, r):
    """(what comes before, header lines, reason): things that do not change the meaning of an answer"""
    early = ""
    if rng.random() < .1:
        early = rng.choice(("HTTP/1.1 103 Early Hints\r\nLink: </style.css>; rel=preload\r\n\r\n", "HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 102 Processing\r\n\r\n"))
    out = []
    if rng.random() < .5:
        out.append("Content-Type: " + rng.choice(("application/zstd", "application/octet-stream", "text/html", "text/plain; charset=utf-8", "application/x-casync-chunk", "")))
    if r.status == 200 and r.body[:4] == b"\x28\xb5\x2f\xfd" and rng.random() < .3:
        # true, and of no consequence to someone who does not ask for encodings
        out.append(rng.choice(("Content-Encoding: zstd", "content-encoding: zstd", "Content-Encoding: ZSTD")))
    more = ("Server: nginx/1.24.0 (Ubuntu)", "Date: Mon, 01 Jan 2024 00:00:00 GMT", "Last-Modified: Thu, 01 Jan 1970 00:00:00 GMT", "Last-Modified: Fri, 31 Dec 2100 00:00:00 GMT",
            'ETag: "0123456789abcdef"', 'etag: W/"x"', "Accept-Ranges: bytes", "Accept-Ranges: none", "Cache-Control: no-store, max-age=0", "Cache-Control: public, max-age=31536000, immutable",
            "Expires: 0", "Age: 100000", "Vary: Accept-Encoding", "Vary: *", "Set-Cookie: id=1; Path=/", "Set-Cookie: id=2; Secure; HttpOnly", "Strict-Transport-Security: max-age=31536000",
            'Alt-Svc: h3=":443"; ma=86400', "Content-Disposition: attachment; filename=\"x.cacnk\"", "Content-Language: de", "X-Long: " + "x" * 7000, "X-Empty:", "X-Cache: MISS", "Via: 1.1 proxy",
            "Retry-After: 1", "Keep-Alive: timeout=5, max=100", "X-Frame-Options: DENY", "Warning: 199 - \"x\"", "Content-MD5: AAAA", "Pragma: no-cache", "Refresh: 0; url=http://127.0.0.1:1/",
            "Link: <http://127.0.0.1:1/>; rel=canonical", "Digest: sha-256=AAAA", "x-amz-id-2: abc", "Access-Control-Allow-Origin: *", "Content-Location: /elsewhere", "Upgrade: h2c")
    out += rng.sample(more, rng.choice((0, 1, 2, 5)))
    if r.status not in (201, 301, 302, 303, 307, 308) and not (300 <= r.status < 400) and rng.random() < .05:
        out.append("Location: /elsewhere")
    if rng.random() < .25:
        # of any length
        n = rng.choice(("Server", "Date", "Last-Modified", "ETag", "Cache-Control", "Expires", "Vary", "Set-Cookie", "Via", "X-Cache", "Warning", "Content-Type", "Content-Disposition", "Content-Language",
                        "Age", "Link", "Retry-After", "Allow", "Content-MD5", "Digest", "Alt-Svc", "WWW-Authenticate", "P3P", "Pragma", "X-" + "N" * rng.choice((1, 60, 250, 1000)), "Content-Location", "X-Checksum-SHA256"))
        k = rng.choice((0, 1, 7, 15, 16, 31, 32, 47, 63, 64, 100, 127, 128, 200, 255, 256, 400, 511, 512, 1000, 1023, 1024, 2000, 4096, 9000, 17000))
        v = rng.choice(("x", "0", "9", "ab ", "%s", "%n", "\xff", "\t", "; q=1", "\"", "f"))
        out.append("%s:%s%s" % (n, rng.choice((" ", "", "  ", "\t")), (v * k)[:k]))
    rng.shuffle(out)
    return early, "".join(x + "\r\n" for x in out), rng.choice((r.reason, r.reason, "", "OK", "Not Found", "a b  c", "x" * rng.choice((31, 64, 128, 255, 1024, 5000)), "%s%n", "\xfc"))


class Server:
    def __init__(self):
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(256)
        self.port = self.s.getsockname()[1]
        self.port6 = None       # the same port of [::1], where there is one
        try:
            s6 = socket.socket(socket.AF_INET6)
            s6.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s6.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 1)
            s6.bind(("::1", self.port))
            s6.listen(256)
            self.port6 = self.port
        except OSError:
            s6 = None
        self.routes = {}
        self.lock = threading.Lock()
        self.stray = []
        self.sent = {}
        self.tls = {}
        self.decor = None       # a random number generator: answers carry what servers add of their own accord
        threading.Thread(target=self._accept, args=(self.s, None), daemon=True).start()
        if s6 is not None:
            threading.Thread(target=self._accept, args=(s6, None), daemon=True).start()

    def tls_port(self, name, certs):
        """another listening port, for TLS with the named certificate (see Certs); the routes are the same"""
        if name not in self.tls:
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("127.0.0.1", 0))
            s.listen(256)
            how = None
            if name == "closing":
                how = "close"
            elif name == "garbage":
                how = "garbage"
            else:
                how = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
                how.load_cert_chain(certs.chain(name), certs.file(name + ".key"))
            threading.Thread(target=self._accept, args=(s, how), daemon=True).start()
            self.tls[name] = s.getsockname()[1]
        return self.tls[name]

    def route(self, prefix, handler):
        """handler(path, headers) -> Resp; returns the request log of the route"""
        log = []
        with self.lock:
            self.routes[prefix] = (handler, log)
        return log

    def unroute(self, prefix):
        with self.lock:
            self.routes.pop(prefix, None)

    def url(self, prefix):
        return "http://127.0.0.1:%d/%s" % (self.port, prefix)

    def _accept(self, s, how):
        while True:
            try:
                c, _ = s.accept()
            except OSError:
                return
            threading.Thread(target=self._conn, args=(c, how), daemon=True).start()

    def _conn(self, c, how=None):
        try:
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if how is not None and c.recv(1, socket.MSG_PEEK) != b"\x16":
                how = None      # not TLS: whoever asks in the clear here is answered, and the request is logged
            if how == "close":
                c.recv(100)
                return
            if how == "garbage":
                c.sendall(b"\x15\x03\x01\x00\x02\x02\x28 or something else\r\n\r\n")
                return
            if how is not None:
                c = how.wrap_socket(c, server_side=True)
            buf = b""
            while True:
                while b"\r\n\r\n" not in buf:
                    d = c.recv(65536)
                    if not d:
                        return
                    buf += d
                head, buf = buf.split(b"\r\n\r\n", 1)
                lines = head.decode("latin-1").split("\r\n")
                parts = lines[0].split(" ")
                method, path = parts[0], parts[1] if len(parts) > 1 else ""
                best = None
                with self.lock:
                    for p in self.routes:
                        if path.startswith("/" + p) and (best is None or len(p) > len(best)):
                            best = p
                    if best is None:
                        self.stray.append(path)
                        r = Resp(404)
                    else:
                        h, log = self.routes[best]
                        sub = path[len(best) + 1:]
                        log.append((method, sub, lines[1:]))
                        r = h(sub, lines[1:])
                if not self._answer(c, method, r):
                    if how is not None and r.mode == "close" and r.cut is None and r.endless is None and not r.drop:
                        c.settimeout(2)
                        c.unwrap()
                    return
        except OSError:
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def _answer(self, c, method, r):
        if r.drop:
            return False
        if r.reset and r.cut is None:
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            return False
        if r.raw is not None:
            c.sendall(r.raw)
            return False
        deco = self.decor is not None and r.kind != "bare"
        h = early = ""
        if deco:
            early, more, r_reason = decorate(self.decor, r)
        h = "HTTP/1.1 %d %s\r\n" % (r.status, r_reason if deco else r.reason)
        if deco:
            h = early + h + more
        for x in r.headers:
            h += x + "\r\n"
        body = r.body
        if r.endless is not None or r.mode == "close":
            h += "Connection: close\r\n"
        elif r.mode == "chunked":
            h += "Transfer-Encoding: chunked\r\n"
        else:
            h += "Content-Length: %d\r\n" % (len(body) if r.cl is None else r.cl)
        if r.cut is not None and r.mode != "close":
            h += "Connection: close\r\n"
        h += "\r\n"
        c.sendall(h.encode("latin-1"))
        if r.slow is not None:
            # pieces of the body with pauses between them, in real time; then the rest
            p = 0
            for n, pause in r.slow:
                c.sendall(body[p:p + n])
                p += n
                time.sleep(pause)
            c.sendall(body[p:])
            return r.mode == "cl" and r.cl is None
        if r.endless is not None:
            n = 0
            limit = r.endless
            c.sendall(body)
            block = (r.stall if isinstance(r.stall, bytes) else b"\0") * 1
            block = block * (65536 // len(block))
            while n < limit:
                c.sendall(block)
                n += len(block)
            return False
        if r.cut is not None:
            c.sendall(body[:r.cut])
            if r.stall:
                c.settimeout(30)
                try:
                    c.recv(1)
                except OSError:
                    pass
                return False
            if r.reset:
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            return False
        if r.mode == "chunked":
            p, step = 0, max(1, len(body) // 3)
            while p < len(body):
                k = body[p:p + step]
                c.sendall(b"%x%s\r\n" % (len(k), b";ext=\"1\"" if deco and p else b"") + k + b"\r\n")
                p += step
            c.sendall(b"0\r\n%s\r\n" % (b"X-Checksum: 1\r\n" if deco else b""))
            return True
        c.sendall(body)
        return r.mode == "cl" and r.cl is None


class Certs:
    """a small certificate authority in a directory; made on first use"""
    CONF = """[ca]
default_ca=d
[d]
database=%(d)s/db
new_certs_dir=%(d)s
serial=%(d)s/serial
default_md=sha256
policy=p
unique_subject=no
copy_extensions=copy
[p]
commonName=supplied
"""
    #        issuer, names, starts, ends (days from now)
    KINDS = {
        "good": ("ca", "IP:127.0.0.1,DNS:localhost", -1, 30),
        "chained": ("inter", "IP:127.0.0.1,DNS:localhost", -1, 30),
        "incomplete": ("inter", "IP:127.0.0.1,DNS:localhost", -1, 30),
        "unknown": ("other", "IP:127.0.0.1,DNS:localhost", -1, 30),
        "wrongname": ("ca", "IP:127.0.0.2,DNS:store.example", -1, 30),
        "noname": ("ca", None, -1, 30),
        "expired": ("ca", "IP:127.0.0.1,DNS:localhost", -30, -1),
        "future": ("ca", "IP:127.0.0.1,DNS:localhost", 2, 30),
        "selfsigned": (None, "IP:127.0.0.1,DNS:localhost", -1, 30),
        "notca": ("good", "IP:127.0.0.1,DNS:localhost", -1, 30),
    }

    TRUSTED = ("good", "chained")

    def __init__(self, d):
        self.d = d
        with open(self.file("conf"), "w") as f:
            f.write(self.CONF % dict(d=d))
        open(self.file("db"), "w").close()
        with open(self.file("serial"), "w") as f:
            f.write("01\n")
        for n in ("ca", "other"):
            self._ssl("req -x509 -newkey ec -pkeyopt ec_paramgen_curve:P-256 -nodes -days 30 -subj /CN=%s -keyout %s -out %s -addext basicConstraints=critical,CA:TRUE"
                      " -addext keyUsage=keyCertSign" % (n, self.file(n + ".key"), self.file(n + ".crt")))
        self._make("inter", "ca", None, -1, 30, ca=True)
        for k, v in self.KINDS.items():
            self._make(k, *v)

    def file(self, n):
        return os.path.join(self.d, n)

    def chain(self, n):
        """certificate file as the server presents it"""
        parts = [n] + (["inter"] if n == "chained" else ["good"] if n == "notca" else [])
        p = self.file(n + ".chain")
        with open(p, "w") as f:
            for x in parts:
                f.write(open(self.file(x + ".crt")).read())
        return p

    def _ssl(self, args, extra=()):
        r = subprocess.run(["openssl"] + args.split() + list(extra), cwd=self.d, stdin=subprocess.DEVNULL, capture_output=True)
        if r.returncode:
            raise RuntimeError("openssl %s: %s" % (args, r.stderr.decode()))

    def _make(self, name, issuer, names, a, b, ca=False):
        key, csr, crt = (self.file(name + x) for x in (".key", ".csr", ".crt"))
        ext = " -addext subjectAltName=" + names if names else ""
        ext += " -addext basicConstraints=critical,CA:" + ("TRUE" if ca else "FALSE")
        new = " -newkey ec -pkeyopt ec_paramgen_curve:P-256 -nodes -subj /CN=%s -keyout %s" % (name + ".example", key)
        if issuer is None:
            self._ssl("req -x509 -days %d%s -out %s%s" % (b, new, crt, ext))
            return
        self._ssl("req%s -out %s%s" % (new, csr, ext))
        t = lambda d: time.strftime("%Y%m%d%H%M%SZ", time.gmtime(time.time() + d * 86400))
        self._ssl("ca -batch -config %s -in %s -out %s -notext -cert %s -keyfile %s -startdate %s -enddate %s" %
                  (self.file("conf"), csr, crt, self.file(issuer + ".crt"), self.file(issuer + ".key"), t(a), t(b)))


BAD_TLS = [k for k in Certs.KINDS if k not in Certs.TRUSTED] + ["closing", "garbage"]
