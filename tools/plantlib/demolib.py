"""Small helpers for the demonstrations. Everything happens in a scratch directory."""
import ctypes, hashlib, http.server, os, shutil, struct, subprocess, sys, tempfile, threading

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.getcwd(), "_build")
TMP = tempfile.mkdtemp(prefix="demo-")
_z = ctypes.CDLL("libzstd.so.1")
_z.ZSTD_compressBound.restype = _z.ZSTD_compress.restype = ctypes.c_size_t
_z.ZSTD_compressBound.argtypes = [ctypes.c_size_t]
_z.ZSTD_compress.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int]
PRM = (16384, 65536, 262144)


def sha(b):
    return hashlib.sha256(b).digest()


def zc(b, level=3):
    n = _z.ZSTD_compressBound(len(b))
    o = ctypes.create_string_buffer(n)
    k = _z.ZSTD_compress(o, n, b, len(b), level)
    return o.raw[:k]


def caibx(entries, prm=PRM, flags=0xd000000000000000):
    """entries: (end offset, id)"""
    n = len(entries)
    return (struct.pack("<6Q", 48, 0x96824d9c7b129ff9, flags, *prm) + struct.pack("<2Q", (1 << 64) - 1, 0xe75b9e112f17417d) +
            b"".join(struct.pack("<Q", o) + i for o, i in entries) +
            struct.pack("<5Q", 0, 0, 48, 16 + (n + 1) * 40, 0x4b4f050e5549ecd1))


def entries(chunks):
    out, o = [], 0
    for c in chunks:
        o += len(c)
        out.append((o, sha(c)))
    return out


def path(n):
    return os.path.join(TMP, n)


def write(n, b):
    with open(path(n), "wb") as f:
        f.write(b)
    return path(n)


def read(n):
    with open(path(n), "rb") as f:
        return f.read()


def chunk_path(i, enc=False):
    h = i.hex()
    return "/%s/%s.cacnk%s" % (h[:4], h, ".enc" if enc else "")


class Server:
    """answer(path) -> (status, body) or a function writing to the raw socket itself; .log holds the requested paths"""

    def __init__(self, answer):
        self.log = log = []

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"
            disable_nagle_algorithm = True

            def do_GET(self):
                log.append(self.path)
                a = answer(self.path)
                if callable(a):
                    self.close_connection = True
                    a(self)
                    return
                st, body = a
                self.send_response(st)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body)

            def log_message(self, *a):
                pass
        self.s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.s.daemon_threads = True
        threading.Thread(target=self.s.serve_forever, daemon=True).start()
        self.url = "http://127.0.0.1:%d" % self.s.server_address[1]


def table(chunks, status=404, bodies=None, enc=False):
    t = {chunk_path(sha(c), enc): (200, zc(c)) for c in chunks}
    t.update(bodies or {})
    return lambda p: t.get(p, (status, b""))


def run(tool, *args, env=None, stdin=b"", timeout=120, preload=None, arg0=None, stdout=subprocess.PIPE):
    e = dict(os.environ)
    for k in ("LOGLEVEL", "CSN_KCAPI_DRIVER", "http_proxy", "HTTP_PROXY", "all_proxy"):
        e.pop(k, None)
    e["ASAN_OPTIONS"] = "detect_leaks=0:verify_asan_link_order=0"
    if preload:
        e["LD_PRELOAD"] = preload
    e.update(env or {})
    try:
        p = subprocess.run([arg0 or tool] + list(args), executable=os.path.join(BUILD, tool), input=stdin, stdout=stdout, stderr=subprocess.PIPE, env=e,
                           cwd=TMP, timeout=timeout)
    except subprocess.TimeoutExpired:
        done(False, "%s does not end" % tool)
    return p


def csn(*args, **kw):
    return run("csn", *args, **kw)


def casync(*args, **kw):
    return run("csn", *args, arg0="casync", **kw)


def shim(src):
    c = write("shim.c", src.encode())
    so = path("shim.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, c, "-ldl"], check=True)
    return so


def done(ok, why=""):
    shutil.rmtree(TMP, ignore_errors=True)
    print("as it should be" if ok else "BROKEN: " + why)
    sys.stdout.flush()
    os._exit(0 if ok else 1)


def need(cond, why):
    if not cond:
        done(False, why)
