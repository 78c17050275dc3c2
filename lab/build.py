"""Builds /repo's current working tree (per variant, keyed by a hash of the sources) and the native helpers."""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CSNV_REPO", "/repo")
NATIVE = os.path.join(VERIF, "lab", "native")
ROOT = os.environ.get("CSNV_ROOT") or os.path.join(VERIF, "build")

WRAPS_IO = """read pread pread64 write pwrite pwrite64 readv preadv writev pwritev open open64 openat close dup fstat fstat64
stat stat64 lstat lstat64 lseek lseek64 fallocate fallocate64 posix_fallocate posix_fallocate64 ioctl ftruncate ftruncate64 fsync fdatasync usleep nanosleep clock_nanosleep sleep clock_gettime gettimeofday time poll select socket bind accept accept4 send sendto recv recvfrom""".split()
WRAPS_CURL = "curl_easy_setopt curl_easy_perform curl_easy_getinfo curl_easy_duphandle curl_easy_reset curl_easy_cleanup".split()

SAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all"
VARIANTS = {
    "san": dict(cflags=SAN, defs=["-DCSN_SANITIZE=ON"]),
    "plain": dict(cflags="-O1 -g", defs=[]),
}
COMMON = "-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -Wno-deprecated-declarations -Wno-error"


class BuildError(Exception):
    pass


def _files(top, skip=(".git", "_build", "__pycache__")):
    out = []
    for d, dirs, fs in os.walk(top):
        dirs[:] = sorted(x for x in dirs if x not in skip)
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    return out


def tree_hash(*tops):
    h = hashlib.sha256()
    for top in tops:
        for f in _files(top):
            try:
                data = open(f, "rb").read()
            except OSError:
                continue
            h.update(os.path.relpath(f, top).encode() + b"\0" + hashlib.sha256(data).digest())
    return h.hexdigest()[:20]


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-8000:]))
    return r.stdout


class _Lock:
    def __init__(self, name):
        os.makedirs(ROOT, exist_ok=True)
        self.f = open(os.path.join(ROOT, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def native():
    """libref.so and libshim.a; returns their directory"""
    with _Lock("native"):
        h = tree_hash(NATIVE)
        d = os.path.join(ROOT, "native-" + h)
        if os.path.exists(os.path.join(d, "done")):
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        _run(["gcc", "-O2", "-shared", "-fPIC", "-o", d + "/libref.so", NATIVE + "/ref.c"])
        for s in ("shim_io", "shim_curl"):
            _run(["gcc", "-O1", "-g", "-w", "-U_FORTIFY_SOURCE", "-c", "-o", d + "/%s.o" % s, NATIVE + "/%s.c" % s])
        _run(["ar", "rcs", d + "/libshim.a", d + "/shim_io.o", d + "/shim_curl.o"])
        open(d + "/done", "w").close()
        return d


def build(variant):
    """returns the directory with csn, casync, csn-tool and patchdd of that variant"""
    nd = native()
    v = VARIANTS[variant]
    with _Lock(variant):
        h = tree_hash(REPO)
        d = os.path.join(ROOT, "%s-%s-%s" % (variant, h, os.path.basename(nd)[-8:]))
        if os.path.exists(os.path.join(d, "done")):
            return d
        # drop builds of older trees, but not those that another run may be using
        old = [os.path.join(ROOT, x) for x in os.listdir(ROOT) if x.startswith(variant + "-")]
        for x in sorted(old, key=os.path.getmtime)[:-8]:
            shutil.rmtree(x, ignore_errors=True)
        os.makedirs(d)
        wraps = " ".join("-Wl,--wrap=" + w for w in WRAPS_IO + WRAPS_CURL)
        env = dict(os.environ, CC="gcc")
        for k in ("CFLAGS", "LDFLAGS", "CPPFLAGS"):
            env.pop(k, None)
        _run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_BUILD_TYPE=None",
              "-DBUILD_TESTING=OFF", "-DBUILD_CSN=ON", "-DBUILD_CSN_TOOL=ON", "-DBUILD_PATCHDD=ON", "-DBUILD_CSN_BENCH=OFF",
              "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
              "-DCMAKE_C_FLAGS=%s %s" % (v["cflags"], COMMON),
              "-DCMAKE_EXE_LINKER_FLAGS=" + wraps,
              "-DCMAKE_C_STANDARD_LIBRARIES=%s/libshim.a" % nd] + v["defs"], env=env)
        _run(["ninja", "-C", d], env=env)
        os.symlink("csn", os.path.join(d, "casync"))
        open(os.path.join(d, "done"), "w").close()
        return d


if __name__ == "__main__":
    print(native())
    for v in sys.argv[1:] or VARIANTS:
        print(build(v))
