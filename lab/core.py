"""Running the tools under observation, and the frame every check runs in."""
import fcntl, hashlib, importlib, json, multiprocessing, os, random, re, select, shutil, signal, struct, subprocess, sys, tempfile, termios, threading, time, traceback
from . import build

VERIF = build.VERIF
TIMEOUT = 40
OUTCAP = 400_000
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:"
                    "malloc_context_size=8:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
}
SAN_RE = re.compile(rb"AddressSanitizer|runtime error:|LeakSanitizer|UndefinedBehaviorSanitizer|assertion failed|MemorySanitizer")


class Harness(Exception):
    pass


class Hung(Exception):
    """a run did not end: it is recorded, and the case goes no further"""


class Run:
    __slots__ = "argv rc out err events hung wall plan".split()

    @property
    def killed(self):
        return self.rc == -9 and any(e[0] == "K" for e in self.events)

    @property
    def crash(self):
        """text if the program ended abnormally"""
        if self.hung:
            return "hang: no end after %d s (or millions of operations)" % TIMEOUT
        if self.killed:
            return None
        if self.rc < 0:
            return "signal %d: %s" % (-self.rc, self.tail())
        if self.rc == 77 or SAN_RE.search(self.err):
            m = SAN_RE.search(self.err)
            p = m.start() if m else 0
            return "sanitizer: " + self.err[max(0, p - 100):p + 900].decode("latin-1")
        return None

    def tail(self):
        return self.err[-700:].decode("latin-1")

    def ev(self, kind, role=None):
        return [e for e in self.events if e[0] == kind and (role is None or e[1] == role)]


class _Pty:
    def __init__(self, fd, limit=None):
        self.fd = fd
        self.limit = limit      # hung up after so many bytes

    def fileno(self):
        return self.fd

    def close(self):
        os.close(self.fd)


def _pump(p, timeout, stdin_data=None):
    """communicate() that keeps only the first OUTCAP bytes of each stream"""
    bufs = {}
    poll = select.poll()
    fds = {}
    for name in ("stdout", "stderr"):
        f = getattr(p, name)
        bufs[name] = bytearray()
        if f is not None:
            fds[f.fileno()] = (name, f)
            poll.register(f.fileno(), select.POLLIN | select.POLLHUP)
    if p.stdin is not None:
        def feed():
            try:
                p.stdin.write(stdin_data or b"")
                p.stdin.close()
            except OSError:
                pass
        threading.Thread(target=feed, daemon=True).start()
    end = time.monotonic() + timeout
    hung = False
    while fds:
        left = end - time.monotonic()
        if left <= 0:
            hung = True
            break
        for fd, _ in poll.poll(min(left, 1.0) * 1000):
            try:
                d = os.read(fd, 65536)
            except OSError:  # a terminal whose other side is gone
                d = b""
            name, f = fds[fd]
            if not d:
                poll.unregister(fd)
                del fds[fd]
                continue
            b = bufs[name]
            if len(b) < (OUTCAP if f.__class__ is not _Pty else 20 * OUTCAP):
                b += d
            if getattr(f, "limit", None) is not None and len(b) >= f.limit:
                poll.unregister(fd)
                del fds[fd]
                f.close()
                setattr(p, name, None)
    if not hung:
        try:
            p.wait(max(0.1, end - time.monotonic()))
        except subprocess.TimeoutExpired:
            hung = True
    if hung:
        p.kill()
        p.wait()
    for name in ("stdout", "stderr"):
        f = getattr(p, name)
        if f is not None:
            f.close()
    return bytes(bufs["stdout"]), bytes(bufs["stderr"]), hung


NOISE = {
    "COLUMNS": ("1", "0", "-5", "80", "99999999999", "x", ""), "LINES": ("1", "0", "24"), "TERM": ("dumb", "xterm-256color", "linux", "", "vt100"),
    "LANG": ("de_DE.UTF-8", "C.UTF-8", "tr_TR.UTF-8", "ja_JP.eucJP", ""), "LC_ALL": ("de_DE.UTF-8", "C.UTF-8", "tr_TR.UTF-8", "", "xx"),
    "LC_NUMERIC": ("de_DE.UTF-8",), "TZ": ("UTC", "Pacific/Kiritimati", ":x", "", "XXX-99", "Europe/Berlin"), "NO_COLOR": ("1", ""), "CLICOLOR_FORCE": ("1",), "FORCE_COLOR": ("1", "0"),
    "CI": ("true",), "DEBUG": ("1", "*"), "VERBOSE": ("1",), "QUIET": ("1",), "USER": ("root", "nobody", ""), "LOGNAME": ("root",), "SUDO_USER": ("x",), "HOSTNAME": ("", "h"),
    "SHELL": ("/bin/false",), "PWD": ("/", ""), "OLDPWD": ("/",), "EDITOR": ("vi",), "PAGER": ("less",), "SYSTEMD_LOG_LEVEL": ("debug",), "JOURNAL_STREAM": ("8:1234",),
    "INVOCATION_ID": ("0" * 32,), "NOTIFY_SOCKET": ("@x",), "WATCHDOG_USEC": ("1000",), "SOURCE_DATE_EPOCH": ("0", "1700000000"), "OMP_NUM_THREADS": ("1", "64"),
    "CASYNC_VERBOSE": ("1",), "CSN_DEBUG": ("1",), "LOGLEVEL": ("debug", "err", "warn", "nonsense", ""), "_": ("/usr/bin/csn",), "SHLVL": ("1",), "MAIL": ("",),
}


def noise(r):
    """variables that are around in one place or another and are of no consequence"""
    return {k: r.choice(NOISE[k]) for k in r.sample(sorted(NOISE), r.choice((1, 2, 4, 8)))}


def clock(r):
    """a plan line: machines without a battery for their clock believe it to be any time, and are told better later"""
    start = r.choice(("0", "1", "5", "86400", "315532800", "946684800", "1000000000", "1577836799", "1700000000", "2147483640", "2147483648", "4102444800", "4294967290"))
    if r.random() < .5:
        return "rtc " + start
    return "rtc %s %d %d" % (r.choice((start, "-")), r.choice((1, 2, 3, 5, 20)), r.choice((1, 5, 30, 3600, 86400, 1700000000, -1, -30, -3600, -86400, -1000000000)))


class Case:
    """what one case of a check works with"""

    def __init__(self, check, seed, tier, key, srv=None, keep=False):
        self.check, self.seed, self.tier, self.key = check, seed, tier, key
        self.rng = random.Random("%s|%s|%s" % (check, seed, key))
        self.tmp = tempfile.mkdtemp(prefix="csnv-", dir=SCRATCH)
        self.srv = srv
        self.stats = {}
        self.sigs = set()
        self.samples = []
        self.problems = []
        self.nplan = 0
        self.lock = threading.Lock()
        self.routes = []
        self.uid = "%08x" % random.SystemRandom().getrandbits(32)
        self.runs = 0
        self.last = []
        self.born = int(time.time())
        self.odd_names = True
        r = random.Random("%s|%s|%s|noise" % (check, seed, key))
        self.noise = noise(r) if r.random() < .1 else {}
        self.clock = clock(r) if r.random() < .1 else None
        if srv is not None:
            r = random.Random("%s|%s|%s|decor" % (check, seed, key))
            srv.decor = r if r.random() < .4 else None

    # -- files
    def path(self, name):
        return os.path.join(self.tmp, name)

    def write(self, name, data):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(data)
        self.age(p)
        return p

    def age(self, p):
        """files are of all ages, whatever the order they are written in"""
        r = random.Random("%s|%s|%s" % (self.seed, self.key, os.path.basename(p)))
        if r.random() < .6:
            t = r.choice((0, 1, 86400, 1000000000, 1700000000, self.born - 100000, self.born - 3600, self.born - 1, self.born, self.born + 2, self.born + 3600, 1 << 32, 5000000000))
            os.utime(p, (t, t))

    def read(self, p):
        with open(os.path.join(self.tmp, p), "rb") as f:
            return f.read()

    # -- observation counters
    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def sig(self, *x):
        self.sigs.add(hashlib.md5(repr(x).encode()).hexdigest()[:12])

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text[:600])

    def fail(self, key, msg):
        self.problems.append((key, msg, [describe(r) for r in self.last[-3:]]))

    # -- http
    def route(self, name, handler):
        pre = "%s-%s" % (self.uid, name)
        log = self.srv.route(pre, handler)
        self.routes.append(pre)
        return self.srv.url(pre), log

    # -- running
    def run(self, tool, args, plan=None, env=None, stdin=None, variant="san", timeout=None, wrapper=None, cwd=None, streams=None,
            arg0=None, crash_ok=False, logplan=True):
        d = BINS[variant]
        exe = os.path.join(d, tool)
        e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "LOGLEVEL": "info"}
        # whoever wants to keep something between runs does it where we see it
        e.update({k: self.tmp for k in ("HOME", "TMPDIR", "XDG_CACHE_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR")})
        e.update(self.noise)
        e.update(SAN_ENV)
        e.update(env or {})
        e = {k: v for k, v in e.items() if v is not None}
        lp = None
        if plan is not None:
            with self.lock:
                self.nplan += 1
                k = self.nplan
            pp = self.path(".plan%d" % k)
            lp = self.path(".log%d" % k)
            with open(pp, "w") as f:
                f.write("\n".join((["log " + lp] if logplan else []) + ([self.clock] if self.clock else []) + list(plan)) + "\n")
            e["CSNV_PLAN"] = pp
        argv = (wrapper or []) + [exe] + list(args)
        # streams: how standard input, output and error are set up: "pipe", "pty", "closed", "null", or a path; "hup:N": a terminal that is hung up
        # after N bytes; "gone:N": a pipe whose reader goes after N bytes, SIGPIPE being ignored
        kinds = dict(stdin="pipe" if stdin is not None else "null", stdout="pipe", stderr="pipe")
        kinds.update(streams or {})
        window = kinds.pop("window", None)
        shut = "".join({"stdin": " <&-", "stdout": " >&-", "stderr": " 2>&-"}[k] for k, v in kinds.items() if v == "closed")
        if shut:
            argv = ["/bin/sh", "-c", 'exec "$0" "$@"' + shut] + argv
        pop, masters, slaves, limits = {}, {}, [], {}
        for k, v in kinds.items():
            if v == "pipe":
                pop[k] = subprocess.PIPE
            elif v in ("null", "closed"):
                pop[k] = subprocess.DEVNULL
            elif v.startswith("gone:") and k != "stdin":
                m, pop[k] = os.pipe()
                masters[k] = m
                slaves.append(pop[k])
                limits[k] = int(v[5:])
            elif v == "pty" or v.startswith(("hup:", "gone:")):
                m, sl = os.openpty()
                if v != "pty":
                    limits[k] = int(v.split(":")[1])
                if window:
                    cols, rows = map(int, window.split("x"))
                    fcntl.ioctl(sl, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
                pop[k] = sl
                masters[k] = m
                slaves.append(sl)
            elif v == "same":
                pop[k] = subprocess.STDOUT
            else:
                pop[k] = os.open(v, os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o644)
                slaves.append(pop[k])
        r = Run()
        r.argv = argv
        r.plan = list(plan or [])
        t0 = time.monotonic()
        p = subprocess.Popen(argv, env=e, cwd=cwd or self.tmp, restore_signals=not any(v.startswith("gone:") for v in kinds.values()), **pop)
        for x in slaves:
            os.close(x)
        for k, m in masters.items():
            if limits.get(k) == 0:
                os.close(m)
                continue
            setattr(p, k, _Pty(m, limits.get(k)))
        if "stdin" in masters:
            if limits.get("stdin") != 0:
                os.close(masters["stdin"])
            p.stdin = None
        r.out, r.err, r.hung = _pump(p, timeout or TIMEOUT, stdin)
        r.rc = p.returncode
        r.wall = time.monotonic() - t0
        r.events = []
        if lp and os.path.exists(lp):
            with open(lp, errors="replace") as f:
                r.events = [l.split() for l in f.read(64 << 20 if r.hung or r.rc == 92 else -1).split("\n") if l]
            os.unlink(lp)
        if r.rc in (94, 95, 96, 97, 98, 99) and plan is not None:
            raise Harness("shim refused the plan (rc %d): %r" % (r.rc, r.plan))
        if r.rc == 92 and plan is not None:  # more than 256 MiB of events
            r.hung = True
        if plan is not None and logplan and not r.ev("I") and not r.hung:
            raise Harness("no event log from %r rc=%d %s" % (argv, r.rc, r.tail()))
        self.runs += 1
        self.count("runs")
        self.last.append(r)
        if r.crash and not crash_ok:
            self.fail("abnormal end", "%s ended abnormally: %s" % (os.path.basename(tool), r.crash))
            if r.hung and threading.current_thread() is threading.main_thread():
                raise Hung()
        return r

    def close(self):
        for p in self.routes:
            self.srv.unroute(p)
        shutil.rmtree(self.tmp, ignore_errors=True)


def describe(r):
    return {"argv": r.argv, "rc": r.rc, "plan": r.plan, "stderr": r.tail(), "events_tail": [" ".join(e) for e in r.events[-12:]]}


# ---- the frame ------------------------------------------------------------
SCRATCH = None
BINS = {}
_srv = None
_mod = None
_args = None


def _worker_init():
    global _srv
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from .server import Server
    _srv = Server()


def _descendants():
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    kids.setdefault(int(f.read().rsplit(")", 1)[1].split()[1]), []).append(int(d))
            except (OSError, IndexError):
                pass
    res, todo = [], [os.getpid()]
    while todo:
        for k in kids.get(todo.pop(), []):
            res.append(k)
            todo.append(k)
    return res


def _free():
    v = os.statvfs(SCRATCH)
    return v.f_bavail * v.f_frsize


def _guard():
    """orphans of ours come back to us (to be ended at the end); a tool that fills the disk is ended"""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    except Exception:
        pass
    base = _free()

    def watch():
        while True:
            time.sleep(0.5)
            try:
                if base - _free() < 24 << 30:
                    continue
                for k in _descendants():
                    try:
                        if os.path.dirname(os.readlink("/proc/%d/exe" % k)) not in BINS.values():
                            continue
                        with open("/proc/%d/io" % k) as f:
                            if int(re.search(r"wchar: (\d+)", f.read()).group(1)) > 3 << 30:
                                os.kill(k, signal.SIGKILL)
                    except (OSError, AttributeError):
                        pass
            except OSError:
                pass
    threading.Thread(target=watch, daemon=True).start()


def _end_strays():
    for _ in range(3):
        l = _descendants()
        for k in l:
            try:
                os.kill(k, signal.SIGKILL)
            except OSError:
                pass
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except OSError:
            pass
        if not l:
            break
        time.sleep(0.05)


def _one(key, attempt=0):
    check, seed, tier = _args
    c = Case(check, seed, tier, key, _srv)
    try:
        try:
            _mod.case(c, key)
            err = None
        except Hung:
            err = None
        except Exception:
            err = traceback.format_exc()
        return dict(key=key, stats=c.stats, sigs=c.sigs, samples=c.samples, problems=c.problems, err=err)
    finally:
        c.close()


def _task(key):
    r = _one(key)
    if r["err"] and not r["problems"]:
        r2 = _one(key, 1)
        if not r2["err"]:
            r = r2
            r["stats"]["inconclusive"] = r["stats"].get("inconclusive", 0) + 1
    if r["problems"]:
        # confirm: a problem counts if the same case shows one again
        again = []
        for i in range(2):
            again.append(_one(key, i + 1))
            if again[-1]["problems"]:
                break
        r["confirmed"] = any(a["problems"] for a in again)
    return r


def load_known():
    known = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)", l)
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return known


def main(check, tier, seed, only=None, verbose=False):
    global SCRATCH, BINS, _mod, _args
    t0 = time.monotonic()
    os.environ.pop("CSNV_PLAN", None)
    base = tempfile.mkdtemp(prefix="csnv-%s-" % check)
    SCRATCH = base
    try:
        return _main(check, tier, seed, only, verbose, t0)
    except build.BuildError as e:
        print("build failed:\n%s" % e)
        return 2
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(check, tier, seed, only, verbose, t0):
    global BINS, _mod, _args
    _mod = importlib.import_module("lab.checks." + check.lower())
    BINS = {v: build.build(v) for v in getattr(_mod, "VARIANTS", ["san"])}
    _args = (check, seed, tier)
    keys = [only] if only is not None else list(_mod.cases(tier))
    if only is None and os.environ.get("CSNV_FRACTION"):
        keys = random.Random(seed).sample(keys, max(1, int(len(keys) * float(os.environ["CSNV_FRACTION"]))))
    total = {"stats": {}, "sigs": set(), "samples": [], "bad": [], "errs": [], "unconfirmed": []}
    known = load_known().get(check, {})
    known_hit = {}

    def absorb(r):
        for k, v in r["stats"].items():
            total["stats"][k] = max(total["stats"].get(k, 0), v) if k.startswith("max_") else total["stats"].get(k, 0) + v
        total["sigs"] |= r["sigs"]
        if len(total["samples"]) < 8:
            total["samples"] += r["samples"][:8 - len(total["samples"])]
        if r["problems"]:
            fresh = []
            for p in r["problems"]:
                full = "%s: %s" % (r["key"], p[0])
                if p[0] in known:
                    known_hit[p[0]] = known[p[0]]
                else:
                    fresh.append(p)
            if fresh:
                (total["bad"] if r.get("confirmed") else total["unconfirmed"]).append((r["key"], fresh))
        elif r["err"]:
            total["errs"].append((r["key"], r["err"]))

    nproc = min(getattr(_mod, "PROCS", 8), os.cpu_count() or 8)
    _guard()
    with multiprocessing.Pool(nproc, _worker_init) as pool:
        it = pool.imap_unordered(_task, keys, chunksize=1)
        for _ in keys:
            try:
                r = it.next(max(1, 800 - (time.monotonic() - t0)) if tier == "quick" and only is None else None)
            except multiprocessing.TimeoutError:
                if not total["bad"]:
                    total["errs"].append(("-", "no end within 800 s; %d cases done" % total["stats"].get("runs", 0)))
                pool.terminate()
                break
            absorb(r)
            if len(total["bad"]) >= (1 if os.environ.get("CSNV_STOP") else 3) or len(total["errs"]) >= 20:
                pool.terminate()
                break
    wall = time.monotonic() - t0
    _end_strays()

    for k, msg in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (check, msg))
    rc = 0
    if total["bad"]:
        rd = os.path.join(VERIF, "replay", check)
        os.makedirs(rd, exist_ok=True)
        for key, probs in total["bad"][:3]:
            p = os.path.join(rd, hashlib.md5(("%s%s%s" % (key, seed, tier)).encode()).hexdigest()[:10] + ".json")
            with open(p, "w") as f:
                json.dump({"check": check, "seed": seed, "tier": tier, "case": key,
                           "replay": "python3 run.py %s --replay %s" % (check, p),
                           "problems": [{"key": a, "message": b, "runs": c} for a, b, c in probs]}, f, indent=1)
            for a, b, _ in probs[:3]:
                print("  case %s: %s: %s" % (key, a, b[:1500]))
            print("VIOLATION property=%s replay=%s" % (check, p))
        rc = 1
    elif total["errs"]:
        print("harness errors in %d cases; first:\ncase %s\n%s" % (len(total["errs"]), *total["errs"][0]))
        rc = 2
    elif only is None and not os.environ.get("CSNV_FRACTION"):
        for k, n in getattr(_mod, "REQUIRE", {}).items():
            if total["stats"].get(k, 0) < n:
                print("inconclusive: observed only %d of at least %d %s" % (total["stats"].get(k, 0), n, k))
                rc = 2
    for key, probs in total["unconfirmed"]:
        print("  not reproduced (inconclusive): case %s: %s: %s" % (key, probs[0][0], probs[0][1][:600]))
        if verbose:
            print(json.dumps(probs[0][2], indent=1)[:3000])

    if only is None and not os.environ.get("CSNV_FRACTION"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"evaluations": total["stats"].get("runs", 0), "distinct_nontrivial": len(total["sigs"]), "rule": _mod.RULE,
               "samples": total["samples"], "cases": len(keys), "not_reproduced": len(total["unconfirmed"]),
               "observed": {k: v for k, v in sorted(total["stats"].items()) if k != "runs"}}
        with open(os.path.join(VERIF, "evidence", check + ".json"), "w") as f:
            json.dump({"property": check, "tier": tier, "seed": seed, "level": getattr(_mod, "LEVEL", "exploration"), "coverage": cov,
                       "assumptions": getattr(_mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(total["bad"])}, f, indent=1)
    print("%s %s seed=%d: %d cases, %d runs, %d distinct, %d violations, %.1f s" %
          (check, tier, seed, len(keys), total["stats"].get("runs", 0), len(total["sigs"]), len(total["bad"]), wall))
    print("   " + ", ".join("%s=%s" % kv for kv in sorted(total["stats"].items())))
    return rc
