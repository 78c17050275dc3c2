"""Encrypted stores: XChaCha20 with the right key, nothing else."""
from .. import ref, gen
from ..model import *

RULE = ("each case makes chunks and an encrypted HTTP store with an independent XChaCha20 (or with csn-tool) and extracts with the right key under random "
        "segmentations, retries in the middle of a body and several encrypted stores, or serves it with a wrong key, plain data as encrypted, encrypted as "
        "plain, other nonce or counter, where nothing may be taken. Distinct by key kind, sizes, segmentation and variant")
ASSUMPTIONS = ["the independent XChaCha20 of lab/native/ref.c, checked against published vectors at each start"]
REQUIRE = {"runs": 300, "chunks": 2000, "refused_stores": 100, "chosen_ids": 2000, "mined_chunks": 500}


def cases(tier):
    n = 330 if tier == "quick" else 2500
    out = ["%s/%d" % (k, i) for i in range(n) for k in ("right", "segs", "retry", "wrong", "plainenc", "encplain", "nonce", "two", "tool", "tool2", "mixed")]
    out += ["%s/%d" % (k, i) for i in range(n // 4) for k in ("ids", "mined")]
    return out + ["big/%d" % i for i in range(n // 4)]


def vectors():
    # draft-irtf-cfrg-xchacha-03, A.3.2 (counter 0)
    key = bytes(range(0x80, 0xa0))
    nonce = bytes(range(0x40, 0x57)) + b"\x58"
    pt = (b"The dhole (pronounced \"dole\") is also known as the Asiatic wild dog, red dog, and whistling dog. It is about the size of a German shepherd but "
          b"looks more like a long-legged fox. This highly elusive and skilled jumper is classified with wolves, coyotes, jackals, and foxes in the taxonomic "
          b"family Canidae.")
    ct = bytes.fromhex("4559abba4e48c16102e8bb2c05e6947f50a786de162f9b0b7e592a9b53d0d4e98d8d6410d540a1a6375b26d80dace4fab52384c731acbf16a5923c0c48d3575d4d0d2c673b66"
                       "6faa731061277701093a6bf7a158a8864292a41c48e3a9b4c0daece0f8d98d0d7e05b37a307bbb66333164ec9e1b24ea0d6c3ffddcec4f68e7443056193a03c810e11344ca06d8ed8a2b"
                       "fb1e8d48cfa6bc0eb4e2464b748142407c9f431aee769960e15ba8b96890466ef2457599852385c661f752ce20f9da0c09ab6b19df74e76a95967446f8d0fd415e7bee2a12a114c20eb5"
                       "292ae7a349ae577820d5520a1f3fb62a17ce6a7e68fa7c79111d8860920bc048ef43fe84486ccb87c25f0ae045f0cce1e7989a9aa220a28bdd4827e751a24a6d5c62d790a66393b93111"
                       "c1a55dd7421a10184974c7c5")
    if ref.xchacha(key, nonce, pt) != ct:
        raise Exception("the reference XChaCha20 does not match the published vector")


def key_of(rng):
    return rng.choice((rng.randbytes(32), rng.randbytes(32), rng.randbytes(32), bytes(32), b"\xff" * 32, bytes([rng.randrange(256)]) + bytes(31), bytes(31) + b"\x01"))


def sized(rng, n):
    return [rng.randbytes(rng.choice((1, 2, 50, 51, 52, 63, 64, 65, 100, 127, 128, 129, 1000, 4096, 16384, rng.randrange(1, 40000)))) for _ in range(n)]


def odd_ids(rng, n):
    """chunk names that an attacker or a rare chunk might have: runs of equal bytes anywhere, single bits, near twins, counters"""
    out = []
    while len(out) < n:
        h = rng.randrange(8)
        b = bytearray(rng.randbytes(32))
        if h == 0:
            a = rng.randrange(32)
            e = rng.randrange(a, 32) + 1
            b[a:e] = bytes([rng.choice((0, 0, 0xff, 0x80, 1, 0x7f, b[a]))]) * (e - a)
        elif h == 1:
            b = bytearray(32)
            b[rng.randrange(32)] = 1 << rng.randrange(8)
        elif h == 2 and out:
            b = bytearray(rng.choice(out))
            b[rng.randrange(24)] ^= 1 << rng.randrange(8)
        elif h == 3 and out:
            b = bytearray(rng.choice(out))
            b[24:] = rng.randbytes(8)
        elif h == 4:
            b = bytearray([rng.choice((0, 255))] * 32)
        elif h == 5:
            for i in rng.sample(range(24), rng.randrange(1, 12)):
                b[i] = rng.choice((0, 0, 0xff))
        elif h == 6:
            b = bytearray(b[:4] * 8)
        out.append(bytes(b))
    return list(dict.fromkeys(out))


def ids(c, rng, k):
    """csn-tool over a list of chosen chunk names, against the reference"""
    want = {}
    for i in odd_ids(rng, 150):
        z = rng.randbytes(rng.choice((64, 65, 100, 128, 200)))
        want[c.write(i.hex() + ".cacnk", z)] = (i, z)
    names = list(want)
    rng.shuffle(names)
    r = c.run("csn-tool", ["crypt", "key:" + k.hex()], stdin="".join(x + "\n" for x in names).encode())
    if r.rc != 0:
        if not r.crash:
            c.fail("csn-tool", "exit %d\n%s" % (r.rc, r.tail()))
        return
    for f in names:
        i, z = want[f]
        c.count("chosen_ids")
        if c.read(f + ".enc") != ref.xchacha(k, i, z):
            c.fail("ciphertext", "the encrypted form of chunk %s, key %s, is not its XChaCha20 form" % (i.hex(), k.hex()))
            return
    c.sig("ids", k, names)
    c.sample("csn-tool: %d chosen chunk names, key %s, e.g. %s" % (len(names), k.hex()[:8], want[names[0]][0].hex()))


_pool = {}


def mined(rng):
    """real chunks whose identifiers have two equal bytes 00 or ff at each place of the nonce, or begin with 00"""
    if not _pool:
        for n in range(150000):
            x = b"%07d" % n
            i = ref.sha(x)
            for v in (b"\0\0", b"\xff\xff"):
                at = i.find(v, 0, 26)
                if at >= 0:
                    _pool.setdefault((v, at), []).append(x)
    out = []
    for v, at in sorted(_pool):
        if rng.random() < .7:
            out.append(rng.choice(_pool[v, at]))
    rng.shuffle(out)
    return list(dict.fromkeys(out))


def case(c, key):
    kind = key.split("/")[0]
    rng = c.rng
    vectors()
    k = key_of(rng)
    if kind == "ids":
        return ids(c, rng, k)
    n = rng.choice((1, 2, 4, 9) if kind != "mixed" else (2, 4, 9, 20))
    chunks = list(dict.fromkeys(sized(rng, n)))
    if kind == "big":
        chunks = [rng.randbytes(rng.choice((262144, 262143, 200000, 131072))) for _ in range(2)]
    if kind == "mined":
        chunks = mined(rng)
        c.count("mined_chunks", len(chunks))
    seq = gen.repeat(rng, chunks)
    table = {ref.sha(x): x for x in chunks}
    plan = []
    if kind in ("segs", "big", "two", "mixed"):
        plan = rng.choice((["csegs 1"], ["csegs %d" % rng.choice((3, 7, 63, 64, 65, 127, 128, 1000))], ["csegs %s" % ",".join(str(rng.randrange(1, 200)) for _ in range(9))],
                           ["csegmax %d" % rng.choice((2, 70, 500, 5000)), "seed %d" % rng.randrange(1 << 30)]))
        if kind == "big" and plan == ["csegs 1"]:
            plan = ["csegs 61"]
    good, refused = True, []
    a = gen.http_all(chunks, k)
    b = gen.http_all(chunks)
    stores = [a]
    if kind == "retry":
        for x in chunks:
            body = a.table[ref.sha(x)].body
            for j in range(rng.choice((1, 2, 5))):
                plan.append("cperf %s %d %d 28 %d" % (ref.sha(x).hex()[:40], j + 1, j + 1, rng.choice((0, 1, 5, len(body) // 2, len(body) - 1, rng.randrange(len(body) + 1)))))
    elif kind == "wrong":
        w = bytearray(k)
        how = rng.randrange(3)
        if how == 0:
            w[rng.randrange(32)] ^= 1 << rng.randrange(8)
        elif how == 1:
            w = bytearray(rng.randbytes(32))
        else:
            w[31] ^= 0x80
        a.keyspec = "key:" + bytes(w).hex()
        stores, good = [a, b], False
    elif kind == "plainenc":
        a.table = {i: ok(x) for i, x in table.items()}
        stores, good = [a, b], False
    elif kind == "encplain":
        a = Http({i: Resp(200, ref.xchacha(k, i, ref.zc(x))) for i, x in table.items()})
        stores, good = [a, b], False
    elif kind == "nonce":
        how = rng.randrange(4)

        def enc(i, x):
            z = ref.zc(x)
            if how == 0:
                return ref.xchacha(k, gen.near(rng, i, rng.randrange(24)), z)
            if how == 1:
                return ref.xchacha(k, i, b"\0" * 64 + z)[64:]
            if how == 2:
                return ref.xchacha(k, i[8:], z)
            return ref.xchacha(k[1:] + bytes([k[0] ^ 1]), i, z)
        a.table = {i: Resp(200, enc(i, x)) for i, x in table.items()}
        stores, good = [a, b], False
    elif kind == "two":
        k2 = key_of(rng)
        m = {x for x in chunks if rng.random() < .5}
        a = gen.http_all([x for x in chunks if x in m], k)
        b = gen.http_all([x for x in chunks if x not in m], k2)
        stores = [a, b]
        if rng.random() < .5:
            stores.append(gen.http_all([], rng.randbytes(32)))
    elif kind == "tool":
        # csn-tool encrypts, csn reads
        for x in chunks:
            i = ref.sha(x)
            f = c.write(i.hex() + ".cacnk", ref.zc(x))
            r = c.run("csn-tool", ["crypt", "key:" + k.hex(), f])
            if r.rc != 0:
                c.fail("csn-tool", "exit %d\n%s" % (r.rc, r.tail()))
                return
            a.table[i] = Resp(200, c.read(f + ".enc"))
    elif kind == "tool2":
        # an independent implementation encrypts, csn-tool decrypts, csn reads it plain
        a = Http()
        stores = [a]
        for x in chunks:
            i = ref.sha(x)
            f = c.write(i.hex() + ".cacnk.enc", ref.xchacha(k, i, ref.zc(x)))
            r = c.run("csn-tool", ["crypt", "key:" + k.hex(), f])
            if r.rc != 0:
                c.fail("csn-tool", "exit %d\n%s" % (r.rc, r.tail()))
                return
            a.table[i] = Resp(200, c.read(f[:-4]))
    elif kind == "mixed":
        # some chunks are damaged or missing in the encrypted store
        for x in rng.sample(chunks, rng.randrange(min(len(chunks), 9) + 1)):
            i = ref.sha(x)
            body = ref.zc(x)
            w = rng.randrange(9)
            if w < 3:
                a.table[i] = Resp(rng.choice((400, 403, 500, 502, 503)), rng.choice((b"", b"no", body, a.table[i].body)))
                refused.append(i)
                continue
            if w == 3:
                # every attempt fails, after some of the body
                plan.append("cperf %s-s0%s/%s/%s 1 1000 %d %d" % (c.uid, known_base(c, 0, a), i.hex()[:4], i.hex(), rng.choice((28, 6, 7)), rng.choice((-1, 0, 3, len(body) // 2))))
                refused.append(i)
                continue
            a.table[i] = rng.choice((Resp(404), Resp(200, ref.xchacha(k, i, body)[:-5]), Resp(200, gen.mutate(rng, ref.xchacha(k, i, body[:4])) + b"abc"), Resp(200, b"")))
            refused.append(i)
        stores = [a, b]
    # XChaCha20 of a body of up to 4 bytes could match by chance only; larger ones never
    scn = Scn(ref.entries_of(seq), (64, 256, 1024), b"", stores, chunks=table)
    if kind not in ("retry", "mixed") or kind == "mixed" and not any(l.startswith("cperf") for l in plan):
        a.redir = any_redir(rng, .15)
    _, p = setup(c, scn)
    r = csn(c, scn, p, plan=plan or None)
    after = c.read("target")
    check_exact(c, scn, r, after)
    note = "%s, key %s, %d chunks of %s, plan %s" % (kind, k.hex()[:8], len(chunks), sorted({len(x) for x in chunks})[:6], plan[:4])
    if r.rc != 0 and not c.problems:
        c.fail("not extracted", "exit %d; %s\n%s" % (r.rc, note, r.tail()))
    if not good:
        c.count("refused_stores")
        asked = {bytes.fromhex(PATH_RE.match(q[1]).group(2)) for q in b.log}
        if asked != set(table) and not c.problems:
            c.fail("accepted", "%d chunks were taken from a store with the wrong key or coding; %s" % (len(set(table) - asked), note))
    elif len(stores) > 1 and kind == "mixed":
        asked = {bytes.fromhex(PATH_RE.match(q[1]).group(2)) for q in b.log}
        if asked - set(refused):
            c.fail("refused", "%d intact encrypted chunks were not taken; %s" % (len(asked - set(refused)), note))
    for s in stores:
        for q in s.log:
            if "/hop" not in q[1] and q[1].endswith(".enc") != bool(s.key):
                c.fail("path", "request %s to a store %s key" % (q[1], "with" if s.key else "without"))
    c.count("chunks", len(seq))
    c.sig(kind, k, [len(x) for x in chunks], plan[:1])
    c.sample(note)
