"""Content and scenario generators."""
import struct
from . import ref
from .model import *

SMALL = [(64, 256, 1024), (16, 64, 256), (128, 512, 4096), (50, 200, 800), (1000, 3000, 9000), (47, 48, 49), (1, 2, 30), (300, 5000, 20000)]
BIG = [(16384, 65536, 262144), (4096, 16384, 65536), (10000, 65536, 262144)]


def rb(rng, n):
    return rng.randbytes(n)


def content(rng, n):
    """bytes with structure: random, runs, repeats, low entropy"""
    out = bytearray()
    while len(out) < n:
        k = rng.choice((1, 7, 48, 49, 64, 100, 300, 1000, 5000, 20000))
        k = min(k, n - len(out)) if rng.random() < .9 else n - len(out)
        w = rng.random()
        if w < .5:
            out += rng.randbytes(k)
        elif w < .65:
            out += bytes([rng.choice((0, 0, 255, rng.randrange(256)))]) * k
        elif w < .8 and len(out):
            s = rng.randrange(len(out))
            out += (bytes(out[s:s + k]) or b"\0")
        else:
            a = rng.randbytes(rng.choice((1, 2, 3, 48)))
            out += (a * (k // len(a) + 1))[:k]
    return bytes(out[:n])


def params(rng, big=.15):
    if rng.random() < big:
        return rng.choice(BIG)
    if rng.random() < .5:
        return rng.choice(SMALL[:3])
    if rng.random() < .6:
        return rng.choice(SMALL)
    mn = rng.randrange(1, 600)
    avg = mn + rng.randrange(1, 800)
    return mn, max(avg, 2), max(avg, 2) + rng.randrange(1, 4000)


def image(rng, prm, nchunks=None, hostile=False):
    """a CDC-chunked image with some repeated chunks; returns list of chunks"""
    mn, avg, mx = prm
    n = nchunks if nchunks is not None else rng.choice((1, 2, 3, 5, 8, 13, 20))
    if nchunks is None and rng.random() < .02:
        n = rng.choice((120, 300, 700))
    size = max(1, min(int(max(avg, 48) * n * rng.uniform(.5, 1.3)), 1500_000 if avg > 4000 else 200_000 if n > 100 else 80_000))
    data = content(rng, size)
    return ref.cdc_chunks(data, prm)


def repeat(rng, chunks):
    """inserts repeats: immediate and distant ones"""
    out = []
    for ch in chunks:
        out.append(ch)
        if rng.random() < .15:
            out += [ch] * rng.randrange(1, 3)
        if rng.random() < .12:
            out.append(rng.choice(out))
    return out


# pairs of chunks whose SHA-256 agree in bytes 0-7, 8-15, 16-23 or 24-31 (found by a parallel collision search)
TWINS = [tuple(struct.pack("<Q", x) + b"casync-n" for x in p) for p in (
    (0x0e1f6564f678d579, 0xc57549db05579336), (0x83523c477b73eb57, 0x5f500df405ef64b7),
    (0xb09e99bc14d204b4, 0xf4030a1de50c4731), (0xe4886b28dae67c6a, 0xb8d044241672659f))]


def add_twins(rng, chunks):
    """puts such a pair among the chunks, next to each other or not"""
    a, b = rng.choice(TWINS + TWINS[:1] * 2)
    if rng.random() < .5:
        a, b = b, a
    i = rng.randrange(len(chunks) - 1)
    j = i + 1 if rng.random() < .4 else rng.randrange(i + 1, len(chunks))
    chunks[i], chunks[j] = a, b
    return chunks


def free_chunks(rng, n=None, sizes=None):
    """chunks with arbitrary boundaries, not produced by any chunker"""
    if n is None and rng.random() < .02:
        n, sizes = rng.choice((120, 300, 700)), (1, 2, 47, 48, 64, 100, 500)
    n = n if n is not None else rng.choice((1, 2, 4, 7, 12))
    out = []
    for _ in range(n):
        k = rng.choice(sizes or (1, 2, 47, 48, 49, 63, 64, 100, 500, 1000, 4095, 4096, 4097, 16384, 65536)) if rng.random() < .8 or n > 100 else rng.randrange(1, 30000)
        out.append(content(rng, k))
    if n > 1 and rng.random() < .08 and (not sizes or min(sizes) <= 100):
        add_twins(rng, out)
    return out


def mutate(rng, b, n=None):
    """changes some bytes (same length)"""
    b = bytearray(b)
    if not b:
        return bytes(b)
    for _ in range(n or rng.choice((1, 1, 2, 5))):
        p = rng.randrange(len(b))
        b[p] ^= 1 << rng.randrange(8)
    return bytes(b)


def complement(b):
    return bytes(x ^ 255 for x in b)


def target_for(rng, chunks, kind=None):
    """an initial target content relative to the image"""
    img = b"".join(chunks)
    kind = kind or rng.choice(("zero", "compl", "empty", "short", "prefix", "prefix", "exact", "long", "hole", "lastbad", "random"))
    if kind == "zero":
        t = bytes(len(img))
    elif kind == "compl":
        t = complement(img)
    elif kind == "empty":
        t = b""
    elif kind == "short":
        t = complement(img)[:rng.randrange(len(img) + 1)]
    elif kind == "prefix":
        k = rng.randrange(len(chunks) + 1)
        n = sum(map(len, chunks[:k]))
        t = img[:n] + complement(img[n:])
        if rng.random() < .3 and n < len(img):
            t = t[:rng.randrange(n, len(img))]
    elif kind == "exact":
        t = img
    elif kind == "long":
        t = complement(img) + rng.randbytes(rng.randrange(1, 3000))
    elif kind == "hole":
        t = bytearray(img)
        k = rng.randrange(len(chunks)) if chunks else 0
        n = sum(map(len, chunks[:k]))
        if t:
            t[min(n + rng.randrange(max(1, len(chunks[k]))), len(t) - 1)] ^= 1 << rng.randrange(8)
        t = bytes(t) + rng.randbytes(rng.choice((0, 5)))
    elif kind == "lastbad":
        t = bytearray(img)
        if t:
            t[-1] ^= 0x40
        t = bytes(t)
    else:
        t = rng.randbytes(len(img))
    return t


def near(rng, cid, pos=None):
    """an id that agrees with cid except for one bit"""
    b = bytearray(cid)
    p = pos if pos is not None else rng.choice((31, 30, 24, 16, 15, 8, 7, 4, 3, 1, 0, rng.randrange(32)))
    b[p] ^= 1 << rng.randrange(8)
    return bytes(b)


def with_zero_byte(rng, n, pos):
    """a chunk whose id has a zero byte at pos"""
    while True:
        d = rng.randbytes(n)
        if ref.sha(d)[pos] == 0:
            return d


def http_all(chunks, key=None, **kw):
    return Http({ref.sha(x): ok(x, key) for x in chunks}, key=key, **kw)
