"""Independent reference pieces: chunker, SHA-256 ids, zstd, XChaCha20, index files."""
import ctypes, ctypes.util, hashlib, struct
from . import build

_lib = ctypes.CDLL(build.native() + "/libref.so")
_lib.ref_chunk.restype = ctypes.c_long
_lib.ref_chunk.argtypes = [ctypes.c_char_p, ctypes.c_size_t] + [ctypes.c_uint64] * 3 + [ctypes.c_void_p, ctypes.c_size_t]
_lib.ref_discriminator.restype = ctypes.c_uint64
_lib.ref_discriminator.argtypes = [ctypes.c_uint64]
_lib.ref_xchacha20.restype = None
_lib.ref_xchacha20.argtypes = [ctypes.c_char_p] * 3 + [ctypes.c_char_p, ctypes.c_size_t]

CHUNK_MAX = 256 * 1024


def sha(data):
    return hashlib.sha256(data).digest()


def discriminator(avg):
    return _lib.ref_discriminator(avg)


def cdc(data, params):
    """chunk end offsets of data, as casync computes them"""
    mn, avg, mx = params
    cap = len(data) // 48 + 2
    ends = (ctypes.c_uint64 * cap)()
    n = _lib.ref_chunk(bytes(data), len(data), mn, avg, mx, ends, cap)
    assert n >= 0
    return list(ends[:n])


def cdc_chunks(data, params):
    out, last = [], 0
    for e in cdc(data, params):
        out.append(data[last:e])
        last = e
    return out


def xchacha(key, nonce, data):
    assert len(key) == 32 and len(nonce) >= 24
    out = ctypes.create_string_buffer(len(data) or 1)
    _lib.ref_xchacha20(key, bytes(nonce[:24]), bytes(data), out, len(data))
    return out.raw[:len(data)]


# ---- zstd ----------------------------------------------------------------
_z = ctypes.CDLL("libzstd.so.1")
for f, r, a in [("ZSTD_compressBound", ctypes.c_size_t, [ctypes.c_size_t]),
                ("ZSTD_createCCtx", ctypes.c_void_p, []), ("ZSTD_freeCCtx", ctypes.c_size_t, [ctypes.c_void_p]),
                ("ZSTD_CCtx_setParameter", ctypes.c_size_t, [ctypes.c_void_p, ctypes.c_int, ctypes.c_int]),
                ("ZSTD_compress2", ctypes.c_size_t, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t]),
                ("ZSTD_isError", ctypes.c_uint, [ctypes.c_size_t]),
                ("ZSTD_createDCtx", ctypes.c_void_p, []), ("ZSTD_freeDCtx", ctypes.c_size_t, [ctypes.c_void_p]),
                ("ZSTD_findFrameCompressedSize", ctypes.c_size_t, [ctypes.c_char_p, ctypes.c_size_t]),
                ("ZSTD_decompress", ctypes.c_size_t, [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t])]:
    g = getattr(_z, f)
    g.restype, g.argtypes = r, a


def zc(data, level=1, checksum=False, size=True):
    """one zstd frame"""
    c = _z.ZSTD_createCCtx()
    _z.ZSTD_CCtx_setParameter(c, 100, level)
    _z.ZSTD_CCtx_setParameter(c, 200, 1 if size else 0)
    _z.ZSTD_CCtx_setParameter(c, 201, 1 if checksum else 0)
    cap = _z.ZSTD_compressBound(len(data))
    out = ctypes.create_string_buffer(cap)
    n = _z.ZSTD_compress2(c, out, cap, bytes(data), len(data))
    assert not _z.ZSTD_isError(n)
    _z.ZSTD_freeCCtx(c)
    return out.raw[:n]


def zd(body, cap=1 << 20):
    """whole-body decode of complete frames; None if it is not exactly that (or larger than cap)"""
    out = ctypes.create_string_buffer(cap)
    n = _z.ZSTD_decompress(out, cap, bytes(body), len(body))
    if _z.ZSTD_isError(n):
        return None
    return out.raw[:n]


class _Buf(ctypes.Structure):
    _fields_ = [("p", ctypes.c_void_p), ("size", ctypes.c_size_t), ("pos", ctypes.c_size_t)]


_z.ZSTD_decompressStream.restype = ctypes.c_size_t
_z.ZSTD_decompressStream.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]


_z.ZSTD_compressStream2.restype = ctypes.c_size_t
_z.ZSTD_compressStream2.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]


def zstream(data, level=3, checksum=False, window=0, pieces=(), flush=False):
    """one frame made piece by piece without telling its size, as a program that does not know it beforehand would; window: log of its size"""
    c = _z.ZSTD_createCCtx()
    _z.ZSTD_CCtx_setParameter(c, 100, level)
    _z.ZSTD_CCtx_setParameter(c, 201, 1 if checksum else 0)
    if window:
        _z.ZSTD_CCtx_setParameter(c, 101, window)
    cap = _z.ZSTD_compressBound(len(data)) + 4096 + 64 * (len(pieces) + 1)
    o = ctypes.create_string_buffer(cap)
    i = ctypes.create_string_buffer(bytes(data), len(data) or 1)
    bo = _Buf(ctypes.cast(o, ctypes.c_void_p), cap, 0)
    bi = _Buf(ctypes.cast(i, ctypes.c_void_p), 0, 0)
    for e in sorted(min(x, len(data)) for x in pieces):
        bi.size = e
        assert not _z.ZSTD_isError(_z.ZSTD_compressStream2(c, ctypes.byref(bo), ctypes.byref(bi), 1 if flush else 0))
    bi.size = len(data)
    # two calls, or else the library takes the size from the only one
    assert not _z.ZSTD_isError(_z.ZSTD_compressStream2(c, ctypes.byref(bo), ctypes.byref(bi), 0))
    assert _z.ZSTD_compressStream2(c, ctypes.byref(bo), ctypes.byref(bi), 2) == 0
    _z.ZSTD_freeCCtx(c)
    return o.raw[:bo.pos]


def zpartial(body, cap=1 << 20):
    """everything a streaming decoder can make of body before it ends or turns bad"""
    d = _z.ZSTD_createDCtx()
    try:
        o = ctypes.create_string_buffer(cap)
        i = ctypes.create_string_buffer(bytes(body), len(body) or 1)
        bo = _Buf(ctypes.cast(o, ctypes.c_void_p), cap, 0)
        bi = _Buf(ctypes.cast(i, ctypes.c_void_p), 0, 0)
        # byte by byte, so that everything in front of an error is seen
        for k in range(1, len(body) + 1):
            bi.size = k
            while bi.pos < k:
                a = (bi.pos, bo.pos)
                if _z.ZSTD_isError(_z.ZSTD_decompressStream(d, ctypes.byref(bo), ctypes.byref(bi))):
                    return o.raw[:bo.pos]
                if a == (bi.pos, bo.pos):
                    return o.raw[:bo.pos]
        return o.raw[:bo.pos]
    finally:
        _z.ZSTD_freeDCtx(d)


def zfed(body, cuts, cap=CHUNK_MAX):
    """does the streaming decoder take the body without an error if it is given in these pieces?"""
    d = _z.ZSTD_createDCtx()
    try:
        o = ctypes.create_string_buffer(cap)
        i = ctypes.create_string_buffer(bytes(body), len(body) or 1)
        bo = _Buf(ctypes.cast(o, ctypes.c_void_p), cap, 0)
        bi = _Buf(ctypes.cast(i, ctypes.c_void_p), 0, 0)
        for k in sorted(cuts) + [len(body)]:
            bi.size = k
            while bi.pos < k:
                a = (bi.pos, bo.pos)
                if _z.ZSTD_isError(_z.ZSTD_decompressStream(d, ctypes.byref(bo), ctypes.byref(bi))) or a == (bi.pos, bo.pos):
                    return False
        return True
    finally:
        _z.ZSTD_freeDCtx(d)


def zfussy(body):
    """is it up to the pieces whether the decoder itself finds fault with the body? (A last block that is empty is not checked against
    the size in the header, except if the whole frame is there at once.)"""
    first = zfed(body, ())
    ps = range(1, len(body)) if len(body) < 3000 else list(range(1, 1000)) + list(range(len(body) - 1000, len(body)))
    return zfed(body, ps) != first or any(zfed(body, (k,)) != first for k in ps)


def zframes(body):
    """lengths of the frames the body consists of, None if not a sequence of complete frames"""
    out, p = [], 0
    while p < len(body):
        n = _z.ZSTD_findFrameCompressedSize(bytes(body[p:]), len(body) - p)
        if _z.ZSTD_isError(n):
            return None
        out.append(n)
        p += n
    return out


# ---- index files ------------------------------------------------------------
M_INDEX, M_TABLE, M_TAIL = 0x96824d9c7b129ff9, 0xe75b9e112f17417d, 0x4b4f050e5549ecd1
FLAGS = 0x9000000000000000


def caibx(entries, params, flags=FLAGS, **kw):
    """entries: (end offset, id). Keyword arguments override single header or footer fields."""
    g = kw.get
    b = struct.pack("<QQQQQQ", g("hlen", 0x30), g("hmagic", M_INDEX), flags, *params)
    b += struct.pack("<QQ", g("tlen", 0xffffffffffffffff), g("tmagic", M_TABLE))
    b += b"".join([struct.pack("<Q", off) + cid for off, cid in entries])
    n = len(entries)
    b += struct.pack("<QQQQQ", g("z0", 0), g("z1", 0), g("ioff", 0x30), g("fsize", 16 + 40 * (n + 1)), g("tail", M_TAIL))
    return b


def entries_of(chunks, ids=None):
    out, off = [], 0
    for i, c in enumerate(chunks):
        off += len(c)
        out.append((off, ids[i] if ids else sha(c)))
    return out


class BadIndex(Exception):
    pass


def parse_caibx(b):
    """independent parser. Returns (params, [(start, len, id)], framing_dontcare, entry_error_at)
    raises BadIndex if the framing is invalid; entry_error_at is the number of leading good entries if some entry is bad"""
    if len(b) < 0x30 + 16 + 40 or (len(b) - 0x30 - 16) % 40:
        raise BadIndex("size")
    hlen, hm, flags, mn, avg, mx, tlen, tm = struct.unpack_from("<8Q", b)
    n = (len(b) - 64) // 40 - 1
    dontcare = False
    if hm != M_INDEX or tm != M_TABLE:
        raise BadIndex("magic")
    if hlen < 0x30:
        raise BadIndex("header length")
    if hlen > 0x30 or tlen != 0xffffffffffffffff:
        dontcare = True
    if flags & ~0xd000000000000000:
        raise BadIndex("flags")
    if not (mn < avg < mx <= 0xffffffff):
        raise BadIndex("sizes")
    z0, z1, ioff, fsize, tail = struct.unpack_from("<5Q", b, len(b) - 40)
    if z0 or z1 or ioff != 0x30 or fsize != 16 + 40 * (n + 1) or tail != M_TAIL:
        raise BadIndex("footer")
    ents, last, bad = [], 0, None
    for i in range(n):
        off, = struct.unpack_from("<Q", b, 64 + 40 * i)
        l = off - last
        if l <= 0 or l > 0xffffffff:
            bad = i
            break
        ents.append((last, l, b[72 + 40 * i:104 + 40 * i]))
        last = off
    return (mn, avg, mx), ents, dontcare, bad
