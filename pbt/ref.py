"""Reference implementations (independent of /repo) and data builders."""
import ctypes
import ctypes.util
import functools
import hashlib
import struct

from .buztable import TABLE

MAXBUF = 256 * 1024
_lib = None


def load(builddir):
    global _lib
    _lib = ctypes.CDLL(builddir + "/refc.so")
    _lib.ref_chunk.restype = ctypes.c_size_t
    _lib.ref_chunk.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_uint64, ctypes.c_uint64,
                               ctypes.c_uint64, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
    arr = (ctypes.c_uint32 * 256)(*TABLE)
    _lib.ref_set_table(arr)


def sha(b):
    return hashlib.sha256(b).digest()


def discriminator(params):
    """casync's approximation, limited to the chunk size bounds (checked against the casync binary in C08)."""
    mn, avg, mx = params
    d = avg / (-1.42888852e-7 * avg + 1.33237515)
    return max(1, mx if d < 0 or d > mx else max(mn, int(d)))


def chunk_ends(data, params, roll=1):
    mn, avg, mx = params
    n = len(data) // max(1, min(mn, mx)) + 2
    arr = (ctypes.c_uint64 * n)()
    k = _lib.ref_chunk(data, len(data), mn, mx, discriminator(params), arr, n, roll)
    return list(arr[:k])


def chunk(data, params, roll=1):
    """[(offset, length, id)] of the casync chunking of data."""
    out = []
    last = 0
    for e in chunk_ends(data, params, roll):
        out.append((last, e - last, sha(data[last:e])))
        last = e
    return out


def xchacha20(data, key, nonce):
    buf = ctypes.create_string_buffer(bytes(data), max(1, len(data)))
    _lib.ref_xchacha20(buf, ctypes.c_size_t(len(data)), key, nonce)
    return buf.raw[:len(data)]


def xchacha20_ks(n, pos, key, nonce):
    """n bytes of the key stream from position pos on."""
    b = pos % 64
    buf = ctypes.create_string_buffer(n + b)
    _lib.ref_xchacha20_at(buf, ctypes.c_size_t(n + b), key, nonce, ctypes.c_uint64(pos // 64))
    return buf.raw[b:b + n]


# ----------------------------------------------------------------- content

@functools.lru_cache(maxsize=2048)
def _rnd_small(seed, n):
    return hashlib.shake_128(b"csn%d" % seed).digest(n)


def rnd_bytes(seed, n):
    if n <= 8192:
        return _rnd_small(seed, n)
    return hashlib.shake_128(b"csn%d" % seed).digest(n)


@functools.lru_cache(maxsize=None)
def _half(lo, hi, seed, n=1 << 17):
    """n random sequences of bytes for the positions lo..hi-1 of the hash's window, with what they contribute to the hash"""
    import numpy as np
    b = np.frombuffer(hashlib.shake_128(b"half%d.%d" % (lo, seed)).digest(n * (hi - lo)), np.uint8).reshape(n, hi - lo)
    t = np.array(TABLE, np.uint32)
    h = np.zeros(n, np.uint32)
    for k in range(hi - lo):
        v = t[b[:, k]]
        r = (47 - lo - k) % 32
        h ^= (v << np.uint32(r)) | (v >> np.uint32(32 - r)) if r else v
    o = np.argsort(h)
    return b[o], h[o]


@functools.lru_cache(maxsize=4096)
def window(target, seed):
    """48 bytes whose buzhash is target"""
    import numpy as np
    ab, ah = _half(0, 24, 0)
    for k in range(40):
        bb, bh = _half(24, 48, (seed + k) % 40)
        w = bh ^ np.uint32(target)
        i = np.searchsorted(ah, w)
        i[i == len(ah)] = 0
        m = np.nonzero(ah[i] == w)[0]
        if len(m):
            j = m[seed % len(m)]
            return ab[i[j]].tobytes() + bb[j].tobytes()
    raise ValueError("no window for %x" % target)


def piece(p, image=b""):
    k = p[0]
    if k == "w":
        return window(p[1], p[2])
    if k == "r":
        return rnd_bytes(p[1], p[2])
    if k == "z":
        return b"\0" * p[1]
    if k == "b":
        return bytes([p[1]]) * p[2]
    if k == "p":  # periodic
        unit = rnd_bytes(p[1], p[2])
        return (unit * (p[3] // max(1, len(unit)) + 1))[:p[3]]
    if k == "i":
        return image[p[1]:p[1] + p[2]]
    if k == "h":
        return bytes.fromhex(p[1])
    raise ValueError(p)


def expr(pieces, image=b""):
    for p in pieces:
        if p[0] in "rzbp" and p[-1] > 64 << 20:
            raise ValueError("piece too large: %r" % (p,))
    return b"".join(piece(p, image) for p in pieces)


# ------------------------------------------------------------------- caibx

MAGIC_INDEX = 0x96824d9c7b129ff9
MAGIC_TABLE = 0xe75b9e112f17417d
MAGIC_TAIL = 0x4b4f050e5549ecd1


def caibx(entries, params, flags=0x9000000000000000, header_len=0x30, table_len=2**64 - 1,
          magic=MAGIC_INDEX, tmagic=MAGIC_TABLE, tail=None):
    """entries: [(end_offset, id)]"""
    out = [struct.pack("<QQQQQQ", header_len, magic, flags, *params),
           struct.pack("<QQ", table_len, tmagic)]
    for end, cid in entries:
        out.append(struct.pack("<Q", end & (2**64 - 1)) + cid)
    if tail is None:
        tail = (0, 0, 0x30, 16 + (len(entries) + 1) * 40, MAGIC_TAIL)
    out.append(struct.pack("<QQQQQ", *tail))
    return b"".join(out)


# -------------------------------------------------------------------- zstd

_z = ctypes.CDLL("libzstd.so.1")
for _f in ("ZSTD_compressBound", "ZSTD_compress2", "ZSTD_CCtx_setParameter", "ZSTD_isError", "ZSTD_CCtx_reset",
           "ZSTD_decompressStream", "ZSTD_initDStream", "ZSTD_compressStream2"):
    getattr(_z, _f).restype = ctypes.c_size_t
_z.ZSTD_createCCtx.restype = ctypes.c_void_p
_z.ZSTD_createDStream.restype = ctypes.c_void_p
_cctx = None
_dctx = None
_C_LEVEL, _C_CSIZE, _C_CKSUM, _C_WLOG = 100, 200, 201, 101


class _Buf(ctypes.Structure):
    _fields_ = [("p", ctypes.c_void_p), ("size", ctypes.c_size_t), ("pos", ctypes.c_size_t)]


def zcompress(data, level=3, checksum=0, csize=1, flush=0, wlog=None):
    if len(data) > 16384:
        return _zcompress.__wrapped__(data, level, checksum, csize, flush, wlog)
    return _zcompress(data, level, checksum, csize, flush, wlog)


@functools.lru_cache(maxsize=1024)
def _zcompress(data, level=3, checksum=0, csize=1, flush=0, wlog=None):
    """One zstd frame.  flush > 0: streaming, with a block flush after every `flush` input bytes.
    wlog: streaming (size not known in advance), with this window size (0: that of the level)."""
    global _cctx
    if _cctx is None:
        _cctx = ctypes.c_void_p(_z.ZSTD_createCCtx())
    _z.ZSTD_CCtx_reset(_cctx, 3)
    _z.ZSTD_CCtx_setParameter(_cctx, _C_LEVEL, ctypes.c_int(level))
    _z.ZSTD_CCtx_setParameter(_cctx, _C_CKSUM, ctypes.c_int(checksum))
    _z.ZSTD_CCtx_setParameter(_cctx, _C_CSIZE, ctypes.c_int(csize))
    if wlog:
        _z.ZSTD_CCtx_setParameter(_cctx, _C_WLOG, ctypes.c_int(wlog))
    cap = len(data) + len(data) // 100 + 4096 + (16 * (len(data) // flush + 2) if flush else 0)
    out = ctypes.create_string_buffer(cap)
    if not flush and wlog is None:
        n = _z.ZSTD_compress2(_cctx, out, ctypes.c_size_t(cap), data, ctypes.c_size_t(len(data)))
        assert not _z.ZSTD_isError(ctypes.c_size_t(n))
        return out.raw[:n]
    ob = _Buf(ctypes.addressof(out), cap, 0)
    pos = 0
    step = flush or max(1, len(data) // 2)
    while True:
        part = data[pos:pos + step]
        pos += len(part)
        src = ctypes.create_string_buffer(part, max(1, len(part)))
        ib = _Buf(ctypes.addressof(src), len(part), 0)
        end = pos >= len(data)
        while True:
            r = _z.ZSTD_compressStream2(_cctx, ctypes.byref(ob), ctypes.byref(ib), 2 if end else 1 if flush else 0)
            assert not _z.ZSTD_isError(ctypes.c_size_t(r))
            if r == 0 and ib.pos == ib.size:
                break
        if end:
            break
    return out.raw[:ob.pos]


def with_dict_id(frame, k):
    """The same frame with an explicit dictionary ID of 0 ("no dictionary"), in a field of 1, 2 or 4 bytes"""
    b = bytearray(frame)
    pos = 5 if b[4] & 0x20 else 6
    b[4] |= k
    b[pos:pos] = b"\0" * (1, 2, 4)[k - 1]
    return bytes(b)


def skippable(data):
    return struct.pack("<II", 0x184D2A50, len(data)) + data


_zout = ctypes.create_string_buffer(MAXBUF + 1)


def zdecode(body, limit, seg=0):
    """Decodes body as a sequence of zstd frames, seg bytes at a time (0: all at once).
    Returns (status, output): status 'ok' (ended exactly on a frame boundary), 'incomplete',
    'error', 'toolong' (output does not fit in limit)."""
    global _dctx
    if _dctx is None:
        _dctx = ctypes.c_void_p(_z.ZSTD_createDStream())
    _z.ZSTD_initDStream(_dctx)
    out = _zout
    if len(out) < limit + 1:
        out = ctypes.create_string_buffer(limit + 1)
    src = ctypes.create_string_buffer(bytes(body), max(1, len(body)))
    ob = _Buf(ctypes.addressof(out), limit + 1, 0)
    ib = _Buf(ctypes.addressof(src), len(body), 0)
    r = 1
    total = len(body)
    while ib.pos < total:
        if seg:
            ib.size = min(total, ib.pos + seg)
        before = (ib.pos, ob.pos)
        r = _z.ZSTD_decompressStream(_dctx, ctypes.byref(ob), ctypes.byref(ib))
        if _z.ZSTD_isError(ctypes.c_size_t(r)):
            return "error", out[:min(ob.pos, limit)]
        if ob.pos > limit:
            return "toolong", out[:limit]
        if (ib.pos, ob.pos) == before:
            break
    while r:
        before = ob.pos
        r = _z.ZSTD_decompressStream(_dctx, ctypes.byref(ob), ctypes.byref(ib))
        if _z.ZSTD_isError(ctypes.c_size_t(r)):
            return "error", out[:min(ob.pos, limit)]
        if ob.pos > limit:
            return "toolong", out[:limit]
        if ob.pos == before:
            break
    return ("ok" if r == 0 and len(body) else "incomplete"), out[:ob.pos]
