"""C10: a valid index is followed to the letter, a damaged one is refused."""
import struct

from hypothesis import strategies as st

from ..core import Part
from .. import api, gen, ref, xcase
from ..world import expect, sane

LEVEL = "exploration"
RULE = ("well-formed indices (0 to 40 chunks, chunk lengths within and outside the declared bounds, all supported feature flags and parameters) and "
        "damaged ones, generated by Hypothesis: any bit of a magic number or of the footer flipped, truncated and extended by any "
        "number of bytes or by whole entries, entries added or removed, each unsupported feature flag, header too short, parameters not "
        "increasing or beyond 32 bits (in particular those that look fine modulo 2^32), boundaries that do not advance or span 2^32 "
        "bytes and more (in particular such that the length is right modulo 2^32). Parts 'many' and 'volume' have tables of up to 131073 and some 420000 entries. Every chunk can be obtained, so a well-formed index must "
        "be extracted completely and a damaged one must be refused, without touching the target unless the damage is in an entry. "
        "The API part compares the decoded header and every entry (offsets over the whole 64-bit range) with the encoder's input. "
        "Non-trivial: damaged, or more than one chunk.")
I = gen.I


@st.composite
def valid_params(draw):
    k = gen.wsample(draw, [("small", 3), ("any", 3), ("huge", 1)])
    if k == "small":
        return list(draw(st.sampled_from(gen.SMALL_PARAMS)))
    hi = 1 << 20 if k == "any" else (1 << 32) - 1
    v = sorted(draw(st.sets(I(0, hi), min_size=3, max_size=3)))
    return v


DAMAGE = ["magic", "tmagic", "foot", "trunc", "extend", "rment", "addent", "flags", "hlen", "params", "advance", "span", "footsize", "cutentries"]


@st.composite
def damage(draw):
    k = draw(st.sampled_from(DAMAGE))
    if k in ("magic", "tmagic"):
        return [k, draw(I(0, 63))]
    if k == "foot":
        return [k, draw(I(0, 319))]
    if k == "footsize":
        return [k, draw(st.sampled_from([-40, 40, -16, 16, 1, -1, 1 << 32, 1 << 40]))]
    if k == "trunc":
        return [k, draw(st.one_of(I(1, 200), st.sampled_from([8, 16, 32, 40, 48, 56, 80, 120, 5000])))]
    if k == "extend":
        return [k, draw(st.one_of(I(1, 130), st.sampled_from([8, 16, 24, 40, 80]))), draw(st.sampled_from(["z", "r", "copy"]))]
    if k in ("rment", "addent"):
        return [k, draw(I(0, 40))]
    if k == "cutentries":
        return [k, draw(I(1, 40))]
    if k == "flags":
        return [k, draw(I(0, 59) if draw(I(0, 3)) else st.just(61))]
    if k == "hlen":
        return [k, draw(st.one_of(I(0, 0x2f), st.sampled_from([0, 16, 40, 47])))]
    if k == "params":
        return [k, draw(st.sampled_from(["eq01", "eq12", "swap01", "swap12", "rev", "eqall", "zero2", "big0", "big1", "big2", "bigall", "max", "hi1", "hi2"]))]
    if k == "advance":
        return [k, draw(I(0, 40)), draw(st.sampled_from([0, 0, 1, 50, 1 << 31, 1 << 32]))]
    return [k, draw(I(0, 40)), draw(st.sampled_from([0, 0, 1, 1000, -1])), draw(st.sampled_from([1 << 32, 1 << 33, 1 << 40, 1 << 63])), draw(I(0, 1))]


@st.composite
def cases(draw, tier):
    p = draw(valid_params())
    _, cut = draw(gen.image(list(draw(st.sampled_from(gen.SMALL_PARAMS))), cuts=True))
    if cut == "cdc":
        cut = [draw(I(1, 900)) for _ in range(draw(I(0, 40)))]
    c = {"params": p, "img": [["r", i % 7 if draw(I(0, 5)) == 0 else i, n] for i, n in enumerate(cut)], "cut": cut, "stores": [{"t": "http"}]}
    c["ihdr"] = {"flags": draw(st.sampled_from([0x9000000000000000, 0xd000000000000000, 0x8000000000000000, 0x1000000000000000, 0x5000000000000000, 0]))}
    if draw(I(0, 2)) == 0:
        c["tgt"] = {"d": draw(gen.target_data(100))}
    if draw(I(0, 3)):
        c["bad"] = draw(damage())
    return c


def damaged(x, d):
    """-> (bytes of the index, position of the first invalid entry or None)"""
    k = d[0]
    b = bytearray(x.index)
    raw = [(e, c) for e, c in x.raw]
    fl = x.case["ihdr"]["flags"]
    n = len(raw)
    if k == "magic":
        b[8 + d[1] // 8] ^= 1 << d[1] % 8
    elif k == "tmagic":
        b[0x38 + d[1] // 8] ^= 1 << d[1] % 8
    elif k == "foot":
        b[len(b) - 40 + d[1] // 8] ^= 1 << d[1] % 8
    elif k == "footsize":
        tail = (0, 0, 0x30, (16 + (n + 1) * 40 + d[1]) & (2**64 - 1), ref.MAGIC_TAIL)
        return ref.caibx(raw, x.params, flags=fl, tail=tail), None
    elif k == "trunc":
        b = b[:max(0, len(b) - d[1])]
    elif k == "extend":
        t = b"\0" * d[1] if d[2] == "z" else ref.rnd_bytes(4, d[1]) if d[2] == "r" else bytes(b[-40:] * 5)[:d[1]]
        b += t
        if d[2] == "copy" and d[1] % 40 == 0:
            b[-1] ^= 0x10
    elif k == "rment":
        if not n:
            return bytes(b[:-1]), None
        i = d[1] % n
        del b[0x40 + 40 * i:0x40 + 40 * i + 40]
    elif k == "addent":
        i = d[1] % (n + 1)
        b[0x40 + 40 * i:0x40 + 40 * i] = struct.pack("<Q", 5) + ref.rnd_bytes(1, 32)
    elif k == "cutentries":
        # footer dropped together with entries: ends on an entry boundary
        b = b[:len(b) - 40 * min(n + 1, d[1])]
    elif k == "flags":
        return ref.caibx(raw, x.params, flags=fl | 1 << d[1]), None
    elif k == "hlen":
        return ref.caibx(raw, x.params, flags=fl, header_len=d[1]), None
    elif k == "params":
        p0, p1, p2 = x.params
        B = 1 << 32
        q = {"eq01": (p1, p1, p2), "eq12": (p0, p2, p2), "swap01": (p1, p0, p2), "swap12": (p0, p2, p1), "rev": (p2, p1, p0),
             "eqall": (p1, p1, p1), "zero2": (p0, p1, 0), "big0": (p0 + B, p1 + B, p2 + B), "big1": (p0, p1 + B, p2 + B),
             "big2": (p0, p1, p2 + B), "bigall": (p0 + 2 * B, p1 + 3 * B, p2 + 4 * B), "max": (1, 2, 2**64 - 1),
             "hi1": (p0, p1 + B, p2), "hi2": (p0, p1, B)}[d[1]]
        return ref.caibx(raw, q, flags=fl), None
    elif k == "advance":
        if n < 1:
            return bytes(b[:-1]), None
        i = d[1] % n
        prev = raw[i - 1][0] if i else 0
        raw[i] = (max(0, prev - d[2]), raw[i][1])
        if raw[i][0] == prev - d[2] and d[2] == 0 or True:
            return ref.caibx(raw, x.params, flags=fl), i
    elif k == "span":
        if n < 1:
            return bytes(b[:-1]), None
        i = d[1] % n
        j = n if d[4] else i + 1
        for m in range(i, j):
            raw[m] = ((raw[m][0] + d[2] + d[3]), raw[m][1])
        prev = raw[i - 1][0] if i else 0
        if not raw[i][0] - prev > 0xffffffff:
            raw[i] = (prev + (1 << 32), raw[i][1])
        return ref.caibx([(e & (2**64 - 1), c) for e, c in raw], x.params, flags=fl), i
    return bytes(b), None


def execute(ctx, case):
    x = xcase.X(case)
    bad = case.get("bad")
    first = None
    if bad:
        good = x.index
        x.index, first = damaged(x, bad)
        if x.index == good:
            return {"nontrivial": False, "labels": ["no-op"]}
    x.setup(ctx)
    r = x.run(ctx)
    sane(r)
    final = ctx.read("target")
    if not bad:
        expect(r.exit == 0, "a well-formed index is refused", r)
        expect(final[:x.extent] == x.image, "wrong content", r)
        xcase.check_frame(x, ctx, x.tgt0, final, r)
        return {"nontrivial": len(x.entries) > 1, "labels": ["valid", "flags:%x" % (case["ihdr"]["flags"] >> 60)]}
    expect(r.exit == 1, "a damaged index is accepted: %s" % (bad,), r)
    if first is None:
        expect(final == x.tgt0 and not r.writes("target"), "the target is modified although the index is damaged: %s" % (bad,), r)
        expect(not r.requests(), "chunks are requested although the index is damaged: %s" % (bad,), r)
    else:
        upto = x.entries[first][0]
        expect(all(o + n <= upto for o, n in r.writes("target")), "something is written for entry %d, which is invalid, or behind it" % first, r)
    return {"nontrivial": True, "labels": ["bad-" + bad[0]]}


@st.composite
def api_cases(draw, tier):
    p = draw(valid_params())
    ents = []
    pos = 0
    for _ in range(draw(I(0, 60))):
        pos += draw(st.one_of(I(1, 100000), I(1, (1 << 32) - 1), st.sampled_from([1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1])))
        ents.append([pos, draw(I(0, 1 << 30))])
    if ents and draw(I(0, 4)) == 0:
        # up to the end of the 64-bit range
        d = (1 << 64) - 1 - pos
        d = min(d, draw(st.sampled_from([0, 0, 0xffffffff])))
        ents[-1][0] += 0
    c = {"params": p, "e": ents, "flags": draw(st.sampled_from([0x9, 0xd, 8, 1, 5, 0])) << 60}
    if ents and draw(I(0, 2)) == 0:
        i = draw(I(0, len(ents) - 1))
        prev = ents[i - 1][0] if i else 0
        c["bad"] = [i, max(0, prev + draw(st.sampled_from([0, -1, -5, -(1 << 32), 1 << 32, (1 << 32) + 1, (1 << 32) + 70, 1 << 33, 1 << 63])))]
    return c


def exec_api(ctx, case):
    ents = [(e, ref.rnd_bytes(s, 32)) for e, s in case["e"]]
    stop = len(ents)
    if case.get("bad"):
        i, v = case["bad"]
        ents[i] = (v, ents[i][1])
        stop = i
    ctx.write("i", ref.caibx(ents, case["params"], flags=case["flags"]))
    r, out = api.run(ctx, ["caibx i"])
    want = ["hdr 0 %d %d %d %d" % (*case["params"], len(ents))]
    last = 0
    for e, c in ents[:stop]:
        want.append("e %d %d %s" % (last, e - last, c.hex()))
        last = e
    want.append("iter %d" % (-1 if case.get("bad") else 0))
    if out != want:
        k = next((i for i, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
        expect(False, "line %d: got %s, expected %s" % (k, out[k:k + 1], want[k:k + 1]), r)
    return {"nontrivial": len(ents) > 1, "labels": ["bad" if case.get("bad") else "valid", "over-4g" if last > 1 << 32 else "small"]}


@st.composite
def many(draw, tier):
    """Tables of thousands of entries."""
    k = draw(I(0, 29))
    if k == 29:
        n = draw(st.one_of(st.sampled_from([65535, 65536, 65537, 65536 + 40, 131072, 131073]), I(65000, 70000)))
    elif k < 8:
        n = draw(st.sampled_from([101, 102, 127, 128, 255, 256, 409, 410, 819, 1000, 1023, 1024, 1025, 1638, 1639, 2048, 3276, 3277, 4096, 5000, 6553, 6554, 8191, 8192]))
    else:
        n = draw(I(1 << (b := draw(I(5, 12))), 2 << b))
    ln = draw(I(1, 12)) if k < 29 else draw(I(3, 5))
    c = {"params": draw(valid_params()), "cut": ["#", n, ln], "ihdr": {"flags": draw(st.sampled_from([9, 0xd])) << 60},
         "img": [["p", draw(I(0, 40)), draw(I(1, 3000)), n * ln] if draw(I(0, 1)) else ["r", draw(I(0, 40)), n * ln]],
         "stores": [{"t": "local", "d": [["i", 0, 1 << 40]], "hint": {"k": "image"}}]}
    if draw(I(0, 3)) == 0:
        c["img"][0][-1] -= draw(I(0, ln - 1))
    if draw(I(0, 1)):
        c["tgt"] = {"d": draw(st.sampled_from([[["r", 5, 1000]], [["i", 0, 5000]], [["i", 0, 1 << 40]], [["i", 0, 1 << 40], ["r", 5, 7]]]))}
    if draw(I(0, 2)) == 0:
        d = draw(damage())
        if d[0] in ("rment", "addent", "advance", "span") and draw(I(0, 1)):
            d[1] = draw(st.one_of(I(0, n), I(n - 3, n)))
        c["bad"] = d
    return c


# tables of more than 16 MiB, also with a length of the table that is off by 16 MiB
@st.composite
def volume_cases(draw, tier):
    return {"n": draw(I(419431, 421000)), "off": draw(st.sampled_from([0, 1 << 24, -(1 << 24), 1 << 32]))}


def exec_volume(ctx, case):
    n = case["n"]
    seq = b"x" * (n - 2) + b"yz"
    ids = {c: ref.sha(bytes([c])) for c in b"xyz"}
    idx = ref.caibx([(i + 1, ids[c]) for i, c in enumerate(seq)], [1, 30, 64],
                    tail=(0, 0, 0x30, 16 + (n + 1) * 40 + case["off"], ref.MAGIC_TAIL))
    ctx.write("index.caibx", idx)
    before = b"x" * (n - 2) + b"abc"
    ctx.write("target", before)
    ctx.write("seed", b"yz")
    ctx.write("hint", ref.caibx([(1, ids[ord("y")]), (2, ids[ord("z")])], [1, 30, 64]))
    r = ctx.run("csn", ["csn", "index.caibx", "target", "seed:hint"], cpu=120, wall=300)
    sane(r)
    expect(r.exit == (1 if case["off"] else 0), "unexpected exit status for an index of %d entries" % n, r)
    expect(ctx.read("target") == (before if case["off"] else seq + b"c"), "the entries are not followed", r)
    return {"nontrivial": True, "labels": ["volume"]}


PARTS = [
    Part("volume", volume_cases, exec_volume, quick=24, thorough=120),
    Part("many", many, execute, quick=250, thorough=5000),
    Part("files", cases, execute, quick=8000, thorough=150000),
    Part("decode", api_cases, exec_api, quick=3000, thorough=60000, needs="apix"),
]
