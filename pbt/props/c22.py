"""C22: positions beyond 4 GiB are handled exactly."""
import os

from hypothesis import strategies as st

from ..core import Part, sampled
from .. import gen, ref
from ..world import expect, sane

LEVEL = "exploration"
RULE = ("sparse files: chunks placed at generated positions around 2 GiB, 4 GiB, 8 GiB and up to 2^42 with different bytes (decoys) at the same position modulo 2^31 "
        "and 2^32. 'hint': many chunks in a huge seed with a side-loaded index; 'write': images of 2 to 9 GiB (a long run of a zero chunk, "
        "recorded but not stored) with single chunks in between, fresh targets, with the target as store and with content behind the image; 'resume': the target is intact up to a "
        "position beyond; 'scan': a huge seed is scanned; 'patchdd': huge sources and destinations. Oracle: the data extents of the sparse "
        "files before and after and the logged positions of all reads and writes. Non-trivial: data beyond 2^31 was moved.")
I = gen.I
G = 1 << 30
Z = 262144
LIM = dict(cpu=300, wall=400)


def sparse(ctx, name, size, data):
    with open(ctx.path(name), "wb") as f:
        f.truncate(size)
        for off, b in sorted(data.items()):
            f.seek(off)
            f.write(b)


def extents(ctx, name):
    """[(offset, bytes)] of the data of a sparse file, zero pages left out at both ends of each"""
    out = []
    fd = os.open(ctx.path(name), os.O_RDONLY)
    try:
        size = os.fstat(fd).st_size
        pos = 0
        while pos < size:
            try:
                a = os.lseek(fd, pos, os.SEEK_DATA)
            except OSError:
                break
            b = os.lseek(fd, a, os.SEEK_HOLE)
            pos = a
            while pos < b:
                n = min(1 << 22, b - pos)
                d = os.pread(fd, n, pos)
                if d.strip(b"\0"):
                    out.append((pos, d))
                pos += len(d)
            pos = b
        return size, out
    finally:
        os.close(fd)


def same(ctx, name, size, want, r, what):
    """The file consists of want (offset -> bytes) and zeros."""
    sz, ext = extents(ctx, name)
    expect(sz == size, lambda: "%s: the size is %d, expected %d" % (what, sz, size), r)
    want = sorted(want.items())
    fd = os.open(ctx.path(name), os.O_RDONLY)
    try:
        for off, b in want:
            got = os.pread(fd, len(b), off)
            expect(got == b, lambda: "%s: wrong content at %d" % (what, off), r)
    finally:
        os.close(fd)
    for off, d in ext:
        # blank out what is expected, the rest has to be zero
        m = bytearray(d)
        for o, b in want:
            lo, hi = max(o, off), min(o + len(b), off + len(d))
            if lo < hi:
                m[lo - off:hi - off] = bytes(hi - lo)
        if m.strip(b"\0"):
            k = next(i for i, v in enumerate(m) if v)
            expect(False, "%s: unexpected data at %d" % (what, off + k), r)


pos = st.one_of(
    st.tuples(st.sampled_from([1 << 31, 1 << 32, 3 << 31, 1 << 33, 5 << 30, 1 << 36, 1 << 40, 1 << 42]), I(-200, 200)).map(lambda t: t[0] + t[1]),
    I(1 << 30, 1 << 34))


@st.composite
def hint_cases(draw, tier):
    n = draw(I(1, 6))
    return {"pos": sorted(set(draw(st.lists(pos, min_size=n, max_size=n)))), "len": draw(st.lists(I(48, 300), min_size=6, max_size=6)),
            "order": draw(st.permutations(range(6))), "blk": draw(I(0, 2)) == 0, "seed": draw(I(0, 100))}


def exec_hint(ctx, case):
    data, raw, place = {}, [], []
    last = 0
    for i, p in enumerate(case["pos"]):
        p = max(p, last)
        # fill the gap
        while p - last > 0:
            step = min(p - last, 0xfffffff0)
            last += step
            raw.append((last, ref.sha(b"gap%d" % last)))
        b = ref.rnd_bytes(case["seed"] * 10 + i, case["len"][i % 6])
        data[p] = b
        place.append((p, b))
        last = p + len(b)
        raw.append((last, ref.sha(b)))
    def free(o, n):
        return all(o + n <= p or o >= p + len(b) for p, b in data.items())
    for p, b in list(data.items()):
        for m in (1 << 31, 1 << 32):
            q = p % m
            if free(q, len(b)):
                data[q] = ref.rnd_bytes(999, len(b))
    params = [48, 100, 400]
    size = max(p + len(b) for p, b in data.items())
    sparse(ctx, "seed", size, data)
    ctx.write("seed.caibx", ref.caibx(raw, params))
    order = [i for i in case["order"] if i < len(place)]
    img, ents = b"", []
    for i in order:
        img += place[i][1]
        ents.append((len(img), ref.sha(place[i][1])))
    ctx.write("index", ref.caibx(ents, params))
    ctx.write("target", b"")
    plan = [("role", "seed", "seed"), ("role", "target", "target")] + ([("blk", "seed")] if case["blk"] else [])
    r = ctx.run("csn", ["csn", "index", "target", "seed:seed.caibx"], plan=plan, cpu=20, wall=60)
    sane(r)
    expect(r.exit == 0 and ctx.read("target") == img, "extraction from a seed with a correct side-loaded index fails", r)
    expect(not r.reads("seed"), "the seed is scanned although its side-loaded index is right", r)
    for off, n, got in r.preads("seed"):
        expect(any(p <= off and off + n <= p + len(b) for p, b in place), lambda: "read of %d bytes at %d, where no requested chunk is" % (n, off), r)
    return {"nontrivial": any(p >= 1 << 31 for p in case["pos"]), "labels": ["beyond-4g" if case["pos"][-1] >= 1 << 32 else "below-4g"]}


@st.composite
def write_cases(draw, tier):
    end = draw(st.sampled_from([1 << 31, 1 << 32, 1 << 32, 1 << 32, (1 << 32) + (1 << 31), 1 << 33]))
    marks = [0]
    for _ in range(draw(I(1, 4))):
        marks.append(draw(st.sampled_from([1 << 31, 1 << 32, 1 << 33, end])) // Z + draw(I(-2, 2)))
    marks.append(end // Z + draw(I(0, 1)))
    marks = sorted(set(max(0, m) for m in marks if m * Z <= end + Z))
    return {"marks": marks, "len": draw(st.lists(I(49, 400), min_size=8, max_size=8)), "again": draw(I(0, 7)), "tgt": draw(st.sampled_from(["none", "first", "first"])),
            "pre": draw(st.sampled_from(["empty", "empty", "larger"])), "seed": draw(I(0, 100)), "blk": draw(I(0, 3)) == 0}


def exec_write(ctx, case, resume=False):
    params = [16384, 65536, Z]
    zero = b"\0" * Z
    zid = ref.sha(zero)
    raw, off, nz = [], 0, 0
    want, bodies, places = {}, {}, []
    for i, m in enumerate(case["marks"]):
        while nz < m:
            off += Z
            nz += 1
            raw.append((off, zid))
        b = ref.rnd_bytes(case["seed"] * 10 + i, case["len"][i % 8])
        if b[0] == 0:
            b = b"\1" + b[1:]
        want[off] = b
        places.append((off, b))
        off += len(b)
        raw.append((off, ref.sha(b)))
        bodies[ref.sha(b)] = b
    # some of them again at the end
    for k in range(3):
        if case["again"] >> k & 1:
            p, b = places[-1 - k % len(places)]
            want[off] = b
            off += len(b)
            raw.append((off, ref.sha(b)))
    extent = off
    ctx.write("index", ref.caibx(raw, params))
    size = extent
    frame = {}
    if case["pre"] == "larger":
        frame = {extent + 5: b"behind the image", extent + (1 << 32) + 9: b"far behind it"}
        size = extent + (1 << 32) + 4096
    start = 0
    if resume:
        # everything up to a certain chunk is in place
        k = case["intact"] % len(places)
        start = places[k][0]
        init = {o: b for o, b in want.items() if o < start}
        sz = max(start, size if case["pre"] == "larger" else 0)
        sparse(ctx, "target", sz, {**init, **frame})
    elif frame:
        sparse(ctx, "target", size, frame)
    else:
        ctx.write("target", b"")
    plan = [("role", "target", "target"), ("sparsezero", "target"), ("http",)] + ([("blk", "target")] if case["blk"] else [])
    allb = bytearray()
    bodies[zid] = zero
    for cid, b in bodies.items():
        z = ref.zcompress(b, 3, 0, 1, 0)
        h = cid.hex()
        plan.append(("url", "http://a.example/%s/%s.cacnk" % (h[:4], h)))
        plan.append(("resp", 200, 0, "%s@%d+%d" % (ctx.aux("bodies"), len(allb), len(z)), -1, "-"))
        allb += z
    with open(ctx.aux("bodies"), "wb") as f:
        f.write(allb)
    argv = ["csn", "index", "target"] + (["target"] if case["tgt"] == "first" else []) + ["http://a.example"]
    r = ctx.run("csn", argv, plan=plan, **LIM)
    sane(r)
    expect(r.exit == 0, "extraction fails", r)
    full = dict(want)
    full.update(frame)
    same(ctx, "target", size, full, r, "target")
    ends = {}
    last = 0
    for e, _ in raw:
        ends[last] = e - last
        last = e
    pos = start
    for o, n in r.writes("target"):
        expect(o == pos, lambda: "a write at %d, expected at %d" % (o, pos), r)
        pos = o + n
    expect(pos == extent, lambda: "the writes end at %d, expected %d" % (pos, extent), r)
    if case["tgt"] == "first":
        reqs = r.requests()
        expect(len(set(reqs)) == len(reqs), "a chunk that is already in place is requested again", r)
    ids = [h.rsplit("/", 1)[1].split(".")[0] for h in r.requests()]
    need = {c.hex() for (e, c), (e0, _) in zip(raw, [(0, b"")] + raw) if e0 >= start}
    expect(set(ids) <= need, "chunks before the resume point are requested", r)
    if case["tgt"] == "first":
        pre = {c.hex() for (e, c), (e0, _) in zip(raw, [(0, b"")] + raw) if e0 < start}
        expect(not set(ids) & pre, "a chunk that is in place in the target is requested", r)
    return {"nontrivial": extent > 1 << 31, "labels": ["tgt-" + case["tgt"], case["pre"], "beyond-4g" if extent > 1 << 32 else "beyond-2g"]}


@st.composite
def resume_cases(draw, tier):
    c = draw(write_cases(tier))
    c["intact"] = draw(st.sampled_from([-1, -1, -2, 0]))
    return c


def exec_resume(ctx, case):
    return exec_write(ctx, case, True)


@st.composite
def scan_cases(draw, tier):
    end = draw(st.sampled_from([1 << 31, 1 << 32, 1 << 32]))
    return {"p": [end + draw(I(-300000, 300000)), end + 700000 + draw(I(0, 1000))], "seed": draw(I(0, 50)), "decoy": draw(I(0, 1))}


def exec_scan(ctx, case):
    """A huge seed is scanned; the chunks around the data are looked up."""
    params = [100000, 200000, Z]
    # zeros: every chunk is Z bytes long, since the hash of zeros never breaks (checked here)
    zc = ref.chunk(b"\0" * (3 * Z), params)
    assert [c[1] for c in zc] == [Z] * 3
    p0 = case["p"][0]
    first = p0 // Z * Z          # the chunk boundary before the first data
    data = {p0: ref.rnd_bytes(case["seed"], 150000), case["p"][1]: ref.rnd_bytes(case["seed"] + 1, 400000)}
    size = max(o + len(b) for o, b in data.items()) + 100
    tail = bytearray(size - first)
    for o, b in data.items():
        tail[o - first:o - first + len(b)] = b
    if case["decoy"]:
        data[p0 % (1 << 31) + (0 if p0 >= 1 << 31 else Z)] = b""
    sparse(ctx, "seed", size, data)
    ents, img = [], b""
    for off, ln, cid in ref.chunk(bytes(tail), params):
        img += bytes(tail[off:off + ln])
        ents.append((len(img), cid))
    ctx.write("index", ref.caibx(ents, params))
    ctx.write("target", b"")
    r = ctx.run("csn", ["csn", "index", "target", "seed"], plan=[("role", "seed", "seed"), ("role", "target", "target")], **LIM)
    sane(r)
    expect(r.exit == 0 and ctx.read("target") == img, "chunks of a large seed are not found", r)
    return {"nontrivial": True, "labels": ["beyond-4g" if p0 > (1 << 32) else "below-4g"]}


@st.composite
def pdd_cases(draw, tier):
    end = draw(st.sampled_from([1 << 31, 1 << 32, 1 << 32]))
    n = end + draw(st.sampled_from([1, 2, 4096, 1 << 20, (1 << 20) + 1, 3 << 20]))
    return {"n": n, "src": draw(st.lists(st.tuples(st.sampled_from([end - 5, end, end - (1 << 20), 1 << 31, 10, n - 20, end + 1]), I(0, 60)).map(sum), min_size=1, max_size=4)),
            "dst": draw(st.lists(st.sampled_from([end - 100, end + 7, 500, 1 << 31]), max_size=2)), "extra": draw(st.sampled_from([0, 0, 100, 1 << 32])),
            "blk": draw(I(0, 2)) == 0, "small": draw(I(0, 5)) == 0}


def exec_pdd(ctx, case):
    n = case["n"]
    src = {}
    for i, p in enumerate(sorted(set(case["src"]))):
        if p + 10 <= n and all(abs(p - q) >= 10 for q in src):
            src[p] = ref.rnd_bytes(300 + i, 10)
    dst = {}
    for i, p in enumerate(sorted(set(case["dst"]))):
        if p + 10 <= n:
            dst[p] = ref.rnd_bytes(400 + i, 10)
    frame = {}
    dsize = n + case["extra"]
    if case["extra"]:
        frame = {n + 20: b"behind the source"}
    if case["small"]:
        # smaller than the source by exactly 4 GiB or more, or by 1
        dsize = n - (1 << 32) if n > 1 << 32 and case["extra"] == 0 else n - 1
        dst, frame = {}, {}
    sparse(ctx, "src", n, src)
    sparse(ctx, "dst", dsize, {**dst, **frame})
    plan = [("role", "src", "src"), ("role", "dst", "dst"), ("sparsezero", "dst")] if not dst else [("role", "src", "src"), ("role", "dst", "dst")]
    if case["blk"]:
        plan += [("blk", "src"), ("blk", "dst")]
    r = ctx.run("patchdd", ["patchdd", "src", "dst"], plan=plan, **LIM)
    sane(r)
    if case["small"]:
        expect(r.exit == 1, "a destination smaller than the source is accepted", r)
        same(ctx, "dst", dsize, {}, r, "destination")
        return {"nontrivial": True, "labels": ["smaller"]}
    expect(r.exit == 0, "patchdd fails", r)
    same(ctx, "dst", dsize, {**src, **frame}, r, "destination")
    same(ctx, "src", n, src, r, "source")
    M = 1 << 20
    dirty = {p // M for p in list(src) + list(dst)} | {(p + 9) // M for p in list(src) + list(dst)}
    for off, ln in r.writes("dst"):
        expect(off // M in dirty and off + ln <= n, lambda: "%d bytes are written at %d, where nothing differs" % (ln, off), r)
    return {"nontrivial": True, "labels": ["beyond-4g" if n > 1 << 32 else "beyond-2g"]}


PARTS = [
    Part("hint", hint_cases, exec_hint, quick=1200, thorough=30000),
    Part("write", execute=exec_write, cases=sampled(write_cases, 64, 1500)),
    Part("resume", execute=exec_resume, cases=sampled(resume_cases, 32, 600)),
    Part("scan", execute=exec_scan, cases=sampled(scan_cases, 6, 200)),
    Part("patchdd", execute=exec_pdd, cases=sampled(pdd_cases, 16, 400)),
]
