"""C08: chunk boundaries and IDs are those of casync."""
import os
import subprocess

from hypothesis import strategies as st

from ..core import Part
from .. import api, gen, ref
from ..world import HarnessError, expect, sane

LEVEL = "exploration"
RULE = ("inputs (random, zero, periodic and mixed data, lengths around the parameters' boundaries) and parameters min < avg < max, min >= 48, "
        "generated by Hypothesis. Oracle: an independent implementation of casync's algorithm (hash evaluated afresh at each position) and, "
        "in the 'casync' part, the caibx and IDs that the distribution's casync produces. The seed is the only store for an index of exactly "
        "these chunks, so a single different cut or ID makes the extraction fail; in the API part the reported chunks are compared one by one. "
        "The 'window' part places 48-byte stretches constructed to have a chosen hash (the decision's boundary values), for "
        "averages over the whole 32-bit range. Non-trivial: at least one chunk ended by the rolling hash or by the maximum.")
I = gen.I


@st.composite
def params(draw, maxcap):
    k = gen.wsample(draw, [("small", 4), ("free", 4), ("tight", 2), ("dflt", 1)])
    if k == "small":
        return list(draw(st.sampled_from(gen.SMALL_PARAMS)))
    if k == "dflt":
        return list(gen.DEFAULT_PARAMS)
    if k == "tight":
        mn = draw(I(48, 300))
        return [mn, mn + 1, mn + 2]
    mn = draw(st.one_of(I(48, 60), I(48, 2000)))
    av = mn + draw(st.one_of(I(1, 20), I(1, 3000)))
    mx = av + draw(st.one_of(I(1, 20), I(1, 8000), I(1, maxcap)))
    return [mn, av, min(mx, maxcap)]


@st.composite
def data(draw, p):
    scale = min(p[1], 40000)
    out = []
    for _ in range(draw(I(0, 4))):
        k = gen.wsample(draw, [("r", 6), ("z", 2), ("p", 3), ("b", 1), ("edge", 4)])
        if k == "edge":
            out.append([draw(st.sampled_from(["r", "r", "z"])), 0, min(1 << 20, max(0, draw(st.sampled_from([48, p[0], p[1], p[2], 2 * p[2], 8192])) + draw(I(-1, 1))))])
            if out[-1][0] == "r":
                out[-1][1] = draw(I(0, 500))
            else:
                out[-1] = ["z", out[-1][2]]
        elif k == "r":
            out.append(["r", draw(I(0, 500)), draw(I(1, 25 * scale))])
        elif k == "z":
            out.append(["z", draw(I(1, 8 * scale))])
        elif k == "b":
            out.append(["b", draw(I(1, 255)), draw(I(1, 8 * scale))])
        else:
            out.append(["p", draw(I(0, 500)), draw(st.one_of(I(1, 60), I(1, 3000))), draw(I(1, 12 * scale))])
    return out


@st.composite
def cases(draw, tier):
    p = draw(params(262144))
    c = {"params": p, "d": draw(data(p))}
    if draw(I(0, 4)) == 0:
        c["blk"] = 1
    return c


def labels(chunks, p, n):
    lb = set()
    for off, ln, _ in chunks[:-1]:
        lb.add("cut-max" if ln == p[2] else "cut-min" if ln == p[0] else "cut-hash")
    if chunks:
        lb.add("last-short" if chunks[-1][1] < p[0] else "last")
    else:
        lb.add("empty")
    if p == gen.DEFAULT_PARAMS:
        lb.add("default-params")
    k = len(chunks)
    lb.add("chunks:%s" % ("0-1" if k < 2 else "2-20" if k < 21 else "21-200" if k < 201 else "201+"))
    return lb


def extract_from_seed(ctx, d, chunks, p, case):
    ctx.write("seed", d)
    ctx.write("target", b"")
    ctx.write("index", ref.caibx([(o + l, c) for o, l, c in chunks], p))
    plan = [("role", "seed", "seed"), ("role", "target", "target"), ("http",)]
    if case.get("blk"):
        plan.append(("blk", "seed"))
    r = ctx.run("csn", ["csn", "index", "target", "seed"], plan=plan)
    sane(r)
    expect(r.exit == 0, "not every chunk that casync cuts is found in the seed", r)
    expect(ctx.read("target") == d, "wrong content", r)


def execute(ctx, case):
    d = ref.expr(case["d"])
    p = case["params"]
    chunks = ref.chunk(d, p)
    lb = labels(chunks, p, len(d))
    # the reference itself: sizes and coverage
    extract_from_seed(ctx, d, chunks, p, case)
    return {"nontrivial": len(chunks) > 1, "labels": sorted(lb)}


@st.composite
def api_cases(draw, tier):
    p = draw(params((1 << 32) - 1)) if draw(I(0, 1)) else draw(params(20000))
    k = draw(I(0, 7))
    if k == 0:
        p[2] = (1 << 32) - 1
    elif k == 1:
        p[1] = draw(st.sampled_from([2331620, 5000000, 9324555, 9324556, 9324600, 20000000, (1 << 31), (1 << 32) - 2]))
        p[2] = draw(st.sampled_from([p[1] + 1, (1 << 32) - 1]))
        if draw(I(0, 1)):
            p[0] = draw(st.sampled_from([p[1] - 1, p[1] // 2, 5000]))
    return {"params": p, "d": draw(data(p))}


def exec_api(ctx, case):
    d = ref.expr(case["d"])
    p = case["params"]
    ctx.write("data", d)
    r, out = api.run(ctx, ["params %d %d %d" % tuple(p), "scanfd data"])
    chunks = ref.chunk(d, p)
    want = ["params 0"] + ["c %d %d %s" % (o, l, c.hex()) for o, l, c in chunks] + ["scan -"]
    if out != want:
        k = next((i for i, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
        expect(False, "chunk %d: got %s, expected %s" % (k, out[k:k + 1], want[k:k + 1]), r)
    return {"nontrivial": len(chunks) > 1, "labels": sorted(labels(chunks, p, len(d)))}


@st.composite
def casync_cases(draw, tier):
    p = draw(params(262144))
    if draw(I(0, 2)) == 0:
        c = draw(windows(tier))
        if c["params"][1] < 1 << 26:
            return c
    return {"params": p, "d": draw(data(p)) or [["r", 1, 5]]}


def exec_casync(ctx, case):
    d = ref.expr(case["d"])
    p = case["params"]
    if len(d) > 4 << 20 or len(d) // p[0] > 3000 or not os.path.exists("/usr/bin/casync"):
        return {"nontrivial": False, "labels": ["too-large"]}
    src = ctx.write("src", d)
    pr = subprocess.run(["/usr/bin/casync", "make", "--digest=sha256", "--chunk-size=%d:%d:%d" % tuple(p),
                         "--store=" + ctx.path("st"), ctx.path("c.caibx"), src],
                        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={"PATH": "/usr/bin:/bin", "HOME": ctx.dir, "TMPDIR": ctx.dir}, timeout=120)
    if pr.returncode:
        return {"nontrivial": False, "labels": ["casync-refused"]}
    b = ctx.read("c.caibx")
    import struct
    ents = []
    last = 0
    for k in range(64, len(b) - 40, 40):
        end, = struct.unpack_from("<Q", b, k)
        ents.append((last, end - last, b[k + 8:k + 40]))
        last = end
    mine = ref.chunk(d, p)
    if ents != mine:
        raise HarnessError("reference chunker disagrees with casync for %r" % (case,))
    ctx.write("seed", d)
    ctx.write("target", b"")
    r = ctx.run("csn", ["csn", "c.caibx", "target", "seed"], plan=[("http",)])
    sane(r)
    expect(r.exit == 0, "not every chunk of casync's index is found in the seed", r)
    expect(ctx.read("target") == d, "wrong content", r)
    return {"nontrivial": len(ents) > 1, "labels": sorted(labels(ents, p, len(d)))}


@st.composite
def windows(draw, tier):
    """Stretches whose hash is exactly one of those where the decision changes, for parameters of any size: with a large
    discriminator no random data would ever end a chunk."""
    k = gen.wsample(draw, [("log", 5), ("dflt", 2), ("small", 2), ("astray", 1)])
    mn = draw(st.one_of(I(48, 60), I(48, 3000)))
    if k == "dflt":
        p = list(gen.DEFAULT_PARAMS) if draw(I(0, 1)) else [mn, 65536, draw(I(65537, (1 << 32) - 1))]
    elif k == "small":
        av = mn + draw(I(1, 60000))
        p = [mn, av, av + draw(I(1, 100000))]
    elif k == "astray":
        av = draw(I(2331600, (1 << 32) - 2))
        p = [mn, av, draw(I(av + 1, (1 << 32) - 1))]
    else:
        av = max(mn + 1, draw(I(1 << (b := draw(I(6, 30))), 2 << b)))
        p = [mn, av, draw(st.one_of(I(av + 1, 2 * av), I(av + 1, (1 << 32) - 1), st.just((1 << 32) - 1)))]
    D = ref.discriminator(p)
    out = []
    for _ in range(draw(I(1, 6))):
        k = draw(I(0, 9))
        last = (1 << 32) // D * D - 1   # the largest value that ends a chunk
        T = [D - 1, last, last, D - 1 + D * draw(I(0, max(0, (1 << 32) // D - 1))), D - 1 + D * draw(I(0, 7)), D - 2, D, 0, (1 << 32) - 1, last + 1][k]
        n = draw(st.one_of(I(0, p[0]), st.just(p[0] - 48), I(p[0], p[0] + 3000)))
        out.append(["r", draw(I(0, 500)), n])
        out.append(["w", T & 0xffffffff, draw(I(0, 300))])
    out.append(["r", draw(I(0, 500)), draw(I(0, 400))])
    return {"params": p, "d": out}


PARTS = [
    Part("window", windows, execute, quick=2500, thorough=40000),
    Part("seed", cases, execute, quick=7000, thorough=150000),
    Part("api", api_cases, exec_api, quick=4000, thorough=100000, needs="apix"),
    Part("casync", casync_cases, exec_casync, quick=320, thorough=5000),
]
