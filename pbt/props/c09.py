"""C09: chunking does not depend on how the input is read."""
from hypothesis import strategies as st

from ..core import Part
from .. import api, gen, ref
from ..world import expect, sane
from . import c08

LEVEL = "exploration"
RULE = ("inputs and chunk size parameters as in C08, each read in a generated way. API part: the data is fed to the chunker in pieces "
        "of arbitrary sizes (single bytes, empty pieces, pieces ending at, just before or just after a chunk boundary, at the hash window's "
        "end); after every reported boundary 100 further bytes are offered, none of which may be consumed before the restart. Reading part: the seed "
        "is scanned through reads that return random short counts or are interrupted by signals, with an index of exactly the reference's chunks. "
        "Oracle: the chunks of the independent reference implementation on the whole input. Non-trivial: more than one chunk and more "
        "pieces than chunks.")
I = gen.I


@st.composite
def api_cases(draw, tier):
    p = draw(c08.params(20000))
    d = draw(c08.data(p))
    k = gen.wsample(draw, [("sizes", 5), ("bounds", 4), ("ones", 1)])
    c = {"params": p, "d": d, "k": k}
    if k == "sizes":
        c["s"] = draw(st.lists(st.one_of(st.sampled_from([0, 1, 2, 47, 48, 49, 96]), I(1, 100), I(1, 2 * p[1]), I(1, 3 * p[2])), min_size=1, max_size=8))
        if not any(c["s"]):
            c["s"].append(1)
    elif k == "bounds":
        c["s"] = draw(st.lists(I(-2, 2), min_size=1, max_size=5))
        c["e"] = draw(I(0, 1))
    return c


def exec_api(ctx, case):
    d = ref.expr(case["d"])
    p = case["params"]
    if case["k"] == "ones":
        d = d[:20000]
    chunks = ref.chunk(d, p)
    if case["k"] == "ones":
        sizes = [1]
    elif case["k"] == "sizes":
        sizes = case["s"]
    else:
        # cut (almost) at the boundaries; the driver takes at most 250 sizes, cyclically
        ends = [o + l for o, l, _ in chunks][:120]
        pos, sizes = 0, []
        for i, e in enumerate(ends):
            q = max(pos, min(len(d), e + case["s"][i % len(case["s"])]))
            if q > pos or case["e"]:
                sizes.append(q - pos)
            pos = q
        sizes.append(max(1, len(d) - pos))
    ctx.write("data", d)
    r, out = api.run(ctx, ["params %d %d %d" % tuple(p), "buf data", "scan " + " ".join(map(str, sizes))])
    want = ["params 0"] + ["c %d %d %s" % (o, l, c.hex()) for o, l, c in chunks] + ["scan -"]
    if out != want:
        k = next((i for i, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
        expect(False, "fed in pieces of %s: chunk %d: got %s, expected %s" % (sizes[:12], k, out[k:k + 1], want[k:k + 1]), r)
    lb = c08.labels(chunks, p, len(d)) | {case["k"]}
    if 0 in sizes:
        lb.add("empty-pieces")
    return {"nontrivial": len(chunks) > 1 and max(sizes) < len(d), "labels": sorted(lb)}


@st.composite
def read_cases(draw, tier):
    p = draw(c08.params(262144))
    c = {"params": p, "d": draw(c08.data(p))}
    k = gen.wsample(draw, [("rand", 6), ("ones", 1), ("eintr", 1), ("short", 2)])
    if k == "rand":
        c["rand"] = [draw(I(0, 1 << 30)), draw(st.sampled_from([0, 100, 500])), draw(st.sampled_from([100, 500, 950])),
                     draw(st.sampled_from([1, 2, 50, 100, 1000, 8191]))]
    elif k == "ones":
        c["faults"] = [["read", "seed", 0, "short", 1]]
    elif k == "short":
        c["faults"] = [["read", "seed", 0, "short", draw(st.one_of(I(1, 100), I(1, 8192)))]]
    else:
        c["faults"] = [["read", "seed", n, "errno", 4] for n in draw(st.lists(I(1, 30), min_size=1, max_size=8))]
    return c


def exec_read(ctx, case):
    d = ref.expr(case["d"])
    p = case["params"]
    if case.get("faults", [[0]])[0][-1] == 1 and case["faults"][0][2] == 0:
        d = d[:30000]
    d = d[:400000]
    chunks = ref.chunk(d, p)
    ctx.write("seed", d)
    ctx.write("target", b"")
    ctx.write("index", ref.caibx([(o + l, c) for o, l, c in chunks], p))
    plan = [("role", "seed", "seed"), ("http",)]
    for f in case.get("faults", ()):
        plan.append(("fault",) + tuple(f))
    if case.get("rand"):
        plan.append(("rand",) + tuple(case["rand"]))
    r = ctx.run("csn", ["csn", "index", "target", "seed"], plan=plan)
    sane(r)
    expect(r.exit == 0, "not every chunk is found when the seed is read like this", r)
    expect(ctx.read("target") == d, "wrong content", r)
    n = len(r.reads("seed"))
    return {"nontrivial": len(chunks) > 1 and n > len(d) // 8192 + 2, "labels": sorted(c08.labels(chunks, p, len(d)))}


PARTS = [
    Part("pieces", api_cases, exec_api, quick=6000, thorough=150000, needs="apix"),
    Part("reads", read_cases, exec_read, quick=3000, thorough=60000),
]
