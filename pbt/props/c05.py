"""C05: stores are asked in command-line order and only for what is missing."""
from hypothesis import strategies as st

from ..core import Part
from .. import gen, xcase
from ..world import expect, sane

LEVEL = "exploration"
RULE = ("extraction scenarios with chains of up to 7 (part 'long-chains': 34) stores in random order and random, overlapping contents, generated by Hypothesis; the "
        "complete sequence of HTTP requests must equal the one of the model (order, no superfluous request, no repeated request for "
        "an immediate repeat), and after start-up only those seeds may be read that supply a chunk. Economy part: target listed first, "
        "no chunk already in place is requested. Non-trivial: at least two stores were asked and at least one request was avoided.")
I = gen.I


def execute(ctx, case):
    x = xcase.X(case)
    x.setup(ctx)
    o = xcase.simulate(x)
    r = x.run(ctx)
    sane(r)
    final = ctx.read("target")
    lb = xcase.labels_of(x, o, r)
    if not o.ambiguous:
        xcase.check_exact(x, r, o, final)
        hit = {i for _, i in o.hits}
        for i, s in enumerate(x.stores):
            if s.kind == "local" and not s.alias and i not in hit and i not in o.rescans:
                expect(not [p for p in r.preads(s.role) if p[1] > 0],
                       lambda: "seed %s is read for chunks although it supplies none that is missing" % s.name, r)
    if x.stores and x.stores[0].kind == "target":
        lb.append("target-first")
        # independent of the model: chunks in place in the processed part are never requested
        seen = set()
        n = 0
        reqs = r.requests()
        k = 0
        for m, (off, ln, cid) in enumerate(x.entries):
            if o.stop is not None and m > o.stop:
                break
            while k < len(reqs) and reqs[k].rsplit("/", 1)[1].startswith(cid.hex()):
                expect(cid not in seen, lambda: "chunk %s is requested although the target already holds it" % cid.hex(), r)
                k += 1
            seen.add(cid)
    need = sum(1 for n in range(o.skipped, len(x.entries)))
    avoided = len(o.hits) - sum(1 for _, i in o.hits if x.stores[i].kind == "http")
    return {"nontrivial": len(x.stores) >= 2 and (avoided > 0 or "reuse" in o.labels) and o.lookups > 1, "labels": lb}


@st.composite
def chains(draw, tier):
    c = draw(gen.extraction(locals_=3, https=3, hints="any", cuts=True))
    if draw(I(0, 3)) == 0:
        c["stores"] = draw(st.permutations(c["stores"]))
    # runs of equal chunks
    if c["cut"] != "cdc" and c["cut"] and draw(I(0, 2)) == 0:
        img, cut = [], []
        for a, b in zip(c["img"], c["cut"]):
            n = draw(st.sampled_from([1, 1, 1, 2, 3]))
            img += [a] * n
            cut += [b] * n
        c["img"], c["cut"] = img, cut
    return c


@st.composite
def long_chains(draw, tier):
    """9 to 30 seeds with one or a few chunks each"""
    n = draw(I(6, 24))
    c = {"params": [48, 64, 96], "img": [["r", k, draw(I(1, 96))] for k in range(n)], "tgt": {"d": []}}
    c["cut"] = [p[2] for p in c["img"]]
    c["stores"] = []
    for _ in range(draw(I(9, 30))):
        d = [["k", draw(I(0, n - 1))] for _ in range(draw(I(0, 3)))]
        c["stores"].append({"t": "local", "d": d, "hint": {"k": "pieces"}} if d else {"t": "local", "d": d})
    if draw(I(0, 1)):
        c["stores"].insert(draw(I(0, len(c["stores"]))), {"t": "target"})
    for k in range(draw(I(0, 2))):
        c["stores"].insert(draw(I(0, len(c["stores"]))), dict(draw(gen.http_store(crypt=False)), u="http://m%d.example" % k))
    c["stores"].append(dict(draw(gen.http_store(have="all", crypt=False)), u="http://last.example"))
    return c


@st.composite
def economy(draw, tier):
    c = draw(gen.extraction(locals_=1, https=1, hints="none", full=True))
    c["stores"] = [{"t": "target"}] + [s for s in c["stores"] if s["t"] != "target"]
    if c["cut"] == "cdc":
        c["img"] = c["img"] + c["img"]
    else:
        k = draw(I(1, 3))
        c["img"], c["cut"] = c["img"] * k, c["cut"] * k
    return c


PARTS = [
    Part("chains", chains, execute, quick=6000, thorough=120000),
    Part("long-chains", long_chains, execute, quick=600, thorough=12000),
    Part("economy", economy, execute, quick=2500, thorough=50000),
]
