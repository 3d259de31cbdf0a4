"""C02: extraction succeeds exactly when every chunk can be obtained."""
from hypothesis import strategies as st

from ..core import Part
from .. import gen, xcase
from ..world import expect, sane

I = gen.I
LEVEL = "exploration"
RULE = ("extraction scenarios (chunk size parameters, image content, CDC or arbitrary cuts, old target content, chain of "
        "local seeds with and without side-loaded index, target-as-store and HTTP stores, log level, tty, block device roles) "
        "generated by Hypothesis; exit status and target compared with a model that knows from the bytes which chunks are "
        "obtainable. Non-trivial: at least one chunk had to be looked up in a store.")


def execute(ctx, case):
    x = xcase.X(case)
    x.setup(ctx)
    o = xcase.simulate(x)
    r = x.run(ctx)
    sane(r)
    final = b"" if x.tgt_missing else ctx.read("target")
    if not o.ambiguous:
        expect(r.exit == o.exit, lambda: "exit status %s, but %s" % (
            r.exit, "every chunk is obtainable" if o.exit == 0 else "entry %s cannot be supplied by any store" % o.stop), r)
    if r.exit == 0:
        expect(final[:len(x.image)] == x.image, "exit 0 but the target does not hold the image", r)
    return {"nontrivial": o.lookups > 0, "labels": xcase.labels_of(x, o, r)}


@st.composite
def maxchunks(draw, tier):
    """Chunks of (nearly) the maximal size from every kind of store."""
    n = draw(I(1, 5))
    img = []
    for i in range(n):
        if img and draw(I(0, 2)) == 0:
            img.append(img[draw(I(0, len(img) - 1))])
        else:
            ln = draw(st.sampled_from([262144, 262144, 262144, 262143, 262140, 200000, 1000]))
            img.append(["z", ln] if draw(I(0, 4)) == 0 else ["r", i, ln])
    c = {"params": draw(st.sampled_from([[16384, 65536, 262144], [64, 200, 900]])), "img": img, "cut": [p[-1] for p in img],
         "tgt": {"d": draw(st.sampled_from([[], [], [["pre", 1]], [["pre", 2]], [["kx", 0, 262143, 1], ["k", 1]], [["r", 1, 262144 + 5]]]))}}
    stores = []
    for _ in range(draw(I(1, 3))):
        k = draw(st.sampled_from(["local", "local", "http", "target"]))
        if k == "local":
            stores.append({"t": "local", "d": [["k", draw(I(0, n - 1))] for _ in range(draw(I(1, 3)))] if draw(I(0, 1)) else [["k", i] for i in range(n)],
                           "hint": {"k": "pieces"}})
            if draw(I(0, 2)) == 0:
                del stores[-1]["hint"]
        elif k == "http":
            s = draw(gen.http_store())
            s["have"] = draw(I(1, (1 << n) - 1))
            stores.append(s)
        elif not any(s["t"] == "target" for s in stores):
            stores.append({"t": "target"})
    if draw(I(0, 2)) == 0:
        stores.append(draw(gen.http_store(have="all")))
    c["stores"] = stores or [{"t": "target"}]
    if draw(I(0, 3)) == 0:
        # something that only the target itself still has
        img.append(["r", 77, draw(I(1, 262144))])
        img.append(img[0])
        c["cut"] = [p[-1] for p in img]
        c["tgt"] = {"d": [["pre", draw(I(1, 2))]]}
        stores.insert(0, {"t": "target"})
        s = draw(gen.http_store())
        s["have"] = (1 << n + 2) - 2
        stores[1:] = [s]
    for i, s in enumerate([s for s in stores if s["t"] == "http"]):
        s["u"] = "http://%s.example" % "abcd"[i]
    return c


PARTS = [
    Part("max-chunks", maxchunks, execute, quick=400, thorough=6000),
    Part("mixed", lambda tier: gen.extraction(missing=True, big=True, closed=True), execute, quick=6000, thorough=120000),
    Part("seeds-only", lambda tier: gen.extraction(https=0, locals_=3, cuts=False, closed=True), execute, quick=3000, thorough=60000),
]
