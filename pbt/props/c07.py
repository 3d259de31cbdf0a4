"""C07: a wrong side-loaded index never changes the outcome."""
from hypothesis import strategies as st

from ..core import Part
from .. import gen, xcase
from ..world import expect, sane

LEVEL = "exploration"
RULE = ("extraction scenarios in which every seed has a side-loaded index, generated by Hypothesis: right ones (chunk or piece wise), those of "
        "something else, and ones with IDs swapped or changed, boundaries moved up to 2^40, entries dropped, repeated or not advancing, damaged, "
        "truncated, empty, missing or unreadable files, other chunk sizes (each of the three). Target, exit status and HTTP requests must "
        "be those of the model, in which a hint that turns out wrong is replaced by a scan; while no entry has turned out wrong "
        "the seed may only be read at places the hint names. Metamorphic part: with a later store that has everything the outcome must "
        "equal that of the run without any hint. Non-trivial: at least one chunk was looked up in a seed with a hint.")
I = gen.I


@st.composite
def cases(draw, tier):
    c = draw(gen.extraction(locals_=2, https=1, hints="any", crypt=False))
    if not any(s["t"] == "local" for s in c["stores"]):
        c["stores"].insert(0, draw(gen.local_store(gen.scale_of(c["params"]), "any")))
    for s in c["stores"]:
        if s["t"] == "local":
            if "hint" not in s or draw(I(0, 3)) == 0:
                s["hint"] = draw(gen.hint(gen.scale_of(c["params"]), draw(I(0, 3)) == 0))
            if s["hint"].get("params") and draw(I(0, 1)):
                q = list(c["params"])
                q[draw(I(0, 2))] += draw(st.sampled_from([1, -1, 65536]))
                s["hint"]["params"] = [max(0, v) for v in q]
            if draw(I(0, 9)) == 0:
                # right in every way, except that all that follows is far beyond the end
                s["hint"] = {"k": "cdc", "mod": [["gap", draw(I(0, 12)), draw(I(1, 3)), draw(st.sampled_from([1, 1 << 31, (1 << 32) - 1]))]]}
    # something must be looked up
    if draw(I(0, 2)):
        c["tgt"]["d"] = []
    return c


def execute(ctx, case):
    x = xcase.X(case)
    x.setup(ctx)
    o = xcase.simulate(x)
    r = x.run(ctx)
    sane(r)
    final = ctx.read("target")
    lb = xcase.labels_of(x, o, r)
    if not o.ambiguous:
        xcase.check_exact(x, r, o, final)
    nontriv = False
    for i, s in enumerate(x.stores):
        if s.kind != "local" or not s.spec.get("hint"):
            continue
        if o.lookups:
            nontriv = True
        if s.hint is None:
            lb.append("hint-refused")
        elif i in o.rescans:
            lb.append("hint-discarded")
        elif not o.ambiguous:
            lb.append("hint-kept")
            spans = {(a, l) for a, l, _ in s.hint}
            expect(not [q for q in r.reads(s.role) if q[1] > 0], lambda: "seed %s is scanned although its index is right" % s.name, r)
            for off, n, got in r.preads(s.role):
                expect(any(a <= off and off + n <= a + l for a, l in spans),
                       lambda: "seed %s is read at %d+%d, which its (right) index does not mention" % (s.name, off, n), r)
    return {"nontrivial": nontriv, "labels": lb}


@st.composite
def same(draw, tier):
    c = draw(cases(tier))
    for s in c["stores"]:
        if s["t"] == "http":
            s["have"] = "all"
    if not any(s["t"] == "http" for s in c["stores"]):
        c["stores"].append({"t": "http"})
    return c


def exec_same(ctx, case):
    """Exit status and target are those of the run without hints."""
    x = xcase.X(case)
    x.setup(ctx)
    r = x.run(ctx)
    sane(r)
    a = ctx.read("target")
    plain = dict(case, stores=[{k: v for k, v in s.items() if k != "hint"} for s in case["stores"]])
    ctx.reset()
    y = xcase.X(plain)
    y.setup(ctx)
    r2 = y.run(ctx)
    sane(r2)
    b = ctx.read("target")
    expect(r.exit == r2.exit, "exit status %s with side-loaded indices, %s without" % (r.exit, r2.exit), r)
    expect(a == b, "the target differs from that of the run without side-loaded indices", r)
    return {"nontrivial": bool(r2.writes("target")), "labels": ["exit%d" % r.exit]}


PARTS = [
    Part("hints", cases, execute, quick=7000, thorough=150000),
    Part("as-without", same, exec_same, quick=1500, thorough=30000),
]
