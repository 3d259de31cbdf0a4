"""C01: only content verified against the index is ever written to the target."""
from hypothesis import strategies as st

from ..core import Part
from .. import gen, xcase
from ..world import sane

LEVEL = "exploration"
RULE = ("extraction scenarios with adversarial sources generated by Hypothesis: HTTP stores that lie (other chunk's content, one byte "
        "changed, shorter, longer, oversized, not zstd, truncated), wrong or stale side-loaded indices, seeds overwritten while they "
        "are read, the target listed again under another name as a seed, corrupted old target content, and indices that are "
        "inconsistent in themselves (IDs swapped or changed, boundaries moved, repeated IDs with other lengths, entries that do not "
        "advance). Oracle: SHA-256 of every chunk range that was written to (from the write log) and, on exit 0, of every chunk. "
        "Non-trivial: at least one byte was written or the run was refused because of the content of a store.")
I = gen.I


@st.composite
def cases(draw, tier):
    c = draw(gen.extraction(lies=True, alias=True, locals_=2, https=2, missing=False, closed=True))
    n = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3]))
    mods = []
    for _ in range(n):
        k = gen.wsample(draw, [("id", 3), ("flip", 3), ("end", 2), ("shift", 2), ("drop", 1), ("dup", 5), ("swap", 2), ("zero", 1), ("near", 3)])
        i = draw(I(0, 12))
        if k in ("flip", "near"):
            mods.append([k, i, draw(st.one_of(I(0, 31), I(32, 62))), draw(I(0, 7))])
        elif k in ("end", "shift", "dup"):
            mods.append([k, i, draw(st.one_of(I(-300, 300), st.sampled_from([0, 1, -1, 262144, 300000, 1 << 32])))])
        elif k in ("drop", "zero"):
            mods.append([k, i])
        else:
            mods.append([k, i, draw(I(0, 12))])
    if mods:
        c["emod"] = mods
        if mods[0][0] in ("flip", "near") and draw(I(0, 1)):
            # a seed whose side-loaded index says the same
            s = {"t": "local", "d": [["i", 0, 1 << 40]], "hint": {"k": "image"}}
            if len(mods) == 1 and mods[0][0] == "near":
                s["d"] = [["pre", mods[0][1] + 1], ["k", mods[0][1]], ["i", 0, 1 << 40]]
            c["stores"].insert(0, s)
    if isinstance(c["cut"], list) and 262144 in c["cut"] and draw(I(0, 2)):
        # a chunk that fills the buffer, and a store that delivers something else of that size
        s = draw(gen.http_store(have="none"))
        s["u"] = "http://liar.example"
        s["resp"] = {str(i): [draw(gen.lie())] for i in range(len(c["cut"]))}
        for i in range(len(c["cut"])):
            if draw(I(0, 1)):
                s["resp"][str(i)][0]["b"].update(k=draw(st.sampled_from(["bad", "other", "long"])), j=draw(I(0, 5)))
        c["stores"].insert(0, s)
    muts = []
    locs = [s for s in c["stores"] if s["t"] == "local"]
    if locs and draw(I(0, 1)):
        for _ in range(draw(I(1, 3))):
            j = draw(I(0, len(locs) - 1))
            op = draw(st.sampled_from([["read", "seed%d"], ["pread", "seed%d"], ["pwrite", "target"], ["pread", "target"]]))
            victim = "seed%d" % sum(1 for s in c["stores"][:c["stores"].index(locs[j])] if s["t"] in ("local", "alias"))
            role = op[1] % int(victim[4:]) if "%" in op[1] else op[1]
            muts.append([op[0], role, draw(I(1, 8)), victim, draw(I(0, 4000)), draw(gen.contents(gen.scale_of(c["params"]), 3))])
    if any(s["t"] == "target" for s in c["stores"]) and draw(I(0, 2)) == 0:
        # the target itself rots behind the program's back
        muts.append([draw(st.sampled_from(["pwrite", "pread"])), "target", draw(I(1, 6)), "target", draw(I(0, 400)),
                     [["r", 77, draw(I(1, 30))]]])
    if muts:
        c["mutates"] = muts
    return c


def execute(ctx, case):
    x = xcase.X(case)
    x.setup(ctx)
    r = x.run(ctx)
    sane(r)
    final = ctx.read("target")
    xcase.check_integrity(x, r, final, [(m[4], len(x.data(m[5]))) for m in case.get("mutates", ()) if m[3] == "target"])
    o = xcase.simulate(x) if not case.get("mutates") else None
    lb = ["exit%d" % r.exit]
    for k in ("mutates", "emod"):
        if case.get(k):
            lb.append(k)
    if o:
        lb += [l for l in xcase.labels_of(x, o, r) if l.startswith(("hit", "rescan", "reuse", "ambig"))]
        if any(a == b for a, b in zip([i for _, _, i in x.entries], [i for _, _, i in x.entries][1:])):
            lb.append("immediate-repeat")
    w = r.writes("target")
    if w:
        lb.append("written")
    if "mismatch" in r.err.decode("latin1") or "validation failure" in r.err.decode("latin1"):
        lb.append("source-rejected")
    return {"nontrivial": bool(w) or "source-rejected" in lb, "labels": lb}


PARTS = [
    Part("adversarial", cases, execute, quick=9000, thorough=200000),
]
