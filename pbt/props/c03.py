"""C03: nothing outside the image's extent of the target is modified."""
import os

from hypothesis import strategies as st

from ..core import Part
from .. import gen, xcase, ref
from ..world import expect, sane

LEVEL = "exploration"
RULE = ("extraction scenarios (successful and failing ones, lying stores, injected write/read/open errors, crash points, targets "
        "larger and smaller than the image, missing targets, inconsistent and refused indices, standard descriptors closed) generated by Hypothesis. Oracle: bytes of "
        "target, index, seeds and side-loaded indices before and after, directory listing, and the write log. Non-trivial: the "
        "target holds data behind the image, or does not exist, or the run fails.")
I = gen.I


@st.composite
def cases(draw, tier):
    c = draw(gen.extraction(lies=True, errors=True, missing=True))
    if not c["tgt"].get("missing"):
        k = draw(I(0, 3))
        if k:
            # make sure that there is something behind the image
            c["tgt"]["d"] = [["i", 0, 1 << 40]] + [["r", 96, draw(I(1, 3000))]] if k == 1 else \
                draw(gen.target_data(gen.scale_of(c["params"]))) + [["r", 95, draw(I(1, 20000))]]
    if draw(I(0, 3)) == 0:
        mods = []
        for _ in range(draw(I(1, 2))):
            k = draw(st.sampled_from(["end", "shift", "dup", "id", "zero", "drop"]))
            if k in ("end", "shift", "dup"):
                mods.append([k, draw(I(0, 12)), draw(I(-300, 300))])
            elif k == "id":
                mods.append([k, draw(I(0, 12)), draw(I(0, 12))])
            else:
                mods.append([k, draw(I(0, 12))])
        c["emod"] = mods
    if draw(I(0, 3)) == 0:
        c["faults"] = [[draw(st.sampled_from(["pwrite", "pread", "read"])), "target", draw(I(1, 6)),
                        draw(st.sampled_from(["errno", "short", "crash", "crashafter"])), draw(st.sampled_from([1, 5, 28]))]
                       for _ in range(draw(I(1, 2)))]
        if any(f[0] == "read" for f in c["faults"]):
            for f in c["faults"]:
                if f[0] == "read":
                    f[1] = "index"
    if draw(I(0, 5)) == 0:
        c["cl"] = draw(gen.closed_fds)
        c["log"] = draw(st.sampled_from([None, "debug", "info"]))
    if draw(I(0, 7)) == 0:
        c["badindex"] = draw(st.sampled_from(["magic", "tmagic", "flags", "trunc", "extend", "tail", "params", "empty", "garbage"]))
    return c


def execute(ctx, case):
    x = xcase.X(case)
    bad = case.get("badindex")
    if bad:
        kw = {"magic": {"magic": 0x96824d9c7b129ff8}, "tmagic": {"tmagic": 1}, "flags": {"flags": 0x2000000000000000},
              "tail": {"tail": (0, 0, 0x30, 16, ref.MAGIC_TAIL)}, "params": None, "trunc": {}, "extend": {}, "empty": {},
              "garbage": {}}[bad]
        if bad == "params":
            x.index = ref.caibx(x.raw, [400, 100, 50])
        else:
            x.index = ref.caibx(x.raw, x.params, **kw)
        if bad == "trunc":
            x.index = x.index[:-7]
        elif bad == "extend":
            x.index += b"abc"
        elif bad == "empty":
            x.index = b""
        elif bad == "garbage":
            x.index = ref.rnd_bytes(3, 200)
    x.setup(ctx)
    before_ls = sorted(os.listdir(ctx.dir))
    r = x.run(ctx)
    sane(r, crash_ok=True)
    after_ls = sorted(os.listdir(ctx.dir))
    expect(before_ls == after_ls, lambda: "directory contents changed: %s -> %s" % (before_ls, after_ls), r)
    lb = ["exit%s" % r.exit]
    if x.tgt_missing:
        expect(r.exit == 1 or r.crashed, "exit status %s although the target does not exist" % r.exit, r)
        lb.append("missing-target")
        return {"nontrivial": True, "labels": lb}
    final = ctx.read("target")
    if bad:
        expect(r.exit == 1 or r.crashed, "damaged index (%s) accepted" % bad, r)
        expect(final == x.tgt0 and not r.writes("target"), "target modified although the index was refused", r)
        xcase.check_frame(x, ctx, x.tgt0, final, r, extent=0)
        return {"nontrivial": True, "labels": lb + ["index-refused"]}
    # entries are processed in order up to the first invalid one
    ext = 0
    last = 0
    for off, ln, _ in x.entries:
        if ln <= 0 or ln > 0xffffffff:
            lb.append("invalid-entry")
            break
        ext = off + ln
    xcase.check_frame(x, ctx, x.tgt0, final, r, extent=ext)
    for off, n in r.writes("target"):
        expect(off + n <= ext, "write of %d bytes at %d, behind the image's end %d" % (n, off, ext), r)
    for s in x.stores:
        if s.kind == "local" and not s.alias:
            expect(not r.writes(s.role), "write to a seed", r)
    if len(x.tgt0) > ext:
        lb.append("data-behind")
    if case.get("faults"):
        lb.append("faults")
    if case.get("cl"):
        lb.append("closed")
    return {"nontrivial": len(x.tgt0) > ext or r.exit != 0, "labels": lb}


PARTS = [Part("frame", cases, execute, quick=8000, thorough=150000)]
