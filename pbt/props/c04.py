"""C04: an interrupted extraction resumes and keeps its progress."""
from hypothesis import strategies as st

from ..core import Part
from .. import gen, xcase, ref
from ..world import expect, sane

LEVEL = "fault_enumeration"
RULE = ("histories of 0..4 interrupted runs followed by a complete one, generated by Hypothesis: each run is cut off at a random target "
        "write (nothing, part or all of that write done), target read, store read or HTTP request, or by a failing store; stores include "
        "HTTP, seeds and the target itself. After every interruption the intact prefix is computed from the target's bytes; the next run "
        "must not write before its end nor request its chunks, and its request sequence must be exactly the model's; the final run must "
        "exit 0 with the image. Non-trivial: at least one run was interrupted and the following one found a non-empty intact prefix. "
        "The 'every-point' part enumerates all write interruptions (0, 1, n-1, n bytes done) of small scenarios.")
I = gen.I


@st.composite
def interruption(draw):
    k = gen.wsample(draw, [("w", 8), ("t", 2), ("h", 3), ("e", 2)])
    n = draw(I(1, 12))
    if k == "w":
        return ["pwrite", "target", n, draw(st.sampled_from(["crash", "crash", "crashafter"])), draw(st.sampled_from([0, 1, 7, 47, 48, 500, 3000]))]
    if k == "t":
        return ["pread", "target", n, "crash", 0]
    if k == "h":
        return ["http", n]
    return ["pwrite", "target", n, "errno", draw(st.sampled_from([5, 28]))]


@st.composite
def cases(draw, tier):
    c = draw(gen.extraction(full=True, hints="good", crypt=True, blk=True))
    c["ints"] = draw(st.lists(interruption(), min_size=0, max_size=4))
    if draw(I(0, 2)) == 0:
        # what happens behind the interruption
        c["junk"] = draw(st.lists(st.tuples(I(0, 4000), I(1, 400)).map(list), max_size=2))
    return c


def intact_prefix(x, data):
    n = 0
    end = 0
    for off, ln, cid in x.entries:
        if off + ln <= len(data) and ref.sha(data[off:off + ln]) == cid:
            n += 1
            end = off + ln
        else:
            break
    return n, end


def one_run(ctx, x, before, extra, final):
    r = x.run(ctx, extra=extra)
    sane(r, crash_ok=True)
    after = ctx.read("target")
    xcase.check_frame(x, ctx, before, after, r)
    n, end = intact_prefix(x, before)
    for off, ln in r.writes("target"):
        expect(off >= end, lambda: "%d bytes are written at %d, although the first %d bytes (%d chunks) were already in place" % (ln, off, end, n), r)
    expect(after[:end] == before[:end], "the intact prefix was damaged", r)
    # chunks that occur only in the prefix may not be requested
    rest = {cid for _, _, cid in x.entries[n:]}
    pre = {cid for _, _, cid in x.entries[:n]} - rest
    for u in r.requests():
        h = u.rsplit("/", 1)[1].split(".")[0]
        expect(bytes.fromhex(h) not in pre, lambda: "chunk %s of the intact prefix is requested again" % h, r)
    if final:
        o = xcase.simulate(x, before)
        expect(r.exit == 0, "the final, uninterrupted run fails", r)
        expect(after[:len(x.image)] == x.image, "the final run exits 0 with a wrong image", r)
        if not o.ambiguous:
            xcase.check_exact(x, r, o, after)
            if o.exit == 0:
                expect(sum(l for _, l in r.writes("target")) == sum(l for _, l in o.writes), "chunks are written more than once", r)
    return r, after, n


def execute(ctx, case):
    x = xcase.X(case)
    if any(ln > ref.MAXBUF for _, ln, _ in x.entries):
        return {"nontrivial": False, "labels": ["unusable index"]}   # C02's business
    x.setup(ctx)
    cur = x.tgt0
    progress = 0
    interrupted = 0
    best = 0
    lb = set()
    for it in case["ints"]:
        if it[0] == "http":
            # the n-th requested chunk is not available this time: the run fails there
            o = xcase.simulate(x, cur)
            urls = list(dict.fromkeys(u for u, _, _ in o.requests))
            extra = []
            if len(urls) >= it[1]:
                u = urls[it[1] - 1]
                extra = [("url", u + "?"), ]
                extra = []
                for s in x.stores:
                    if s.kind == "http":
                        for cid in list(s.resp):
                            if s.url(cid).rsplit("/", 1)[1].split(".")[0] == u.rsplit("/", 1)[1].split(".")[0]:
                                s.resp.setdefault("saved", {})[cid] = s.resp.pop(cid)
                saved = [(s, s.resp.pop("saved", {})) for s in x.stores if s.kind == "http"]
                r, after, n = one_run(ctx, x, cur, extra, False)
                for s, d in saved:
                    s.resp.update(d)
            else:
                r, after, n = one_run(ctx, x, cur, [], False)
        else:
            r, after, n = one_run(ctx, x, cur, [["fault"] + it], False)
        n2, _ = intact_prefix(x, after)
        expect(n2 >= n, "progress was lost: %d chunks in place before, %d after the run" % (n, n2), r)
        if r.exit != 0:
            interrupted += 1
            lb.add("crash" if r.crashed else "error")
            best = max(best, n2)
        cur = after
    for off, ln in case.get("junk", ()):
        # damage behind the intact prefix must not matter
        n, end = intact_prefix(x, cur)
        if off >= end and off + ln <= len(cur):
            b = bytearray(cur)
            b[off:off + ln] = ref.rnd_bytes(5, ln)
            cur = bytes(b)
            ctx.write("target", cur)
            lb.add("junk-behind-prefix")
    r, after, n = one_run(ctx, x, cur, [], True)
    if n:
        lb.add("resumed")
    if n and n == len(x.entries):
        lb.add("nothing-left")
    lb.add("interruptions:%d" % interrupted)
    if any(s.kind == "target" for s in x.stores):
        lb.add("target-as-store")
    # running once more changes nothing and fetches nothing
    r2 = x.run(ctx)
    sane(r2)
    expect(r2.exit == 0 and ctx.read("target") == after, "a further run changes the target", r2)
    expect(not r2.requests() and not r2.writes("target"), "a further run fetches or writes chunks although all are in place", r2)
    return {"nontrivial": interrupted > 0 and n > 0, "labels": sorted(lb)}


def points(tier):
    """All interruption points of a few small scenarios."""
    out = []
    for variant in range(4 if tier == "quick" else 12):
        img = [["r", variant, 300], ["z", 200], ["r", variant + 50, 250], ["r", variant, 300]]
        base = {"params": [48, 64, 96] if variant % 2 else [64, 128, 512], "img": img, "cut": "cdc" if variant % 3 else [100] * 12,
                "tgt": {"d": [["r", 3, 700]] if variant % 2 else []},
                "stores": [[{"t": "http"}], [{"t": "target"}, {"t": "http"}],
                           [{"t": "local", "d": [["i", 100, 500]]}, {"t": "http"}],
                           [{"t": "target"}, {"t": "local", "d": [["i", 100, 500]], "hint": {"k": "cdc"}}, {"t": "http", "key": "ab" * 32}]][variant % 4]}
        for nth in range(1, 24):
            for kind, arg in (("crash", 0), ("crash", 1), ("crash", 30), ("crashafter", 0), ("errno", 28)):
                out.append(dict(base, ints=[["pwrite", "target", nth, kind, arg]]))
                if tier != "quick":
                    for nth2 in (1, 2, 3, 5):
                        out.append(dict(base, ints=[["pwrite", "target", nth, kind, arg], ["pwrite", "target", nth2, "crash", 20]]))
    return out


PARTS = [
    Part("histories", cases, execute, quick=2400, thorough=40000),
    Part("every-point", None, execute, cases=points),
]
