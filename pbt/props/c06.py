"""C06: a failing store is switched off without affecting the others."""
from hypothesis import strategies as st

from ..core import Part
from .. import gen, ref, xcase
from ..world import expect, sane

LEVEL = "fault_enumeration"
RULE = ("extraction scenarios in which stores fail at random moments, generated by Hypothesis: permanent HTTP transport errors, more than "
        "ten unrecovered transient or 4xx/5xx failures, read errors or premature end of file while a chunk is fetched from a seed (scanned or with a side-loaded index) "
        "or from the target used as store, read errors while a seed with a wrong side-loaded index is rescanned, chunks too long for the buffer; "
        "combined with stores that merely lack chunks. Requests, exit status and target are compared with the "
        "model; a failed seed may not be read any more. Non-trivial: at least one store failed while others were in use.")
I = gen.I


@st.composite
def cases(draw, tier):
    mode = gen.wsample(draw, [("any", 2), ("perm", 4), ("often", 3), ("seed", 5), ("target", 2), ("rescan", 2)])
    c = draw(gen.extraction(locals_=2, https=2, hints="none", errors=True, targets=True, blk=False))
    scale = gen.scale_of(c["params"])
    stores = c["stores"]

    def insert(s):
        pos = draw(I(0, len(stores))) if draw(I(0, 2)) == 0 else 0
        stores.insert(pos, s)
        return pos

    if mode != "any":
        if draw(I(0, 3)):
            c["tgt"] = {"d": draw(st.sampled_from([[], [], [["pre", 1]], [["pre", 2], ["r", 7, 50]]]))}
        if c["cut"] == "cdc":
            c["img"].append(["r", draw(I(0, 40)), draw(I(3, 12)) * scale])
            if draw(I(0, 3)) == 0:
                c["img"] = c["img"] * 2
    if mode == "perm":
        for _ in range(draw(I(1, 2))):
            s = draw(gen.http_store(errors=True))
            s.setdefault("resp", {})[str(draw(I(0, 5)))] = [{"st": 0, "cc": draw(st.sampled_from([56, 52, 18, 35, 60, 3]))}]
            insert(s)
    elif mode == "often":
        s = draw(gen.http_store(errors=False))
        bad = draw(st.sampled_from([{"st": 500, "b": False}, {"st": 403, "b": False}, {"st": 503}, {"st": 0, "cc": 7}]))
        n = draw(st.sampled_from([5, 9, 10, 11, 12, 13, 14, 20]))
        first = draw(st.sampled_from([0, 0, 1, 3]))
        s["resp"] = {str(first + i): [bad] for i in range(n)}
        if draw(I(0, 1)):
            s["resp"].pop(str(first + draw(I(0, n - 1))), None)
        if draw(I(0, 2)) == 0:
            s["resp"][str(first + draw(I(0, n - 1)))] = [{"st": 404, "b": False}]
        if draw(I(0, 3)):
            m = draw(I(10, 24))
            c["img"] = [["r", i, c["params"][0] + i] for i in range(m)]
            c["cut"] = [c["params"][0] + i for i in range(m)]
        insert(s)
    elif mode in ("seed", "rescan"):
        s = {"t": "local", "d": draw(gen.contents(scale))}
        if draw(I(0, 2)):
            s["d"].insert(draw(I(0, len(s["d"]))), ["i", 0, 1 << 40])
        if mode == "seed" and draw(I(0, 2)) == 0:
            s["hint"] = {"k": draw(st.sampled_from(["cdc", "cdc", "pieces"]))}
        elif mode == "rescan":
            s["hint"] = draw(gen.hint(scale))
            if draw(I(0, 1)):
                s["hint"] = {"k": "image"}
        insert(s)
        c["readfault"] = [sum(1 for a in stores[:stores.index(s)] if a["t"] == "local"), draw(I(1, 8) if mode == "seed" else I(1, 3)),
                          draw(st.sampled_from(["errno", "eof"])) if mode == "seed" else "errno",
                          draw(st.sampled_from([5, 6, 110]))]
        c["readop"] = "pread" if mode == "seed" else "read"
    elif mode == "target":
        if not any(s["t"] == "target" for s in stores):
            insert({"t": "target"})
        c["img"] = c["img"] * draw(I(2, 3))
        if c["cut"] != "cdc":
            c["cut"] = c["cut"] * 3
        c["tgtfault"] = [draw(I(0, 5)), draw(st.sampled_from(["errno", "eof"])), draw(st.sampled_from([5, 6, 110]))]
    for i, s in enumerate([s for s in stores if s["t"] == "http"]):
        s["u"] = "http://h%d.example%s" % (i, "/p" * (i & 1))
    return c


def starts_of(reads, known):
    """How many chunk retrievals the preads amount to: [number of retrievals begun up to read i].  None if the reads do not correspond to
    known chunk positions."""
    out, n, pos = [], 0, None
    for off, want, got in reads:
        if off in known and off != pos or pos is None and off in known:
            n += 1
            end = known[off]
        elif off in known:
            n += 1
            end = known[off]
        elif pos is None or off != pos or off >= end:
            return None
        if off + want > end:
            return None
        out.append(n)
        pos = off + max(got, 0)
        if pos >= end or got <= 0:
            pos = None
    return out


def known_ranges(s):
    k = {}
    for ents in (ref.chunk(s.data, s.params), s.hint or ()):
        for off, ln, _ in ents:
            if k.get(off, off + ln) != off + ln:
                return None
            k[off] = off + ln
    return k


def execute(ctx, case):
    x = xcase.X(case)
    x.setup(ctx)
    rf, tf = case.get("readfault"), case.get("tgtfault")
    extra = []
    dead = None
    role = None
    exact = True
    lb = set()
    if rf:
        dead = [i for i, s in enumerate(x.stores) if s.kind == "local"][rf[0]]
        role = x.stores[dead].role
        extra = [("fault", case["readop"], role, rf[1], rf[2], rf[3])]
    elif tf:
        dead = next(i for i, s in enumerate(x.stores) if s.kind == "target")
        role = "target"
        o = xcase.simulate(x)
        extra = [("fault", "pread", role, min(o.skipped + 1, len(x.entries)) + 1 + tf[0], tf[1], tf[2])]
    r = x.run(ctx, extra=extra)
    sane(r)
    final = ctx.read("target")
    # which of the chunk retrievals was hit by the fault?
    k = None
    if rf and case["readop"] == "read":
        s = x.stores[dead]
        if any(got < 0 for _, got in r.reads(role)):
            if s.hint is None:
                # the initial scan failed
                expect(r.exit == 1, "exit status %s although a seed could not be scanned" % r.exit, r)
                expect(not r.requests() and final == x.tgt0, "extraction began although a seed could not be scanned", r)
                return {"nontrivial": False, "labels": ["scan-failed"]}
            s.rescan_fails = True
            lb.add("rescan-failed")
    elif role:
        reads = r.preads(role)
        bad = [i for i, p in enumerate(reads) if p[2] < 0 or (p[2] == 0 < p[1] and (tf or rf)[-2] == "eof")]
        if role == "target":
            known = {}
            for off, ln, _ in x.entries:
                known[off] = off + ln
            # the check of what is already there comes first
            pre = min(o.skipped + 1, len(x.entries))
        else:
            known, pre = known_ranges(x.stores[dead]), 0
        if bad:
            n = starts_of(reads, known) if known is not None else None
            if role == "target" and n is not None:
                # end of file is also met while looking at what is there
                bad = [i for i in bad if n[i] > pre]
                seen = [off for j, (off, _, _) in enumerate(reads) if j == 0 or n[j] != n[j - 1]]
                if seen[:pre] != [e[0] for e in x.entries[:pre]]:
                    n = None
            if n is None:
                exact = False
                lb.add("reads-not-attributable")
            elif bad:
                k = n[bad[0]] - pre
    cnt = [0]

    def fails(i):
        if i == dead and k is not None:
            cnt[0] += 1
            return cnt[0] == k
        return False
    o = xcase.simulate(x, readfails=fails)
    lb |= set(xcase.labels_of(x, o, r))
    if o.ambiguous or not exact:
        xcase.check_integrity(x, r, final)
    else:
        xcase.check_exact(x, r, o, final)
    for i in o.disabled:
        s = x.stores[i]
        lb.add("failed-" + s.spec["t"])
        if i == dead and exact and not o.ambiguous and role != "target":
            ev = [e for e in r.events() if e[0] in ("R", "r") and e[1] == role]
            bad = [j for j, e in enumerate(ev) if int(e[-1]) < 0 or (rf[2] == "eof" and e[0] == "R" and int(e[-1]) == 0)]
            # (a side-loaded index may have been given up earlier because of a range outside the seed)
            expect(bad and bad[-1] == len(ev) - 1, "a failed seed is read again (%r)" % ev[bad[0] if bad else 0:], r)
    if o.exit == 1 and o.stop is not None and not o.ambiguous and exact:
        off = x.entries[o.stop][0]
        expect(final[:off] == x.image[:off], "the chunks before the missing one are not in place", r)
        lb.add("stopped")
    return {"nontrivial": bool(o.disabled) and len(x.stores) > 1, "labels": sorted(lb)}


@st.composite
def toolong(draw, tier):
    """Seeds with chunks larger than the 256 KiB buffer, and read errors on the target store."""
    p = draw(st.sampled_from([[100000, 200000, 400000], [262144, 300000, 524288]]))
    n = draw(I(1, 3))
    img = []
    for i in range(n):
        img.append(draw(st.sampled_from([["z", 262144], ["z", 300000], ["r", i, 150000], ["r", i + 10, 400000]])))
    c = {"params": p, "img": img, "cut": "cdc", "tgt": {"d": draw(st.sampled_from([[], [["pre", 1]], [["r", 5, 1000]]]))}}
    stores = [{"t": "local", "d": [["i", 0, 1 << 40]]}]
    if draw(I(0, 1)):
        stores.append({"t": "http", "have": "all"})
    if draw(I(0, 1)):
        stores.insert(0, {"t": "target"})
    c["stores"] = stores
    return c


PARTS = [
    Part("failures", cases, execute, quick=6000, thorough=120000),
    Part("too-long", toolong, execute, quick=120, thorough=1500),
]
