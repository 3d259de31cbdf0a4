"""C24: memory and file descriptors do not pile up."""
from hypothesis import strategies as st

from ..core import Part
from .. import gen, ref, xcase
from ..world import expect, sane

LEVEL = "exploration"
RULE = ("metamorphic: the same work done a few times and many times, with every allocation and release metered and the open descriptors counted at the end; the many must not need "
        "more than the few, except for 160 bytes for each further entry of the index when the target is a store. 'extract': a unit of chunks (supplied by seeds with right, wrong or no hints, the target, HTTP stores with and "
        "without encryption, after misses, errors, damaged and foreign responses and broken attempts) repeated in one image; 'oversize': responses that are far larger than any chunk, by different factors; 'csn-tool': lists of files of which some "
        "already have an output; 'patchdd': sources of different length. Non-trivial: at least ten repetitions of a unit in which something is obtained.")
I = gen.I


def meter(r):
    z = [e for e in r.events() if e[0] == "Z"]
    expect(len(z) == 1, "the program ends without running its exit handlers", r)
    return [int(v) for v in z[0][1:]]


def compare(r1, r2, slack, what):
    a, b = meter(r1), meter(r2)
    expect(b[0] <= a[0] + slack, lambda: "%s: %d bytes are in use at the end, %d with little work" % (what, b[0], a[0]), r2)
    expect(b[1] <= a[1] + slack, lambda: "%s: up to %d bytes are in use, %d with little work" % (what, b[1], a[1]), r2)
    expect(b[3] <= a[3], lambda: "%s: %d descriptors are open at the end, %d with little work" % (what, b[3], a[3]), r2)


@st.composite
def answer(draw, good):
    """what one store says to one chunk in each round"""
    k = gen.wsample(draw, [("ok", 8), ("404", 0 if good else 4), ("410", 0 if good else 1), ("err", 0 if good else 2), ("damaged", 0 if good else 4), ("retry", 3)])
    if k == "ok":
        return [{"st": 200, "b": {"lv": draw(st.sampled_from([1, 3])), "ck": draw(I(0, 1)), "cs": draw(I(0, 1))}}]
    if k in ("404", "410"):
        return [{"st": int(k)}]
    if k == "err":
        return [{"st": draw(st.sampled_from([400, 403, 500, 503])), "b": {"k": draw(st.sampled_from(["ok", "empty"]))}}]
    if k == "damaged":
        b = draw(st.sampled_from([{"k": "bad"}, {"k": "short"}, {"k": "long", "by": 10}, {"k": "empty"}, {"k": "plain"}, {"keep": 3}, {"cutoff": 3}, {"fx": [2, 1]}, {"fx": [9, 255]},
                                  {"k": "other", "j": 0}, {"enc": 0}, {"tail": [["r", 3, 400]]}, {"k": "long", "by": 270000}]))
        return [{"st": 200, "b": b}]
    out = []
    for _ in range(draw(I(1, 9))):
        out.append({"st": draw(st.sampled_from([0, 200])), "cc": draw(st.sampled_from([6, 7, 28])), "dl": draw(st.sampled_from([0, 1, 3, 4, 20, 200]))})
    return out + [{"st": 200}]


@st.composite
def cases(draw, tier):
    n = draw(I(2, 6))
    c = {"lens": [draw(st.one_of(I(1, 300), I(1, 3000), I(3000, 60000) if draw(I(0, 5)) == 0 else I(1, 100))) for _ in range(n)], "rep": draw(st.sampled_from([10, 20, 40])),
         "http": [], "tgt": draw(st.sampled_from(["", "", "first", "last"])), "local": draw(st.sampled_from(["", "", "plain", "hint", "wrong", "outside"])),
         "have": draw(I(0, (1 << n) - 1)), "blk": int(draw(I(0, 5)) == 0), "rs": draw(I(0, 1000))}
    for _ in range(draw(I(0, 2))):
        h = {"a": [draw(answer(False)) for _ in range(n)], "key": draw(st.one_of(st.none(), gen.hexkey)), "sg": draw(gen.segs)}
        h["a"][draw(I(0, n - 1))] = draw(answer(True))
        c["http"].append(h)
    c["fb"] = {"key": draw(st.one_of(st.none(), gen.hexkey)), "sg": draw(gen.segs)}
    return c


def build(case, m):
    n = len(case["lens"])
    unit = [["r", case["rs"] + 17 * i, ln] for i, ln in enumerate(case["lens"])]
    spec = {"params": [48, 100, 400], "img": unit * m, "cut": case["lens"] * m, "tgt": {"d": [], "blk": case["blk"]}, "stores": []}
    if case["local"]:
        d = [["k", i] for i in range(n) if case["have"] >> i & 1]
        s = {"t": "local", "d": d, "blk": case["blk"]}
        if case["local"] != "plain":
            s["hint"] = {"k": "pieces"}
            if case["local"] == "wrong":
                s["d"] = [["r", 5, 90]] + d
                s["hint"]["mod"] = [["shift", 0, 7]]
            elif case["local"] == "outside":
                s["hint"]["mod"] = [["end", len(d) - 1, 1000]]
        spec["stores"].append(s)
    for i, h in enumerate(case["http"]):
        spec["stores"].append({"t": "http", "key": h["key"], "sg": h["sg"], "resp": {str(k): a * m for k, a in enumerate(h["a"])}, "u": "http://s%d.example" % i})
    spec["stores"].append({"t": "http", "key": case["fb"]["key"], "sg": case["fb"]["sg"], "u": "http://last.example"})
    if case["tgt"]:
        spec["stores"].insert(0 if case["tgt"] == "first" else len(spec["stores"]), {"t": "target"})
    return xcase.X(spec)


def execute(ctx, case):
    res = []
    for m in (3, 3 + case["rep"]):
        ctx.reset()
        x = build(case, m)
        x.setup(ctx)
        r = x.run(ctx, extra=[("meter",)])
        sane(r)
        expect(r.exit == 0, "a chunk is not obtained", r)
        xcase.check_integrity(x, r, ctx.read("target"))
        res.append(r)
    n = len(case["lens"])
    compare(res[0], res[1], 512 + (160 * n * case["rep"] if case["tgt"] else 0), "%d rounds of %d chunks" % (3 + case["rep"], n))
    lb = ["http:%d" % len(case["http"])]
    if case["local"]:
        lb.append("local-" + case["local"])
    if case["tgt"]:
        lb.append("target-store")
    if any(h["key"] for h in case["http"]) or case["fb"]["key"]:
        lb.append("encrypted")
    if any(len(a) > 1 for h in case["http"] for a in h["a"]):
        lb.append("retries")
    return {"nontrivial": case["rep"] >= 10, "labels": lb}


@st.composite
def tool_cases(draw, tier):
    return {"sz": draw(st.one_of(st.sampled_from([0, 1, 100, 512, 1000, 4096, 65536, 70000, 131072, 262144]), I(0, 2000), I(1, 40).map(lambda k: k * 4096))), "k": draw(I(1, 4)), "rep": draw(st.sampled_from([10, 30, 60])), "old": draw(I(0, 3)),
            "sfx": draw(st.sampled_from([".cacnk", ".cacnk.enc"])), "again": draw(I(0, 1)), "key": draw(I(0, 1))}


def exec_tool(ctx, case):
    res = []
    key = "0f" * 32
    for m in (3, 3 + case["rep"]):
        ctx.reset()
        ctx.write("key", key.encode())
        names = []
        for i in range(m):
            for j in range(case["k"]):
                cid = ref.sha(b"%d/%d" % (i, j))
                nm = cid.hex() + case["sfx"]
                names.append(nm)
                ctx.write(nm, ref.rnd_bytes(j, case["sz"]))
                if j < case["old"]:
                    ctx.write(nm[:-4] if nm.endswith(".enc") else nm + ".enc", b"old")
        if case["again"]:
            names = [x for x in names for _ in (0, 1)]
        r = ctx.run("csn-tool", ["csn-tool", "crypt", "file:key" if case["key"] else "key:" + key], stdin="".join(x + "\n" for x in names).encode(), plan=[("meter",)])
        sane(r)
        expect(r.exit == 0, "csn-tool fails", r)
        res.append(r)
    compare(res[0], res[1], 512, "%d files" % len(names))
    return {"nontrivial": True, "labels": ["size:" + ("0" if not case["sz"] else "pages" if case["sz"] % 4096 == 0 else "other"), "all-exist" if case["old"] >= case["k"] else "new"]}


@st.composite
def pdd_cases(draw, tier):
    return {"a": draw(I(1, 1 << 20)), "n": draw(st.sampled_from([1, 3, 7])), "diff": draw(st.lists(I(0, 8 << 20), max_size=6)), "tty": draw(I(0, 1))}


def exec_pdd(ctx, case):
    res = []
    for m in (0, case["n"]):
        ctx.reset()
        src = ref.rnd_bytes(3, case["a"] + (m << 20))
        b = bytearray(src)
        for d in case["diff"]:
            b[d % len(b)] ^= 1
        ctx.write("src", src)
        ctx.write("dst", bytes(b))
        r = ctx.run("patchdd", ["patchdd", "src", "dst"], plan=[("meter",)] + ([("tty",)] if case["tty"] else []))
        sane(r)
        expect(r.exit == 0 and ctx.read("dst") == src, "patchdd fails", r)
        res.append(r)
    compare(res[0], res[1], 48, "%d MiB" % (case["n"] + 1))
    return {"nontrivial": True, "labels": ["mib:%d" % case["n"]]}


@st.composite
def over_cases(draw, tier):
    return {"n": draw(I(1, 3000)), "kind": draw(st.sampled_from(["r", "frames", "z"])), "key": draw(st.one_of(st.none(), gen.hexkey)), "ks": sorted(draw(st.tuples(I(3000, 3500), I(6000, 12000)))),
            "sg": draw(st.one_of(st.just([]), st.just([16384]), st.lists(I(1000, 16384), min_size=1, max_size=3))), "lv": draw(st.sampled_from([1, 3]))}


def exec_over(ctx, case):
    """a response that is much larger than any chunk: what does not fit is not collected (libzstd notices after 16 calls without progress)"""
    res = []
    for k in case["ks"]:
        ctx.reset()
        n = k << 10
        b = {"k": "long", "by": n, "lv": case["lv"]}
        if case["kind"] == "frames":
            b["fr"] = [case["n"]] + [65536] * (n // 65536)
        elif case["kind"] == "z":
            b = {"k": "zeros", "by": n * 8}
        spec = {"params": [48, 100, 400], "img": [["r", 5, case["n"]], ["r", 6, 10]], "cut": [case["n"], 10], "tgt": {"d": []}, "stores": [
            {"t": "http", "u": "http://a.example", "key": case["key"], "sg": case["sg"], "have": "none", "resp": {"0": [{"st": 200, "b": b}], "1": [{"st": 200}]}},
            {"t": "http", "u": "http://b.example", "have": "all"}]}
        x = xcase.X(spec)
        x.setup(ctx)
        r = x.run(ctx, extra=[("meter",)])
        sane(r)
        expect(r.exit == 0, "a chunk is not obtained", r)
        xcase.check_integrity(x, r, ctx.read("target"))
        res.append(r)
    compare(res[0], res[1], 300000, "a response of %d KiB" % case["ks"][1])
    return {"nontrivial": True, "labels": [case["kind"]] + (["encrypted"] if case["key"] else [])}


PARTS = [
    Part("oversize", over_cases, exec_over, quick=64, thorough=1500),
    Part("extract", cases, execute, quick=1500, thorough=40000),
    Part("csn-tool", tool_cases, exec_tool, quick=250, thorough=4000),
    Part("patchdd", pdd_cases, exec_pdd, quick=120, thorough=2000),
]
