"""C26: running out of memory is an error like any other."""
import os

from hypothesis import strategies as st

from ..core import Part
from .. import gen, ref, xcase
from ..world import expect, sane

LEVEL = "fault_enumeration"
RULE = ("generated plans make allocations fail (malloc, calloc, realloc, strdup, asprintf, and what libcurl, libzstd and OpenSSL allocate for the program: handles, string options, decoders, ciphers): "
        "the n-th one, several in a row, or all from the n-th on. 'csn': extraction scenarios as csn or casync; oracle: ordinary exit status, no sanitizer report, "
        "exit 0 only with the complete image, nothing unverified written, nothing outside the image touched, seeds and index unchanged, and a further run with enough memory completes the image. "
        "'every-allocation': each single allocation of fixed scenarios. 'csn-tool': outputs are complete or absent, exit 0 only if all are there. Non-trivial: an allocation really failed.")
I = gen.I
KEY = "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"


@st.composite
def failures(draw, deep=True):
    out = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        n = draw(st.one_of(I(1, 25), I(1, 60), I(1, 300)) if deep else I(1, 14))
        out.append([n, draw(st.sampled_from([1, 1, 1, 1, 2, 3, 10, 0]))])
        if draw(I(0, 1)):
            # of one kind
            out[-1][0] = draw(st.one_of(I(1, 3), I(1, 12)))
            out[-1].append(draw(st.sampled_from(["malloc", "calloc", "realloc", "realloc", "realloc", "strdup", "curl", "setopt", "zstd", "decompress", "decompress", "evp", "evpinit"] if deep else
                                                ["malloc", "evp", "evpinit"])))
    return out


@st.composite
def cases(draw, tier):
    c = draw(gen.extraction(lies=True, errors=True, closed=False))
    if draw(I(0, 3)) == 0:
        # a store that answers in pieces of growing size, and another one behind it
        s = draw(gen.http_store(have="all"))
        s.update(u="http://y.example", sg=sorted(draw(st.lists(I(1, 400), min_size=2, max_size=8))))
        f = draw(gen.http_store(have="all"))
        f.update(u="http://z.example")
        c["stores"] = [s, f]
    elif draw(I(0, 1)) == 0:
        # many chunks: the tables grow
        n = draw(st.one_of(I(20, 200), I(200, 700)))
        c["img"] = [["r", draw(I(0, 50)), draw(I(1, 60)) * n]]
        c["cut"] = ["#", n, c["img"][0][2] // n]
        if draw(I(0, 1)):
            c["tgt"] = {"d": [["i", 0, draw(I(0, c["img"][0][2]))]]}
        if draw(I(0, 1)) and not any(s["t"] == "http" for s in c["stores"]):
            c["stores"].append(draw(gen.http_store(have="all")))
            c["stores"][-1]["u"] = "http://z.example"
    c["af"] = draw(failures())
    if draw(I(0, 5)) == 0:
        c["casync"] = 1
    return c


def fired(r):
    return [e for e in r.events() if e[0] == "A" and e[-1] == "1"]


def execute(ctx, case):
    x = xcase.X(case)
    x.setup(ctx)
    argv = None
    if case.get("casync"):
        argv = ["casync", "extract"]
        for a, s in zip(x.args(), x.stores):
            argv.append(("--store=" if s.kind == "http" else "--seed=") + a)
        argv += ["index.caibx", x.target_arg]
    before_ls = sorted(os.listdir(ctx.dir))
    r = x.run(ctx, argv=argv, extra=[("alloc",) + tuple(f) for f in case["af"]])
    sane(r)
    fd = fired(r)
    lb = ["exit%d" % r.exit]
    expect(sorted(os.listdir(ctx.dir)) == before_ls, "files have been created or removed", r)
    o = xcase.simulate(x)
    if x.tgt_missing:
        expect(r.exit == 1, "exit status %s although the target does not exist" % r.exit, r)
        return {"nontrivial": bool(fd), "labels": lb}
    final = ctx.read("target")
    xcase.check_integrity(x, r, final)
    xcase.check_frame(x, ctx, x.tgt0, final, r)
    if not o.ambiguous:
        if not fd:
            expect(r.exit == o.exit, lambda: "exit status %s, expected %s" % (r.exit, o.exit), r)
        expect(r.exit >= o.exit, "exit 0 although a chunk cannot be obtained", r)
    for e in fd:
        lb.append(e[1])
    # enough memory again: the failed run has done no harm
    if fd and r.exit == 1 and not o.ambiguous and o.exit == 0 and not any(s.alias if s.kind == "local" else s.kind == "target" for s in x.stores):
        r2 = x.run(ctx, argv=argv)
        sane(r2)
        expect(r2.exit == 0, "after a run that was out of memory, a further run does not complete the image", r2)
        xcase.check_integrity(x, r2, ctx.read("target"))
        lb.append("completed")
    return {"nontrivial": bool(fd), "labels": sorted(set(lb))}


def scenarios():
    img = [["r", 1, 5000], ["r", 2, 4000]]
    base = {"params": [48, 100, 400], "img": img, "cut": "cdc", "tgt": {"d": [["r", 9, 3000]]}}
    # responses of increasing size, in pieces of increasing size
    grow = {"params": [48, 100, 400], "img": [["r", 60 + i, 20 + 45 * i] for i in range(8)] + [["r", 70, 40]], "cut": [20 + 45 * i for i in range(8)] + [40], "tgt": {"d": []}}
    many = {"params": [48, 100, 400], "img": [["r", 3, 30000]], "cut": ["#", 600, 50], "tgt": {"d": [["i", 0, 20000]]}}
    http = {"t": "http", "u": "http://a.example"}
    crypt = {"t": "http", "u": "http://b.example", "key": KEY}
    hole = dict(http, have=0b1010101)
    seed = {"t": "local", "d": [["r", 1, 5000], ["r", 7, 999]]}
    hint = dict(seed, hint={"k": "pieces"})
    return [dict(base, stores=[http]), dict(base, stores=[seed, crypt]), dict(base, stores=[hint, {"t": "target"}, hole, crypt]),
            dict(many, stores=[{"t": "target"}, http]), dict(many, stores=[{"t": "local", "d": [["i", 0, 30000]]}, crypt]),
            dict(many, stores=[hole, {"t": "local", "d": [["i", 0, 30000]], "hint": {"k": "pieces"}}]), dict(base, stores=[hole, crypt], casync=1)] + \
        [dict(grow, stores=[dict(a, sg=sg), dict(b, sg=[1 << 14])]) for a, b in ((http, crypt), (crypt, http)) for sg in ([3, 20, 90, 300], [200, 7])]


def every(tier):
    out = []
    for i, s in enumerate(scenarios()):
        for n in range(1, (50 if i < 7 else 15) if tier == "quick" else 400):
            for k in (1, 2, 0):
                out.append(dict(s, af=[[n, k]]))
        for n in range(1, 12):
            for w in ("realloc", "decompress", "evpinit", "setopt"):
                out.append(dict(s, af=[[n, 1, w]]))
    return out


@st.composite
def tool_cases(draw, tier):
    c = {"files": [draw(st.sampled_from([0, 1, 64, 1000, 40000])) for _ in range(draw(I(1, 5)))], "how": draw(st.sampled_from(["stdin", "stdin", "path", "out", "stdout"])),
         "enc": draw(I(0, 1)), "key": draw(st.sampled_from(["key", "key", "file"])), "have": draw(I(0, 31)) & draw(I(0, 31)), "af": draw(failures(deep=False))}
    return c


def exec_tool(ctx, case):
    names, data = [], {}
    for i, n in enumerate(case["files"]):
        f = "%02x" % (i + 1) * 32 + (".cacnk.enc" if case["enc"] else ".cacnk")
        names.append(f)
        data[f] = ref.rnd_bytes(i, n)
        ctx.write(f, data[f])
    other = lambda f: f[:-4] if case["enc"] else f + ".enc"
    for i, f in enumerate(names):
        if case["have"] >> i & 1:
            data[other(f)] = b"was here before"
            ctx.write(other(f), data[other(f)])
    data["keyfile"] = (KEY + "\n").encode()
    ctx.write("keyfile", data["keyfile"])
    argv = ["csn-tool", "crypt", "key:" + KEY if case["key"] == "key" else "file:keyfile"]
    stdin = b""
    if case["how"] == "stdin":
        stdin = "".join(f + "\n" for f in names).encode()
        jobs = [(f, other(f)) for f in names]
    else:
        jobs = [(names[0], {"path": other(names[0]), "out": "out", "stdout": None}[case["how"]])]
        argv.append(names[0])
        if case["how"] == "out":
            argv.append("out")
        elif case["how"] == "stdout":
            argv.append("-")
    r = ctx.run("csn-tool", argv, stdin=stdin, plan=[("alloc",) + tuple(f) for f in case["af"]])
    sane(r)
    fd = fired(r)
    want = {}
    for f, o in jobs:
        res = ref.xchacha20(data[f], bytes.fromhex(KEY), bytes.fromhex(f[:64])[:24])
        if o is None:
            expect(r.out == res if r.exit == 0 else r.out == b"", lambda: "exit %d with %d bytes on standard output" % (r.exit, len(r.out)), r)
        elif o not in data:
            want[o] = res
    for f in sorted(os.listdir(ctx.dir)):
        got = ctx.read(f)
        if f in data:
            expect(got == data[f], "existing file %s was changed" % f, r)
        else:
            expect(f in want, "unexpected file %s" % f, r)
            expect(got == want[f], "wrong or incomplete output %s" % f, r)
            del want[f]
    if not fd:
        expect(r.exit == 0, "failure for no reason", r)
    if r.exit == 0:
        expect(not want, lambda: "exit 0 without output %s" % sorted(want), r)
    return {"nontrivial": bool(fd), "labels": sorted(set(["exit%d" % r.exit, case["how"]] + [e[1] for e in fd]))}


PARTS = [
    Part("csn", cases, execute, quick=5000, thorough=120000),
    Part("every-allocation", execute=execute, cases=every),
    Part("csn-tool", tool_cases, exec_tool, quick=1500, thorough=20000),
]
