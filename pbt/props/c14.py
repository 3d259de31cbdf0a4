"""C14: encrypted chunks are XChaCha20 under the chunk ID, in csn and csn-tool alike."""
from hypothesis import strategies as st

from ..core import Part
from .. import api, gen, ref, xcase
from ..world import expect, sane

LEVEL = "exploration"
RULE = ("API part: sequences of up to 12 messages under one or several keys, each with its own nonce, length (0 to 300 KiB, concentrated around "
        "multiples of 64) and splitting into pieces, some abandoned half-way; messages around 2^31 and 2^32 bytes (their ends are compared); oracle: an independent XChaCha20 implementation. Tool part: csn-tool on files with generated names, keys and "
        "lengths, including reading and writing in short pieces, applied twice. Extraction part: images from encrypted stores, up to "
        "60 chunks per key, several stores with different keys, generated fragmentation. Non-trivial: more than one message, or more "
        "than one cipher block in a message that is processed in pieces.")
I = gen.I
hexkeys = st.one_of(gen.hexkey, st.binary(min_size=32, max_size=32).map(bytes.hex))
nonces = st.one_of(st.sampled_from(["00" * 24, "ff" * 24, "00" * 23 + "01", "01" + "00" * 23, "00" * 15 + "80" + "00" * 8]),
                   st.binary(min_size=24, max_size=24).map(bytes.hex))
lengths = st.one_of(st.sampled_from([0, 1, 2, 3, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]),
                    I(0, 300), I(0, 5000), I(0, 40000))


@st.composite
def api_cases(draw, tier):
    ops = []
    keys = draw(st.lists(hexkeys, min_size=1, max_size=2))
    for _ in range(draw(I(1, 8))):
        n = draw(lengths)
        if draw(I(0, 60)) == 0:
            n = draw(I(200000, 300000))
        ops.append({"key": draw(st.sampled_from([-1, -1, 0, len(keys) - 1])), "nonce": draw(nonces), "n": n,
                    "sg": draw(st.one_of(st.just([]), st.lists(st.one_of(I(1, 5), I(1, 200), st.sampled_from([63, 64, 65, 128, 4096])), min_size=1, max_size=6)))})
    return {"keys": keys, "ops": ops}


def exec_api(ctx, case):
    lines = ["encinit " + case["keys"][0]]
    key = case["keys"][0]
    want = []
    blocks = False
    for i, op in enumerate(case["ops"]):
        if op["key"] >= 0:
            key = case["keys"][op["key"]]
            lines.append("encinit " + key)
        d = ref.rnd_bytes(i, op["n"])
        if op["n"]:
            ctx.write("d%d" % i, d)
        else:
            ctx.write("d%d" % i, b"")
        lines += ["buf d%d" % i, "encnonce " + op["nonce"], "encdo " + " ".join(map(str, op["sg"]))]
        want += ["nonce 0", "enc " + ref.xchacha20(d, bytes.fromhex(key), bytes.fromhex(op["nonce"])).hex()]
        blocks |= op["n"] > 64 and bool(op["sg"])
    r, out = api.run(ctx, lines)
    expect(len(out) == len(want), "output incomplete", r)
    for i, (a, b) in enumerate(zip(out, want)):
        if a != b:
            k = next((j for j, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
            expect(False, "message %d differs from XChaCha20 from byte %d on (%s / %s)" % (i // 2, max(0, k - 4) // 2, a[k:k + 32], b[k:k + 32]), r)
    return {"nontrivial": len(case["ops"]) > 1 or blocks, "labels": ["messages:%d" % min(len(case["ops"]), 4)] + (["pieces"] if blocks else [])}


@st.composite
def tool_cases(draw, tier):
    files = []
    for i in range(draw(I(1, 4))):
        cid = draw(st.one_of(st.sampled_from(["00" * 32, "ff" * 32]), st.binary(min_size=32, max_size=32).map(bytes.hex)))
        if draw(I(0, 3)) == 0:
            cid = cid.upper()
        n = draw(lengths)
        if draw(I(0, 39)) == 39:
            n = draw(st.one_of(st.sampled_from([65536, 262144, 262145, 1 << 20, (1 << 20) + 1, 1 << 21]), I(40000, 3000000)))
        files.append([cid, n, draw(I(0, 1))])
    c = {"key": draw(hexkeys), "files": files, "how": draw(st.sampled_from(["stdin", "path", "out", "stdout"]))}
    if draw(I(0, 1)):
        c["rand"] = [draw(I(0, 1 << 30)), draw(st.sampled_from([0, 200])), draw(st.sampled_from([0, 500])), draw(st.sampled_from([1, 50, 4000]))]
    return c


def exec_tool(ctx, case):
    key = bytes.fromhex(case["key"])
    spec = "key:" + case["key"]
    data = {}
    lines = []
    for i, (cid, n, enc) in enumerate(case["files"]):
        name = cid + (".cacnk.enc" if enc else ".cacnk")
        if name in data or cid in [k[:64] for k in data]:
            continue
        data[name] = ref.rnd_bytes(i + 30, n)
        ctx.write(name, data[name])
        lines.append(name)
    names = list(data)
    if case["how"] != "stdin":
        names = names[:1]
    plan = []
    for i, nm in enumerate(names):
        plan.append(("role", "in%d" % i, nm))
    if case.get("rand"):
        plan.append(("rand",) + tuple(case["rand"]))

    def other(nm):
        return nm[:-4] if nm.endswith(".enc") else nm + ".enc"

    def crypt(nms, tag):
        if case["how"] == "stdin":
            r = ctx.run("csn-tool", ["csn-tool", "crypt", spec], stdin="".join(n + "\n" for n in nms).encode(), plan=plan)
            outs = [other(n) for n in nms]
        elif case["how"] == "path":
            r = ctx.run("csn-tool", ["csn-tool", "crypt", spec, nms[0]], plan=plan)
            outs = [other(nms[0])]
        elif case["how"] == "out":
            r = ctx.run("csn-tool", ["csn-tool", "crypt", spec, nms[0], tag], plan=plan)
            outs = [tag]
        else:
            r = ctx.run("csn-tool", ["csn-tool", "crypt", spec, nms[0], "-"], plan=plan)
            ctx.write(tag, r.out)
            outs = [tag]
        sane(r)
        expect(r.exit == 0, "csn-tool failed", r)
        for n in outs:
            expect(ctx.exists(n), lambda: "no output %s" % n, r)
        return r, [ctx.read(n) for n in outs], outs

    r, res, outs = crypt(names, "first.out")
    for n, d in zip(names, res):
        want = ref.xchacha20(data[n], key, bytes.fromhex(n[:64])[:24])
        expect(d == want, lambda: "the output for %s (%d bytes) is not its XChaCha20 encryption" % (n, len(data[n])), r)
        expect(ctx.read(n) == data[n], "the input was changed", r)
    # and back
    import os
    for n, o in zip(names, outs):
        os.rename(ctx.path(o), ctx.path(n + ".tmp"))
        os.unlink(ctx.path(n))
        back = other(n) if case["how"] in ("stdin", "path") else n
        os.rename(ctx.path(n + ".tmp"), ctx.path(back))
    r, res, outs = crypt([other(n) if case["how"] in ("stdin", "path") else n for n in names], "second.out")
    for n, d in zip(names, res):
        expect(d == data[n], "applying csn-tool twice does not give the input back", r)
    return {"nontrivial": any(len(d) > 64 for d in data.values()), "labels": [case["how"]] + (["short-io"] if case.get("rand") else []) +
            (["empty"] if any(not d for d in data.values()) else [])}


@st.composite
def csn_cases(draw, tier):
    p = draw(gen.params())
    n = draw(st.one_of(I(1, 8), I(10, 60)))
    img = [["r", i + 100, draw(st.one_of(I(1, 200), I(1, 3000)))] for i in range(n)]
    for _ in range(draw(I(0, 2)) == 2):
        # larger than what is received at a time
        img[draw(I(0, n - 1))] = ["r", draw(I(0, 99)), draw(st.one_of(I(10000, 70000), I(10000, 262144)))]
    c = {"params": p, "img": img, "cut": [q[2] for q in img], "tgt": {"d": []}}
    stores = []
    for j in range(draw(I(0, 2))):
        s = {"t": "http", "have": draw(I(0, (1 << n) - 1)), "sg": draw(gen.segs), "dflt": {"st": 200, "b": draw(gen.body_variant())}}
        if draw(I(0, 3)):
            s["key"] = draw(hexkeys)
        if draw(I(0, 2)) == 0:
            # now and then something undecipherable or aborted in between
            s["resp"] = {str(draw(I(0, n - 1))): [{"st": 200, "b": {"wk": "22" * 32}}],
                         str(draw(I(0, n - 1))): [{"st": 200, "cc": 28, "dl": draw(I(0, 100))}, {"st": 200}]}
        stores.append(s)
    stores.append({"t": "http", "have": "all", "key": draw(hexkeys), "sg": draw(gen.segs), "dflt": {"st": 200, "b": draw(gen.body_variant())}})
    for i, s in enumerate(stores):
        s["u"] = ["http://a.example", "http://b.example/store", "http://c.example:8080/x/y"][i]
    c["stores"] = stores
    return c


def exec_csn(ctx, case):
    x = xcase.X(case)
    x.setup(ctx)
    o = xcase.simulate(x)
    r = x.run(ctx)
    sane(r)
    final = ctx.read("target")
    expect(r.exit == 0, "an image is not extracted although the last, encrypted store has every chunk", r)
    expect(final == x.image, "wrong content", r)
    if not o.ambiguous:
        xcase.check_exact(x, r, o, final)
    keys = {s.spec.get("key") for s in x.stores}
    return {"nontrivial": len(x.uniq) > 1, "labels": ["stores:%d" % len(keys), "chunks:" + ("<10" if len(x.uniq) < 10 else "10+")]}


@st.composite
def huge_cases(draw, tier):
    edge = draw(st.sampled_from([1 << 32, 1 << 31, 1 << 32]))
    d = draw(st.one_of(I(-70, 300), I(-5000, 1 << 20), I(1, 1 << 29)))
    sg = [edge + d]
    if draw(I(0, 2)) == 0:
        # the same in a few pieces
        a = draw(I(1, edge - 1))
        sg = [a, edge + d - a] if edge + d > a else [a]
    return {"key": draw(hexkeys), "nonce": draw(nonces), "sg": sg + [draw(I(1, 200))]}


def exec_huge(ctx, case):
    r, out = api.run(ctx, ["encinit " + case["key"], "encnonce " + case["nonce"], "encbig " + " ".join(map(str, case["sg"]))], cpu=60, wall=180)
    want = ["nonce 0"]
    pos = 0
    for n in case["sg"]:
        m = min(n, 96)
        pos += n
        want.append("big " + ref.xchacha20_ks(m, pos - m, bytes.fromhex(case["key"]), bytes.fromhex(case["nonce"])).hex())
    for i, (a, b) in enumerate(zip(out, want)):
        expect(a == b, lambda: "the end of piece %d of a long message is not XChaCha20 (%s / %s)" % (i, a[-32:], b[-32:]), r)
    expect(len(out) == len(want), "output incomplete", r)
    return {"nontrivial": True, "labels": [">4G" if sum(case["sg"]) > 1 << 32 else "<4G"]}


PARTS = [
    Part("huge", huge_cases, exec_huge, quick=24, thorough=400, needs="apix"),
    Part("api", api_cases, exec_api, quick=4000, thorough=100000, needs="apix"),
    Part("tool", tool_cases, exec_tool, quick=1500, thorough=40000),
    Part("csn", csn_cases, exec_csn, quick=1500, thorough=40000),
]
