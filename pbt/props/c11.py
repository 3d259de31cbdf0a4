"""C11: no input makes the program crash, corrupt memory or hang."""
import os
import struct
import subprocess

from hypothesis import strategies as st

from ..core import Part
from .. import gen, ref, xcase
from ..world import HarnessError, Violation, sane

LEVEL = "exploration"
RULE = ("'damage': complete extractions (seeds, side-loaded indices, target, plain and encrypted HTTP stores, any kernel, terminal and log settings) where "
        "every input file, response and key file is damaged by generated edits (bytes, 64-bit fields set to boundary values such as 0, 2^31, 2^32, 2^63, "
        "2^64-40, truncation, insertion, removal, copying, sparse extension up to 2^42), concentrated on field boundaries; 'params': well-formed indices with extreme chunk size "
        "parameters (0, 1, around the window of 48, around the pole of the discriminator, up to 2^32-1) and seeds to scan; 'http': hand-made zstd frames "
        "(any window size, RLE bombs, skippable frames, dictionaries), huge and hostile responses; 'args': arbitrary command lines, store specifications, key specifications and environments for all "
        "programs; 'files': arbitrary bytes for csn-tool and patchdd; 'fuzz': coverage-guided fuzzing (libFuzzer, ASan and UBSan of clang) of the index parser, chunker, side-loading, "
        "HTTP data path, key parser and chunk index with their own invariants. Oracle: exit status 0 or 1 and no signal, sanitizer report (ASan, UBSan, with uninitialised "
        "memory filled with a pattern), and bounded CPU time and number of I/O operations. Non-trivial: the program read at least one damaged or hostile input.")
I = gen.I

U64 = [0, 1, 2, 8, 16, 39, 40, 41, 47, 48, 49, 56, 64, 96, 255, 256, 4096, 65535, 65536, 262143, 262144, 262145, (1 << 31) - 1, 1 << 31, (1 << 31) + 1,
       (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 64, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 40, (1 << 64) - 16, (1 << 64) - 48,
       0x96824d9c7b129ff9, 0xe75b9e112f17417d, 0x4b4f050e5549ecd1, 0x9000000000000000, 0xd000000000000000, 0x2000000000000000]


@st.composite
def edits(draw, kind):
    out = []
    for _ in range(draw(I(1, 4))):
        k = gen.wsample(draw, [("s8", 6 if kind == "index" else 1), ("x", 4), ("t", 2), ("i", 1), ("d", 2), ("c", 2), ("a", 1), ("sparse", 1 if kind != "body" else 0)])
        if kind == "index":
            w = draw(I(0, 3))
            if w == 0:
                pos = draw(I(0, 7)) * 8
            elif w == 1:
                pos = 64 + draw(I(0, 12)) * 40 + draw(st.sampled_from([0, 0, 0, 8, 31]))
            elif w == 2:
                pos = -40 + draw(I(0, 4)) * 8
            else:
                pos = draw(I(-100, 600))
        else:
            pos = draw(st.one_of(I(0, 20), I(-20, 600), I(-20, 20000)))
        if k == "s8":
            out.append([k, pos, draw(st.sampled_from(U64)) if draw(I(0, 3)) else draw(I(0, (1 << 64) - 1))])
        elif k == "x":
            out.append([k, pos, draw(st.sampled_from([1, 0x80, 0xff, 2])) if draw(I(0, 1)) else draw(I(1, 255))])
        elif k == "t":
            out.append([k, draw(st.one_of(st.sampled_from([0, 1, 15, 16, 47, 48, 63, 64, 103, 104, 105, 143, 144]), I(-90, -1), I(0, 400)))])
        elif k == "i":
            out.append([k, pos, draw(st.binary(min_size=1, max_size=48)).hex()])
        elif k == "d":
            out.append([k, pos, draw(st.sampled_from([1, 8, 32, 40, 80])) if draw(I(0, 1)) else draw(I(1, 300))])
        elif k == "c":
            out.append([k, pos, draw(st.sampled_from([1, 8, 32, 40, 80])), draw(I(0, 600))])
        elif k == "a":
            out.append([k, draw(I(0, 99)), draw(st.one_of(st.sampled_from([1, 8, 39, 40, 41, 80]), I(1, 500)))])
        else:
            # a hole of this many table entries in front of the last bytes, with a matching footer or not
            out.append([k, draw(st.sampled_from([10, 1000, 1 << 20, 1 << 28, 1 << 31, 1 << 32, 1 << 36])), draw(I(0, 1))])
    return out


def apply(b, ops):
    b = bytearray(b)
    for op in ops:
        n = len(b)
        k = op[0]
        if k == "sparse":
            continue
        if k == "t":
            del b[op[1] if op[1] >= 0 else max(0, n + op[1]):]
        elif k == "a":
            b += ref.rnd_bytes(op[1], op[2])
        else:
            pos = op[1] if op[1] >= 0 else max(0, n + op[1])
            if k == "x":
                if n:
                    b[pos % n] ^= op[2]
            elif k == "s8":
                if n >= 8:
                    pos = min(pos, n - 8)
                    b[pos:pos + 8] = struct.pack("<Q", op[2])
            elif k == "i":
                b[min(pos, n):min(pos, n)] = bytes.fromhex(op[2])
            elif k == "d":
                del b[min(pos, n):min(pos, n) + op[2]]
            elif k == "c":
                p = min(pos, n)
                q = min(op[3], n)
                b[q:q + op[2]] = b[p:p + op[2]]
    return bytes(b)


def damage(ctx, name, ops):
    if not os.path.isfile(ctx.path(name)):
        return
    b = apply(ctx.read(name), ops)
    ctx.write(name, b)
    for op in ops:
        if op[0] == "sparse" and name.endswith(".caibx") and len(b) >= 40:
            tail = bytearray(b[-40:])
            if op[2]:
                tail[24:32] = struct.pack("<Q", len(b) - 0x30 + 40 * op[1])
            with open(ctx.path(name), "r+b") as f:
                f.seek(len(b) - 40)
                f.write(b"\0" * 40)
                f.seek(len(b) - 40 + 40 * op[1])
                f.write(bytes(tail))


def check(r, what=""):
    sane(r)


ROLES = {"index.caibx": "index"}


@st.composite
def damage_cases(draw, tier):
    c = draw(gen.extraction(lies=True, errors=False, alias=True, missing=True))
    names = ["index.caibx"]
    nl = 0
    for s in c["stores"]:
        if s["t"] in ("local", "alias"):
            if s["t"] == "local":
                names.append("seed%d" % nl)
            if s.get("hint"):
                names += ["seed%d.caibx" % nl] * 2
            nl += 1
    d = {}
    for _ in range(draw(I(1, 2))):
        n = draw(st.sampled_from(names))
        d[n] = draw(edits("index" if n.endswith(".caibx") else "data"))
    c["dmg"] = d
    if any(s["t"] == "http" for s in c["stores"]) and draw(I(0, 1)):
        c["bdmg"] = draw(st.lists(edits("body"), min_size=1, max_size=3))
    if draw(I(0, 4)) == 0:
        c["kcapi"] = draw(st.sampled_from(["sha256", "", "x" * 63, "x" * 64, "x" * 300, "sha256-generic"]))
        c["env"] = 1
    return c


def exec_damage(ctx, case):
    x = xcase.X(case)
    k = 0
    if case.get("bdmg"):
        for s in x.stores:
            if s.kind == "http":
                for cid in sorted(s.resp):
                    for r in s.resp[cid]:
                        r["body"] = apply(r["body"], case["bdmg"][k % len(case["bdmg"])])
                        k += 1
    x.setup(ctx)
    for n, ops in case["dmg"].items():
        damage(ctx, n, ops)
    env = {}
    extra = [("maxevents", 3000000)]
    if "kcapi" in case:
        env["CSN_KCAPI_DRIVER"] = case["kcapi"]
        extra.append(("kcapi",))
    r = x.run(ctx, extra=extra, env=env)
    sane(r)
    touched = []
    for n in case["dmg"]:
        role = "index" if n == "index.caibx" else n.replace(".caibx", "h") if n.endswith(".caibx") else n
        if r.reads(role) or r.preads(role):
            touched.append("idx" if n == "index.caibx" else "hint" if n.endswith(".caibx") else "seed")
    if k and r.requests():
        touched.append("http")
    if r.reads("target") or r.preads("target") or r.writes("target"):
        stage = "past-index"
    else:
        stage = "index-refused" if r.exit else "no-chunk"
    return {"nontrivial": bool(touched), "labels": [stage, "exit%s" % r.exit] + ["damaged-" + t for t in sorted(set(touched))]}


# ------------------------------------------------------------------ parameters

PV = [0, 1, 2, 3, 10, 46, 47, 48, 49, 50, 95, 96, 97, 100, 256, 1000, 65535, 65536, 65537, 262144, 262145, 1 << 20, 9324553, 9324554, 9324555, 9324556, 9324557,
      9400000, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 3, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63), (1 << 64) - 1]


@st.composite
def param_cases(draw, tier):
    v = draw(st.lists(st.one_of(st.sampled_from(PV), st.sampled_from(PV[:-4]), I(0, 300), I(0, (1 << 32) - 1)), min_size=3, max_size=3))
    if draw(I(0, 7)):
        v.sort()
        if v[1] == v[0]:
            v[1] += 1
        if v[2] <= v[1]:
            v[2] = v[1] + 1
    v = [min(q, (1 << 64) - 1) for q in v]
    c = {"params": v, "img": draw(gen.pieces(200, 4, 1)), "tgt": {"d": draw(gen.target_data(100))}}
    c["cut"] = draw(st.lists(st.one_of(I(1, 60), I(1, 4000), st.just(262144)), min_size=1, max_size=6))
    if draw(I(0, 4)) == 0:
        # chunks beyond what any buffer holds, with the target (and seeds) having so much to read
        c["img"] = [["r", draw(gen.seed_i), draw(I(262145, 1000000))] if draw(I(0, 2)) else ["z", draw(I(262145, 3000000))]]
        c["cut"] = draw(st.lists(st.one_of(st.sampled_from([262144, 262145, 262200, 266240, 393216, 524288, 600000, 2000000]), I(1, 900000)), min_size=1, max_size=4)) + [1 << 22]
        c["tgt"]["d"] = draw(st.sampled_from([[["i", 0, 1 << 40]], [["i", 0, 1 << 40]], [["pre", 1]], [["pre", 1], ["z", 700000]], []])) + draw(st.sampled_from([[], [["r", 3, 400000]]]))
    stores = []
    for _ in range(draw(I(1, 2))):
        s = {"t": "local", "d": draw(gen.contents(100))}
        if draw(I(0, 5)) == 0:
            s["d"] = s["d"] + [["z", draw(st.sampled_from([262143, 262144, 262145, 300000]))]]
        if draw(I(0, 2)) == 0:
            s["hint"] = {"k": draw(st.sampled_from(["pieces", "image"]))}
        stores.append(s)
    if draw(I(0, 1)):
        stores.insert(0, {"t": "target"})
    c["stores"] = stores
    return c


def exec_params(ctx, case):
    x = xcase.X(case)
    x.setup(ctx)
    r = x.run(ctx, extra=[("maxevents", 3000000)])
    sane(r)
    n = sum(1 for s in x.stores if s.kind == "local" and r.reads(s.role))
    return {"nontrivial": n > 0, "labels": ["scanned" if n else "not-scanned", "exit%s" % r.exit,
                                            "min<48" if case["params"][0] < 48 else "min>=48", "avg-large" if case["params"][1] > 9324553 else "avg-small"]}


# ------------------------------------------------------------------------ HTTP

def frame(f, content):
    """A zstd frame by hand."""
    out = bytearray(struct.pack("<I", f.get("magic", 0xFD2FB528)))
    fhd = f["fcs"] << 6 | f["single"] << 5 | f["unused"] << 4 | f["resv"] << 3 | f["ck"] << 2 | f["dict"]
    out.append(fhd)
    if not f["single"]:
        out.append(f["win"])
    out += ref.rnd_bytes(f["dict"], [0, 1, 2, 4][f["dict"]])
    n = [1 if f["single"] else 0, 2, 4, 8][f["fcs"]]
    out += struct.pack("<Q", f["size"] & ((1 << 64) - 1))[:n]
    for i, (t, ln, cnt) in enumerate(f["blocks"]):
        last = i == len(f["blocks"]) - 1 and f["last"]
        for j in range(cnt):
            h = ln << 3 | t << 1 | (1 if last and j == cnt - 1 else 0)
            out += struct.pack("<I", h)[:3]
            if t == 1:
                out.append(ln & 0xff)
            else:
                out += ref.rnd_bytes(ln + t, min(ln, 3000))
    if f["ck"]:
        out += b"\1\2\3\4"
    return bytes(out)


@st.composite
def frames(draw):
    out = []
    for _ in range(draw(I(1, 4))):
        k = gen.wsample(draw, [("frame", 5), ("skip", 1), ("good", 1), ("raw", 1)])
        if k == "frame":
            out.append({"fcs": draw(I(0, 3)), "single": draw(I(0, 1)), "unused": draw(I(0, 9)) == 0, "resv": draw(I(0, 9)) == 0, "ck": draw(I(0, 1)), "dict": draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
                        "win": draw(st.one_of(I(0, 80), I(0, 255))), "size": draw(st.one_of(st.sampled_from(U64), I(0, 70000))),
                        "blocks": draw(st.lists(st.tuples(st.sampled_from([0, 1, 1, 1, 2, 3]), st.one_of(I(0, 200), st.sampled_from([131071, 131072, 131073, (1 << 21) - 1])),
                                                          st.sampled_from([1, 1, 2, 3, 50, 2000])), max_size=4)), "last": draw(I(0, 3)) > 0})
            for q in ("unused", "resv"):
                out[-1][q] = int(out[-1][q])
        elif k == "skip":
            out.append({"skip": draw(st.sampled_from([0, 1, 100, 5000])), "claim": draw(st.sampled_from([None, None, 0, (1 << 32) - 1, 1 << 31, 10]))})
        elif k == "good":
            out.append({"good": draw(st.sampled_from([0, 1, 1000, 262143, 262144, 262145, 600000]))})
        else:
            out.append({"raw": draw(I(0, 400))})
    return out


def make_frames(fs):
    out = b""
    for f in fs:
        if "skip" in f:
            out += struct.pack("<II", 0x184D2A50, f["skip"] if f["claim"] is None else f["claim"]) + b"s" * f["skip"]
        elif "good" in f:
            out += ref.zcompress(b"z" * f["good"], 3, 0, 1, 0)
        elif "raw" in f:
            out += ref.rnd_bytes(5, f["raw"])
        else:
            out += frame(f, b"")
    return out


@st.composite
def http_cases(draw, tier):
    n = draw(I(1, 5))
    resp = []
    for _ in range(n):
        lst = []
        for _ in range(draw(I(1, 3))):
            lst.append({"f": draw(frames()), "st": draw(st.sampled_from([200, 200, 200, 200, 200, 404, 500, 0, 100, 999, 206])),
                        "cc": draw(st.sampled_from([0, 0, 0, 0, 28, 7, 23, 18, 56])), "dl": draw(st.one_of(st.just(-1), st.just(-1), I(0, 300))), "sg": draw(gen.segs)})
        resp.append(lst)
    return {"resp": resp, "len": draw(st.lists(st.sampled_from([1, 100, 262143, 262144]), min_size=5, max_size=5)), "key": draw(st.one_of(st.none(), gen.hexkey)), "fb": draw(I(0, 1))}


def exec_http(ctx, case):
    img, cut = [], []
    for i in range(len(case["resp"])):
        img.append(["z" if i == 1 else "r"] + ([] if i == 1 else [i]) + [case["len"][i]])
        cut.append(case["len"][i])
    c = {"params": [48, 100, 400], "img": img, "cut": cut, "tgt": {"d": []}, "stores": [{"t": "http", "have": "none"}, {"t": "http", "have": "all" if case["fb"] else "none"}]}
    if case["key"]:
        c["stores"][0]["key"] = case["key"]
    x = xcase.X(c)
    for cid, lst in zip(x.uniq, case["resp"]):
        out = []
        for r in lst:
            b = make_frames(r["f"])
            if case["key"]:
                b = ref.xchacha20(b, bytes.fromhex(case["key"]), cid[:24])
            out.append({"st": r["st"], "cc": r["cc"], "body": b if r["st"] else b"", "dl": r["dl"], "sg": r["sg"]})
        x.stores[0].resp[cid] = out
    x.setup(ctx)
    r = x.run(ctx, extra=[("maxevents", 3000000)])
    sane(r)
    return {"nontrivial": True, "labels": ["exit%s" % r.exit, "requests:%d" % min(len(r.requests()), 9)]}


# ------------------------------------------------------------- command lines

NAMES = ["index", "target", "seed", "hint", "key", "empty", "dir", "nothere", "aa" * 32 + ".cacnk", "bb" * 32 + ".cacnk.enc", "/dev/null", "src", "", ".", "-", "--", "target/x", "./target", "%s%s%s%s%s%s%s%s%s%s%s%s%n"]
FRAG = ["http://a.example", "http", "https://", "http://a.example/#", "http#", "#", "encrypt=", "key:", "env:", "file:", "env:K", "file:key", "key:" + "0f" * 32, ",", ":", "seed:hint", "seed:", ":seed", "::",
        "%s%s%s%s%s%s%s%s%s%s%s%s%n", "%s%n%d", "--store", "--seed", "--store=", "--seed=seed", "--seed-output", "--help", "-h", "-x", "--", "extract", "crypt", "\xff\xfe", "http://a.example/" + "p" * 5000, "x" * 5000, "k" * 300]

FMT = ["%s%s%s%s%s%s%s%s%s%s%s%s%n", "%n%n%n%n%n%n%n%n", "%s%s%s%s%s%s%s%s%s%s%s%s", "dir/%s%s%s%s%s%s%s%s%s%s%s%s%n", "%s%s%s%s%s%s%s%s%s%s%s%s".ljust(64, "a") + ".cacnk", "aa" * 32 + ".%s%s%s%s%s%s%s%s%s"[:70]]


@st.composite
def arg(draw):
    k = draw(I(0, 10))
    if k == 10:
        return draw(st.sampled_from(FMT))
    if k < 4:
        return draw(st.sampled_from(NAMES))
    if k < 7:
        return draw(st.sampled_from(FRAG))
    if k < 9:
        return "".join(draw(st.lists(st.one_of(st.sampled_from(FRAG), st.sampled_from(NAMES)), min_size=2, max_size=4)))
    return draw(st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=60))


@st.composite
def arg_cases(draw, tier):
    prog = draw(st.sampled_from(["csn", "csn", "casync", "casync", "csn-tool", "csn-tool", "patchdd"]))
    a = [draw(arg()) for _ in range(draw(I(0, 7)))]
    if draw(I(0, 2)):
        if prog == "csn":
            a = ["index", "target"] + a
        elif prog == "casync":
            a = a[:draw(I(0, len(a)))] + ["extract"] + a + ["index", "target"]
        elif prog == "csn-tool":
            a = ["crypt", draw(st.sampled_from(["key:" + "0f" * 32, "key:" + "0f" * 32, "file:key", "env:K", "key:0"]))] + a[:draw(I(0, 3))]
        else:
            a = [draw(st.sampled_from(["src", "seed"])), draw(st.sampled_from(["target", "src", "empty"]))] + a[:1]
    name = prog
    if prog in ("csn", "casync") and draw(I(0, 9)) == 0:
        name = draw(st.sampled_from(["", "/", "/usr/bin/csn", "./casync", "x/", "csn/", "//", "a" * 300 + "/csn", "csnx"]))
    env = {}
    if draw(I(0, 2)) == 0:
        env["LOGLEVEL"] = draw(st.sampled_from(["debug", "", "x", "D" * 400, "%s", "-1", "9"]))
    if draw(I(0, 3)) == 0:
        env["K"] = draw(st.sampled_from(["", "0f" * 32, "0f" * 33, "x" * 64, "0f" * 4000]))
    if draw(I(0, 8)) == 0:
        env["CSN_KCAPI_DRIVER"] = draw(st.sampled_from(["", "sha256", "y" * 64, "z" * 200]))
    return {"p": prog, "n": name, "a": a, "env": env, "key": draw(st.sampled_from(["0f" * 32, "0f" * 32 + "\n", "", "\n", "0f" * 5000, "\0" * 64, "q" * 64])),
            "in": draw(st.one_of(st.just(""), st.text(st.characters(min_codepoint=0, max_codepoint=255), max_size=80),
                                 st.lists(st.sampled_from(NAMES + FMT + ["x" * 4094, "x" * 4095, "x" * 4096, "x" * 9000, "\0", "aa" * 32 + ".cacnk\r"]), max_size=4).map("\n".join)))}


def exec_args(ctx, case):
    img = ref.rnd_bytes(1, 900)
    params = [48, 100, 400]
    idx = ref.caibx([(o + l, c) for o, l, c in ref.chunk(img, params)], params)
    ctx.write("index", idx)
    ctx.write("target", b"t" * 1000)
    ctx.write("seed", img)
    ctx.write("%s%s%s%s%s%s%s%s%s%s%s%s%n", img)
    ctx.write("hint", idx)
    ctx.write("src", img[:500])
    ctx.write("empty", b"")
    ctx.write("key", case["key"].encode("latin1"))
    ctx.write("aa" * 32 + ".cacnk", img[:100])
    ctx.write("bb" * 32 + ".cacnk.enc", img[:64])
    os.mkdir(ctx.path("dir"))
    argv = [case["n"].encode("latin1")] + [a.encode("latin1") for a in case["a"]]
    prog = "csn" if case["p"] == "casync" else case["p"]
    plan = [("http",), ("kcapi",), ("maxevents", 3000000), ("role", "index", "index"), ("role", "target", "target")]
    r = ctx.run(prog, argv, plan=plan, env=case["env"], stdin=case["in"].encode("latin1"))
    sane(r)
    return {"nontrivial": bool(r.err or r.out) or r.exit == 0, "labels": [case["p"], "exit%s" % r.exit]}


# ---------------------------------------------------------------------- files

@st.composite
def file_cases(draw, tier):
    return {"t": draw(I(0, 1)), "d": draw(gen.pieces(500, 3)), "d2": draw(gen.pieces(500, 3)), "big": draw(st.sampled_from([0, 0, 0, 1 << 20, (1 << 20) + 1])),
            "key": draw(st.binary(max_size=200)).hex(), "n": draw(I(0, 3)), "std": draw(I(0, 1)), "blk": draw(I(0, 3)) == 0}


def exec_files(ctx, case):
    d = ref.expr(case["d"])
    if case["t"]:
        ctx.write("key", bytes.fromhex(case["key"]) if case["n"] == 0 else b"0f" * 32)
        name = "ab" * 32 + (".cacnk" if case["std"] else ".cacnk.enc")
        ctx.write(name, d)
        a = ["csn-tool", "crypt", "file:key"] + ([name] if case["n"] > 1 else [])
        r = ctx.run("csn-tool", a, stdin=(name + "\n").encode() * 2 if case["n"] < 2 else b"", plan=[("maxevents", 3000000)])
        lb = "csn-tool"
    else:
        pad = b"p" * case["big"]
        ctx.write("src", pad + d)
        ctx.write("dst", pad + ref.expr(case["d2"]))
        r = ctx.run("patchdd", ["patchdd", "src", "dst"], plan=[("role", "src", "src"), ("role", "dst", "dst"), ("maxevents", 3000000)] + ([("blk", "src"), ("blk", "dst")] if case["blk"] else []))
        lb = "patchdd"
    sane(r)
    return {"nontrivial": True, "labels": [lb, "exit%s" % r.exit]}


# ------------------------------------------------------------ coverage-guided

KINDS = ["caibx", "chunker", "http", "keyspec", "local", "index"]


def corpus(d):
    """Valid inputs to start from."""
    os.makedirs(d, exist_ok=True)
    p = [48, 100, 400]
    img = ref.rnd_bytes(3, 700) + b"\0" * 900
    ents = [(o + l, c) for o, l, c in ref.chunk(img, p)]
    idx = ref.caibx(ents, p)
    seeds = [b"\0" + idx, b"\0" + ref.caibx([], p), b"\0" + ref.caibx(ents[:1], [16384, 65536, 262144])]
    for q in (p, [48, 64, 96], [0, 1, 2], [16384, 65536, 262144], [40, 50, 60]):
        seeds.append(b"\1" + struct.pack("<III", *q) + b"\x07\x40\x01" + img)
    z = ref.zcompress(img[:300], 3, 0, 1, 0)
    for enc in (0, 1):
        for frag in (0, 1, 3, 50):
            seeds.append(b"\2" + bytes([enc, frag]) + bytes([0, 0]) + struct.pack("<H", len(z)) + z + bytes([0, 1]) + struct.pack("<H", 9) + z[:9] + bytes([1, 0, 0, 0]))
    seeds += [b"\3key:" + b"0f" * 32, b"\3env:K", b"\3file:x", b"\3key:" + b"0F" * 31]
    for k in (0, 1):
        seeds.append(b"\4" + bytes([k]) + struct.pack("<IIIH", *p, len(idx)) + idx + img)
    seeds.append(b"\5" + bytes(range(200)))
    for i, s in enumerate(seeds):
        with open(os.path.join(d, "s%02d" % i), "wb") as f:
            f.write(s)


def fuzz_cases(tier):
    if tier == "quick":
        return [{"seed": i, "runs": 20000, "max": 120} for i in range(8)]
    return [{"seed": i, "runs": 4000000, "max": 1200} for i in range(8)]


FENV = {"ASAN_OPTIONS": "detect_leaks=0:quarantine_size_mb=8:max_malloc_fill_size=65536:malloc_fill_byte=190:allocator_may_return_null=1:symbolize=0:handle_sigfpe=1:exitcode=77",
        "UBSAN_OPTIONS": "symbolize=0:print_stacktrace=0:halt_on_error=1:exitcode=77", "PATH": "/usr/bin:/bin", "LOGLEVEL": "err"}


def exec_fuzz(ctx, case):
    from ..world import unlimit
    exe = os.path.join(ctx.build, "fuzz")
    d = ctx.path("fz")
    os.makedirs(d)

    def run(args, limit):
        try:
            return subprocess.run([exe] + args, cwd=d, env=FENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, preexec_fn=unlimit)
        except subprocess.TimeoutExpired:
            raise HarnessError("the fuzzer did not end")

    if "input" in case:
        with open(d + "/in", "wb") as f:
            f.write(bytes.fromhex(case["input"]))
        p = run(["in", "-timeout=20", "-rss_limit_mb=3000"], 120)
        if p.returncode:
            raise Violation("%s: crash in the fuzz target\n%s" % (KINDS[bytes.fromhex(case["input"])[0] % len(KINDS)], p.stdout[-2500:].decode("latin1")))
        return {"nontrivial": True, "labels": ["saved input"]}
    corpus(d + "/c")
    p = run(["c", "-runs=%d" % case["runs"], "-seed=%d" % (case["seed"] + 1 + 100 * int(os.environ.get("VERIF_SEED", "1") or 1)), "-max_len=3000", "-timeout=20", "-rss_limit_mb=3000",
             "-max_total_time=%d" % case["max"], "-artifact_prefix=art_", "-print_final_stats=1", "-use_value_profile=1", "-close_fd_mask=2"], case["max"] + 200)
    arts = [f for f in os.listdir(d) if f.startswith("art_")]
    if p.returncode and not arts:
        raise HarnessError("fuzzer failed: %s" % p.stdout[-1500:])
    if arts:
        b = open(os.path.join(d, arts[0]), "rb").read()
        v = Violation("coverage-guided search: %s\n%s" % (arts[0], p.stdout[-2500:].decode("latin1")))
        v.case = {"input": b.hex()}
        raise v
    n = [l for l in p.stdout.decode("latin1").splitlines() if "stat::number_of_executed_units" in l]
    cov = [l for l in p.stdout.decode("latin1").splitlines() if " cov: " in l]
    return {"nontrivial": True, "labels": ["executed units: %s" % n[0].split()[-1] if n else "?", "coverage: %s" % cov[-1].split(" cov: ")[1].split()[0] if cov else "?"]}


PARTS = [
    Part("damage", damage_cases, exec_damage, quick=7000, thorough=200000),
    Part("params", param_cases, exec_params, quick=2500, thorough=60000),
    Part("http", http_cases, exec_http, quick=1600, thorough=80000),
    Part("args", arg_cases, exec_args, quick=6000, thorough=120000),
    Part("files", file_cases, exec_files, quick=1200, thorough=20000),
    Part("fuzz", execute=exec_fuzz, cases=fuzz_cases, needs="fuzz"),
]
