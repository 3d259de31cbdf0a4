"""C17: using the kernel crypto API never changes a result."""
import hashlib

from hypothesis import strategies as st

from ..core import Part
from .. import api, gen, ref, xcase
from ..world import expect, sane

LEVEL = "fault_enumeration"
RULE = ("hashing is delegated to a simulated AF_ALG socket (the sandbox's kernel has none) that behaves like the kernel's: bounded "
        "transfers, hash of the empty message without a send, a new hash after each result. API part: up to 30 hashes of lengths 0 to "
        "300 KiB in a row with partial transfers, signals and an error or short result at generated (single: at every) calls of socket, bind, accept, send and recv; "
        "oracle: hashlib. Extraction part: generated extractions with the same disturbances against the model of the undisturbed one. "
        "Non-trivial: at least one disturbance happened before the last hash, or setting up failed.")
I = gen.I
ERR = st.sampled_from([5, 12, 11, 32, 105, 22, 1, 110])


@st.composite
def faults(draw):
    out = []
    if draw(I(0, 11)) == 0:
        # from now on, nothing works any more
        op = draw(st.sampled_from(["send", "recv"]))
        return [[op, "alg", 0, "errno", draw(ERR)]] if draw(I(0, 1)) else [[op, "alg", 0, "short", draw(I(1, 31))] if op == "recv" else [op, "alg", 0, "errno", draw(ERR)]]
    for _ in range(draw(I(0, 3))):
        k = draw(st.sampled_from(["send-err", "recv-err", "recv-short", "recv-eof", "send-short", "send-intr", "recv-intr"]))
        n = draw(st.one_of(I(1, 6), I(1, 40)))
        if k == "send-err":
            out.append(["send", "alg", n, "errno", draw(ERR)])
        elif k == "recv-err":
            out.append(["recv", "alg", n, "errno", draw(ERR)])
        elif k == "recv-short":
            out.append(["recv", "alg", n, "short", draw(I(1, 31))])
        elif k == "recv-eof":
            out.append(["recv", "alg", n, "eof", 0])
        elif k == "send-short":
            out.append(["send", "alg", n, "short", draw(st.one_of(I(1, 70), I(1, 5000)))])
        else:
            op = k.split("-")[0]
            for j in range(draw(I(1, 3))):
                out.append([op, "alg", n + j, "errno", 4])
    return out


@st.composite
def api_cases(draw, tier):
    n = draw(I(1, 12))
    lens = [draw(st.one_of(st.just(0), I(0, 130), I(0, 5000), st.one_of(I(60000, 200000), st.sampled_from([65535, 65536, 65537, 131071, 131072, 131073, 131080, 131087, 131088, 196609])) if draw(I(0, 5)) == 0 else I(0, 64))) for _ in range(n)]
    c = {"lens": lens, "faults": draw(faults())}
    if draw(I(0, 2)) == 0:
        c["rand"] = [draw(I(0, 1 << 30)), draw(st.sampled_from([0, 300])), draw(st.sampled_from([0, 500, 900])), draw(st.sampled_from([1, 63, 64, 5000]))]
    k = draw(I(0, 11))
    if k == 0:
        c["setup"] = draw(st.sampled_from([["socket", 97], ["socket", 24], ["bind", 2], ["accept", 12], ["bind", 22]]))
    elif k == 1:
        c["driver"] = draw(st.sampled_from(["md5", "", "nonsense", "x" * 63, "x" * 64, "sha256" + "0" * 58, "x" * 300, "sha256-generic"]))
    return c


def exec_api(ctx, case):
    size = 200000 + 32
    ctx.write("data", ref.rnd_bytes(9, size))
    d = ref.rnd_bytes(9, size)
    drv = case.get("driver", "sha256")
    lines = ["buf data", "kcapi " + drv]
    want = []
    bad = "setup" in case or drv not in ("sha256", "sha256-generic")
    want.append("kcapi -1" if bad else "kcapi 0")
    for i, n in enumerate(case["lens"]):
        off = (i * 3) % 32
        lines.append("sha %d %d" % (off, n))
        want.append("sha 0 " + hashlib.sha256(d[off:off + n]).hexdigest())
    plan = [("kcapi",), ("maxevents", 400000)] + [("fault",) + tuple(f) for f in case["faults"]]
    if "setup" in case:
        plan.append(("fault", case["setup"][0], "alg", 1, "errno", case["setup"][1]))
    if case.get("rand"):
        plan.append(("rand",) + tuple(case["rand"]))
    r, out = api.run(ctx, lines, plan)
    if out != want:
        k = next((i for i, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
        expect(False, "%s gives %r, expected %r" % (lines[k + 1], out[k:k + 1], want[k:k + 1]), r)
    ev = [e for e in r.events() if e[0] == "K"]
    neg = [i for i, e in enumerate(ev) if len(e) == 3 and e[2].startswith("-")]
    lb = ["setup-fails"] if bad else []
    if neg and not bad:
        lb.append("errors")
    if any(f[3] == "short" or f[3] == "eof" for f in case["faults"]) or case.get("rand"):
        lb.append("short")
    if 0 in case["lens"]:
        lb.append("empty")
    return {"nontrivial": bool(lb), "labels": lb}


def exec_single(ctx, case):
    return exec_api(ctx, case)


def single_cases(tier):
    """An error at every single call of a fixed history, followed by three more hashes."""
    out = []
    lens = [0, 10, 200000 - 60001, 0, 64, 70000, 5]
    lens = [min(n, 139999) for n in lens]
    for op, kinds in (("send", [("errno", 5), ("errno", 4), ("short", 1), ("short", 100)]),
                      ("recv", [("errno", 5), ("errno", 4), ("short", 31), ("short", 1), ("eof", 0)])):
        for n in range(1, 16):
            for k, a in kinds:
                out.append({"lens": lens, "faults": [[op, "alg", n, k, a]]})
    for op in ("socket", "bind", "accept"):
        for e in (1, 2, 12, 24, 97):
            out.append({"lens": [1, 2], "faults": [], "setup": [op, e]})
    return out


@st.composite
def csn_cases(draw, tier):
    c = draw(gen.extraction(locals_=2, https=2, hints="any", errors=False, lies=True))
    c["kf"] = draw(faults())
    k = draw(I(0, 9))
    if k == 0:
        c["ksetup"] = draw(st.sampled_from([["socket", 97], ["bind", 2], ["accept", 12]]))
    elif k == 1:
        c["driver"] = draw(st.sampled_from(["md5", "", "x" * 64]))
    if draw(I(0, 2)) == 0:
        c["rand"] = [draw(I(0, 1 << 30)), draw(st.sampled_from([0, 300])), draw(st.sampled_from([0, 500])), draw(st.sampled_from([63, 64, 5000]))]
    return c


def exec_csn(ctx, case):
    x = xcase.X(case)
    x.setup(ctx)
    drv = case.get("driver", "sha256")
    extra = [("kcapi",)] + [("fault",) + tuple(f) for f in case["kf"]]
    bad = "ksetup" in case or drv != "sha256"
    if "ksetup" in case:
        extra.append(("fault", case["ksetup"][0], "alg", 1, "errno", case["ksetup"][1]))
    r = x.run(ctx, extra=extra, env={"CSN_KCAPI_DRIVER": drv})
    sane(r)
    final = ctx.read("target")
    if bad:
        expect(r.exit == 1, "exit 0 although the driver cannot be set up", r)
        expect(final == x.tgt0 and not r.requests(), "the run went on although the driver cannot be set up", r)
        return {"nontrivial": True, "labels": ["setup-fails"]}
    o = xcase.simulate(x)
    if o.ambiguous:
        xcase.check_integrity(x, r, final)
    else:
        xcase.check_exact(x, r, o, final)
    ks = [e for e in r.events() if e[0] == "K" and e[1] != "socket"]
    neg = any(e[2].startswith("-") for e in ks)
    lb = ["exit%d" % r.exit]
    if ks:
        lb.append("kernel")
    if neg:
        lb.append("errors")
    if any(f[3] in ("short", "eof") for f in case["kf"]) or case.get("rand"):
        lb.append("short")
    return {"nontrivial": bool(ks) and ("errors" in lb or "short" in lb), "labels": lb}


PARTS = [
    Part("every-call", execute=exec_single, cases=single_cases, needs="apix"),
    Part("api", api_cases, exec_api, quick=5000, thorough=100000, needs="apix"),
    Part("csn", csn_cases, exec_csn, quick=3000, thorough=60000),
]
