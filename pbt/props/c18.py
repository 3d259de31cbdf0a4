"""C18: short and interrupted I/O is invisible, I/O errors are reported."""
import os

from hypothesis import strategies as st

from ..core import Part
from .. import gen, ref, xcase
from ..world import expect, sane

LEVEL = "fault_enumeration"
RULE = ("faults are injected at the system call boundary by generated plans. 'noise': any read, pread, write or pwrite of the index, a side-loaded "
        "index, a seed, the target (and input, output, standard output of csn-tool and both files of patchdd) transfers only part or fails with EINTR, at random "
        "rates up to 95 %; oracle: the undisturbed run of the same case, and for csn the model. 'errors': one to four errno / end of file "
        "faults at generated calls of open, fstat, ioctl, lseek, read, pread, pwrite on any of the files; oracle: exit status by kind of file (index and target "
        "writes: non-zero; side-loaded index: as if there was none), and exact content whenever the status is 0. 'every-call' enumerates the first calls of every "
        "kind of every file of fixed scenarios. Non-trivial: at least one fault really happened.")
I = gen.I
ERR = st.sampled_from([5, 5, 28, 9, 12, 6, 110, 27, 122, 1])


@st.composite
def noise(draw):
    return [draw(I(0, 1 << 40)), draw(st.sampled_from([0, 50, 300, 700])), draw(st.sampled_from([0, 100, 500, 950])),
            draw(st.sampled_from([1, 2, 17, 64, 4096, 65536]))]


@st.composite
def noise_cases(draw, tier):
    c = draw(gen.extraction(hints="any", alias=False))
    c["noise"] = draw(noise())
    # bursts at a definite place
    c["burst"] = []
    for _ in range(draw(I(0, 3))):
        op, role = draw(st.sampled_from([("read", "index"), ("pread", "target"), ("pwrite", "target"), ("read", "seed0"), ("pread", "seed0"), ("read", "seed0h")]))
        n = draw(I(1, 30))
        if draw(I(0, 1)):
            for j in range(draw(st.sampled_from([1, 2, 5, 40]))):
                c["burst"].append([op, role, n + j, "errno", 4])
        else:
            c["burst"].append([op, role, n, "short", draw(st.one_of(I(1, 8), I(1, 300)))])
    return c


def roles_of(x):
    out = {"index", "target"}
    for s in x.stores:
        if s.kind == "local" and not s.alias:
            out.add(s.role)
            if s.spec.get("hint"):
                out.add(s.role + "h")
    return out


def fired(r):
    return [e for e in r.events() if e[0] == "F"]


def exec_noise(ctx, case):
    x = xcase.X(case)
    x.setup(ctx)
    r0 = x.run(ctx)
    sane(r0)
    final0 = ctx.read("target") if not x.tgt_missing else None
    req0 = r0.requests()
    ctx.reset()
    x.setup(ctx)
    rs = roles_of(x)
    extra = [("rand",) + tuple(case["noise"])] + [("fault",) + tuple(f) for f in case["burst"] if f[1] in rs]
    r = x.run(ctx, extra=extra)
    sane(r)
    final = ctx.read("target") if not x.tgt_missing else None
    expect(r.exit == r0.exit, lambda: "exit status %s with short and interrupted transfers, %s without" % (r.exit, r0.exit), r)
    expect(final == final0, "the target differs from that of the undisturbed run", r)
    expect(r.requests() == req0, "other requests than in the undisturbed run", r)
    if r.exit == 0:
        xcase.check_integrity(x, r, final)
    o = xcase.simulate(x)
    if not o.ambiguous and final is not None:
        xcase.check_exact(x, r, o, final)
    n = short = 0
    for e in r.events():
        if e[0] in "rR" and e[-1] == "-4" or e[0] in "wW" and e[-1] == "-4":
            n += 1
        elif e[0] in "rRwW" and 0 < int(e[-1]) < int(e[-2]):
            short += 1
    lb = ["exit%d" % r.exit]
    if n:
        lb.append("interrupted")
    if short:
        lb.append("short")
    if fired(r):
        lb.append("burst")
    return {"nontrivial": bool(n or short), "labels": lb}


OPS = {"index": ["open", "read", "read", "read", "lseek", "fstat"],
       "target": ["open", "pread", "pwrite", "pwrite", "pwrite"],
       "seed": ["open", "read", "pread", "pread", "fstat", "ioctl", "lseek"],
       "hint": ["open", "read", "read", "lseek", "fstat"]}


@st.composite
def error_cases(draw, tier):
    c = draw(gen.extraction(hints="any"))
    locs = [s for s in c["stores"] if s["t"] == "local"]
    if not locs and draw(I(0, 2)):
        locs = [draw(gen.local_store(gen.scale_of(c["params"]), "any"))]
        c["stores"].insert(0, locs[0])
    fs = []
    ks = ["index", "target", "target"] + ["seed"] * (4 * bool(locs)) + ["hint"] * (3 * any(s.get("hint") for s in locs))
    for _ in range(draw(gen.I(1, 3))):
        k = draw(st.sampled_from(ks))
        op = draw(st.sampled_from(OPS[k]))
        if k in ("index", "target"):
            role = k
            if op == "open" and draw(I(0, 3)):
                continue
        elif k == "seed":
            role = "seed%d" % draw(I(0, len(locs) - 1))
        else:
            role = "seed%dh" % draw(st.sampled_from([i for i, s in enumerate(locs) if s.get("hint")]))
        kind = "errno"
        if op in ("read", "pread") and draw(I(0, 1)):
            kind = "eof"
        n = draw(st.one_of(I(1, 3), I(1, 12), I(1, 40)))
        if draw(I(0, 12)) == 0:
            n = 0     # always
        fs.append([op, role, n, kind, draw(ERR) if kind == "errno" else 0])
    c["ef"] = fs
    if draw(I(0, 3)) == 0:
        c["noise"] = draw(noise())
    return c


def exec_errors(ctx, case):
    x = xcase.X(case)
    x.setup(ctx)
    rs = roles_of(x)
    extra = [("fault",) + tuple(f) for f in case["ef"] if f[1] in rs]
    if case.get("noise"):
        extra.append(("rand",) + tuple(case["noise"]))
    r = x.run(ctx, extra=extra)
    sane(r)
    final = ctx.read("target") if not x.tgt_missing else b""
    fd = fired(r)
    lb = ["exit%d" % r.exit]
    xcase.check_integrity(x, r, final, torn=any(e[1:3] == ("pwrite", "target") for e in fd))
    if not x.tgt_missing:
        xcase.check_frame(x, ctx, x.tgt0, final, r)
    hints = set()
    other = False
    for e in fd:
        op, role = e[1], e[2]
        lb.append("%s-%s" % (role.rstrip("01") if role.startswith("seed") else role, op))
        if role == "index" or role == "target" and op in ("open", "pwrite"):
            expect(r.exit == 1, lambda: "exit 0 although %s of the %s failed" % (op, role), r)
            other = True
        elif role.startswith("seed") and role.endswith("h"):
            hints.add(role[:-1])
        else:
            other = True
        if role == "target" and op == "pwrite":
            # nothing may be counted as done that was not
            break
    if not other and not x.tgt_missing:
        for s in x.stores:
            if s.kind == "local" and s.role in hints:
                s.hint = None
        o = xcase.simulate(x)
        if not o.ambiguous:
            xcase.check_exact(x, r, o, final)
            lb.append("exact")
    return {"nontrivial": bool(fd), "labels": sorted(set(lb))}


def every_call(tier):
    img = [["r", 1, 300], ["z", 200], ["r", 51, 250], ["r", 1, 300], ["r", 60, 400]]
    base = {"params": [48, 64, 96], "img": img, "cut": "cdc"}
    scen = [
        dict(base, tgt={"d": [["pre", 3], ["r", 3, 700]]}, stores=[{"t": "target"}, {"t": "local", "d": [["r", 5, 90], ["i", 0, 1 << 20]]}]),
        dict(base, tgt={"d": [["pre", 2]], "blk": 1}, stores=[{"t": "local", "d": [["i", 0, 800]], "hint": {"k": "cdc"}, "blk": 1}, {"t": "local", "d": [["i", 500, 2000]]}]),
        dict(base, tgt={"d": []}, stores=[{"t": "local", "d": [["i", 0, 800]], "hint": {"k": "cdc", "mod": [["flip", 1, 1, 1]]}}, {"t": "http"}]),
        dict(base, tgt={"d": []}, stores=[{"t": "local", "d": [["k", 0], ["kx", 1, 3, 1], ["k", 2], ["k", 3]], "hint": {"k": "image"}}, {"t": "http"}]),
        dict(base, tgt={"d": [["i", 0, 1 << 20]]}, stores=[{"t": "http"}]),
    ]
    out = []
    for c in scen:
        nl = len([s for s in c["stores"] if s["t"] == "local"])
        roles = ["index", "target"] + ["seed%d" % i for i in range(nl)] + ["seed%dh" % i for i, s in enumerate([s for s in c["stores"] if s["t"] == "local"]) if s.get("hint")]
        for role in roles:
            for op in ("open", "read", "pread", "pwrite", "lseek", "fstat", "ioctl"):
                cap = {"open": 2, "lseek": 6, "fstat": 4, "ioctl": 3}.get(op, 24 if tier == "quick" else 60)
                if op == "pwrite" and role != "target":
                    continue
                if op == "read" and role == "target" or op == "pread" and role in ("index",) or op == "pread" and role.endswith("h"):
                    continue
                for n in range(1, cap + 1):
                    kinds = [("errno", 5)]
                    if op in ("read", "pread", "pwrite"):
                        kinds.append(("errno", 4))
                        kinds.append(("short", 1))
                    if op in ("read", "pread"):
                        kinds.append(("eof", 0))
                    for k, a in kinds:
                        out.append(dict(c, f=[op, role, n, k, a]))
    return out


def exec_every(ctx, case):
    f = case["f"]
    if f[3] == "short" or f[4] == 4:
        return exec_noise(ctx, dict(case, noise=[0, 0, 0, 1], burst=[f])) | {"nontrivial": True}
    return exec_errors(ctx, dict(case, ef=[f]))


# ---- csn-tool and patchdd

@st.composite
def tool_cases(draw, tier):
    c = {"n": draw(st.one_of(I(0, 200), I(0, 20000), st.sampled_from([0, 1, 64, 65536]))), "seed": draw(I(0, 1000)),
         "sfx": draw(st.sampled_from([".cacnk", ".cacnk.enc"])), "to": draw(st.sampled_from(["-", "auto", "out"])),
         "key": draw(st.sampled_from(["key", "file"]))}
    if draw(I(0, 2)):
        c["noise"] = draw(noise())
    if draw(I(0, 1)):
        op, role = draw(st.sampled_from([("read", "in"), ("fstat", "in"), ("open", "in"), ("write", "out"), ("open", "out"), ("read", "key"), ("fstat", "key"), ("open", "key")]))
        c["err"] = [op, role, draw(st.one_of(st.just(1), I(1, 6))), draw(st.sampled_from(["errno", "eof"])) if op == "read" else "errno", draw(ERR)]
        if op in ("read", "write") and draw(I(0, 1)):
            # some of it first
            c["err"][2] = k = draw(I(2, 4))
            c["short"] = [[op, role, j, "short", draw(st.one_of(I(1, 8), I(1, 300)))] for j in range(1, k)]
    return c


HK = "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f"


def exec_tool(ctx, case):
    cid = ref.sha(b"%d" % case["seed"])
    name = cid.hex() + case["sfx"]
    data = ref.rnd_bytes(case["seed"], case["n"])
    ctx.write(name, data)
    ctx.write("key", HK.encode() + b"\n")
    to = case["to"]
    auto = name[:-4] if name.endswith(".enc") else name + ".enc"
    outp = auto if to == "auto" else "out" if to == "out" else ctx.aux("out")
    if to == "-" and not os.path.exists(outp):
        open(outp, "w").close()
    argv = ["csn-tool", "crypt", "file:key" if case["key"] == "file" else "key:" + HK, name] + ([] if to == "auto" else [to])
    plan = [("role", "in", name), ("role", "key", "key"), ("role", "out", outp)]
    if case.get("noise"):
        plan.append(("rand",) + tuple(case["noise"]))
    if case.get("err"):
        plan += [("fault",) + tuple(f) for f in case.get("short", ())]
        plan.append(("fault",) + tuple(case["err"]))
    r = ctx.run("csn-tool", argv, plan=plan)
    sane(r)
    want = ref.xchacha20(data, bytes.fromhex(HK), cid[:24])
    fd = [e for e in fired(r) if e[3] != "1"]
    if to == "-":
        got = r.out
    else:
        got = ctx.read(outp) if ctx.exists(outp) else None
    expect(ctx.read(name) == data, "the input was modified", r)
    expect(got in (None, want) or to == "-", "the output file has a wrong content", r)
    if fd:
        expect(r.exit == 1, lambda: "exit 0 although %s of %s failed" % (fd[0][1], fd[0][2]), r)
    else:
        expect(r.exit == 0 and got == want, "exit status or output change with short and interrupted transfers", r)
    lb = ["exit%d" % r.exit, "to-" + to] + ["%s-%s" % (e[2], e[1]) for e in fd[:1]]
    return {"nontrivial": bool(fd) or bool(case.get("noise")) and case["n"] > 1, "labels": lb}


@st.composite
def pdd_cases(draw, tier):
    n = draw(st.one_of(I(0, 5000), I(0, 200000), st.sampled_from([1 << 20, (1 << 20) + 1, (1 << 21) - 1])))
    return {"n": n, "seed": draw(I(0, 100)), "extra": draw(st.one_of(st.just(0), I(0, 5000))),
            "diff": draw(st.lists(I(0, max(0, n - 1)), max_size=4)), "noise": draw(noise()), "tty": draw(I(0, 3)) == 0}


def exec_pdd(ctx, case):
    src = ref.rnd_bytes(case["seed"], case["n"])
    b = bytearray(src)
    for d in case["diff"]:
        if b:
            b[d % len(b)] ^= 0x55
    tail = ref.rnd_bytes(77, case["extra"])
    ctx.write("src", src)
    ctx.write("dst", bytes(b) + tail)
    nz = list(case["noise"])
    if case["n"] > 50000:
        nz[3] = max(nz[3], 4096)
    plan = [("role", "src", "src"), ("role", "dst", "dst"), ("rand",) + tuple(nz)] + ([("tty",)] if case["tty"] else [])
    r = ctx.run("patchdd", ["patchdd", "src", "dst"], plan=plan)
    sane(r)
    expect(r.exit == 0, "patchdd fails because of short or interrupted transfers", r)
    expect(ctx.read("dst") == src + tail, "patchdd produces a wrong destination with short or interrupted transfers", r)
    expect(ctx.read("src") == src, "patchdd changes the source", r)
    return {"nontrivial": case["n"] > 1 and bool(case["diff"]), "labels": ["steps:%d" % (case["n"] >> 20)]}


PARTS = [
    Part("every-call", execute=exec_every, cases=every_call),
    Part("noise", noise_cases, exec_noise, quick=3000, thorough=60000),
    Part("errors", error_cases, exec_errors, quick=4000, thorough=80000),
    Part("csn-tool", tool_cases, exec_tool, quick=2000, thorough=40000),
    Part("patchdd", pdd_cases, exec_pdd, quick=800, thorough=20000),
]
