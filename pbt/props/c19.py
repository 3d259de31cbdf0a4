"""C19: patchdd makes the destination start with the source and touches nothing else."""
import os

from hypothesis import strategies as st

from ..core import Part
from .. import gen, ref
from ..world import expect, sane

LEVEL = "fault_enumeration"
RULE = ("pairs of source and destination of 0 bytes to 4 MiB (part 'many-steps': 20 MiB; sizes and differences concentrated around multiples of the 1 MiB step and at both ends), "
        "destination equal, larger or smaller, regular or block device, with and without progress display, with standard descriptors closed; generated faults (errno, end of file, short transfers, signals, "
        "interruption) at any open, fstat, pread, pwrite and fsync. Oracle: byte comparison of both files before and after and the log of the writes; "
        "'every-call' enumerates the faults of fixed pairs. Non-trivial: source and destination differ, or a fault happened, or the destination is refused.")
I = gen.I
M = 1 << 20


@st.composite
def pos(draw, n):
    if n <= 0:
        return 0
    k = gen.wsample(draw, [("edge", 5), ("any", 3), ("start", 1), ("end", 2)])
    if k == "edge":
        p = draw(I(0, n // M + 1)) * M + draw(st.sampled_from([-2, -1, 0, 1, 2]))
    elif k == "any":
        p = draw(I(0, n - 1))
    elif k == "start":
        p = draw(I(0, 3))
    else:
        p = n - 1 - draw(I(0, 3))
    return min(max(p, 0), n - 1)


@st.composite
def pair(draw, small=False):
    if small or draw(I(0, 2)) == 0:
        n = draw(st.one_of(I(0, 300), I(0, 70000)))
    else:
        n = draw(I(0, 3)) * M + draw(st.one_of(st.sampled_from([-1, 0, 1, 2, -4096, 4096]), I(-1000, 1000), I(0, M)))
        n = max(0, n)
    c = {"n": n, "seed": draw(I(0, 50)), "zero": draw(I(0, 3)) == 0}
    k = gen.wsample(draw, [("same", 8), ("larger", 8), ("smaller", 2)])
    c["extra"] = 0 if k == "same" else draw(st.sampled_from([1, 2, 511, 4096, M, M + 1])) if k == "larger" else -draw(st.sampled_from([1, 1, 2, 100, M]))
    c["diff"] = []
    for _ in range(draw(I(0, 4))):
        c["diff"].append([draw(pos(n)), draw(st.one_of(st.just(1), I(1, 100), st.sampled_from([M, 2 * M])))])
    for r in ("src", "dst"):
        if draw(I(0, 4)) == 0:
            c["blk" + r] = 1
    if draw(I(0, 3)) == 0:
        c["tty"] = 1
    if draw(I(0, 5)) == 0:
        c["cl"] = draw(gen.closed_fds)
        c["log"] = draw(st.sampled_from([None, "debug"]))
    return c


@st.composite
def cases(draw, tier):
    return draw(pair())


@st.composite
def many_steps(draw, tier):
    n = draw(I(5, 20)) * M + draw(st.sampled_from([-1, 0, 1, 100000]))
    c = {"n": n, "seed": draw(I(0, 50)), "zero": draw(I(0, 1)) == 1, "extra": draw(st.sampled_from([0, 1, M])), "diff": []}
    for _ in range(draw(I(1, 6))):
        c["diff"].append([draw(pos(n)), draw(st.one_of(st.just(1), I(1, 100), st.sampled_from([M, 3 * M])))])
    return c


@st.composite
def fault_cases(draw, tier):
    c = draw(pair(small=draw(I(0, 2)) == 0))
    fs = []
    for _ in range(draw(I(1, 3))):
        op, role = draw(st.sampled_from([("pread", "src"), ("pread", "dst"), ("pwrite", "dst"), ("pwrite", "dst"), ("fsync", "dst"), ("open", "src"), ("open", "dst"), ("fstat", "src"),
                                         ("fstat", "dst"), ("ioctl", "src"), ("ioctl", "dst"), ("read", "src"), ("read", "dst"), ("write", "dst")]))
        if op in ("open", "fstat", "ioctl") and draw(I(0, 2)):
            op, role = "pwrite", "dst"
        n = draw(I(1, 6)) if op in ("pread", "pwrite", "read", "write") else 1
        if op in ("pread", "pwrite", "read", "write"):
            k, a = draw(st.sampled_from([("errno", 5), ("errno", 28), ("errno", 4), ("short", 1), ("short", 500000), ("short", 1000), ("eof", 0), ("crash", 0), ("crash", 700)]))
            if k == "eof" and op in ("pwrite", "write"):
                k, a = "errno", 27
            if k == "crash" and op != "pwrite":
                k, a = "errno", 110
        else:
            k, a = "errno", draw(st.sampled_from([5, 28, 122, 13]))
        fs.append([op, role, n, k, a])
    c["faults"] = fs
    return c


def every_call(tier):
    out = []
    base = [{"n": 3 * M + 77, "seed": 1, "extra": 5000, "diff": [[10, 1], [M + 5, 3], [2 * M - 1, 2], [3 * M + 70, 3]]},
            {"n": 2 * M, "seed": 2, "extra": 0, "diff": [[0, 2 * M]], "blkdst": 1},
            {"n": 5000, "seed": 3, "extra": 0, "diff": [[2500, 1]], "blksrc": 1},
            {"n": 2 * M + 1, "seed": 4, "extra": 1, "diff": []}]
    for c in base:
        for op, role in (("pread", "src"), ("pread", "dst"), ("pwrite", "dst"), ("fsync", "dst"), ("open", "src"), ("open", "dst"), ("fstat", "src"), ("fstat", "dst"), ("ioctl", "src"), ("ioctl", "dst")):
            for n in range(1, 8 if op in ("pread", "pwrite") else 2):
                for k, a in (("errno", 5), ("errno", 4), ("short", 1), ("short", 600000), ("eof", 0), ("crash", 3)):
                    if op not in ("pread", "pwrite") and (k, a) != ("errno", 5) or k == "crash" and op != "pwrite" or k == "eof" and op == "pwrite":
                        continue
                    out.append(dict(c, zero=False, faults=[[op, role, n, k, a]]))
    return out


def make(case):
    n = case["n"]
    src = bytearray(b"\0" * n if case.get("zero") else ref.rnd_bytes(case["seed"], n))
    if case.get("zero") and n:
        src[n // 2] = 1
    dst = bytearray(src)
    for p, ln in case["diff"]:
        for i in ((p, p + ln - 1) if ln > 4 else range(p, p + ln)):
            if i < n:
                dst[i] ^= 0x11
        if ln > 4:
            e = min(n, p + ln)
            if e > p + 2:
                dst[p + 1:e - 1] = ref.rnd_bytes(case["seed"] + 500, e - p - 2)
    if case["extra"] > 0:
        dst += ref.rnd_bytes(88, case["extra"])
    elif case["extra"] < 0:
        del dst[max(0, n + case["extra"]):]
    return bytes(src), bytes(dst)


def execute(ctx, case):
    src, dst = make(case)
    ctx.write("src", src)
    ctx.write("dst", dst)
    plan = [("role", "src", "src"), ("role", "dst", "dst")]
    for r in ("src", "dst"):
        if case.get("blk" + r):
            plan.append(("blk", r))
    if case.get("tty"):
        plan.append(("tty",))
    plan += [("closefd", n) for n in case.get("cl", ())]
    plan += [("fault",) + tuple(f) for f in case.get("faults", ())]
    r = ctx.run("patchdd", ["patchdd", "src", "dst"], plan=plan, env={"LOGLEVEL": case["log"]} if case.get("log") else {})
    sane(r, crash_ok=True)
    after = ctx.read("dst")
    expect(ctx.read("src") == src, "the source was modified", r)
    n = len(src)
    ev = r.events()
    fired = [e for e in ev if e[0] == "F"]
    hard = [e for e in fired if e[3] == "3" or e[3] == "0" and e[5] != "4"]
    w = [e for e in ev if e[0] in "wW" and e[1] == "dst" and int(e[-1]) > 0]
    lb = ["exit%s" % r.exit]
    if len(dst) < n:
        expect(r.exit == 1, "a destination smaller than the source is accepted", r)
        expect(after == dst and not w, "a destination smaller than the source is written to", r)
        return {"nontrivial": True, "labels": ["smaller"]}
    expect(len(after) == len(dst), lambda: "the size of the destination changed from %d to %d" % (len(dst), len(after)), r)
    expect(after[n:] == dst[n:], "bytes of the destination behind the source's length were modified", r)
    if hard:
        expect(r.exit != 0, lambda: "exit 0 although %s of %s failed" % (hard[0][1], hard[0][2]), r)
        lb.append("%s-%s" % (hard[0][2], hard[0][1]))
    if r.exit == 0:
        expect(after[:n] == src, "exit 0, but the destination does not start with the source", r)
        if w:
            last = max(i for i, e in enumerate(ev) if e[0] in "wW" and e[1] == "dst")
            expect(any(e[0] == "Y" and e[1] == "dst" and e[2] == "0" for e in ev[last:]), "exit 0 without the destination having been synchronized", r)
    elif not hard and not r.crashed:
        expect(False, "patchdd fails for no reason", r)
    else:
        if after != dst:
            for k in range(0, n, M):
                a, s, d = after[k:k + M], src[k:k + M], dst[k:k + M]
                if a != s and a != d:
                    expect(all(x == y or x == z for x, y, z in zip(a[:n - k], s, d)), "the destination holds bytes that are neither the old nor the new ones", r)
    # which bytes were written
    first = {}
    for k in range(0, n, M):
        s, d = src[k:k + M], dst[k:min(k + M, n)]
        if s == d:
            first[k // M] = None
        else:
            lo, hi = 0, len(s)
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if s[lo:mid] != d[lo:mid]:
                    hi = mid
                else:
                    lo = mid
            first[k // M] = k + lo
    for off, ln in r.writes("dst"):
        pos = off
        while pos < off + ln:
            k = pos // M
            f = first.get(k)
            expect(f is not None, lambda: "%d bytes are written at %d although step %d is equal" % (ln, off, k), r)
            expect(pos >= f, lambda: "%d bytes are written at %d, before the first difference at %d" % (ln, off, f), r)
            pos = (k + 1) * M
    if w:
        lb.append("writes")
    if len(dst) > n:
        lb.append("larger")
    if src == dst[:n]:
        lb.append("equal")
    if r.crashed:
        lb.append("interrupted")
    if case.get("cl"):
        lb.append("closed")
    lb.append("steps:%d" % ((n + M - 1) // M))
    return {"nontrivial": bool(w or fired), "labels": lb}


@st.composite
def odd_cases(draw, tier):
    a = [draw(st.sampled_from(["src", "dst", "missing", "dir", "same", "link", "-h", "--help", "ro", "null"])) for _ in range(draw(I(0, 3)))]
    return {"a": a, "n": draw(I(0, 3000)), "log": draw(gen.loglevels)}


def exec_odd(ctx, case):
    src, dst = ref.rnd_bytes(1, case["n"]), ref.rnd_bytes(2, case["n"] + 10)
    files = {"src": src, "dst": dst, "same": src + b"tail", "ro": dst}
    for k, v in files.items():
        ctx.write(k, v)
    os.chmod(ctx.path("ro"), 0o444)
    os.mkdir(ctx.path("dir"))
    os.symlink("dst", ctx.path("link"))
    argv = ["patchdd"] + ["/dev/null" if x == "null" else x for x in case["a"]]
    r = ctx.run("patchdd", argv, env={"LOGLEVEL": case["log"]} if case["log"] else {})
    sane(r)
    now = {k: ctx.read(k) for k in files}
    ok = len(case["a"]) >= 2 and case["a"][0] in ("src", "dst", "same", "link", "ro") and case["a"][1] in ("src", "dst", "same", "link")
    want = dict(files)
    if ok:
        s = files["dst" if case["a"][0] == "link" else case["a"][0]]
        dn = "dst" if case["a"][1] == "link" else case["a"][1]
        if len(s) > len(files[dn]):
            ok = False
        else:
            want[dn] = s + files[dn][len(s):]
    expect(r.exit == (0 if ok else 1), "exit status %s, expected %d" % (r.exit, 0 if ok else 1), r)
    for k in files:
        expect(now[k] == want[k], "wrong content of %s" % k, r)
    expect(sorted(os.listdir(ctx.dir)) == sorted(list(files) + ["dir", "link"]), "files were created or removed", r)
    return {"nontrivial": len(case["a"]) >= 2, "labels": ["ok" if ok else "refused"]}


PARTS = [
    Part("every-call", execute=execute, cases=every_call),
    Part("pairs", cases, execute, quick=1800, thorough=40000),
    Part("many-steps", many_steps, execute, quick=160, thorough=3000),
    Part("faults", fault_cases, execute, quick=1800, thorough=40000),
    Part("odd", odd_cases, exec_odd, quick=800, thorough=10000),
]
