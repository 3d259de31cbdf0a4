"""Search engine: Hypothesis generators over JSON cases, deterministic executors, worker
processes, shrinking, replay, evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pwd
import random
import resource
import shutil
import sys
import tempfile
import time
import traceback

from . import build as buildmod
from . import ref
from .world import Ctx, HarnessError, Violation

VERIF = buildmod.VERIF
SHRINK_SECONDS = 40
HARD_CAP = 780          # wall clock; a run cut short here says so in its evidence


class StopRun(BaseException):
    pass


class Part:
    """One generated check of a property.

    name      label
    strategy  callable(tier) -> hypothesis strategy producing a JSON-able case
    execute   callable(ctx, case) -> dict(nontrivial=bool, labels=[...]); raises Violation
    quick     number of cases in the quick tier (over all workers), thorough likewise
    needs     program that has to exist (e.g. 'apix'), otherwise the part is skipped and noted
    exhaustive callable(tier) -> list of cases: enumerated instead of generated
    """

    def __init__(self, name, strategy=None, execute=None, quick=1000, thorough=20000, needs=None, cases=None):
        self.name = name
        self.strategy = strategy
        self.execute = execute
        self.quick = quick
        self.thorough = thorough
        self.needs = needs
        self.cases = cases


def sampled(strategy, quick, thorough):
    """For expensive cases: a list of distinct generated cases that the workers share."""
    def cases(tier):
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis import seed as hseed
        n = quick if tier == "quick" else thorough
        out = {}

        @hseed(subseed(os.environ.get("VERIF_SEED", "1"), strategy.__name__))
        @settings(max_examples=2 * n + 20, database=None, deadline=None, phases=[Phase.generate], suppress_health_check=list(HealthCheck))
        @given(strategy(tier))
        def collect(c):
            out.setdefault(canon(c), c)
        collect()
        return list(out.values())[1:n + 1]
    return cases


def drop_privileges():
    if os.geteuid() == 0:
        nb = pwd.getpwnam("nobody")
        os.setgroups([])
        os.setgid(nb.pw_gid)
        os.setuid(nb.pw_uid)
        os.environ["HOME"] = "/nonexistent"
    os.umask(0o022)
    # end with the parent; bounded memory
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
    except Exception:
        pass
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


def make_scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix="csnpbt.", dir=base)
    os.chmod(d, 0o711)
    return d


def worker_scratch(scratch, name):
    d = os.path.join(scratch, name)
    os.makedirs(d)
    if os.geteuid() == 0:
        nb = pwd.getpwnam("nobody")
        os.chown(d, nb.pw_uid, nb.pw_gid)
    return d


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def subseed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def _worker(prop, tier, seed, w, nw, bdir, scratch, stop, deadline, q, only):
    try:
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis import seed as hseed
        import hypothesis.strategies  # noqa
        mod = importlib.import_module("pbt.props." + prop.lower())
        ref.load(bdir)
        wd = worker_scratch(scratch, "w%d" % w)
        drop_privileges()
        os.chdir(wd)
        ctx = Ctx(bdir, wd)
        os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = wd + "/hyp"
        out = {"w": w, "parts": {}, "fail": None, "cut": False}
        for part in mod.PARTS:
            if only and part.name not in only:
                continue
            if part.needs and not ctx.has(part.needs):
                out["parts"][part.name] = {"skipped": "no " + part.needs}
                continue
            st = {"n": 0, "labels": collections.Counter(), "hashes": set(), "samples": [], "t0": time.time()}
            out["parts"][part.name] = st
            best = {"case": None, "err": None, "t": None}

            def one(case):
                if stop.is_set() and best["case"] is None:
                    raise StopRun()
                now = time.time()
                if now > deadline:
                    out["cut"] = True
                    raise StopRun()
                if best["t"] is not None and now - best["t"] > SHRINK_SECONDS:
                    raise StopRun()
                ctx.reset()
                try:
                    info = part.execute(ctx, case) or {}
                except Violation as e:
                    c = canon(case)
                    if best["t"] is None:
                        best["t"] = now
                        stop.set()
                    if best["case"] is None or len(c) < len(canon(best["case"])):
                        best["case"], best["err"], best["sig"] = getattr(e, "case", case), e.what, e.sig
                    raise
                if best["t"] is None:
                    st["n"] += 1
                    for lb in info.get("labels", ()):
                        st["labels"][lb] += 1
                    if info.get("nontrivial", True):
                        h = hashlib.sha1(canon(case).encode()).digest()[:8]
                        if h not in st["hashes"]:
                            st["hashes"].add(h)
                            if len(st["samples"]) < 2 and (w + st["n"]) % 3 == 0:
                                st["samples"].append(case)

            try:
                if part.cases is not None:
                    for i, case in enumerate(part.cases(tier)):
                        if i % nw == w:
                            try:
                                one(case)
                            except Violation:
                                break
                else:
                    total = part.quick if tier == "quick" else part.thorough
                    n = max(1, total // nw + (1 if w < total % nw else 0))
                    # several independent Hypothesis runs: each starts afresh, which keeps
                    # the exploration from settling into one region
                    rounds = max(1, min(40, n // 100))
                    for rd in range(rounds):
                        per = n // rounds + (1 if rd < n % rounds else 0)
                        if per <= 0:
                            continue

                        def test(case):
                            one(case)
                        t = given(part.strategy(tier))(test)
                        t = settings(max_examples=per, database=None, deadline=None, print_blob=False,
                                     phases=[Phase.generate, Phase.shrink],
                                     suppress_health_check=list(HealthCheck), report_multiple_bugs=False)(t)
                        t = hseed(subseed(seed, prop, part.name, w, rd))(t)
                        try:
                            t()
                        except (Violation, hypothesis.errors.Flaky):
                            break
                        except BaseExceptionGroup as g:  # several failures at once
                            if best["case"] is None:
                                raise g
                            break
            except StopRun:
                pass
            st["t1"] = time.time()
            st["hashes"] = list(st["hashes"])
            if best["case"] is not None:
                out["fail"] = {"part": part.name, "case": best["case"], "err": best["err"], "sig": best.get("sig", "")}
                break
            if stop.is_set() or out["cut"]:
                break
        ctx.close()
        q.put(out)
    except BaseException as e:  # noqa
        q.put({"w": w, "error": "".join(traceback.format_exception(e))})
        stop.set()


def _replay(prop, part_name, case, bdir, scratch, tag, q):
    try:
        mod = importlib.import_module("pbt.props." + prop.lower())
        ref.load(bdir)
        wd = worker_scratch(scratch, "replay%s" % tag)
        drop_privileges()
        os.chdir(wd)
        ctx = Ctx(bdir, wd)
        part = [p for p in mod.PARTS if p.name == part_name][0]
        if part.needs and not ctx.has(part.needs):
            q.put(("skip", ""))
            return
        try:
            part.execute(ctx, case)
            q.put(("ok", ""))
        except Violation as e:
            q.put(("violation", e.what, e.sig))
        ctx.close()
    except BaseException as e:  # noqa
        q.put(("error", "".join(traceback.format_exception(e))))


def run_replay(prop, part, case, bdir, scratch, tag):
    q = mp.Queue()
    p = mp.Process(target=_replay, args=(prop, part, case, bdir, scratch, tag, q))
    p.start()
    try:
        r = q.get(timeout=300)
    except Exception:
        r = ("error", "replay did not end")
        p.kill()
    p.join()
    return r


def load_known(prop):
    """Known findings of this property: list of (signature, text).  'fixed:' lines suppress nothing."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line[len("known: property=%s " % prop):]
                sig, _, text = rest.partition(" ")
                out.append((sig, text))
    except OSError:
        pass
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    sys.stdout.reconfigure(line_buffering=True)
    scratch = make_scratch()
    try:
        bdir0 = buildmod.build()
        if "fuzz" in [p.needs for p in importlib.import_module("pbt.props." + prop.lower()).PARTS]:
            buildmod.build_fuzz(bdir0)
        # the unprivileged workers run copies that they can certainly reach
        bdir = os.path.join(scratch, "bin")
        shutil.copytree(bdir0, bdir)
        os.chmod(bdir, 0o755)
        for f in os.listdir(bdir):
            os.chmod(os.path.join(bdir, f), 0o755)
        mod = importlib.import_module("pbt.props." + prop.lower())
        if a.replay:
            d = json.load(open(a.replay))
            r = run_replay(prop, d["part"], d["case"], bdir, scratch, "x")
            print(r[0])
            print(r[1])
            return 1 if r[0] == "violation" else 0 if r[0] == "ok" else 2
        return search(mod, prop, tier, seed, a, bdir, scratch, t0)
    except buildmod.BuildError as e:
        print("ERROR: build failed: %s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def search(mod, prop, tier, seed, a, bdir, scratch, t0):
    if a.scale != 1.0:
        for p in mod.PARTS:
            p.quick = max(8, int(p.quick * a.scale))
            p.thorough = max(8, int(p.thorough * a.scale))
    fails = []
    regress = 0
    # saved inputs first
    rdir = os.path.join(VERIF, "regress", prop)
    saved = sorted(os.listdir(rdir)) if os.path.isdir(rdir) else []
    known = load_known(prop)
    unsound = []
    for i, f in enumerate(saved):
        d = json.load(open(os.path.join(rdir, f)))
        r = run_replay(prop, d["part"], d["case"], bdir, scratch, "s%d" % i)
        regress += 1
        if r[0] == "error":
            print("ERROR: saved input %s: %s" % (f, r[1]))
            return 2
        if r[0] == "violation":
            fails.append({"part": d["part"], "case": d["case"], "err": r[1], "sig": r[2]})
            break
    results = []
    if not fails:
        stop = mp.Event()
        q = mp.Queue()
        cap = HARD_CAP if tier == "quick" else float(os.environ.get("VERIF_CAP", "3000"))
        deadline = t0 + cap
        procs = [mp.Process(target=_worker, args=(prop, tier, seed, w, a.workers, bdir, scratch, stop, deadline, q, a.only))
                 for w in range(a.workers)]
        for p in procs:
            p.start()
        for _ in procs:
            while True:
                try:
                    results.append(q.get(timeout=5))
                    break
                except Exception:
                    if not any(p.is_alive() for p in procs) and q.empty():
                        print("ERROR: a worker died without a result")
                        return 2
        for p in procs:
            p.join()
        errs = [r for r in results if "error" in r]
        fails = [r["fail"] for r in results if r.get("fail")]
        if errs and not fails:
            print("ERROR in worker:\n" + errs[0]["error"])
            return 2
    ok = [r for r in results if "parts" in r]
    fails.sort(key=lambda f: len(canon(f["case"])))
    confirmed = None
    for i, f in enumerate(fails):
        rs, n = [], 0
        while len(rs) < 3 and n < 2 and len(rs) - n < 2:
            rs.append(run_replay(prop, f["part"], f["case"], bdir, scratch, "r%d_%d" % (i, len(rs))))
            n += rs[-1][0] == "violation"
        if n >= 2:
            f["reproduced"] = "%d of %d" % (n, len(rs))
            f["err"] = [r[1] for r in rs if r[0] == "violation"][0]
            f["sig"] = [r[2] for r in rs if r[0] == "violation"][0]
            if any(s == f["sig"] for s, _ in known if s):
                continue
            confirmed = f
            break
        unsound.append(f)
    rc = 0
    for s, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if confirmed:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, hashlib.sha1(canon(confirmed["case"]).encode()).hexdigest()[:10]))
        with open(path, "w") as fh:
            json.dump({"property": prop, "part": confirmed["part"], "case": confirmed["case"], "what": confirmed["err"],
                       "reproduced": confirmed["reproduced"], "replay_cmd": "bin/check %s --replay %s" % (prop, path)}, fh, indent=1)
        print("part %s: %s" % (confirmed["part"], confirmed["err"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    for f in unsound:
        print("NOTE: a failure of part %s did not reproduce and is not reported: %s" % (f["part"], f["err"][:600]))
    evidence(mod, prop, tier, seed, ok, t0, rc, regress, unsound, a, bdir)
    return rc


def evidence(mod, prop, tier, seed, results, t0, rc, regress, unsound, a, bdir):
    parts = {}
    total = 0
    nontriv = 0
    samples = []
    cut = any(r.get("cut") for r in results)
    for p in mod.PARTS:
        n, labels, hs, sk = 0, collections.Counter(), set(), None
        secs = 0
        for r in results:
            st = r["parts"].get(p.name)
            if not st:
                continue
            if "skipped" in st:
                sk = st["skipped"]
                continue
            n += st["n"]
            labels.update(st["labels"])
            hs.update(st["hashes"])
            secs = max(secs, st.get("t1", 0) - st["t0"])
            if len(samples) < 40:
                samples += [{"part": p.name, "case": s} for s in st["samples"][:1]]
        d = {"evaluations": n, "distinct_nontrivial": len(hs), "classes": dict(labels.most_common(60)), "seconds": round(secs, 1)}
        if p.cases is not None:
            d["enumerated"] = True
        if sk:
            d["skipped"] = sk
        parts[p.name] = d
        total += n
        nontriv += len(hs)
    # a few samples, short ones first, at most three per part
    samples.sort(key=lambda s: len(canon(s)))
    pick = []
    cnt = collections.Counter()
    for s in samples:
        if cnt[s["part"]] < 3 and len(canon(s)) < 20000:
            cnt[s["part"]] += 1
            pick.append(s)
    err = os.path.join(bdir, "apix.err")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": total + regress,
            "distinct_nontrivial": nontriv,
            "rule": mod.RULE,
            "samples": pick[:8],
            "parts": parts,
            "saved_inputs_replayed": regress,
            "cut_short_by_wall_clock": cut,
            "unreproduced_failures": len(unsound),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if rc == 1 else 0,
    }
    if os.path.exists(err):
        ev["coverage"]["api_driver"] = "not built against this tree: " + open(err).read()[-300:]
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs%s" %
          (prop, tier, seed, total, nontriv, time.time() - t0, " (cut short)" if cut else ""))
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    elif a.only:
        print(json.dumps(ev["coverage"]["parts"], indent=1))


if __name__ == "__main__":
    sys.exit(main())
