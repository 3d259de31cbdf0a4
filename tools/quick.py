#!/usr/bin/env python3
"""Tries the variants of /repo listed in tools/variants/*.py against the checks of the properties they break.

quick.py [--only NAME,...] [FILE...]      A variant file calls v(name, "CXX", [(file, old, new), ...]) for each variant and
ok(name, "CXX CYY ...", edits) for edits that break nothing (the checks named have to stay quiet).
"""
import glob
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIST = []


def v(name, prop, edits):
    LIST.append((name, prop, edits, True))


def ok(name, props, edits):
    LIST.append((name, props, edits, False))


def main():
    args = sys.argv[1:]
    only = None
    if "--only" in args:
        i = args.index("--only")
        only = args[i + 1].split(",")
        del args[i:i + 2]
    for f in args or sorted(glob.glob(V + "/tools/variants/*.py")):
        exec(compile(open(f).read(), f, "exec"), dict(v=v, ok=ok))
    for name, props, edits, bad in LIST:
        if only and name not in only:
            continue
        root = tempfile.mkdtemp(prefix="qv.")
        wt = root + "/r"
        os.mkdir(wt)
        for x in os.listdir("/repo"):
            if x.endswith((".c", ".h", ".txt")):
                shutil.copy("/repo/" + x, wt + "/" + x)
        try:
            err = None
            for ed in edits:
                if callable(ed):
                    ed(wt)
                    continue
                fn, old, new = ed
                t = open(wt + "/" + fn).read()
                if t.count(old) != 1:
                    err = "%s: %d matches of %r" % (fn, t.count(old), old)
                    break
                open(wt + "/" + fn, "w").write(t.replace(old, new))
            if err:
                print(name, "ERROR", err, flush=True)
                continue
            for prop in props.split():
                t0 = time.time()
                r = subprocess.run([V + "/bin/check", prop, "--no-evidence"] + (["--scale", os.environ["QSCALE"]] if "QSCALE" in os.environ else []), env=dict(os.environ, CSN_REPO=wt, CSN_BUILD_CACHE=root + "/c"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                caught = r.returncode == 1 and "VIOLATION property=" + prop in r.stdout
                if bad:
                    s = "caught" if caught else "** MISSED ** rc=%d %s" % (r.returncode, "" if r.returncode == 0 else r.stdout[-800:])
                else:
                    s = "quiet" if r.returncode == 0 else "** ALARM ** rc=%d %s" % (r.returncode, r.stdout[-1500:])
                print("%s %s %s %.0fs" % (name, prop, s, time.time() - t0), flush=True)
        finally:
            shutil.rmtree(root, True)


if __name__ == "__main__":
    main()
