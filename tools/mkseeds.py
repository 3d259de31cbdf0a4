#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py and, with --confirm, tries each in a scratch copy of /repo.

mkseeds.py [--confirm] [--checks] [ID...]   --checks also runs the property's check against the changed copy
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.join(V, "tools")
SEEDS = {}


def seed(sid, prop, edits, demo, needs, breaks):
    assert sid not in SEEDS, sid
    SEEDS[sid] = (prop, edits, demo, needs, breaks)


for f in sorted(glob.glob(HERE + "/seedsrc/seeds*.py")):
    exec(compile(open(f).read(), f, "exec"))


def apply(edits, root):
    for fn, old, new in edits:
        p = os.path.join(root, fn)
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit("%s: %d matches of %r" % (fn, t.count(old), old))
        open(p, "w").write(t.replace(old, new))


def make(sid):
    prop, edits, demo, needs, breaks = SEEDS[sid]
    d = os.path.join(V, "seeded", sid)
    shutil.rmtree(d, True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    for s in ("a", "b"):
        os.mkdir(os.path.join(t, s))
        for fn in {e[0] for e in edits}:
            shutil.copy(os.path.join("/repo", fn), os.path.join(t, s, fn))
    apply(edits, os.path.join(t, "b"))
    r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, stdout=subprocess.PIPE)
    out = re.sub(rb"^diff --git .*\nindex .*\n", b"", r.stdout, flags=re.M)
    shutil.rmtree(t)
    open(d + "/patch.diff", "wb").write(out)
    # at least one changed line has to be in the original repository
    root = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
    ok = False
    cur = None
    for l in out.decode().split("\n"):
        if l.startswith("--- a/"):
            cur = subprocess.check_output(["git", "-C", "/repo", "show", root + ":" + l[6:]], text=True).split("\n")
        elif l.startswith("-") and len(l.strip()) > 6 and l[1:] in cur:
            ok = True
    if not ok:
        print(sid, "NOTE: no removed line is original")
    open(d + "/demo.sh", "w").write('#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(HERE + "/seedsrc/lib.py", d + "/lib.py")
    open(d + "/demo.py", "w").write("import sys\nsys.dont_write_bytecode = True\nfrom lib import *\n\n" + demo.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    return d


def demo(d, cwd):
    try:
        r = subprocess.run(["sh", d + "/demo.sh"], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        return r.returncode, r.stdout.decode("latin1")[-300:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    confirm = "--confirm" in sys.argv
    checks = "--checks" in sys.argv
    for sid in SEEDS:
        if args and sid not in args:
            continue
        d = make(sid)
        if confirm or checks:
            if subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]):
                raise SystemExit("/repo is not clean")
        if confirm:
            subprocess.run(["bash", "/opt/vp/build.sh"], check=True, stdout=subprocess.DEVNULL)
            rc0, o0 = demo(d, "/repo")
            subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
            try:
                r = subprocess.run(["bash", "/tmp/chk.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                rc1, o1 = demo(d, "/repo")
            finally:
                subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
            good = rc0 == 0 and rc1 != 0 and "missing []" in r.stdout
            print(sid, "CONFIRMED" if good else "** NOT CONFIRMED **", "demo", rc0, rc1, "tests", r.stdout.strip()[-300:] if "missing []" not in r.stdout else "ok", "|", (o0 + o1).strip()[-200:].replace("\n", " / "), flush=True)
        if checks:
            wt = tempfile.mkdtemp(prefix="wt.")
            subprocess.run(["cp", "-a", "/repo", wt + "/r"], check=True)
            subprocess.run(["git", "-C", wt + "/r", "apply", d + "/patch.diff"], check=True)
            prop = SEEDS[sid][0]
            try:
                r = subprocess.run([V + "/bin/check", prop, "--no-evidence"], env=dict(os.environ, CSN_REPO=wt + "/r"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
                v = [l for l in r.stdout.split("\n") if "VIOLATION" in l]
                print(sid, prop, "CAUGHT" if r.returncode == 1 and v else "** MISSED ** rc=%d" % r.returncode, v[:1] or r.stdout[-300:], flush=True)
            finally:
                shutil.rmtree(wt)


if __name__ == "__main__":
    main()
