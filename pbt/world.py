"""Worker context: scratch directory, fork servers, running a program under a plan."""
import os
import shutil
import signal
import struct
import subprocess

ASAN = ("detect_leaks=0:max_malloc_fill_size=4194304:malloc_fill_byte=190:exitcode=99:allocator_may_return_null=1:"
        "quarantine_size_mb=8:print_legend=0:handle_sigfpe=1:detect_stack_use_after_return=0:symbolize=%d" )


class Violation(Exception):
    def __init__(self, what, sig=""):
        super().__init__(what)
        self.what = what
        self.sig = sig


class HarnessError(Exception):
    pass


class Result:
    __slots__ = ("status", "exit", "signal", "out", "err", "log", "argv", "crashed", "_ev")

    def events(self):
        """Parsed log: list of tuples, ints converted."""
        if self._ev is None:
            ev = []
            for line in self.log.decode("latin1").splitlines():
                ev.append(tuple(line.split(" ")))
            self._ev = ev
        return self._ev

    def requests(self):
        return [e[1] for e in self.events() if e[0] == "H" and len(e) > 2]

    def http_seq(self):
        return [(e[1], int(e[2]), int(e[3])) for e in self.events() if e[0] == "H" and len(e) > 3]

    def writes(self, role):
        """[(offset, length)] of successful positional writes to role"""
        return [(int(e[2]), int(e[4])) for e in self.events() if e[0] == "W" and e[1] == role and int(e[4]) > 0]

    def preads(self, role):
        return [(int(e[2]), int(e[3]), int(e[4])) for e in self.events() if e[0] == "R" and e[1] == role]

    def reads(self, role):
        return [(int(e[2]), int(e[3])) for e in self.events() if e[0] == "r" and e[1] == role]

    def sleeps(self):
        return [int(e[1]) for e in self.events() if e[0] == "S"]

    def describe(self):
        s = "exit=%s signal=%s" % (self.exit, self.signal)
        return s + "\nargv=%r\nstderr tail:\n%s" % (self.argv, self.err[-1500:].decode("utf8", "replace"))


def unlimit():
    """The sanitizer's shadow memory does not fit in the worker's own limit."""
    import resource
    h = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (h, h))


class Zygote:
    def __init__(self, path, scratch):
        env = {"ASAN_OPTIONS": ASAN % 0, "UBSAN_OPTIONS": "print_stacktrace=0:symbolize=0:exitcode=99", "PATH": "/usr/bin:/bin",
               "TSAN_OPTIONS": ""}
        self.errf = open(os.path.join(scratch, os.path.basename(path) + ".zerr"), "wb")
        self.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=env, cwd=scratch, close_fds=True, preexec_fn=unlimit)

    def request(self, fields):
        payload = b"".join((f if isinstance(f, bytes) else f.encode()) + b"\0" for f in fields)
        try:
            self.p.stdin.write(struct.pack("<I", len(payload)) + payload)
            self.p.stdin.flush()
            r = self.p.stdout.read(4)
        except OSError:
            r = b""
        if len(r) != 4:
            raise HarnessError("fork server died: %r" % open(self.errf.name, "rb").read()[-1000:])
        return struct.unpack("<i", r)[0]

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()
        self.p.stdout.close()
        self.errf.close()


class Ctx:
    """One per worker process."""

    def __init__(self, builddir, scratch):
        self.build = builddir
        self.scratch = scratch
        self.dir = os.path.join(scratch, "case")
        self.z = {}
        self.reset()

    def has(self, prog):
        return os.path.exists(os.path.join(self.build, prog))

    def reset(self):
        """Fresh, empty case directory."""
        if os.path.isdir(self.dir):
            try:
                for e in os.scandir(self.dir):
                    if e.is_dir(follow_symlinks=False):
                        shutil.rmtree(e.path)
                    else:
                        os.unlink(e.path)
                return
            except OSError:
                shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def read(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()

    def exists(self, name):
        return os.path.lexists(self.path(name))

    def aux(self, name):
        return os.path.join(self.scratch, name)

    def run(self, prog, argv, plan=(), env=None, stdin=b"", cpu=20, wall=60, stdin_path=None, cwd=None, stdout_path=None):
        z = self.z.get(prog)
        if z is None:
            z = self.z[prog] = Zygote(os.path.join(self.build, prog), self.scratch)
        planp = self.aux("plan")
        with open(planp, "wb") as f:
            for line in plan:
                f.write(b"\t".join(str(x).encode("latin1") if not isinstance(x, bytes) else x for x in line) + b"\n")
        sin = ""
        if stdin_path:
            sin = stdin_path
        elif stdin:
            sin = self.aux("stdin")
            with open(sin, "wb") as f:
                f.write(stdin)
        so, se, lg = stdout_path or self.aux("out"), self.aux("err"), self.aux("log")
        for p in (so, se, lg):
            if p.startswith(self.scratch) and os.path.exists(p) and p != stdout_path:
                os.truncate(p, 0)
        envl = ["%s=%s" % kv if isinstance(kv[1], str) else kv[0].encode() + b"=" + kv[1]
                for kv in sorted((env or {}).items())]
        fields = [cwd or self.dir, sin, so, se, planp, lg, str(cpu), str(wall), str(len(envl))] + envl + \
                 [str(len(argv))] + list(argv)
        st = z.request(fields)
        r = Result()
        r.status = st
        r._ev = None
        r.argv = list(argv)
        r.exit = os.WEXITSTATUS(st) if os.WIFEXITED(st) else None
        r.signal = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
        with open(se, "rb") as f:
            r.err = f.read()
        if r.exit in (96, 97):
            raise HarnessError("harness rejected the plan: %r" % r.err[-500:])
        with open(lg, "rb") as f:
            r.log = f.read()
        if stdout_path:
            r.out = b""
        else:
            with open(so, "rb") as f:
                r.out = f.read()
        r.crashed = r.exit == 77
        return r

    def close(self):
        for z in self.z.values():
            z.close()
        self.z = {}


def sane(r, crash_ok=False):
    """The program ended with an ordinary status; anything else is a violation of whatever is being checked."""
    if crash_ok and r.exit == 77:
        return
    if r.signal is not None:
        try:
            name = signal.Signals(r.signal).name
        except ValueError:
            name = str(r.signal)
        raise Violation("program killed by %s\n%s" % (name, r.describe()))
    if r.exit == 98:
        raise Violation("program does not come to an end (runaway I/O)\n" + r.describe())
    if b"runtime error:" in r.err or b"ERROR: AddressSanitizer" in r.err:
        raise Violation("undefined behaviour\n" + r.describe())
    if r.exit not in (0, 1):
        raise Violation("abnormal exit status %s\n%s" % (r.exit, r.describe()))


def expect(cond, what, r=None):
    if not cond:
        if callable(what):
            what = what()
        raise Violation(what + ("\n" + r.describe() if r is not None else ""))
