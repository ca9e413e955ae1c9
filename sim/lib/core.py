"""Driver side of the simulator: talks to the zygote, builds scratch worlds, reads results."""
import hashlib, os, random, select, shutil, stat, subprocess, sys, tempfile, time

FAULTS = ["crash", "torn", "eio", "enospc", "short", "emfile", "eacces",
          "t_fail", "t_killed", "t_notfound", "t_forkfail", "t_trunc_ok", "t_trunc_fail", "t_norun_ok",
          "signal", "clock", "alloc"]
UID = 65534


class SimError(Exception):
    """The simulator itself failed: never reported as a violation."""


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            p = tempfile.mkdtemp(prefix="lsim-", dir=d)
            os.chmod(p, 0o755)
            return p
        except OSError:
            continue
    raise SimError("no scratch space")


def esc(s):
    out = []
    for ch in s.encode("utf-8", "surrogateescape"):
        if ch in (37, 10, 13) or ch < 32:
            out.append("%%%02x" % ch)
        else:
            out.append(chr(ch))
    return "".join(out)


class Result:
    __slots__ = ("exit", "sig", "ops", "draws", "allocs", "clock_us", "escapes", "ops_exceeded", "cpu", "fired",
                 "log", "out", "err")

    def hung(self):
        return self.sig in (24, 9) and "!crash" not in self.log[-200:] and "!torn" not in self.log[-200:] \
            and not self.ops_exceeded or bool(self.ops_exceeded)

    def crashed(self):
        return self.fired.get("crash") or self.fired.get("torn")

    def oplist(self):
        """[(op index, kind, path)] from the event log."""
        r = []
        for line in self.log.split("\n"):
            p = line.split(" ", 2)
            if len(p) >= 2 and p[0].isdigit():
                r.append((int(p[0]), p[1], p[2] if len(p) > 2 else ""))
        return r

    def digest(self):
        return hashlib.sha1((self.log + "|%s|%s|%s" % (self.exit, self.sig, self.draws)).encode()).hexdigest()[:16]


class Server:
    """One zygote with one scratch world."""

    def __init__(self, binary, root):
        self.binary, self.root = binary, root
        self.p = None
        self.runs = 0

    def start(self):
        os.makedirs(self.root, exist_ok=True)
        os.chmod(self.root, 0o755)
        if os.getuid() == 0:
            os.chown(self.root, UID, UID)
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": "/",
               "LATTESIM_TOOLCLOCK": os.path.join(os.path.dirname(self.binary), "toolclock.so")}
        if os.environ.get("LATTESIM_COVFILE"):   # see sim/rt/cov.c
            env["LATTESIM_COVFILE"] = os.environ["LATTESIM_COVFILE"]
        if os.environ.get("LATTESIM_BT"):   # debugging aid: print a backtrace when a simulated process crashes
            env["LATTESIM_BT"] = "1"
        self.p = subprocess.Popen([self.binary, self.root, str(UID)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd="/", close_fds=True)
        if self._line() != b"READY":
            raise SimError("zygote did not start")

    def _line(self):
        s = self.p.stdout.readline()
        if not s.endswith(b"\n"):
            raise SimError("zygote died")
        return s[:-1]

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    # ---- the scratch world ----
    def reset(self):
        for n in os.listdir(self.root):
            p = os.path.join(self.root, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        self.mkdir("tmp")
        os.chmod(self.path("tmp"), 0o1777)

    def path(self, rel):
        return os.path.join(self.root, rel)

    def mkdir(self, rel):
        p = self.path(rel)
        os.makedirs(p, exist_ok=True)
        if os.getuid() == 0:
            os.chown(p, UID, UID)

    def put(self, rel, text):
        rel = os.path.normpath(rel)
        p = self.path(rel)
        d = ""
        for part in os.path.dirname(rel).split("/"):
            d = os.path.join(d, part)
            if d and not os.path.isdir(self.path(d)):
                self.mkdir(d)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))
        if os.getuid() == 0:
            os.chown(p, UID, UID)

    def get(self, rel):
        try:
            with open(self.path(rel), "rb") as f:
                return f.read().decode("latin-1")
        except OSError:
            return None

    def rm(self, rel):
        p = self.path(rel)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        elif os.path.lexists(p):
            os.unlink(p)

    def tree(self, rel=""):
        """{relative path: content} of the world below rel."""
        r = {}
        top = self.path(rel) if rel else self.root
        for d, ds, fs in os.walk(top):
            for f in fs:
                p = os.path.join(d, f)
                q = os.path.relpath(p, self.root)
                if q.startswith("."):
                    continue
                try:
                    with open(p, "rb") as h:
                        r[q] = h.read().decode("latin-1")
                except OSError:
                    pass
        return r

    def dirs(self, rel):
        top = self.path(rel)
        return sorted(os.path.relpath(os.path.join(d, x), self.root) for d, ds, fs in os.walk(top) for x in ds)

    # ---- running ----
    def run(self, procs, sched=None, choices=None, sticky=0):
        """procs: list of dicts prog,args,cwd,stdin,rng(mode,seed,prefix),draws,faults[(op,kind,param)],pid,host,clock,disk,cpu,maxops."""
        if self.p is None:
            self.start()
        L = []
        if sched is not None:
            L.append("sched %d" % sched)
            L.append("sticky %d" % sticky)
            if choices:
                L.append("choices " + " ".join(map(str, choices)))
        for q in procs:
            L.append("proc " + q["prog"])
            for a in q.get("args", []):
                L.append("arg " + esc(a))
            L.append("cwd " + esc(q.get("cwd", "")))
            if q.get("stdin"):
                L.append("stdin " + esc(q["stdin"]))
            if q.get("rng"):
                L.append("rng %s %d %d" % tuple(q["rng"]))
            if q.get("draws"):
                L.append("draws " + " ".join(map(str, q["draws"])))
            for f in q.get("faults", []):
                L.append("fault %d %s %d" % (f[0], f[1], f[2]))
            for k in ("pid", "host", "disk", "cpu", "maxops"):
                if q.get(k) is not None:
                    L.append("%s %s" % (k, q[k]))
            if q.get("clock"):
                L.append("clock %d %d" % tuple(q["clock"]))
        L.append("go")
        try:
            self.p.stdin.write(("\n".join(L) + "\n").encode("utf-8", "surrogateescape"))
            self.p.stdin.flush()
            head = self._line().split()
        except (BrokenPipeError, OSError) as e:
            raise SimError("zygote: %s" % e)
        if head[0] != b"RES":
            raise SimError("protocol")
        self.trace = self.p.stdout.read(int(head[2])).decode()
        self.trace = [int(x) for x in self.trace.split()]
        out = []
        for _ in range(int(head[1])):
            w = self._line().split()
            if w[0] != b"P":
                raise SimError("protocol")
            v = [int(x) for x in w[1:]]
            r = Result()
            (r.exit, r.sig, r.ops, r.draws, r.allocs, r.clock_us, r.escapes, r.ops_exceeded, r.cpu) = v[:9]
            nf = len(FAULTS)
            r.fired = {FAULTS[i]: v[9 + i] for i in range(nf) if v[9 + i]}
            ll, lo, le = v[9 + nf:12 + nf]
            rd = lambda n: self.p.stdout.read(n).decode("latin-1") if n else ""
            r.log, r.out, r.err = rd(ll), rd(lo), rd(le)
            out.append(r)
            self.runs += 1
            if r.exit in (96, 97, 98, 99) and not r.sig:
                raise SimError("simulator exit code %d: %s" % (r.exit, r.err[-300:]))
        return out

    def run1(self, prog, args, **kw):
        kw.update(prog=prog, args=args)
        return self.run([kw])[0]
