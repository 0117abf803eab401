"""Talk to the public-API driver."""
import os, subprocess, shutil, tempfile, select, time
import build as B

DATA = os.path.join(B.REPO, "data")


class Died(Exception):
    def __init__(self, rc, err, cmd):
        super().__init__("driver ended rc=%s on %r: %s" % (rc, cmd, err[-400:]))
        self.rc, self.err, self.cmd = rc, err, cmd


class Driver:
    """One process of the driver. Its working directory is searched first for data files, so
    a generated discreteLevels.dat there is used, and every other data file comes from /repo/data."""
    def __init__(self, scheme=None, exe="api_driver", variant="opt", cwd=None, datadir=DATA, env=None, timeout=150, levels_path=None):
        import levels as L
        self.exe = B.build(exe, variant)
        self.own = cwd is None
        self.cwd = cwd or tempfile.mkdtemp(prefix="vpdrv_")
        if scheme is not None:
            L.dump(scheme, os.path.join(self.cwd, "discreteLevels.dat"))
        if levels_path:
            os.symlink(levels_path, os.path.join(self.cwd, "discreteLevels.dat"))
        self.errf = open(os.path.join(self.cwd, "stderr.txt"), "w+")
        e = dict(os.environ)
        e.pop("CGMFDATA", None)
        e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99")
        if variant == "opt":     # only speed: keep the large work arrays mapped between events
            e.update(MALLOC_MMAP_THRESHOLD_="4000000000", MALLOC_TRIM_THRESHOLD_="4000000000", MALLOC_TOP_PAD_="268435456")
        if env:
            e.update(env)
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  cwd=self.cwd, env=e, text=True, bufsize=1)
        self.timeout = timeout
        self.last = None
        if datadir:
            self.cmd("data " + datadir)

    def send(self, line):
        self.last = line
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self._dead()

    def _dead(self):
        try:
            rc = self.p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            self.p.kill(); rc = "timeout"
        self.errf.flush(); self.errf.seek(0)
        err = self.errf.read()
        raise Died(rc, err, self.last)

    def recv(self):
        r, _, _ = select.select([self.p.stdout], [], [], self.timeout) if not getattr(self, "_buf", None) else ([1], 0, 0)
        if not r:
            self.p.kill()
            self.p.wait()
            self.errf.seek(0)
            raise Died("timeout", self.errf.read(), self.last)
        s = self.p.stdout.readline()
        if s == "":
            self._dead()
        return s.rstrip("\n")

    def cmd(self, line):
        self.send(line)
        return self.recv()

    def event(self, iso, e, seed, t=0.0, tw=-1.0, capi=False):
        return Event(self.cmd("%s %d %r %d %r %r" % ("cevent" if capi else "event", iso, e, seed, t, tw)))

    def raw_event(self, iso, e, seed, t=0.0, tw=-1.0, capi=False):
        return self.cmd("%s %d %r %d %r %r" % ("cevent" if capi else "event", iso, e, seed, t, tw))

    def cgm(self, za, ex, seed, capi=False, t=0.0):
        f = self.cmd("%s %d %r %d %r" % ("ccgm" if capi else "cgm", za, ex, seed, t)).split()
        assert f[0] == "CG"
        ng, nn = int(f[1]), int(f[2])
        v = [float(x) for x in f[3:]]
        o = ng + nn
        self.more = None if capi else ([v[o + 4 * i:o + 4 * i + 4] for i in range(ng + nn)], [v[o + 4 * (ng + nn) + 4 * i:][:4] for i in range(nn)])
        return v[:ng], v[ng:o]

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(timeout=30)
        except subprocess.TimeoutExpired:
            self.p.kill(); self.p.wait()
        self.p.stdout.close()
        self.errf.close()
        if self.own:
            shutil.rmtree(self.cwd, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Frag:
    __slots__ = ("A", "Z", "KE", "KEpost", "U", "J", "P", "nu", "nug", "pre", "post")


class Event:
    """a parsed event"""
    def __init__(self, line):
        self.raw = line
        f = line.split()
        if f[0] != "EV":
            raise ValueError(line)
        it = iter(f[1:])
        I = lambda: int(next(it))
        D = lambda: float(next(it))
        self.iso, self.E = I(), D()
        self.fr = []
        for _ in range(2):
            x = Frag()
            x.A, x.Z, x.KE, x.KEpost, x.U, x.J, x.P, x.nu, x.nug = I(), I(), D(), D(), D(), D(), I(), I(), I()
            x.pre = (D(), D(), D()); x.post = (D(), D(), D())
            self.fr.append(x)
        self.nn, self.ng, self.npre = I(), I(), I()
        self.n = [tuple(D() for _ in range(9)) for _ in range(self.nn)]   # E u v w age Ecm ucm vcm wcm
        self.g = [tuple(D() for _ in range(5)) for _ in range(self.ng)]   # E u v w age
        self.pre = [tuple(D() for _ in range(4)) for _ in range(self.npre)]
        self.calls = I()
        self.key = " ".join(f[1:-1])

    def neutrons(self, k):
        a = self.fr[0].nu
        return self.n[:a] if k == 0 else self.n[a:]

    def photons(self, k):
        a = self.fr[0].nug
        return self.g[:a] if k == 0 else self.g[a:]
