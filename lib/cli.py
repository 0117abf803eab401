"""Run the repository's command-line program in a scratch directory."""
import os, shutil, subprocess, tempfile
import build as B, levels as L, evt

DATA = os.path.join(B.REPO, "data")


class Out:
    pass


class Sandbox:
    def __init__(self, scheme_spec=None, scheme=None, variant="opt"):
        self.dir = tempfile.mkdtemp(prefix="vpcli_")
        self.exe = B.build("cgmf", variant)
        sch = scheme if scheme is not None else (evt.get_scheme(scheme_spec) if scheme_spec is not None else {})
        self.scheme = sch
        L.dump(sch, os.path.join(self.dir, "discreteLevels.dat"))

    def run(self, args, datadir=DATA, timeout=150, env=None, outfile=None, keep=False):
        e = dict(os.environ)
        e.pop("CGMFDATA", None)
        e.update(MALLOC_MMAP_THRESHOLD_="4000000000", MALLOC_TRIM_THRESHOLD_="4000000000", MALLOC_TOP_PAD_="268435456")
        if env:
            e.update(env)
        before = set(os.listdir(self.dir))
        cmd = [self.exe] + [str(a) for a in args] + (["-d", datadir] if datadir else [])
        o = Out()
        o.cmd = " ".join(["cgmf"] + cmd[1:])
        try:
            p = subprocess.run(cmd, cwd=self.dir, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
            o.rc, o.out, o.err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            o.rc, o.out, o.err = "timeout", "", ""
        new = sorted(set(os.listdir(self.dir)) - before)
        o.files = {}
        for f in new:
            q = os.path.join(self.dir, f)
            if os.path.isfile(q):
                o.files[f] = open(q, errors="replace").read()
                if not keep:
                    os.unlink(q)
        return o

    def events(self, iso, e, n, s=1, tw=None, extra=()):
        args = ["-i", iso, "-e", repr(e), "-n", n, "-s", s, "-f", "h.out"] + list(extra)
        if tw is not None:
            args += ["-t", repr(tw)]
        o = self.run(args)
        o.text = next((v for k, v in o.files.items() if k.startswith("h.out")), None)
        return o

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
