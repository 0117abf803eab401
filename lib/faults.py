"""C26: data files removed, entries removed, data paths redirected. A run either gives exactly the result of
the complete data, or ends with a message and a failure status and writes no event."""
import os, shutil, tempfile
import build as B, drv, gen, levels as L
from cli import Sandbox
from core import Result, rng_for

LEVELS = "discreteLevels.dat"


def scheme(k):
    return L.random_scheme(rng_for("faultS", k), nmax=6)


class Box:
    """complete data directories of symbolic links, one per level scheme"""
    def __init__(self, k):
        self.dir = tempfile.mkdtemp(prefix="vpflt_")
        self.sb = Sandbox(scheme={})
        os.unlink(os.path.join(self.sb.dir, LEVELS))
        self.files = sorted(f for f in os.listdir(drv.DATA) if os.path.isfile(os.path.join(drv.DATA, f)))
        self.n = 0
        for i in (0, 1):
            L.dump(scheme(k * 2 + i), os.path.join(self.dir, "lev%d" % i))

    def data(self, lev=0, without=(), replaced=()):
        """a fresh data directory; lev None: without a level file"""
        self.n += 1
        d = os.path.join(self.dir, "d%d" % self.n)
        os.mkdir(d)
        for f in self.files:
            if f not in without and f not in dict(replaced):
                os.symlink(os.path.join(drv.DATA, f), os.path.join(d, f))
        for f, txt in replaced:
            with open(os.path.join(d, f), "w") as o:
                o.write(txt)
        if lev is not None and LEVELS not in without:
            os.symlink(os.path.join(self.dir, "lev%d" % lev), os.path.join(d, LEVELS))
        return d

    def run(self, rx, dopt=None, env=None, cwd=None, timeout=90):
        """cwd: {name: path} files present in the working directory"""
        for f, p in (cwd or {}).items():
            os.symlink(p, os.path.join(self.sb.dir, f))
        try:
            o = self.sb.run(["-i", rx[0], "-e", repr(rx[1]), "-n", rx[2], "-s", rx[3], "-f", "o"], datadir=dopt, env=dict(CGMFDATA=env) if env is not None else None, timeout=timeout)
        finally:
            for f in (cwd or {}):
                q = os.path.join(self.sb.dir, f)
                if os.path.lexists(q):
                    os.unlink(q)
        o.text = o.files.get("o.0")
        return o

    def close(self):
        self.sb.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def lines(t):
    return [l for l in (t or "").splitlines() if l.strip() and not l.startswith("#")]


def refused(o):
    return isinstance(o.rc, int) and 0 < o.rc < 128 or o.rc == 255


def verdict(res, case, what, o, ref, whole):
    """ref: text of the complete run, or None when only a refusal is right"""
    if o.rc == "timeout":
        res.fail("hang", "%s: the run does not end (%s)" % (what, o.cmd), case)
    elif isinstance(o.rc, int) and o.rc < 0:
        res.fail("crash", "%s: the run is ended by signal %d (%s)" % (what, -o.rc, o.cmd), case)
    elif refused(o):
        if not (o.err.strip() or "ERROR" in o.out):
            res.fail("silent", "%s: the run ends with status %d and no message (%s)" % (what, o.rc, o.cmd), case)
        elif whole and lines(o.text):
            res.fail("partial", "%s: events were written before the failure was noticed (%s)" % (what, o.cmd), case)
        return "refused"
    elif o.rc == 0:
        if ref is None:
            res.fail("accepted", "%s: the run succeeds (%s)" % (what, o.cmd), case)
        elif o.text != ref:
            res.fail("replaced", "%s: the run succeeds with other results (%s)" % (what, o.cmd), case)
        return "same"
    return "?"


def drop_entries(fn, r, frac):
    out = []
    for l in open(os.path.join(drv.DATA, fn)):
        if l.startswith("#") or r.random() >= frac:
            out.append(l)
    return "".join(out)


def run(case):
    res = Result()
    b = Box(case["scheme"])
    rx = tuple(case["rx"])
    try:
        full = b.data(0)
        ref = b.run(rx, full)
        if ref.rc != 0 or ref.text is None:
            res.add("no_reference")
            return res
        for i, f in enumerate(case["faults"]):
            one = dict(case, faults=[f])
            k = f[0]
            if k == "missing":
                d = b.data(0, without=f[1])
                if f[2] == "env":
                    o = b.run(rx, None, env=d)
                elif f[2] == "slash":
                    o = b.run(rx, d + "/")
                else:
                    o = b.run(rx, d)
                v = verdict(res, one, "without %s" % ", ".join(f[1]), o, ref.text, True)
                need = set(f[1]) & REQUIRED
                if v == "same" and need:
                    res.fail("not-needed", "without %s the run succeeds: a file it needs is not looked at" % ", ".join(sorted(need)), one)
                res.add("missing_" + v if v else "missing_bad")
                res.case(key=(rx, tuple(f[1]), f[2]), nontrivial=v == "refused", sample="%d E=%g n=%d without %s: %s %s" % (rx[0], rx[1], rx[2], f[1], v, o.err.strip()[-60:]))
            elif k == "entries":
                txt = drop_entries(f[1], rng_for("entries", f[2]), f[3])
                o = b.run(rx, b.data(0, replaced=[(f[1], txt)]))
                v = verdict(res, one, "with %.0f %% of the entries of %s removed" % (100 * f[3], f[1]), o, ref.text, False)
                res.add("entries_" + v if v else "entries_bad")
                res.case(key=(rx, f[1], f[2]), nontrivial=v == "refused")
            elif k == "cwd":                 # the same file in the working directory, not in the data directory
                fn = f[1]
                src = os.path.join(b.dir, "lev0") if fn == LEVELS else os.path.join(drv.DATA, fn)
                o = b.run(rx, b.data(0, without=[fn]), cwd={fn: src})
                v = verdict(res, one, "with %s in the working directory only" % fn, o, ref.text, True)
                res.case(key=(rx, fn, "cwd"), nontrivial=v == "same")
            elif k == "route":
                d1, d2, no = full, b.data(1), os.path.join(b.dir, "absent")
                how = f[1]
                if how == "opt-over-env":
                    o, want = b.run(rx, d1, env=d2), ref.text
                elif how == "env":
                    o, want = b.run(rx, None, env=d1), ref.text
                elif how == "env-slash":
                    o, want = b.run(rx, None, env=d1 + "/"), ref.text
                elif how == "opt-absent":
                    o, want = b.run(rx, no), None
                elif how == "env-absent":
                    o, want = b.run(rx, None, env=no), None
                elif how == "opt-absent-env-good":
                    o, want = b.run(rx, no, env=d1), None
                elif how == "opt-good-env-absent":
                    o, want = b.run(rx, d1, env=no), ref.text
                elif how == "other":
                    o = b.run(rx, d2)
                    o2 = b.run(rx, None, env=d2)
                    want = o.text
                    if o2.text != want or o2.rc != o.rc:
                        res.fail("route", "-d DIR and CGMFDATA=DIR give different results", one)
                elif how == "cwd-first":     # level file in the working directory and another one in the data directory
                    o = b.run(rx, d2, cwd={LEVELS: os.path.join(b.dir, "lev0")})
                    want = ref.text
                else:                        # default directory; level file from the working directory
                    o = b.run(rx, None, cwd={LEVELS: os.path.join(b.dir, "lev0")})
                    want = ref.text
                if want is None:
                    v = verdict(res, one, "data path '%s'" % how, o, None, True)
                elif o.rc != 0 or o.text != want:
                    res.fail("route", "data path '%s': status %s, results %s those of the directory that should be used (%s)" % (how, o.rc, "differ from" if o.text != want else "are", o.cmd), one)
                res.case(key=(rx, how), sample="data path %s: status %s" % (how, o.rc))
            elif k == "api":
                d = b.data(0, without=f[1])
                try:
                    with drv.Driver(None, datadir=d, timeout=90) as dr:
                        t = dr.raw_event(rx[0], rx[1], 11)
                    with drv.Driver(None, datadir=full, timeout=90) as dr:
                        t0 = dr.raw_event(rx[0], rx[1], 11)
                    if t != t0:
                        res.fail("replaced", "library, without %s: the event is another one" % f[1], one)
                    if set(f[1]) & REQUIRED:
                        res.fail("not-needed", "library, without %s: an event is generated" % f[1], one)
                    v = "same"
                except drv.Died as ex:
                    v = "refused"
                    if ex.rc == "timeout":
                        res.fail("hang", "library, without %s: no end" % f[1], one)
                    elif not (isinstance(ex.rc, int) and ex.rc > 0) or not ex.err.strip():
                        res.fail("crash", "library, without %s: status %s, message '%s'" % (f[1], ex.rc, ex.err[-80:]), one)
                res.case(key=(rx, tuple(f[1]), "api"), nontrivial=v == "refused")
    finally:
        b.close()
    return res


# files every event needs, whatever the reaction
REQUIRED = {LEVELS, "masses.dat", "kcksyst.dat", "temperatures.dat", "rta.dat", "tkemodel.dat", "yamodel.dat",
            "spinscalingmodel.dat", "anisotropy.dat", "deformations.dat", "ldp.dat", "preeq-params.dat", "preeq-scattering-params.dat"}
CWD_FIRST = [LEVELS, "masses.dat", "kcksyst.dat", "temperatures.dat", "rta.dat", "anisotropy.dat", "spinscalingmodel.dat",
             "deformations.dat", "ldp.dat", "preeq-params.dat", "preeq-scattering-params.dat"]
ROUTES = ["opt-over-env", "env", "env-slash", "opt-absent", "env-absent", "opt-absent-env-good", "opt-good-env-absent", "other", "default", "cwd-first"]


def tasks(tier, seed):
    q = tier == "quick"
    r = rng_for("C26", seed)
    files = sorted(f for f in os.listdir(drv.DATA) if f.endswith((".dat", ".dat2", ".dat3"))) + [LEVELS]
    main = sorted(REQUIRED | {"multichancefission.dat"})
    out = []
    n = 60 if q else 200
    rxs = gen.stratified(r, n)
    for i, (iso, e) in enumerate(rxs):
        fl = []
        for j in range(3):            # every file that matters is removed alone several times over the run
            fl.append(["missing", [main[(i * 3 + j) % len(main)]], r.choice(["opt", "env", "slash"])])
        fl.append(["missing", sorted(r.sample(files, r.randint(1, 4))), "opt"])
        fl.append(["missing", [r.choice([f for f in files if f not in main])], "opt"])
        fl.append(["entries", r.choice(["masses.dat", "kcksyst.dat"]), r.randint(0, 10 ** 6), r.choice([0.02, 0.3, 1.0])])
        fl.append(["route", ROUTES[i % len(ROUTES)]])
        fl.append(["cwd", CWD_FIRST[i % len(CWD_FIRST)]])
        fl.append(["api", [main[(i * 5 + 1) % len(main)]]])
        out.append(dict(scheme=r.randint(0, 10 ** 6), rx=[iso, e, r.choice([2, 3, 5, -20]) if i % 4 else 3, r.randint(1, 50)], faults=fl))
    return out


def shrink(c):
    f = c["faults"][0]
    if f[0] in ("missing", "api") and len(f[1]) > 1:
        for x in f[1]:
            yield dict(c, faults=[[f[0], [x]] + f[2:]])
    if c["rx"] != [98252, 0.0, 3, 1]:
        yield dict(c, rx=[98252, 0.0, 3, 1])
        yield dict(c, rx=[92235, 14.0, 3, 1])
