"""C28: the command-line program built with -DMPIRUN and run on several processes, against the serial program."""
import os, re, shutil, signal, subprocess, tempfile, time
import build as B, cli, evt, gen
from core import Result, rng_for

DATA = cli.DATA
LAUNCH = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "--mca", "plm", "isolated", "--mca", "btl", "self,vader",
          "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "orte_abort_print_stack", "0"]
LIMIT = 120


class Box:
    def __init__(self, spec):
        self.sb = cli.Sandbox(spec)
        self.dir = self.sb.dir
        self.exe = B.build("cgmf_mpi")

    def mpi(self, np, args, datadir=DATA, env=None, limit=LIMIT):
        e = dict(os.environ)
        for k in list(e):
            if k == "CGMFDATA" or k.startswith(("OMPI_", "PMIX_")):
                e.pop(k)
        e.update(env or {})
        tmp = tempfile.mkdtemp(prefix="vpm", dir="/tmp")    # session directory of this run: short, and removed
        e["TMPDIR"] = tmp
        before = set(os.listdir(self.dir))
        cmd = LAUNCH + ["-n", str(np), self.exe] + [str(a) for a in args] + (["-d", datadir] if datadir else [])
        o = cli.Out()
        o.cmd = "mpirun -n %d cgmf %s" % (np, " ".join(str(a) for a in args))
        o.t0 = time.time()
        p = subprocess.Popen(cmd, cwd=self.dir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             errors="replace", start_new_session=True)
        try:
            o.out, o.err = p.communicate(timeout=limit)
            o.rc = p.returncode
        except subprocess.TimeoutExpired:
            p.terminate()                       # mpirun ends its processes
            try:
                o.out, o.err = p.communicate(timeout=20)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                o.out, o.err = p.communicate()
            o.rc = "timeout"
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        o.files = {}
        for f in sorted(set(os.listdir(self.dir)) - before):
            q = os.path.join(self.dir, f)
            if os.path.isfile(q):
                o.files[f] = open(q, errors="replace").read()
                os.unlink(q)
        return o

    def close(self):
        self.sb.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def make_tasks(tier, seed):
    r = rng_for("C28", seed)
    ts = []
    nrun, nbig, ny, nf = (36, 1, 7, 22) if tier == "quick" else (500, 10, 60, 200)
    rx = gen.stratified(r, nrun)
    specs = evt.FULL + evt.ISO + evt.TINY
    for i, (iso, e) in enumerate(rx):
        np = r.choice([1, 2, 2, 3, 3, 4, 5, 7])
        n = r.choice([1, 2, 3, r.randint(2, 12), r.randint(4, 24)])
        if i < nbig:                            # progress lines are printed from 1000 events per process on
            np, n, iso, e = 2, 1000, 94242, 0.0
        ts.append(dict(kind="events", iso=iso, E=e, np=np, n=n, tw=r.choice([None, -1.0, 0.0, 1e-8, 10 ** r.uniform(-10, 1)]),
                       s=r.choice([None, 1, 2, 100, r.randint(1, 10 ** 9)]), order=r.randint(0, 10 ** 6), defname=r.random() < 0.3,
                       env=r.random() < 0.3, scheme=dict(specs[i % len(specs)], seed="C28-%d-%d" % (seed, i))))
    for iso, e in gen.stratified(r, ny):
        ts.append(dict(kind="yields", iso=iso, E=e, np=r.choice([1, 2, 3, 5]), n=r.choice([1, 2, r.randint(3, 300)]),
                       s=r.choice([None, 1, r.randint(2, 10 ** 9)]), tw=None, order=r.randint(0, 10 ** 6), defname=r.random() < 0.3, env=False, scheme=None))
    whats = ["file", "file", "file", "zero", "window", "levels", "nosuch", "masses"]
    for i, (iso, e) in enumerate(gen.stratified(r, nf)):
        np = r.choice([2, 2, 3, 4])
        ts.append(dict(kind="fault", what=whats[i % len(whats)], iso=iso, E=e, np=np, n=r.choice([1, 2, r.randint(3, 12)]),
                       bad=sorted(r.sample(range(np), r.choice([1, 1, r.randint(1, np)]))), s=r.choice([None, r.randint(2, 10 ** 6)]), tw=None,
                       order=r.randint(0, 10 ** 6), defname=False, env=r.random() < 0.3, scheme=dict(levels={})))
    ts.sort(key=lambda t: -t["n"] * t["np"])
    return ts


def args_of(t, n=None):
    r = rng_for("mpiopts", t["order"])
    opts = [["-i", t["iso"]], ["-e", repr(t["E"])], ["-n", t["n"] if n is None else n]]
    if t["s"] is not None:
        opts.append(["-s", t["s"]])
    if t["tw"] is not None:
        opts.append(["-t", repr(t["tw"])])
    if not t["defname"]:
        opts.append(["-f", "ev"])
    r.shuffle(opts)
    return [x for o in opts for x in o]


NUM = re.compile(r"-?\d+\.\d+(?:e[-+]\d+)?")


def summary(out):
    """the summary as text with the numbers taken out, and the numbers"""
    ls = [" ".join(l.split()) for l in out.split("\n") if l.strip() and not re.match(r"^\s*\d+\.\d+%\s*$", l)]
    txt = "\n".join(ls)
    return NUM.sub("@", txt), [float(x) for x in NUM.findall(txt)]


def run(t):
    res = Result()
    with Box(t["scheme"] or dict(levels={})) as b:
        {"events": events, "yields": yields, "fault": fault}[t["kind"]](t, b, res)
    return res


def events(t, b, res):
    env = dict(CGMFDATA=DATA) if t["env"] else None
    dd = None if t["env"] else DATA
    o = b.mpi(t["np"], args_of(t), datadir=dd, env=env, limit=LIMIT + t["n"] * t["np"] * 0.2)
    s = b.sb.run(args_of(t, t["n"] * t["np"]), datadir=dd, env=env, timeout=600)
    name = "histories.cgmf" if t["defname"] else "ev"
    res.case(key=(t["iso"], t["E"], t["np"], t["n"], t["s"], t["tw"]), nontrivial=t["np"] > 1, sample=o.cmd)
    res.add("parallel_runs"); res.add("events", t["n"] * t["np"]); res.add("processes", t["np"])
    if s.rc != 0 or name + ".0" not in s.files:
        res.fail("serial", "%s: rc=%s %s" % (s.cmd, s.rc, s.err[-200:]), t)
        return
    if o.rc != 0:
        res.fail("run", "%s: rc=%s %s" % (o.cmd, o.rc, o.err[-300:]), t)
        return
    want = ["%s.%d" % (name, i) for i in range(t["np"])]
    if sorted(o.files) != sorted(want):
        res.fail("files", "%s writes %s, expected one file per process" % (o.cmd, sorted(o.files)), t)
        return
    a, c = "".join(o.files[f] for f in want), s.files[name + ".0"]
    if a != c:
        la, lc = a.split("\n"), c.split("\n")
        j = next((q for q in range(min(len(la), len(lc))) if la[q] != lc[q]), min(len(la), len(lc)))
        q, k = 0, 0                              # which process wrote that line
        for k, f in enumerate(want):
            q += o.files[f].count("\n")
            if j < q:
                break
        res.fail("histories", "%s: the files of the %d processes one after another differ from the serial run of %d events at line %d (file of process %d): %r, serial %r"
                 % (o.cmd, t["np"], t["n"] * t["np"], j + 1, k, la[j:j + 1], lc[j:j + 1]), t)
        return
    # the events of each process are the requested number
    ta, na = summary(o.out)
    tc, nc = summary(s.out)
    if o.out.count("THE END") != 1:
        res.fail("summary-count", "%s prints the summary %d times" % (o.cmd, o.out.count("THE END")), t)
    elif ta != tc or len(na) != len(nc):
        res.fail("summary-text", "%s: summary differs from the serial run's: %r / %r" % (o.cmd, ta[:200], tc[:200]), t)
    else:
        for x, y in zip(na, nc):
            if not (abs(x - y) <= 0.0101 or abs(x - y) <= 1e-6 * abs(y)):
                i = nc.index(y)
                res.fail("summary-value", "%s: the summary of %d processes gives %s, the serial run %s; all numbers %s / %s"
                         % (o.cmd, t["np"], x, y, na, nc), t)
                break


def yields(t, b, res):
    o = b.mpi(t["np"], args_of(t, -t["n"]))
    s = b.sb.run(args_of(t, -t["n"]))
    name = ("yields.cgmf" if t["defname"] else "ev") + ".0"
    res.case(key=("y", t["iso"], t["E"], t["np"], t["n"], t["s"]), nontrivial=t["np"] > 1, sample=o.cmd)
    res.add("yields_runs")
    if s.rc != 0 or name not in s.files:
        res.fail("serial", "%s: rc=%s %s" % (s.cmd, s.rc, s.err[-200:]), t)
    elif o.rc != 0 or sorted(o.files) != [name]:
        res.fail("yields-run", "%s: rc=%s, files %s, expected %s alone" % (o.cmd, o.rc, sorted(o.files), name), t)
    elif o.files[name] != s.files[name]:
        res.fail("yields-file", "%s: the yields differ from those of the serial run" % o.cmd, t)


def fault(t, b, res):
    w = t["what"]
    a, dd, made = args_of(t), DATA, []
    if w == "file":
        made = [os.path.join(b.dir, "ev.%d" % k) for k in t["bad"]]
        for q in made:
            os.mkdir(q)
    elif w == "zero":
        a = args_of(t, 0)
    elif w == "window":
        a = a + ["-t", "-0.5"]
    elif w == "levels":
        os.unlink(os.path.join(b.dir, "discreteLevels.dat"))
    elif w == "nosuch":
        a = args_of(dict(t, iso=12034))
    elif w == "masses":
        dd = os.path.join(b.dir, "data")
        os.mkdir(dd)
        for f in os.listdir(DATA):
            if f != "kcksyst.dat" and os.path.isfile(os.path.join(DATA, f)):
                os.symlink(os.path.join(DATA, f), os.path.join(dd, f))
    o = b.mpi(t["np"], a, datadir=dd)
    res.case(key=("f", w, t["iso"], t["E"], t["np"], t["n"], tuple(t["bad"])), nontrivial=t["np"] > 1, sample="%s [%s %s]" % (o.cmd, w, t["bad"] if w == "file" else ""))
    res.add("refusals")
    if o.rc == "timeout":
        res.fail("hang", "%s with fault %s (processes %s): the processes do not end" % (o.cmd, w, t["bad"]), t)
    elif o.rc == 0:
        res.fail("accepted", "%s with fault %s (processes %s) ends with status 0" % (o.cmd, w, t["bad"]), t)
    elif "THE END" in o.out:
        res.fail("summary-after-fault", "%s with fault %s (processes %s) prints a summary" % (o.cmd, w, t["bad"]), t)
    elif not (o.out + o.err).strip():
        res.fail("silent", "%s with fault %s (processes %s) ends without a message" % (o.cmd, w, t["bad"]), t)


def shrink(t):
    for k in (1, 2, t["n"] // 2):
        if 0 < k < t["n"]:
            yield dict(t, n=k)
    if t["np"] > 2:
        yield dict(t, np=2, **({"bad": [x for x in t.get("bad", []) if x < 2] or [1]} if t["kind"] == "fault" else {}))
    if t["scheme"] and t["scheme"].get("levels") != {}:
        yield dict(t, scheme=dict(levels={}))
    for k, v in (("s", None), ("tw", None), ("defname", False), ("env", False), ("order", 0)):
        if t[k] != v:
            yield dict(t, **{k: v})
