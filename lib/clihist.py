"""Runs of the command-line program: the history file and the summary against the events of the programming interface."""
import re, os, math
import cli, drv, gen, evt, hunt, intern
from core import Result, rng_for


def make_tasks(n, seed, tag, nmax, big=0):
    r = rng_for(tag, "cli", seed)
    intern.ready("i_scan")
    rx = gen.stratified(r, n)
    specs = evt.FULL + evt.ISO + evt.TINY
    ts = []
    for i, (iso, e) in enumerate(rx):
        k = r.choice([1, 2, r.randint(3, nmax), nmax, nmax])
        few = False
        if i < big:
            k = 1000
            if nmax < 50:
                iso, e = (94242, 0.0) if tag == "C10" else (92235, 2.53e-8)
        elif i % 9 == 4:                        # few particles: the averages divide by counts smaller than the number of events
            k, few = r.choice([2, 3]), True
        tw = r.choice([None, -1.0, -1.0, 0.0, 1e-8, 10 ** r.uniform(-10, 1)])
        s = r.choice([None, 1, 2, 100, r.randint(1, 2 * 10 ** 9)])
        if few:
            s = "quiet-%d" % r.randint(0, 10 ** 9)
        ts.append(dict(iso=iso, E=e, n=k, s=s, tw=tw, order=r.randint(0, 10 ** 6), defname=r.random() < 0.3, env=r.random() < 0.3,
                       scheme=dict(specs[i % len(specs)], seed="%s-cli-%d-%d" % (tag, seed, i))))
    return ts


def run_cli(t):
    r = rng_for("opts", t["order"])
    opts = [["-i", t["iso"]], ["-e", repr(t["E"])], ["-n", t["n"]]]
    if t["s"] is not None:
        opts.append(["-s", t["s"]])
    if t["tw"] is not None:
        opts.append(["-t", repr(t["tw"])])
    if not t["defname"]:
        opts.append(["-f", "ev"])
    r.shuffle(opts)
    args = [x for o in opts for x in o]
    with cli.Sandbox(t["scheme"]) as sb:
        o = sb.run(args, datadir=None if t["env"] else cli.DATA, env=dict(CGMFDATA=cli.DATA) if t["env"] else None, timeout=600)
    o.name = "histories.cgmf.0" if t["defname"] else "ev.0"
    o.text = o.files.get(o.name)
    tw = 1e-8 if t["tw"] is None else t["tw"]
    s = 1 if t["s"] is None else t["s"]
    evs = []
    with drv.Driver(evt.get_scheme(t["scheme"])) as d:
        for i in range(t["n"]):
            evs.append(d.event(t["iso"], t["E"], s + i, 0.0, tw))
    return o, evs, tw


class Bad(Exception):
    pass


def compare(text, t, evs, tw):
    """walk through the documented layout; raises Bad at the first difference"""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    it = iter(enumerate(lines, 1))

    def nxt(what):
        try:
            return next(it)
        except StopIteration:
            raise Bad("missing-line", "file ends where %s is expected" % what)

    def toks(n, what):
        no, l = nxt(what)
        f = l.split()
        if len(f) != n:
            raise Bad("layout", "line %d: %d values where %s has %d: %r" % (no, len(f), what, n, l[:80]))
        return no, f

    def near(tok, val, half, what, no, rel=0.0):
        try:
            x = float(tok)
        except ValueError:
            raise Bad("layout", "line %d: %s is not a number: %r" % (no, what, tok))
        if not abs(x - val) <= half * (1 + 1e-6) + 1e-9 + rel * abs(val):
            raise Bad("value", "line %d: %s is %s, the event has %r" % (no, what, tok, val))

    def integer(tok, val, what, no):
        if not re.fullmatch(r"-?\d+", tok) or int(tok) != val:
            raise Bad("value", "line %d: %s is %s, the event has %d" % (no, what, tok, val))
    no, l = nxt("header")
    f = l.split()
    if len(f) != 4 or f[0] != "#":
        raise Bad("header", "header %r" % l)
    integer(f[1], t["iso"], "target", no)
    near(f[2], t["E"], 0.0, "incident energy", no, rel=6e-6)
    near(f[3], tw, 0.0, "window", no, rel=6e-6)
    if tw == 0.0 and float(f[3]) != 0.0:
        raise Bad("header", "header %r" % l)
    for i, ev in enumerate(evs):
        for k in range(2):
            fr = ev.fr[k]
            w = "event %d %s fragment " % (i, "light heavy".split()[k])
            no, f = toks(10, w)
            for tok, v, nm in ((f[0], fr.A, "A"), (f[1], fr.Z, "Z"), (f[4], fr.P, "parity"), (f[7], fr.nu, "neutrons"), (f[8], fr.nug, "photons"),
                               (f[9], 0 if k == 0 else ev.npre, "pre-fission neutrons")):
                integer(tok, v, w + nm, no)
            near(f[2], fr.U, 5e-4, w + "U", no)
            near(f[3], fr.J, 0.05, w + "J", no)
            near(f[5], fr.KE, 5e-4, w + "KE", no)
            near(f[6], fr.KEpost, 5e-4, w + "KE after emission", no)
            no, f = toks(6, w + "momenta")
            for tok, v in zip(f, fr.pre + fr.post):
                near(tok, v, 5e-4, w + "momentum", no)
            ns = ev.neutrons(k)
            if ns:
                no, f = toks(4 * len(ns), w + "cm neutrons")
                for j, x in enumerate(ns):
                    for tok, v in zip(f[4 * j:4 * j + 4], (x[6], x[7], x[8], x[5])):
                        near(tok, v, 5e-4, w + "cm neutron %d" % j, no)
                no, f = toks(4 * len(ns), w + "lab neutrons")
                for j, x in enumerate(ns):
                    for tok, v in zip(f[4 * j:4 * j + 4], (x[1], x[2], x[3], x[0])):
                        near(tok, v, 5e-4, w + "lab neutron %d" % j, no)
            gs = ev.photons(k)
            if gs:
                m = 5 if tw < 0 else 4
                no, f = toks(m * len(gs), w + "photons")
                for j, x in enumerate(gs):
                    for tok, v in zip(f[m * j:m * j + 4], (x[1], x[2], x[3], x[0])):
                        near(tok, v, 5e-4, w + "photon %d" % j, no)
                    if m == 5:
                        near(f[m * j + 4], x[4], 0.0, w + "photon age %d" % j, no, rel=6e-6)
                        if (float(f[m * j + 4]) == 0) != (x[4] == 0):
                            raise Bad("value", "line %d: photon age" % no)
        if ev.npre:
            no, f = toks(4 * ev.npre, "event %d pre-fission neutrons" % i)
            for j, x in enumerate(ev.pre):
                for tok, v in zip(f[4 * j:4 * j + 4], (x[1], x[2], x[3], x[0])):
                    near(tok, v, 5e-4, "event %d pre-fission neutron %d" % (i, j), no)
    rest = [l for _, l in it if l.strip()]
    if rest:
        raise Bad("extra-lines", "%d lines after the last event: %r" % (len(rest), rest[0][:60]))


def averages(t, evs):
    n = len(evs)
    s = lambda f: sum(f(e) for e in evs)
    nuL, nuH, nuP = s(lambda e: e.fr[0].nu), s(lambda e: e.fr[1].nu), s(lambda e: e.npre)
    gL, gH = s(lambda e: e.fr[0].nug), s(lambda e: e.fr[1].nug)
    ecL, ecH = s(lambda e: sum(x[5] for x in e.neutrons(0))), s(lambda e: sum(x[5] for x in e.neutrons(1)))
    elL, elH = s(lambda e: sum(x[0] for x in e.neutrons(0))), s(lambda e: sum(x[0] for x in e.neutrons(1)))
    eP = s(lambda e: sum(x[0] for x in e.pre))
    egL, egH = s(lambda e: sum(x[0] for x in e.photons(0))), s(lambda e: sum(x[0] for x in e.photons(1)))
    KL, KH = s(lambda e: e.fr[0].KE) / n, s(lambda e: e.fr[1].KE) / n
    XL, XH = s(lambda e: e.fr[0].U) / n, s(lambda e: e.fr[1].U) / n
    JL, JH = s(lambda e: e.fr[0].J) / n, s(lambda e: e.fr[1].J) / n
    m = lambda a, b: a / max(b, 1)
    return [("Average Light Fragment (Z,A)", r"Average Light Fragment \(Z,A\) = \(%f,%f\)", [s(lambda e: e.fr[0].Z) / n, s(lambda e: e.fr[0].A) / n]),
            ("Average Heavy Fragment (Z,A)", r"Average Heavy Fragment \(Z,A\) = \(%f,%f\)", [s(lambda e: e.fr[1].Z) / n, s(lambda e: e.fr[1].A) / n]),
            ("kinetic energies", r"Average Kinetic Energies: LF = %f MeV ; HF = %f MeV ; <TKE> = %f MeV", [KL, KH, KL + KH]),
            ("excitation energies", r"Average Excitation Energies: LF = %f MeV ; HF = %f MeV ; <TXE> = %f MeV", [XL, XH, XL + XH]),
            ("spins", r"Average Fragment Spins: <J>_LF = %f hbar ; <J>_HF = %f hbar ; <J> = %f hbar", [JL, JH, (JL + JH) / 2]),
            ("neutron multiplicities", r"<nu>_LF = %f ; <nu>_HF = %f ; <nu>_prefission = %f ; <nu>_tot = %f", [nuL / n, nuH / n, nuP / n, (nuL + nuH + nuP) / n]),
            ("c-o-m energies", r"<Ecm>_LF = %f MeV ; <Ecm>_HF = %f MeV ; <Ecm>_prefission = %f MeV ; <Ecm>_tot = %f MeV",
             [m(ecL, nuL), m(ecH, nuH), m(eP, nuP), m(ecL + ecH + eP, nuL + nuH + nuP)]),
            ("lab energies", r"<Elab>_LF = %f MeV ; <Elab>_HF = %f MeV ; <Elab>_prefission = %f MeV ; <Elab>_tot = %f MeV",
             [m(elL, nuL), m(elH, nuH), m(eP, nuP), m(elL + elH + eP, nuL + nuH + nuP)]),
            ("photon multiplicities", r"<nu_g>_LF = %f ; <nu_g>_HF = %f ; <nu_g>_tot = %f", [gL / n, gH / n, (gL + gH) / n]),
            ("photon energies", r"<Eg>_LF = %f MeV ; <Eg>_HF = %f MeV ; <Eg>_tot = %f MeV", [m(egL, gL), m(egH, gH), m(egL + egH, gL + gH)])]


def check_summary(out, t, evs):
    z, a = divmod(t["iso"], 1000)
    if t["E"] == 0.0:
        ok = re.search(r"spontaneous fission of \(\s*%d,\s*%d\)" % (z, a), out)
    else:
        ok = re.search(r"\(n,f\) on \(\s*%d,\s*%d\) at En=\s*(\S+) MeV" % (z, a), out)
        ok = ok and abs(float(ok.group(1)) - t["E"]) <= 0.0051 * t["E"]
    if not ok:
        raise Bad("reaction", "the summary does not name the reaction %d E=%g: %r" % (t["iso"], t["E"], [l for l in out.split("\n") if "Reaction" in l]))
    num = r"(-?(?:\d+\.\d+|nan|inf))"
    for nm, pat, vals in averages(t, evs):
        # spacing is not part of the property
        rx = r"\s*".join(re.sub(r"%f", "@", p) for p in pat.split(" ")).replace("@", num)
        m = re.search(rx, out)
        if not m:
            raise Bad("summary-missing", "summary line for %s missing or malformed: %r" % (nm, [l for l in out.split("\n") if pat[:8].strip("<\\") in l]))
        for g, v in zip(m.groups(), vals):
            if not abs(float(g) - v) <= 0.005 + 1e-6 * (1 + abs(v)):
                raise Bad("summary-value", "%s: summary prints %s, the events average %.6f" % (nm, m.groups(), v))


def run(t, what):
    res = Result()
    if isinstance(t["s"], str):
        t = dict(t, s=hunt.quiet(t["iso"], t["E"], rng_for(t["s"]), t["n"]))
    try:
        o, evs, tw = run_cli(t)
    except drv.Died as x:
        res.case()
        res.fail("no-event", str(x)[:300], t)
        return res
    res.case(key=(t["iso"], t["E"], t["n"], t["s"], t["tw"]), nontrivial=any(e.nn + e.ng for e in evs), sample="%s" % o.cmd)
    res.add("events", len(evs)); res.add("runs")
    res.add("particles", sum(e.nn + e.ng + e.npre for e in evs))
    if o.rc != 0 or o.text is None:
        res.fail("run", "%s: rc=%s, files %s %s" % (o.cmd, o.rc, sorted(o.files), o.err[-200:]), t)
        return res
    try:
        if what == "file":
            compare(o.text, t, evs, tw)
        else:
            check_summary(o.out, t, evs)
    except Bad as b:
        res.fail(b.args[0], "%s: %s" % (o.cmd, b.args[1]), t)
    return res


def shrink(t):
    for n in (1, 2, 3, t["n"] // 2):
        if 0 < n < t["n"]:
            yield dict(t, n=n)
    if t["scheme"].get("levels") != {}:
        yield dict(t, scheme=dict(levels={}))
    for k, v in (("s", None), ("tw", None), ("defname", False), ("env", False), ("order", 0)):
        if t[k] != v:
            yield dict(t, **{k: v})


def yields_run(t):
    """a yields run writes exactly what the programming interface writes for the same random stream"""
    res = Result()
    with cli.Sandbox(scheme={}) as sb:
        args = ["-i", t["iso"], "-e", repr(t["E"]), "-n", -t["n"]] + (["-s", t["s"]] if t["s"] is not None else []) + ([] if t["defname"] else ["-f", "ev"])
        o = sb.run(args)
    text = o.files.get("yields.cgmf.0" if t["defname"] else "ev.0")
    res.case(key=("y", t["iso"], t["E"], t["n"], t["s"]), sample=o.cmd)
    res.add("yields_runs")
    if o.rc != 0 or text is None:
        res.fail("yields-run", "%s: rc=%s files %s" % (o.cmd, o.rc, sorted(o.files)), t)
        return res
    with drv.Driver({}) as d:
        d.cmd("yields %d %r %d %d y.out" % (t["iso"], t["E"], t["n"], t["s"] or 1))
        want = open(os.path.join(d.cwd, "y.out")).read()
    a, b = text.split("\n"), want.split("\n")
    if a != b:
        j = next((q for q in range(min(len(a), len(b))) if a[q] != b[q]), min(len(a), len(b)))
        res.fail("yields-file", "%s differs from the programming interface at line %d: %r / %r" % (o.cmd, j + 1, a[j:j + 1], b[j:j + 1]), t)
    if len([l for l in a if l.strip()]) != 2 * t["n"]:
        res.fail("yields-count", "%s writes %d lines, expected %d" % (o.cmd, len([l for l in a if l.strip()]), 2 * t["n"]), t)
    return res


def yields_tasks(n, seed, tag):
    r = rng_for(tag, "cliy", seed)
    return [dict(yields=True, iso=iso, E=e, n=r.choice([1, 2, r.randint(3, 300)]), s=r.choice([None, 1, r.randint(2, 10 ** 9)]), defname=r.random() < 0.3)
            for iso, e in gen.stratified(r, n)]
