"""Independent model of history/yields files for the analysis package: generator, writer, reference observables."""
import bisect, contextlib, io, math, os, sys, tempfile, warnings
import build as B

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
ISO = [(92235, 1), (92238, 1), (94239, 1), (98252, 0), (94240, 0), (93237, 1), (94242, 0)]


def package():
    p = os.path.join(B.REPO, "tools")
    if p not in sys.path:
        sys.path.insert(0, p)
    import CGMFtk.histories as h, CGMFtk.yields as y
    return h, y


# ---------------------------------------------------------------- generator
def num(r, lo, hi):
    x = r.uniform(lo, hi)
    f = r.choice(["%.3f", "%.5f", "%.6e", "%.9g", "%.4f", "%.12g"])
    return f % x


def logn(r, a, b):
    return r.choice(["%.3e", "%.6e", "%.9g", "%.12g"]) % 10 ** r.uniform(a, b)


def dircos(r):
    c = r.uniform(-1, 1)
    p = r.uniform(0, 2 * math.pi)
    s = math.sqrt(1 - c * c)
    if r.random() < 0.05:
        c, s = r.choice([(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0)])
    return ["%.6f" % (s * math.cos(p)), "%.6f" % (s * math.sin(p)), "%.6f" % c]


def gen_model(r, nev=None):
    iso, nin = r.choice(ISO)
    z, a = divmod(iso, 1000)
    e = num(r, 0.01, 20) if nin else "0"
    ac = a + nin
    time = r.choice(["-1", "1e-08", "0", None, "-1", "1.5e-07", "-1"])
    nev = nev or r.choice([1, 1, 2, 3, 5, 8, 13, 20, 20, 60])
    pat = r.choice(["rand", "rand", "rand", "zero", "equal", "lightonly", "heavyonly", "few", "gzero"])
    keq, geq = r.randint(0, 4), r.randint(0, 6)
    prep = r.choice([0.0, 0.0, 0.3, 1.0]) if nin else 0.0
    amin = r.choice([None, r.randint(80, 118)])
    evs = []
    for _ in range(nev):
        npn = r.choice([1, 1, 2, 2, 3, 4, 5]) if r.random() < prep else 0
        al = (amin + r.randint(0, 3)) if amin else r.randint(70, (ac - npn) // 2)
        al = min(al, (ac - npn) // 2)
        zl = int(round(al * z / ac)) + r.randint(-2, 2)
        ev = dict(l=None, h=None, pre=[dircos(r) + [logn(r, -2, 1)] for _ in range(npn)])
        for k, (aa, zz) in (("l", (al, zl)), ("h", (ac - npn - al, z - zl))):
            nn, ng = r.choice([0, 1, 1, 2, 2, 3, 5]), r.choice([0, 1, 2, 3, 5, 8, 12])
            if pat == "zero":
                nn = ng = 0
            elif pat == "equal":
                nn, ng = keq, geq
            elif pat == "lightonly" and k == "h":
                nn = ng = 0
            elif pat == "heavyonly" and k == "l":
                nn = ng = 0
            elif pat == "few" and r.random() < 0.8:
                nn = ng = 0
            elif pat == "gzero":
                ng = 0
            lines = [r.uniform(0.1, 3) for _ in range(4)]
            ev[k] = dict(A=aa, Z=zz, U=num(r, 0, 40), J="%.1f" % (r.randint(0, 40) / 2), P=r.choice([1, -1]), KE=num(r, 40, 120), KEp=num(r, 40, 120),
                         pre=[num(r, -4000, 4000) for _ in range(3)], post=[num(r, -4000, 4000) for _ in range(3)],
                         ncm=[dircos(r) + [logn(r, -3, 1.2)] for _ in range(nn)], nlab=[dircos(r) + [logn(r, -3.3, 1.4)] for _ in range(nn)],
                         g=[dircos(r) + ["%.5f" % r.choice(lines) if r.random() < 0.5 else logn(r, -2, 1.1)]
                            + ([r.choice(["0", "0", logn(r, -12, 3), logn(r, -10, -6)])] if time and float(time) < 0 else []) for _ in range(ng)])
        evs.append(ev)
    return dict(iso=iso, e=e, time=time, evs=evs)


def write(m, path):
    with open(path, "w") as f:
        f.write("# %d %s%s\n" % (m["iso"], m["e"], "" if m["time"] is None else " " + m["time"]))
        for ev in m["evs"]:
            for k in ("l", "h"):
                x = ev[k]
                f.write(" %d %d %s %s %d %s %s %d %d %d\n" % (x["A"], x["Z"], x["U"], x["J"], x["P"], x["KE"], x["KEp"], len(x["nlab"]), len(x["g"]), len(ev["pre"]) if k == "h" else 0))
                f.write(" ".join(x["pre"] + x["post"]) + "\n")
                if x["nlab"]:
                    f.write(" ".join(t for n in x["ncm"] for t in n) + "\n")
                    f.write(" ".join(t for n in x["nlab"] for t in n) + "\n")
                if x["g"]:
                    f.write(" ".join(t for n in x["g"] for t in n) + "\n")
            if ev["pre"]:
                f.write(" ".join(t for n in ev["pre"] for t in n) + "\n")


def parse(text):
    """independent parser of a history file the program wrote (token stream, counts from the fragment headers)"""
    lines = text.split("\n")
    h = lines[0].lstrip("#").split()
    m = dict(iso=int(h[0]), e=h[1], time=h[2] if len(h) > 2 else None, evs=[])
    w = 5 if m["time"] and float(m["time"]) < 0 else 4
    i = 1
    while i < len(lines) and lines[i].strip():
        ev = dict(pre=[])
        for k in ("l", "h"):
            t = lines[i].split(); i += 1
            x = dict(A=int(t[0]), Z=int(t[1]), U=t[2], J=t[3], P=int(t[4]), KE=t[5], KEp=t[6])
            nn, ng, npn = int(t[7]), int(t[8]), int(t[9])
            p = lines[i].split(); i += 1
            x["pre"], x["post"] = p[:3], p[3:6]
            x["ncm"] = x["nlab"] = x["g"] = []
            if nn:
                for q in ("ncm", "nlab"):
                    p = lines[i].split(); i += 1
                    x[q] = [p[4 * j:4 * j + 4] for j in range(nn)]
            if ng:
                p = lines[i].split(); i += 1
                x["g"] = [p[w * j:w * j + w] for j in range(ng)]
            if npn:
                p = lines[i].split(); i += 1
                ev["pre"] = [p[4 * j:4 * j + 4] for j in range(npn)]
            ev[k] = x
        m["evs"].append(ev)
    return m


class N:
    """numbers of a model: one record per fragment, floats from the text"""
    def __init__(s, m, nev=None):
        s.m = m
        s.evs = m["evs"] if nev is None else m["evs"][:nev]
        F = float
        s.fr = []
        s.time = F(m["time"]) if m["time"] is not None else 0
        for i, ev in enumerate(s.evs):
            for k in ("l", "h"):
                x = ev[k]
                s.fr.append(dict(ev=i, A=x["A"], Z=x["Z"], U=F(x["U"]), J=F(x["J"]), P=x["P"], KE=F(x["KE"]), KEp=F(x["KEp"]), pre=[F(t) for t in x["pre"]], post=[F(t) for t in x["post"]],
                                 nEcm=[F(n[3]) for n in x["ncm"]], nDcm=[[F(t) for t in n[:3]] for n in x["ncm"]],
                                 nE=[F(n[3]) for n in x["nlab"]], nD=[[F(t) for t in n[:3]] for n in x["nlab"]],
                                 g=[F(n[3]) for n in x["g"]], t=[F(n[4]) if len(n) > 4 else 0.0 for n in x["g"]]))
        s.L, s.H = s.fr[::2], s.fr[1::2]
        s.preE = [[F(n[3]) for n in ev["pre"]] for ev in s.evs]
        s.preD = [[[F(t) for t in n[:3]] for n in ev["pre"]] for ev in s.evs]
        s.ne = len(s.evs)


def mean(x):
    x = list(x)
    return math.fsum(x) / len(x) if x else None


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*a, **k)


# ---------------------------------------------------------------- comparison
def plain(x):
    if hasattr(x, "tolist"):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def same(a, b, tol):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(b, (int, float)) and isinstance(a, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        return abs(a - b) <= tol * max(1.0, abs(b)) if tol else a == b
    return a == b


def reading(n):
    """what every getter must return, from the model"""
    fr, L, H = n.fr, n.L, n.H
    col = lambda fs, k: [f[k] for f in fs]
    w = dict(getNumberFragments=2 * n.ne, getNumberEvents=n.ne, getTimeCoincidenceWindow=n.time)
    for nm, k in (("A", "A"), ("Z", "Z"), ("U", "U"), ("J", "J"), ("P", "P")):
        w["get" + nm] = col(fr, k)
        w["get" + nm + "LF"] = col(L, k)
        w["get" + nm + "HF"] = col(H, k)
    w["getN"] = [f["A"] - f["Z"] for f in fr]
    w["getNLF"] = [f["A"] - f["Z"] for f in L]
    w["getNHF"] = [f["A"] - f["Z"] for f in H]
    w["getKEpre"], w["getKEpost"], w["getKELF"], w["getKEHF"] = col(fr, "KE"), col(fr, "KEp"), col(L, "KE"), col(H, "KE")
    w["getNu"], w["getNuLF"], w["getNuHF"] = [len(f["nE"]) for f in fr], [len(f["nE"]) for f in L], [len(f["nE"]) for f in H]
    w["getNug"], w["getNugLF"], w["getNugHF"] = [len(f["g"]) for f in fr], [len(f["g"]) for f in L], [len(f["g"]) for f in H]
    w["getNuEvent"] = [len(a["nE"]) + len(b["nE"]) for a, b in zip(L, H)]
    w["getNutot"] = [len(a["nE"]) + len(b["nE"]) + len(p) for a, b, p in zip(L, H, n.preE)]
    w["getNugtot"] = [len(a["g"]) + len(b["g"]) for a, b in zip(L, H)]
    w["getPreFissionNu"] = [len(p) for p in n.preE]
    w["getNeutronElab"], w["getNeutronEcm"], w["getGammaElab"], w["getGammaAges"] = col(fr, "nE"), col(fr, "nEcm"), col(fr, "g"), col(fr, "t")
    w["getLabNeutronDircos"], w["getcmNeutronDircos"] = col(fr, "nD"), col(fr, "nDcm")
    w["getFragmentMomentumPre"], w["getFragmentMomentumPost"] = col(fr, "pre"), col(fr, "post")
    w["getTKEpre"] = [a["KE"] + b["KE"] for a, b in zip(L, H)]
    w["getTKEpost"] = [a["KEp"] + b["KEp"] for a, b in zip(L, H)]
    w["getTXE"] = [a["U"] + b["U"] for a, b in zip(L, H)]
    return w


SUMS = ("getTKEpre", "getTKEpost", "getTXE")


def check_reading(m, nev, fail):
    hs, _ = package()
    fd, p = tempfile.mkstemp(prefix="vptk_")
    os.close(fd)
    try:
        write(m, p)
        if m.get("text"):
            open(p, "w").write(m["text"])
        try:
            h = quiet(hs.Histories, p, **({} if nev is None else dict(nevents=nev)))
        except (Exception, SystemExit) as e:
            fail("read-raises", "reading a well-formed file of %d events (nevents=%s) ends with %s: %s" % (len(m["evs"]), nev, type(e).__name__, str(e)[:150]))
            return 0
        n = N(m, nev)
        cnt = 0
        for g, want in reading(n).items():
            try:
                got = plain(getattr(h, g)())
            except Exception as e:
                fail("getter-raises-" + g, "%s() raises %s: %s" % (g, type(e).__name__, str(e)[:100]))
                continue
            cnt += 1
            if not same(got, want, 1e-12 if g in SUMS else 0):
                fail("getter-" + g, "%s() is %s, the file says %s" % (g, str(got)[:160], str(want)[:160]))
        for g, want in (("getPreFissionNeutronElab", n.preE), ("getPreFissionNeutronDircos", n.preD)):
            got = plain(getattr(h, g)())
            cnt += 1
            # events without pre-fission neutrons hold a placeholder; only the events that have some are compared
            if len(got) != n.ne or any(w and not same(g2, w, 0) for g2, w in zip(got, want)):
                fail("getter-" + g, "%s() is %s, the file says %s" % (g, str(got)[:160], str(want)[:160]))
        return cnt
    finally:
        os.unlink(p)


# ---------------------------------------------------------------- observables
def gen_args(r, n):
    gs = [x for f in n.fr for x in f["g"]]
    ts = [x for f in n.fr for x in f["t"]]
    eths = [r.uniform(0.001, 5) for _ in range(2)] + [r.choice([0.0, 100.0, 1e-6])]
    f = r.choice(n.fr)
    egs = []
    for _ in range(r.randint(1, 3)):
        # energies are kept off the edges of the acceptance windows by the irrational-looking widths
        egs.append([r.choice(gs) if gs and r.random() < 0.8 else r.uniform(0.05, 5), r.choice([1e-4, 0.0123457, 0.1000003, 0.3333331]) * r.uniform(0.9, 1.1)])
    if r.random() < 0.5 and f["g"]:
        egs = [[x * (1 + 1e-7), r.uniform(1e-3, 0.05)] for x in f["g"][:2]]
    # thresholds and window limits that are exactly the energy or age of a particle of the file
    es = gs + [x for f1 in n.fr for x in f1["nE"]]
    for k in (0, 1):
        if es and r.random() < 0.4:
            eths[k] = r.choice(es)
    times, th = sorted(10 ** r.uniform(-11, 2) for _ in range(r.randint(1, 6))), 10 ** r.uniform(-10, 1)
    pos = sorted(x for x in ts if x > 0)
    t1 = 10 ** r.uniform(-10, -3)
    win = [t1, t1 * 10 ** r.uniform(0.3, 6)]
    if pos and r.random() < 0.5:
        k = r.randint(0, 2)
        a, b = r.choice(pos), r.choice(pos)
        w = [min(a, b), max(a, b)] if k == 2 else [a, a * 10 ** r.uniform(0.3, 6)] if k else [a / 10 ** r.uniform(0.3, 6), a]
        if w[1] > 2 * w[0]:
            win = w
        times = sorted(times + [r.choice(pos)])
        th = r.choice([th, r.choice(pos)])
    return dict(eth=eths, ez=[f["A"] - len(f["nE"]), f["Z"]], iso=[th, r.randint(0, 9) / 2, r.randint(0, 9) / 2],
                eg=egs, win=win, times=times, post=r.random() < 0.5)


def hist(vals, edges, density=False):
    c = [0] * (len(edges) - 1)
    for v in vals:
        i = bisect.bisect_right(edges, v) - 1
        if i == len(edges) - 1 and v == edges[-1]:
            i -= 1
        if 0 <= i < len(c):
            c[i] += 1
    return c


def logspace(a, b, k):
    return [10 ** (a + (b - a) * i / (k - 1)) for i in range(k)]


def unit(v):
    s = math.sqrt(sum(x * x for x in v))
    return [x / s for x in v]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def observables(n, a):
    """yield (name, args, kwargs, expected, mode); mode: '' plain value, 'xy' two arrays, 'ms' tuple of multisets"""
    fr, L, H = n.fr, n.L, n.H
    nu = [len(f["nE"]) for f in fr]
    ng = [len(f["g"]) for f in fr]
    npre = [len(p) for p in n.preE]
    nut = [nu[2 * i] + nu[2 * i + 1] + npre[i] for i in range(n.ne)]
    ngt = [ng[2 * i] + ng[2 * i + 1] for i in range(n.ne)]
    yield "nubar", (), {}, mean(nu), ""
    yield "nubartot", (), {}, mean(nut), ""
    yield "preFissionNubar", (), {}, mean(npre), ""
    yield "nubarg", (), {}, mean(ng), ""
    yield "nubargtot", (), {}, mean(ngt), ""
    cut = lambda xs, e: sum(1 for x in xs if x >= e)
    for e in a["eth"]:
        yield "nubarg", (), dict(Eth=e), mean(cut(f["g"], e) for f in fr), ""
        yield "nubargtot", (), dict(Eth=e), sum(cut(f["g"], e) for f in fr) / n.ne, ""
        # these two do not say on which side a particle exactly at the threshold falls
        if e > 0 and not any(e in f["nE"] for f in fr):
            yield "getNuEnergyCut", (e,), {}, [cut(f["nE"], e) for f in fr], ""
        if e > 0 and not any(e in f["g"] for f in fr):
            yield "getNugEnergyCut", (e,), {}, [cut(f["g"], e) for f in fr], ""
    pt = [(g, t) for f in fr for g, t in zip(f["g"], f["t"])]
    for tw in (a["times"], True):
        for e in (None, a["eth"][0]):
            ts = logspace(-9, 0, 15) if tw is True else tw
            cnt = [sum(1 for g, t in pt if t <= x and (e is None or g >= e)) for x in ts]
            kw = dict(timeWindow=tw)
            if e is not None:
                kw["Eth"] = e
            if any(abs(t / x - 1) < 1e-9 and (tw is True or t != x) for x in ts for _, t in pt if x):
                continue
            yield "nubarg", (), kw, [ts, [c / len(fr) for c in cnt]], "xy"
            yield "nubargtot", (), kw, [ts, [c / n.ne for c in cnt]], "xy"
    allp = [x for p in n.preE for x in p]
    for nm, xs in (("meanNeutronElab", [x for f in fr for x in f["nE"]] + allp), ("meanNeutronElabLF", [x for f in L for x in f["nE"]]), ("meanNeutronElabHF", [x for f in H for x in f["nE"]]),
                   ("meanNeutronElabFragments", [x for f in fr for x in f["nE"]]), ("meanNeutronEcmFragments", [x for f in fr for x in f["nEcm"]]),
                   ("meanNeutronEcmLF", [x for f in L for x in f["nEcm"]]), ("meanNeutronEcmHF", [x for f in H for x in f["nEcm"]]),
                   ("meanGammaElab", [x for f in fr for x in f["g"]]), ("meanGammaElabLF", [x for f in L for x in f["g"]]), ("meanGammaElabHF", [x for f in H for x in f["g"]])):
        if xs:
            yield nm, (), {}, mean(xs), ""
    yield "meanPreFissionNeutronElab", (), {}, mean(allp) or 0.0, ""

    def prob(c):
        k = max(c)
        return [list(range(k + 1)), [c.count(i) / len(c) for i in range(k + 1)]]
    yield "Pnu", (), {}, prob(nut), "xy"
    yield "Pnug", (), {}, prob(ngt), "xy"
    for e in a["eth"]:
        yield "Pnu", (), dict(Eth=e), prob([cut(L[i]["nE"] + H[i]["nE"] + n.preE[i], e) for i in range(n.ne)]), "xy"
        yield "Pnug", (), dict(Eth=e), prob([cut(L[i]["g"] + H[i]["g"], e) for i in range(n.ne)]), "xy"
    tke = [L[i]["KE"] + H[i]["KE"] for i in range(n.ne)]

    def byA(q):
        As = [f["A"] for f in fr]
        xs = list(range(min(As), max(As) + 1))
        return [xs, [mean([v for f, v in zip(fr, q) if f["A"] == x]) or 0.0 for x in xs]]
    yield "nubarA", (), {}, byA(nu), "xy"
    yield "nubargA", (), {}, byA(ng), "xy"
    yield "nubargA", (a["eth"][0],), {}, byA([cut(f["g"], a["eth"][0]) for f in fr]), "xy"
    yield "UA", (), {}, byA([f["U"] for f in fr]), "xy"
    yield "spinA", (), {}, byA([f["J"] for f in fr]), "xy"
    yield "TKEA", (), {}, byA([tke[f["ev"]] for f in fr]), "xy"
    t0 = min(tke)
    if all(abs(t - t0 - round(t - t0)) > 1e-9 or t == t0 for t in tke):
        def byT(q, per):
            k = int(max(tke) - t0) + 1
            return [[t0 + i for i in range(k)], [mean([v for v, t in zip(q, per) if int(t - t0) == i]) or 0.0 for i in range(k)]]
        ft = [tke[f["ev"]] for f in fr]
        yield "nubarTKE", (), {}, byT([nu[2 * i] + nu[2 * i + 1] for i in range(n.ne)], tke), "xy"
        yield "nubargTKE", (), {}, byT(ngt, tke), "xy"
        yield "UTKE", (), {}, byT([f["U"] for f in fr], ft), "xy"
        yield "spinTKE", (), {}, byT([f["J"] for f in fr], ft), "xy"

    def spec(vals, lo, hi, k, factor):
        ed = logspace(lo, hi, k)
        if any(abs(v / x - 1) < 1e-9 for v in vals for x in ed):
            return None
        h = hist(vals, ed)
        t = sum(h)
        if not t:
            return None
        return [[(p + q) / 2 for p, q in zip(ed, ed[1:])], [c / (q - p) / t * factor for c, p, q in zip(h, ed, ed[1:])]]
    alln = [x for f in fr for x in f["nE"]] + allp
    for e in [None] + a["eth"]:
        s = spec([x for x in alln if x >= (e or 0)], -3, 2, 100, 1.0)
        if s:
            yield "pfns", (), dict(Eth=e), s, "xy"
        s = spec([g for g, t in pt if g >= (e or 0)], -1, 1, 200, mean(ngt))
        if s:
            yield "pfgs", (), dict(Eth=e), s, "xy"
        s = spec([g for g, t in pt if g >= (e or 0) and a["win"][0] <= t <= a["win"][1]], -1, 1, 200, mean(ngt))
        if s:
            yield "pfgs", (), dict(Eth=e, minTime=a["win"][0], maxTime=a["win"][1]), s, "xy"
    yield "FFangles", (), {}, [unit(f["post"])[2] for f in fr], ""
    yield "FFangles", (), dict(afterEmission=True), [unit(f["post"])[2] for f in fr], ""
    yield "FFangles", (), dict(afterEmission=False), [unit(f["pre"])[2] for f in fr], ""
    for e in (None, a["eth"][0], a["eth"][2]):
        ee = e or 0.0
        for lab in (None, True, False):
            for inc in (None, True, False):
                if lab is False and inc is True:
                    continue        # documented for the laboratory frame only
                E, D = ("nE", "nD") if lab is not False else ("nEcm", "nDcm")
                l = [d[2] for f in L for d, x in zip(f[D], f[E]) if x >= ee]
                h = [d[2] for f in H for d, x in zip(f[D], f[E]) if x >= ee]
                p = [d[2] for ds, xs in zip(n.preD, n.preE) for d, x in zip(ds, xs) if x >= ee] if lab is not False and inc is not False else []
                yield "nangles", (), dict(Eth=e, lab=lab, includePrefission=inc), [l + h + p, l, h], "ms"
        for aft in (None, True, False):
            for inc in (None, False):
                ax = [unit(f["post" if aft is not False else "pre"]) for f in L]
                l = [dot(d, ax[f["ev"]]) for f in L for d, x in zip(f["nD"], f["nE"]) if x >= ee]
                h = [dot(d, ax[f["ev"]]) for f in H for d, x in zip(f["nD"], f["nE"]) if x >= ee]
                p = [dot(d, ax[i]) for i in range(n.ne) for d, x in zip(n.preD[i], n.preE[i]) if x >= ee] if inc is not False else []
                yield "nFangles", (), dict(Eth=e, afterEmission=aft, includePrefission=inc), [l + h + p, l, h], "ms"
    for kw, D in (({}, "nD"), (dict(lab=True), "nD"), (dict(cm=True), "nDcm")):
        pair = lambda fs: [dot(f[D][j], f[D][k]) for f in fs for j in range(len(f[D])) for k in range(j + 1, len(f[D]))]
        yield "nnangles", (), kw, [pair(L), pair(H), pair(L) + pair(H)], "ms"
    eg, de = [x[0] for x in a["eg"]], [x[1] for x in a["eg"]]
    if not any(abs(abs(g - x) - d) < 1e-9 for g, t in pt for x, d in a["eg"]):
        ok = [f for f in fr if all(any(x - d <= g <= x + d for g in f["g"]) for x, d in a["eg"])]
        for post in (True, False):
            want = [[f["Z"], f["A"] - (len(f["nE"]) if post else 0)] for f in ok]
            yield "gammaSpec", (eg, de), dict(post=post), want, "rows"
        f1 = [f for f in fr if any(eg[0] - de[0] <= g <= eg[0] + de[0] for g in f["g"])]
        yield "gammaSpec", (eg[0], de[0]), {}, [[f["Z"], f["A"] - len(f["nE"])] for f in f1], "rows"
    for kw in ({}, dict(minTime=a["win"][0], maxTime=a["win"][1])):
        for e in (None, a["eth"][1]):
            for az in (None, a["ez"]):
                k2 = dict(kw)
                if e is not None:
                    k2["Eth"] = e
                if az:
                    k2.update(Afragment=az[0], Zfragment=az[1])
                v = [t for f in fr if not az or (f["A"] - len(f["nE"]), f["Z"]) == tuple(az) for g, t in zip(f["g"], f["t"]) if g >= (e or 0)]
                yield "gammaMultiplicity", (), k2, (v, kw.get("minTime", 1e-8), kw.get("maxTime", 100.0)), "lin"
    sel = [f for f in fr if (f["A"] - len(f["nE"]), f["Z"]) == tuple(a["ez"])]
    th, jm, jg = a["iso"]
    r = sum(1 for f in sel if any(t >= th for t in f["t"])) / len(sel)
    yield "isomericRatio", (th, a["ez"][0], a["ez"][1], jm, jg), {}, r if jm > jg else 1 - r, ""
    tab = [[mean(f["A"] for f in s) for s in (fr, L, H)], [mean(f["Z"] for f in s) for s in (fr, L, H)],
           [mean(x["U"] + y["U"] for x, y in zip(L, H)), mean(f["U"] for f in L), mean(f["U"] for f in H)],
           [mean(tke), mean(f["KE"] for f in L), mean(f["KE"] for f in H)], [mean(f["J"] for f in s) for s in (fr, L, H)], [mean(f["P"] for f in s) for s in (fr, L, H)],
           [mean([x - p for x, p in zip(nut, npre)]), mean(nu[::2]), mean(nu[1::2]), mean(npre), mean(nut)],
           [mean(x for f in s for x in f["nEcm"]) for s in (fr, L, H)],
           [mean(x for f in s for x in f["nE"]) for s in (fr, L, H)] + [mean(allp) or 0.0, mean(alln)],
           [mean(ngt), mean(ng[::2]), mean(ng[1::2])], [mean(x for f in s for x in f["g"]) for s in (fr, L, H)]]
    yield "summaryTable", (), {}, tab, "table"


def judge(h, name, args, kw, want, mode):
    """None when the value equals its definition, else a text"""
    import numpy as np
    kw = dict(kw)
    if isinstance(kw.get("timeWindow"), list):
        kw["timeWindow"] = np.array(kw["timeWindow"])
    try:
        got = quiet(getattr(h, name), *args, **kw)
    except (Exception, SystemExit) as e:
        return "raises %s: %s" % (type(e).__name__, str(e)[:120])
    if mode == "table":
        rows = [list(r) for r in got][1:]
        if len(rows) != len(want):
            return "has %d rows, expected %d" % (len(rows), len(want))
        for row, w in zip(rows, want):
            cells = row[1:]
            if len(cells) != len(w):
                return "row %r has %d values, expected %d" % (row[0], len(cells), len(w))
            for c, v in zip(cells, w):
                if v is None:
                    continue
                c = c.strip()
                dec = len(c.split(".")[1]) if "." in c else 0
                if not abs(float(c) - v) <= 0.5000001 * 10 ** -dec + 1e-9:
                    return "row %r says %s, the events give %r" % (row[0], c, v)
        return None
    got = plain(got)
    if mode == "ms":
        if not isinstance(got, list) or len(got) != len(want):
            return "gives %s" % str(got)[:100]
        for k, (g, w) in enumerate(zip(got, want)):
            if not same(sorted(g), sorted(w), 1e-9):
                return "part %d has %d values %s, definition gives %d: %s" % (k, len(g), str(sorted(g))[:100], len(w), str(sorted(w))[:100])
        return None
    if mode == "rows":
        if sorted(map(tuple, got)) != sorted(map(tuple, want)):
            return "gives %s, definition %s" % (str(got)[:120], str(want)[:120])
        return None
    if mode == "lin":
        v, lo, hi = want
        c, k = got
        if len(c) != len(k) or not c:
            return "gives %d bins and %d values" % (len(c), len(k))
        w = (hi - lo) / len(c)
        ed = [lo + i * w for i in range(len(c))] + [hi]
        if any(abs(x - (ed[i] + ed[i + 1]) / 2) > 1e-9 * hi for i, x in enumerate(c)):
            return "bin centres %s do not divide [%g, %g] evenly" % (str(c)[:60], lo, hi)
        if any(abs(t - x) < 1e-9 * hi for t in v for x in ed[1:-1]) or any(abs(t / x - 1) < 1e-9 for t in v for x in (lo, hi)):
            return None
        if hist(v, ed) != k:
            return "counts %s (sum %d), definition %d" % ([x for x in k if x][:8], sum(k), sum(hist(v, ed)))
        return None
    if not same(got, plain(want), 1e-9):
        if mode == "xy" and isinstance(got, list) and len(got) == 2 and isinstance(got[1], list):
            j = next((i for i in range(min(len(got[1]), len(want[1]))) if not same(got[1][i], want[1][i], 1e-9)), None)
            return "gives %d points%s, definition %d points%s" % (len(got[1]), "" if j is None else " (at x=%s: %s)" % (got[0][j], got[1][j]), len(want[1]), "" if j is None else " (at x=%s: %s)" % (want[0][j], want[1][j]))
        return "gives %s, definition %s" % (str(got)[:120], str(want)[:120])
    return None


def check_observables(m, args, fail, count):
    hs, _ = package()
    fd, p = tempfile.mkstemp(prefix="vptk_")
    os.close(fd)
    try:
        write(m, p)
        try:
            h = quiet(hs.Histories, p)
        except (Exception, SystemExit) as e:
            fail("read-raises", "reading a well-formed file of %d events ends with %s: %s" % (len(m["evs"]), type(e).__name__, str(e)[:150]))
            return
        n = N(m)
        # the observables are evaluated twice in opposite orders: none may disturb another
        obs = list(observables(n, args))
        for rnd, seq in (("", obs), (" (second evaluation)", obs[::-1])):
            for name, a, kw, want, mode in seq:
                t = judge(h, name, a, kw, want, mode)
                count(name, want)
                if t:
                    fail("obs-" + name + ("-again" if rnd else ""), "%s%r%s%s %s" % (name, a, "" if not kw else " " + repr({k: v for k, v in kw.items() if v is not None}), rnd, t))
    finally:
        os.unlink(p)


# ---------------------------------------------------------------- yields files
def gen_yields(r):
    nev = r.choice([1, 1, 2, 3, 10, 50, 200])
    rows = []
    for _ in range(nev):
        al = r.randint(70, 118)
        ah = r.choice([236, 240, 252]) - al
        for a in (al, ah):
            rows.append([str(int(a * 0.4) + r.randint(-2, 2)), str(a), num(r, 40, 120), num(r, 0, 50), "%g" % (r.randint(0, 60) / 2), str(r.choice([1, -1]))] + [num(r, -4000, 4000) for _ in range(3)])
    return dict(rows=rows, sep=r.choice([" ", "  ", " "]), tail=r.choice([" ", ""]))


def check_yields(m, nev, fail):
    _, ys = package()
    fd, p = tempfile.mkstemp(prefix="vptk_")
    os.close(fd)
    try:
        with open(p, "w") as f:
            if m.get("text"):
                f.write(m["text"])
            else:
                for row in m["rows"]:
                    f.write(m["sep"].join(row) + m["tail"] + "\n")
        try:
            h = quiet(ys.Yields, p, **({} if nev is None else dict(nevents=nev)))
        except (Exception, SystemExit) as e:
            fail("read-raises", "reading a well-formed yields file of %d events (nevents=%s) ends with %s: %s" % (len(m["rows"]) // 2, nev, type(e).__name__, str(e)[:150]))
            return 0
        R = [[float(t) for t in row] for row in (m["rows"] if nev is None else m["rows"][:2 * nev])]
        c = lambda k, s=slice(None): [x[k] for x in R][s]
        ev, od = slice(0, None, 2), slice(1, None, 2)
        w = dict(getNumberFragments=len(R), getNumberEvents=len(R) // 2, getN=[x[1] - x[0] for x in R], getFragmentMomentum=[x[6:9] for x in R],
                 getTKE=[a + b for a, b in zip(c(2, ev), c(2, od))], getTXE=[a + b for a, b in zip(c(3, ev), c(3, od))], getFissionYields=R)
        for nm, k in (("Z", 0), ("A", 1), ("KE", 2), ("U", 3), ("J", 4), ("P", 5)):
            w["get" + nm], w["get" + nm + "LF"], w["get" + nm + "HF"] = c(k), c(k, ev), c(k, od)
        for g, want in w.items():
            try:
                got = plain(getattr(h, g)())
            except Exception as e:
                fail("getter-raises-" + g, "%s() raises %s: %s" % (g, type(e).__name__, str(e)[:100]))
                continue
            if not same(got, want, 1e-12 if g in ("getTKE", "getTXE") else 0):
                fail("getter-" + g, "%s() is %s, the file says %s" % (g, str(got)[:160], str(want)[:160]))
        tab = [[mean(c(k)), mean(c(k, ev)), mean(c(k, od))] for k in (1, 0)] + [[mean(w["getTXE"]), mean(c(3, ev)), mean(c(3, od))], [mean(w["getTKE"]), mean(c(2, ev)), mean(c(2, od))]] + \
              [[mean(c(k)), mean(c(k, ev)), mean(c(k, od))] for k in (4, 5)]
        t = judge(h, "summaryTable", (), {}, tab, "table")
        if t:
            fail("obs-summaryTable", "summaryTable %s" % t)
        return len(w) + 1
    finally:
        os.unlink(p)
