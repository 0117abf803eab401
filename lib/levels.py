"""Generated discrete-level schemes (the repository does not ship discreteLevels.dat).

A scheme is a dict zaid -> list of levels; a level is a dict
  E (MeV), J, P, T (half-life s), g: [(final, prob, icc), ...].
`dump` writes the fixed-column format that the code reads; `model` gives what a reader of
that file must understand (normalised branches, gamma ratio, default transitions)."""
import math, random

ELEMS = range(26, 73)


def nuclei(zmin=28, zmax=68):
    """a band of fragment nuclei around the fission-fragment valley"""
    out = []
    for z in range(zmin, zmax + 1):
        zp = z * 2.52
        for a in range(int(zp) - 9, int(zp) + 14):
            if a > z + 20 and a < 2.9 * z + 4:
                out.append((z, a))
    return out


def fmt_level(l):
    s = "%10.6f%5.1f%3d%13.5e%3d" % (l["E"], l["J"], l["P"], l["T"], len(l["g"]))
    lines = [s]
    for (f, p, icc) in l["g"]:
        lines.append("%3d%9.3e%10.3e" % (f, p, icc))
    return lines


def dump(scheme, path, comments=True):
    with open(path, "w") as fp:
        if comments:
            fp.write("# synthetic level file\n")
        for zaid in scheme:
            lv = scheme[zaid]
            fp.write("%6s%6d%5d\n" % ("", zaid, len(lv)))
            for l in lv:
                fp.write("\n".join(fmt_level(l)) + "\n")


def q(x, fmt):
    return float(fmt % x)


def random_nucleus(r, z, a, *, icc="none", iso_p=0.0, nmax=12, dup=False, gaps=(0.02, 0.6), nogam_p=0.0, tscale=(-12, 3)):
    odd = a % 2
    n = r.choice([1, 2, 3, nmax // 2, nmax]) if nmax > 3 else r.randint(1, nmax)
    n = max(1, min(n, nmax))
    lv = []
    e = 0.0
    for i in range(n):
        if i > 0:
            e = q(e + r.uniform(*gaps), "%.6f")
        jmax = 3 + i
        J = (0.5 if odd else 0.0) + r.randint(0, min(jmax, 9))
        if i == 0 and not odd and z % 2 == 0:
            J, P = 0.0, 1
        else:
            P = r.choice([-1, 1])
        T = 0.0
        if i > 0 and r.random() < iso_p:
            T = q(10 ** r.uniform(*tscale), "%.5e")
        g = []
        if i > 0 and r.random() >= nogam_p:
            k = min(i, r.randint(1, 4))
            fs = sorted(r.sample(range(i), k))
            for f in fs:
                p = q(r.uniform(0.01, 1.0), "%.3e")
                if icc == "none":
                    c = 0.0
                else:
                    c = r.choice([0.0, q(10 ** r.uniform(-3, 1.5), "%.3e")])
                g.append((f, p, c))
        lv.append(dict(E=e, J=J, P=P, T=T, g=g))
    return lv


def random_scheme(r, **kw):
    drop = kw.pop("drop", 0.0)
    only = kw.pop("only", None)
    sch = {}
    for (z, a) in (only or nuclei()):
        if r.random() < drop:
            continue
        sch[1000 * z + a] = random_nucleus(r, z, a, **kw)
    return sch


def default_scheme_level(z, a):
    """what a nucleus absent from the file is given: a ground state only"""
    n = a - z
    J = 0.0 if (z % 2 == 0 and n % 2 == 0) else (1.0 if (z % 2 and n % 2) else 0.5)
    return [dict(E=0.0, J=J, P=1, T=0.0, g=[])]


def model(lv):
    """Normalised branches as the reader must understand them: list of [(final, branch, gratio)]"""
    out = []
    for i, l in enumerate(lv):
        g = l["g"]
        if not g:
            g = fix_transition(lv, i)
        s = sum(p for _, p, _ in g)
        if not g:
            out.append([(0, 1.0, 1.0)])
        elif s == 0.0:
            out.append([(f, 1.0 / len(g), 1.0) for f, p, c in g])
        else:
            out.append([(f, p / s, 1.0 / (1.0 + c)) for f, p, c in g])
    return out


def fix_transition(lv, k):
    """default decay when the file gives no gamma: to the ground state from the first excited state,
    equally to all lower states reachable by E1, otherwise to the lowest of closest spin"""
    if k == 0:
        return []
    if k == 1:
        return [(0, 1.0, 0.0)]
    s, p = lv[k]["J"], lv[k]["P"]
    res, dm = [], 100
    for i in range(k):
        if s == 0.0 and lv[i]["J"] == 0.0:
            continue
        dj = int(abs(lv[i]["J"] - s))
        dm = min(dm, dj)
        if lv[i]["P"] != p and dj <= 1:
            res.append((i, 1.0, 0.0))
    if not res:
        for i in range(k):
            if s == 0.0 and lv[i]["J"] == 0.0:
                continue
            if int(abs(lv[i]["J"] - s)) == dm:
                return [(i, 1.0, 0.0)]
    return res
