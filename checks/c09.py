import math, os
import _path, cli, drv, gen, evt
from core import Check, Result, rng_for

SUP = set(gen.SF) | set(gen.NF)


def supported(iso, e):
    if iso in gen.SF:
        return e == 0.0
    if iso in gen.NF:
        return 0.0 < e <= 20.0
    return False


def gen_request(r):
    """requests on and around the supported set; some far away"""
    k = r.random()
    if k < 0.30:
        iso, e = gen.reaction(r)
        return iso, e
    iso = r.choice(sorted(SUP))
    x = r.random()
    if x < 0.35:
        pass
    elif x < 0.55:
        iso += r.choice([-2, -1, 1, 2])
    elif x < 0.65:
        iso += 1000 * r.choice([-1, 1])
    elif x < 0.72:
        iso = r.choice([0, 1, 1001, 92000, 99999, 98252098, 2147483647, 95241, 96244, 90232, 98250])
    elif x < 0.77:
        iso = -r.choice(gen.NF)
    elif x < 0.85:
        iso = r.randint(80000, 110000)
    y = r.random()
    if y < 0.25:
        e = 0.0
    elif y < 0.55:
        e = gen.round_e(gen.energy(r))
    elif y < 0.75:
        e = r.choice([20.000001, 20.5, 21.0, 25.0, 100.0, 1e6, 1e300, float("inf"), 20.0000000001])
    elif y < 0.9:
        e = r.choice([-1e-12, -0.5, -1.0, -2.53e-8, -20.0, -1e300, float("-inf")])
    elif y < 0.95:
        e = float("nan")
    else:
        e = r.choice([1e-300, 20.0, 5e-11])
    return iso, e


def expect(iso, e):
    """True: must run, False: must be refused, None: not judged (the sign convention for spontaneous fission)"""
    if iso < 0 and -iso in gen.SF and e == 0.0:
        return None
    return supported(iso, e)


def fmt(e):
    return "nan" if e != e else repr(e)


def cli_case(c, res):
    args = []
    fault = c.get("fault")
    if fault != "no-i":
        args += ["-i", c["iso"]]
    if fault != "no-e":
        args += ["-e", fmt(c["E"])]
    if fault == "zero-n":
        args += ["-n", "0"]
    elif fault != "no-n":
        args += ["-n", c["n"]]
    if fault == "bad-window":
        args += ["-t", repr(c["tw"])]
    elif c.get("tw") is not None:
        args += ["-t", repr(c["tw"])]
    datadir = cli.DATA
    env = None
    if fault == "bad-data":
        datadir = c["data"]
    if fault == "bad-env":
        datadir, env = None, dict(CGMFDATA=c["data"])
    fn = "nodir/x/out" if fault == "bad-out" else "out"
    args += ["-f", fn]
    want = expect(c["iso"], c["E"])
    if fault:
        want = False
    if want is None:
        return
    with cli.Sandbox(scheme={} if fault in ("bad-data", "bad-env") else {40100: evt.L.default_scheme_level(40, 100)}) as sb:
        if fault in ("bad-data", "bad-env"):
            os.unlink(os.path.join(sb.dir, "discreteLevels.dat"))
        o = sb.run(args, datadir=datadir, env=env, timeout=120)
    text = o.files.get("out.0", "")
    body = [l for l in text.split("\n") if l.strip() and not l.startswith("#")]
    tag = fault or "request"
    res.case(key=("cli", str(args), fault), nontrivial=True, sample="%s -> rc=%s" % (o.cmd, o.rc) if res.n < 2 else None)
    res.add("cli_refused" if want is False else "cli_accepted")
    if want:
        if o.rc != 0:
            res.fail("refused-supported", "supported request refused (%s): rc=%s %s" % (o.cmd, o.rc, (o.err + o.out)[-200:]), c)
        elif not body or (c["n"] < 0 and len(body) != 2 * -c["n"]):
            res.fail("no-results", "supported request gives no or incomplete results (%s): %d lines" % (o.cmd, len(body)), c)
    else:
        if o.rc == 0:
            res.fail("accepted-%s" % tag, "ends with success status though it cannot be served: %s (%d lines of results)" % (o.cmd, len(body)), c)
        elif not isinstance(o.rc, int) or o.rc < 0:
            res.fail("crash-%s" % tag, "crash instead of an error message: %s rc=%s" % (o.cmd, o.rc), c)
        if body or "CGMF Results" in o.out:
            res.fail("results-%s" % tag, "refused request leaves results: %s" % o.cmd, c)
        if not (o.out + o.err).strip():
            res.fail("silent-%s" % tag, "refused without a message: %s rc=%s" % (o.cmd, o.rc), c)


def api_case(c, res):
    want = expect(c["iso"], c["E"])
    if want is None:
        return
    k = c["api"]
    d = drv.Driver({}, timeout=120)
    e = fmt(c["E"])
    try:
        if c.get("warm"):
            d.event(98252, 0.0, 3)
        try:
            if "yields" in k:
                rep = d.cmd("%s %d %s %d %d y.out" % (k, c["iso"], e, 3, c["seed"]))
            else:
                rep = d.cmd("%s %d %s %d 0.0 -1.0" % (k, c["iso"], e, c["seed"]))
            died = None
        except drv.Died as x:
            died = x
        p = os.path.join(d.cwd, "y.out")
        lines = open(p).read().split("\n") if os.path.exists(p) else []
    finally:
        d.close()
    res.case(key=("api", k, c["iso"], e, c["seed"]), nontrivial=True)
    res.add("api_refused" if want is False else "api_accepted")
    if want and died is not None:
        res.fail("api-refused-supported", "%s refuses supported %d E=%s: %s" % (k, c["iso"], e, str(died)[:200]), c)
    if not want:
        if died is None:
            res.fail("api-accepted", "%s serves unsupported %d E=%s: %s" % (k, c["iso"], e, rep[:80]), c)
        else:
            if not isinstance(died.rc, int) or died.rc <= 0:
                res.fail("api-crash", "%s on unsupported %d E=%s ends with rc=%s" % (k, c["iso"], e, died.rc), c)
            if not died.err.strip():
                res.fail("api-silent", "%s refuses %d E=%s without a message" % (k, c["iso"], e), c)
            if any(l.strip() for l in lines):
                res.fail("api-results", "%s leaves yields for unsupported %d E=%s" % (k, c["iso"], e), c)


def run(task):
    res = Result()
    for c in task["cases"]:
        (api_case if c.get("api") else cli_case)(c, res)
    return res


def tasks(tier, seed):
    th = tier == "thorough"
    r = rng_for("C09", seed)
    cs = []
    for i in range(9000 if th else 420):
        iso, e = gen_request(r)
        cs.append(dict(iso=iso, E=e, n=r.choice([1, 2, -1, -3]), tw=r.choice([None, None, -1.0, 0.0, 1e-9])))
    for i in range(6000 if th else 300):
        iso, e = gen_request(r)
        cs.append(dict(iso=iso, E=e, api=r.choice(["event", "cevent", "yields", "cyields"]), seed=r.randint(1, 10 ** 9), warm=r.random() < 0.3))
    # every supported target with every kind of wrong energy, both run modes, both interfaces
    for iso in sorted(SUP):
        for e in (([0.0, 1e-12, 20.0] if iso in gen.NF else [0.0, 2.53e-8, 1.0]) + [-1.0, 20.00001, float("nan")]):
            cs.append(dict(iso=iso, E=e, n=r.choice([1, -2]), tw=None))
            cs.append(dict(iso=iso, E=e, api=r.choice(["event", "cevent", "yields", "cyields"]), seed=r.randint(1, 10 ** 9)))
    bad = ["/nonexistent", "/dev/null", "nodata", "/tmp/definitely/not/here/"]
    for i in range(600 if th else 48):
        iso, e = gen.reaction(r)
        f = ["no-i", "no-e", "zero-n", "no-n", "bad-window", "bad-data", "bad-env", "bad-out"][i % 8]
        c = dict(iso=iso, E=e, n=r.choice([1, 3, -2]), fault=f)
        if f == "bad-window":
            c["tw"] = r.choice([-0.5, -2.0, -1e-9, -1.0000001, -1e300, -r.random() - 1e-3])
        if f in ("bad-data", "bad-env"):
            c["data"] = r.choice(bad)
        cs.append(c)
    # a nan energy is not valid JSON for every reader: keep it as a float, json writes NaN
    return [dict(cases=cs[i::64]) for i in range(64)]


def replay(c):
    return run(c if "cases" in c else dict(cases=[c])).fails


def shrink(c):
    if c.get("warm"):
        yield dict(c, warm=False)
    if c.get("seed", 1) > 1:
        yield dict(c, seed=1)
    if c.get("n") not in (None, 1, -1):
        yield dict(c, n=1 if c["n"] > 0 else -1)
    if c.get("tw") is not None and c.get("fault") != "bad-window":
        yield dict(c, tw=None)


Check("C09", "each distinct request (nucleus, energy, mode, interface or option fault); every one must be either served or refused by the documented set",
      "generated requests on, around and far from the supported set and generated option faults; accept/refuse oracle on exit status, message and output",
      run, tasks, replay, shrink, prebuild=("api_driver", "cgmf")).main()
