import json, os, subprocess, sys
TMP = sys.argv[1]
REPO = sys.argv[2]


def events(reqs, levels="# no level scheme\n", build=[True]):
    """reqs: (iso, E, seed[, t, window]) -> list of event dicts"""
    here = os.path.dirname(os.path.abspath(__file__))
    exe = os.path.join(TMP, "ev")
    if build[0]:
        subprocess.check_call(["g++", "-O1", "-std=c++14", "-w", "-I" + REPO + "/libcgmf/include", "-include", "unistd.h",
                               os.path.join(here, "ev.cpp"), REPO + "/_build/libcgmf/libcgmf.a", "-o", exe])
        build[0] = False
    with open(os.path.join(TMP, "discreteLevels.dat"), "w") as f:
        f.write(levels)
    txt = "".join("%d %.17g %d %g %g\n" % (tuple(q) + (0.0, -1.0))[:5] if len(q) == 3 else "%d %.17g %d %g %g\n" % tuple(q) for q in reqs)
    env = dict(os.environ, CGMFDATA=REPO + "/data")
    r = subprocess.run([exe], input=txt, cwd=TMP, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=280)
    ev = [json.loads(l.replace("-nan", "NaN").replace(":nan", ":NaN").replace(",nan", ",NaN").replace("[nan", "[NaN")) for l in r.stdout.splitlines() if l.startswith("{")]
    if r.returncode:
        print("the run ended with", r.returncode, r.stderr[-300:]); sys.exit(1)
    return ev


def cli(args, levels="# no level scheme\n", sub="run", **kw):
    """run cgmf.x in a directory of its own; returns (returncode, stdout+stderr, directory)"""
    d = os.path.join(TMP, sub); os.makedirs(d, exist_ok=True)
    if levels is not None:
        with open(os.path.join(d, "discreteLevels.dat"), "w") as f:
            f.write(levels)
    env = dict(os.environ, CGMFDATA=kw.get("data", REPO + "/data"))
    r = subprocess.run([REPO + "/_build/utils/cgmf/cgmf.x"] + [str(a) for a in args], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=280)
    return r.returncode, r.stdout, d


def need(ok, msg):
    if not ok:
        print("PROPERTY BROKEN:", msg); sys.exit(1)
