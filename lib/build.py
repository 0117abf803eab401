"""Build lanl/CGMF from /repo's working tree, outside /repo, with an object cache keyed by content."""
import hashlib, os, subprocess, sys, re, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")

VARIANTS = {
    # the same optimisation family as the project's Release build
    "opt": dict(cxx="g++", flags=["-O2", "-std=c++14", "-w"], link=[]),
    # uninitialised stack memory filled with zeros / with a pattern; used together with MALLOC_PERTURB_ for the heap
    "zero": dict(cxx="g++", flags=["-O2", "-std=c++14", "-w", "-ftrivial-auto-var-init=zero"], link=[]),
    "pattern": dict(cxx="g++", flags=["-O2", "-std=c++14", "-w", "-ftrivial-auto-var-init=pattern"], link=[]),
    "asan": dict(cxx="g++", flags=["-O1", "-g", "-std=c++14", "-w", "-fno-omit-frame-pointer",
                                   "-fsanitize=address,undefined,float-cast-overflow", "-D_GLIBCXX_ASSERTIONS",
                                   "-fno-sanitize-recover=all", "-fno-sanitize=float-divide-by-zero"],
                 link=["-fsanitize=address,undefined,float-cast-overflow"]),
}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    src = os.path.join(REPO, "libcgmf", "src")
    cml = _read(os.path.join(src, "CMakeLists.txt")).decode()
    names = re.findall(r"/([A-Za-z0-9_.\-]+\.(?:cpp|cc|c|cxx))", cml)
    files = [os.path.join(src, n) for n in names]
    files = [f for f in files if os.path.exists(f)]
    if not files:
        files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".cpp"))
    return files


def _headers_digest():
    h = hashlib.sha256()
    for root in ("libcgmf", "utils"):
        for d, dn, fs in os.walk(os.path.join(REPO, root)):
            dn.sort()
            if "/tests" in d:
                continue
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".in", ".inc", ".icc")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(_read(p))
    return h.hexdigest()


def _gen_config(d):
    """cgmf_config.h exactly as cmake would make it: install dir absent, build data dir = /repo/data"""
    os.makedirs(d, exist_ok=True)
    txt = _read(os.path.join(REPO, "libcgmf", "cgmf_config.h.in")).decode()
    def sub(m):
        name = m.group(1)
        val = {"INSTALL_DATADIR": "/nonexistent-cgmf-install/data", "BUILD_DATADIR": os.path.join(REPO, "data")}.get(name, "")
        return '#define %s "%s"' % (name, val)
    txt = re.sub(r'#cmakedefine\s+(\w+)\s+"[^"]*"', sub, txt)
    p = os.path.join(d, "cgmf_config.h")
    if not os.path.exists(p) or _read(p).decode() != txt:
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(txt)
        os.replace(tmp, p)


def _compile(args):
    cxx, flags, incs, src, obj = args
    if os.path.exists(obj):
        return None
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run([cxx] + flags + incs + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        return "%s\n%s" % (src, r.stderr[-4000:])
    os.replace(tmp, obj)
    return None


def _mpi(what):
    r = subprocess.run(["mpicxx", "--showme:" + what], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("mpicxx: " + r.stderr[-500:])
    return r.stdout.split()


def build(target, variant="opt"):
    """target: 'cgmf' (the repository's own CLI) or the name of a driver in /verif/harness."""
    v = VARIANTS[variant]
    bdir = os.path.join(BUILD, variant)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(os.path.join(bdir, "obj"), exist_ok=True)
    _gen_config(gen)
    hd = _headers_digest()
    incs = ["-I" + gen, "-I" + os.path.join(REPO, "libcgmf", "include"), "-I" + os.path.join(REPO, "libcgmf")]
    srcs = lib_sources()
    xflags, xlink = [], []
    if target == "cgmf_mpi":        # the command-line program as -Dcgmf.x.MPI=ON compiles it
        main = os.path.join(REPO, "utils", "cgmf", "cgmf.cpp")
        xflags = ["-DMPIRUN"] + _mpi("compile")
        xlink = _mpi("link")
    elif target == "cgmf":
        main = os.path.join(REPO, "utils", "cgmf", "cgmf.cpp")
    else:
        main = os.path.join(VERIF, "harness", target + ".cpp")
    jobs, objs = [], []
    key = hashlib.sha256((hd + repr(v) + repr(_read(os.path.join(gen, "cgmf_config.h")))).encode()).hexdigest()
    for s in srcs + [main]:
        xf = xflags if s == main else []
        k = hashlib.sha256(key.encode() + s.encode() + _read(s) + " ".join(xf).encode()).hexdigest()[:24]
        o = os.path.join(bdir, "obj", os.path.basename(s) + "." + k + ".o")
        objs.append(o)
        jobs.append((v["cxx"], v["flags"] + xf, incs, s, o))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(_compile, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    k = hashlib.sha256("".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(bdir, target + "." + k)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([v["cxx"]] + v["link"] + objs + ["-o", tmp] + xlink, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    for t in sys.argv[1:]:
        t, _, v = t.partition(":")
        print(build(t, v or "opt"))
