"""Development tool for the planted bugs; no check uses it.
  bug.py new ID PROP   (edit /tmp/pb/ID first: cp -a of /repo with the change) writes seeded/ID/patch.diff and copies the demo helpers
  bug.py verify ID...  builds, stable tests, demo with and without the patch, in a private mount namespace
  bug.py check ID [cNN...] runs the checks against the change in a private mount namespace"""
import json, os, shutil, subprocess, sys
V = "/verif"; S = V + "/seeded"
NS = ["unshare", "-Urm", "bash", "-c"]


def prep(id_, patch=True):
    d = "/tmp/pbrun/%s%s" % (id_, "" if patch else ".base")
    shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/pbrun", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    if patch:
        subprocess.check_call(["git", "-C", d, "apply", "%s/%s/patch.diff" % (S, id_)])
    return d


def ns(d, cmd, **kw):
    return subprocess.run(NS + ["mount --bind %s /repo && cd /repo && %s" % (d, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    what = sys.argv[1]
    if what == "new":
        id_, prop = sys.argv[2:4]
        out = S + "/" + id_; os.makedirs(out, exist_ok=True)
        diff = subprocess.check_output(["git", "-C", "/tmp/pb", "diff"], text=True)
        open(out + "/patch.diff", "w").write(diff)
        for f in ("ev.cpp", "evlib.py", "levelfile.py", "demo.sh"):
            shutil.copy(V + "/meta/demolib/" + f, out)
        subprocess.check_call(["git", "-C", "/tmp/pb", "checkout", "-q", "--", "."])
        print(diff)
        return
    if what == "verify":
        for id_ in sys.argv[2:]:
            demo = "/tmp/pbrun/demo_" + id_
            shutil.rmtree(demo, ignore_errors=True); os.makedirs("/tmp/pbrun", exist_ok=True)
            shutil.copytree(S + "/" + id_, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            d = prep(id_)
            r = ns(d, "bash /opt/vp/test.sh /tmp/pbrun/%s.json >/tmp/pbrun/%s.log 2>&1" % (id_, id_))
            b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open("/tmp/pbrun/%s.json" % id_))
            miss = [x for x in b["stable"] if x not in o["passed"]]
            r1 = ns(d, "timeout 300 bash %s/demo.sh" % demo)
            d0 = prep(id_, False)
            r0 = ns(d0, "bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash %s/demo.sh" % demo)
            ok = not miss and r1.returncode != 0 and r0.returncode == 0
            print(id_, "OK" if ok else "BAD", "missing tests", miss, "demo patched", r1.returncode, "base", r0.returncode)
            print("   ", r1.stdout.strip()[-300:].replace("\n", " | "))
            if r0.returncode:
                print("  base output:", r0.stdout[-1500:])
            for x in (d, d0, demo):
                shutil.rmtree(x, ignore_errors=True)
    if what == "check":
        id_ = sys.argv[2]
        cks = sys.argv[3:] or [json.load(open("%s/%s/meta.json" % (S, id_)))["property"].lower()]
        d = prep(id_)
        for c in cks:
            r = ns(d, "cd /verif && python3-vt checks/%s.py" % c, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            print(id_, c, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED")
            print("   ", "\n    ".join(r.stdout.strip().splitlines()[:4])[:1500])
        shutil.rmtree(d, ignore_errors=True)


main()
