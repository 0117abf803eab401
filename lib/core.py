"""Common machinery: seeds, tiers, parallel case evaluation, confirmation, shrinking, replay files,
known findings, evidence."""
import argparse, hashlib, json, os, random, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l or l.startswith("//") or l.startswith("fixed:"):
                continue
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("property") == prop and e.get("status") == "open":
                out.append(e)
    return out


def stable_hash(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()


class Fail(dict):
    """sig: short machine signature of what failed; msg: text; case: what replay() needs"""
    def __init__(self, sig, msg, case):
        super().__init__(sig=sig, msg=msg, case=case)


class Result:
    """what a worker task brings back"""
    def __init__(self):
        self.n = 0
        self.nontrivial = set()
        self.samples = []
        self.fails = []
        self.stats = {}

    def case(self, key=None, nontrivial=True, sample=None):
        self.n += 1
        if nontrivial and key is not None:
            self.nontrivial.add(key if isinstance(key, (int, str)) else stable_hash(key)[:16])
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def fail(self, sig, msg, case):
        if sum(1 for f in self.fails if f["sig"] == sig) < 3:
            self.fails.append(Fail(sig, msg, case))

    def add(self, name, v=1):
        self.stats[name] = self.stats.get(name, 0) + v

    def merge(self, o):
        self.n += o.n
        self.nontrivial |= o.nontrivial
        if len(self.samples) < 12:
            self.samples += o.samples[:2]
        self.fails += o.fails
        for k, v in o.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v


def _call(args):
    fn, task = args
    try:
        return fn(task)
    except Exception:
        r = Result()
        r.stats["error"] = traceback.format_exc()
        return r


class Check:
    def __init__(self, prop, rule, technique, task_fn, tasks_fn, replay_fn, shrink_fn=None, assumptions=None, workers=None, post_fn=None, prebuild=("api_driver",)):
        """tasks_fn(tier, seed) -> list of picklable tasks; task_fn(task) -> Result;
        replay_fn(case) -> list of Fail; shrink_fn(case) -> iterable of smaller cases (lazily);
        post_fn(Result) -> extra (global/statistical) failures after the merge"""
        self.__dict__.update(locals())

    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
        ap.add_argument("--replay")
        a = ap.parse_args()
        if a.replay:
            rep = json.load(open(a.replay))
            fs = self.replay_fn(rep["case"])
            for f in fs:
                print("REPLAY %s: %s" % (f["sig"], f["msg"]))
            sys.exit(1 if fs else 0)
        t0 = time.time()
        import build
        for b in self.prebuild:      # once, before the workers start
            n, _, v = b.partition(":")
            build.build(n, v or "opt")
        tasks = self.tasks_fn(a.tier, a.seed)
        total = Result()
        errors = []
        nw = self.workers or min(8, os.cpu_count() or 4)
        known = load_known(self.prop)
        ksig = {e["sig"] for e in known}
        done_r, cut = {}, False
        ex = ProcessPoolExecutor(max_workers=nw, mp_context=mp.get_context("fork"))
        futs = {ex.submit(_call, (self.task_fn, t)): i for i, t in enumerate(tasks)}
        pending, failing = set(futs), False
        while pending:
            done, pending = wait(pending, timeout=5, return_when=FIRST_COMPLETED)
            for x in done:
                r = done_r[futs[x]] = x.result()
                failing = failing or any(f["sig"] not in ksig for f in r.fails)
            if failing and pending and time.time() - t0 > (150 if a.tier != "thorough" else 3600):
                cut = True        # a violation is in hand; the rest of the sweep is not needed (it may hang)
                for x in pending:
                    x.cancel()
                break
        if cut:
            for p in list((ex._processes or {}).values()):
                p.kill()
        ex.shutdown(wait=not cut, cancel_futures=True)
        for i in sorted(done_r):
            r = done_r[i]
            if "error" in r.stats:
                errors.append(r.stats.pop("error"))
            total.merge(r)
        if self.post_fn:
            for f in self.post_fn(total) or []:
                total.fails.append(f)
        hits, viol = {}, []
        seen = set()
        for f in total.fails:
            k = next((e for e in known if e["sig"] == f["sig"]), None)
            if k is not None:
                hits[k["sig"]] = k
                continue
            if f["sig"] in seen:
                continue
            seen.add(f["sig"])
            viol.append(f)
        confirmed = []
        for f in viol[:6]:
            ok = False
            for _ in range(3):
                try:
                    rs = self.replay_fn(f["case"])
                except Exception:
                    rs = []
                    traceback.print_exc()
                if any(x["sig"] == f["sig"] for x in rs):
                    ok = True
                    break
            if not ok:
                print("UNCONFIRMED (not reported) %s: %s" % (f["sig"], f["msg"]))
                continue
            f = self._shrink(f, 25.0)
            confirmed.append(f)
            break
        # every listed finding is reported by name: re-evaluated from its recorded case when the sweep missed it
        for e in known:
            if e["sig"] not in hits and e.get("case") is not None:
                try:
                    if any(x["sig"] == e["sig"] for x in self.replay_fn(e["case"])):
                        hits[e["sig"]] = e
                except Exception:
                    traceback.print_exc()
        for e in hits.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, e["what"]))
        ev = dict(property=self.prop, tier="thorough" if a.tier == "thorough" else "quick", seed=a.seed, level="exploration",
                  coverage=dict(evaluations=total.n, distinct_nontrivial=len(total.nontrivial), rule=self.rule,
                                samples=[str(s)[:600] for s in total.samples[:12]],
                                stats={k: v for k, v in sorted(total.stats.items()) if not k.startswith("_")}),
                  technique=self.technique, wall_s=round(time.time() - t0, 2),
                  assumptions=self.assumptions or [],
                  known_findings=[e["what"] for e in hits.values()],
                  violations=len(confirmed),
                  violation_details=[dict(sig=f["sig"], msg=f["msg"]) for f in confirmed])
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, self.prop + ".json.tmp")
        with open(tmp, "w") as fp:
            json.dump(ev, fp, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, self.prop + ".json"))
        print("%s: %d evaluations, %d distinct non-trivial, %.1f s" % (self.prop, total.n, len(total.nontrivial), time.time() - t0))
        for k, v in sorted(total.stats.items()):
            if not k.startswith("_"):
                print("   %s = %s" % (k, v))
        if confirmed:
            for f in confirmed:
                d = os.path.join(VERIF, "replays")
                os.makedirs(d, exist_ok=True)
                p = os.path.join(d, "%s-%s.json" % (self.prop, stable_hash(f["case"])[:10]))
                with open(p, "w") as fp:
                    json.dump(dict(property=self.prop, sig=f["sig"], msg=f["msg"], case=f["case"],
                                   how="python3-vt %s --replay <this file>" % os.path.relpath(sys.argv[0], VERIF)), fp, indent=1, default=str)
                print("%s: %s" % (f["sig"], f["msg"]))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            sys.stdout.flush()
            sys.exit(1)
        if errors:
            print("CHECK ERROR\n" + errors[0])
            sys.exit(3)
        if total.n == 0:
            print("CHECK ERROR: nothing evaluated")
            sys.exit(3)
        sys.exit(0)

    def _shrink(self, f, budget):
        if not self.shrink_fn:
            return f
        t0 = time.time()
        cur = f
        progress = True
        while progress and time.time() - t0 < budget:
            progress = False
            for c in self.shrink_fn(cur["case"]):
                if time.time() - t0 > budget:
                    break
                try:
                    rs = self.replay_fn(c)
                except Exception:
                    continue
                m = next((x for x in rs if x["sig"] == f["sig"]), None)
                if m is not None:
                    cur = Fail(m["sig"], m["msg"], c)
                    progress = True
                    break
        return cur


def rng_for(*parts):
    return random.Random(int(stable_hash(list(parts))[:16], 16))
