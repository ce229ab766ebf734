"""Driver shared by all checks: generation, judgement, shrinking, known findings, evidence, exit codes."""
import hashlib, json, os, sys, time, traceback
from . import build, rust, choice
from .build import VERIF, Infra

FINDINGS = os.path.join(VERIF, "known_findings.json")


def findings(prop):
    try:
        with open(FINDINGS) as f:
            return [x for x in json.load(f).get("findings", []) if x["property"] == prop]
    except OSError:
        return []


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.rule = []
        self.samples = []
        self.labels = {}
        self.extra = {}
        self.violations = []
        self.assumptions = []
        self.known_seen = {}

    def label(self, labels, n=1):
        for l in labels:
            self.labels[l] = self.labels.get(l, 0) + n

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, what, replay):
        """key: exact signature. replay: dict stored in the replay file."""
        for f in findings(self.prop):
            if f["key"] == key:
                self.known_seen[key] = f
                return
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.sha1((self.prop + json.dumps(replay, sort_keys=True, default=str)).encode()).hexdigest()[:12]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, key=key, what=what, **replay), f, indent=1, default=str)
        self.violations.append((key, what, path))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.nontrivial),
               "rule": " ".join(self.rule), "samples": self.samples,
               "classes": dict(sorted(self.labels.items()))}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, f in self.known_seen.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        for key, what, path in self.violations[:20]:
            print("--- %s\n%s" % (key, what))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s tier=%s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s" % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.nontrivial), len(self.violations),
            time.time() - self.t0))
        return 1 if self.violations else 0


def digest(text):
    return hashlib.sha1(text.encode()).hexdigest()[:16]


def differential(rep, batch, gen, n, seed, size=30, nontrivial=None, max_report=2, shrink_rounds=10, gen_name="gen",
                 tolerate_invalid=0.02, replay_extra=None):
    """gen(Src) -> Case. Every case is compiled and run; 'ok' is expected of each. A case whose code under test
    does not compile is a violation iff its reference version compiles and runs."""
    cases = []
    if rep.replay:
        if rep.replay.get("generator") != gen_name:
            return [], []
        n = 0
        s = choice.Src(choices=rep.replay["choices"])
        c = gen(s)
        c.choices = s.log
        cases.append(c)
        shrink_rounds = 0
    for i in range(n):
        s = choice.Src(seed="%s/%s/%d/%d" % (rep.prop, gen_name, seed, i))
        c = gen(s)
        c.choices = s.log
        cases.append(c)
    res = rust.run_all(batch, cases, size)
    bad = [(c, r) for c, r in zip(cases, res) if r.status != "ok"]
    invalid = 0
    fails = []
    comp = [(c, r) for c, r in bad if r.status == "compile"]
    if comp:
        refs = [c for c, _ in comp if c.ref_src]
        names = [c.name for c in refs]
        rr = dict(zip(map(id, refs), rust.run_all(batch, refs, size, ref=True))) if refs else {}
        for c, r in comp:
            q = rr.get(id(c))
            if q is not None and q.status == "compile":
                invalid += 1
                if os.environ.get("VERIF_DEBUG"):
                    sys.stderr.write("INVALID CASE\n%s\n%s\n" % (q.detail, c.ref_src))
            else:
                fails.append((c, r))
    fails += [(c, r) for c, r in bad if r.status != "compile"]
    rep.extra["invalid_cases"] = rep.extra.get("invalid_cases", 0) + invalid
    if n and invalid / n > tolerate_invalid:
        raise Infra("generator %s made %d invalid cases of %d" % (gen_name, invalid, n))
    for c, r in zip(cases, res):
        runs = r.stats.get("runs", 1)
        rep.evaluations += runs
        rep.label(c.labels)
        for k, v in r.stats.items():
            if k.startswith("n_"):
                rep.label([k], v)
        if r.status == "ok" and (nontrivial is None or nontrivial(c, r)):
            rep.nontrivial.add(digest(c.src))
            if len(rep.nontrivial) in (1, 7, 29):
                rep.sample({"source": c.meta.get("show", c.src)[:3000], "stats": r.stats}, 3)
    # report, after shrinking
    fails.sort(key=lambda x: len(x[0].choices))
    for c, r in fails[:max_report]:
        ch, rr = c.choices, r
        if shrink_rounds and c.choices:
            ch = minimise(batch, gen, c.choices, r.status, size, shrink_rounds)
        s = choice.Src(choices=ch)
        cc = gen(s)
        rr = rust.run_all(batch, [cc], 1)[0]
        if rr.status == "ok":
            cc, rr, ch = c, r, c.choices
        rep.violation("%s:%s:%s" % (gen_name, rr.status, digest(cc.src)),
                      "%s: %s\n%s" % (rr.status, rr.detail, cc.meta.get("show", cc.src)),
                      dict({"generator": gen_name, "choices": ch, "status": rr.status, "detail": rr.detail,
                            "source": cc.src}, **(replay_extra or {})))
    if len(fails) > max_report:
        rep.extra["more_failing_cases"] = len(fails) - max_report
    return cases, res


def minimise(batch, gen, choices, status, size, rounds, budget=30):
    t0 = time.time()
    def test_many(lists):
        if time.time() - t0 > budget:
            return [False] * len(lists)
        cs = []
        for l in lists:
            s = choice.Src(choices=l)
            try:
                c = gen(s)
            except RecursionError:
                c = None
            cs.append((c, s.log))
        live = [c for c, _ in cs if c is not None]
        res = dict(zip(map(id, live), rust.run_all(batch, live, 8)))
        cand = [c for c in live if res[id(c)].status == status]
        okref = set(id(c) for c in cand)
        if status == "compile":
            refs = [c for c in cand if c.ref_src]
            rr = rust.run_all(batch, refs, 8, ref=True) if refs else []
            for c, r in zip(refs, rr):
                if r.status == "compile":
                    okref.discard(id(c))
        return [c is not None and id(c) in okref for c, _ in cs]
    try:
        return choice.shrink(choices, test_many, rounds=rounds)
    except Infra:
        return choices


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    rep = Report(a.prop, a.tier, a.seed)
    rep.scale = a.scale
    rep.replay = json.load(open(a.replay)) if a.replay else None
    scratch = None
    try:
        checks[a.prop](rep)
        rc = rep.finish()
    except Infra as e:
        print("ERROR (no verdict): %s" % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.exit(rc)
