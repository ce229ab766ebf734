#!/usr/bin/env python3
"""Development tool: plants bugs in scratch copies of /repo and shows what notices them.

plant.py [-j N] [--checks C01,..|own|none] ID...   (default: every directory of seeded/)
For each: stable tests pass with the patch, demo fails with it and passes without, own check gives exit 1."""
import argparse, json, os, shutil, subprocess, sys, concurrent.futures as cf, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/plant"

def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def lane(i):
    """A private copy of /repo, /opt/vp and /verif."""
    d = "%s/l%d" % (ROOT, i)
    if not os.path.exists(d + "/vp"):
        os.makedirs(d, exist_ok=True)
        sh(["cp", "-a", "/repo", d + "/repo"])
        sh(["cp", "-a", "/opt/vp", d + "/vp"])
        for f in ("build.sh", "test.sh", "env.sh", "overlay.py", "collect.py", "results.py"):
            p = d + "/vp/" + f
            if os.path.exists(p):
                t = open(p).read().replace("/opt/vp", d + "/vp").replace('"/repo', '"' + d + "/repo").replace("=/repo", "=" + d + "/repo").replace("'/repo", "'" + d + "/repo")
                open(p, "w").write(t)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd", d + "/repo")
    sh("rsync -a --delete --exclude .build --exclude evidence --exclude replays %s/ %s/verif/ || (rm -rf %s/verif; mkdir -p %s/verif; cp -a %s/gen %s/rs %s/vk %s/ws %s/run.py %s/*.json* %s/verif/)" % ((V, d, d, d) + (V,) * 6 + (d,)) , d)
    return d

def stable(d):
    sh(["bash", d + "/vp/build.sh"])
    sh(["bash", d + "/vp/test.sh", d + "/t.json"])
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    t = json.load(open(d + "/t.json"))
    return sorted(set(b) - set(x.replace(d, "") for x in t["passed"]))

def one(sid, d, checks, quick):
    s = "%s/seeded/%s" % (V, sid)
    meta = json.load(open(s + "/meta.json"))
    out = {"id": sid, "property": meta["property"]}
    repo = d + "/repo"
    rc, o = sh(["git", "apply", "--check", s + "/patch.diff"], repo)
    if rc:
        out["error"] = "patch does not apply: " + o
        return out
    demo = d + "/demo"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(s, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    if not quick:
        rc, o = sh(["bash", demo + "/demo.sh"], repo)
        out["demo_clean"] = rc
        if rc:
            out["demo_out"] = o[-1500:]
    sh(["git", "apply", s + "/patch.diff"], repo)
    try:
        if not quick:
            out["broken_tests"] = stable(d)
            rc, o = sh(["bash", demo + "/demo.sh"], repo)
            out["demo_patched"] = rc
            out["demo_tail"] = o[-400:]
        cs = [meta["property"]] if checks == "own" else [] if checks == "none" else checks.split(",")
        out["caught"] = {}
        for c in cs:
            rc, o = sh(["python3", "run.py", c, "--tier", "quick"], d + "/verif", {"VERIF_REPO": repo, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            ok = rc == 1 and "VIOLATION property=%s" % c in o
            out["caught"][c] = "caught" if ok else "MISSED" if rc == 0 else "ERROR %d %s" % (rc, o[-600:])
            m = re.search(r"(\d+\.\d) s\s*$", o.strip())
            if m:
                out["caught"][c] += " %ss" % m.group(1)
    finally:
        sh(["git", "checkout", "-q", "--", "."], repo)
    out["ok"] = quick or (out["demo_clean"] == 0 and out["demo_patched"] != 0 and not out["broken_tests"])
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("--checks", default="own")
    ap.add_argument("--quick", action="store_true", help="only the checks")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(V + "/seeded"))
    lanes = [lane(i) for i in range(min(a.j, len(ids)))]
    import queue
    q = queue.Queue()
    for l in lanes:
        q.put(l)
    def go(sid):
        d = q.get()
        try:
            return one(sid, d, a.checks, a.quick)
        finally:
            q.put(d)
    with cf.ThreadPoolExecutor(len(lanes)) as ex:
        for r in ex.map(go, ids):
            flag = "OK " if r.get("ok") else "BAD"
            json.dump(r, open(ROOT + '/' + r['id'] + '.json', 'w'), indent=1); print(flag, r["id"], r["property"], r.get("caught"), "" if r.get("ok") else json.dumps(r, indent=1), flush=True)

main()
