#!/usr/bin/env python3
"""Development tool: writes seeded/<id>/ from the entries of tools/seeds/*.py (patch against /repo's HEAD)."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds the program beside this script against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$d/Cargo.toml"
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly-2025-03-20 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER
cd "$d" && timeout 250 cargo @CMD@ --offline -q
'''
def main():
    ns = {}
    seeds = []
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        ns = {}
        exec(open(f).read(), ns)
        seeds += ns["SEEDS"]
    only = sys.argv[1:]
    for s in seeds:
        if only and s["id"] not in only:
            continue
        d = "%s/seeded/%s" % (V, s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        w = tempfile.mkdtemp()
        subprocess.run("git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (w, w), shell=True, check=True)
        for ed in s["edits"]:
            f, old, new = ed[:3]
            n = ed[3] if len(ed) > 3 else 1
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) < 1 or (len(ed) < 4 and t.count(old) != 1):
                raise SystemExit("%s: %d matches of %r in %s" % (s["id"], t.count(old), old, f))
            if n == 1:
                t = t.replace(old, new)
            elif isinstance(n, str):      # only after this marker
                i = t.index(n)
                t = t[:i] + t[i:].replace(old, new, 1)
            open(p, "w").write(t)
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        shutil.rmtree(w)
        deps = "".join(x + "\n" for x in s.get("deps", []))
        feats = json.dumps(s.get("features", []))
        open(d + "/Cargo.toml.in", "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nauto_enums = { path = "@REPO@", default-features = false, features = %s }\n%s' % (json.dumps(["std"] + s.get("features", []) if not s.get("no_std") else s.get("features", [])), deps))
        shutil.copy(V + "/ws/Cargo.lock", d + "/Cargo.lock")
        open(d + "/main.rs", "w").write(s["main"].strip() + "\n")
        open(d + "/demo.sh", "w").write(DEMO.replace("@CMD@", s.get("cmd", "run")))
        if s.get("reject"):
            # a second program that has to be refused
            open(d + "/bad.rs", "w").write(s["reject"].strip() + "\n")
            with open(d + "/demo.sh", "a") as f:
                f.write('[ $? = 0 ] || exit 1\ncp "$here/bad.rs" src/main.rs\nif timeout 250 cargo check --offline -q 2>/dev/null; then echo "bad.rs is accepted"; exit 1; fi\nexit 0\n')
        if s.get("other") is not None:
            # another file, whose module z has to expand to the same
            open(d + "/other.rs", "w").write((s["other"] or s["main"]).strip() + "\n")
            with open(d + "/demo.sh", "a") as f:
                f.write("""[ $? = 0 ] || exit 1
expand() { touch src/main.rs; timeout 200 cargo rustc --offline -q -- -Zunpretty=expanded | sed -n '/^mod z {/,/^}/p' > $1; }
for i in 1 2 3; do expand a$i; [ -s a$i ] || exit 1; done
mkdir -p o/src && cp Cargo.toml Cargo.lock o/ && cp "$here/other.rs" o/src/main.rs && cd o
expand ../b; cd ..; [ -s b ] || exit 1
for i in a2 a3 b; do cmp -s a1 $i || { echo "module z expands differently"; exit 1; }; done
exit 0
""")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"])
main()
