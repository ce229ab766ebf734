"""Compiles and runs batches of generated cases (one Rust module per case)."""
import concurrent.futures as cf
import json, os, re, resource, subprocess, threading
from . import build
from .build import Infra

WORKERS = int(os.environ.get("VERIF_JOBS", "8"))


class Case:
    __slots__ = ("name", "src", "ref_src", "choices", "labels", "meta")
    def __init__(self, src, ref_src=None, choices=(), labels=(), meta=None):
        self.name, self.src, self.ref_src = None, src, ref_src
        self.choices, self.labels, self.meta = list(choices), set(labels), meta or {}


class Res:
    __slots__ = ("status", "detail", "stats")
    def __init__(self, status, detail="", stats=None):
        self.status, self.detail, self.stats = status, detail, stats or {}
    def __repr__(self):
        return "Res(%s,%s)" % (self.status, self.detail[:200])


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def compile_rlib(src, name, out_dir, flags=(), opt=False):
    out = os.path.join(out_dir, "lib%s.rlib" % name)
    args = ["--crate-type", "rlib", "--crate-name", name, "-o", out, "-C", "debuginfo=0", "--cap-lints", "allow"]
    if opt:
        args += ["-C", "opt-level=1"]
    rc, diags, raw = build.run_rustc(args + list(flags) + [src], out_dir)
    if rc != 0:
        raise Infra("support crate %s does not compile:\n%s" % (src, first_errors(diags, raw)))
    return out


def first_errors(diags, raw="", n=4):
    out = [d.get("rendered") or d["message"] for d in diags if d["level"].startswith("error") and d.get("spans")][:n]
    out = out or [d.get("rendered") or d["message"] for d in diags if d["level"].startswith("error")][:n]
    return "\n".join(out)[:3000] or raw[-2000:]


def _span_files(diag):
    files = []
    def walk(sp):
        files.append(os.path.basename(sp["file_name"]))
        if sp.get("expansion"):
            walk(sp["expansion"]["span"])
    for d in [diag] + diag.get("children", []):
        prim = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
        for s in prim:
            walk(s)
    return files


class Batch:
    """flags: rustc flags (externs). prelude: crate-level attributes. main: text of fn main and imports."""
    def __init__(self, dir, flags, prelude, timeout=60, run_args=(), check_only=False, edition=None, extra_rustc=()):
        self.dir, self.flags, self.prelude, self.timeout = dir, list(flags), prelude, timeout
        self.run_args = list(run_args)
        self.check_only = check_only
        self.extra = list(extra_rustc)
        self.n = self.late = 0
        self.lock = threading.Lock()
        if edition:
            self.extra += ["--edition", edition]

    def newdir(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.dir, "b%d" % self.n)
        os.makedirs(d)
        return d

    def run(self, cases, ref=False):
        """Returns {case.name: Res}; statuses: ok, fail, compile, crash."""
        d = self.newdir()
        for c in cases:
            with open(os.path.join(d, c.name + ".rs"), "w") as f:
                f.write(c.ref_src if ref else c.src)
        results = {}
        try:
            exe = self._compile(d, list(cases), results, "main")
            for names, path in exe:
                if self.check_only:
                    for n in names:
                        results[n] = Res("ok")
                else:
                    self._run(path, names, results)
        finally:
            for fn in os.listdir(d):
                if not fn.endswith(".rs"):
                    try:
                        os.unlink(os.path.join(d, fn))
                    except OSError:
                        pass
        return results

    def _compile(self, d, pending, results, stem):
        """Removes failing cases until the rest compiles. Returns [(names, exe)]."""
        exes, stack, k = [], [pending], 0
        while stack:
            cur = stack.pop()
            if not cur:
                continue
            k += 1
            main = os.path.join(d, "%s%d.rs" % (stem, k))
            text = self.prelude + "".join("mod %s;\n" % c.name for c in cur)
            text += "fn main() { sup::main(&[%s]) }\n" % ", ".join('("%s", %s::run as fn(&mut sup::Cx))' % (c.name, c.name) for c in cur)
            if self.check_only:
                text = self.prelude + "".join("mod %s;\n" % c.name for c in cur) + "fn main() {}\n"
            with open(main, "w") as f:
                f.write(text)
            out = os.path.join(d, "%s%d.bin" % (stem, k))
            args = ["--crate-name", "main", "-C", "debuginfo=0", "-o", out] + self.extra + self.flags
            if self.check_only:
                args += ["--emit=metadata"]
            rc, diags, raw = build.run_rustc(args + [main], d)
            if rc == 0:
                exes.append(([c.name for c in cur], out))
                continue
            by, byname = {}, {c.name + ".rs": c for c in cur}
            for dg in diags:
                if not dg["level"].startswith("error"):
                    continue
                for fn in _span_files(dg):
                    if fn in byname:
                        by.setdefault(byname[fn].name, []).append(dg.get("rendered") or dg["message"])
                        break
            if by:
                for n, msgs in by.items():
                    results[n] = Res("compile", "\n".join(msgs)[:3000])
                stack.append([c for c in cur if c.name not in by])
            elif len(cur) == 1:
                results[cur[0].name] = Res("compile", first_errors(diags, raw))
            else:
                h = len(cur) // 2
                stack += [cur[:h], cur[h:]]
        return exes

    def _run(self, path, names, results):
        todo = list(names)
        while todo:
            late = False
            if self.late >= 10:
                # enough has hung already, and is reported
                for n in todo:
                    results[n] = Res("ok", "skipped", {"runs": 0})
                break
            try:
                p = subprocess.run([path] + self.run_args + todo, capture_output=True, text=True, errors="replace",
                                   timeout=self.timeout if self.late < 3 else min(15, self.timeout), cwd=self.dir, preexec_fn=_limit,
                                   env={"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"})
                out = p.stdout
            except subprocess.TimeoutExpired as e:
                late = True
                self.late += 1
                out = (e.stdout or b"").decode(errors="replace")
            started = None
            for line in out.splitlines():
                if line.startswith("@START "):
                    started = line[7:]
                elif line.startswith("@RES "):
                    m = json.loads(line[5:])
                    results[m["case"]] = Res("ok" if m["ok"] else "fail", m.get("detail", ""), m.get("stats", {}))
                    if m["case"] in todo:
                        todo.remove(m["case"])
                    started = None
            if not late and p.returncode == 0 and not todo:
                break
            if late and started is None:
                raise Infra("generated program timed out: %s (cases %s)" % (path, todo[:50]))
            if started is None:
                raise Infra("generated program ended with %d without a result: %s\n%s" % (p.returncode, path, p.stderr[-800:]))
            results[started] = Res("crash", "did not end within %d s" % self.timeout) if late else Res("crash", "process ended with %d: %s" % (p.returncode, p.stderr[-800:]))
            if started in todo:
                todo.remove(started)


def run_all(batch, cases, size=30, ref=False):
    """Runs cases in parallel batches; names them."""
    for i, c in enumerate(cases):
        c.name = "c%d" % i
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
    out = {}
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for r in ex.map(lambda ch: batch.run(ch, ref), chunks):
            out.update(r)
    return [out[c.name] for c in cases]


def line_errors(d, name, head, lines, flags, edition="2021", timeout=300):
    """Compiles one file of one-line cases (metadata only). Returns ({line index: [(code, message)]}, trouble)."""
    nhead = head.count("\n")
    src = os.path.join(d, name + ".rs")
    with open(src, "w") as f:
        f.write(head + "".join(l.replace("\n", " ") + "\n" for l in lines))
    args = ["--edition", edition, "--crate-type", "rlib", "--crate-name", "m", "--emit=metadata", "-o", os.path.join(d, name + ".rmeta")] + list(flags)
    rc, diags, raw = build.run_rustc(args + [src], d, timeout)
    errs = {}
    trouble = None
    for g in diags:
        if not g["level"].startswith("error") or g["message"].startswith("aborting due to"):
            continue
        if g["level"].startswith("error: internal"):
            trouble = g["message"]
        ls = set()
        for sp in g["spans"]:
            if sp["is_primary"]:
                while sp.get("expansion") and not sp["file_name"].endswith(name + ".rs"):
                    sp = sp["expansion"]["span"]
                if sp["file_name"].endswith(name + ".rs"):
                    ls.add(sp["line_start"] - nhead - 1)
        for x in ls or [-1]:
            errs.setdefault(x, []).append(((g.get("code") or {}).get("code"), g["message"]))
    if rc and not errs:
        trouble = trouble or "rustc ended with %d: %s" % (rc, raw[-500:])
    return errs, trouble
