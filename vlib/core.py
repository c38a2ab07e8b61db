"""Shared plumbing of the checks: fact extraction from /repo's working tree, reports, evidence, exit status."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")


class Broken(Exception):
    """the check itself cannot give an answer"""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def sysroot():
    rc, out = sh(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise Broken("no nightly toolchain: " + out)
    return out.strip()


def build_driver():
    src = os.path.join(HERE, "driver", "mirfacts.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "mirfacts-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        rc, out = sh(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp])
        if rc:
            raise Broken("driver build failed:\n" + out)
        os.replace(tmp, exe)
    return exe


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO)):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for f in ("driver/mirfacts.rs", "models/models.rs"):
        h.update(open(os.path.join(HERE, f), "rb").read())
    return h.hexdigest()[:24]


def extract(outdir):
    """type-check /repo's working tree with the fact-emitting compiler driver"""
    exe = build_driver()
    root = sysroot()
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = root + "/lib"
    env["MIRFACTS_OUT"] = outdir
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    os.makedirs(outdir, exist_ok=True)
    m = sh([exe, os.path.join(root, "bin", "rustc"), "--crate-type", "lib", "--edition", "2021", "--crate-name", "models",
            os.path.join(HERE, "models", "models.rs"), "--emit=metadata", "-o", os.path.join(outdir, "models.rmeta")], env=env)
    if m[0] or not os.path.exists(os.path.join(outdir, "models.json")):
        raise Broken("model extraction failed:\n" + m[1][-3000:])
    dev = os.environ.get("VERIF_DEV_TARGET")  # development only
    tgt = dev or tempfile.mkdtemp(prefix="mirfacts-target-")
    if dev:
        import glob
        for x in glob.glob(os.path.join(dev, "debug", "build", "mutagenyx*")):
            shutil.rmtree(x, ignore_errors=True)
    try:
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        rc, out = sh(["cargo", "+nightly", "check", "--offline", "--workspace", "--target-dir", tgt], cwd=REPO, env=env)
    finally:
        if not dev:
            shutil.rmtree(tgt, ignore_errors=True)
    for c in ("mutagenyx", "mutagenyx_lib"):
        if not os.path.exists(os.path.join(outdir, c + ".json")):
            raise Broken("no facts for %s (cargo exit %d):\n%s" % (c, rc, out[-3000:]))
    if rc:
        raise Broken("cargo check failed:\n" + out[-3000:])


def load_program():
    from .mir import Program
    cache = os.environ.get("VERIF_FACTS_CACHE")  # development only; unset in the registered commands
    if cache:
        d = os.path.join(cache, tree_hash())
        if not os.path.exists(os.path.join(d, "done")):
            extract(d)
            open(os.path.join(d, "done"), "w").close()
        return Program(d)
    d = tempfile.mkdtemp(prefix="mirfacts-")
    try:
        extract(d)
        return Program(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Ctx:
    def __init__(self, pid, prog, tier):
        self.pid, self.prog, self.tier = pid, prog, tier
        self.viol = {}
        self.counts = {}
        self.samples = []
        self.notes = []
        self.fns = set()

    def report(self, key, msg, loc="", trace=None):
        """a violation; key identifies the construct without line numbers"""
        if key.startswith("anchor:"):  # the construct the rule starts from is not there (renamed, split): no verdict
            self.count("parts_incomplete")
            self.notes.append("undecided: " + msg)
            return
        if key not in self.viol:
            self.viol[key] = {"key": key, "message": msg, "location": loc, "trace": trace or []}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def attempt(self, f, *args):
        """runs one part of a rule; a part that cannot cope with the tree gives no verdict (it is noted), the others still do"""
        try:
            return f(*args)
        except Broken:
            raise
        except Exception as e:
            import traceback
            tb = traceback.format_exc()
            if os.environ.get("VERIF_DEBUG"):
                sys.stderr.write(tb)
            self.count("parts_incomplete")
            self.notes.append("undecided: %s could not be completed: %s: %s; %s" % (
                getattr(f, "__module__", "") + "." + getattr(f, "__name__", "?"), type(e).__name__, str(e)[:200], " | ".join(tb.splitlines()[-4:-1])))
            return None

    def need(self, name, floor, what=None, hard=False):
        """fewer sites matched than were confirmed by hand. hard: the absence itself breaks the property; otherwise the
        code has taken a shape the rule does not see, which is undecided and only noted"""
        n = self.counts.get(name, 0)
        if n < floor and not hard:
            self.notes.append("UNDECIDED %s: only %d analysed, %d expected" % (name, n, floor))
            print("NOTE %s floor %s: %d < %d" % (self.pid, name, n, floor))
        elif n < floor:
            self.report("floor:" + name, "only %d %s analysed, at least %d expected%s" % (n, name, floor, (": " + what) if what else ""))

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def analysed(self, *fns):
        for f in fns:
            self.fns.add(f if isinstance(f, str) else f.name)

    def anchor(self, suffix):
        """the single function whose name ends in `suffix`; reports when it is gone"""
        fs = self.prog.find(suffix)
        if len(fs) != 1:
            self.report("anchor:" + suffix, "expected exactly one function %s, found %d" % (suffix, len(fs)))
            return None
        self.fns.add(fs[0].name)
        return fs[0]


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {f["key"]: f for f in d.get("findings", []) if f["property"] == pid}


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, HERE)
    mod = __import__("rules." + pid.lower(), fromlist=["x"])
    prog = load_program()
    t1 = time.time()
    cx = Ctx(pid, prog, tier)
    cx.attempt(mod.run, cx)
    known = known_findings(pid)
    new = [v for k, v in sorted(cx.viol.items()) if k not in known]
    old = [v for k, v in sorted(cx.viol.items()) if k in known]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": mod.RULE,
            "functions_in_program": len(prog.fns),
            "functions_analysed": len(cx.fns),
            "counts": cx.counts,
            "analysed": sorted(cx.fns)[:400],
            "samples": cx.samples,
            "notes": cx.notes,
            "facts_s": round(t1 - t0, 2),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[v["key"]].get("what", v["message"])))
    rp = os.path.join(HERE, "evidence", pid + ".violations.json")
    if new:
        with open(rp, "w") as f:
            json.dump(new, f, indent=1, default=str)
        for v in new:
            print("%s: [%s] %s %s" % (pid, v["key"], v["message"], v["location"]))
            for t in v["trace"][:30]:
                print("      " + str(t)[:400])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    print("%s: ok (%s) in %.1fs" % (pid, ", ".join("%s=%s" % kv for kv in sorted(cx.counts.items())), time.time() - t0))
    return 0
