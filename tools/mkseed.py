#!/usr/bin/env python3
"""mkseed.py SPEC...: plants the bug described by a spec (python dict: id, property, needs, breaks, edits [(file, old, new)], demo) in a scratch
copy of /repo, confirms that it builds, passes the tests, and that the demo tells it apart; then writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedw/repo"


def sh(cmd, cwd=W, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    return r.returncode, r.stdout


os.makedirs("/tmp/seedw", exist_ok=True)
os.makedirs(W, exist_ok=True)
subprocess.run("rsync -a --delete --exclude target /repo/ %s/" % W if shutil.which("rsync") else "find %s -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} + ; cd /repo && tar c --exclude=./target . | tar x -C %s" % (W, W), shell=True, check=True)
ENV = "export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only; "
for spec in sys.argv[1:]:
    s = {}
    exec(open(spec).read(), s)
    sh("git checkout -q -- .")
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    patch = sh("git diff")[1]
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    shutil.copy(os.path.join(HERE, "tools/seedlib/ast.py"), d)
    shutil.copy(os.path.join(HERE, "tools/seedlib/lib.sh"), d)
    open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n. \"$(dirname \"$0\")/lib.sh\"\n" + s["demo"].strip("\n") + "\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    rc, out = sh(ENV + "find . -name lib.rs -not -path './target/*' -exec touch {} +; find . -name main.rs -not -path './target/*' -exec touch {} +; cargo test --offline --workspace 2>&1 | grep -E '^test |error|panicked'")
    fails = [l for l in out.splitlines() if "FAILED" in l or "error" in l]
    stable = json.dumps(json.load(open("/opt/vp/BASELINE.json")))
    bad = [l for l in fails if l.startswith("error") or any(x in stable for x in [l.split()[1]])]
    rc1, o1 = sh("timeout 300 bash %s/demo.sh" % d)
    sh("git checkout -q -- .")
    rc0, o0 = sh("timeout 300 bash %s/demo.sh" % d)
    good = rc0 == 0 and rc1 not in (0, 3) and not bad
    print(s["id"], "OK" if good else "BAD", "clean", rc0, "patched", rc1, "failing:", bad[:5])
    if not good:
        print("--- clean\n", o0[-800:], "\n--- patched\n", o1[-800:])
