#!/usr/bin/env python3
"""mkseed.py SPEC.py: (re)creates seeded changes from a spec and confirms each in a scratch copy.
A spec defines SEEDS: dict id -> dict(property, needs, breaks, edits=[(file, old, new)], files={name: text}, demo=text)."""
import os, sys, subprocess, json, shutil, tempfile, runpy
V = "/verif/seeded"
spec = runpy.run_path(sys.argv[1])
want = sys.argv[2:]
for sid, s in spec["SEEDS"].items():
    if want and sid not in want: continue
    d = f"{V}/{sid}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for n, t in s["files"].items():
        os.makedirs(os.path.dirname(f"{d}/{n}"), exist_ok=True)
        if isinstance(t, tuple): shutil.copytree(t[0], f"{d}/{n}") if os.path.isdir(t[0]) else shutil.copy(t[0], f"{d}/{n}")
        else: open(f"{d}/{n}", "w").write(t)
    open(f"{d}/demo.sh", "w").write(s["demo"]); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    # work in /repo itself (the demos and build scripts name it), restored right after
    run = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
    assert run("git -C /repo status --porcelain").stdout == "", "repo dirty"
    # the demo is run from elsewhere, as at the end
    t = tempfile.mkdtemp(); shutil.copytree(d, f"{t}/x"); os.remove(f"{t}/x/meta.json")
    clean = run(f"bash {t}/x/demo.sh", cwd="/repo")
    ok = clean.returncode == 0
    try:
        for f, old, new in s["edits"]:
            p = f"/repo/{f}"; c = open(p).read()
            assert c.count(old) == 1, (sid, f, c.count(old), old)
            open(p, "w").write(c.replace(old, new))
        diff = run("git -C /repo diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        b = run("bash /opt/vp/build.sh")
        o = f"{t}/out.json"; r = run(f"bash /opt/vp/test.sh {o}")
        res = open(o).read() if os.path.exists(o) else ""
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        txt = json.loads(res) if res else {}
        passed = set(txt.get("passed", []))
        missing = [x for x in base if x not in passed]
        pat = run(f"bash {t}/x/demo.sh", cwd="/repo")
        checks = ""
        if os.environ.get("CHECKS"):
            for c in os.environ["CHECKS"].split():
                c = s["property"] if c == "own" else c
                q = run(f"VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh {c}")
                checks += f" {c}:{q.returncode}"
                if q.returncode != 1: checks += (q.stdout + q.stderr)[-400:]
    finally:
        run("git -C /repo checkout -- .")
    shutil.rmtree(t)
    good = ok and b.returncode == 0 and not missing and pat.returncode != 0
    print(sid, "GOOD" if good else "BAD", f"clean={clean.returncode} build={b.returncode} missing={len(missing)} patched={pat.returncode}", checks, flush=True)
    if not good:
        print(clean.stderr[-1500:], clean.stdout[-500:], b.stderr[-1500:] if b.returncode else "", missing[:3], pat.stdout[-300:])
