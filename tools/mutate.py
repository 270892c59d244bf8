#!/usr/bin/env python3
"""mutate.py SPEC.py [ids]: run checks against mutants in a scratch copy of /repo and /verif (under /tmp/m).
SPEC.py: M = [(id, file, old, new, "C01 C02")]; `old` may be given as (text, occurrence). Prints which checks catch which."""
import os, sys, subprocess, shutil, runpy, concurrent.futures
W = "/tmp/m"
def sync():
    os.makedirs(W, exist_ok=True)
    for src in ("repo", "verif"):
        subprocess.run(f"mkdir -p {W}/{src} && rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude evidence --exclude replays /{src}/ {W}/{src}/ 2>/dev/null || (rm -rf {W}/{src}.new && mkdir {W}/{src}.new && cd /{src} && tar cf - --exclude=./target --exclude=./.git --exclude=./seeded --exclude=./evidence --exclude=./replays . | tar xf - -C {W}/{src}.new && (mv {W}/{src}/target {W}/{src}.new/ 2>/dev/null; rm -rf {W}/{src}; mv {W}/{src}.new {W}/{src}))", shell=True, check=True)
    subprocess.run(f"grep -rlE '/repo/' {W}/verif --include=Cargo.toml --include=*.rs --include=*.sh | xargs sed -i 's#\"/repo/#\"{W}/repo/#g'", shell=True)
    subprocess.run(f"mkdir -p {W}/verif/evidence", shell=True)
sync()
spec = runpy.run_path(sys.argv[1]); want = sys.argv[2:]
missed = []
for mid, f, old, new, checks in spec["M"]:
    if want and mid not in want: continue
    edits = [(f, old, new)] if isinstance(f, str) else f
    saved = {}
    try:
        for f, old, new in edits:
            p = f"{W}/repo/{f}"; c = open(p).read(); saved.setdefault(p, c)
            if isinstance(old, tuple):
                old, k = old
                parts = c.split(old); assert len(parts) > k, (mid, old)
                c = old.join(parts[:k]) + new + old.join(parts[k:]) if k else c
            else:
                assert c.count(old) == 1, (mid, f, c.count(old), old)
                c = c.replace(old, new)
            open(p, "w").write(c)
        out = []
        for ch in checks.split():
            try:
                q = subprocess.run(["bash", f"{W}/verif/check.sh", ch], capture_output=True, text=True, timeout=900)
                rc = q.returncode
            except subprocess.TimeoutExpired: rc = "timeout"; q = None
            out.append(f"{ch}:{rc}")
            if rc not in (0, 1) and q: print((q.stdout + q.stderr)[-1500:])
        ok = any(o.endswith(":1") for o in out)
        if not ok: missed.append(mid)
        print("caught" if ok else "MISSED", mid, *out, flush=True)
    finally:
        for p, c in saved.items(): open(p, "w").write(c)
print("missed:", missed)
