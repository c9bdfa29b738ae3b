#!/usr/bin/env python3
"""Confirms planted bugs: seedtest.py [--detect] ID...   (all when no id is given)

In a scratch copy of /repo: demo passes on the clean tree, patch applies, builds, the stable tests pass,
demo fails. With --detect, also applies the patch to /repo, runs the property's check and undoes it."""
import json, os, shutil, subprocess, sys, time
V = "/verif"; COPY = "/tmp/seed-repo"
def sh(cmd, cwd, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf-8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
args = sys.argv[1:]
detect = "--detect" in args; only = "--only-detect" in args
args = [a for a in args if not a.startswith("--")]
ids = args or sorted(os.listdir(f"{V}/seeded"))
if not only:
    if not os.path.exists(COPY):
        subprocess.run(["cp", "-a", "/repo", COPY], check=True)
    sh("git checkout -q -f -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", COPY)
    base = json.load(open("/opt/vp/BASELINE.json"))
def stable(d):
    # the same commands as /opt/vp/test.sh, run in the copy
    return sh("cargo test --workspace --offline --lib --bins --examples 2>&1; cargo test --offline --doc -p hydra 2>&1", d)
bad = 0
for i in ids:
    p = f"{V}/seeded/{i}"
    meta = json.load(open(f"{p}/meta.json")); line = [i, meta["property"]]
    if not only:
        t = time.time(); rc, out = sh(f"bash {p}/demo.sh", COPY, 300); line.append(f"clean={rc}({time.time()-t:.0f}s)")
        if rc != 0: print(out[-1500:]); bad = 1
        rc, out = sh(f"git apply --check {p}/patch.diff && git apply {p}/patch.diff", COPY); line.append(f"apply={rc}")
        if rc != 0: print(out[-1500:]); bad = 1
        rc, out = sh("cargo test --workspace --all-features --offline 2>&1", COPY); n = sum(l.endswith("... ok") for l in out.splitlines())
        line.append(f"tests={rc}/{n}ok")
        if rc != 0 or n < 14: print(out[-2500:]); bad = 1
        t = time.time(); rc, out = sh(f"bash {p}/demo.sh", COPY, 300); line.append(f"patched={rc}({time.time()-t:.0f}s)")
        if rc == 0 or "could not compile" in out: print(out[-1500:]); bad = 1
        else: line.append((out.strip().splitlines() or [""])[-1][:160])
        sh("git checkout -q -f -- .", COPY)
    if detect or only:
        assert sh("git status --porcelain", "/repo")[1] == "", "repo dirty"
        try:
            rc, out = sh(f"git apply {p}/patch.diff", "/repo"); assert rc == 0, out
            t = time.time(); rc, out = sh(f"bin/check {meta['property']}", V, 900)
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            sigs = [l for l in out.splitlines() if "sig" in l][:3]
            line.append(f"check={rc}({time.time()-t:.0f}s) {len(v)} violations {v[:1]} {sigs}")
            if rc != 1: print(out[-600:])
        finally:
            sh("git checkout -q -f -- .", "/repo")
    print(" ".join(map(str, line)), flush=True)
sys.exit(bad)
