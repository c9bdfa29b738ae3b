#!/usr/bin/env python3
"""Runs the registered checks against planted bugs in a copy: detect.py [--slot N] [--check C] ID...

Unlike seedtest.py --detect, /repo stays as it is: copies of /repo and of /verif in /tmp/det/N are used, with
the paths in them changed."""
import os, subprocess, sys, time, json, re
args = sys.argv[1:]; slot = "0"; only = None
if "--slot" in args: i = args.index("--slot"); slot = args[i + 1]; del args[i:i + 2]
if "--check" in args: i = args.index("--check"); only = args[i + 1]; del args[i:i + 2]
D = f"/tmp/det/{slot}"; os.makedirs(D, exist_ok=True)
def sh(c, cwd=D, t=1200):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t); return r.returncode, r.stdout
if not os.path.exists(D + "/repo"): sh(f"git clone -q /repo {D}/repo")
sh("git checkout -q -f -- . && git clean -qfd -e target && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", D + "/repo")
print(sh(f"rsync -a --delete --exclude target --exclude .git --exclude evidence --exclude replay /verif/ {D}/verif/")[1], end="")
for f in ["verif/bin/check"] + sh("grep -rl '\"/repo' verif/harness --include=*.toml --include=*.rs | grep -v target/")[1].split():
    p = f"{D}/{f}"; s = open(p).read(); open(p, "w").write(s.replace('"/repo', f'"{D}/repo'))
for i in args or sorted(os.listdir("/verif/seeded")):
    if re.match(r"m\d+$", i):  # a mutant of tools/mutate.py
        m = next(m for m in json.load(open("/tmp/mut/mutants.json")) if m["id"] == int(i[1:])); prop = only
        rc, out = sh("git checkout -q -f -- .", D + "/repo"); f = f"{D}/repo/{m['file']}"; l = open(f).read().split("\n")
        n = m["b"] - m["a"] + 1 if "b" in m else m["old"].rstrip("\n").count("\n") + 1; assert "\n".join(l[m["a"]:m["a"] + n]).startswith(m["old"].rstrip("\n")), l[m["a"]:m["a"] + n]
        l[m["a"]:m["a"] + n] = [m["new"].rstrip("\n")]; open(f, "w").write("\n".join(l))
    else:
        p = f"/verif/seeded/{i}"; prop = only or json.load(open(p + "/meta.json"))["property"]
        rc, out = sh(f"git checkout -q -f -- . && git apply {p}/patch.diff", D + "/repo")
    if rc: print(i, "does not apply", out); continue
    t = time.time(); rc, out = sh(f"bin/check {prop}", D + "/verif")
    v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    d = [l.strip()[:110] for l in out.splitlines() if l.startswith("  ")][:2]
    print(i, prop, f"check={rc} ({time.time()-t:.0f}s)", len(v), d, flush=True)
    if rc != 1: print(out[-500:])
sh("git checkout -q -f -- .", D + "/repo")
