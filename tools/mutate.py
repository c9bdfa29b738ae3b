#!/usr/bin/env python3
"""Mutation survey of the monitors: mutate.py list | run [SLOTS] [FILTER] | show

Makes small changes (a statement or block gone, a condition negated, an operator swapped, a constant off) in
scratch copies of /repo under /tmp/mut, builds the harness against each and runs the checks of the file's
properties for a few seconds. What survives is either a change of nothing observable or a blind spot."""
import json, os, re, shutil, subprocess, sys, threading, time, random, signal
REPO="/repo"; V="/verif"; T="/tmp/mut"
MAP={
 "alias.rs":"c08 c06 c01 c23","process.rs":"c03 c04 c05 c06 c01 c09 c02 c23 c07 c10","process_receiver.rs":"c02 c06 c01","process_registry.rs":"c07 c03 c14 c01 c04 c09 c25",
 "process_kernel.rs":"c03 c05 c06 c17 c16 c01","link.rs":"c05 c16 c17 c23 c25","monitor.rs":"c06 c16 c17 c23 c25","dest.rs":"c01 c16 c10 c24","exit_reason.rs":"c03 c04 c16 c24",
 "gen_server.rs":"c10 c16 c20","gen_server_options.rs":"c10","from.rs":"c10 c16","supervisor.rs":"c11 c12 c13 c23","supervisor_options.rs":"c11 c12","shutdown.rs":"c11 c12 c13 c14",
 "child_spec.rs":"c11 c12 c13 c14","registry.rs":"c14 c23","registry_options.rs":"c14","hash_ring.rs":"c15","task.rs":"c21","semaphore.rs":"c21","application.rs":"c20 c25","application_config.rs":"c20",
 "catch_unwind.rs":"c03 c10 c21","local.rs":"c16 c01","process_item.rs":"c01 c02 c16","process_info.rs":"c05 c07 c03 c10 c25","process_registration.rs":"c03 c07 c04",
 "pid.rs":"c16 c19 c18 c03 c24","reference.rs":"c16 c08 c19 c06 c24","node.rs":"c17 c16 c18 c24","node_kernel.rs":"c17 c16 c18","node_local.rs":"c17 c16 c18 c19","node_options.rs":"c17 c18",
 "node_registration.rs":"c16 c17","node_registry.rs":"c17 c16 c19 c18 c23 c24","node_remote.rs":"c16 c17 c19 c18 c23","frame":"c16 c19 c18 c17",
 "websocket_command.rs":"c22","websocket_handler.rs":"c22 c23","websocket_server.rs":"c22 c23","websocket_server_config.rs":"c22","lib.rs":"","serialize.rs":"c16","timeout.rs":"c09",
 "process_flags.rs":"c04","entry.rs":"c20","hash.rs":"","console.rs":"c25","runtime_info.rs":"c25",
}
def files():
    for top in ("hydra/src","hydra-websockets/src"):
        for b,_,fs in os.walk(f"{REPO}/{top}"):
            for f in sorted(fs):
                p=os.path.relpath(os.path.join(b,f),REPO)
                key="frame" if "/frame/" in p else f
                if f in("lib.rs","mod.rs") and key!="frame": continue
                if MAP.get(key): yield p,MAP[key].split()
def nostr(l):
    l=re.sub(r'"(\\.|[^"\\])*"','""',l); l=re.sub(r"'(\\.|[^'\\])'","' '",l); return l.split("//")[0]
def gen():
    out=[]
    for p,checks in files():
        L=open(f"{REPO}/{p}").read().split("\n")
        depth=0; infn=[]; intest=False
        def add(a,b,new,kind): out.append(dict(file=p,a=a,b=b,new=new,kind=kind,checks=checks,old="\n".join(L[a:b+1])[:300]))
        i=0; fnd=None; starts=[]
        for i,l in enumerate(L):
            s=nostr(l); st=s.strip()
            if "cfg(test)" in st: break
            if st.startswith("#") or l.strip().startswith("//"): continue
            if re.search(r"\bfn \w+",st) and fnd is None and not st.endswith(";"): fnd=depth
            inside= fnd is not None and depth>fnd and not re.search(r"\bfn \w+",st)
            if inside:
                first=re.match(r"[\w*(&]",st)
                prev=""
                for j in range(i-1,-1,-1):
                    q=nostr(L[j]).strip()
                    if q and not q.startswith("#"): prev=q; break
                at_stmt=prev.endswith((";","{","}","=>")) or prev.endswith("},")
                if at_stmt and first and not re.match(r"(let|use|pub|fn|impl|struct|else|match|loop|unsafe|async)\b",st):
                    # to the end of the statement
                    d=0; k=i; ok=False
                    block=re.match(r"(if|for|while)\b",st)
                    while k<len(L) and k<i+60:
                        q=nostr(L[k])
                        d+=sum(q.count(c) for c in "({[")-sum(q.count(c) for c in ")}]")
                        if d<0: break
                        if d==0 and (q.rstrip().endswith(";") or (block and q.strip()=="}")): ok=True; break
                        k+=1
                    if ok: add(i,k,"","delete")
                m=re.match(r"(\s*(?:\} else )?(?:if|while) )(?!let\b)(.*)( \{)$",l)
                if m and nostr(l).count("{")>=1: add(i,i,f"{m.group(1)}!({m.group(2)}){m.group(3)}","negate")
                for a,b in ((" == "," != "),(" != "," == "),(" < "," <= "),(" <= "," < "),(" > "," >= "),(" >= "," > "),(" && "," || "),(" || "," && "),(" + "," - "),(" - "," + "),(" += "," -= "),(" -= "," += ")):
                    for m in re.finditer(re.escape(a),s):
                        if s==l or l.startswith(s[:m.end()]): add(i,i,l[:m.start()]+b+l[m.end():],"op"+a.strip())
                for m in re.finditer(r"\b(true|false)\b",s):
                    if l.startswith(s[:m.end()]): add(i,i,l[:m.start()]+("false" if m.group(1)=="true" else "true")+l[m.end():],"bool")
                for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])",s):
                    if l.startswith(s[:m.end()]): add(i,i,l[:m.start()]+str(int(m.group(1))+1)+l[m.end():],"const")
                for a,b in (("is_some()","is_none()"),("is_none()","is_some()"),("is_ok()","is_err()"),("is_empty()","len() != 0"),("is_local()","is_remote()"),("is_remote()","is_local()"),("fetch_add","fetch_sub"),("fetch_sub","fetch_add"),(".insert(",".remove(&"),("unwrap_or(true)","unwrap_or(false)"),("unwrap_or(false)","unwrap_or(true)"),(".rev()",""),("push_back","push_front"),("pop_front","pop_back"),(".any(",".all("),(".all(",".any("),("break;","continue;"),("continue;","break;"),("min(","max("),("max(","min(")):
                    k=s.find(a)
                    if k>=0 and l.startswith(s[:k+len(a)]): add(i,i,l[:k]+b+l[k+len(a):],"swap "+a)
            depth+=s.count("{")-s.count("}")
            if fnd is not None and depth<=fnd and "}" in s: fnd=None
    seen=set(); uniq=[]
    for n,m in enumerate(out):
        k=(m["file"],m["a"],m["b"],m["new"])
        if k in seen: continue
        seen.add(k); m["id"]=len(uniq); uniq.append(m)
    return uniq
def env(slot):
    e=dict(os.environ); e.update(RUSTUP_TOOLCHAIN="stable",CARGO_NET_OFFLINE="true",RUSTFLAGS="--cap-lints=allow",RUST_BACKTRACE="0",CARGO_BUILD_JOBS="3"); return e
def slot(k):
    s=f"{T}/slot{k}"
    if not os.path.exists(s+"/verif/harness/target"):
        os.makedirs(s+"/verif",exist_ok=True)
        subprocess.run(f"cp -a {REPO} {s}/repo && rm -rf {s}/repo/target; cp -a {V}/vendor {s}/verif/ && mkdir -p {s}/verif/harness && cp -a {V}/harness/Cargo.* {V}/harness/src {V}/harness/tls {V}/harness/keep {s}/verif/harness/",shell=True,check=True)
        r=subprocess.run("cargo build --offline -q",shell=True,cwd=s+"/verif/harness",env=env(k))
        assert r.returncode==0
    else:
        subprocess.run(f"cp -a {V}/harness/src {V}/harness/Cargo.* {V}/harness/tls {V}/harness/keep {s}/verif/harness/; cp -a {V}/vendor {s}/verif/; cd {s}/repo && git checkout -q -f -- .; git fetch -q {REPO} HEAD && git reset -q --hard FETCH_HEAD; touch hydra/src/lib.rs; cd {s}/verif/harness && cargo build --offline -q",shell=True,check=True,env=env(k))
    return s
def one(s,k,m,budget):
    p=f"{s}/repo/{m['file']}"; orig=open(p).read(); L=orig.split("\n")
    L[m["a"]:m["b"]+1]=[m["new"]] if m["new"] else []
    open(p,"w").write("\n".join(L))
    procs=[]
    try:
        t=time.time()
        r=subprocess.run(["cargo","build","--offline","-q"]+sum((["--bin",b] for b in m["checks"] if b!="c25"),[]),cwd=s+"/verif/harness",env=env(k),stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
        if m["checks"]==["c25"]: r.returncode=0
        if r.returncode==0 and "c25" in m["checks"]:
            r=subprocess.run(["cargo","build","--offline","-q","--features","console","--bin","c25"],cwd=s+"/verif/harness",env=env(k),stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
        if r.returncode!=0: return dict(result="nocompile")
        b=time.time()-t
        for c in m["checks"]:
            f=open(f"{s}/{c}.err","w")
            procs.append((c,subprocess.Popen([f"{s}/verif/harness/target/debug/{c}","--seed",str(m["id"]*7+1),"--budget",str(budget)],cwd=s,stdout=subprocess.DEVNULL,stderr=f,start_new_session=True)))
        end=time.time()+budget+45; res=None; left=dict(procs)
        while left and time.time()<end and not res:
            time.sleep(0.25)
            for c,pr in list(left.items()):
                rc=pr.poll()
                err=[x for x in open(f"{s}/{c}.err",errors="replace").read().split("\n") if x.startswith("violation")]
                if c=="c18": err=[x for x in err if "replayed-greeting" not in x]
                if err: res=dict(result="killed",by=c,how=err[0][:160]); break
                if rc is not None:
                    del left[c]
                    if rc!=0: res=dict(result="killed",by=c,how=f"rc {rc}"); break
        if not res: res=dict(result="hang",by=",".join(left)) if left else dict(result="survived")
        res["build"]=round(b,1); res["time"]=round(time.time()-t,1)
        return res
    finally:
        for c,pr in procs:
            try: os.killpg(pr.pid,signal.SIGKILL)
            except ProcessLookupError: pass
            pr.wait()
        open(p,"w").write(orig)
def main():
    cmd=sys.argv[1]
    if cmd=="list":
        ms=gen(); from collections import Counter
        print(len(ms),Counter(m["file"] for m in ms)); json.dump(ms,open(f"{T}/mutants.json","w"),indent=0)
    elif cmd=="run":
        ms=json.load(open(f"{T}/mutants.json")); slots=int(sys.argv[2]) if len(sys.argv)>2 else 3
        filt=sys.argv[3] if len(sys.argv)>3 else ""
        done={}
        if os.path.exists(f"{T}/results.jsonl"):
            for l in open(f"{T}/results.jsonl"):
                r=json.loads(l); done[r["id"]]=r
        todo=[m for m in ms if m["id"] not in done and re.search(filt,m["file"])]
        random.Random(1).shuffle(todo)
        # Ids listed here come first.
        first=set(json.load(open(f"{T}/first.json"))) if os.path.exists(f"{T}/first.json") else set()
        todo.sort(key=lambda m:m["id"] in first)
        lock=threading.Lock(); out=open(f"{T}/results.jsonl","a")
        def work(k):
            s=slot(k)
            while True:
                with lock:
                    if not todo or os.path.exists(f"{T}/stop"): return
                    m=todo.pop()
                r=one(s,k,m,9)
                with lock:
                    out.write(json.dumps({**{x:m[x] for x in("id","file","a","kind")},**r})+"\n"); out.flush()
        ts=[threading.Thread(target=work,args=(k,)) for k in range(slots)]
        [t.start() for t in ts]; [t.join() for t in ts]
    elif cmd=="show":
        ms={m["id"]:m for m in json.load(open(f"{T}/mutants.json"))}; from collections import Counter
        rs=[json.loads(l) for l in open(f"{T}/results.jsonl")]
        print(Counter(r["result"] for r in rs),Counter(r.get("by") for r in rs if r["result"]=="killed"))
        for r in sorted(rs,key=lambda r:(r["file"],r["a"])):
            if r["result"] in("survived","hang") and re.search(sys.argv[2] if len(sys.argv)>2 else "",r["file"]):
                m=ms[r["id"]]; print(f'#{r["id"]} {r["file"]}:{m["a"]+1} {m["kind"]} {r["result"]} {r.get("by","")}\n    - {m["old"].strip()[:220]}\n    + {m["new"].strip()[:160]}')
main()
