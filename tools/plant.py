#!/usr/bin/env python3
"""plant.py build ID... : make seeded/<id> from defs/<id>.py, verify; plant.py list"""
import sys, os, subprocess, json, shutil, importlib.util, glob
R="/repo"; OUT="/verif/seeded"; W="/tmp/seed/wk"
PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <limits.h>
#include <time.h>
#include "datatypes.h"
#define CHECK(c) do { if(!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); _exit(1); } } while(0)
#define P(x) ((void *)(intptr_t)(x))
'''
SH = '''#!/bin/bash
# run with cwd = the repository; exits 0 if the library behaves, nonzero if not
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf -- "$W"' EXIT
gcc -std=gnu11 -O2 -DNDEBUG -w -DWITH_PTHREAD %s -I. -o "$W/demo" ./*.c "$D/demo.c" -lpthread || exit 2
cd "$W" || exit 2
export ASAN_OPTIONS=detect_leaks=0
timeout 120 ./demo
'''
def ns(tree, cmd, timeout=400):
    return subprocess.run(["unshare","-Urm","bash","-c","mount --bind %s /repo && cd /repo && %s"%(tree,cmd)],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout)
def load(i):
    ns_={}
    exec(open("/tmp/seed/defs/%s.py"%i).read(),ns_); return ns_
def plant(i):
    d=load(i); t="%s/%s"%(W,i); c="%s/%s.clean"%(W,i)
    for x in (t,c):
        shutil.rmtree(x,ignore_errors=True); subprocess.check_call(["git","clone","-q",R,x])
    for f,a,b in d["edits"]:
        s=open(t+"/"+f).read()
        if s.count(a)!=d.get("count",{}).get(a,1): return "%s: %d matches in %s: %s"%(i,s.count(a),f,a[:60])
        open(t+"/"+f,"w").write(s.replace(a,b))
    diff=subprocess.run(["git","-C",t,"diff"],stdout=subprocess.PIPE).stdout.decode()
    stage="%s/%s.out"%(W,i); shutil.rmtree(stage,ignore_errors=True); os.makedirs(stage)
    open(stage+"/patch.diff","w").write(diff)
    open(stage+"/demo.c","w").write("/* %s */\n"%d["breaks"].replace("*/","")+PRE+d["demo"])
    open(stage+"/demo.sh","w").write(SH%d.get("flags","")); os.chmod(stage+"/demo.sh",0o755)
    json.dump({"property":d["prop"],"needs":d["needs"],"what_it_breaks":d["breaks"]},open(stage+"/meta.json","w"),indent=1)
    demodir="/tmp/seed/wk/%s.demo"%i; shutil.rmtree(demodir,ignore_errors=True); os.makedirs(demodir)
    for f in ("demo.c","demo.sh"): shutil.copy(stage+"/"+f,demodir)
    r=ns(t,"bash /opt/vp/test.sh %s/res.json >/dev/null 2>&1; cat %s/res.json"%(W+"/"+i+".out",W+"/"+i+".out"))
    try: j=json.loads(r.stdout.decode().strip().splitlines()[-1] if r.stdout.decode().strip().startswith("{")==False else r.stdout.decode())
    except Exception as e: return "%s: test result unreadable %s"%(i,r.stdout.decode()[-300:])
    stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); miss=stable-set(j["passed"])
    os.unlink(stage+"/res.json")
    if miss: return "%s: tests fail: %d e.g. %s"%(i,len(miss),sorted(miss)[:3])
    reps=d.get("reps",3)
    out=[]
    for k in range(reps):
        r=ns(c,"bash %s/demo.sh"%demodir)
        if r.returncode: return "%s: demo fails on clean: rc %d %s"%(i,r.returncode,r.stdout.decode()[-600:])
        r=ns(t,"bash %s/demo.sh"%demodir)
        if r.returncode==0: return "%s: demo passes on patched (rep %d)"%(i,k)
        if b"demo.c" in r.stdout and b"error:" in r.stdout: return "%s: demo compile error %s"%(i,r.stdout.decode()[-500:])
        out.append("%d %s"%(r.returncode,r.stdout.decode(errors="replace").strip().splitlines()[-1:] ))
    dst=OUT+"/"+i; shutil.rmtree(dst,ignore_errors=True); shutil.copytree(stage,dst)
    shutil.rmtree(c); 
    return "%s: PLANTED (%s)"%(i,out[0])
if __name__=="__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids=sys.argv[2:] or sorted(os.path.basename(x)[:-3] for x in glob.glob("/tmp/seed/defs/*.py"))
    if sys.argv[1]=="build":
        os.makedirs(W,exist_ok=True)
        with ThreadPoolExecutor(4) as ex:
            for m in ex.map(plant,ids): print(m,flush=True)
    if sys.argv[1]=="check": # id[:PROP,..]
        for i in ids:
            i,_,ps=i.partition(":")
            ps=ps.split(",") if ps else [json.load(open(OUT+"/"+i+"/meta.json"))["property"]]
            t=W+"/"+i
            if not os.path.isdir(t):
                subprocess.check_call(["git","clone","-q",R,t]); subprocess.check_call(["git","-C",t,"apply",OUT+"/"+i+"/patch.diff"])
            for p in ps:
                r=subprocess.run(["/verif/bin/check",p],env=dict(os.environ,DATATYPES_REPO=t),stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
                o=r.stdout.decode().strip().splitlines()
                msg=[l for l in o if not l.startswith("VIOLATION")][1:2] or o[-1:]
                print("%-10s %s rc=%d %s | %s"%(i,p,r.returncode,"CAUGHT" if r.returncode==1 else "MISSED" if r.returncode==0 else "BROKEN",msg[0][:150]),flush=True)
