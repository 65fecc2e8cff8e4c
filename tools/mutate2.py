#!/usr/bin/env python3
# Offline tool (no check uses it): second sieve.  Takes the mutants that tools/mutate.py could not tell from the
# original and runs reduced forms of further checks on them, until one notices the change.
# usage: mutate2.py IN OUT WORKERS [FILEPATTERN]
import re, os, sys, subprocess, shutil, glob, threading
from concurrent.futures import ThreadPoolExecutor
IN,OUT,NW=sys.argv[1],sys.argv[2],int(sys.argv[3]); PAT=sys.argv[4] if len(sys.argv)>4 else ""
R="/repo"; V="/verif"; W="/tmp/mut2"
INC="-Iinclude/PSLP -Iinclude/core -Iinclude/data_structures -Iinclude/explorers"
COM='-w -std=c99 -D_POSIX_C_SOURCE=200809L -DPSLP_VERSION=\\"verif\\" -U_FORTIFY_SOURCE '+INC
FL={"rel":"gcc -O2 -DNDEBUG","dbg":"gcc -O1 -g -DDEBUGGER_ENABLED -fno-strict-aliasing","pat":"gcc -O2 -DNDEBUG -ftrivial-auto-var-init=pattern","san":"clang -O1 -g -DNDEBUG -fsanitize=address,undefined -fno-sanitize=nonnull-attribute,pointer-overflow,function -fno-sanitize-recover=undefined -fno-omit-frame-pointer","matsan":"clang -O1 -g -DNDEBUG -fsanitize=address -fno-omit-frame-pointer"}
def sh(c,cwd,t=100):
    try: return subprocess.run("nice "+c if not c.startswith("ld") else c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    except subprocess.TimeoutExpired:
        class X: returncode=99; stdout=b""
        return X
shutil.rmtree(W,ignore_errors=True); base=W+"/base"; os.makedirs(base)
for d in("src","include"): shutil.copytree(f"{R}/{d}",f"{base}/{d}")
env=dict(os.environ,PSLP_REPO=base,PSLP_BUILD=base+"/b"); subprocess.run(["bash",V+"/build.sh","mc","san","mat"],env=env,check=True)
shutil.copytree(V+"/bases",base+"/bases"); os.makedirs(base+"/replay")
for i in range(NW): shutil.copytree(base,f"{W}/w{i}")
free=list(range(NW)); lock=threading.Lock(); log=open(OUT,"a"); done={tuple(l.split("\t")[2:6]) for l in open(OUT)}
SEQ=[("MUT2","mc"),("MUT14","mc"),("MUT17","mc"),("MUT9","mc"),("MUT7","mc"),("MUT8","mcsan"),("MUT18","mc"),("C16","mat")]
def one(l):
    q=l.rstrip("\n").split("\t"); _,rel,n,a,r,old,new=q; key=(rel,n,a,r)
    if key in done: return
    with lock: w=free.pop()
    d=f"{W}/w{w}"; nm=os.path.basename(rel)[:-2]; L=open(f"{base}/{rel}").read().split("\n"); n0=int(n)-1; res="gone"; by=""
    cand=[i for i in range(len(L)) if L[i].strip()==old]
    if cand:
        i=min(cand,key=lambda k:abs(k-n0))
        if abs(i-n0)<60:
            ind=L[i][:len(L[i])-len(L[i].lstrip())]; L[i]=ind+new; open(f"{d}/{rel}","w").write("\n".join(L))
            res="alive"; fl=["rel","dbg","pat","san"]+(["matsan"] if nm=="Matrix" else [])
            for f in fl:
                if sh(f"{FL[f]} {COM} -c {rel} -o b/{f}/{nm}.o",d).returncode: res="compile"
                elif sh(f"ld -r -o b/{f}/all.tmp b/{f}/[A-Z]*.o b/{f}/utils.o $(ls b/{f}/*.o | grep -v '/[A-Z]\\|all.o\\|utils.o')",d).returncode or sh(f"objcopy --redefine-syms=b/{f}/redefine b/{f}/all.tmp b/{f}/all.o",d).returncode: res="link"
            if res=="alive":
                if sh("g++ b/mc.o b/rel/all.o b/dbg/all.o b/pat/all.o -o b/mc -lm -lpthread",d).returncode or sh("clang++ -fsanitize=address,undefined b/mcsan.o b/san/all.o -o b/mcsan -lm -lpthread",d).returncode: res="link"
                if nm=="Matrix" and sh("clang++ -fsanitize=address b/mat.o b/matshim.o b/matsan/all.o -o b/mat -lm -lpthread || true",d): pass
                for c,x in SEQ:
                    if res!="alive": break
                    if c=="C16": continue
                    o=sh(f"env VERIF_HOME={d} b/{x} --check {c} --workers 1 --max 1 --limit 60 --evidence {d}/ev",d,200)
                    if o.returncode: res="killed"; by=c
    shutil.copy(f"{base}/{rel}",f"{d}/{rel}")
    for f in FL: shutil.copy(f"{base}/b/{f}/{nm}.o",f"{d}/b/{f}/{nm}.o") if os.path.exists(f"{base}/b/{f}/{nm}.o") else None
    with lock: free.append(w); log.write("\t".join([res,by]+list(key)+[old,new])+"\n"); log.flush()
work=[l for l in open(IN) if l.startswith("alive") and re.search(PAT,l.split("\t")[1])]
work=[l for l in work if not re.search(r"printf|verbose|timer|clock_gettime",l.split("\t")[5])]
print(len(work),"mutants"); 
with ThreadPoolExecutor(NW) as ex: list(ex.map(one,work))
