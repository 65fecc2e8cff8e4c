#!/usr/bin/env python3
# Offline tool (no check uses it): mutates the sources of PSLP, drops mutants that do not compile or fail the
# repository's own tests, and shows which of the rest the enumeration of the basic properties does not notice.
# usage: mutate.py OUT WORKERS [FILEPATTERN] [SAMPLE_FRACTION]
import re, os, sys, subprocess, shutil, random, glob
from concurrent.futures import ThreadPoolExecutor
import threading
OUT=sys.argv[1]; NW=int(sys.argv[2]); PAT=sys.argv[3] if len(sys.argv)>3 else ""; FR=float(sys.argv[4]) if len(sys.argv)>4 else 1.0
ONLY=None
R="/repo"; V="/verif"; W="/tmp/mut"
INC="-Iinclude/PSLP -Iinclude/core -Iinclude/data_structures -Iinclude/explorers"
TST='gcc -w -std=c99 -g -O0 -DTESTING -DDEBUGGER_ENABLED -DPSLP_VERSION=\\"x\\" -D_POSIX_C_SOURCE=200809L '+INC
REL='gcc -w -std=c99 -O2 -DNDEBUG -U_FORTIFY_SOURCE -DPSLP_VERSION=\\"verif\\" -D_POSIX_C_SOURCE=200809L '+INC
SWAPS=[("<=","<"),(">=",">"),("==","!="),("!=","=="),("&&","||"),("||","&&"),("+=","-="),("-=","+=")]
WORDS={"true":"false","false":"true","C_TAG_LB_INF":"C_TAG_UB_INF","C_TAG_UB_INF":"C_TAG_LB_INF","R_TAG_LHS_INF":"R_TAG_RHS_INF","R_TAG_RHS_INF":"R_TAG_LHS_INF","lhs":"rhs","rhs":"lhs","lb":"ub","ub":"lb","n_inf_min":"n_inf_max","n_inf_max":"n_inf_min","min":"max","max":"min","MAX":"MIN","MIN":"MAX","continue":"break","break":"continue","INF":"0","up":"down","down":"up","lower":"upper","REDUCED":"UNCHANGED","FEAS_TOL":"0","C_TAG_INACTIVE":"C_TAG_FIXED","R_TAG_INACTIVE":"R_TAG_EQ"}
def sites(path):
    src=open(path).read(); lines=src.split("\n"); skip=[]; depth=0; nd=[]; out=[]; cm=False; paren=0
    for n,l in enumerate(lines):
        s=l.strip()
        if s.startswith("#if"): nd.append("NDEBUG" in s and s.startswith("#ifndef") or "TESTING" in s); continue
        if s.startswith("#endif"):
            if nd: nd.pop()
            continue
        if s.startswith("#"): continue
        if any(nd): continue
        if "/*" in l and "*/" not in l: cm=True
        if cm:
            if "*/" in l: cm=False
            continue
        code=l.split("//")[0]
        if paren>0:
            paren+=code.count("(")-code.count(")"); continue
        if re.match(r"\s*(assert|DEBUG|printf)\b",code) or "RETURN_PTR" in code:
            paren=code.count("(")-code.count(")"); continue
        if not s or s.startswith("//"): continue
        for m in re.finditer(r"<=|>=|==|!=|&&|\|\||\+=|-=|(?<=\s)[<>](?=\s)|(?<=\s)[-+*/](?=\s)|(?<![\w)\]])-(?=[\w(])|!(?=[\w(])|\b[A-Za-z_]\w*\b|\b[01]\b",code):
            t=m.group(); rep=[]
            for a,b in SWAPS:
                if a==t: rep=[b]
            if t=="<": rep=["<=",">"]
            elif t==">": rep=[">=","<"]
            elif t=="+": rep=["-"]
            elif t=="-": rep=["+"] if code[m.start()-1:m.start()].isspace() and code[m.end():m.end()+1].isspace() else [""]
            elif t=="*":
                if re.search(r"(int|double|size_t|Tag|Vec|View|Matrix|Activity|Bound|Lock|Problem|Constraints|State|Work|void|Info|Objective|Solution|char|const|Stats|Settings|Range) $",code[:m.start()]): continue
                rep=["/"]
            elif t=="/": rep=["*"]
            elif t=="!": rep=[""]
            elif t in WORDS:
                if t in("lhs","rhs","lb","ub","min","max","up","down") and not re.search(r"(->|\.)$",code[:m.start()]) : 
                    if not re.match(r"\s*[\[,;)+\-*/]",code[m.end():]): continue
                rep=[WORDS[t]]
            elif t=="0": rep=["1"]
            elif t=="1": rep=["0"]
            for r in rep: out.append((n,m.start(),m.end(),r))
        if code.rstrip().endswith(";") and not re.match(r"\s*(return|const|int|double|bool|size_t|struct|static|[A-Z]\w+ \*?\w+ ?[=;]|typedef|break|continue|case)\b",code) and code.count("(")==code.count(")") and not s.startswith("}") and lines[n-1].rstrip().endswith((";","{","}","")) and not lines[n-1].rstrip().endswith(("=","(",",","&&","||","+","-","*")):
            out.append((n,len(code)-len(code.lstrip()),len(code.rstrip()),";"))
    return lines,out
def sh(c,cwd,t=60):
    try: return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t).returncode
    except subprocess.TimeoutExpired: return 99
def main():
    global R
    if NW:
        shutil.rmtree(W,ignore_errors=True); base=W+"/base"; os.makedirs(base)
        for d in("src","include","tests"): shutil.copytree(f"{R}/{d}",f"{base}/{d}")
        R=base
    files=[f for d in("core","explorers") for f in sorted(glob.glob(f"{R}/src/{d}/*.c")) if not f.endswith("Debugger.c") and re.search(PAT,f)]
    work=[]; 
    for f in files:
        lines,s=sites(f); work+=[(f,x) for x in s]
    random.seed(7); random.shuffle(work); work=work[:int(len(work)*FR)]
    print(len(work),"mutants",flush=True)
    if not NW: return
    os.makedirs(base+"/t"); os.makedirs(base+"/r"); cs=sorted(glob.glob(base+"/src/*/*.c"))
    def comp(f):
        b=os.path.basename(f)[:-2]; rel=os.path.relpath(f,base); sh(f"{TST} -c {rel} -o t/{b}.o",base)
        if b!="Debugger": sh(f"{REL} -c {rel} -o r/{b}.o",base)
    with ThreadPoolExecutor(8) as ex: list(ex.map(comp,cs))
    sh(f"{TST} -c tests/all_tests.c -o t/all_tests.o",base); sh(f"{TST} -c tests/test_macros.c -o t/test_macros.o",base)
    assert sh("gcc t/*.o -o all_tests -lm -lpthread && ./all_tests",base)==0
    for o in("mc.o","dbg/all.o","pat/all.o","rel/redefine"): shutil.copy(f"{V}/build/{o}",f"{base}/"+o.replace("/","_"))
    for i in range(NW): shutil.copytree(base,f"{W}/w{i}")
    free=list(range(NW)); lock=threading.Lock(); cnt={}; log=open(OUT,"a")
    done=set()
    for l in open(OUT):
        q=l.split("\t"); done.add((q[1],q[2],q[3],q[4].rstrip("\n")))
    def one(job):
        f,(n,a,b,r)=job; key=(os.path.relpath(f,R),str(n+1),str(a),r)
        if key in done: return
        with lock: w=free.pop()
        d=f"{W}/w{w}"; rel=os.path.relpath(f,R); nm=os.path.basename(f)[:-2]; lines=open(f).read().split("\n"); old=lines[n]; lines[n]=old[:a]+r+old[b:]
        open(f"{d}/{rel}","w").write("\n".join(lines)); res="?"
        if sh(f"{TST} -c {rel} -o t/{nm}.o",d): res="compile"
        elif sh("gcc t/*.o -o all_tests -lm -lpthread && timeout 20 ./all_tests >/dev/null 2>&1",d): res="tests"
        else:
            if sh(f"{REL} -c {rel} -o r/{nm}.o && cmp -s r/{nm}.o ../base/r/{nm}.o",d)==0: res="same"
            elif sh("ld -r -o all.tmp r/*.o && objcopy --redefine-syms=rel_redefine all.tmp all.o && g++ mc.o all.o dbg_all.o pat_all.o -o mc -lm -lpthread",d): res="link"
            else:
                c=sh(f"VERIF_HOME={d}/h ./mc --check MUT0 --workers 1 --max 1",d,300) if os.path.isdir(d+"/h/bases") else (os.makedirs(d+"/h/replay"),shutil.copytree(V+"/bases",d+"/h/bases"),sh(f"VERIF_HOME={d}/h ./mc --check MUT0 --workers 1 --max 1",d,300))[2]
                res="alive" if c==0 else "killed"
        shutil.copy(f,f"{d}/{rel}"); shutil.copy(f"{W}/base/t/{nm}.o",f"{d}/t/{nm}.o"); shutil.copy(f"{W}/base/r/{nm}.o",f"{d}/r/{nm}.o")
        with lock:
            free.append(w); cnt[res]=cnt.get(res,0)+1; log.write("\t".join([res]+list(key)+[old.strip(),lines[n].strip()])+"\n"); log.flush()
            if sum(cnt.values())%200==0: print(cnt,flush=True)
    with ThreadPoolExecutor(NW) as ex: list(ex.map(one,work))
    print(cnt)
open(OUT,"a").close(); main()
