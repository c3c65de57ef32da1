#!/usr/bin/env python3
"""run.py OUT.jsonl [-j N] FILE...: (development) mutates files of /repo one place at a time and
runs the checks that should notice; survivors are what matters."""
import sys, json, os, subprocess, shutil, tempfile, threading, queue, random
REPO="/repo"
FAST=bool(os.environ.get("FAST"))
def checks_for(f):
    b=os.path.basename(f)[:-3]
    tail=["C30","C29"] if FAST else ["C30","C36","C28","C29","C38"]
    if f.startswith("container/bst") or f.startswith("container/comp"): return ["C01"]
    if f.startswith("container/queue"): return ["C02"]
    if f.startswith("helpertools"): return ["C03","C04","C05"]
    if f=="utils/klines/technical_analysis.go": return ["C09"]
    if f.startswith("utils/klines"): return ["C06","C07","C08","C43"]
    if f.startswith("utils/ta"): return ["C10","C11","C12","C14","C15","C16","C13","C17","C03","C04"]
    if f=="utils/regression.go": return ["C13","C17"]
    if f.startswith("utils/commonutils"): return ["C42","C07"]
    if f=="utils/interface.go": return ["C37"]
    if f in ("utils/Side.go","main.go"): return ["C43","C28"]
    if f.startswith("utils/"): return ["C42","C28","C18"]
    if f.startswith("channel"): return ["C20","C27"]+tail
    if f.startswith("oscillator"): return ["C22","C27"]+tail
    if f.startswith("volume"): return ["C21","C27"]+tail
    m={"C19":"Kdj Rsi StochRsi Cci AiCoinCCI","C20":"Atr","C23":"AverageDirectionalIndex Vortex SuperTrend PivotPointSuperTrend UTBot","C24":"SmartMoneyConcepts SmartMoneyConcepts_type","C25":"BreakoutProbability ReversalSignals LinearRegressionCandles StochasticHeat"}
    for k,v in m.items():
        if b in v.split(): return [k,"C26"]+tail
    return ["C18","C26"]+tail
TA={"LinearReg":"C13","LinearRegAngle":"C13","LinearRegIntercept":"C13","LinearRegSlope":"C13","TRange":"C16","TrueRange":"C16","Stochastic":"C16","Atr":"C16","Natr":"C16",
 "SD":"C12","MeanDeviation":"C12","Variance":"C12","Dev":"C12","StdDev":"C12","CCI":"C12","AiCoinCCI":"C12","MA":"C10","Sma":"C10","Max":"C10","Min":"C10","Sum":"C10","Highest":"C10","Lowest":"C10",
 "Rma":"C11","Ema":"C11","Dema":"C11","Wma":"C11","PivotHigh":"C14","PivotLow":"C14","PivotMax":"C14","PivotMin":"C14","CrossOver":"C14","CrossUnder":"C14","SmaT":"C03"}
def fn_at(f,line):
    import re
    name=""
    for k,l in enumerate(open(REPO+"/"+f),1):
        if k>line: break
        m=re.match(r"func (?:\([^)]*\) )?(\w+)",l)
        if m: name=m.group(1)
    return name
def checks_of(m):
    cs=checks_for(m["File"])
    if m["File"]=="utils/ta/ta.go":
        c=TA.get(fn_at(m["File"],m["Line"]),"C15")
        cs=[c]+([] if FAST else [x for x in cs if x!=c])
    elif m["File"].split("/")[0] in ("trend","channel","oscillator","volume"):
        f=fn_at(m["File"],m["Line"])
        first=cs[1:2] if f=="AnalysisSide" else ["C36"] if f.startswith("New") else ["C30"] if f.startswith("Get") else cs[:1]
        cs=first+["C30"]+[x for x in cs if x not in first+["C30"]]
    return cs

def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
out=sys.argv[1]; a=sys.argv[2:]; J=3; frac=1.0
if a[0]=="-j": J=int(a[1]); a=a[2:]
if a[0]=="-f": frac=float(a[1]); a=a[2:]
ENV=". /opt/vp/env.sh; export GOFLAGS='-mod=readonly -buildvcs=false' TZ=UTC;"
sh("cd /verif/tools/mutate && "+ENV.replace("readonly","mod")+" go build -o /tmp/mutate .")
q=queue.Queue()
done=set()
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); done.add((d["File"],d["From"],d["To"],d["New"]))
random.seed(7)
ms=[json.loads(l) for l in sh("cd "+REPO+" && /tmp/mutate "+" ".join(a)).stdout.splitlines()]
random.Random(11).shuffle(ms)
for m in ms:
    if (m["File"],m["From"],m["To"],m["New"]) in done or random.random()>frac: continue
    q.put(m)
print(q.qsize(),"mutants",flush=True)
lock=threading.Lock()
def worker(w):
    tmp=tempfile.mkdtemp(prefix="mut")
    rp=tmp+"/repo"; vv=tmp+"/verif"
    sh(f"git -C {REPO} worktree list; cp -a {REPO} {rp}; mkdir {vv}; cp -a /verif/mc /verif/run.sh /verif/vsched /verif/rewrite /verif/KNOWN_FINDINGS.txt {vv}/")
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        p=rp+"/"+m["File"]; s=open(REPO+"/"+m["File"],"rb").read()
        open(p,"wb").write(s[:m["From"]]+m["New"].encode()+s[m["To"]:])
        r=sh(ENV+"go build ./"+os.path.dirname(m["File"]),cwd=rp)
        res="nocompile"
        if r.returncode==0:
            res="SURVIVED"; log=""
            for c in checks_of(m):
                r=sh(f"timeout 900 {vv}/run.sh {c} quick",env=dict(os.environ,VERIF_REPO=rp,VERIF_ROOT=tmp+"/vr"))
                if r.returncode==1 and "VIOLATION" in r.stdout:
                    res=c; break
                if r.returncode not in (0,1):
                    res="RC%d %s %s"%(r.returncode,c,r.stdout[-200:]+r.stderr[-200:]); break
        open(p,"wb").write(s)
        m["res"]=res
        with lock:
            open(out,"a").write(json.dumps(m)+"\n")
            if res!="nocompile" and not res.startswith("C"): print(m["File"],m["Line"],m["Desc"][:120],"|",res[:300],flush=True)
    shutil.rmtree(tmp)
ts=[threading.Thread(target=worker,args=(k,)) for k in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]
