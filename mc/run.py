#!/usr/bin/env python3
"""Driver: run.py <property> [quick|thorough]   /   run.py --replay <replay file>"""
import os,sys,json,time,subprocess,tempfile,shutil,struct,signal,re
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS
VERIF=B.VERIF
ENV=dict(os.environ,OMP_NUM_THREADS="1",HDF5_USE_FILE_LOCKING="FALSE",LC_ALL="C",TZ="UTC",
 ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:color=never:symbolize=1:malloc_context_size=8:max_malloc_fill_size=4096:malloc_fill_byte=190",
 UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1:color=never")
for k in ("LD_PRELOAD",): ENV.pop(k,None)
HANG=float(os.environ.get("MC_HANG","90"))
class Shard:
    def __init__(s,exe,args,work):
        s.work=work; os.makedirs(work,exist_ok=True); s.out=os.path.join(work,"out.jsonl"); s.err=os.path.join(work,"stderr")
        s.args=[exe]+args+["--work",work,"--out",s.out]; s.start()
    def start(s):
        s.p=subprocess.Popen(s.args,stdin=subprocess.DEVNULL,stdout=subprocess.DEVNULL,stderr=open(s.err,"wb"),env=ENV,start_new_session=True,cwd=s.work)
        s.last=None; s.t=time.time(); s.hung=False
    def cur(s):
        try:
            d=open(os.path.join(s.work,"cur"),"rb").read(8192); n=struct.unpack("<Q",d[:8])[0]; return n,d[16:].split(b"\0")[0].decode("latin1")
        except Exception: return 0,""
    def poll(s,hang):
        if s.p.poll() is not None: return True
        c=s.cur()[0]
        if c!=s.last: s.last=c; s.t=time.time()
        elif time.time()-s.t>hang: s.hung=True; s.kill(); return True
        return False
    def kill(s):
        try: os.killpg(s.p.pid,signal.SIGKILL)
        except OSError: pass
        s.p.wait()
    def result(s):
        """(fails, done) ; crashes turn into fails"""
        fails=[];done=None
        try:
            for l in open(s.out,errors="replace"):
                try: d=json.loads(l)
                except ValueError: continue
                if d["t"]=="fail": fails.append(d)
                elif d["t"]=="done": done=d
        except OSError: pass
        if done is None:
            n,c=s.cur(); err=open(s.err,errors="replace").read()[-12000:]
            if s.hung: msg="does not terminate (no progress for %.0f s)"%HANG
            else:
                m=re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|terminate called[^\n]*(\n[^\n]*what[^\n]*)?)",err)
                msg="crash rc=%s: %s"%(s.p.returncode,m.group(1) if m else err[-600:])
                fr=re.findall(r"#\d+ 0x\w+ in ([^\n]*?/src/[^\n]*)",err)
                if fr: msg+=" at "+" < ".join(fr[:3])
            fails.append(dict(t="fail",case=c,key=c,msg=msg,crash=True,started=n>0))
        return fails,done
def run_shards(exe,n,extra,base,tag,deadline):
    S=[Shard(exe,extra+["--shard","%d/%d"%(i,n)],os.path.join(base,"%s-%d"%(tag,i))) for i in range(n)]
    live=list(S); over=False
    while live:
        live=[s for s in live if not s.poll(HANG)]
        if live and time.time()>deadline:
            for s in live: s.kill(); s.over=True
            over=True; break
        time.sleep(0.05)
    return S,over
def known(pid):
    r=[]
    f=os.path.join(VERIF,"known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m=re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)",l.strip())
            if m and m.group(1)==pid: r.append((m.group(2),m.group(3)))
    return r
def main():
    if sys.argv[1]=="--replay":
        rp=json.load(open(sys.argv[2])); pid=rp["property"]; tier=rp.get("tier","quick"); only=rp["case"]; only_bin=rp.get("binary")
    else:
        pid=sys.argv[1]; only=None; only_bin=None
        tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick")
        if tier not in("quick","thorough"): tier="quick"
    if os.environ.get("MC_ONLY"): only=os.environ["MC_ONLY"]
    seed=int(os.environ.get("VERIF_SEED","1") or 1)
    C=CHECKS[pid]; t0=time.time()
    budget=float(os.environ.get("MC_BUDGET","840" if tier=="quick" else "14000"))
    deadline=t0+budget
    base=tempfile.mkdtemp(prefix="mc-%s-"%pid)
    rc=2
    try: rc=check(pid,tier,seed,C,base,t0,deadline,only,only_bin)
    except B.BuildError as e: print("BUILD ERROR in check %s:\n%s"%(pid,e)); rc=3
    finally: shutil.rmtree(base,ignore_errors=True)
    sys.exit(rc)
def check(pid,tier,seed,C,base,t0,deadline,only,only_bin):
    tot=dict(cases=0,trans=0); states=set(); outcomes=set(); samples=[]; notes={}; viol=[]; perbin={}
    exes=[]
    for b in C["bins"]:
        if only_bin and b["name"]!=only_bin: continue
        aux={k:B.build(**v) for k,v in b.get("aux",{}).items()}
        exes.append((b,B.build(name=b["name"],harness=b["harness"],variant=b.get("variant","asan"),mains=b.get("mains",()),ldflags=b.get("ldflags",()),
                    libsrc=b.get("libsrc",True),defs=b.get("defs",()),hflags=b.get("hflags")),aux))
    tb=time.time()-t0; err=None
    for b,exe,aux in exes:
        extra=["--tier",tier,"--seed",str(seed)]
        for k,v in aux.items(): ENV["MC_EXE_"+k]=v
        ENV["MC_REPO"]=B.REPO; ENV["MC_VERIF"]=VERIF
        if only: extra+=["--only",only]
        n=1 if only else b.get("shards",8)
        S,over=run_shards(exe,n,extra,base,b["name"],deadline)
        if over:
            err="time budget exceeded in %s (cases: %s)"%(b["name"],[s.cur() for s in S if getattr(s,'over',0)]); 
        bc=0
        for s in S:
            if getattr(s,"over",False): continue
            fails,done=s.result()
            if done:
                tot["cases"]+=done["cases"]; tot["trans"]+=done["trans"]; samples+=done["samples"]; bc+=done["cases"]
                for k,v in done["notes"].items(): notes[k]=notes.get(k,0)+v
                for f,st in(("states.bin",states),("outcomes.bin",outcomes)):
                    try: d=open(os.path.join(s.work,f),"rb").read()
                    except OSError: d=b""
                    st.update((b["name"],x) for x in struct.unpack("<%dQ"%(len(d)//8),d))
            for f in fails: viol.append((b,exe,f))
        perbin[b["name"]]=bc
    # replay before report
    conf={}; kf=known(pid); kseen={}; nrep=0
    for b,exe,f in viol:
        k=(b["name"],f["key"])
        if k in conf: continue
        hit=[x for x in kf if x[0]==f["key"]]
        if hit: kseen[f["key"]]=hit[0][1]; continue
        if f.get("crash") and not f.get("started"): err="harness %s failed before its first case: %s"%(b["name"],f["msg"]); continue
        if nrep>=6 or time.time()>deadline-20: 
            if conf: continue
        nrep+=1
        s=Shard(exe,["--tier",tier,"--seed",str(seed),"--only",f["case"]],os.path.join(base,"replay%d"%nrep))
        while not s.poll(HANG*1.5 if f.get("crash") else HANG*2): time.sleep(0.05)
        rf,_=s.result()
        if rf: conf[k]=(b,rf[0] if not f.get("crash") else dict(f,msg=rf[0]["msg"]))
        else:
            # depends on preceding cases of the shard (history): rerun the whole shard
            for i in range(8 if not only else 0):
                s=Shard(exe,["--tier",tier,"--seed",str(seed),"--shard","%d/%d"%(i,b.get("shards",8))],os.path.join(base,"replayS%d_%d"%(nrep,i)))
                while not s.poll(HANG) and time.time()<deadline: time.sleep(0.05)
                if s.p.poll() is None: s.kill(); break
                rf,_=s.result()
                rf=[x for x in rf if x["key"]==f["key"]]
                if rf: conf[k]=(b,dict(rf[0],msg=rf[0]["msg"]+" (only after the preceding cases of shard %d)"%i)); break
            else: err="failure of case %s not reproducible: %s"%(f["case"],f["msg"])
    rdir=os.path.join(VERIF,"evidence","replay"); os.makedirs(rdir,exist_ok=True)
    paths=[]
    for i,((bn,key),(b,f)) in enumerate(sorted(conf.items())):
        path=os.path.join(rdir,"%s-%d.json"%(pid,i))
        json.dump(dict(property=pid,binary=bn,tier=tier,seed=seed,case=f["case"],key=key,message=f["msg"],
            how="python3 /verif/mc/run.py --replay "+path),open(path,"w"),indent=1)
        paths.append(path)
    wall=time.time()-t0
    for k,w in sorted(kseen.items()): print("KNOWN-FINDING: property=%s key=%s %s"%(pid,k,w))
    cov=dict(samples=samples[:12] or ["(none)"],exhaustive=not err,outcomes=len(outcomes),per_harness=perbin,bounds=C.get("bounds",""),build_s=round(tb,1),**{k:(int(v) if float(v).is_integer() else v) for k,v in notes.items()})
    if C["level"]=="model_checking": cov.update(states=len(states),transitions=tot["trans"],traces_validated_against_impl=tot["cases"])
    else: cov.update(evaluations=tot["cases"],distinct_nontrivial=len(states),rule=C.get("rule",""))
    if not only:
        json.dump(dict(property=pid,tier=tier,seed=seed,level=C["level"],coverage=cov,assumptions=C.get("assumptions",[]),wall_s=round(wall,2),violations=len(conf)),
          open(os.path.join(VERIF,"evidence",pid+".json"),"w"),indent=1)
    print("%s %s: cases=%d states=%d transitions=%d outcomes=%d build=%.1fs wall=%.1fs known=%d violations=%d %s"%(pid,tier,tot["cases"],len(states),tot["trans"],len(outcomes),tb,wall,len(kseen),len(conf),notes))
    if conf:
        for ((bn,key),(b,f)),path in zip(sorted(conf.items()),paths):
            print("  %s case=%s: %s"%(bn,f["case"],f["msg"])); print("VIOLATION property=%s replay=%s"%(pid,path))
        return 1
    if err: print("CHECK ERROR: "+err); return 2
    return 0
main()
