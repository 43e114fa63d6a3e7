"""Builds TEUFEL's sources from /repo's current working tree, in variants, with a content-addressed cache.
Nothing is written below /repo."""
import os,re,sys,glob,hashlib,subprocess,shutil
from concurrent.futures import ThreadPoolExecutor
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("MC_REPO","/repo")
def _cachedir():
    d=os.environ.get("MC_BUILD") or os.path.join(VERIF,".build")
    try:
        os.makedirs(d,exist_ok=True); t=os.path.join(d,".w%d"%os.getpid()); open(t,"w").close(); os.remove(t); return d
    except OSError:
        import tempfile; return tempfile.mkdtemp(prefix="mcbuild")
CACHE=_cachedir()
CXX=os.environ.get("MC_CXX","g++")
MPI_INC=["/usr/lib/x86_64-linux-gnu/openmpi/include","/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
INC=["-I"+REPO+"/src","-I/usr/include/eigen3","-I/usr/include/hdf5/serial","-I"+REPO+"/lib/SDDS"]+["-isystem"+p for p in MPI_INC]
COMMON=["-std=c++11","-m64","-pthread","-g1","-w"]+os.environ.get("MC_XFLAGS","").split()
VARIANTS={
 # address/undefined-behaviour checked build for sequential enumeration
 "asan":["-O1","-fopenmp","-fsanitize=address,undefined","-fno-sanitize-recover=all","-fno-omit-frame-pointer"],
 # plain build (floating point as in the release build, no -ffast-math there either)
 "plain":["-O2","-fopenmp"],
 # plain build against our scheduler runtime: thread instrumentation calls resolved by harness/sched_rt.cpp
 "sched":["-O1","-fopenmp","-fsanitize=thread","-fno-omit-frame-pointer"],
}
LIBDIRS=["/usr/lib/x86_64-linux-gnu/hdf5/serial"]
SDDSLIBS=["libSDDS1.a","libmdblib.a","libmdbcommon.a","liblzma.a"]
def libs():
    return ["-L"+d for d in LIBDIRS]+["-Wl,-rpath,"+d for d in LIBDIRS]+["-lhdf5"]+\
      [REPO+"/lib/SDDS/"+l for l in SDDSLIBS]+["-lpugixml","-lmuparser","-lz","-ldl","-lm"]
MAINS={"teufel_hybrid.cpp","propagate.cpp","reflection.cpp","cavity.cpp"}
def lib_sources():
    return sorted(f for f in glob.glob(REPO+"/src/*.cpp") if os.path.basename(f) not in MAINS)
def sha(*parts):
    h=hashlib.sha256()
    for p in parts: h.update(p if isinstance(p,bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]
def read(f):
    with open(f,"rb") as fh: return fh.read()
_hdr=None
def headers_hash():
    global _hdr
    if _hdr is None:
        h=[]
        for f in sorted(glob.glob(REPO+"/src/*.h")+glob.glob(REPO+"/src/*.in")+glob.glob(REPO+"/src/*.hpp")+glob.glob(REPO+"/lib/SDDS/*.h")+[REPO+"/CMakeLists.txt"]):
            h.append(os.path.basename(f)); h.append(read(f))
        _hdr=sha(*h)
    return _hdr
def verif_headers_hash():
    fs=sorted(glob.glob(VERIF+"/mc/*.h")+glob.glob(VERIF+"/harness/*.h"))
    return sha(*[x for f in fs for x in (os.path.basename(f),read(f))])
def config_dir():
    cm=open(REPO+"/CMakeLists.txt").read(); t=open(REPO+"/src/config.h.in").read()
    def sub(m):
        r=re.search(r"set\s*\(\s*%s\s+\"?([^\s)\"]+)"%re.escape(m.group(1)),cm); return r.group(1) if r else "0"
    t=re.sub(r"@(\w+)@",sub,t)
    d=os.path.join(CACHE,"cfg-"+sha(t)); os.makedirs(d,exist_ok=True)
    f=os.path.join(d,"config.h")
    if not os.path.exists(f):
        tmp=f+".%d"%os.getpid(); open(tmp,"w").write(t); os.rename(tmp,f)
    return d
# The instrumentation sees neither a result stored straight into its destination nor an argument copied at a
# call when the class is trivially copyable. In the scheduler build these small classes get a user-provided
# (empty) destructor, which changes nothing but makes the compiler store and copy them by ordinary assignments.
SEEN=["Vector","ElMagField","ElMagObs","tri_ref"]
def seen_tree():
    fs=sorted(f for e in ("cpp","h","hpp","in") for f in glob.glob(REPO+"/src/*."+e))
    d=os.path.join(CACHE,"seen-"+sha(*[x for f in fs for x in (os.path.basename(f),read(f))]+SEEN))
    if not os.path.isdir(d):
        tmp=d+".%d"%os.getpid(); os.makedirs(tmp,exist_ok=True)
        for f in fs:
            t=read(f)
            if f.endswith(".h"):
                for c in SEEN:
                    if re.search(rb"~\s*"+c.encode()+rb"\s*\(",t): continue
                    t=re.sub(rb"((?:^|\n)\s*(class|struct)\s+"+c.encode()+rb"\s*\{)",lambda m:m.group(1)+b" public: ~"+c.encode()+b"() {} "+(b"private: " if m.group(2)==b"class" else b""),t)
            open(os.path.join(tmp,os.path.basename(f)),"wb").write(t)
        try: os.rename(tmp,d)
        except OSError: shutil.rmtree(tmp,ignore_errors=True)
    return d
class BuildError(Exception): pass
def run(cmd):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace")
    if r.returncode: raise BuildError(" ".join(cmd)+"\n"+r.stdout[-6000:])
def compile_one(src,flags,extra_key="",srcdir=None):
    """compile src with flags; object cached by content"""
    own=src.startswith(VERIF)
    key=sha(os.path.basename(src),read(src),headers_hash(),verif_headers_hash() if own else "", " ".join(flags),extra_key,CXX,os.path.basename(srcdir) if srcdir else "")
    obj=os.path.join(CACHE,key+".o")
    if not os.path.exists(obj):
        tmp=obj+".%d.tmp.o"%os.getpid()
        run([CXX]+flags+([("-I"+srcdir) if i=="-I"+REPO+"/src" else i for i in INC] if srcdir else INC)+["-I"+config_dir(),"-I"+VERIF+"/mc","-I"+VERIF+"/harness","-c",src,"-o",tmp])
        os.rename(tmp,obj)
    return obj
def pmap(f,xs):
    with ThreadPoolExecutor(max_workers=int(os.environ.get("MC_JOBS","8"))) as ex: return list(ex.map(f,xs))
def build(name,harness,variant="asan",extra=(),mains=(),libsrc=True,defs=(),ldflags=(),hflags=None,rename_main=True):
    """link executable from lib objects of the variant + harness sources (+ main programs with main() renamed)"""
    vf=COMMON+VARIANTS[variant]+list(defs)
    hf=COMMON+(VARIANTS[variant] if hflags is None else list(hflags))+list(defs)
    jobs=[]
    sd=seen_tree() if variant=="sched" else None
    loc=lambda f: os.path.join(sd,os.path.basename(f)) if sd else f
    if libsrc: jobs+=[(loc(s),vf) for s in lib_sources()]
    for m in mains:
        jobs.append((loc(REPO+"/src/"+m), vf+["-DOMPI_SKIP_MPICXX=1"]+(["-Dmain=%s_main"%m[:-4]] if rename_main else [])))
    jobs+=[(os.path.join(VERIF,"harness",h),hf) for h in harness]
    config_dir()
    # long ones first
    jobs.sort(key=lambda j:-os.path.getsize(j[0]))
    objs=pmap(lambda j:compile_one(*j,srcdir=sd),jobs)
    key=sha(name,*sorted(objs)," ".join(list(extra)+list(ldflags)+VARIANTS[variant]),*[read(REPO+"/lib/SDDS/"+l) for l in SDDSLIBS])
    exe=os.path.join(CACHE,name+"-"+key)
    if not os.path.exists(exe):
        tmp=exe+".%d.tmp"%os.getpid()
        lf=[f for f in VARIANTS[variant] if f.startswith("-f") or f.startswith("-O")]
        if hflags is not None or "-nolinksan" in ldflags: lf=[f for f in lf if "sanitize" not in f]
        run([CXX]+lf+["-pthread","-rdynamic"]+sorted(objs)+["-o",tmp]+[l for l in ldflags if l!="-nolinksan"]+list(extra)+libs())
        os.rename(tmp,exe)
    return exe
