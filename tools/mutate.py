#!/usr/bin/env python3
# mutation campaign in scratch copies (not used by any check): tools/mutate.py WORKER NWORKERS [N per file] [files...]
# prints KILLED/SURVIVED/NOBUILD per mutant to /tmp/mut/log.WORKER
import os,re,sys,random,subprocess,shutil,glob,time,hashlib
MAP={'beam.cpp':'C03 C08 C12 C25 C02 C21','bunch.cpp':'C17 C16 C08 C03 C12 C13 C21','dipole.cpp':'C09 C28','fel1d.cpp':'C18 C25 C20 C14','fields.cpp':'C08 C09 C10 C27','fieldtrace.cpp':'C10 C07 C26 C27 C23',
'logger.cpp':'C13 C20 C21','mesh.cpp':'C22 C11 C19 C27 C20 C23 C24','parser.cpp':'C28 C15 C14 C16','particle.cpp':'C05 C06 C07 C04 C03 C21','point_observer.cpp':'C27 C19 C11 C20','propagate.cpp':'C23 C20','reflection.cpp':'C24 C20',
'screen.cpp':'C27 C11 C19 C20 C01','snapshot.cpp':'C27 C19 C11 C20 C21','source_screen.cpp':'C26 C20','teufel_hybrid.cpp':'C25 C02 C13 C20 C14','undulator.cpp':'C09 C28','vector.cpp':'C09 C05 C22','wave.cpp':'C09 C28','global.cpp':'C02 C25'}
W=int(sys.argv[1]); NW=int(sys.argv[2]); NPF=int(sys.argv[3]) if len(sys.argv)>3 else 40; FILES=sys.argv[4:] or sorted(MAP)
OPS=[(r' < ',' <= '),(r'(?<=\w)<(?=\w+;)','<='),(r' <= ',' < '),(r'<=','<'),(r' > ',' >= '),(r'>=','>'),(r'==','!='),(r'!=','=='),(r' \+ ',' - '),(r' - ',' + '),(r'(?<=\w)\*(?=\w)','/'),(r'(?<=[\w)])/(?=[\w(])','*'),(r'\+=','-='),(r'-=','+='),(r'\+=','='),(r'&&','||'),(r'\|\|','&&'),
 (r'\b0\.5\b','1.0'),(r'\b2\.0\b','1.0'),(r'\b1\.0\b','2.0'),(r'\b0\b(?![.x])','1'),(r'\b1\b(?!\.)','0'),(r'\b([2-9])\b(?!\.)',lambda m:str(int(m.group(1))+1)),(r'\.x\b','.y'),(r'\.y\b','.z'),(r'\.z\b','.x'),(r'\bix\b','iy'),(r'\bi\+1\b','i'),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\bcos\(','sin('),(r'\bsin\(','cos('),(r'\bfloor\(','rint('),(r'\brint\(','floor('),(r'!(?=\w)',''),(r'\bE\(\)','B()'),(r'\bNx\b','Ny'),(r'\bNOP\b','NOB')]
def cands(f):
    L=open('/repo/src/'+f,errors='replace').read().split('\n'); out=[]; com=False
    for i,l in enumerate(L):
        s=l.strip()
        if com:
            if '*/' in s: com=False
            continue
        if s.startswith('/*'):
            com='*/' not in s; continue
        if not s or s.startswith('//') or s.startswith('#') or re.match(r'(std::)?(cout|cerr)|printf|throw|return -?\d+;$|\{|\}',s) or 'IOexception(' in s and not re.search(r'if ?\(.*(<|>|=)',s.split('throw')[0]): continue
        if '<<' in s and 'cout' in s: continue
        code=l.split('//')[0]; code=code.split('throw')[0] if 'throw' in code else code; rest=l[len(code):]
        for a,b in OPS:
            for m in re.finditer(a,code):
                if code[:m.start()].count('"')%2: continue
                n=code[:m.start()]+m.expand(b) if isinstance(b,str) else code[:m.start()]+b(m)
                n+=code[m.end():]+rest
                if n!=l: out.append((i,l,n))
        if s.endswith(';') and not re.match(r'(return|const|int|double|unsigned|Vector|bool|std::|hid_t|hsize_t|char|size_t|ElMagField|static|herr_t|break|FieldTrace|Bunch|ChargedParticle|auto|float|long|continue|delete)\b',s) and ('=' in s or '(' in s) and s.count('(')==s.count(')'): out.append((i,l,re.match(r'\s*',l).group(0)+';//'+s))
        if re.match(r'(break|continue);',s): out.append((i,l,';'))
    return L,out
jobs=[]
for f in FILES:
    L,c=cands(f); r=random.Random('x'+f); r.shuffle(c); seen=set(); k=0
    for i,l,n in c:
        if k>=NPF*max(1,len(L)//200) : break
        if i in seen and random.Random(f+n).random()<.6: continue
        seen.add(i); jobs.append((f,i,l,n)); k+=1
random.Random(5).shuffle(jobs)
if W<0: print(len(jobs)); sys.exit()
D='/tmp/mut/w%d'%W; log=open('/tmp/mut/log.%d'%W,'a'); done=set(l.split('\t')[1] for g in glob.glob('/tmp/mut/log.*') for l in open(g) if '\t' in l)
os.makedirs(D,exist_ok=True); subprocess.check_call(['rsync','-a','--delete','--exclude','_build','--exclude','.git','--exclude','/examples','/repo/',D+'/r/'])
env=dict(os.environ,MC_REPO=D+'/r',MC_BUILD=D+'/bld',MC_HANG='25',MC_BUDGET='400'); V='/tmp/mut/verif'
def check(p):
    try: r=subprocess.run([V+'/check',p,'quick'],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=600)
    except subprocess.TimeoutExpired: return 9,'timeout'
    return r.returncode,r.stdout
for j,(f,i,l,n) in enumerate(jobs):
    if j%NW!=W: continue
    h=hashlib.md5((f+str(i)+n).encode()).hexdigest()[:8]
    if h in done: continue
    src=D+'/r/src/'+f; T=open('/repo/src/'+f,errors='replace').read().split('\n'); T[i]=n; open(src,'w').write('\n'.join(T)); t0=time.time(); res='SURVIVED'; by=''
    for p in MAP[f].split():
        rc,o=check(p)
        if 'BUILD ERROR' in o: res='NOBUILD'; break
        if rc!=0: res='KILLED'; by=p+('' if rc==1 else '(rc %d)'%rc); break
    shutil.copy2('/repo/src/'+f,src)
    for g in glob.glob(D+'/bld/*'):
        if os.path.isfile(g) and os.path.getmtime(g)>t0 and j>NW*6: os.remove(g)
    log.write('%s\t%s\t%s:%d\t%s\t%.0f\n  - %s\n  + %s\n'%(res,h,f,i+1,by,time.time()-t0,l.strip(),n.strip())); log.flush()
