#!/usr/bin/env python3
# writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json,...} from tools/seeds/*.py (not used by any check)
import os,sys,json,subprocess,shutil,glob,importlib.util
T=os.path.dirname(os.path.abspath(__file__)); SEED=os.path.join(os.path.dirname(T),'seeded')
HDR='''#pragma once
#include "global.h"
#include "fields.h"
#include "fieldtrace.h"
#include "particle.h"
#include "bunch.h"
#include "beam.h"
#include "observer.h"
#include "screen.h"
#include "snapshot.h"
#include "point_observer.h"
#include "mesh.h"
#include "undulator.h"
#include "dipole.h"
#include "wave.h"
#include "fel1d.h"
#include "source_screen.h"
#include "logger.h"
#include "parser.h"
#include "hdf5.h"
#include <vector>
#include <array>
#include <string>
#include <iostream>
#include <math.h>
#include <stdio.h>
typedef Vector V; typedef std::size_t sz;
static int bad=0;
static void expect(const char*what,double got,double want,double tol){ if(!(fabs(got-want)<=tol)){ fprintf(stderr,"%s: got %.15g expected %.15g\\n",what,got,want); bad=1; } }
static void expectv(const char*what,V a,V b,double tol){ expect(what,a.x,b.x,tol); expect(what,a.y,b.y,tol); expect(what,a.z,b.z,tol); }
struct W{ hid_t f; W(const char*fn){f=H5Fcreate(fn,H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT);} ~W(){H5Fclose(f);}
 hid_t ds(const char*n,std::vector<hsize_t> d,hid_t t,const void*p){ hid_t s=H5Screate_simple(d.size(),d.data(),0); hid_t x=H5Dcreate2(f,n,t,s,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); H5Dwrite(x,t,H5S_ALL,H5S_ALL,H5P_DEFAULT,p); H5Sclose(s); return x; }
 void at(hid_t d,const char*n,int v){hid_t s=H5Screate(H5S_SCALAR);hid_t a=H5Acreate2(d,n,H5T_NATIVE_INT,s,H5P_DEFAULT,H5P_DEFAULT);H5Awrite(a,H5T_NATIVE_INT,&v);H5Aclose(a);H5Sclose(s);}
 void at(hid_t d,const char*n,double v){hid_t s=H5Screate(H5S_SCALAR);hid_t a=H5Acreate2(d,n,H5T_NATIVE_DOUBLE,s,H5P_DEFAULT,H5P_DEFAULT);H5Awrite(a,H5T_NATIVE_DOUBLE,&v);H5Aclose(a);H5Sclose(s);} };
static std::vector<double> rd(const char*fn,const char*n){ std::vector<double> r; hid_t f=H5Fopen(fn,H5F_ACC_RDONLY,H5P_DEFAULT); if(f<0)return r; if(H5Lexists(f,n,H5P_DEFAULT)>0){ hid_t d=H5Dopen2(f,n,H5P_DEFAULT),s=H5Dget_space(d); r.resize(H5Sget_simple_extent_npoints(s)); if(r.size())H5Dread(d,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,r.data()); H5Sclose(s);H5Dclose(d);} H5Fclose(f); return r; }
static double rdat(const char*fn,const char*n,const char*a){ double v=NAN; hid_t f=H5Fopen(fn,H5F_ACC_RDONLY,H5P_DEFAULT); hid_t d=H5Dopen2(f,n,H5P_DEFAULT); hid_t h=H5Aopen_name(d,a); H5Aread(h,H5T_NATIVE_DOUBLE,&v); H5Aclose(h);H5Dclose(d);H5Fclose(f); return v; }
struct Mesh{ std::vector<V> p; std::vector<std::array<int,3>> t; std::vector<V> pos; std::vector<double> t0; int Nt=-1; double dt=0; std::vector<double> f; };
static void centers(Mesh&m){ m.pos.clear(); for(auto&a:m.t)m.pos.push_back((m.p[a[0]]+m.p[a[1]]+m.p[a[2]])/3.0); }
static void save(const Mesh&m,const char*fn){ W w(fn); hid_t d;
  d=w.ds("MeshCornerPoints",{m.p.size(),3},H5T_NATIVE_DOUBLE,m.p.data()); w.at(d,"Ncp",(int)m.p.size()); H5Dclose(d);
  std::vector<int> tr; for(auto&a:m.t)for(int k:a)tr.push_back(k); d=w.ds("MeshTriangles",{m.t.size(),3},H5T_NATIVE_INT,tr.data()); w.at(d,"Ntri",(int)m.t.size()); H5Dclose(d);
  d=w.ds("ObservationPosition",{m.pos.size(),3},H5T_NATIVE_DOUBLE,m.pos.data()); w.at(d,"Np",(int)m.pos.size()); H5Dclose(d);
  if(m.Nt>=0){ d=w.ds("ObservationTime",{m.t0.size()},H5T_NATIVE_DOUBLE,m.t0.data()); w.at(d,"Nt",m.Nt); w.at(d,"dt",m.dt); H5Dclose(d); }
  if(!m.f.empty()){ d=w.ds("ElMagField",{m.pos.size(),(hsize_t)m.Nt,6},H5T_NATIVE_DOUBLE,m.f.data()); H5Dclose(d); } }
// strip of n triangles
static Mesh strip(int n,V c,V u,V v){ Mesh m; for(int i=0;i<n+2;i++){ V cc=c; m.p.push_back(cc+u*(0.5*(i/2)-0.25*(n/2))+v*((i&1)?0.5:-0.5)); } for(int i=0;i<n;i++){ if(i&1)m.t.push_back({{i,i+2,i+1}}); else m.t.push_back({{i,i+1,i+2}}); } centers(m); return m; }
'''
CPP='''R=$(pwd); H=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d) || exit 3; trap 'rm -rf "$W"' EXIT
S=$R/lib/SDDS
g++ -no-pie -std=c++11 -O1 -fopenmp -w -I"$H" -I$R/src -I$R/_build -I/usr/include/eigen3 -I/usr/include/hdf5/serial -I$S $(mpicxx --showme:compile) "$H/demo.cpp" $R/_build/libTEUFELlib.a $S/libSDDS1.a $S/libmdblib.a $S/libmdbcommon.a $S/liblzma.a -lpugixml -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lz -lmuparser $(mpicxx --showme:link) -o $W/demo || exit 3
cd $W
'''
def make(s):
    d=os.path.join(SEED,s['id']); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w='/tmp/seed/mk'; shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    subprocess.check_call(['git','-C','/repo','worktree','prune'])
    subprocess.check_call('git -C /repo archive HEAD src | tar x -C '+w,shell=True); 
    subprocess.check_call('git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm a',shell=True,cwd=w)
    for e in s['edits']:
        f,old,new=e[:3]; n=e[3] if len(e)>3 else None
        p=os.path.join(w,f); t=open(p).read(); c=t.count(old)
        if n is None:
            assert c==1,(s['id'],f,c,old)
            t=t.replace(old,new)
        else:
            i=-1
            for _ in range(n): i=t.index(old,i+1)
            t=t[:i]+new+t[i+len(old):]
        open(p,'w').write(t)
    diff=subprocess.check_output(['git','diff'],cwd=w).decode(); assert diff
    open(d+'/patch.diff','w').write(diff)
    for f in set(e[0] for e in s['edits']):
        base=set(l.strip() for l in subprocess.check_output(['git','-C','/repo','show','815d23b:'+f]).decode(errors='replace').splitlines())
        old=set(l.strip() for l in open(os.path.join(w,f)))
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() not in base and l[1:].strip() in set(x.strip() for x in subprocess.check_output(['git','-C','/repo','show','HEAD:'+f]).decode(errors='replace').splitlines()): print('  NOT ORIGINAL:',s['id'],l)
    json.dump({'property':s['p'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    sh='#!/bin/bash\n# exit 0 if the behaviour is as specified, nonzero otherwise\n'+CPP+s.get('run','./demo >out.txt || exit 1\nexit 0\n') if 'cpp' in s else '#!/bin/bash\n# exit 0 if the behaviour is as specified, nonzero otherwise\n'+"R=$(pwd); H=$(cd \"$(dirname \"$0\")\" && pwd); W=$(mktemp -d) || exit 3; trap 'rm -rf \"$W\"' EXIT\n"+s['run']
    open(d+'/demo.sh','w').write(sh); os.chmod(d+'/demo.sh',0o755)
    if 'cpp' in s:
        open(d+'/demo.h','w').write(HDR); open(d+'/demo.cpp','w').write('#include "demo.h"\n'+s['cpp'])
    for k,v in s.get('files',{}).items(): open(os.path.join(d,k),'w').write(v)
    shutil.rmtree(w)
want=set(sys.argv[1:])
for f in sorted(glob.glob(T+'/seeds/*.py')):
    sp=importlib.util.spec_from_file_location('m',f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for s in m.SEEDS:
        if not want or s['id'] in want: make(s); print(s['id'])
