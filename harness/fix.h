// fixtures: beams with recorded trajectories, mesh files, screen files, readers for HDF5 outputs
#pragma once
#include "teu.h"
#include "hdf5.h"
#include "observer.h"
#include "screen.h"
#include "mesh.h"
#include "snapshot.h"
#include "point_observer.h"
#include "undulator.h"
#include "dipole.h"
#include "wave.h"
#include "source_screen.h"
#include "fel1d.h"
#include <iostream>
#include <array>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
namespace fix {
// ---- silence the library's chatter
inline void quiet(){ static std::ostream*o=0; if(!o){ o=&std::cout; std::cout.setstate(std::ios_base::failbit); } H5Eset_auto2(H5E_DEFAULT,0,0); }
// ---- minimal HDF5 writing
struct W{ hid_t f; W(const std::string&fn){f=H5Fcreate(fn.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT);} ~W(){H5Fclose(f);}
 hid_t ds(const char*n,const std::vector<hsize_t>&d,hid_t t,const void*p){ hid_t s=H5Screate_simple(d.size(),d.data(),0); hid_t x=H5Dcreate2(f,n,t,s,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); bool empty=false; for(hsize_t q:d)if(!q)empty=true; if(!empty)H5Dwrite(x,t,H5S_ALL,H5S_ALL,H5P_DEFAULT,p); H5Sclose(s); return x; }
 void at(hid_t d,const char*n,int v){hid_t s=H5Screate(H5S_SCALAR);hid_t a=H5Acreate2(d,n,H5T_NATIVE_INT,s,H5P_DEFAULT,H5P_DEFAULT);H5Awrite(a,H5T_NATIVE_INT,&v);H5Aclose(a);H5Sclose(s);}
 void at(hid_t d,const char*n,double v){hid_t s=H5Screate(H5S_SCALAR);hid_t a=H5Acreate2(d,n,H5T_NATIVE_DOUBLE,s,H5P_DEFAULT,H5P_DEFAULT);H5Awrite(a,H5T_NATIVE_DOUBLE,&v);H5Aclose(a);H5Sclose(s);} };
// ---- minimal HDF5 reading
struct DS{ bool ok=false; std::vector<hsize_t> dim; std::vector<double> v; };
struct R{ hid_t f; R(const std::string&fn){f=H5Fopen(fn.c_str(),H5F_ACC_RDONLY,H5P_DEFAULT);} ~R(){if(f>=0)H5Fclose(f);} bool ok(){return f>=0;}
 bool has(const char*n){return f>=0&&H5Lexists(f,n,H5P_DEFAULT)>0;}
 DS ds(const char*n){ DS r; if(!has(n))return r; hid_t d=H5Dopen2(f,n,H5P_DEFAULT); hid_t s=H5Dget_space(d); int nd=H5Sget_simple_extent_ndims(s); r.dim.resize(nd); if(nd)H5Sget_simple_extent_dims(s,r.dim.data(),0); size_t N=1; for(hsize_t q:r.dim)N*=q; r.v.resize(N); r.ok=(N==0)||H5Dread(d,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,r.v.data())>=0; H5Sclose(s); H5Dclose(d); return r; }
 // numeric attribute of a data set (NaN if absent); arrays: first element unless vector wanted
 std::vector<double> atv(const char*n,const char*a){ std::vector<double> r; if(!has(n))return r; hid_t d=H5Dopen2(f,n,H5P_DEFAULT); if(H5Aexists(d,a)>0){ hid_t h=H5Aopen_name(d,a); hid_t s=H5Aget_space(h); hssize_t N=H5Sget_simple_extent_npoints(s); r.resize(N); if(H5Aread(h,H5T_NATIVE_DOUBLE,r.data())<0)r.clear(); H5Sclose(s); H5Aclose(h);} H5Dclose(d); return r; }
 double at(const char*n,const char*a){ auto v=atv(n,a); return v.empty()?NAN:v[0]; } };
// ---- meshes
struct Mesh{ std::vector<V> p; std::vector<std::array<int,3>> t; std::vector<V> pos; std::vector<double> t0; int Nt=-1; double dt=0; std::vector<double> f; };
inline V tricenter(const Mesh&m,int i){ V a=m.p[m.t[i][0]]; return (a+m.p[m.t[i][1]]+m.p[m.t[i][2]])/3.0; }
inline void centers(Mesh&m){ m.pos.clear(); for(size_t i=0;i<m.t.size();i++)m.pos.push_back(tricenter(m,i)); }
inline void save(const Mesh&m,const std::string&fn){ W w(fn); hid_t d;
  d=w.ds("MeshCornerPoints",{m.p.size(),3},H5T_NATIVE_DOUBLE,m.p.data()); w.at(d,"Ncp",(int)m.p.size()); H5Dclose(d);
  std::vector<int> tr; for(auto&a:m.t)for(int k:a)tr.push_back(k); d=w.ds("MeshTriangles",{m.t.size(),3},H5T_NATIVE_INT,tr.data()); w.at(d,"Ntri",(int)m.t.size()); H5Dclose(d);
  d=w.ds("ObservationPosition",{m.pos.size(),3},H5T_NATIVE_DOUBLE,m.pos.data()); w.at(d,"Np",(int)m.pos.size()); H5Dclose(d);
  if(m.Nt>=0){ d=w.ds("ObservationTime",{m.t0.size()},H5T_NATIVE_DOUBLE,m.t0.data()); w.at(d,"Nt",m.Nt); w.at(d,"dt",m.dt); H5Dclose(d); }
  if(!m.f.empty()){ d=w.ds("ElMagField",{m.pos.size(),(hsize_t)m.Nt,6},H5T_NATIVE_DOUBLE,m.f.data()); H5Dclose(d); } }
// strip of n triangles around c in the plane spanned by u,v; facing such that normal=cross(p3-p1,p2-p1)
inline Mesh strip(int n,V c,V u,V v){ Mesh m; for(int i=0;i<n+2;i++){ V cc=c; m.p.push_back(cc+u*(0.5*(i/2)-0.25*(n/2))+v*((i&1)?0.5:-0.5)); } for(int i=0;i<n;i++){ if(i&1)m.t.push_back({{i,i+2,i+1}}); else m.t.push_back({{i,i+1,i+2}}); } centers(m); return m; }
// ---- recorded trajectories: particle with charge q, n points
inline ChargedParticle* track(double q,V X,V P,double t0,double dt,int n,GeneralField*f){ ChargedParticle*p=new ChargedParticle(q,1.0); p->initTrajectory(t0,X,P,VectorZero); if(n>0){ p->InitVay(dt,f); for(int i=1;i<n;i++)p->StepVay(f); } return p; }
inline Bunch* bunch(int np,int steps,double dt,GeneralField*f,double q=-1,double z0=0){ Bunch*b=new Bunch(); for(int i=0;i<np;i++)b->Add(track(q*(1+i),V(1e-3*(i+1),-7e-4*i,z0-2e-3*i),V(0.1*(i-1),0.05,2.0+0.3*i),1e-12*i,dt,steps,f)); return b; }
}
