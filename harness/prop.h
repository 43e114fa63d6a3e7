// C23/C24: the propagation and the reflection tool (their real main()) against an independent diffraction integral,
// and under every schedule of the OpenMP threads
#pragma once
#include "fix.h"
#include "sched_rt.h"
#include <Eigen/Dense>
using namespace fix;
#ifdef REFLECT
int reflection_main(int,char**);
static int tool(int c,char**v){return reflection_main(c,v);}
#else
int propagate_main(int,char**);
static int tool(int c,char**v){return propagate_main(c,v);}
#endif
static int call(std::vector<std::string> a){ std::vector<char*> v; for(auto&s:a)v.push_back((char*)s.c_str()); v.push_back(0); return tool((int)a.size(),v.data()); }
typedef std::vector<ElMagField> Tr;
static ElMagField mf(const Mesh&m,int i,int k){ const double*p=&m.f[6*(i*m.Nt+k)]; return ElMagField(V(p[0],p[1],p[2]),V(p[3],p[4],p[5])); }
// linear between samples, zero outside (falling to zero within one step of the first and last sample)
static ElMagField lin(const Tr&f,double t0,double dt,double t){ int N=f.size(); double x=(t-t0)/dt; if(!(x>-1&&x<N))return ElMagField(); int i=(int)std::floor(x); double w=x-i; ElMagField a,b; if(i>=0)a=f[i]; if(i+1<N)b=f[i+1]; return a*(1-w)+b*w; }
// the specified computation, written down independently
static std::vector<double> oracle(const Mesh&src,const Mesh&dst){
  int n=src.t.size(),N=src.Nt; std::vector<V> nrm(n),xi(n),eta(n); std::vector<double> area(n); V avg(0,0,0);
  for(int i=0;i<n;i++){ V a=src.p[src.t[i][0]],b=src.p[src.t[i][1]],c=src.p[src.t[i][2]]; V q=cross(c-a,b-a); area[i]=0.5*q.norm(); nrm[i]=q/q.norm(); avg+=nrm[i]; }
  for(int i=0;i<n;i++){ // any right-handed local system gives the same derivatives
    V h=std::fabs(nrm[i].x)<0.6?V(1,0,0):V(0,1,0); xi[i]=cross(h,nrm[i]); xi[i]=xi[i]/xi[i].norm(); eta[i]=cross(nrm[i],xi[i]); }
  std::vector<Tr> F(n,Tr(N)),D(n,Tr(N)),Nn(n,Tr(N));
  for(int i=0;i<n;i++)for(int k=0;k<N;k++){ ElMagField f=mf(src,i,k);
#ifdef REFLECT
    V E=f.E(),B=f.B(); f=ElMagField(nrm[i]*(2*dot(E,nrm[i]))-E,B-nrm[i]*(2*dot(B,nrm[i])));
#endif
    F[i][k]=f; }
  for(int i=0;i<n;i++)for(int k=0;k<N&&N>1;k++){ int l=std::max(0,k-1),h=std::min(N-1,k+1); D[i][k]=(F[i][h]-F[i][l])/((h-l)*src.dt); }
  double c2=SpeedOfLight*SpeedOfLight;
  for(int i=0;i<n;i++){ std::vector<int> nb; for(int j=0;j<n;j++){ bool s=false; for(int a:src.t[i])for(int b:src.t[j])s|=a==b; if(s)nb.push_back(j); }
    int m=nb.size(); Eigen::MatrixXd A(m,6); for(int r=0;r<m;r++){ V p=src.pos[nb[r]],c=src.pos[i]; V d=p-c; double x=dot(d,xi[i]),y=dot(d,eta[i]); A.row(r)<<1,x,y,x*x,y*y,x*y; }
    Eigen::JacobiSVD<Eigen::MatrixXd> svd(A,Eigen::ComputeThinU|Eigen::ComputeThinV);
    Eigen::MatrixXd R(m,6);
    for(int k=0;k<N;k++){ double t=src.t0[i]+k*src.dt; for(int r=0;r<m;r++){ ElMagField f=lin(F[nb[r]],src.t0[nb[r]],src.dt,t); R.row(r)<<dot(f.E(),xi[i]),dot(f.E(),eta[i]),dot(f.E(),nrm[i]),dot(f.B(),xi[i]),dot(f.B(),eta[i]),dot(f.B(),nrm[i]); }
      Eigen::MatrixXd S=svd.solve(R); // rows: 1,x,y,..  columns: Ex Ey Ez Bx By Bz
      V dE=D[i][k].E(),dB=D[i][k].B(); double tEx=dot(dE,xi[i]),tEy=dot(dE,eta[i]),tBx=dot(dB,xi[i]),tBy=dot(dB,eta[i]);
      double zEx=S(1,2)-tBy,zEy=S(2,2)+tBx,zEz=-S(1,0)-S(2,1),zBx=S(1,5)+tEy/c2,zBy=S(2,5)-tEx/c2,zBz=-S(1,3)-S(2,4);
      Nn[i][k]=ElMagField(xi[i]*zEx+eta[i]*zEy+nrm[i]*zEz,xi[i]*zBx+eta[i]*zBy+nrm[i]*zBz); } }
  std::vector<double> out; 
  for(size_t j=0;j<dst.t.size();j++)for(int k=0;k<dst.Nt;k++){ double t=dst.t0[j]+k*dst.dt; ElMagField s;
    for(int i=0;i<n;i++){ V q=src.pos[i],o=dst.pos[j]; V r=o-q; double R=r.norm(),tr=t-R/SpeedOfLight,dA=area[i]/(4*Pi); double cn=dot(r,nrm[i]);
      s+=(lin(F[i],src.t0[i],src.dt,tr)*(-cn/(R*R*R))+lin(D[i],src.t0[i],src.dt,tr)*(-cn/(R*R*SpeedOfLight))+lin(Nn[i],src.t0[i],src.dt,tr)*(1/R))*dA; }
    for(double x:{s.E().x,s.E().y,s.E().z,s.B().x,s.B().y,s.B().z})out.push_back(x); }
  return out; }
struct Scene{ std::string name; Mesh src,dst; };
static Mesh bentstrip(int n,V c,V u,V v,double bend){ Mesh m=strip(n,c,u,v); V w=cross(u,v); w=w/w.norm(); for(auto&p:m.p){V d=p-c; double x=dot(d,u)/dot(u,u); p=p+w*(bend*x*x)+u*(0.013*std::sin(7*x))+v*(0.02*std::cos(5*x));} centers(m); return m; }
static Mesh fan(int n,V c,double r){ Mesh m; m.p.push_back(c); for(int i=0;i<n;i++)m.p.push_back(c+V(r*std::cos(2*Pi*i/n),r*std::sin(2*Pi*i/n),0.05*r*std::sin(4*Pi*i/n))); for(int i=0;i<n;i++)m.t.push_back({{0,1+(i+1)%n,1+i}}); centers(m); return m; }
static void flip(Mesh&m){ for(auto&t:m.t)std::swap(t[1],t[2]); }
static void timing(Mesh&m,int Nt,double dt,double t0,double skew){ m.Nt=Nt;m.dt=dt; m.t0.clear(); for(size_t i=0;i<m.t.size();i++)m.t0.push_back(t0+skew*i); m.f.assign(6*m.t.size()*Nt,0); }
static std::vector<Scene> scenes(){ std::vector<Scene> r; double L=0.3; 
  auto add=[&](std::string n,Mesh a,Mesh b){Scene s{n,a,b};r.push_back(s);};
  V z(0,0,0),o(0.02,-0.01,L); double dt=5e-12,tl=L/SpeedOfLight;
  for(int n:{1,2,3,6,9})for(int bend=0;bend<2;bend++)for(int fl=0;fl<2;fl++){ if(n==9&&fl)continue; Mesh a=bentstrip(n,z,V(0.03,0,0),V(0,0.04,0),bend?0.01:0.0); if(fl)flip(a); timing(a,n==9?3:4,dt,1e-9,n>3?0.7e-12:0);
    Mesh b=strip(2,o,V(0.02,0,0.01),V(0,0.02,0)); timing(b,5,dt*0.8,1e-9+tl-4e-12,1.1e-12); add(mc::F("strip%d%s%s",n,bend?"-bent":"",fl?"-flipped":""),a,b); }
  { Mesh a=fan(7,z,0.05); timing(a,4,dt,0,0); Mesh b=strip(3,V(0.1,0.1,-0.2),V(0,0,0.05),V(0,0.05,0)); timing(b,4,2e-12,8.2e-10,1e-12); add("fan7-behind",a,b); }
  { Mesh a=bentstrip(3,z,V(0,0,0.03),V(0.04,0,0),0.004); timing(a,3,dt,0,0); Mesh b=strip(1,V(0.01,-0.25,0),V(0.05,0,0),V(0,0,0.05)); timing(b,6,3e-12,0.25/SpeedOfLight-5e-12,0); add("y-facing",a,b); }
  { Mesh a=bentstrip(3,z,V(0,0.03,0),V(0,0,0.04),0.004); flip(a); timing(a,3,dt,0,0); Mesh b=strip(1,V(-0.25,0.01,0),V(0,0.05,0),V(0,0,0.05)); timing(b,6,3e-12,0.25/SpeedOfLight-5e-12,0); add("x-facing",a,b); }
  { Mesh a=bentstrip(2,z,V(0.03,0,0),V(0,0.04,0),0); timing(a,1,dt,1e-9,0); Mesh b=strip(2,o,V(0.02,0,0),V(0,0.02,0)); timing(b,2,2e-14,1e-9+tl,1e-15); add("one-sample",a,b); }
  { Mesh a=bentstrip(2,z,V(0.03,0,0),V(0,0.04,0),0); timing(a,3,dt,1e-9,0); Mesh b=strip(2,o,V(0.02,0,0),V(0,0.02,0)); timing(b,2,dt,2e-9+tl,0); add("no-overlap",a,b); }
  { Mesh a=fan(26,z,0.05); timing(a,2,dt,0,0); Mesh b=strip(1,V(0,0,-0.3),V(0.05,0,0),V(0,0.05,0)); timing(b,3,2e-12,1e-9,0); add("fan26",a,b); }
  // slightly bent and tilted surfaces, a target in the plane of the source, near, far and grazing targets, unequal cells, very unequal times
  { int k=0; for(double b:{2e-6,3e-5,3e-4,2e-3}){ int n=3+(k++%2)*2; Mesh a=bentstrip(n,z,V(0.03,0,0),V(0,0.04,0),b); timing(a,3,dt,1e-9,0.4e-12); Mesh t=strip(1,o,V(0.02,0,0),V(0,0.02,0)); timing(t,4,dt,1e-9+tl-2e-12,0); add(mc::F("slight-bend%g",b),a,t); } }
  { Mesh a=bentstrip(4,z,V(0.03,0,0),V(0,0.04,0),0); timing(a,3,dt,0,0); Mesh b=strip(2,V(0.3,0.05,0),V(0.02,0,0.01),V(0,0.02,0)); for(auto&p:b.p)p.z=0; centers(b); timing(b,6,4e-12,0.3/SpeedOfLight-8e-12,1e-12); add("in-plane",a,b); }
  { Mesh a=strip(4,z,V(0,0.03,0),V(0,0,0.04)); timing(a,3,dt,0,0); Mesh b=strip(1,V(0,-0.3,0.02),V(0,0.05,0),V(0,0,0.05)); timing(b,6,4e-12,0.3/SpeedOfLight-8e-12,0); add("in-plane-x",a,b); }
  for(double d:{0.03,0.08,3.0,1e3}){ Mesh a=bentstrip(3,z,V(0.03,0,0),V(0,0.04,0),0.005); timing(a,3,dt*2,0,0.3e-12); Mesh b=strip(1,V(0.004,0.002,d),V(0.01,0,0),V(0,0.01,0)); timing(b,7,dt,d/SpeedOfLight-5e-12,0); add(mc::F("distance%g",d),a,b); }
  { Mesh a=bentstrip(3,z,V(0.03,0,0),V(0,0.04,0),0.002); timing(a,3,dt,0,0); Mesh b=strip(1,V(0.3,0.01,0.006),V(0,0,0.05),V(0,0.05,0)); timing(b,6,4e-12,0.3/SpeedOfLight-8e-12,0); add("grazing",a,b); }
  { Mesh a=fan(9,z,0.05); for(size_t i=1;i<a.p.size();i++)a.p[i]=a.p[i]*(1.0+0.6*std::sin(3.1*i)); centers(a); timing(a,2,dt*4,0,0); Mesh b=strip(1,o,V(0.02,0,0),V(0,0.02,0)); timing(b,5,dt*2,tl-2e-11,0); add("unequal-cells",a,b); }
  for(double sk:{-3e-12,2.6e-11,-1.3e-10}){ Mesh a=bentstrip(4,z,V(0.03,0,0),V(0,0.04,0),0.003); timing(a,4,dt,1e-9,sk); Mesh b=strip(3,o,V(0.02,0,0.01),V(0,0.02,0)); timing(b,12,dt*1.3,1e-9+tl+(sk<0?4*sk:0)-1e-11,-sk*0.3); add(mc::F("skew%g",sk),a,b); }
  { Mesh a=bentstrip(3,z,V(0.03,0,0),V(0,0.04,0),0.003); timing(a,4,dt,-2e-9,1e-13); Mesh b=strip(1,o,V(0.02,0,0.01),V(0,0.02,0)); timing(b,40,dt*0.05,-2e-9+tl,0); add("negative-times",a,b); }
  // more cells and samples: patterns only
  { Mesh a=bentstrip(140,z,V(0.03,0,0),V(0,0.04,0),2e-4); timing(a,6,dt,1e-9,1e-13); Mesh b=strip(3,o,V(0.02,0,0),V(0,0.02,0)); timing(b,20,dt*0.5,1e-9+tl-4e-12,1.1e-12); add("large-source",a,b); }
  { Mesh a=bentstrip(12,z,V(0.03,0,0),V(0,0.04,0),1e-3); timing(a,4,dt,1e-9,0); Mesh b=strip(140,o,V(0.02,0,0.01),V(0,0.02,0)); timing(b,5,dt*0.8,1e-9+tl-4e-12,2e-14); add("large-target",a,b); }
  { Mesh a=bentstrip(3,z,V(0.03,0,0),V(0,0.04,0),1e-2); timing(a,1100,dt*0.2,1e-9,0); Mesh b=strip(2,o,V(0.02,0,0.01),V(0,0.02,0)); timing(b,1400,dt*0.17,1e-9+tl-4e-12,1e-12); add("large-time",a,b); }
  return r; }
static void pattern(Mesh&m,int kind){ size_t n=m.t.size(); for(size_t i=0;i<n;i++)for(int k=0;k<m.Nt;k++){ double*p=&m.f[6*(i*m.Nt+k)]; V x=m.pos[i]; double t=m.t0[i]+k*m.dt;
   switch(kind){ case 0: for(int c=0;c<6;c++)p[c]=(c<3?1.0:1.0/SpeedOfLight)*(1.0+0.5*c+10*x.x*(c+1)-7*x.y+0.2*k*(c-2)+3*x.z); break;
     case 1: { double w=2*Pi*3e10*(t-x.z/SpeedOfLight); p[0]=3*std::cos(w);p[4]=-p[0]/SpeedOfLight; p[2]=0.1*std::sin(w); p[5]=0.1*std::cos(w)/SpeedOfLight; p[1]=0.02*x.x; p[3]=0; } break;
     default: for(int c=0;c<6;c++)p[c]=(c<3?1.0:1.0/SpeedOfLight)*(((i*7+k*3+c*5)%11)-5.0); } } }
static std::vector<double> result(const std::string&fn,int Nt,int np,std::string&err){ R r(fn); DS d=r.ds("ElMagField"); if(!d.ok){err="no output";return{};} if(d.v.size()!=(size_t)6*Nt*np)err=mc::F("output has %zu values instead of %d",d.v.size(),6*Nt*np); return d.v; }
static std::string compare(const std::vector<double>&a,const std::vector<double>&b,double tol){ if(a.size()!=b.size())return mc::F("size %zu instead of %zu",a.size(),b.size()); double sE=0,sB=0; for(size_t i=0;i<b.size();i++){ double x=std::fabs(b[i]); if(i%6<3)sE=std::max(sE,x); else sB=std::max(sB,x); } sE=std::max(sE,sB*SpeedOfLight*1e-3); sB=std::max(sB,sE/SpeedOfLight*1e-3);
  for(size_t i=0;i<b.size();i++){ double s=(i%6<3)?sE:sB; if(!(std::fabs(a[i]-b[i])<=tol*s)&&!(s==0&&a[i]==0))return mc::F("value %zu is %.12g instead of %.12g (scale %.3g)",i,a[i],b[i],s); } return ""; }
int main(int argc,char**argv){ mc::init(argc,argv); quiet(); if(chdir(mc::work.c_str()))return 9; sched::controlled=false;
  auto S=scenes(); double tol=1e-7;
  auto once=[&](Mesh&a,Mesh&b,std::string&e)->std::vector<double>{ save(a,"s.h5"); save(b,"d.h5"); unlink("o.h5"); int rc=call({"tool","s.h5","d.h5","o.h5"}); if(rc)e=mc::F("exit status %d",rc); mc::trans(); return result("o.h5",b.Nt,b.t.size(),e); };
  for(auto&s:S){ double dt=s.src.dt; (void)dt;
    // one cell / one sample / one component at a time: determines the whole (linear) operator
    for(size_t i=0;i<s.src.t.size();i++)for(int k=0;k<s.src.Nt;k++){ if(s.name.substr(0,5)=="large")continue; if(s.src.t.size()>10&&(i%13||k))continue; for(int c=0;c<6;c++){ if(!mc::begin(mc::F("impulse %s cell=%zu sample=%d component=%d",s.name.c_str(),i,k,c)))continue;
      Mesh a=s.src,b=s.dst; a.f[6*(i*a.Nt+k)+c]=c<3?1.0:1.0/SpeedOfLight; std::string e; auto o=once(a,b,e); auto w=oracle(a,b); if(e.empty())e=compare(o,w,tol); if(!e.empty())mc::fail("%s",e.c_str()); mc::H h; for(double x:o)h.d(x); mc::state(h.h); mc::outcome(h.h); } }
    for(int p=0;p<3;p++){ if(!mc::begin(mc::F("pattern %s %d",s.name.c_str(),p)))continue; Mesh a=s.src,b=s.dst; pattern(a,p); if(p==2)pattern(b,0); std::string e; auto o=once(a,b,e); auto w=oracle(a,b); if(e.empty())e=compare(o,w,tol); 
       // linear
       if(e.empty()){ for(auto&x:a.f)x*=-2.5; auto o2=once(a,b,e); for(auto&x:w)x*=-2.5; if(e.empty())e=compare(o2,w,tol); if(!e.empty())e="scaled source: "+e; }
       // geometry and timing of the result are those of the target file
       if(e.empty()){ R r("o.h5"); DS q=r.ds("ObservationPosition"),t=r.ds("ObservationTime"); for(size_t j=0;j<b.pos.size();j++){ if(q.v.size()!=3*b.pos.size()||q.v[3*j]!=b.pos[j].x||q.v[3*j+1]!=b.pos[j].y||q.v[3*j+2]!=b.pos[j].z)e="output positions differ from the target"; if(t.v.size()!=b.pos.size()||t.v[j]!=b.t0[j])e="output times differ from the target"; } if(r.at("ObservationTime","Nt")!=b.Nt||r.at("ObservationTime","dt")!=b.dt)e="output timing differs from the target"; 
         // input files untouched
         R rs("s.h5"); DS f=rs.ds("ElMagField"); if(f.v!=a.f)e="source file was changed"; }
       if(!e.empty())mc::fail("%s",e.c_str()); mc::H h; for(double x:o)h.d(x); mc::state(h.h); } }
  // all schedules
  for(auto&s:S){ if(s.src.t.size()>6||s.name.substr(0,5)=="large")continue; for(int th=2;th<=4;th++)for(int nd=1;nd<=3;nd++){ if(!mc::begin(mc::F("schedules %s targets=%d threads=%d",s.name.c_str(),nd,th)))continue;
    Mesh a=s.src; pattern(a,0); double bt0=s.dst.t0[0],bdt=s.dst.dt; Mesh b=strip(nd,s.dst.pos[0],V(0.02,0,0),V(0,0.02,0)); timing(b,2,bdt,bt0,1e-12); std::string e; auto ref=once(a,b,e); if(!e.empty()){mc::fail("%s",e.c_str());continue;}
    sched::Stats st; std::string r; uint64_t budget=mc::thorough?4000:600; int d; uint64_t ex=0; int rc=0;
    for(d=1;d<=8;d++){ st=sched::Stats(); r=sched::explore(th,d,[&]{ unlink("o.h5"); rc=call({"tool","s.h5","d.h5","o.h5"}); },[&]()->std::string{ if(rc)return mc::F("exit status %d",rc); std::string e; auto o=result("o.h5",b.Nt,b.t.size(),e); if(!e.empty())return e; for(size_t i=0;i<o.size();i++)if(memcmp(&o[i],&ref[i],8))return mc::F("value %zu is %.17g instead of the one-thread result %.17g",i,o[i],ref[i]); return ""; },st);
      ex+=st.executions; if(!r.empty()||d==8)break; if(st.executions<=1||(double)st.executions*st.maxpoints*(th-1)/(d+1)>budget)break; }
    mc::trans(st.points); mc::note("schedules",ex); mc::note(mc::F("cases_with_%d_deviations",d),1); mc::note("memory_accesses",st.accesses); mc::sample(mc::F("%s targets=%d threads=%d: %d deviations, %llu schedules, up to %llu points",s.name.c_str(),nd,th,d,(unsigned long long)st.executions,(unsigned long long)st.maxpoints));
    if(!r.empty())mc::fail("%s",r.c_str()); } }
  // failures
  { Mesh a=S[2].src,b=S[2].dst; pattern(a,0); save(a,"s.h5"); save(b,"d.h5"); { FILE*f=fopen("bad.h5","w"); fputs("this is not HDF5\n",f); fclose(f); } mkdir("dir",0755);
    { W w("empty.h5"); }
    struct F{const char*n;std::vector<std::string> a; bool clean;}; std::vector<F> fs={{"no arguments",{"tool"},true},{"one argument",{"tool","s.h5"},true},{"two arguments",{"tool","s.h5","d.h5"},true},{"missing source",{"tool","nix.h5","d.h5","o.h5"},false},{"missing target",{"tool","s.h5","nix.h5","o.h5"},false},{"source is not HDF5",{"tool","bad.h5","d.h5","o.h5"},false},{"target is not HDF5",{"tool","s.h5","bad.h5","o.h5"},false},{"source without data",{"tool","empty.h5","d.h5","o.h5"},false},{"target without data",{"tool","s.h5","empty.h5","o.h5"},false},{"output not writable",{"tool","s.h5","d.h5","dir"},false},{"output directory missing",{"tool","s.h5","d.h5","nodir/o.h5"},false}};
    for(auto&f:fs){ if(!mc::begin(std::string("failure: ")+f.n))continue; unlink("o.h5"); std::string m; int rc=mc::isolated([&]{ int fd=open("/dev/null",O_WRONLY); dup2(fd,1); dup2(fd,2); int r=call(f.a); if(r!=0)throw std::runtime_error("status"); },60,&m); mc::trans();
      if(rc==0)mc::fail("reports success"); if(rc==3)mc::fail("does not end"); if(rc==2&&f.clean)mc::fail("crashes instead of reporting the wrong arguments"); struct stat sb; if(!stat("o.h5",&sb))mc::fail("left an output file"); } }
  return mc::finish(); }
