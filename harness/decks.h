// input decks for runs of the complete program
#pragma once
#include "hyb.h"
#include <fstream>
namespace decks {
using mc::F;
static const double DT=1e-11;
struct Deck{ std::string lattice,beam,track,obs; int n=3; double dt=DT; std::string method="Vay";
  std::string xml()const{ return "<?xml version='1.0'?>\n<teufel description='d' author='a'>\n<lattice>"+lattice+"</lattice>\n<beam>"+beam+"</beam>\n"+F("<tracking method='%s' delta_t='%.17g' n='%d'>",method.c_str(),dt,n)+track+"</tracking>\n<observer>"+obs+"</observer>\n</teufel>\n"; } };
inline void write(const std::string&fn,const std::string&s){ std::ofstream f(fn.c_str()); f<<s; }
inline std::string vec(const char*tag,V v,const std::string&more=""){ return F("<%s x='%.17g' y='%.17g' z='%.17g' ",tag,v.x,v.y,v.z)+more+"/>"; }
// ---- lattice elements
inline std::string lat(char k){ switch(k){
  case 'b': return "<background>"+vec("E",V(2e5,-1e5,3e4))+vec("B",V(0.02,0.05,-0.01))+"</background>";
  case 'u': return "<undulator type='planar' name='u'>"+vec("position",V(0,0,0.0))+"<field B='0.3' period='0.01' N='4'/></undulator>";
  case 'g': return "<undulator type='transverse gradient' name='g'>"+vec("position",V(0.001,0,0.01))+"<field B='0.2' kx='40' modulation='0.1' period='0.02' N='3'/></undulator>";
  case 'w': return "<wave type='gaussian' name='w'>"+vec("position",V(0,0,0.0))+"<field lambda='300e-6' ReA='2e8' ImA='1e7' rayleigh='0.05'/></wave>";
  case 'p': return "<wave type='packet' name='p'>"+vec("position",V(0,0,0.0))+"<field lambda='400e-6' ReA='3e8' ImA='0' rayleigh='0.05' tau='2e-11'/></wave>";
  case 'h': return "<dipole type='hard edge' name='h'>"+vec("p1",V(0,0,-0.002))+vec("n1",V(0,0,-1))+vec("p2",V(0,0,0.02))+vec("n2",V(0,0,1))+vec("B",V(0,0.15,0.02))+"</dipole>";
  case 's': return "<dipole type='soft edge' name='s'>"+vec("p1",V(0,0,-0.001))+vec("n1",V(0,0,-1))+vec("p2",V(0,0,0.03))+vec("n2",V(0,0,1))+"<transition l1='0.004' l2='0.006'/>"+vec("B",V(0.1,0.1,0))+"</dipole>";
  case 'S': return "<screen name='S' file='../src.h5'>"+vec("position",V(0.0,0.0,-0.05),"t='1.5e-10'")+"</screen>"; } return ""; }
// ---- beams: particle k of a deck is distinguishable
inline std::string particle(int k,const std::string&more=""){ return F("<particle gamma='%.17g' charge='%.17g' cmr='-1'>",3.0+0.37*k,-1e-12*(1+k))+vec("position",V(1e-4*(k+1),-2e-4*k+1e-4,5e-4*(k%3)-2e-3*(k/3)))+vec("momentum",V(0.01*(k-1),0.02-0.01*k,1.0))+more+"</particle>"; }
inline std::string bunch(int k,int n,const std::string&more=""){ return F("<bunch gamma='%.17g' charge='%.17g' cmr='-1' n='%d'>",4.0+k,-3e-12*(1+k),n)+vec("position",V(1e-4*k,0,1e-3*k),"xrms='2e-4' yrms='1e-4' zrms='3e-4'")+vec("momentum",V(0,0,1),"xrms='0.01' yrms='0.01' delta='0.02'")+more+"</bunch>"; }
inline std::string log(const std::string&f,int step,const char*bf=0){ return F("<log file='%s' step='%d'",f.c_str(),step)+(bf?F(" bunching-freq='%s'",bf):"")+"/>"; }
inline std::string traj(const std::string&f,int step,int lim){ return F("<trajectories file='%s' step='%d' particles='%d'/>",f.c_str(),step,lim); }
inline std::string watch(const std::string&f,int step,bool sdds=false){ return F("<watch%s step='%d' file='%s'/>",sdds?"-sdds":"",step,f.c_str()); }
inline std::string fel(const std::string&f,int step,int N=40,double dt=DT,bool seed=true){ double h=0.03; (void)dt; return F("<fel1d N='%d'>",N)+vec("position",V(0,0,h))+vec("prop",V(0,0,2))+vec("pol",V(1,0,0))+"<mode zR='0.1' w0='1e-3' zwaist='0.05'/>"+(f.empty()?"":F("<log file='%s' step='%d'/>",f.c_str(),step))+(seed?"<seed E0='2e6' lambda='6e-3' tau='4e-11' tstart='1e-11'/>":"")+"</fel1d>"; }
// ---- observers; source: 0 default, 1 beam, 2 lattice
inline std::string src(int s){ return s==1?" source='beam'":s==2?" source='lattice'":""; }
inline std::string point(const std::string&f,int s,V x=V(0.01,0.02,0.3)){ double t0=(x.z)/SpeedOfLight-3e-12; if(s==2)t0=0; return "<point file='"+f+"'"+src(s)+">"+vec("position",x)+F("<time t0='%.17g' dt='%.17g' n='8'/></point>",t0,s==2?DT:3e-12); }
inline std::string screen(const std::string&f,int s,int nx=2,int ny=3){ double t0=0.25/SpeedOfLight-3e-12; if(s==2)t0=0; return "<screen file='"+f+"'"+src(s)+">"+vec("position",V(0.001,-0.002,s==2?0.02:0.25))+vec("hpitch",V(0.004,0,0),F("n='%d' dt='1e-13'",nx))+vec("vpitch",V(0,0.003,0),F("n='%d'",ny))+F("<time t0='%.17g' dt='%.17g' n='6'/></screen>",t0,s==2?DT:4e-12); }
inline std::string snap(const std::string&f,int s,int nx=3,int ny=2){ return "<snapshot file='"+f+"'"+src(s)+">"+vec("position",V(0.0011,0.0007,s==2?0.011:0.05))+vec("hpitch",V(0.002,0,0),F("n='%d'",nx))+vec("vpitch",V(0,0,0.003),F("n='%d'",ny))+F("<time t0='%.17g'/></snapshot>",s==2?1e-11:1.66e-10); }
inline std::string mesh(const std::string&f,int s){ return "<mesh file='"+f+"'"+src(s)+"></mesh>"; }
// mesh files observers are based on, screen file for radiation sources
inline void meshFile(const std::string&fn,int s,bool fields=false){ fix::Mesh m=fix::strip(3,V(0.001,0.002,s==2?0.015:0.2),V(0.01,0,0),V(0,0.01,0)); m.Nt=5; m.dt=s==2?DT:5e-12; for(size_t i=0;i<m.t.size();i++)m.t0.push_back(s==2?1e-13*i:0.2/SpeedOfLight-4e-12+1e-13*i); if(fields)for(size_t i=0;i<m.t.size();i++)for(int k=0;k<m.Nt;k++)for(double q:{1e5*(i+1),2e5*k,3e4,1e-3,2e-3*i,3e-3*k})m.f.push_back(q); fix::save(m,fn); }
inline void srcFile(const std::string&fn){ ScreenObserver<Lattice> o(fn,V(0,0,0),V(0.005,0,0),V(0,0.005,0),3,2,0,1e-11,0,0,10); for(int i=0;i<3;i++)for(int j=0;j<2;j++)for(int k=0;k<10;k++){ double e=1e6*sin(0.7*k+i-0.5*j)*k*(9-k); o.setField(i,j,k,ElMagField(V(e,0.3*e,0),V(-0.3*e,e,0)*(1/SpeedOfLight))); } o.generateOutput(); }
}
