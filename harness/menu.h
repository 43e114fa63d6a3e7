// items of the input language with distinguishing parameter values
#pragma once
#include "refdeck.h"
namespace menu {
typedef std::string S; using mc::F;
struct Deck{ S root,lattice,beam,track,obs,tattr="method='Vay' delta_t='2e-12' n='7'"; S xml()const{ return "<?xml version='1.0'?><teufel>"+root+"<lattice>"+lattice+"</lattice><beam>"+beam+"</beam><tracking "+tattr+">"+track+"</tracking><observer>"+obs+"</observer></teufel>"; } };
inline S xyz(const char*t,double x,double y,double z,const S&more=""){ return F("<%s x='%.17g' y='%.17g' z='%.17g' ",t,x,y,z)+more+"/>"; }
inline std::vector<S> lattice(){ return {
  "<background>"+xyz("E",1e5,-2e5,3e4)+xyz("B",0.01,0.02,-0.03)+"</background>", "<background>"+xyz("E",-3e5,1e5,7e4)+"</background>", "<background>"+xyz("B",0.3,-0.1,0.2)+"</background>", "<background/>",
  "<undulator type='planar' name='a'>"+xyz("position",0.001,0.002,0.01)+"<field B='0.3' period='0.02' N='4'/></undulator>", "<undulator type='planar'>"+xyz("position",0,0,-0.04)+"<field B='-0.7' period='0.03' N='2'/></undulator>",
  "<undulator type='transverse gradient' name='g'>"+xyz("position",-0.001,0.003,0.02)+"<field B='0.2' kx='40' modulation='0.1' period='0.02' N='3'/></undulator>", "<undulator type='transverse gradient'>"+xyz("position",0,0.001,0)+"<field B='0.4' kx='25' period='0.03' N='1'/></undulator>",
  "<wave type='gaussian' name='w'>"+xyz("position",0.0001,0.0002,0.01,"t='3e-12'")+"<field lambda='300e-6' ReA='2e8' ImA='1e7' rayleigh='0.05'/></wave>", "<wave type='gaussian'>"+xyz("position",0,0,-0.02)+"<field lambda='700e-6' ReA='-1e8' ImA='4e7' rayleigh='0.1'/></wave>",
  "<wave type='packet' name='p'>"+xyz("position",0.0002,0,0.01,"t='4e-12'")+"<field lambda='400e-6' ReA='3e8' ImA='-2e7' rayleigh='0.05' tau='5e-12'/></wave>", "<wave type='packet'>"+xyz("position",0,0.0001,0,"t='-2e-12'")+"<field lambda='500e-6' ReA='1e8' ImA='0' rayleigh='0.02' tau='2e-11'/></wave>",
  "<dipole type='hard edge' name='h'>"+xyz("p1",0,0,-0.002)+xyz("n1",0,0.1,-1)+xyz("p2",0,0.01,0.02)+xyz("n2",0.1,0,1)+xyz("B",0.01,0.15,0.02)+"</dipole>", "<dipole type='hard edge'>"+xyz("B",0.1,-0.05,0.02)+xyz("p1",0.01,0,0.01)+xyz("n1",0,0,-1)+xyz("p2",0.01,0,0.05)+xyz("n2",0,0,1)+"</dipole>",
  "<dipole type='soft edge' name='s'>"+xyz("p1",0,0,-0.001)+xyz("n1",0,0,-1)+xyz("p2",0,0.001,0.03)+xyz("n2",0.1,0,1)+"<transition l1='0.004' l2='0.006'/>"+xyz("B",0.1,0.1,0.02)+"</dipole>", "<dipole type='soft edge'>"+xyz("p1",0,0.02,0.02)+xyz("n1",0,0,-1)+xyz("p2",0,0,0.04)+xyz("n2",0,0,1)+"<transition l1='0.01' l2='0.002'/>"+xyz("B",0.3,0.02,-0.05)+"</dipole>",
  "<screen name='S' file='src.h5'>"+xyz("position",0.001,0.002,-0.05,"t='1.5e-10'")+"</screen>" }; }
inline S momentum(const S&more="",double z=1){ return xyz("momentum",0.01,-0.02,z,more); }
inline std::vector<S> beam(){ return {
  "<particle gamma='3' charge='-1e-12' cmr='-1'>"+xyz("position",1e-3,-2e-3,3e-3)+momentum()+"</particle>", "<particle gamma='5' charge='2e-12' cmr='0.5'>"+xyz("position",-1e-3,2e-3,1e-3)+momentum("",-2)+"<time t0='3e-10'/></particle>", "<particle gamma='4' charge='-3e-12' cmr='-1'>"+xyz("position",0,0,1e-3)+momentum()+"<log file='p%d.sdds'/></particle>", "<particle gamma='6' charge='-4e-12' cmr='-2'>"+xyz("position",0,1e-3,0)+momentum()+"<time t0='1e-10'/><log file='p%d.sdds' step='2'/></particle>",
  "<bunch gamma='4' charge='-5e-12' cmr='-1'>"+xyz("position",1e-3,0,2e-3)+momentum()+"</bunch>", "<bunch gamma='7' charge='6e-12' cmr='0.5' n='3'>"+xyz("position",1e-3,0,2e-3,"xrms='1e-4' yrms='2e-4' zrms='3e-4'")+momentum("xrms='0.01' yrms='0.02' delta='0.03'")+"<time t0='2e-10'/></bunch>", "<bunch gamma='5' charge='-7e-12' cmr='-1' n='2'>"+xyz("position",0,1e-3,-1e-3,"xrms='3e-4' zft='5e-4'")+momentum("yrms='0.01'",3)+"<correlations><linear indep='0' dep='3' factor='20'/><linear indep='2' dep='5' factor='-30'/></correlations><log file='b%d.sdds' step='2' bunching-freq='3e11'/></bunch>", "<bunch gamma='8' charge='-8e-12' cmr='-1' n='4'>"+xyz("position",0,0,1e-3,"yrms='2e-4'")+momentum("delta='0.01'")+"<log file='b%d.sdds'/><trajectories file='t%d.h5' step='3' particles='2'/></bunch>", "<bunch gamma='9' charge='-9e-12' cmr='-1' n='3'>"+xyz("position",0,0,0,"zrms='2e-4'")+momentum("xrms='0.02'")+"<trajectories file='t%d.h5'/></bunch>",
  "<SDDS file='b.sdds'/>", "<SDDS file='b.sdds'>"+xyz("dir",1,0,2)+"<log file='s%d.sdds' step='3' bunching-freq='2e11'/></SDDS>", "<SDDS file='b.sdds'><correlations><linear indep='0' dep='1' factor='0.5'/></correlations><log file='s%d.sdds'/></SDDS>", "<probe file='pr%d.h5'/>", "<probe file='pr%d.h5' step='3' number='2'/>" }; }
inline S felx(int v){ S pos=xyz("position",0.01*v,0,0.1+0.01*v),pr=v&1?xyz("prop",0,0.1,1):xyz("prop",0,0,2),po=v&1?xyz("pol",0,1,0):xyz("pol",1,0.2,0.1); S m=F("<mode zR='%g' w0='%g' zwaist='%g'/>",0.1+0.1*v,1e-3*(v+1),0.05*v); S sd=F("<seed E0='%g' lambda='%g' tau='%g' tstart='%g'/>",1e6*(v+1),5e-3*(1+v),3e-11,4e-11*(v+1)); S N=F("<fel1d N='%d'>",30+7*v); switch(v){ case 0:return N+pos+pr+po+m+"</fel1d>"; case 1:return N+pos+pr+po+m+sd+"</fel1d>"; case 2:return N+pos+pr+po+m+"<log file='f%d.h5'/>"+sd+"</fel1d>"; case 3:return N+pos+pr+po+m+sd+"<log file='f%d.h5' step='2'/>"+"</fel1d>"; default:return N+sd+m+po+pr+pos+"<log file='f%d.h5' step='3'/></fel1d>"; } }
inline std::vector<S> track(){ std::vector<S> r={ "<watch step='3' file='w%d.h5'/>","<watch file='x%d.h5' step='0'/>","<watch-sdds step='5' file='w%d.sdds'/>","<watch-sdds step='-1' file='y%d.sdds'/>" }; for(int v=0;v<5;v++)r.push_back(felx(v)); return r; }
inline std::vector<S> obs(){ std::vector<S> r; int k=0; for(const char*s:{""," source='beam'"," source='lattice'"}){ double t0=0.2/SpeedOfLight-2e-12; k++;
  r.push_back(F("<point file='o%%d.h5'%s>",s)+xyz("position",0.01*k,0.02,0.2)+F("<time t0='%.17g' dt='%g' n='%d'/></point>",t0,1e-12*k,3+k));
  r.push_back(F("<screen file='o%%d.h5'%s>",s)+xyz("position",0.001*k,0.002,0.2)+xyz("hpitch",0.01,0.001,0.002,F("n='%d'",k))+xyz("vpitch",0.001,0.02,0,F("n='%d'",4-k))+F("<time t0='%.17g' dt='%g' n='%d'/></screen>",t0,2e-12*k,2+k));
  r.push_back(F("<screen file='o%%d.h5'%s>",s)+xyz("position",0.001,0.002*k,0.2)+xyz("hpitch",0.02,0,0.002,F("n='%d' dt='%g'",4-k,1e-13*k))+xyz("vpitch",0.003,0.01,0,F("n='%d' dt='%g'",k,-3e-13*k))+F("<time t0='%.17g' dt='%g' n='%d'/></screen>",t0,2e-12*k,2+k));
  r.push_back(F("<snapshot file='o%%d.h5'%s>",s)+xyz("position",0.001*k,0.003,0.1)+xyz("hpitch",0.01,0.001,0.002,F("n='%d'",k+1))+xyz("vpitch",0.001,0.02,0.001,F("n='%d'",4-k))+F("<time t0='%g'/></snapshot>",3.4e-10+1e-12*k));
  r.push_back(F("<mesh file='m.h5'%s/>",s)); } return r; }
// %d in an item is its position (file names differ)
inline S at(const S&item,int k){ size_t p; S s=item; while((p=s.find("%d"))!=S::npos)s.replace(p,2,std::to_string(k)); return s; }
}
