// C28: items of the input language create the objects they describe, in document order, without influencing each other
#include "menu.h"
using namespace menu;
static refdeck::Check*CK;
static void check(const S&xml,int sec){ S e=CK->run(xml,sec); if(e!="")mc::fail("%s",e.c_str()); mc::H h; h.s(xml); mc::state(h.h); }
static void seqs(const char*name,const std::vector<S>&m,int maxlen,int sec,S Deck::*f,std::function<bool(const std::vector<int>&)> skip=0){ std::vector<int> q; std::function<void()> rec=[&](){ bool go=!(skip&&skip(q)); if(go){ S id=name; for(int i:q)id+=F(":%d",i); if(mc::begin(id)){ Deck d; S x; for(size_t i=0;i<q.size();i++)x+=at(m[q[i]],i); d.*f=x; check(d.xml(),sec); } } if((int)q.size()<maxlen)for(size_t i=0;i<m.size();i++){ q.push_back(i); rec(); q.pop_back(); } }; rec(); }
int main(int argc,char**argv){ mc::init(argc,argv); fix::quiet(); CK=new refdeck::Check(); CK->templates(); auto L=lattice(),B=beam(),T=track(),O=obs(); int src=L.size()-1;
  seqs("lat",L,mc::thorough?4:3,refdeck::LAT,&Deck::lattice,[&](const std::vector<int>&q){ if(q.size()<4)return false; int n=0; for(int i:q)n+=i==src; return n>0; });
  seqs("beam",B,3,refdeck::BEAM,&Deck::beam,[&](const std::vector<int>&q){ return !mc::thorough&&q.size()==3&&(q[0]*7+q[1]*3+q[2])%4; });
  seqs("track",T,3,refdeck::TRK,&Deck::track);
  seqs("obs",O,3,refdeck::OBS,&Deck::obs,[&](const std::vector<int>&q){ int mesh=0; for(int i:q)mesh+=i%5==4; if(mesh>1)return true; return !mc::thorough&&q.size()==3&&(q[0]*7+q[1]*3+q[2])%8; });
  // long sections: up to 70 items
  for(int n:{10,33,70})for(int o=0;o<5;o++)for(int sec=0;sec<4;sec++)if(mc::begin(F("long:%d,%d,%d",n,o,sec))){ Deck d; S x; auto&M=sec==0?L:sec==1?B:sec==2?T:O; int nm=0; for(int i=0;i<n;i++){ int k=(i*(2*o+1)+o)%M.size(); if(sec==0&&k==src)continue; if(sec==3&&k%5==4&&nm++)continue; x+=at(M[k],i); } (sec==0?d.lattice:sec==1?d.beam:sec==2?d.track:d.obs)=x; check(d.xml(),sec==0?refdeck::LAT:sec==1?refdeck::BEAM:sec==2?refdeck::TRK:refdeck::OBS); }
  // every combination of optional parts of a bunch / particle / SDDS import / probe / watch
  { const char*opt[]={"n='5'","<time t0='1e-10'/>","xrms='1e-4'","yrms='2e-4'","zrms='3e-4'","zft='4e-4'","xrms='0.01'","yrms='0.02'","delta='0.03'","<correlations><linear indep='1' dep='4' factor='10'/></correlations>","log"," step='2'"," bunching-freq='1e11'","traj"," step='3'"," particles='2'"}; for(int m=0;m<65536;m++){ auto on=[&](int k){return m>>k&1;}; if(!on(10)&&(on(11)||on(12)))continue; if(!on(13)&&(on(14)||on(15)))continue; int pc=__builtin_popcount(m); if(!mc::thorough&&pc>3&&pc<13&&m%17)continue; if(!mc::begin(F("bunchopt:%d",m)))continue; S pa,ma; for(int k=2;k<6;k++)if(on(k))pa+=S(" ")+opt[k]; for(int k=6;k<9;k++)if(on(k))ma+=S(" ")+opt[k]; S x=S("<bunch gamma='5' charge='-2e-12' cmr='-1' ")+(on(0)?opt[0]:"")+">"+xyz("position",1e-3,2e-3,3e-3,pa)+momentum(ma)+(on(1)?opt[1]:"")+(on(9)?opt[9]:"")+(on(10)?S("<log file='l.sdds'")+(on(11)?opt[11]:"")+(on(12)?opt[12]:"")+"/>":"")+(on(13)?S("<trajectories file='t.h5'")+(on(14)?opt[14]:"")+(on(15)?opt[15]:"")+"/>":"")+"</bunch>"; Deck d; d.beam=x; check(d.xml(),refdeck::BEAM); } }
  // every combination of optional parts of a screen / snapshot / point, alone and between other observers; meshes whose file already holds fields
  { const char*src[]={""," source='beam'"," source='lattice'"}; double tb=0.2/SpeedOfLight-2e-12; for(int m=0;m<8;m++)for(int s=0;s<3;s++)for(int ctx=0;ctx<4;ctx++)for(int neg=0;neg<2;neg++)if(mc::begin(F("obsopt:%d,%d,%d,%d",m,s,ctx,neg))){ double sg=neg?-1:1,t0=s==2&&neg?-3e-12:tb; S a=m&1?"dt='2e-13' ":"",b=m&2?"dt='-3e-13' ":"",tt=m&4?F("<time n='3' dt='2e-12' t0='%.17g'/>",t0):F("<time t0='%.17g' n='3' dt='%g'/>",t0,3e-12); S it="<screen file='o1.h5'"+S(src[s])+">"+xyz("position",0.001,0.002,0.2)+xyz("hpitch",0.02*sg,0,0.002,a+"n='2'")+xyz("vpitch",0.003,0.01*sg,0,b+"n='3'")+tt+"</screen>";
        S other="<screen file='o%d.h5'>"+xyz("position",-0.001,0.002,0.2)+xyz("hpitch",0.03,0,0,"n='2' dt='5e-13'")+xyz("vpitch",0,0.02,0,"n='2' dt='7e-13'")+F("<time t0='%.17g' dt='1e-12' n='2'/></screen>",tb); S snap="<snapshot file='o4.h5'"+S(src[s])+">"+xyz("position",0.001,0.003,0.1)+xyz("hpitch",0.01,0.001,0.002,"n='2'")+xyz("vpitch",0.001,0.02,0.001,"n='3'")+F("<time t0='%.17g'/></snapshot>",s==2?(neg?-2.5e-12:2.5e-12):3.4e-10); S pt="<point file='o5.h5'"+S(src[s])+">"+xyz("position",0.001,-0.02*sg,0.2)+tt+"</point>";
        Deck d; d.obs=(ctx&1?at(other,2):"")+it+(m&4?snap+pt:pt+snap)+(ctx&2?at(other,3):""); check(d.xml(),refdeck::OBS); }
    for(int n=1;n<=2;n++)for(int s=0;s<3;s++)for(int ctx=0;ctx<4;ctx++)if(mc::begin(F("mesh-fields:%d,%d,%d",n,s,ctx))){ S o="<point file='o%d.h5'"+S(src[s])+">"+xyz("position",0.001,0.002,0.2)+F("<time t0='%.17g' dt='1e-12' n='2'/></point>",tb); Deck d; d.obs=(ctx&1?at(o,2):"")+S("<mesh file='mf")+F("%d",n)+".h5'"+src[s]+"/>"+(ctx&2?at(o,3):""); check(d.xml(),refdeck::OBS); } }
  for(int n:{-1,0,1,2,3,100})for(int st:{0,1,2,7})for(int k=0;k<4;k++)if(mc::begin(F("probe:%d,%d,%d",n,st,k))){ S a=F("number='%d' ",n),b=st?F("step='%d' ",st):S(); S x="<probe file='pr.h5' "+(k&1?a+b:b+a)+"/>"; Deck d; d.beam=k&2?x+at(B[0],1):at(B[0],1)+x; check(d.xml(),refdeck::BEAM); }
  for(int n:{1,2,5})for(double ft:{-6e-4,-1e-5,1e-5,6e-4})for(int z=0;z<2;z++)if(mc::begin(F("zft:%d,%g,%d",n,ft,z))){ Deck d; d.beam=F("<bunch gamma='5' charge='-2e-12' cmr='-1' n='%d'>",n)+xyz("position",1e-3,2e-3,3e-3,F("zft='%g'",ft)+(z?" zrms='3e-4'":""))+momentum()+"</bunch>"; check(d.xml(),refdeck::BEAM); }
  // order of children and attributes inside an item does not matter
  { auto perm=[&](const char*nm,const S&open,std::vector<S> parts,const S&close,S Deck::*f,int sec){ std::vector<int> ix; for(size_t i=0;i<parts.size();i++)ix.push_back(i); do{ S id=nm; for(int i:ix)id+=F(":%d",i); if(!mc::begin(id))continue; S x=open; for(int i:ix)x+=parts[i]; Deck d; d.*f=x+close; check(d.xml(),sec); }while(std::next_permutation(ix.begin(),ix.end())); };
    perm("perm-dipole","<dipole type='soft edge'>",{xyz("p1",0,0,-0.001),xyz("n1",0,0,-1),xyz("p2",0,0.001,0.03),xyz("n2",0.1,0,1),"<transition l1='0.004' l2='0.006'/>",xyz("B",0.1,0.1,0.02)},"</dipole>",&Deck::lattice,refdeck::LAT);
    perm("perm-bunch","<bunch gamma='5' charge='-7e-12' cmr='-1' n='3'>",{xyz("position",0,1e-3,-1e-3,"xrms='3e-4' zft='5e-4'"),momentum("yrms='0.01'"),"<time t0='1e-10'/>","<correlations><linear indep='0' dep='3' factor='20'/></correlations>","<log file='l.sdds' step='2'/>"},"</bunch>",&Deck::beam,refdeck::BEAM);
    perm("perm-fel","<fel1d N='30'>",{xyz("position",0,0,0.1),xyz("prop",0,0.1,1),xyz("pol",1,0.2,0.1),"<mode zR='0.1' w0='1e-3' zwaist='0.05'/>","<seed E0='1e6' lambda='5e-3' tau='3e-11' tstart='4e-11'/>","<log file='f.h5' step='2'/>"},"</fel1d>",&Deck::track,refdeck::TRK);
    perm("perm-screen","<screen file='o.h5'>",{xyz("position",0.001,0.002,0.2),xyz("hpitch",0.02,0,0.002,"n='2' dt='1e-13'"),xyz("vpitch",0.003,0.01,0,"n='3' dt='2e-13'"),"<time t0='6e-10' dt='3e-12' n='4'/>"},"</screen>",&Deck::obs,refdeck::OBS); }
  // sections in any order, everything at once
  { std::vector<int> ix={0,1,2,3}; do{ for(int k=0;k<12;k++)if(mc::begin(F("all:%d%d%d%d,%d",ix[0],ix[1],ix[2],ix[3],k))){ S s[4]; s[0]="<lattice>"; for(size_t i=0;i<L.size();i++)if((int)i!=k)s[0]+=at(L[(i+k)%L.size()],i); s[0]+="</lattice>"; s[1]="<beam>"; for(size_t i=0;i<B.size();i++)s[1]+=at(B[(i+k)%B.size()],i); s[1]+="</beam>"; s[2]=F("<tracking method='Vay' delta_t='%g' n='%d'>",1e-12*(k+1),k); for(size_t i=0;i<T.size();i++)s[2]+=at(T[(i+k)%T.size()],20+i); s[2]+="</tracking>"; s[3]="<observer>"; for(size_t i=0;i<O.size();i++)if(i%5!=4||i==4)s[3]+=at(O[i],40+i); s[3]+="</observer>"; S x="<?xml version='1.0'?><!-- c --><teufel>"; for(int i:ix)x+=s[i]+"<!-- comment -->"; check(x+"</teufel>",15); } }while(std::next_permutation(ix.begin(),ix.end())); }
  mc::note("decks accepted",CK->accepted); mc::note("decks rejected",CK->rejected); return mc::finish(); }
