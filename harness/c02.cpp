// C02: the complete program on 1..N simulated MPI processes
#include "decks.h"
using namespace decks;
static std::string RD;
static hyb::Out ref; 
struct Run{ hyb::Res r; hyb::Out o; };
static Run go(const Deck&d,int ranks,bool meshB,bool meshL,bool eager=true,double wt=0){ hyb::cleardir(RD); decks::write(mc::work+"/in.xml",d.xml()); if(meshB)meshFile(RD+"/mb.h5",1); if(meshL)meshFile(RD+"/ml.h5",2); hyb::Cfg c; c.ranks=ranks; c.args={mc::work+"/in.xml"}; c.eager=eager; c.wtick=wt; Run q; q.r=hyb::run(c,RD); if(q.r.err.empty())for(int i=0;i<ranks;i++)if(q.r.status[i]!=0){q.r.err=F("process %d ends with status %d: %s",i,q.r.status[i],q.r.text[i].substr(0,300).c_str());break;} if(q.r.err.empty())q.o=hyb::collect(RD); return q; }
static bool ok(Run&q,int ranks,const hyb::Out&ref,size_t minfiles){ if(q.r.err!=""){ mc::fail("%d processes: %s",ranks,q.r.err.c_str()); return false; } if(q.o.size()<minfiles){mc::fail("%d processes: only %zu output items",ranks,q.o.size());return false;} if(!ref.empty()){ std::string e=hyb::compare(ref,q.o,3e-12); if(e!=""){mc::fail("%d processes: %s",ranks,e.c_str());return false;} } mc::H h; for(auto&k:q.o){h.s(k.first);for(double v:k.second)h.d(v);} mc::state(h.h); return true; }
static Deck full(const std::vector<int>&parts,const std::string&lats,bool felp,int obs,int n=3){ Deck d; for(char c:lats)d.lattice+=lat(c); int id=0,bi=0; for(int p:parts){ if(p==1){ d.beam+=particle(id,log(F("p%d.sdds",bi),1+bi%3)); } else d.beam+=bunch(bi,p,log(F("b%d.sdds",bi),1+bi%2,"3e11")+traj(F("t%d.h5",bi),1+bi%3,bi%2?2:1000)); id+=p; bi++; }
  d.track=watch("w0.h5",0)+watch("w2.sdds",2,true)+watch("wn.h5",n); if(felp)d.track+=fel("fel.h5",2); if(obs&1)d.obs+=point("pb.h5",1); if(obs&2)d.obs+=screen("sb.h5",0); if(obs&4)d.obs+=snap("nb.h5",1); if(obs&8)d.obs+=mesh("mb.h5",1); if(obs&16)d.obs+=point("pl.h5",2,V(0.001,0.002,0.013)); if(obs&32)d.obs+=screen("sl.h5",2); if(obs&64)d.obs+=snap("nl.h5",2); if(obs&128)d.obs+=mesh("ml.h5",2); d.n=n; return d; }
int main(int argc,char**argv){ mc::init(argc,argv); fix::quiet(); RD=mc::work+"/run"; mkdir(RD.c_str(),0700); srcFile(mc::work+"/src.h5"); int MR=mc::thorough?7:5;
  auto cmp=[&](const Deck&d,int obs,std::vector<int> ranks,bool eager,double wt){ Run a=go(d,1,obs&8,obs&128); if(!ok(a,1,{},5))return; double mx=0; for(auto&k:a.o)if(k.first.find("ElMagField")!=std::string::npos&&k.first.find("#")==std::string::npos){ double m=0; for(double v:k.second)m=std::max(m,fabs(v)); if(m==0&&(k.first[1]=='b'||d.lattice!=""))mc::note("zero-"+k.first,1); mx=std::max(mx,m);} for(int n:ranks){ Run b=go(d,n,obs&8,obs&128,eager,wt); if(!ok(b,n,a.o,5))return; } };
  // particle numbers and their split over bunches x number of processes
  for(int np=1;np<=7;np++)for(int c=0;c<(1<<(np-1));c++){ if(np>5&&!mc::thorough&&c%3)continue; if(!mc::begin(F("split:%d,%d",np,c)))continue; std::vector<int> parts; int cur=1; for(int i=0;i<np-1;i++){ if(c>>i&1)cur++; else {parts.push_back(cur);cur=1;} } parts.push_back(cur); std::vector<int> rk; for(int r=2;r<=MR;r++)rk.push_back(r); cmp(full(parts,"bu",true,1|4|16,3),1|4|16,rk,true,0); }
  // each lattice element x each observer x few processes
  for(char l:std::string("-bugwphsS"))for(int o=0;o<8;o++)for(int f=0;f<2;f++)for(int n:{0,1,4})if(mc::begin(F("feature:%c,%d,%d,%d",l,o,f,n)))cmp(full({1,3},std::string(1,l),f,1<<o,n),1<<o,{2,3},o%2,o==3?40:0);
  // everything together
  for(int n:{2,5})for(int r=2;r<=MR;r++)for(int e=0;e<2;e++)if(mc::begin(F("all:%d,%d,%d",n,r,e)))cmp(full({2,1,4},"buwhS",true,255,n),255,{r},e,e?0:31);
  // probe logs of a single particle beam
  for(int r=1;r<=3;r++)if(mc::begin(F("probe:%d",r))){ Deck d=full({1},"u",false,1); d.beam+="<probe file='probe.h5' step='1' number='1'/>"; cmp(d,1,{r},true,0); }
  // all orders in which processes reach their collectives (bounded number of deviations)
  for(int r=2;r<=(mc::thorough?4:3);r++)for(int k=0;k<4;k++)for(int e=0;e<2;e++)if(mc::begin(F("orders:%d,%d,%d",r,k,e))){ int obs=k==0?1:k==1?16:k==2?4|32:8; Deck d=full(k==1?std::vector<int>{1}:std::vector<int>{2,1},k==3?"S":"b",k==2,obs,1); Run a=go(d,1,obs&8,obs&128); if(!ok(a,1,{},5))continue; hyb::Cfg c; c.ranks=r; c.eager=e; c.args={mc::work+"/in.xml"}; long lim=mc::thorough?1500:120; bool comp; hyb::cleardir(RD); if(obs&8)meshFile(RD+"/mb.h5",1);
      long n=hyb::explore(c,RD,mc::thorough?2:1,lim,[&](const hyb::Res&q,const std::vector<int>&dev){ std::string s; for(int v:dev)s+=F("%d",v); Run b; b.r=q; if(b.r.err=="")b.o=hyb::collect(RD); for(int i=0;i<r&&b.r.err=="";i++)if(q.status[i])b.r.err="status"; bool g=ok(b,r,a.o,5); hyb::cleardir(RD); if(obs&8)meshFile(RD+"/mb.h5",1); return !g; },&comp); mc::note("schedules",n); if(comp)mc::note("order spaces completed",1); }
  return mc::finish(); }
