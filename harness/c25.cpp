// C25: a run of the program gives what its objects give when driven step by step through the library
#include "refrun.h"
using namespace decks;
static std::string RD,FD;
static void prep(int obs,const std::string&dir){ hyb::cleardir(dir); if(obs&8)meshFile(dir+"/mb.h5",1); if(obs&128)meshFile(dir+"/ml.h5",2); }
static std::string observers(int obs){ std::string o; if(obs&1)o+=point("pb.h5",0); if(obs&2)o+=screen("sb.h5",1); if(obs&4)o+=snap("nb.h5",1); if(obs&8)o+=mesh("mb.h5",0); if(obs&16)o+=point("pl.h5",2,V(0.001,0.002,0.013)); if(obs&32)o+=screen("sl.h5",2); if(obs&64)o+=snap("nl.h5",2); if(obs&128)o+=mesh("ml.h5",2); return o; }
static void check(const Deck&d,int obs,int ranks=1,double wt=0,int seed=1){ write(mc::work+"/in.xml",d.xml()); hyb::Cfg c; c.ranks=ranks; c.args={mc::work+"/in.xml"}; c.wtick=wt; c.seed=seed; prep(obs,RD); hyb::Res r=hyb::run(c,RD); if(r.err!=""){mc::fail("%s",r.err.c_str());return;} for(int i=0;i<ranks;i++)if(r.status[i]){mc::fail("process %d ends with status %d: %s",i,r.status[i],r.text[i].substr(0,400).c_str());return;} if(!r.finalized){mc::fail("MPI not finalized");return;} hyb::Out a=hyb::collect(RD);
  prep(obs,FD); RefRun f(mc::work+"/in.xml",FD,seed); if(f.err!=""){mc::fail("%s",f.err.c_str());return;} hyb::Out b=hyb::collect(FD); std::string e=hyb::compare(b,a,ranks==1?1e-13:3e-12); if(e!=""){mc::fail("%s",e.c_str());return;}
  // the reference itself: number of steps, step size, fields act
  if((int)f.hist.size()!=d.n+1){mc::fail("%zu steps",f.hist.size());return;} for(size_t s=1;s<f.hist.size();s++)for(size_t q=0;q<f.hist[s].size();q++)for(size_t i=0;i<f.hist[s][q].size();i++){ double w=f.hist[0][q][i].t+s*d.dt; if(!mc::near(f.hist[s][q][i].t,w,1e-12))mc::fail("time of step %zu is %g instead of %g",s,f.hist[s][q][i].t,w); }
  mc::H h; for(auto&k:a){h.s(k.first);for(double v:k.second)h.d(v);} mc::state(h.h); mc::outcome(h.h); }
int main(int argc,char**argv){ mc::init(argc,argv); fix::quiet(); RD=mc::work+"/run"; FD=mc::work+"/ref"; mkdir(RD.c_str(),0700); mkdir(FD.c_str(),0700); srcFile(mc::work+"/src.h5");
  const char*beams[]={"p","b","pp","pb","bp","bpb",""}; auto mkbeam=[&](Deck&d,const std::string&s,bool logs){ int k=0; for(char c:s){ if(c=='p')d.beam+=particle(k,logs?log(F("p%d.sdds",k),1+k%3):""); else d.beam+=bunch(k,2+k,(logs?log(F("b%d.sdds",k),1+k%2,"3e11"):std::string())+(logs?traj(F("t%d.h5",k),1+k%3,k%2?2:1000):"")); k++; } };
  const std::string el="bugwphsS";
  // all sets of up to 2 (thorough 3) lattice elements x steps x FEL, everything observed
  int ne=el.size(); for(int m=0;m<(1<<ne);m++){ int pc=__builtin_popcount(m); if(pc>(mc::thorough?8:3)&&pc!=ne)continue; for(int n=0;n<=4;n++)for(int f=0;f<2;f++){ if(!mc::thorough&&pc>1&&n!=3)continue; if(!mc::begin(F("lat:%d,%d,%d",m,n,f)))continue; Deck d; for(int i=0;i<ne;i++)if(m>>i&1)d.lattice+=lat(el[i]); d.n=n; mkbeam(d,"pb",true); if(f)d.track+=fel("fel.h5",1+n%3); d.track+=watch("w.h5",n); d.obs=observers(0xff); check(d,0xff); } }
  // order of elements, repeated elements
  for(char a:el)for(char b:std::string("bug"))if(mc::begin(F("order:%c%c",a,b))){ Deck d; d.lattice=lat(a)+lat(b)+lat(a); mkbeam(d,"p",true); d.obs=observers(0x11); d.track=watch("w.sdds",3,true); check(d,0x11); }
  // beams x selections of observers and logs
  for(int q=0;q<7;q++)for(int l=0;l<2;l++)for(int o=0;o<256;o++){ int pc=__builtin_popcount(o); if(pc>(mc::thorough?8:2)&&pc<8)continue; for(int n:{1,4})if(mc::begin(F("sel:%d,%d,%d,%d",q,l,o,n))){ Deck d; d.lattice=lat('b')+lat('u'); mkbeam(d,beams[q],l); if(l)d.track=watch("w0.h5",0)+watch("w1.sdds",1,true)+watch("w0b.h5",0); d.obs=observers(o); d.n=n; check(d,o); } }
  // several interactions, logs, probes, time steps, progress reports, random beams
  for(int nf=0;nf<=2;nf++)for(int dtk=0;dtk<3;dtk++)for(int wt=0;wt<2;wt++)for(int sd=1;sd<=2;sd++)if(mc::begin(F("misc:%d,%d,%d,%d",nf,dtk,wt,sd))){ Deck d; d.dt=dtk==0?1e-12:dtk==1?DT:2.5e-11; d.lattice=lat('w'); mkbeam(d,"bpb",true); d.beam+=F("<probe file='probe.h5' step='2' number='%d'/>",1+nf); for(int i=0;i<nf;i++)d.track+=fel(F("fel%d.h5",i),1+i,(int)((40-5*i)*DT/d.dt)+8,d.dt,i==0); d.obs=observers(0x35); d.n=4; check(d,0x35,1,wt?31:0,sd); }
  // more processes against the library
  for(int r=2;r<=4;r++)for(int n:{0,3})for(int f=0;f<2;f++)if(mc::begin(F("ranks:%d,%d,%d",r,n,f))){ Deck d; d.lattice=lat('b')+lat('h'); mkbeam(d,"pbp",true); if(f)d.track=fel("fel.h5",1); d.track+=watch("w.h5",n); d.obs=observers(0xff); d.n=n; check(d,0xff,r,0); }
  // many elements, particles, observers
  for(int k=0;k<4;k++)for(int n:{2,5})if(mc::begin(F("crowd:%d,%d",k,n))){ Deck d; for(int i=0;i<(k&1?70:12);i++)d.lattice+=lat(el[(i*3+k)%7]); if(k&2){ d.beam=bunch(0,70,log("b.sdds",1)+traj("t.h5",1,65))+bunch(1,33,traj("t1.h5",2,1000))+particle(2,log("p.sdds",2))+"<probe file='probe.h5' step='1' number='80'/>"; } else for(int i=0;i<40;i++)d.beam+=particle(i,i%3?"":log(F("p%d.sdds",i),1)); for(int i=0;i<12;i++)d.obs+=i%3==0?point(F("p%d.h5",i),i%2+1,V(0.001*i,0.002,0.3)):i%3==1?snap(F("n%d.h5",i),i%2+1):screen(F("s%d.h5",i),i%2+1); for(int i=0;i<8;i++)d.track+=watch(F("w%d.%s",i,i%2?"sdds":"h5"),i%(n+1),i%2); d.n=n; check(d,0); }
  // long runs
  for(int n:{30,120})if(mc::begin(F("long:%d",n))){ Deck d; d.lattice=lat('b'); mkbeam(d,"pb",true); d.track=fel("fel.h5",7,500)+watch("w.h5",n-1)+watch("x.h5",n)+watch("y.h5",n+1); d.obs=observers(1); d.n=n; d.dt=1e-12; check(d,1); }
  return mc::finish(); }
