// C01: field integration under every schedule of the OpenMP threads (controlled scheduler) equals the one-thread result
#include "fix.h"
#include "sched_rt.h"
using namespace fix;
static HomogeneousField*bend(){ return new HomogeneousField(V(0,0,0),V(0.0,2.0,0.3)); }
template<class S> struct Src; 
struct Counts{double ex=0,pt=0,ac=0;}; 
static sched::Stats tot;
template<class S> static void run(const std::string&id,std::function<Observer<S>*()>make,S*src,int threads,int bound,uint64_t cap){
  if(!mc::begin(id))return;
  std::vector<double> ref; { Observer<S>*o=make(); o->setSource(src); o->integrate(); double*b=o->getBuffer(); ref.assign(b,b+o->getBufferSize()); delete[] b; delete o; }
  double nz=0; for(double x:ref)nz+=std::fabs(x); if(!(nz>0)&&id.find("empty")==std::string::npos){ mc::fail("harness: reference field is zero"); return; }
  Observer<S>*o=0; sched::Stats st;
  std::string r; uint64_t budget=mc::thorough?60000:6000; int d=0; (void)bound; uint64_t ex=0,pt=0;
  auto round=[&](int d){ return sched::explore(threads,d,[&]{ delete o; o=make(); o->setSource(src); o->integrate(); },[&]()->std::string{
     double*b=o->getBuffer(); size_t n=o->getBufferSize(); std::string e; if(n!=ref.size())e="buffer size differs"; else for(size_t i=0;i<n&&e.empty();i++)if(memcmp(&b[i],&ref[i],8)){ e=mc::F("value %zu of %zu is %.17g instead of the one-thread result %.17g",i,n,b[i],ref[i]); } delete[] b; mc::H h; h.i(n); mc::outcome(h.h); return e; },st,cap); };
  // as many deviations as fit the budget (decided by deterministic counts)
  for(d=1;d<=8;d++){ st=sched::Stats(); r=round(d); ex=st.executions; pt=st.points; if(!r.empty()||d==8)break; double nxt=(double)ex*(double)st.maxpoints*(threads-1)/(d+1); if(ex<=1||nxt>budget)break; uint64_t was=ex; (void)was; }
  delete o;
  mc::trans(st.points); mc::note("schedules",ex); mc::note(mc::F("cases_with_%d_deviations",d),1); (void)pt; mc::note("scheduling_points",st.points); mc::note("memory_accesses",st.accesses-tot.accesses); tot.accesses=st.accesses; if(st.capped)mc::note("capped_cases",1);
  mc::H h; h.s(id); mc::state(h.h);
  mc::sample(mc::F("%s: %llu schedules, up to %d deviations, up to %llu scheduling points",id.c_str(),(unsigned long long)st.executions,d,(unsigned long long)st.maxpoints));
  if(!r.empty())mc::fail("%s",r.c_str());
}
// a one-bunch beam whose particles went through a bending field
template<class S> static void family(const std::string&sn,S*src,bool lattice){
  struct G{int nx,ny;}; std::vector<G> gs={{1,1},{1,2},{2,2},{1,3},{3,1},{2,3},{1,5}}; gs.push_back({3,3});gs.push_back({1,7});gs.push_back({4,2});
  double t0=lattice?7e-11:3.334e-9,dt=lattice?2.0e-11:4e-12; int N=lattice?2:5;
  for(int th=2;th<=4;th++)for(G g:gs){
    int n=g.nx*g.ny; int bound=mc::thorough?(n<=3?5:n<=6?3:2):(th<=3&&n<=4?3:2);
    uint64_t cap=0;
    run<S>(mc::F("screen %s %dx%d threads=%d",sn.c_str(),g.nx,g.ny,th),[=]{return new ScreenObserver<S>("x.h5",V(0,0,1.0),V(0.02,0,0.003),V(0.001,0.02,-0.004),g.nx,g.ny,t0,dt,1e-12,2e-12,N);},src,th,bound,cap);
    run<S>(mc::F("snapshot %s %dx%d threads=%d",sn.c_str(),g.nx,g.ny,th),[=]{return new SnapshotObserver<S>("x.h5",V(0,0,0.02),V(0.003,0,0.001),V(0,0.004,0.0015),g.nx,g.ny,lattice?1e-11:1e-10);},src,th,bound,cap);
    if(g.nx==1){ Mesh m=strip(g.ny,V(0,0,1.0),V(0.02,0,0.003),V(0,0.02,-0.004)); m.Nt=N; m.dt=dt; for(int i=0;i<g.ny;i++)m.t0.push_back(t0+i*1e-12); std::string fn=mc::work+"/m.h5"; save(m,fn);
      run<S>(mc::F("mesh %s %d threads=%d",sn.c_str(),g.ny,th),[=]{auto*p=new MeshedScreen<S>(fn);p->init();p->zero();return p;},src,th,bound,cap); }
  }
  run<S>(mc::F("point %s",sn.c_str()),[=]{return new PointObserver<S>("x.sdds",V(0,0,1.0),t0,dt,N);},src,3,2,0);
}
int main(int argc,char**argv){ mc::init(argc,argv); quiet(); if(chdir(mc::work.c_str()))return 9;
  HomogeneousField*f=bend(); sched::controlled=false;
  { Beam*b=new Beam(); b->Add(bunch(2,6,2e-11,f)); b->Add(bunch(1,3,2e-11,f,-2.0,0.01)); family<Beam>("beam",b,false); delete b; }
  { Bunch*b=bunch(2,6,2e-11,f); family<Bunch>("bunch",b,false); delete b; }
  // lattices: one element of each kind, and one with all of them
  ScreenObserver<Lattice> so("src.h5",V(0,0,0),V(0.01,0,0),V(0,0.01,0),2,2,0.0,1e-11,0,0,6); { for(int i=0;i<2;i++)for(int j=0;j<2;j++)for(int k=0;k<6;k++)so.setField(i,j,k,ElMagField(V(1+i,2*j+k,0.1),V(1e-9*k,1e-9*i,0))); so.generateOutput(); }
  auto mk=[&](int k,double ty)->GeneralField*{ switch(k){
    case 0:return new HomogeneousField(V(1,2,3),V(4,5,6)*(1+ty));
    case 1:{auto*u=new PlanarUndulator(V(0,0,1.0));u->Setup(0.5,0.1,40);return u;}
    case 2:{auto*u=new TransverseGradientUndulator(V(0,0,1.0));u->Setup(0.5,3.0,1.0,0.1,40);return u;}
    case 3:return new HardEdgeDipole(V(0,0.3,0.1),V(0,0,-1),V(0,0,-1),V(0,0,2),V(0,0,1));
    case 4:return new SoftEdgeDipole(V(0,0.3,0.1),V(0,0,-1),V(0,0,-1),0.3,V(0,0,2),V(0,0,1),0.3);
    case 5:{auto*w=new GaussianWave(0,V(0,0,0.5));w->Setup(0.05,std::complex<double>(3,1),1.0);return w;}
    case 6:{auto*w=new GaussianWavePacket(0,V(0,0,0.5));w->Setup(0.05,std::complex<double>(3,1),1.0,5e-10);return w;}
    default:return new SourceScreen("src.h5",V(0,0,0.98),0.0); } };
  const char*nm[]={"homogeneous","undulator","tgu","hardedge","softedge","wave","packet","sourcescreen"};
  for(int k=0;k<8;k++){ Lattice l; l.addElement(mk(k,0)); if(k==7&&0)continue; 
    double t0=(k==7)?8e-11:0.0; (void)t0;
    for(int th=2;th<=4;th++){ int bound=mc::thorough?3:2;
      run<Lattice>(mc::F("screen lattice:%s 2x2 threads=%d",nm[k],th),[=]{return new ScreenObserver<Lattice>("x.h5",V(0.001,0.002,1.0),V(0.002,0,0.0007),V(0.0003,0.002,0.0011),2,2,7e-11,1e-11,1e-13,2e-13,2);},&l,th,bound,0);
      run<Lattice>(mc::F("snapshot lattice:%s 2x2 threads=%d",nm[k],th),[=]{return new SnapshotObserver<Lattice>("x.h5",V(0.001,0.002,1.0),V(0.002,0,0.0007),V(0.0003,0.002,0.0011),2,2,8e-11);},&l,th,bound,0);
    } }
  { Lattice l; for(int k=0;k<8;k++)l.addElement(mk(k,0.1)); family<Lattice>("lattice",&l,true); }
  // more threads than grid points, empty sources
  { Beam*e=new Beam(); run<Beam>("screen empty beam 2x2",[=]{return new ScreenObserver<Beam>("x.h5",V(0,0,1.0),V(0.02,0,0),V(0,0.02,0),2,2,0,1e-12,0,0,2);},e,4,1,0); delete e; }
  delete f; return mc::finish(); }
