// C21: all sequences of operations per family of classes: memory errors (address sanitizer), memory and files left behind
// (exact accounting over repeated cycles), results depending on former contents of memory (two fill patterns, c21fill.cpp)
#include "menu.h"
#include "obs.h"
#include "logger.h"
#include "parser.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
#include <memory>
#include <algorithm>
#include <omp.h>
#include <dirent.h>
using fix::Shape; typedef std::string S; using mc::F;
// present if linked with c21fill.cpp: operator new fills memory with the pattern, counts live blocks
extern "C" { __attribute__((weak)) void fill_set(int pattern); __attribute__((weak)) long fill_live(); __attribute__((weak)) const char* fill_error(); }
static S current; static std::vector<double> seen; static void see(double d){ seen.push_back(d); } static void see(V v){ see(v.x);see(v.y);see(v.z); } static void see(ElMagField f){ see(f.E());see(f.B()); }
static int files(){ int n=0; DIR*d=opendir("/proc/self/fd"); if(d){ while(readdir(d))n++; closedir(d); } return n; }
static HomogeneousField FLD(V(1e6,2e6,-1e6),V(0.1,-0.2,0.3)); static const double DTP=1e-12;
struct World{ virtual ~World(){} };
struct Op{ S name; std::function<bool(World*)> f; /* false: not allowed in this state */ };
struct Family{ S name; std::function<World*()> make; std::vector<Op> ops; int depth; bool io; };
// executes a sequence; false if some operation is not allowed
static bool once(const Family&f,const std::vector<int>&s){ std::unique_ptr<World> w(f.make()); seen.clear(); for(int o:s){ mc::trans(); try{ if(!f.ops[o].f(w.get()))return false; }catch(const std::exception&e){ see(std::string(e.what()).size()); } } return true; }
static S text(const Family&f,const std::vector<int>&s){ S t=f.name; for(int o:s)t+=" | "+f.ops[o].name; return t; }
static bool check(const Family&f,const std::vector<int>&s){ current=text(f,s); // false: not a valid sequence
  if(fill_set){ fill_set(0x00); long l0=fill_live(); bool ok=once(f,s); std::vector<double> a=seen; long l1=fill_live(); if(!ok)return false; fill_set(0x5a); once(f,s); std::vector<double> b=seen; fill_set(0xff); once(f,s); std::vector<double> c=seen; (void)l0;(void)l1; auto same=[](const std::vector<double>&x,const std::vector<double>&y){ return x.size()==y.size()&&(x.empty()||!memcmp(x.data(),y.data(),8*x.size())||[&]{for(size_t i=0;i<x.size();i++)if(!(x[i]==y[i]||(x[i]!=x[i]&&y[i]!=y[i])))return false;return true;}()); };
    if(!same(a,b)||!same(a,c))mc::failkey(f.name+" contents","%s: results depend on the former contents of memory",current.c_str()); if(fill_error()){ mc::failkey(f.name+" new","%s: %s",current.c_str(),fill_error()); } mc::H h; for(double d:a)h.d(d); mc::state(h.h); return true; }
  if(!once(f,s))return false; mc::H h; for(double d:seen)h.d(d); mc::state(h.h); if(current.find("missing")!=S::npos)return true; // the SDDS library itself keeps 144 bytes for every file it cannot open
  auto use=[&](long&mem,int&fd,long&obj){ { std::vector<double>().swap(seen); } if(f.io)H5garbage_collect(); mem=__sanitizer_get_current_allocated_bytes(); fd=f.io?files():0; obj=f.io?H5Fget_obj_count(H5F_OBJ_ALL,H5F_OBJ_ALL):0; };
  long m0,m1; int f0,f1; long o0,o1; use(m0,f0,o0); once(f,s); use(m1,f1,o1); int grow=0; for(int k=0;k<3&&m1>m0;k++){ m0=m1; once(f,s); use(m1,f1,o1); if(m1>m0)grow++; }
  if(grow==3)mc::failkey(f.name+" memory","%s: %ld bytes are left behind in every cycle",current.c_str(),m1-m0); if(f1>f0)mc::failkey(f.name+" files","%s: files are left open",current.c_str()); if(o1>o0)mc::failkey(f.name+" handles","%s: %ld HDF5 objects are left open",current.c_str(),o1-o0); return true; }
static void explore(const Family&f){ int n=f.ops.size(); std::function<void(std::vector<int>&)> rec=[&](std::vector<int>&s){ if(!check(f,s))return; if((int)s.size()==f.depth)return; for(int o=0;o<n;o++){ s.push_back(o); rec(s); s.pop_back(); } };
  if(mc::begin(f.name)){ std::vector<int> e; check(f,e); for(int a=0;a<n;a++){ e={a}; check(f,e); } }
  if(f.depth>1)for(int a=0;a<n;a++){ std::vector<int> one={a}; for(int b=0;b<n;b++)if(mc::begin(F("%s:%d.%d",f.name.c_str(),a,b))){ { current=text(f,one); if(!once(f,one))continue; } std::vector<int> s={a,b}; rec(s); } } }
#define OP(n,...) Op{n,[](World*w_)->bool{ auto&w=*(WT*)w_; (void)w; __VA_ARGS__; return true; }}
#define NEED(c) if(!(c))return false
// ---- particles
struct WPart: World{ ChargedParticle*p=0,*q=0; bool tr=false; ~WPart(){ delete p; delete q; } };
static Family particles(){ typedef WPart WT; return {"particle",[]{return new WPart();},{
  OP("new",delete w.p; w.p=new ChargedParticle(-2,1); w.tr=false), OP("new for 3 points",delete w.p; w.p=new ChargedParticle(-1,2,3); w.tr=false), OP("delete",NEED(w.p); delete w.p; w.p=0; w.tr=false),
  OP("init",NEED(w.p); w.p->initTrajectory(1e-12,V(0.1,0.2,0.3),V(1,2,3),V(0.1,0,0)); w.tr=false), OP("track",NEED(w.p&&w.p->getNP()); w.p->InitVay(DTP,&FLD); w.p->StepVay(&FLD); w.tr=true), OP("step",NEED(w.p&&w.tr); w.p->StepVay(&FLD)),
  OP("copy",NEED(w.p); delete w.q; w.q=new ChargedParticle(w.p)), OP("swap",std::swap(w.p,w.q); w.tr=false), OP("shift",NEED(w.p); w.p->Shift(V(1e-3,0,2e-3),0.5)), OP("mirror",NEED(w.p); w.p->Mirror(V(0,0,1),V(0,0.1,1),-1)),
  OP("clear",NEED(w.p); w.p->clearTrajectory(); w.tr=false), OP("reserve",NEED(w.p); w.p->preAllocate(4)), OP("store",NEED(w.p); w.p->storeTrajectoryPoint(1e-12*(w.p->getNP()+1),V(0,0,1e-4*w.p->getNP()),V(0,0,1),V(0,0,0))),
  OP("transfer",NEED(w.p&&w.p->getNP()); std::vector<double> b(PARTICLE_SERIALIZE_BUFSIZE); w.p->serialize(b.data()); delete w.q; w.q=new ChargedParticle(b.data())),
  OP("transfer trajectory",NEED(w.p&&w.p->getNP()); std::vector<double> b(w.p->TrajBufSize()); w.p->serializeTraj(b.data()); delete w.q; w.q=new ChargedParticle(b.data(),w.p->getNP(),w.p->getNpre())),
  OP("query",NEED(w.p); int n=w.p->getNP(); see(n); see(w.p->getNpre()); see(w.p->getCharge()); see(w.p->getTime()); see(w.p->getPosition()); see(w.p->getMomentum()); for(int i=-1;i<=n;i++){ see(w.p->TrajTime(i)); see(w.p->TrajPoint(i)); see(w.p->TrajMomentum(i)); see(w.p->TrajAccel(i)); } std::vector<double> b(w.p->getProbeBufferSize()); see(w.p->bufferProbe(b.data())-b.data()); for(double d:b)see(d);
     if(n>0){ for(double t:{-1e-9,0.0,1e-12,1.7e-12,1e-9}){ V x,p; w.p->CoordinatesAtTime(t,&x,&p); see(x); see(p); see(w.p->RetardedField(t+3e-9,V(0.3,0.1,1.0))); } FieldTrace T(3e-9,1e-13,7); w.p->integrateFieldTrace(V(0.3,0.1,1.0),&T); for(std::size_t i=0;i<7;i++)see(T.get_field(i)); }) },5,false}; }
// ---- distributions
struct WDist: World{ Distribution*d=0,*e=0; ~WDist(){ delete d; delete e; } };
static Family distributions(){ typedef WDist WT; static auto fill=[](Distribution*d){ for(int i=0;i<d->getNOP();i++)for(int k=0;k<d->getDIM();k++)d->setCoordinate(i,k,0.1*i-k); }; return {"distribution",[]{return new WDist();},{
  OP("new 2x3",delete w.d; w.d=new Distribution(2,3); fill(w.d)), OP("new 6x1",delete w.d; w.d=new Distribution(6,1); fill(w.d)), OP("new 3x0",delete w.d; w.d=new Distribution(3,0)), OP("raw 2x2",delete w.d; w.d=new Distribution(2,2)), OP("delete",NEED(w.d); delete w.d; w.d=0), OP("swap",std::swap(w.d,w.e)),
  OP("scale",NEED(w.d); w.d->scale(0,2)), OP("scale last",NEED(w.d); w.d->scale(w.d->getDIM()-1,2)), OP("scale bad",NEED(w.d); w.d->scale(w.d->getDIM(),2)), OP("scale negative",NEED(w.d); w.d->scale(-1,2)), OP("gauss bad",NEED(w.d); w.d->generateGaussian(w.d->getDIM(),2)), OP("correlate",NEED(w.d); w.d->addCorrelation(0,w.d->getDIM()-1,0.5)), OP("correlate bad",NEED(w.d); w.d->addCorrelation(w.d->getDIM(),0,0.5); w.d->addCorrelation(0,-1,0.5)),
  OP("set bad",NEED(w.d); w.d->setCoordinate(w.d->getNOP(),0,1)), OP("set bad dim",NEED(w.d); w.d->setCoordinate(0,w.d->getDIM(),1)), OP("set negative",NEED(w.d); w.d->setCoordinate(-1,0,1)), OP("sub all",NEED(w.d); delete w.e; w.e=0; w.e=w.d->subDist(0,w.d->getNOP())), OP("sub last",NEED(w.d); delete w.e; w.e=0; w.e=w.d->subDist(w.d->getNOP()-1,1)), OP("sub bad",NEED(w.d); delete w.e; w.e=0; w.e=w.d->subDist(1,w.d->getNOP())),
  OP("exchange",NEED(w.d); int n=w.d->getDIM()*w.d->getNOP(); std::unique_ptr<double[]> b(new double[n]); for(int i=0;i<n;i++)b[i]=7; w.d->bufferData(b.get(),n); for(int i=0;i<n;i++)see(b[i]); w.d->fromBuffer(b.get(),n)), OP("exchange short",NEED(w.d); int n=w.d->getDIM()*w.d->getNOP(); NEED(n>0); std::unique_ptr<double[]> b(new double[n-1]); for(int i=0;i<n-1;i++)b[i]=7; w.d->bufferData(b.get(),n-1); w.d->fromBuffer(b.get(),n-1)),
  OP("query",NEED(w.d); see(w.d->getDIM()); see(w.d->getNOP()); for(int i=0;i<w.d->getNOP();i++)for(int k=0;k<w.d->getDIM();k++)see(w.d->getCoordinate(i,k))), OP("get bad",NEED(w.d); see(w.d->getCoordinate(0,w.d->getDIM()))), OP("get negative",NEED(w.d); see(w.d->getCoordinate(-1,0))), OP("bunch",NEED(w.d&&w.d->getDIM()==6); Bunch b(w.d,0,V(0,0,1),V(0,0,2),-1,1); see(b.getNOP()); see(b.avgPosition())) },4,false}; }
// ---- bunches
static ChargedParticle* part(int k,bool track){ ChargedParticle*p=new ChargedParticle(-1-k,1+k); p->initTrajectory(1e-12,V(1e-3*k,2e-3,3e-3*k),V(0.1*k,0.2,3),V(0,0,0)); if(track){ p->InitVay(DTP,&FLD); p->StepVay(&FLD); } return p; }
struct WBunch: World{ Bunch*b=0,*c=0; int k=0; bool tr=false; ~WBunch(){ delete b; delete c; } };
static void seeBunch(Bunch*b){ int n=b->getNOP(); see(n); see(b->getTotalCharge()); if(n){ see(b->avgTime()); see(b->avgPosition()); see(b->rmsPosition()); see(b->avgMomentum()); see(b->avgGamma()); see(b->delta()); see(std::abs(b->BunchingFactor(1e12))); } for(int i=0;i<n;i++){ ChargedParticle*p=b->getParticle(i); see(p->getCharge()); see(p->getTime()); see(p->getPosition()); see(p->getMomentum()); see(p->getNP()); } }
static bool allStarted(Bunch*b){ for(int i=0;i<b->getNOP();i++)if(!b->getParticle(i)->getNP())return false; return true; }
static Family bunches(){ typedef WBunch WT; return {"bunch",[]{return new WBunch();},{
  OP("new",delete w.b; w.b=new Bunch(); w.tr=false), OP("new of 2",delete w.b; w.b=new Bunch(2,-1,1); w.tr=false), OP("new of distribution",delete w.b; Distribution d(6,2); for(int i=0;i<12;i++)d.setCoordinate(i/6,i%6,0.01*i); w.b=new Bunch(&d,1e-12,V(0,0,1),V(0,0,2),-1,1); w.tr=false), OP("delete",NEED(w.b); delete w.b; w.b=0; w.tr=false), OP("swap",std::swap(w.b,w.c); w.tr=false), OP("copy",NEED(w.b); delete w.c; w.c=new Bunch(w.b)),
  OP("add",NEED(w.b); w.b->Add(part(w.k++,w.tr))), OP("replace first",NEED(w.b&&w.b->getNOP()); w.b->replaceParticle(0,part(w.k++,w.tr))), OP("replace last",NEED(w.b&&w.b->getNOP()); w.b->replaceParticle(w.b->getNOP()-1,part(w.k++,w.tr))), OP("replace beyond",NEED(w.b); ChargedParticle*p=part(w.k++,false); bool used=false; int n=w.b->getNOP(); try{ w.b->replaceParticle(n,p); }catch(...){ } for(int i=0;i<w.b->getNOP();i++)if(w.b->getParticle(i)==p)used=true; see(used); see(w.b->getNOP()); if(!used)delete p),
  OP("correlate",NEED(w.b); w.b->addCorrelation(0,3,0.5)), OP("correlate bad",NEED(w.b); w.b->addCorrelation(0,6,0.5); w.b->addCorrelation(-1,0,0.5)), OP("clear",NEED(w.b); w.b->clearTrajectories(); w.tr=false), OP("reserve",NEED(w.b); w.b->preAllocate(3)), OP("track",NEED(w.b&&allStarted(w.b)); w.b->InitVay(DTP,&FLD); w.b->StepVay(&FLD); w.tr=true), OP("step",NEED(w.b&&w.tr); w.b->StepVay(&FLD)),
  OP("exchange",NEED(w.b&&w.b->getNOP()&&allStarted(w.b)); int n=w.b->getNOP(); std::vector<double> s(1000,-1); double*e=w.b->bufferStep(s.data()); int z=e-s.data(); see(z); std::unique_ptr<double[]> x(new double[z]); e=w.b->bufferStep(x.get()); for(int i=0;i<z;i++)see(x[i]); see(w.b->setStepFromBuffer(x.get())-x.get()); (void)n),
  OP("query",NEED(w.b); seeBunch(w.b)), OP("coordinates",NEED(w.b); int n=w.b->getNOP(); for(int z=0;z<=n;z++){ std::unique_ptr<double[]> x(new double[6*z]); double*e=w.b->bufferCoordinates(x.get(),z); see(e-x.get()); for(int i=0;i<e-x.get();i++)see(x[i]); }), OP("beyond",NEED(w.b); for(int i:{-1,w.b->getNOP()}){ ChargedParticle*p=0; try{p=w.b->getParticle(i);}catch(...){} see(p==0); }),
  OP("field",NEED(w.b&&allStarted(w.b)); see(w.b->RetardedField(3.4e-9,V(0.1,0.2,1))); FieldTrace T(3.3e-9,1e-12,5); w.b->integrateFieldTrace(V(0.1,0.2,1),&T); for(std::size_t i=0;i<5;i++)see(T.get_field(i))) },4,false}; }
// ---- beams
struct WBeam: World{ Beam*b; bool tr=false; int k=0; WBeam(){b=new Beam();b->setTrackingMethod(TRACKING_VAY);b->setTimeStep(DTP);} ~WBeam(){ delete b; } };
static bool started(Beam*b){ for(int i=0;i<b->getNOB();i++)if(!allStarted(b->getBunch(i)))return false; return true; }
static Bunch* bun(int n,int&k){ Bunch*b=new Bunch(); for(int i=0;i<n;i++)b->Add(part(k++,false)); return b; }
static S IOD;
static Family beams(bool io){ typedef WBeam WT; Family f={io?"beam with files":"beam",[]{return new WBeam();},{
  OP("renew",delete w.b; w.b=new Beam(); w.b->setTrackingMethod(TRACKING_VAY); w.b->setTimeStep(DTP); w.tr=false), OP("clear",w.b->clear(); w.tr=false), OP("add 0",w.b->Add(bun(0,w.k))), OP("add 1",NEED(!w.tr); w.b->Add(bun(1,w.k))), OP("add 3",NEED(!w.tr); w.b->Add(bun(3,w.k))), OP("add copy",NEED(w.b->getNOB()); w.b->Add(new Bunch(w.b->getBunch(0)))),
  OP("setup",NEED(started(w.b)); w.b->setupTracking(&FLD); w.tr=true), OP("step",NEED(w.tr); w.b->doStep(&FLD)), OP("forget",w.b->clearTrajectories(); w.tr=false), OP("reserve",w.b->preAllocate(4)) },io?3:5,io};
  if(!io){ f.ops.push_back(OP("exchange",NEED(started(w.b)); int n=w.b->getStepBufferSize(); see(n); std::unique_ptr<double[]> x(new double[n]); w.b->bufferStep(x.get()); for(int i=0;i<n;i++)see(x[i]); w.b->setStepFromBuffer(x.get()))); f.ops.push_back(OP("probe",int N=w.b->getNOP(); for(int m=0;m<=N;m++){ int n=w.b->getProbeBufferSize(m); std::unique_ptr<double[]> x(new double[n]); w.b->bufferProbe(x.get(),m); for(int i=0;i<n;i++)see(x[i]); }));
    f.ops.push_back(OP("query",see(w.b->getNOB()); see(w.b->getNOP()); see(w.b->getTotalCharge()); for(int i=0;i<w.b->getNOB();i++)seeBunch(w.b->getBunch(i)))); f.ops.push_back(OP("field",NEED(started(w.b)); see(w.b->RetardedField(3.4e-9,V(0.1,0.2,1))); FieldTrace T(3.3e-9,1e-12,5); w.b->integrateFieldTrace(V(0.1,0.2,1),&T); for(std::size_t i=0;i<5;i++)see(T.get_field(i)))); }
  else { f.ops.push_back(OP("watch",see(w.b->WriteWatchPointHDF5(IOD+"/w.h5")))); f.ops.push_back(OP("watch sdds",see(w.b->WriteWatchPointSDDS(IOD+"/w.sdds")))); f.ops.push_back(OP("bunch dump",NEED(w.b->getNOB()); see(w.b->getBunch(0)->WriteWatchPointSDDS((IOD+"/d.sdds").c_str())))); f.ops.push_back(OP("import",NEED(!w.tr); w.b->Add(new Bunch((IOD+"/in.sdds").c_str(),V(0,1,1))))); f.ops.push_back(OP("import missing",NEED(!w.tr); w.b->Add(new Bunch((IOD+"/none.sdds").c_str(),V(0,0,1))))); }
  return f; }
// ---- lattices
struct WLat: World{ Lattice*l=new Lattice(),*m=0; std::vector<GeneralField*> own; ~WLat(){ delete l; delete m; for(auto*p:own)delete p; } };
static Family lattices(){ typedef WLat WT; static auto take=[](WLat&w,int i){ GeneralField*e=w.l->at(i); w.l->remove(i); w.own.push_back(e); }; return {"lattice",[]{return new WLat();},{
  OP("add field",w.l->addElement(new HomogeneousField(V(1,2,3),V(0,1,0)))), OP("add undulator",auto*u=new PlanarUndulator(V(0,0,0.01)); u->Setup(0.3,0.02,4); w.l->addElement(u)), OP("add gradient",auto*u=new TransverseGradientUndulator(V(0,0,0.01)); u->Setup(0.3,1.5,0.1,0.02,4); w.l->addElement(u)), OP("add dipole",w.l->addElement(new HardEdgeDipole(V(0,1,0),V(0,0,0),V(0,0,-1),V(0,0,1),V(0,0,1)))), OP("add soft",w.l->addElement(new SoftEdgeDipole(V(0,1,0),V(0,0,0),V(0,0,-1),0.1,V(0,0,1),V(0,0,1),0.1))), OP("add wave",w.l->addElement(new GaussianWave())), OP("add bare undulator",w.l->addElement(new PlanarUndulator())), OP("add bare gradient",w.l->addElement(new TransverseGradientUndulator())), OP("add packet",w.l->addElement(new GaussianWavePacket())),
  OP("add lattice",Lattice*n=new Lattice(); n->addElement(new HomogeneousField(V(0,1,0),V(0,0,0))); w.l->addElement(n)), OP("nest",delete w.m; w.m=new Lattice(); w.m->addElement(w.l); w.l=w.m; w.m=0), OP("remove first",NEED(w.l->count()); take(w,0)), OP("remove last",NEED(w.l->count()); take(w,w.l->count()-1)), OP("remove beyond",w.l->remove(w.l->count())), OP("remove negative",w.l->remove(-1)), OP("put back",NEED(w.own.size()); w.l->addElement(w.own.back()); w.own.pop_back()), OP("renew",delete w.l; w.l=new Lattice()),
  OP("query",see(w.l->count()); see(w.l->Field(0.1e-9,V(0.001,0.002,0.01))); for(int i=0;i<w.l->count();i++)see(w.l->at(i)->is_external()); for(int i:{-1,w.l->count()}){ GeneralField*g=0; try{g=w.l->at(i);}catch(...){} see(g==0); }) },4,false}; }
// ---- field traces
struct WTr: World{ FieldTrace*a=0,*b=0; ~WTr(){ delete a; delete b; } };
static FieldTrace* tr(int n){ FieldTrace*t=new FieldTrace(1e-9,1e-12,n); for(int i=0;i<n;i++)t->set_field((std::size_t)i,ElMagField(V(i,1,2),V(0,i,1))); return t; }
static Family traces(){ typedef WTr WT; typedef std::size_t sz; return {"trace",[]{return new WTr();},{
  OP("new 0",delete w.a; w.a=tr(0)), OP("new 1",delete w.a; w.a=tr(1)), OP("new 2",delete w.a; w.a=tr(2)), OP("new 5",delete w.a; w.a=tr(5)), OP("raw 3",delete w.a; w.a=new FieldTrace(0,1e-12,3)), OP("delete",NEED(w.a); delete w.a; w.a=0), OP("swap",std::swap(w.a,w.b)), OP("copy",NEED(w.a); delete w.b; w.b=0; w.b=new FieldTrace(w.a)), OP("copy by value",NEED(w.a); delete w.b; w.b=0; w.b=new FieldTrace(*w.a)), OP("assign",NEED(w.a&&w.b); *w.b=*w.a), OP("assign itself",NEED(w.a); FieldTrace&r=*w.a; *w.a=r),
  OP("sum",NEED(w.a&&w.b); FieldTrace t=*w.a+*w.b; *w.a=t), OP("add to",NEED(w.a&&w.b); *w.a+=*w.b), OP("difference",NEED(w.a&&w.b); FieldTrace t=*w.a-*w.b; *w.a=t), OP("scale",NEED(w.a); FieldTrace t=*w.a*2.0; *w.a=t/3.0), OP("derivative",NEED(w.a); delete w.b; w.b=0; w.b=w.a->derivative()), OP("retard",NEED(w.a&&w.b); w.a->retard(0.6e-12,w.b)), OP("retard far",NEED(w.a&&w.b); w.a->retard(-1e-9,w.b)), OP("rotate",NEED(w.a); w.a->transform(V(0,1,0),V(0,0,1),V(1,0,0)); w.a->cancel_long_fields(V(0,1,1))), OP("zero",NEED(w.a); w.a->zero()),
  OP("exchange",NEED(w.a); sz n=w.a->get_N(); std::unique_ptr<ElMagField[]> x(new ElMagField[n]); w.a->get_buffer(x.get(),n); for(sz i=0;i<n;i++)see(x[i]); w.a->set_buffer(x.get(),n)), OP("exchange short",NEED(w.a); sz n=w.a->get_N(); NEED(n); std::unique_ptr<ElMagField[]> x(new ElMagField[n-1]); try{ w.a->get_buffer(x.get(),n-1); }catch(const std::exception&){ see(1); } w.a->set_buffer(x.get(),n-1)), OP("exchange long",NEED(w.a); sz n=w.a->get_N()+1; std::unique_ptr<ElMagField[]> x(new ElMagField[n]); try{ w.a->get_buffer(x.get(),n); }catch(const std::exception&){ see(1); } w.a->set_buffer(x.get(),n)),
  OP("query",NEED(w.a); sz n=w.a->get_N(); see(n); see(w.a->get_t0()); see(w.a->get_dt()); see(w.a->Poynting()); see(w.a->get_center_time()); see(w.a->get_last_time()); for(sz i=0;i<n;i++){ see(w.a->get_field(i)); see(w.a->get_time(i)); } for(double x:{-2.0,-0.5,0.0,0.3,1.0,3.7,4.0,4.5,9.0})see(w.a->get_field(w.a->get_t0()+x*1e-12))), OP("get beyond",NEED(w.a); see(w.a->get_field((sz)w.a->get_N()))), OP("set beyond",NEED(w.a); w.a->set_field((sz)w.a->get_N(),ElMagField())), OP("add beyond",NEED(w.a); w.a->add((sz)w.a->get_N(),ElMagField())) },3,false}; }
// ---- observers
template<class T> struct WObs: World{ fix::Obs<T>*o=0; bool init=false; ~WObs(){ delete o; } };
static Beam*SB[3]; static Lattice*SL;
template<class T> static T* source(int k); template<> Beam* source<Beam>(int k){ return SB[k%3]; } template<> Lattice* source<Lattice>(int){ return SL; } template<> Bunch* source<Bunch>(int k){ return SB[1+k%2]->getBunch(0); }
template<class T> static bool storeParts(fix::Obs<T>&){ return false; } template<> bool storeParts<Beam>(fix::Obs<Beam>&o){ if(!o.n)return false; see(o.n->storeParticlePositions()); see(o.n->getNumParticles()); return true; }
template<class T> static Family observers(const char*tn,fix::Kind K,bool io){ typedef WObs<T> WT; auto mk=[K,io](int nx,int ny,int nt){ return [K,io,nx,ny,nt](World*w_)->bool{ auto&w=*(WT*)w_; if(io&&w.o)return false; delete w.o; w.o=0; w.init=false; w.o=new fix::Obs<T>(Shape(K,nx,ny,nt,V(0.01,0.02,0.3),V(0.02,0,0.001),V(0,0.03,0),1e-9,2e-12,3e-13,-1e-13),IOD+(K==fix::POINT?"/o.sdds":"/o.h5"),source<T>(0)); if(K==fix::MESH){ w.o->m->init(); w.init=true; } if(K==fix::MESH)w.o->m->zero(); return true; }; };
  Family f={F("%s %s%s",fix::KN[K],tn,io?" with files":""),[]{return new WT();},{ Op{"new",mk(2,3,4)}, Op{"new single",mk(1,1,1)}, Op{"new empty",mk(K==fix::MESH?1:0,0,0)},
    OP("integrate",NEED(w.o); w.o->o->integrate()), OP("source 1",NEED(w.o); w.o->o->setSource(source<T>(1))), OP("source 2",NEED(w.o); w.o->o->setSource(source<T>(2))),
    OP("exchange",NEED(w.o); std::size_t n=w.o->o->getBufferSize(); double*b=w.o->o->getBuffer(); for(std::size_t i=0;i<n;i++)see(b[i]); w.o->o->fromBuffer(b,n); delete[] b), OP("wrong buffer",NEED(w.o); std::size_t n=w.o->o->getBufferSize()+1; std::unique_ptr<double[]> b(new double[n]); for(std::size_t i=0;i<n;i++)b[i]=1; w.o->o->fromBuffer(b.get(),n)),
    OP("set",NEED(w.o&&w.o->cells()>0&&w.o->samples()>0); w.o->set(w.o->cells()-1,w.o->samples()-1,ElMagField(V(1,2,3),V(4,5,6)))), OP("particles",NEED(w.o); NEED(storeParts<T>(*w.o))) },io?5:4,io};
  if(!io)f.ops.push_back(OP("delete",NEED(w.o); delete w.o; w.o=0)); if(!io)f.ops.push_back(OP("query",NEED(w.o); for(double d:w.o->all())see(d)));
  if(K==fix::MESH)f.ops.push_back(OP("report",NEED(w.o); std::ostringstream s; w.o->m->writeReport(&s); see(s.str().size()); see(w.o->m->totalEnergy()); std::unique_ptr<int[]> b(new int[100]); for(int i=0;i<w.o->m->get_Np();i++)see(w.o->m->get_Neighbourhood(i,b.get()))));
  if(io){ f.ops.push_back(OP("output",NEED(w.o); w.o->o->generateOutput())); if(K==fix::MESH)f.ops.push_back(OP("re-read",NEED(w.o); MeshedScreen<T> m(w.o->file); see(m.get_Np()); see(m.get_Nt()))); if(K==fix::MESH)f.ops.push_back(OP("write copy",NEED(w.o); w.o->m->writeFile(IOD+"/copy.h5"))); f.ops.erase(std::remove_if(f.ops.begin(),f.ops.end(),[](const Op&o){return o.name=="set"||o.name=="wrong buffer"||o.name=="source 1";}),f.ops.end()); }
  return f; }
// ---- logs
struct WLog: World{ Bunch*b; Beam*B; Logger*l=0; std::string*fn=0; int k=0; WLog(){ k=0; b=bun(2,k); B=new Beam(); B->Add(b); } ~WLog(){ delete l; delete B; delete fn; } 
  const char* name(const char*n){ delete fn; fn=new std::string(IOD+"/"+n); return fn->c_str(); } };
static Family logs(){ typedef WLog WT; return {"log",[]{return new WLog();},{
  OP("parameters",NEED(!w.l); w.l=new ParameterLogger<Bunch>(w.b,w.name("p.sdds"),1)), OP("bunching",NEED(!w.l); auto*p=new ParameterLogger<Bunch>(w.b,w.name("p.sdds"),2); p->record_bunching(1e12); w.l=p), OP("trajectories",NEED(!w.l); w.l=new TrajectoryLogger<Bunch>(w.b,w.name("t.h5"),1,1)), OP("all trajectories",NEED(!w.l); w.l=new TrajectoryLogger<Bunch>(w.b,w.name("t.h5"),1,10)), OP("no trajectories",NEED(!w.l); w.l=new TrajectoryLogger<Bunch>(w.b,w.name("t.h5"),1,0)), OP("probe",NEED(!w.l); w.l=new ProbeLogger<Beam>(w.B,w.name("q.h5"),1,2)), OP("small probe",NEED(!w.l); w.l=new ProbeLogger<Beam>(w.B,w.name("q.h5"),1,0)),
  OP("forget name",NEED(w.fn); for(auto&c:*w.fn)c='?'; delete w.fn; w.fn=0), OP("update",NEED(w.l); w.l->update()), OP("write",NEED(w.l); see(w.l->WriteData())), OP("delete",NEED(w.l); delete w.l; w.l=0), OP("add particle",w.b->Add(part(w.k++,false))) },5,true}; }
// ---- FEL fields and screens as sources
struct WFel: World{ FEL_1D*f=0; Beam*b; int n=0; bool on=false; WFel(){ b=new Beam(); b->setTimeStep(1e-11); } ~WFel(){ delete f; delete b; } };
static Family fels(){ typedef WFel WT; static auto mk=[](WFel&w,bool log){ delete w.f; w.f=0; w.n=0; w.on=false; pugi::xml_document d; d.load_string(("<teufel>"+decks::fel(log?IOD+"/f.h5":"",1,12)+"</teufel>").c_str()); InputParser p(d.child("teufel")); w.f=new FEL_1D(1e-11,d.child("teufel").child("fel1d"),&p); }; return {"fel",[]{return new WFel();},{
  OP("new with log",mk(w,true)), OP("new",mk(w,false)), OP("new by code",delete w.f; w.f=0; w.n=0; w.on=false; w.f=new FEL_1D(1e-11,5)), OP("delete",NEED(w.f); delete w.f; w.f=0), OP("init",NEED(w.f&&!w.on); w.b->setNOTS(0); w.f->init(w.b); w.on=true), OP("step",NEED(w.f&&w.on); w.b->setNOTS(++w.n); w.f->step(w.b)), OP("step at wrong time",NEED(w.f&&w.on); w.b->setNOTS(w.n+5); w.f->step(w.b)), OP("write",NEED(w.f); w.f->write_output()), OP("query",NEED(w.f); for(double z:{-1.0,0.0,0.01,0.0298,0.03,0.05})try{ see(w.f->Field(w.n*1e-11,V(0,0,z))); }catch(const std::exception&){ see(1); }) },5,true}; }
struct WSrc: World{ SourceScreen*s=0; Lattice*l=0; ~WSrc(){ delete s; delete l; } };
static Family sources(){ typedef WSrc WT; return {"source screen",[]{return new WSrc();},{ OP("new",delete w.s; w.s=0; w.s=new SourceScreen(IOD+"/src.h5",V(0,0,0.1),1e-10)), OP("delete",NEED(w.s); delete w.s; w.s=0), OP("into lattice",NEED(w.s); if(!w.l)w.l=new Lattice(); w.l->addElement(w.s); w.s=0), OP("delete lattice",NEED(w.l); delete w.l; w.l=0), OP("field",NEED(w.s); for(double t:{0.0,3e-10,5e-10,9e-10})for(double z:{0.1,0.2,-0.2})see(w.s->Field(t,V(0.01,0.02,z)))), OP("lattice field",NEED(w.l); see(w.l->Field(5e-10,V(0.01,0.02,0.2)))), OP("energy",NEED(w.s); see(w.s->totalEnergy()); see(w.s->Poynting(0,0))) },4,true}; }
// ---- complete set-ups: everything a deck creates is released by its owners
// ---- large numbers: everything belonging to many members is released again
static Family large(){ typedef World WT; static auto crowd=[](int n){ Bunch*b=new Bunch(); for(int i=0;i<n;i++)b->Add(part(i,true)); return b; };
  return {"many",[]{return new World();},{ OP("bunch",Bunch*b=crowd(700); Bunch*c=new Bunch(b); b->InitVay(1e-12,&FLD); b->StepVay(&FLD); seeBunch(b); delete b; seeBunch(c); delete c), OP("plain bunch",Bunch b(700,-1,1); see(b.getNOP())), OP("distribution",Distribution d(6,700); for(int i=0;i<6*700;i++)d.setCoordinate(i/6,i%6,0.01*i); Bunch b(&d,0,V(),V(0,0,10),-1,1); seeBunch(&b)),
  OP("beam",Beam b; for(int i=0;i<150;i++)b.Add(crowd(i%3)); b.setTrackingMethod(TRACKING_VAY); b.setTimeStep(1e-12); b.setupTracking(&FLD); b.doStep(&FLD); see(b.getNOP()); b.clear(); for(int i=0;i<150;i++)b.Add(crowd(i%2))), OP("lattice",Lattice l; for(int i=0;i<150;i++)l.addElement(new HomogeneousField(V(1,2,3),V(4,5,i))); see(l.Field(0,V())); while(l.count()>70){ GeneralField*f=l.at(l.count()/2); l.remove(l.count()/2); delete f; }),
  OP("trace",FieldTrace t(0,1e-12,5000); FieldTrace u=t; u=t+t; u.transform(V(1,0,0),V(0,1,0),V(0,0,1)); std::unique_ptr<FieldTrace> d(u.derivative()); see(d->get_field((size_t)4999))), OP("trajectory",ChargedParticle c; c.initTrajectory(0,V(),V(0,0,5),V()); c.InitVay(1e-13,&FLD); for(int i=0;i<3000;i++)c.StepVay(&FLD); ChargedParticle k(&c); std::vector<double> b(k.TrajBufSize()); k.serializeTraj(b.data()); ChargedParticle m(b.data()); see(m.getNP())),
  OP("logs",Bunch*b=crowd(3); Beam B; B.Add(b); { ParameterLogger<Bunch> p(b,S("lp.sdds").c_str(),1); TrajectoryLogger<Bunch> t(b,S("lt.h5").c_str(),1,3); ProbeLogger<Beam> q(&B,S("lq.h5").c_str(),1,2); for(int i=0;i<700;i++){ p.update(); t.update(); q.update(); } see(p.WriteData()); see(t.WriteData()); see(q.WriteData()); }) },1,true}; }
static void decksOnce(const S&xml){ pugi::xml_document doc; if(!doc.load_string(xml.c_str()))throw std::logic_error("deck"); Lattice L; InputParser P(doc.child("teufel")); Beam B; std::vector<Logger*> logs; ProbeInfo pr{false,0,"",0,0}; std::vector<watch_t> W; std::list<InteractionField*> I; std::vector<BaseObserver*> O; seen.clear();
  P.parseLattice(&L); P.parseBeam(&B,&logs,&pr); P.parseTracking(&B,&W,&I); P.parseObservers(&O); Lattice all; for(int i=0;i<L.count();i++)all.addElement(L.at(i)); for(auto*f:I)all.addElement(f); B.setupTracking(&all); for(auto*l:logs)l->update(); for(auto*f:I)f->init(&B); for(int s=0;s<2;s++){ B.doStep(&all); for(auto*l:logs)l->update(); for(auto*f:I)f->step(&B); } for(auto*l:logs)l->WriteData(); for(auto*f:I)f->write_output();
  for(auto*o:O){ if(auto*b=dynamic_cast<Observer<Beam>*>(o)){b->setSource(&B);b->integrate();} if(auto*l=dynamic_cast<Observer<Lattice>*>(o)){l->setSource(&L);l->integrate();} if(auto*s=dynamic_cast<SnapshotObserver<Beam>*>(o))s->storeParticlePositions(); o->generateOutput(); std::size_t n=o->getBufferSize(); double*b=o->getBuffer(); for(std::size_t i=0;i<n;i++)see(b[i]); delete[] b; delete o; }
  for(int i=0;i<B.getNOB();i++)seeBunch(B.getBunch(i)); for(auto*l:logs)delete l; while(all.count())all.remove(0); for(auto*f:I)delete f; }
static void setups(){ auto la=menu::lattice(),be=menu::beam(),tk=menu::track(),ob=menu::obs(); auto fixm=[]{ fix::Mesh m=fix::strip(3,V(0,0,0.2),V(0.02,0,0),V(0,0.03,0.01)); m.Nt=3; m.dt=1e-12; for(int i=0;i<3;i++)m.t0.push_back(1e-9); fix::save(m,"m.h5"); };
  auto run=[&](const S&id,const menu::Deck&d){ if(!mc::begin(id))return; S x=d.xml(); current=id+": "+x; Family f={"deck "+id.substr(0,id.find(':')),[]{return new World();},{Op{"run",[&](World*){ decksOnce(x); return true; }}},1,true}; fixm(); check(f,{0}); fixm(); };
  S P=be[0],D="<background/>"; auto base=[&]{ menu::Deck d; d.tattr="method='Vay' delta_t='1e-11' n='2'"; d.beam=P; return d; };
  for(size_t i=0;i<la.size();i++){ auto d=base(); d.lattice=menu::at(la[i],0); run(F("deck:l%zu",i),d); for(size_t j=0;j<la.size();j++)if(mc::thorough||(i+j)%5==0){ auto e=d; e.lattice+=menu::at(la[j],1); run(F("deck:l%zu,%zu",i,j),e); } }
  for(size_t i=0;i<be.size();i++){ auto d=base(); d.beam=menu::at(be[i],0)+P; run(F("deck:b%zu",i),d); for(size_t j=0;j<be.size();j++)if(mc::thorough||(i+j)%5==0){ auto e=d; e.beam+=menu::at(be[j],1); run(F("deck:b%zu,%zu",i,j),e); } }
  for(size_t i=0;i<tk.size();i++){ auto d=base(); d.track=menu::at(tk[i],0); run(F("deck:t%zu",i),d); for(size_t j=0;j<tk.size();j++)if(mc::thorough||(i+j)%3==0){ auto e=d; e.track+=menu::at(tk[j],1); run(F("deck:t%zu,%zu",i,j),e); } }
  for(size_t i=0;i<ob.size();i++){ auto d=base(); d.obs=menu::at(ob[i],0); run(F("deck:o%zu",i),d); for(size_t j=0;j<ob.size();j++)if(mc::thorough||(i+j)%5==0){ auto e=d; e.obs+=menu::at(ob[j],1); run(F("deck:o%zu,%zu",i,j),e); } } }
extern "C" void __sanitizer_set_death_callback(void(*)(void)) __attribute__((weak)); static void died(){ fprintf(stderr,"\nin: %s\n",current.substr(0,600).c_str()); }
static void bunchFile(const S&f,int n){ FILE*o=fopen(f.c_str(),"w"); fprintf(o,"SDDS1\n&parameter name=Particles, type=long, &end\n&parameter name=Charge, type=double, &end\n&column name=x, type=double, &end\n&column name=xp, type=double, &end\n&column name=y, type=double, &end\n&column name=yp, type=double, &end\n&column name=t, type=double, &end\n&column name=p, type=double, &end\n&data mode=ascii, &end\n%d\n1e-12\n%d\n",n,n); for(int i=0;i<n;i++)fprintf(o,"%g %g %g %g %g %g\n",1e-3*(i+1),0.01*i,2e-3,0.02,1e-12*i,20.0+i); fclose(o); }
int main(int argc,char**argv){ mc::init(argc,argv); fix::quiet(); hyb::constrandom=true; if(__sanitizer_set_death_callback)__sanitizer_set_death_callback(died); IOD=mc::work+"/io"; mkdir(IOD.c_str(),0700); if(chdir(IOD.c_str()))return 9; bunchFile("in.sdds",3); bunchFile("b.sdds",3); decks::srcFile("src.h5"); omp_set_num_threads(1);
  int k=0; SB[0]=new Beam(); SB[1]=new Beam(); SB[2]=new Beam(); for(int i=0;i<3;i++)if(i)for(int j=0;j<i;j++){ Bunch*b=new Bunch(); for(int q=0;q<2*i-1+j;q++){ ChargedParticle*p=part(k++,true); for(int s=0;s<5;s++)p->StepVay(&FLD); b->Add(p); } SB[i]->Add(b); } SL=new Lattice(); SL->addElement(new HomogeneousField(V(1,2,3),V(4,5,6)));
  std::vector<Family> fs={particles(),distributions(),bunches(),beams(false),beams(true),lattices(),traces(),logs(),fels(),sources(),large()}; for(int K=0;K<4;K++)for(bool io:{false,true}){ fs.push_back(observers<Beam>("of beam",(fix::Kind)K,io)); fs.push_back(observers<Lattice>("of lattice",(fix::Kind)K,io)); if(K!=fix::POINT||true)fs.push_back(observers<Bunch>("of bunch",(fix::Kind)K,io)); }
  for(auto&f:fs){ if(mc::thorough)f.depth++; if(getenv("C21_DEPTH"))f.depth=atoi(getenv("C21_DEPTH")); explore(f); } setups(); return mc::finish(); }
