// C27: observers sample the source's field at the places and times their parameters describe
#include "obs.h"
using namespace fix;
static double TOL=1e-12;
struct Src{ std::string n; Bunch*b=0; Beam*B=0; Lattice*L=0; };
static CodedField TF(2e7,0.4);
static Bunch* mkBunch(int np,int seed){ return bunch(np,30,4e-12,&TF,-1e5*(1+seed),2.2-0.004*seed); }
static Beam* mkBeam(int kind){ Beam*B=new Beam(); if(kind==0)return B; B->Add(mkBunch(2,0)); if(kind==2){B->Add(new Bunch());B->Add(mkBunch(1,1));} return B; }
static Lattice* mkLat(int kind){ Lattice*L=new Lattice(); if(kind>=1)L->addElement(new CodedField(3.5,0.25)); if(kind>=2){ GaussianWave*w=new GaussianWave(0.0,V(0.1,-0.2,2.9)); w->Setup(0.02,std::complex<double>(5.0,1.0),0.3); L->addElement(w); L->addElement(new CodedField(-1.0,2.0)); } return L; }
static void expectF(ElMagField a,ElMagField w,double sE,double sB,const char*what,int i,int t,V p){ if(!mc::failed()&&!fclose_(a,w,TOL,sE,sB))mc::fail("%s: cell %d %s sample %d holds %s instead of %s",what,i,vs(p).c_str(),t,fs(a).c_str(),fs(w).c_str()); }
template<class T> static void check(Obs<T>&O,const std::vector<std::vector<ElMagField>>&w,const char*what){ double sE=0,sB=0; for(auto&r:w)for(auto f:r){sE=std::max(sE,f.E().norm());sB=std::max(sB,f.B().norm());} for(int i=0;i<O.cells();i++)for(int t=0;t<O.samples();t++)expectF(O.get(i,t),w[i][t],sE,sB,what,i,t,O.g.pos[i]); }
typedef std::vector<std::vector<ElMagField>> FF;
static FF want(Obs<Lattice>&O,Lattice*L){ FF r; for(int i=0;i<O.cells();i++){ r.push_back({}); for(int t=0;t<O.samples();t++)r[i].push_back(L->Field(O.g.t0[i]+(O.s.k==SNAP?0:t*O.s.dt),O.g.pos[i])); } return r; }
template<class T> static FF wantP(Obs<T>&O,T*S){ FF r; for(int i=0;i<O.cells();i++){ r.push_back({}); if(O.s.k==SNAP){r[i].push_back(S->RetardedField(O.g.t0[i],O.g.pos[i]));continue;} FieldTrace tr(O.g.t0[i],O.s.timing?O.s.dt:0,O.samples()); if(O.samples())S->integrateFieldTrace(O.g.pos[i],&tr); for(int t=0;t<O.samples();t++)r[i].push_back(tr.get_field((std::size_t)t)); } return r; }
static FF want(Obs<Beam>&O,Beam*S){return wantP(O,S);} static FF want(Obs<Bunch>&O,Bunch*S){return wantP(O,S);}
static FF addF(FF a,const FF&b){ for(size_t i=0;i<a.size();i++)for(size_t t=0;t<a[i].size();t++)a[i][t]+=b[i][t]; return a; }
// operations: i integrate, 2 switch source, z zero (mesh), w overwrite with coded values, o generate output
template<class T> static void run(const Shape&s,const std::string&nm,std::function<T*(int)> mk,int kinds,int depth){
  std::vector<std::string> seqs; std::string ops=s.k==MESH?"i2zwo":"i2wo"; std::function<void(std::string)> rec=[&](std::string q){ if((int)q.size()==depth){ if(q.find('i')!=std::string::npos)seqs.push_back(q); return; } for(char o:ops)rec(q+o); }; rec("");
  for(int k=0;k<kinds;k++){ std::unique_ptr<T> A,B2; for(auto&q:seqs)if(mc::begin(nm+mc::F(":%d:",k)+shapeId(s)+":"+q)){ if(!A){A.reset(mk(k));B2.reset(mk((k+1)%kinds));} std::string fn=mc::work+"/o.h5"; Obs<T> O(s,fn,A.get()); T*cur=A.get(); FF w; for(int i=0;i<O.cells();i++)w.push_back(std::vector<ElMagField>(O.samples(),ElMagFieldZero)); int step=0;
    if(s.k==MESH){ if(O.m->get_Np()!=O.cells()||O.m->get_Nt()!=O.samples())mc::fail("mesh reports %d cells %d samples",O.m->get_Np(),O.m->get_Nt()); for(int i=0;i<O.cells();i++){ if(!veq(O.m->get_point(i),O.g.pos[i]))mc::fail("cell %d reported at %s instead of %s",i,vs(O.m->get_point(i)).c_str(),vs(O.g.pos[i]).c_str()); if(s.timing&&(O.m->get_t0(i)!=O.g.t0[i]||O.m->get_dt()!=s.dt))mc::fail("cell %d reported start %g step %g",i,O.m->get_t0(i),O.m->get_dt()); } }
    check(O,w,"new observer");
    for(char o:q){ step++; mc::trans(); switch(o){ case 'i':{ O.o->integrate(); FF x=want(O,cur); int nz=0; for(auto&r:x)for(auto&f:r)if(!f.isNull())nz++; if(nz)mc::note(nm+" "+KN[s.k]+" fields",nz); w=s.k==SNAP?x:addF(w,x); break; } case '2':cur=cur==A.get()?B2.get():A.get(); O.o->setSource(cur); break; case 'z':O.m->zero(); for(auto&r:w)for(auto&f:r)f=ElMagFieldZero; break; case 'w':for(int i=0;i<O.cells();i++)for(int t=0;t<O.samples();t++){w[i][t]=code(i,t);O.set(i,t,w[i][t]);} break; case 'o':O.o->generateOutput(); break; }
      check(O,w,mc::F("after %s",q.substr(0,step).c_str()).c_str()); if(mc::failed())break; }
    mc::H h; for(auto&r:w)for(auto f:r){hv(h,f.E());hv(h,f.B());} mc::state(h.h); } } }
int main(int argc,char**argv){ mc::init(argc,argv); quiet(); int N=mc::thorough?5:4,T=mc::thorough?4:3,D=mc::thorough?5:4;
  for(auto&s:shapes(N,T,true)){ int d=D; bool big=s.nx*s.ny*std::max(1,s.nt)>12; if(big)d=D-1; if(s.nx*s.ny*std::max(1,s.nt)>36)d=D-2;
    run<Lattice>(s,"lattice",mkLat,3,d); Shape p=s; if(s.k==SNAP)p.t0=2.76e-9; else { p.t0=2.68e-9; p.dt=5e-11; } // signals of the particles arrive from 2.7 to 2.85 ns
    run<Beam>(p,"beam",mkBeam,3,d-1); run<Bunch>(p,"bunch",[](int k){return k?mkBunch(k,k):new Bunch();},2,d-1); }
  for(auto&s:largeShapes()){ run<Lattice>(s,"large:lattice",mkLat,3,2); Shape p=s; if(s.k==SNAP)p.t0=2.76e-9; else { p.t0=2.68e-9; p.dt=s.nt>100?6e-13:5e-11; } run<Beam>(p,"large:beam",mkBeam,3,1); run<Bunch>(p,"large:bunch",[](int k){return k?mkBunch(k,k):new Bunch();},2,1); }
  // many sources
  for(int n:{40,130,300})for(int k=0;k<4;k++)if(mc::begin(mc::F("crowd:%d,%d",n,k))){ std::unique_ptr<Beam> B(new Beam()); Bunch*b=0; for(int i=0;i<n;i++){ if(i%7==0||!b){b=new Bunch();B->Add(b);} b->Add(track(-1e5*(1+i%5),V(1e-4*(i%11),-7e-5*(i%13),2.2-1e-4*i),V(0.01*(i%3-1),0.05,2.0+0.003*i),1e-13*(i%9),4e-12,30,&TF)); } std::unique_ptr<Lattice> L(new Lattice()); for(int i=0;i<n;i++)L->addElement(new CodedField(1+0.1*i,0.25+0.01*i)); Shape s=shapes(2,3,false)[k]; s={(Kind)k,k==POINT?1:2,k==SCREEN||k==SNAP?2:1,k==SNAP?1:3,s.pos,s.dx,s.dy,k==SNAP?2.76e-9:2.68e-9,5e-11,0,0}; s.pos=V(0.1,-0.2,3.0); s.dx=V(0.02,0.001,-0.003); s.dy=V(0.004,0.03,0.002);
    { Obs<Beam> O(s,mc::work+"/o.h5",B.get()); O.o->integrate(); check(O,want(O,B.get()),"many particles"); } { Obs<Lattice> O(s,mc::work+"/o.h5",L.get()); O.o->integrate(); check(O,want(O,L.get()),"many elements"); } mc::trans(2); mc::H h; h.i(n).i(k); mc::state(h.h); }
  // special placements: screens through far/near points, zero step vectors, negative steps, large offsets
  std::vector<V> dirs={V(0,0,0),V(1e-3,0,0),V(0,-2e-3,0),V(0,0,5e-3),V(-1e-2,3e-3,1e-4),V(1,2,3)};
  for(Kind k:{SCREEN,SNAP})for(size_t a=0;a<dirs.size();a++)for(size_t b=0;b<dirs.size();b++)for(int n=0;n<(mc::thorough?16:9);n++){ Shape s={k,1+n%4,1+(n*7/3)%4,2,V(-3,4,1e3),dirs[a],dirs[b],-5e-9,n%2?-1e-12:2e-9,n%3?1e-9:0,n%5?-2e-9:0}; if(mc::begin(mc::F("place:%s,%d,%d,%d",KN[k],(int)a,(int)b,n))){ std::unique_ptr<Lattice> L(mkLat(1)); Obs<Lattice> O(s,mc::work+"/o.h5",L.get()); O.o->integrate(); mc::trans(); check(O,want(O,L.get()),"placement"); } }
  // particle coordinates of a snapshot: all times around the recorded trajectories
  for(int k=0;k<3;k++)for(int t=-4;t<=34;t++)for(int rep=0;rep<2;rep++)if(mc::begin(mc::F("coord:%d,%d,%d",k,t,rep))){ std::unique_ptr<Beam> B(mkBeam(k)); double tm=4e-12*(t+0.3*rep); Shape s={SNAP,2,1,1,V(0,0,5),V(1,0,0),V(0,1,0),tm,0,0,0}; std::string fn=mc::work+"/c.h5"; Obs<Beam> O(s,fn,B.get()); int n=B->getNOP(); if(O.n->getNumParticles()!=n)mc::fail("%d particles reported instead of %d",O.n->getNumParticles(),n); O.o->integrate(); int r=O.n->storeParticlePositions(); if(rep)r=O.n->storeParticlePositions(); mc::trans(); if(r!=n){mc::fail("%d particle positions stored instead of %d",r,n);continue;} O.o->generateOutput(); R f(fn); DS d=f.ds("ParticleCoordinates"); if(n==0){ if(d.ok&&d.v.size())mc::fail("coordinates of a beam without particles"); continue; } if(!d.ok||d.dim.size()!=2||(int)d.dim[0]!=n||d.dim[1]!=6){mc::fail("ParticleCoordinates missing or misshaped");continue;} int i=0; for(int bb=0;bb<B->getNOB();bb++)for(int p=0;p<B->getBunch(bb)->getNOP();p++,i++){ V X,P; B->getBunch(bb)->getParticle(p)->CoordinatesAtTime(tm,&X,&P); double w[6]={X.x,X.y,X.z,P.x,P.y,P.z}; for(int q=0;q<6;q++)if(d.v[6*i+q]!=w[q])mc::fail("particle %d coordinate %d stored as %.17g instead of %.17g",i,q,d.v[6*i+q],w[q]); } }
  for(int k=0;k<1;k++)if(mc::begin("nosource")){ Shape s={SNAP,1,1,1,V(0,0,5),V(1,0,0),V(0,1,0),0,0,0,0}; Obs<Beam> O(s,mc::work+"/c.h5",0); if(O.n->getNumParticles()!=0||O.n->storeParticlePositions()!=0)mc::fail("particles without a source"); }
  return mc::finish(); }
