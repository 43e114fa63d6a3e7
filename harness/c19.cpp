// C19: observer buffers carry the complete field set; element access; partial observations add up
#include "obs.h"
using namespace fix;
static CodedField TF(2e7,0.4);
static const double SPEC[6]={0.0,-0.0,1e-300,5e300,-3.25,1e-12};
static ElMagField fill(int pat,int i,int t){ switch(pat){ case 0:return code(i,t); case 1:return code(i,t,-3.7e5); case 2:return ElMagFieldZero; default:{ int k=i*7+t*3; return ElMagField(V(SPEC[k%6],SPEC[(k+1)%6],SPEC[(k+2)%6]),V(SPEC[(k+3)%6],SPEC[(k+4)%6],SPEC[(k+5)%6])); } } }
static bool same(const std::vector<double>&a,const std::vector<double>&b){ return a.size()==b.size()&&(a.empty()||memcmp(a.data(),b.data(),8*a.size())==0); }
template<class T> static void put(Obs<T>&O,int pat){ for(int i=0;i<O.cells();i++)for(int t=0;t<O.samples();t++)O.set(i,t,fill(pat,i,t)); }
template<class T> static bool rejected(Obs<T>&O,std::function<void()> f,const char*what){ std::vector<double> a=O.all(); bool th=false; try{f();}catch(IOexception&){th=true;}catch(RANGEexception&){th=true;} mc::trans(); if(!th){mc::fail("%s does not raise an exception",what);return false;} if(!same(a,O.all())){mc::fail("rejected %s changed the stored fields",what);return false;} return true; }
template<class T> static void shape(const Shape&s,const std::string&nm){ bool large=s.nx*s.ny*s.nt>200; std::string id=nm+":"+shapeId(s)+":",fn=mc::work+"/o.h5",fn2=mc::work+"/p.h5"; auto n=[](Obs<T>&O){return (size_t)O.cells()*O.samples()*6;};
  // every single place: the value is found there and nowhere else, in the observer and its buffer
  Obs<T>*sh=0;
  for(int i=0;i<std::max(1,(s.k==POINT?1:s.k==MESH?s.nx:s.nx*s.ny));i++)if(mc::begin(id+mc::F("cell:%d",i))){ if(!sh)sh=new Obs<T>(s,fn); Obs<T>&O=*sh; if(i>=O.cells())continue; if(large&&i>1&&i<O.cells()-2&&i!=O.cells()/2&&i!=64&&i!=128)continue; put(O,0); std::vector<double> a=O.all(),b0=O.buf(); if(a.size()!=n(O))mc::fail("content"); if(b0.size()!=n(O)||O.o->getBufferSize()!=n(O)){mc::fail("buffer size %zu instead of %zu",O.o->getBufferSize(),n(O));continue;}
    for(int t=0;t<O.samples()&&!mc::failed();t++)for(int c=0;c<6;c++){ if(large&&t>1&&t<O.samples()-2&&t!=64&&t!=256&&t%97)continue; ElMagField f=fill(0,i,t); double v[6]={f.E().x,f.E().y,f.E().z,f.B().x,f.B().y,f.B().z}; v[c]+=0.5e6; O.set(i,t,ElMagField(V(v[0],v[1],v[2]),V(v[3],v[4],v[5]))); mc::trans(); std::vector<double> w=a,g=O.all(); w[(i*O.samples()+t)*6+c]=v[c]; if(!same(w,g)){ size_t k=0; while(k<w.size()&&w[k]==g[k])k++; mc::fail("setting cell %d sample %d component %d: value %zu is %g instead of %g",i,t,c,k,g[k],w[k]); break; }
      std::vector<double> b=O.buf(); int diff=0; bool one=false; for(size_t k=0;k<b.size();k++)if(b[k]!=b0[k]){diff++;if(b[k]==v[c])one=true;} if(diff!=1||!one){mc::fail("a change of cell %d sample %d component %d changes %d values of the buffer",i,t,c,diff);break;}
      mc::H h; for(double q:b)h.d(q); mc::state(h.h); O.set(i,t,f); } }
  delete sh;
  // buffers: all pairs of contents; into itself, into another observer; sums
  for(int p=0;p<4;p++)for(int q=0;q<4;q++)if(mc::begin(id+mc::F("buf:%d,%d",p,q))){ Obs<T> A(s,fn),B(s,fn2); put(A,p); put(B,q); std::vector<double> a=A.all(),b=B.all(),ba=A.buf(),bb=B.buf(); mc::trans(4); if(ba.size()!=n(A)){mc::fail("buffer size");continue;} if(!same(a,A.all())||!same(ba,A.buf()))mc::fail("getBuffer changes the observer"); A.o->fromBuffer(ba.data(),ba.size()); if(!same(a,A.all()))mc::fail("reading back its own buffer changes the observer"); std::vector<double> keep=ba; B.o->fromBuffer(ba.data(),ba.size()); if(!same(a,B.all()))mc::fail("buffer of another observer not taken over"); if(!same(keep,ba))mc::fail("fromBuffer changes the buffer"); if(!same(a,A.all()))mc::fail("observers not independent"); for(size_t k=0;k<ba.size();k++)keep[k]=ba[k]+bb[k]; A.o->fromBuffer(keep.data(),keep.size()); std::vector<double> g=A.all(); for(size_t k=0;k<g.size();k++)if(g[k]!=a[k]+b[k]){mc::fail("sum of buffers is not the sum of fields");break;} }
  // wrong sizes and indices
  if(mc::begin(id+"reject")){ Obs<T> O(s,fn); put(O,0); size_t N=n(O); std::vector<double> big(2*N+40,7.0); for(size_t k:{(size_t)0,N-6,N-1,N+1,N+6,2*N,(size_t)1,N/6,(size_t)-1,(size_t)1<<32,N+((size_t)1<<32)})if(k!=N&&(k<=big.size()||k>=((size_t)1<<32)))rejected(O,[&]{O.o->fromBuffer(big.data(),k);},mc::F("buffer of size %zu instead of %zu",k,N).c_str());
    std::vector<long> far={-1,-2,1000,1L<<31,0x7fffffff};
    if(s.k==POINT)for(long d:far)for(int e=0;e<2;e++){ std::size_t ix=d<0?(std::size_t)d:(std::size_t)(s.nt+(d==1000?0:d)); rejected(O,[&]{if(e)O.p->setField(ix,code(1,1));else O.p->getField(ix);},mc::F("access to sample %zu of %d",ix,s.nt).c_str()); }
    if(s.k==SCREEN)for(int ax=0;ax<3;ax++)for(long d:far)for(int e=0;e<2;e++){ unsigned L[3]={(unsigned)s.nx,(unsigned)s.ny,(unsigned)s.nt},x[3]={L[0]/2,L[1]/2,L[2]/2}; x[ax]=d<0?(unsigned)d:d==1000?L[ax]:(unsigned)d; rejected(O,[&]{if(e)O.c->setField(x[0],x[1],x[2],code(1,1));else O.c->getField(x[0],x[1],x[2]);},mc::F("access to (%u,%u,%u) of %dx%dx%d",x[0],x[1],x[2],s.nx,s.ny,s.nt).c_str()); }
    if(s.k==SNAP)for(int ax=0;ax<2;ax++)for(long d:far)for(int e=0;e<2;e++){ unsigned L[2]={(unsigned)s.nx,(unsigned)s.ny},x[2]={L[0]/2,L[1]/2}; x[ax]=d<0?(unsigned)d:d==1000?L[ax]:(unsigned)d; rejected(O,[&]{if(e)O.n->setField(x[0],x[1],code(1,1));else O.n->getField(x[0],x[1]);},mc::F("access to (%u,%u) of %dx%d",x[0],x[1],s.nx,s.ny).c_str()); }
    if(s.k==MESH&&s.nx>0)for(int d:{-1,1,5}){ int m=O.samples()+d; if(m<0)continue; FieldTrace tr(0,1,m); rejected(O,[&]{O.m->set_trace(s.nx/2,tr);},"assignment of a trace of different size"); } }
}
// partial observations: all partitions of the sources, each observed separately from a fresh observer
static ChargedParticle* part(int i){ return track(-1e5*(1+i),V(1e-3*(i+1),-7e-4*i,2.2-0.1*i),V(0.1*(i-1),0.05,2.0+0.3*i),1e-12*i,4e-12,30,&TF); }
static GeneralField* elem(int i){ if(i==3){ GaussianWave*w=new GaussianWave(0.0,V(0.1,-0.2,2.9)); w->Setup(0.02,std::complex<double>(5.0,1.0),0.3); return w; } return new CodedField(1.5*i-2,0.3+i); }
static Beam* mkS(const std::vector<int>&ix,Beam*){ Beam*B=new Beam(); Bunch*b=0; for(int i:ix){ if(!b||i%2==0){b=new Bunch();B->Add(b);} b->Add(part(i)); } return B; }
static Bunch* mkS(const std::vector<int>&ix,Bunch*){ Bunch*b=new Bunch(); for(int i:ix)b->Add(part(i)); return b; }
static Lattice* mkS(const std::vector<int>&ix,Lattice*){ Lattice*L=new Lattice(); for(int i:ix)L->addElement(elem(i)); return L; }
template<class T> static void partitions(const Shape&s,const std::string&nm,int n){ std::vector<int> col(n,0); std::unique_ptr<std::vector<double>> whole;
  std::function<void(int,int)> rec=[&](int i,int used){ if(i<n){ for(int c=0;c<=used&&c<n;c++){col[i]=c;rec(i+1,std::max(used,c+1));} return; } std::string id; for(int c:col)id+=(char)('0'+c);
    for(int extra=0;extra<2;extra++)if(mc::begin("part:"+nm+":"+shapeId(s)+":"+id+(extra?"+empty":""))){ std::string fn=mc::work+"/o.h5"; if(!whole){ std::vector<int> a; for(int k=0;k<n;k++)a.push_back(k); std::unique_ptr<T> S(mkS(a,(T*)0)); Obs<T> O(s,fn,S.get()); O.o->integrate(); whole.reset(new std::vector<double>(O.all())); }
      std::vector<double> sum; for(int c=0;c<used+extra;c++){ std::vector<int> a; for(int k=0;k<n;k++)if(col[k]==c)a.push_back(k); std::unique_ptr<T> S(mkS(a,(T*)0)); Obs<T> O(s,fn,S.get()); O.o->integrate(); std::vector<double> b=O.buf(); mc::trans(); if(sum.empty())sum.assign(b.size(),0); if(b.size()!=sum.size()){mc::fail("buffer sizes differ");return;} for(size_t k=0;k<b.size();k++)sum[k]+=b[k]; }
      Obs<T> O(s,fn); put(O,0); O.o->fromBuffer(sum.data(),sum.size()); std::vector<double> g=O.all(); double sc[2]={0,0}; for(size_t k=0;k<g.size();k++)sc[k%6/3]=std::max(sc[k%6/3],fabs((*whole)[k])); for(size_t k=0;k<g.size();k++)if(!mc::near(g[k],(*whole)[k],1e-12,sc[k%6/3])){mc::fail("sum of the parts %s differs from the whole: value %zu is %.17g instead of %.17g",id.c_str(),k,g[k],(*whole)[k]);break;} } };
  rec(0,0); }
int main(int argc,char**argv){ mc::init(argc,argv); quiet(); int N=mc::thorough?6:4,T=mc::thorough?5:3;
  for(auto&s:shapes(N,T,true)){ shape<Lattice>(s,"lattice"); shape<Beam>(s,"beam"); shape<Bunch>(s,"bunch"); }
  for(auto&s:largeShapes()){ shape<Lattice>(s,"lattice"); shape<Beam>(s,"beam"); shape<Bunch>(s,"bunch"); }
  std::vector<Shape> P; V o(0.1,-0.2,3.0),dx(0.02,0.001,-0.003),dy(0.004,0.03,0.002); for(auto&s:shapes(3,3,false))if((s.nt==3||s.k==SNAP)&&(s.k==POINT||s.k==MESH?s.nx<4:true))P.push_back(s);
  for(auto&s:P){ partitions<Beam>(s,"beam",mc::thorough?6:5); partitions<Bunch>(s,"bunch",mc::thorough?5:4); partitions<Lattice>(s,"lattice",mc::thorough?5:4); }
  // more than 2^31 values (memory is needed for real: thorough runs only)
  if(mc::thorough&&mc::begin("large")){ Mesh m=strip(1,o,dx,dy); m.Nt=358000000; m.dt=1e-15; m.t0={0}; std::string fn=mc::work+"/l.h5"; save(m,fn); MeshedScreen<Beam> M(fn); size_t w=(size_t)m.Nt*6; if(M.getBufferSize()!=w)mc::fail("buffer size of a mesh with %d samples is %zu instead of %zu",m.Nt,M.getBufferSize(),w); }
  return mc::finish(); }
