// C20: every library call made while files are written or read is made to fail; the failure has to be reported, data read partially must not be presented
#include "decks.h"
#include "obs.h"
#include "fault.h"
#include "logger.h"
#include "parser.h"
#include <sys/resource.h>
#include <signal.h>
#include <list>
#include <memory>
using namespace decks;
using fix::Obs; using fix::Shape;
typedef std::string S; typedef fault::Mode M;
static S D; // directory of the case
static const M MODES[3]={fault::SKIP,fault::AFTER,fault::FROM}; static const char*const MN[3]={"fails","fails after its work","and all later ones fail"};
struct Claim{ S e; }; // thrown by writers that return an error status
// ---- what writes
static Beam* mkbeam(int kind,GeneralField*f){ Beam*B=new Beam(); int nb[]={0,1,2,3},np[][3]={{0,0,0},{1,0,0},{3,2,0},{1,0,2}}; for(int b=0;b<nb[kind];b++)B->Add(fix::bunch(np[kind][b],6,1e-12,f,-1e7,-0.01*b)); return B; }
struct Writer{ S name; std::function<void(const S&)> prep; std::function<std::function<void()>(const S&)> make; /* builds the objects, the result writes to the file and throws Claim on error status */ S fn; };
static Shape shape(fix::Kind k,int nx,int ny,int nt){ return Shape(k,nx,ny,nt,V(0.01,0.02,0.3),V(0.02,0,0.001),V(0,0.03,0),1e-9,2e-12,3e-13,-1e-13); }
template<class T> static std::function<void()> obsWriter(const Shape&s,const S&f,T*src,bool part){ auto o=std::make_shared<Obs<T>>(s,f,src); for(int i=0;i<o->cells();i++)for(int t=0;t<o->samples();t++)o->set(i,t,ElMagField(V(i+0.1*t,1-t,2*i),V(0.5*i,t,7))); if(part&&o->n)o->n->storeParticlePositions(); return [o]{ o->o->generateOutput(); }; }
static std::vector<Writer> writers(){ std::vector<Writer> w; static CodedField F(1e5,0.01); static Lattice L; static Beam*B[4]; for(int i=0;i<4;i++)B[i]=mkbeam(i,&F);
  int sz[][3]={{1,1,1},{2,1,3},{3,2,4}};
  for(int k=0;k<4;k++)for(int z=0;z<3;z++){ fix::Kind K=(fix::Kind)k; Shape s=shape(K,sz[z][0],sz[z][1],sz[z][2]); const char*e=K==fix::POINT?".sdds":".h5"; w.push_back({mc::F("%s%d-beam",fix::KN[k],z),nullptr,[s,z](const S&f){return obsWriter<Beam>(s,f,B[z+1],true);},S("o")+e}); if(z==1)w.push_back({mc::F("%s%d-lattice",fix::KN[k],z),nullptr,[s](const S&f){return obsWriter<Lattice>(s,f,&L,false);},S("o")+e}); }
  w.push_back({"mesh-copy",nullptr,[](const S&f){ auto o=std::make_shared<Obs<Beam>>(shape(fix::MESH,2,1,3),D+"/in.h5",B[1]); return std::function<void()>([o,f]{ o->m->writeFile(f); }); },"o.h5"});
  { Shape s=shape(fix::MESH,2,1,3); s.timing=false; w.push_back({"mesh-untimed",nullptr,[s](const S&f){return obsWriter<Beam>(s,f,B[1],false);},"o.h5"}); }
  for(int b=0;b<4;b++){ w.push_back({mc::F("watch-hdf5-%d",b),nullptr,[b](const S&f){return std::function<void()>([b,f]{ int r=B[b]->WriteWatchPointHDF5(f); if(r<0)throw Claim{"status"}; if(r!=B[b]->getNOP())throw std::runtime_error("number of particles written is wrong"); });},"o.h5"});
    w.push_back({mc::F("watch-sdds-%d",b),nullptr,[b](const S&f){return std::function<void()>([b,f]{ if(B[b]->WriteWatchPointSDDS(f))throw Claim{"status"}; });},"o.sdds"}); }
  w.push_back({"bunch-sdds",nullptr,[](const S&f){return std::function<void()>([f]{ if(B[2]->getBunch(0)->WriteWatchPointSDDS(f.c_str()))throw Claim{"status"}; });},"o.sdds"});
  for(int q=0;q<4;q++)for(int n=q==0||q==3?0:1;n<3;n+=1)w.push_back({mc::F("log%d-%d",q,n),nullptr,[q,n](const S&f){ auto keep=std::make_shared<S>(f); std::shared_ptr<Logger> l; Bunch*u=B[2]->getBunch(0); if(q<2){ auto*p=new ParameterLogger<Bunch>(u,keep->c_str(),1); if(q)p->record_bunching(1e12); l.reset(p); } else if(q==2)l.reset(new TrajectoryLogger<Bunch>(u,keep->c_str(),1,2)); else l.reset(new ProbeLogger<Beam>(B[2],keep->c_str(),1,4)); for(int i=0;i<n;i++)l->update(); return std::function<void()>([l,keep]{ if(l->WriteData())throw Claim{"status"}; }); },q<2?"o.sdds":"o.h5"});
  for(int n=0;n<3;n++)w.push_back({mc::F("fel%d",n),nullptr,[n](const S&f){ auto doc=std::make_shared<pugi::xml_document>(); doc->load_string(("<teufel>"+fel(f,1)+"</teufel>").c_str()); InputParser P(doc->child("teufel")); auto o=std::make_shared<FEL_1D>(DT,doc->child("teufel").child("fel1d"),&P); Beam Z; Z.setTimeStep(DT); o->init(&Z); for(int i=0;i<n;i++){ Z.setNOTS(i+1); o->step(&Z); } return std::function<void()>([o]{ o->write_output(); }); },"o.h5"});
  return w; }
// ---- what reads: description of the object obtained; "" if empty; exceptions pass
struct Reader{ S name; std::function<void()> prep; std::function<S()> read; };
static S dump(const std::vector<double>&v){ S r; for(double d:v)r+=mc::F("%.17g ",d); return r; }
static void addv(std::vector<double>&v,V x){ v.push_back(x.x);v.push_back(x.y);v.push_back(x.z); }
static S readMesh(const S&f){ MeshedScreen<Beam> m(f); m.init(); std::vector<double> v{(double)m.get_Np(),(double)m.get_Nt(),(double)m.get_dt()}; for(int i=0;i<m.get_Np();i++){ addv(v,m.get_point(i)); addv(v,m.get_normal(i)); v.push_back(m.get_area(i)); FieldTrace t=m.get_trace(i); v.push_back(t.get_t0()); v.push_back(t.get_N()); for(size_t k=0;k<t.get_N();k++){ addv(v,t.get_field(k).E()); addv(v,t.get_field(k).B()); } } return "mesh "+dump(v); }
static S readScreen(const S&f){ SourceScreen s(f,V(0.1,0.2,0.3),1e-10); std::vector<double> v; for(int k=0;k<60;k++)for(double z:{0.4,-0.4}){ ElMagField e=s.Field(1e-10+k*5e-11,V(0.11,0.2,z)); addv(v,e.E()); addv(v,e.B()); } return "screen "+dump(v); }
static S readBunch(const S&f){ Bunch b(f.c_str(),V(0,0,1)); std::vector<double> v; if(b.getNOP()==0)return ""; for(int i=0;i<b.getNOP();i++){ ChargedParticle*p=b.getParticle(i); v.push_back(p->getCharge()); v.push_back(p->getTime()); addv(v,p->getPosition()); addv(v,p->getMomentum()); } return "bunch "+dump(v); }
static fix::Mesh fullMesh(int n,int nt){ fix::Mesh m=fix::strip(n,V(0,0,0.1),V(0.02,0,0),V(0,0.03,0.01)); m.Nt=nt; m.dt=1e-12; for(int i=0;i<n;i++)m.t0.push_back(1e-10*i); for(int i=0;i<n*nt*6;i++)m.f.push_back(1+0.37*i); return m; }
static void bunchFile(const S&f,int n){ FILE*o=fopen(f.c_str(),"w"); fprintf(o,"SDDS1\n&parameter name=Particles, type=long, &end\n&parameter name=Charge, type=double, &end\n&column name=x, type=double, &end\n&column name=xp, type=double, &end\n&column name=y, type=double, &end\n&column name=yp, type=double, &end\n&column name=t, type=double, &end\n&column name=p, type=double, &end\n&data mode=ascii, &end\n%d\n1e-12\n%d\n",n,n); for(int i=0;i<n;i++)fprintf(o,"%g %g %g %g %g %g\n",1e-3*(i+1),0.01*i,2e-3,0.02,1e-12*i,20.0+i); fclose(o); }
static std::vector<Reader> readers(){ std::vector<Reader> r;
  r.push_back({"mesh-full",[]{fix::save(fullMesh(3,4),D+"/in.h5");},[]{return readMesh(D+"/in.h5");}});
  r.push_back({"mesh-timed",[]{auto m=fullMesh(2,3);m.f.clear();fix::save(m,D+"/in.h5");},[]{return readMesh(D+"/in.h5");}});
  r.push_back({"mesh-bare",[]{auto m=fullMesh(2,3);m.f.clear();m.Nt=-1;fix::save(m,D+"/in.h5");},[]{return readMesh(D+"/in.h5");}});
  r.push_back({"screen",[]{srcFile(D+"/in.h5");},[]{return readScreen(D+"/in.h5");}});
  r.push_back({"bunch",[]{bunchFile(D+"/in.sdds",4);},[]{return readBunch(D+"/in.sdds");}});
  return r; }
static S inchild(const std::function<S()>&f,double limit=60){ S m; int rc=mc::isolated([&]{ S s=f(); if(s!="")throw std::runtime_error(s); },limit,&m); if(rc==0)return ""; if(rc==1)return m; if(rc==3)return "does not terminate"; size_t k=m.find("ERROR: AddressSanitizer"); if(k==S::npos)k=m.find("runtime error:"); return "crash: "+m.substr(k==S::npos?(m.size()>300?m.size()-300:0):k,400); }
// outcome of one write attempt in a fresh process: "" reported, otherwise what is wrong
static S attempt(const Writer&w,const std::vector<int>&at,M m){ return inchild([&]{ hyb::cleardir(D); auto f=w.make(D+"/"+w.fn); fault::arm(at,m); S st; try{ f(); st="ok"; }catch(Claim&c){ st="status"; }catch(std::exception&e){ st=e.what(); if(st=="number of particles written is wrong")return st; if(st=="")return S("exception without message"); }catch(...){ return S("exception of unknown type"); } fault::disarm(); if(fault::hits()==0)return S(); if(st=="ok")return S("is not reported"); return S(); }); }
static void faults(const Writer&w,bool pairs){ S id="write:"+w.name; hyb::cleardir(D); S e=inchild([&]{ auto f=w.make(D+"/"+w.fn); fault::arm({},fault::NONE); f(); fault::disarm(); if(fault::calls()==0)return S("nothing written"); return S(); }); long n=fault::calls(); std::vector<S> nm; for(long i=0;i<n;i++)nm.push_back(fault::name(i));
  if(mc::begin(id)){ if(e!="")mc::fail("without failures: %s",e.c_str()); mc::note("calls",n); mc::trans(n); }
  if(e!="")return;
  for(long k=0;k<n;k++)for(int m=0;m<3;m++)if(mc::begin(mc::F("%s:%ld:%d",id.c_str(),k,m))){ mc::trans(n); S r=attempt(w,{(int)k},MODES[m]); mc::state(mc::H().s(w.name).i(k).i(m).h); mc::note("faults",1); if(r!="")mc::fail("call %ld %s %s: %s",k,nm[k].c_str(),MN[m],r.c_str()); }
  if(pairs)for(long k=0;k<n;k++)for(long j=k+1;j<n;j++)if(mc::begin(mc::F("%s:%ld+%ld",id.c_str(),k,j))){ mc::note("faults",1); S r=attempt(w,{(int)k,(int)j},fault::AFTER); if(r!="")mc::fail("calls %ld %s, %ld %s fail: %s",k,nm[k].c_str(),j,nm[j].c_str(),r.c_str()); } }
// the medium is full after so many bytes: a writer claiming success has written everything
static void limited(const Writer&w){ if(w.fn!="o.h5")return; /* the SDDS library reports success although its file is incomplete */ S id="full:"+w.name; hyb::cleardir(D); S e=inchild([&]{ w.make(D+"/"+w.fn)(); return S(); }); if(e!="")return; hyb::Out ref=hyb::collect(D,{"in.h5"}); struct stat st; if(stat((D+"/"+w.fn).c_str(),&st))return; long size=st.st_size; int steps=mc::thorough?64:12; 
  for(int i=0;i<=steps;i++){ long lim=size*i/steps; if(i==steps)lim=size-1; if(!mc::begin(mc::F("%s:%ld",id.c_str(),lim)))continue; hyb::cleardir(D); struct stat sb; bool ok=false; S r=inchild([&]{ auto f=w.make(D+"/"+w.fn); signal(SIGXFSZ,SIG_IGN); rlimit rl{(rlim_t)lim,(rlim_t)lim}; setrlimit(RLIMIT_FSIZE,&rl); S st; try{ f(); }catch(Claim&){ return S(); }catch(std::exception&e){ return S(); } return S("claims"); }); (void)sb;(void)ok; mc::note("limits",1);
    if(r=="claims"){ hyb::Out o=hyb::collect(D,{"in.h5"}); S c=hyb::compare(ref,o,1e-15); if(c!="")mc::fail("file limited to %ld of %ld bytes: success is claimed but %s",lim,size,c.c_str()); } else if(r!="")mc::fail("file limited to %ld of %ld bytes: %s",lim,size,r.c_str()); } }
static void readfaults(const Reader&w,bool pairs){ S id="read:"+w.name; hyb::cleardir(D); w.prep(); S ref; S e=inchild([&]{ fault::arm({},fault::NONE); if(chdir(D.c_str()))return S("chdir"); S r=w.read(); fault::disarm(); FILE*f=fopen((D+"/ref.txt").c_str(),"w"); fputs(r.c_str(),f); fclose(f); return r==""?S("nothing read"):S(); }); long n=fault::calls(); std::vector<S> nm; for(long i=0;i<n;i++)nm.push_back(fault::name(i)); { std::ifstream f(D+"/ref.txt"); std::getline(f,ref); }
  if(mc::begin(id)){ if(e!="")mc::fail("without failures: %s",e.c_str()); mc::note("calls",n); }
  if(e!="")return;
  auto one=[&](std::vector<int> at,M m){ return inchild([&]{ if(chdir(D.c_str()))return S("chdir"); fault::arm(at,m); S r; try{ r=w.read(); }catch(std::exception&x){ return S(x.what())==""?S("exception without message"):S(); } fault::disarm(); if(r==""||r==ref)return S(); return S("data presented differ from those in the file"); }); };
  for(long k=0;k<n;k++)for(int m=0;m<3;m++)if(mc::begin(mc::F("%s:%ld:%d",id.c_str(),k,m))){ mc::trans(n); mc::state(mc::H().s(w.name).i(k).i(m).h); mc::note("faults",1); S r=one({(int)k},MODES[m]); if(r!="")mc::fail("call %ld %s %s: %s",k,nm[k].c_str(),MN[m],r.c_str()); }
  if(pairs)for(long k=0;k<n;k++)for(long j=k+1;j<n;j++)if(mc::begin(mc::F("%s:%ld+%ld",id.c_str(),k,j))){ mc::note("faults",1); S r=one({(int)k,(int)j},fault::SKIP); if(r!="")mc::fail("calls %ld %s, %ld %s fail: %s",k,nm[k].c_str(),j,nm[j].c_str(),r.c_str()); } }

// ---- files whose parts contradict each other, or from which parts are missing
struct Item{ S ds; std::vector<hsize_t> dim; int kind; /* 0 double, 1 int, 2 text */ std::vector<std::pair<S,S>> at; /* name, value: i<int>, d<double>, s = text */ bool there; };
struct RawFile{ std::vector<Item> it; Item&operator[](const S&n){ for(auto&i:it)if(i.ds==n)return i; throw std::logic_error(n); } };
static size_t badPos; // which corner of which triangle it is (3*triangle+corner)
static int badIndex; // index stored as a corner of one triangle, -100: all in range
static RawFile rawMesh(int n,int nt,bool timed,bool field){ RawFile r; hsize_t N=n; r.it={{"MeshCornerPoints",{N+2,3},0,{{"Ncp",mc::F("i%d",n+2)}},true},{"MeshTriangles",{N,3},1,{{"Ntri",mc::F("i%d",n)}},true},{"ObservationPosition",{N,3},0,{{"Np",mc::F("i%d",n)}},true},{"ObservationTime",{N},0,{{"Nt",mc::F("i%d",nt)},{"dt","d1e-12"}},timed},{"ElMagField",{N,(hsize_t)nt,6},0,{},field}}; return r; }
static RawFile rawScreen(int nx,int ny,int nt){ RawFile r; r.it={{"Screen",{4,3},0,{{"Nx",mc::F("i%d",nx)},{"Ny",mc::F("i%d",ny)},{"NOTS",mc::F("i%d",nt)},{"t0","d0"},{"dt","d1e-11"},{"dtx","d1e-13"},{"dty","d2e-13"}},true},{"ElMagField",{(hsize_t)nx,(hsize_t)ny,(hsize_t)nt,6},0,{},true}}; return r; }
static void saveRaw(RawFile&r,const S&fn){ fix::W w(fn); for(auto&i:r.it)if(i.there){ size_t N=1; for(hsize_t q:i.dim)N*=q; hid_t d; if(i.kind==2){ hid_t t=H5Tcopy(H5T_C_S1); H5Tset_size(t,8); std::vector<char> v(N*8,'x'); d=w.ds(i.ds.c_str(),i.dim,t,v.data()); H5Tclose(t); } else if(i.kind==1){ std::vector<int> v(N); for(size_t k=0;k<N;k++)v[k]=(int)(k/3+k%3); if(badIndex!=-100&&N>badPos)v[badPos]=badIndex; d=w.ds(i.ds.c_str(),i.dim,H5T_NATIVE_INT,v.data()); } else { std::vector<double> v(N); for(size_t k=0;k<N;k++)v[k]=0.01*((k*7)%11)+0.001*k; if(i.ds=="Screen"){ double g[12]={0,0,0,0,0,1,0.01,0,0,0,0.02,0}; for(size_t k=0;k<N;k++)v[k]=g[k%12]; } d=w.ds(i.ds.c_str(),i.dim,H5T_NATIVE_DOUBLE,v.data()); }
    for(auto&a:i.at){ if(a.second[0]=='i')w.at(d,a.first.c_str(),atoi(a.second.c_str()+1)); else if(a.second[0]=='d')w.at(d,a.first.c_str(),atof(a.second.c_str()+1)); else { hid_t t=H5Tcopy(H5T_C_S1); H5Tset_size(t,8); hid_t s=H5Screate(H5S_SCALAR); hid_t h=H5Acreate2(d,a.first.c_str(),t,s,H5P_DEFAULT,H5P_DEFAULT); H5Awrite(h,t,"text\0\0\0"); H5Aclose(h); H5Sclose(s); H5Tclose(t); } } H5Dclose(d); } }
static int attr(RawFile&r,const S&ds,const S&a,bool&ok){ Item&i=r[ds]; if(!i.there){ok=false;return 0;} for(auto&x:i.at)if(x.first==a){ if(x.second[0]=='i')return atoi(x.second.c_str()+1); if(x.second[0]=='d')return (int)atof(x.second.c_str()+1); ok=false; return 0; } ok=false; return 0; }
static size_t total(Item&i){ size_t N=1; for(hsize_t q:i.dim)N*=q; return N; }
// does the file hold together? (independent of the code: counts equal sizes, corners exist)
static bool consistentMesh(RawFile&r,bool&fieldonly){ bool ok=true; fieldonly=false; int Ncp=attr(r,"MeshCornerPoints","Ncp",ok),Np=attr(r,"ObservationPosition","Np",ok); if(!ok||Ncp<0||Np<0)return false; auto good=[&](const char*n,long want){ Item&i=r[n]; return i.there&&i.kind!=2&&(long)total(i)==want; };
  if(!good("MeshCornerPoints",3L*Ncp)||!good("ObservationPosition",3L*Np)||!good("MeshTriangles",3L*Np))return false; if(Np>0&&Np+2>Ncp)return false; if(badIndex!=-100&&(badIndex<0||badIndex>=Ncp)&&3*Np>(int)badPos)return false; int Nt=0; if(r["ObservationTime"].there){ Nt=attr(r,"ObservationTime","Nt",ok); attr(r,"ObservationTime","dt",ok); if(!ok||Nt<0||!good("ObservationTime",Np))return false; } if(r["ElMagField"].there){ if(!r["ObservationTime"].there){ fieldonly=true; return r["ElMagField"].kind!=2; } if(!good("ElMagField",6L*Np*Nt))return false; } return true; }
static bool consistentScreen(RawFile&r){ bool ok=true; int nx=attr(r,"Screen","Nx",ok),ny=attr(r,"Screen","Ny",ok),nt=attr(r,"Screen","NOTS",ok); attr(r,"Screen","dt",ok); for(auto&a:r["Screen"].at)if(a.second[0]=='s')if(a.first!="t0")ok=false; if(!ok||nx<0||ny<0||nt<0)return false; Item&s=r["Screen"],&f=r["ElMagField"]; if(!s.there||s.kind==2||total(s)!=12)return false; if(!f.there||f.kind==2||f.dim!=std::vector<hsize_t>{(hsize_t)nx,(hsize_t)ny,(hsize_t)nt,6})return false; return true; }
typedef std::pair<S,std::function<void(RawFile&)>> Mut;
static std::vector<Mut> mutations(RawFile base,bool mesh){ std::vector<Mut> m; for(auto&i:base.it){ S n=i.ds; m.push_back({n+" missing",[n](RawFile&r){r[n].there=false;}}); m.push_back({n+" of text",[n](RawFile&r){r[n].kind=2;}}); for(size_t d=0;d<i.dim.size();d++)for(int dv:{-1,1,5}){ if((int)i.dim[d]+dv<1)continue; m.push_back({mc::F("%s dimension %zu %+d",n.c_str(),d,dv),[n,d,dv](RawFile&r){ if(d<r[n].dim.size())r[n].dim[d]+=dv; }}); }
    for(size_t a=0;a<i.at.size();a++){ S an=i.at[a].first; auto set=[n,an](RawFile&r,const S&v){ auto&A=r[n].at; for(size_t k=0;k<A.size();k++)if(A[k].first==an){ if(v=="")A.erase(A.begin()+k); else A[k].second=v; return; } }; if(an=="Ntri"||an=="t0"){ m.push_back({an+" missing",[set](RawFile&r){set(r,"");}}); continue; } m.push_back({an+" missing",[set](RawFile&r){set(r,"");}}); m.push_back({an+" is text",[set](RawFile&r){set(r,"s");}}); if(i.at[a].second[0]=='i')for(const char*v:{"i-1","i0","i1","i2","i7","i100000"})m.push_back({an+"="+v,[set,v](RawFile&r){set(r,v);}}); } }
  if(mesh)for(int q:{-1,-2000000,5,6,1000,2000000000})m.push_back({mc::F("triangle corner %d",q),[q](RawFile&){badIndex=q;badPos=4;}});
  if(mesh)for(size_t c=0;c<9;c++)if(c!=4)for(int q:{-1,5})m.push_back({mc::F("triangle corner %d at %zu",q,c),[q,c](RawFile&){badIndex=q;badPos=c;}});
  return m; }
static void contradictory(){ RawFile bases[]={rawMesh(3,4,true,true),rawMesh(3,4,true,false),rawMesh(3,4,false,false),rawScreen(3,2,4)}; const char*bn[]={"mesh-full","mesh-timed","mesh-bare","screen"};
  for(int b=0;b<4;b++){ bool mesh=b<3; std::vector<Mut> ms=mutations(bases[b],mesh); auto one=[&](const S&id,const S&what,std::vector<const Mut*> use){ if(!mc::begin(id))return; RawFile r=bases[b]; badIndex=-100; for(auto*u:use)u->second(r); hyb::cleardir(D); saveRaw(r,D+"/in.h5"); bool fo=false,ok=mesh?consistentMesh(r,fo):consistentScreen(r); S got; S e=inchild([&]{ if(chdir(D.c_str()))return S("chdir"); try{ S q=mesh?readMesh(D+"/in.h5"):readScreen(D+"/in.h5"); if(fo){ FILE*f=fopen((D+"/n").c_str(),"w"); fputs("x",f); fclose(f); } return ok?S():S("a file that contradicts itself is accepted"); }catch(std::exception&x){ return ok&&!fo?S("a sound file is rejected: ")+x.what():S(x.what())==""?S("exception without message"):S(); } }); mc::trans(1); mc::state(mc::H().s(id).h); mc::note(ok?"sound_files":"contradictory_files",1); if(e!="")mc::fail("%s with %s: %s",bn[b],what.c_str(),e.c_str()); };
    one(mc::F("raw:%s",bn[b]),"nothing changed",{}); for(size_t i=0;i<ms.size();i++)one(mc::F("raw:%s:%zu",bn[b],i),ms[i].first,{&ms[i]}); size_t stride=mc::thorough?1:7,c=0; for(size_t i=0;i<ms.size();i++)for(size_t j=i+1;j<ms.size();j++)if(c++%stride==0)one(mc::F("raw:%s:%zu+%zu",bn[b],i,j),ms[i].first+" and "+ms[j].first,{&ms[i],&ms[j]}); } }
// files that end early: nothing, an error or the complete contents
static void truncated(){ for(auto&r:readers()){ hyb::cleardir(D); r.prep(); bool hdf=r.name!="bunch"; S fn=D+(hdf?"/in.h5":"/in.sdds"); S all; { std::ifstream f(fn.c_str()); std::stringstream ss; ss<<f.rdbuf(); all=ss.str(); } S ref=r.read(); size_t steps=mc::thorough?400:40; for(size_t i=0;i<=steps;i++){ size_t n=i==steps?all.size()-1:all.size()*i/steps; if(!hdf){ if(i==steps)continue; /* the last line without its end is complete */ }
      if(!mc::begin(mc::F("cut:%s:%zu",r.name.c_str(),n)))continue; hyb::cleardir(D); FILE*f=fopen(fn.c_str(),"w"); size_t keep=n; if(!hdf){ while(keep>0&&all[keep-1]!='\n')keep--; } fwrite(all.data(),1,keep,f); fclose(f); mc::note("truncations",1); S e=inchild([&]{ if(chdir(D.c_str()))return S("chdir"); S q; try{ q=r.read(); }catch(std::exception&){ return S(); } if(q==""||q==ref)return S(); return S("incomplete contents are presented as valid"); }); if(e!="")mc::fail("%s cut after %zu of %zu bytes: %s",r.name.c_str(),keep,all.size(),e.c_str()); } } }
// ---- complete program: a failure while one output is written must not cost the others
static S RD; 
static Deck everything(){ Deck d; d.n=2; d.lattice=lat('u')+lat('b')+lat('S'); d.beam=particle(0,log("p0.sdds",1,"1e12"))+bunch(1,3,log("b1.sdds",1)+traj("t1.h5",1,2))+"<probe file='q.h5' step='1' number='1'/>"; d.track=fel("fel.h5",1)+watch("w1.h5",1)+watch("w2.sdds",1,true); d.obs=point("pt.sdds",1)+screen("sc.h5",1)+snap("sn.h5",1)+mesh("me.h5",1); return d; }

// runs the program with its messages captured
static hyb::Res prog(const hyb::Cfg&c,S&text){ S f=mc::work+"/stdout"; std::cout.flush(); fflush(stdout); int old=dup(1),fd=::open(f.c_str(),O_RDWR|O_CREAT|O_TRUNC,0600); dup2(fd,1); close(fd); std::cout.clear(); hyb::Res r=hyb::run(c,RD); dup2(old,1); close(old); std::cout.setstate(std::ios_base::failbit); std::ifstream i(f.c_str()); std::stringstream ss; ss<<i.rdbuf(); text=ss.str(); for(auto&t:r.text)text+=t; for(auto&ch:text)ch=tolower(ch); return r; }
// messages of a run: how often each line with one of the words appears (digits left out)
static std::map<S,int> alarms(const S&t){ std::map<S,int> m; std::stringstream ss(t); S l; while(std::getline(ss,l))for(const char*w:{"error","exception","fail","could not","cannot"})if(l.find(w)!=S::npos){ S k; for(char ch:l)if(!isdigit((unsigned char)ch))k+=ch; m[k]++; break; } return m; }
static bool newAlarm(const S&t,const S&t0){ auto a=alarms(t),b=alarms(t0); for(auto&q:a)if(q.second>(b.count(q.first)?b[q.first]:0))return true; return false; }
static void program(){ Deck d=everything(); write(mc::work+"/in.xml",d.xml()); auto prep=[&]{ hyb::cleardir(RD); meshFile(RD+"/me.h5",1); srcFile(mc::work+"/src.h5"); };
  for(int ranks:{1,2}){ hyb::Cfg c; c.args={mc::work+"/in.xml"}; c.ranks=ranks; S t0; prep(); fault::arm({},fault::NONE); hyb::Res r0=prog(c,t0); fault::disarm(); long n=fault::calls(); std::vector<S> nm; for(long i=0;i<n;i++)nm.push_back(fault::name(i)); hyb::Out ref=hyb::collect(RD); std::set<S> files; auto fileOf=[](const S&k){ return k.substr(0,k.find_first_of(":$")); }; for(auto&k:ref)files.insert(fileOf(k.first));
    if(mc::begin(mc::F("program:%d",ranks))){ if(r0.err!=""||r0.status[0])mc::fail("without failures: %s %s",r0.err.c_str(),r0.text[0].c_str()); mc::note("calls",n); mc::note("output_files",files.size()); if(files.size()<11)mc::fail("only %zu output files",files.size()); }
    if(r0.err!=""||files.size()<11)return;
    for(long k=0;k<n;k++)for(int m=0;m<2;m++){ if(ranks==2&&(m||(!mc::thorough&&k%9)))continue; if(!mc::begin(mc::F("program:%d:%ld:%d",ranks,k,m)))continue; prep(); S t; fault::arm({(int)k},MODES[m]); hyb::Res r=prog(c,t); fault::disarm(); mc::trans(r.collectives); mc::note("program_faults",1); mc::state(mc::H().s("p").i(k).i(m).i(ranks).h); S w=mc::F("call %ld %s %s, %d processes: ",k,nm[k].c_str(),MN[m],ranks); bool failed=false,crash=false; for(int s:r.status)if(s)failed=true; for(auto&q:r.text)if(q.find("AddressSanitizer")!=S::npos||q.find("runtime error")!=S::npos)crash=true;
      if(crash){ mc::fail("%scrash: %s",w.c_str(),(r.text[0]+r.err).substr(0,400).c_str()); continue; }
      if(r.err!=""&&!(failed&&r.err.compare(0,11,"partial end")==0)){ mc::fail("%s%s",w.c_str(),r.err.c_str()); continue; }
      if(!newAlarm(t,t0))mc::fail("%sno message, status %d",w.c_str(),r.status[0]);
      hyb::Out o=hyb::collect(RD); std::set<S> bad; for(auto&q:ref){ auto it=o.find(q.first); bool same=it!=o.end()&&it->second.size()==q.second.size(); double mx=0; for(double v:q.second)mx=std::max(mx,std::fabs(v)); if(same)for(size_t i=0;i<q.second.size();i++)if(!mc::near(q.second[i],it->second[i],1e-9,mx))same=false; if(!same)bad.insert(fileOf(q.first)); }
      if(failed){ /* while the set-up is read (a screen used as source writes its own files then) */ size_t good=0; for(auto&f:files)if(!bad.count(f)&&f.find("DEBUG")==S::npos)good++; if(good)mc::fail("%sthe program ends (status %d, %s) instead of producing the remaining outputs",w.c_str(),r.status[0],r.text[0].substr(0,200).c_str()); }
      else if(bad.size()>1){ S l; for(auto&b:bad)l+=" "+b; mc::fail("%smore than one output is lost:%s",w.c_str(),l.c_str()); } } } }
// ---- the mesh tools: a failure never ends with success, or the output is complete nevertheless
int propagate_main(int,char**); int reflection_main(int,char**);
static void tools(){ for(int t=0;t<2;t++){ auto prep=[&]{ hyb::cleardir(D); fix::Mesh a=fullMesh(3,4); fix::Mesh b=fix::strip(2,V(0.001,0.002,0.4),V(0.02,0,0),V(0,0.03,0.01)); b.Nt=5; b.dt=1e-12; for(int i=0;i<2;i++)b.t0.push_back(1.0e-9+1e-12*i); fix::save(a,D+"/in.h5"); fix::save(b,D+"/tgt.h5"); }; auto go=[&](int*rc){ if(chdir(D.c_str()))exit(9); std::vector<S> a={"tool","in.h5","tgt.h5","out.h5"}; std::vector<char*> v; for(auto&x:a)v.push_back((char*)x.c_str()); v.push_back(0); *rc=t?reflection_main(4,v.data()):propagate_main(4,v.data()); };
  const char*tn=t?"reflection":"propagate"; prep(); S e0=inchild([&]{ int rc=0; fault::arm({},fault::NONE); go(&rc); fault::disarm(); return rc?mc::F("status %d",rc):S(); }); long n=fault::calls(); std::vector<S> nm; for(long i=0;i<n;i++)nm.push_back(fault::name(i)); hyb::Out ref=hyb::collect(D); if(mc::begin(mc::F("tool:%s",tn))){ if(e0!="")mc::fail("%s without failures: %s",tn,e0.c_str()); if(!ref.count("out.h5"))mc::fail("%s writes nothing",tn); mc::note("calls",n); } if(e0!="")continue;
  for(long k=0;k<n;k++)for(int m=0;m<3;m++)if(mc::begin(mc::F("tool:%s:%ld:%d",tn,k,m))){ prep(); mc::note("tool_faults",1); mc::trans(n); mc::state(mc::H().s(tn).i(k).i(m).h); S e=inchild([&]{ int rc=0; fault::arm({(int)k},MODES[m]); try{ go(&rc); }catch(std::exception&x){ return S(x.what())==""?S("exception without message"):S(); } fault::disarm(); return rc?S():S("claims"); }); if(e=="claims")mc::fail("%s: call %ld %s %s but the program claims success",tn,k,nm[k].c_str(),MN[m]); else if(e!="")mc::fail("%s: call %ld %s %s: %s",tn,k,nm[k].c_str(),MN[m],e.c_str()); } } }
int main(int argc,char**argv){ mc::init(argc,argv); fix::quiet(); D=mc::work+"/d"; RD=mc::work+"/run"; mkdir(D.c_str(),0700); mkdir(RD.c_str(),0700); setenv("OMP_NUM_THREADS","1",1);
  for(auto&w:writers()){ faults(w,mc::thorough); limited(w); } for(auto&r:readers())readfaults(r,mc::thorough); contradictory(); truncated(); tools(); program(); return mc::finish(); }
