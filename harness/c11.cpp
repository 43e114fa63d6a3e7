// C11: output files of the observers hold exactly the observed fields, geometry and timing; they can be read back
#include "obs.h"
#include "sddsfile.h"
using namespace fix;
static const double SPEC[8]={0.0,-0.0,1e-300,5e300,-3.25,1e-12,1.0/3.0,-123456789.0123456789};
static ElMagField fill(int pat,int i,int t){ if(pat==0)return code(i,t); if(pat==1)return code(t,i,1.0/3.0); int k=i*5+t*3; return ElMagField(V(SPEC[k%8],SPEC[(k+1)%8],SPEC[(k+2)%8]),V(SPEC[(k+3)%8],SPEC[(k+4)%8],SPEC[(k+5)%8])); }
template<class T> static void put(Obs<T>&O,int pat){ for(int i=0;i<O.cells();i++)for(int t=0;t<O.samples();t++)O.set(i,t,fill(pat,i,t)); }
static bool eq(const std::vector<double>&a,const std::vector<double>&b){ if(a.size()!=b.size())return false; for(size_t i=0;i<a.size();i++)if(!(a[i]==b[i]||(a[i]!=a[i]&&b[i]!=b[i])))return false; return true; }
static std::string ds(R&f,const char*n,std::vector<hsize_t> dim,const std::vector<double>&v,double rel=0,double scale=0){ DS d=f.ds(n); if(!d.ok)return mc::F("data set %s missing or unreadable",n); if(d.dim!=dim){ std::string s; for(auto q:d.dim)s+=mc::F("%d ",(int)q); return mc::F("data set %s has dimensions %s",n,s.c_str()); } for(size_t i=0;i<v.size();i++)if(!(d.v[i]==v[i]||(d.v[i]!=d.v[i]&&v[i]!=v[i])||(rel>0&&mc::near(d.v[i],v[i],rel,scale))))return mc::F("%s element %zu is %.17g instead of %.17g",n,i,d.v[i],v[i]); return ""; }
static std::string at(R&f,const char*n,const char*a,double v){ double g=f.at(n,a); if(!(g==v))return mc::F("attribute %s of %s is %.17g instead of %.17g",a,n,g,v); return ""; }
template<class T> static std::string verify(Obs<T>&O,const std::string&fn){ const Shape&s=O.s; std::vector<double> F=O.all(),P; for(V p:O.g.pos){P.push_back(p.x);P.push_back(p.y);P.push_back(p.z);} hsize_t nx=s.nx,ny=s.ny,nt=O.samples(); std::string e;
  if(s.k==POINT){ SddsFile f=sddsRead(fn); if(!f.ok)return "SDDS file unreadable"; if(f.pages!=1||f.rows!=(int)nt)return mc::F("%d pages with %d rows",f.pages,f.rows); if(f.names!=std::vector<std::string>({"t","Ex","Ey","Ez","Bx","By","Bz"}))return "columns of the SDDS file"; if(f.par["NumberTimeSteps"]!=nt||!mc::near(f.par["t0"],s.t0,1e-14)||!mc::near(f.par["dt"],s.dt,1e-14))return mc::F("parameters N=%g t0=%g dt=%g",f.par["NumberTimeSteps"],f.par["t0"],f.par["dt"]); static const char*c[6]={"Ex","Ey","Ez","Bx","By","Bz"}; for(int t=0;t<(int)nt;t++){ if(!mc::near(f.col["t"][t],s.t0+t*s.dt,1e-13))return mc::F("time of row %d is %.17g",t,f.col["t"][t]); for(int k=0;k<6;k++)if(!mc::near(f.col[c[k]][t],F[6*t+k],1e-14))return mc::F("%s in row %d is %.17g instead of %.17g",c[k],t,f.col[c[k]][t],F[6*t+k]); } return ""; }
  R f(fn); if(!f.ok())return "file cannot be opened";
  if(s.k==SCREEN){ if((e=ds(f,"ObservationPosition",{nx,ny,3},P,1e-14,1))!=""||(e=at(f,"ObservationPosition","Nx",nx))!=""||(e=at(f,"ObservationPosition","Ny",ny))!="")return e; V dx=s.dx,dy=s.dy,n=cross(dy,dx); n.normalize(); V o=s.pos; if((e=ds(f,"Screen",{4,3},{o.x,o.y,o.z,n.x,n.y,n.z,dx.x,dx.y,dx.z,dy.x,dy.y,dy.z},1e-13,1e-3))!="")return e; const char*an[7]={"Nx","Ny","NOTS","t0","dt","dtx","dty"}; double av[7]={(double)nx,(double)ny,(double)nt,s.t0,s.dt,s.dtx,s.dty}; for(int k=0;k<7;k++)if((e=at(f,"Screen",an[k],av[k]))!="")return e; if((e=ds(f,"ElMagField",{nx,ny,nt,6},F))!="")return e; for(int k:{2,3,4})if((e=at(f,"ElMagField",an[k],av[k]))!="")return e; return ""; }
  if(s.k==SNAP){ if((e=ds(f,"ObservationPosition",{nx,ny,3},P,1e-14,1))!=""||(e=at(f,"ObservationPosition","Nx",nx))!=""||(e=at(f,"ObservationPosition","Ny",ny))!="")return e; if((e=ds(f,"ElMagField",{nx,ny,6},F))!="")return e; return at(f,"ElMagField","t0",s.t0); }
  Mesh m=meshOf(s); std::vector<double> C,Tr; for(V p:m.p){C.push_back(p.x);C.push_back(p.y);C.push_back(p.z);} for(auto&t:m.t)for(int k:t)Tr.push_back(k);
  if((e=ds(f,"MeshCornerPoints",{m.p.size(),3},C))!=""||(e=at(f,"MeshCornerPoints","Ncp",m.p.size()))!=""||(e=ds(f,"MeshTriangles",{nx,3},Tr))!=""||(e=at(f,"MeshTriangles","Ntri",nx))!=""||(e=ds(f,"ObservationPosition",{nx,3},P))!=""||(e=at(f,"ObservationPosition","Np",nx))!=""||(e=ds(f,"ObservationTime",{nx},O.g.t0))!=""||(e=at(f,"ObservationTime","Nt",nt))!=""||(e=at(f,"ObservationTime","dt",s.timing?s.dt:0))!=""||(e=ds(f,"ElMagField",{nx,nt,6},F))!="")return e; return ""; }
template<class T> static void shape(const Shape&s,const std::string&nm){ std::string id=nm+":"+shapeId(s)+":";
  // sequences: which content is written, over what: nothing, an output of another (larger, smaller) shape, a foreign file, its own former output
  for(int pat=0;pat<3;pat++)for(int before=0;before<4;before++)if(mc::begin(id+mc::F("%d,%d",pat,before))){ std::string fn=mc::work+"/o.out"; unlink(fn.c_str());
    if(s.k!=MESH){ if(before==1){ Shape b=s; b.nx+=2; b.ny+=1; b.nt+=3; if(s.k==SNAP)b.nt=1; Obs<T> B(b,fn); put(B,1); B.o->generateOutput(); } if(before==2){ FILE*f=fopen(fn.c_str(),"w"); for(int i=0;i<4000;i++)fprintf(f,"garbage %d\n",i); fclose(f);} }
    Obs<T> O(s,fn); if(before==3){ put(O,(pat+1)%3); O.o->generateOutput(); } put(O,pat); O.o->generateOutput(); mc::trans(); std::string e=verify(O,fn); if(e!=""){mc::fail("%s",e.c_str());continue;}
    // the output call leaves the observer as it was
    if(pat==0){ std::vector<double> a=O.all(); O.o->generateOutput(); if(!eq(a,O.all()))mc::fail("writing changes the fields"); e=verify(O,fn); if(e!="")mc::fail("second output: %s",e.c_str()); }
    // read back
    if(s.k==MESH){ Obs<T> Q(s,fn,0,true); mc::trans(); if(!eq(Q.all(),O.all()))mc::fail("fields differ after re-reading the mesh"); for(int i=0;i<O.cells();i++)if(!veq(Q.m->get_point(i),O.g.pos[i])||Q.m->get_t0(i)!=O.g.t0[i]||(s.timing&&Q.m->get_dt()!=s.dt)||Q.m->get_Nt()!=O.samples()||Q.m->get_trace(i).get_N()!=(size_t)O.samples()){mc::fail("cell %d has different position or timing after re-reading",i);break;} Q.m->init(); O.m->init(); for(int i=0;i<O.cells();i++)if(!veq(Q.m->get_normal(i),O.m->get_normal(i))||Q.m->get_area(i)!=O.m->get_area(i)){mc::fail("cell %d has different geometry after re-reading",i);break;}
      // third generation written under another name
      std::string f3=mc::work+"/third.h5"; unlink(f3.c_str()); put(Q,(pat+1)%3); Q.m->writeFile(f3); e=verify(Q,f3); if(e!="")mc::fail("copy: %s",e.c_str()); e=verify(O,fn); if(e!="")mc::fail("original after writing a copy: %s",e.c_str()); }
    mc::H h; for(double d:O.all())h.d(d); h.i((int)s.k).i(s.nx).i(s.ny); mc::state(h.h); } }
// a written screen used as source: agrees with the diffraction integral of the recorded traces evaluated here, for every single cell excited
static ElMagField diff(const Shape&s,const Grid&g,const std::vector<ElMagField>&F,int i,V src,double t,V obs){ (void)g; V dx=s.dx,dy=s.dy,nn=cross(dx,dy)*-1.0; double da=dx.norm()*dy.norm(); nn.normalize(); FieldTrace tr(g.t0[i],s.dt,s.nt); for(int k=0;k<s.nt;k++){ ElMagField f=F[i*s.nt+k]; V E=f.E(),B=f.B(); tr.set_field((std::size_t)k,ElMagField(E-nn*dot(E,nn),B-nn*dot(B,nn))); } std::unique_ptr<FieldTrace> d(tr.derivative()); V r=obs-src; double R=r.norm(); double ts=t-R/SpeedOfLight; if(ts<g.t0[i]||ts>g.t0[i]+s.dt*(s.nt-1))return ElMagFieldZero; ElMagField a=tr.get_field(ts)*(-dot(r,nn)/(R*R*R)),b=d->get_field(ts)*((1-dot(r,nn)/R)/(R*SpeedOfLight)); return (a+b)*(da/(4*Pi)); }
int main(int argc,char**argv){ mc::init(argc,argv); quiet(); int N=mc::thorough?6:4,T=mc::thorough?6:4; if(chdir(mc::work.c_str()))return 2;
  for(auto&s:shapes(N,T,false)){ shape<Beam>(s,"beam"); shape<Bunch>(s,"bunch"); shape<Lattice>(s,"lattice"); }
  for(auto&s:shapes(3,2,true))if(s.nx==0||s.ny==0||s.nt==0||!s.timing)shape<Beam>(s,"empty");
  // a bigger one of each
  for(auto s:std::vector<Shape>{{POINT,1,1,777,V(1,2,3),V(1,0,0),V(0,1,0),1e-9,1e-15,0,0},{SCREEN,31,17,23,V(1,2,3),V(1e-3,0,0),V(0,2e-3,0),1e-9,1e-13,1e-14,2e-14},{SNAP,63,18,1,V(1,2,3),V(1e-3,0,0),V(0,2e-3,0),1e-9,0,0,0},{SCREEN,140,2,3,V(1,2,3),V(1e-3,0,0),V(0,2e-3,0),1e-9,1e-13,1e-14,2e-14},{SCREEN,2,140,2,V(1,2,3),V(1e-3,0,0),V(0,2e-3,0),1e-9,1e-13,1e-14,2e-14},{SCREEN,2,1,1200,V(1,2,3),V(1e-3,0,0),V(0,2e-3,0),1e-9,1e-13,1e-14,2e-14},{SNAP,270,2,1,V(1,2,3),V(1e-3,0,0),V(0,2e-3,0),1e-9,0,0,0},{MESH,2,1,1200,V(1,2,3),V(0.1,0,0),V(0,0.1,0),1e-9,1e-13,1e-14,0},{MESH,300,1,2,V(1,2,3),V(0.1,0,0),V(0,0.1,0),1e-9,1e-13,1e-14,0},{MESH,97,1,41,V(1,2,3),V(0.1,0,0),V(0,0.1,0),1e-9,1e-13,1e-14,0}})shape<Beam>(s,"large");
  // geometry and timing: step vectors of every size and direction, negative and zero times
  { std::vector<V> ax={V(1,0,0),V(0,-1,0),V(0.3,-0.4,0.5),V(0,0,1)}; double sc[5]={1e-6,0.3,1.5,40,1e4}; double tm[5][4]={{0,1e-12,0,0},{-2e-9,1e-15,1e-13,-2e-13},{5e-9,3e-12,-1e-12,0},{-1e-12,1e-12,0,1e-10},{1e-3,1e-9,0,0}};
    for(Kind k:{POINT,SCREEN,SNAP,MESH})for(int a=0;a<4;a++)for(int b=0;b<4;b++)if(a!=b)for(int x=0;x<5;x++)for(int y=0;y<5;y++)for(int t=0;t<5;t++){ if(!mc::thorough&&(x+y+t+a+b)%3&&k!=POINT)continue; if(k==POINT&&(x||y||a))continue; Shape s(k,k==POINT?1:3,k==SCREEN||k==SNAP?2:1,k==SNAP?1:2,V(10,-0.2,3.0),ax[a]*sc[x],ax[b]*sc[y],tm[t][0],tm[t][1],tm[t][2],tm[t][3]); if(mc::begin(mc::F("geo:%s,%d,%d,%d,%d,%d",KN[k],a,b,x,y,t))){ std::string fn=mc::work+"/g.out"; unlink(fn.c_str()); Obs<Beam> O(s,fn); put(O,0); O.o->generateOutput(); mc::trans(); std::string e=verify(O,fn); if(e!="")mc::fail("%s",e.c_str()); mc::H h; h.i((int)k).i(a).i(b).i(x).i(y).i(t); mc::state(h.h); } } }
  // particle coordinates: every sequence of recording different beams
  { int L=mc::thorough?4:3,sz[5]={-1,0,1,3,6}; int tot=1; for(int i=0;i<L;i++)tot*=5; for(int code_=0;code_<tot;code_++)if(mc::begin(mc::F("coordinates:%d",code_))){ std::vector<std::unique_ptr<Beam>> B; for(int k=0;k<5;k++){ Beam*b=new Beam(); for(int i=0;i<sz[k];i++){ ChargedParticle*q=new ChargedParticle(-1,1); q->initTrajectory(0,V(k,i,0.5),V(0.1*i,0.2*k,3),V(0,0,0)); if(i%2==0)b->Add(new Bunch()); b->getBunch(i/2)->Add(q); } B.emplace_back(b); }
      Shape s(SNAP,2,1,1,V(0,0,5),V(1,0,0),V(0,1,0),0,0,0,0); std::string fn=mc::work+"/pc.h5"; unlink(fn.c_str()); Obs<Beam> O(s,fn); int c=code_; std::string seq; for(int step=0;step<L;step++,c/=5){ int k=c%5; seq+=mc::F(" %d",sz[k]); O.o->setSource(sz[k]<0?0:B[k].get()); int n=sz[k]<0?0:sz[k]; int r=O.n->storeParticlePositions(); O.o->generateOutput(); mc::trans(); if(r!=n){mc::fail("%d particles stored instead of %d (sequence%s)",r,n,seq.c_str());break;} R f(fn); if(!f.ok()){mc::fail("no file");break;} DS d=f.ds("ParticleCoordinates"); if(n==0){ if(d.ok&&d.v.size()){mc::fail("coordinates of %zu particles after recording none (sequence%s)",d.v.size()/6,seq.c_str());break;} continue; } if(!d.ok||d.dim!=std::vector<hsize_t>({(hsize_t)n,6})){mc::fail("ParticleCoordinates misshaped (sequence%s)",seq.c_str());break;} bool ok=true; for(int i=0;i<n;i++){ double w[6]={(double)k,(double)i,0.5,0.1*i,0.2*k,3}; for(int q=0;q<6;q++)if(d.v[6*i+q]!=w[q])ok=false; } if(!ok){mc::fail("coordinates differ (sequence%s)",seq.c_str());break;} mc::H h; h.i(k).i(step); mc::state(h.h); } } }
  for(int nb:{1,20,150})for(int per:{1,7,300})if(nb*per<=1200&&mc::begin(mc::F("crowd:%d,%d",nb,per))){ Beam B; int n=nb*per; for(int i=0;i<n;i++){ ChargedParticle*q=new ChargedParticle(-1,1); q->initTrajectory(0,V(1,i,0.5),V(0.1*i,0.2,3),V(0,0,0)); if(i%per==0)B.Add(new Bunch()); B.getBunch(i/per)->Add(q); }
    Shape s(SNAP,2,1,1,V(0,0,5),V(1,0,0),V(0,1,0),0,0,0,0); std::string fn=mc::work+"/pl.h5"; unlink(fn.c_str()); Obs<Beam> O(s,fn); O.o->setSource(&B); int r=O.n->storeParticlePositions(); O.o->generateOutput(); mc::trans(); DS d; { R f(fn); d=f.ds("ParticleCoordinates"); } if(r!=n||!d.ok||d.dim!=std::vector<hsize_t>({(hsize_t)n,6})){mc::fail("%d of %d particles stored",r,n);continue;} for(int i=0;i<n&&!mc::failed();i++){ double w[6]={1,(double)i,0.5,0.1*i,0.2,3}; for(int q=0;q<6;q++)if(d.v[6*i+q]!=w[q]){mc::fail("particle %d item %d: %g instead of %g",i,q,d.v[6*i+q],w[q]);break;} } mc::state(mc::H().i(nb).i(per).h); }
  // the coordinates recorded belong to the time of the snapshot: before, at, within and after the recorded trajectories (of different lengths)
  for(int L=1;L<=6;L++)for(int cut=0;cut<3;cut++)for(int h=-2;h<=2*L+2;h++)if(mc::begin(mc::F("moment:%d,%d,%d",L,cut,h))){ double dt=1e-11,t=h*dt/2; Beam b; HomogeneousField f(V(0,0,0),V(0.1,-0.2,0.3)); std::vector<ChargedParticle*> P; for(int i=0;i<3;i++){ ChargedParticle*q=new ChargedParticle(-1,1); q->initTrajectory(0,V(i,0.1*i,0.5),V(0.1*i,-0.2,3),V()); q->InitVay(dt,&f); int n=i==1?std::max(1,L-cut):L; for(int k=1;k<n;k++)q->StepVay(&f); if(i!=1)b.Add(new Bunch()); b.getBunch(i?b.getNOB()-1:0)->Add(q); P.push_back(q); }
      Shape s(SNAP,2,1,1,V(0,0,5),V(1,0,0),V(0,1,0),t,0,0,0); std::string fn=mc::work+"/pm.h5"; unlink(fn.c_str()); Obs<Beam> O(s,fn); O.o->setSource(&b); int r=O.n->storeParticlePositions(); O.o->generateOutput(); mc::trans(); DS d; { R f5(fn); d=f5.ds("ParticleCoordinates"); } if(r!=3||d.v.size()!=18){mc::fail("%d particles stored, %zu values",r,d.v.size());continue;} for(int i=0;i<3;i++){ V x,u; P[i]->CoordinatesAtTime(t,&x,&u); double w[6]={x.x,x.y,x.z,u.x,u.y,u.z}; for(int q=0;q<6;q++)if(d.v[6*i+q]!=w[q]){mc::fail("particle %d at t=%g: coordinate %d is %.17g instead of %.17g",i,t,q,d.v[6*i+q],w[q]);break;} } mc::H hh; hh.i(L).i(cut).i(h); mc::state(hh.h); }
  // screens as sources
  for(int nx=1;nx<=3;nx++)for(int ny=1;ny<=3;ny++)for(int nt:{2,3,5})for(int cell=0;cell<nx*ny;cell++)if(mc::begin(mc::F("source:%d,%d,%d,%d",nx,ny,nt,cell))){ Shape s(SCREEN,nx,ny,nt,V(0.3,-0.1,2.0),V(0.02,0,0),V(0,0.03,0),3e-9,1e-11,2e-12,-3e-12); std::string fn=mc::work+"/s.h5"; Obs<Beam> O(s,fn); std::vector<ElMagField> F(nx*ny*nt,ElMagFieldZero); for(int t=0;t<nt;t++){F[cell*nt+t]=ElMagField(V(3+t,-2+0.5*t*t,7),V(1e-8*(t+1),-2e-8,5e-8)); O.set(cell,t,F[cell*nt+t]);} O.o->generateOutput(); V at0(0.3,-0.1,2.0); SourceScreen S(fn.c_str(),at0,s.t0); Grid g=gridOf(s); mc::trans(); int seen=0; for(V ob:{V(0.3,-0.1,5.0),V(1.3,0.4,4.0),V(-0.5,-0.5,2.5)}){ double R=(ob-at0).norm(); for(int k=-1;k<=4*nt+6;k++){ double t=s.t0+R/SpeedOfLight+(k-3)*0.25*s.dt+0.1e-12; ElMagField a=S.Field(t,ob),w=diff(s,g,F,cell,g.pos[cell],t,ob); double sc=0.1; if(w.E().norm()>0)seen++; if(!fclose_(a,w,2e-6,sc*1e-3,1e-13)){mc::fail("field emitted to %s at %g is %s instead of %s",vs(ob).c_str(),t,fs(a).c_str(),fs(w).c_str());break;} } } if(!seen)mc::fail("harness: no signal"); }
  return mc::finish(); }
