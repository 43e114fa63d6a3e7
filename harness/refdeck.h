// independent interpreter of the input language: builds the described objects through the code interface,
// and compares them with what the real parser creates
#pragma once
#include "decks.h"
#include "parser.h"
#include "logger.h"
#include "pugixml.hpp"
#include <typeinfo>
#include <complex>
namespace hyb { extern bool constrandom; }
namespace refdeck {
using mc::F; typedef pugi::xml_node N; typedef pugi::xml_attribute A; typedef std::string S;
struct Reject{ S why; };
// ---- expressions
struct Calc{ std::map<S,double> v; S printed; std::vector<S> bad; // printed: expected output of <calc print>; bad: texts that cannot be evaluated
  Calc(){ v["_c"]=2.99792458e8; v["_e"]=1.6021766208e-19; v["_h"]=6.62607015e-34; v["_mec2"]=0.5109989461e6; v["_eps0"]=8.854187817e-12; v["_mu0"]=4*M_PI*1e-7; v["_pi"]=M_PI; }
  const char*c=""; bool ok=true;
  void ws(){while(*c==' ')c++;}
  double prim(){ ws(); if(*c=='('){ c++; double r=sum(); ws(); if(*c!=')'){ok=false;return 0;} c++; return r; } if(isdigit(*c)||*c=='.'){ char*e; double r=strtod(c,&e); if(e==c)ok=false; c=e; return r; }
    if(isalpha(*c)||*c=='_'){ S n; while(isalnum(*c)||*c=='_')n+=*c++; ws(); if(*c=='('){ c++; double a=sum(); ws(); if(*c!=')'){ok=false;return 0;} c++; if(n=="sqrt")return sqrt(a); if(n=="sin")return sin(a); if(n=="cos")return cos(a); if(n=="exp")return exp(a); if(n=="abs")return fabs(a); ok=false; return 0; } auto i=v.find(n); if(i==v.end()){ok=false;return 0;} return i->second; } ok=false; return 0; }
  double un(){ ws(); if(*c=='-'){c++;return -un();} if(*c=='+'){c++;return un();} double b=prim(); ws(); if(*c=='^'){c++; double e=un(); return pow(b,e);} return b; }
  double prod(){ double r=un(); for(;ok;){ ws(); if(*c=='*'){c++;r*=un();} else if(*c=='/'){c++;r/=un();} else break; } return r; }
  double sum(){ double r=prod(); for(;ok;){ ws(); if(*c=='+'){c++;r+=prod();} else if(*c=='-'){c++;r-=prod();} else break; } return r; }
  bool eval(const S&t,double&r){ c=t.c_str(); ok=true; r=sum(); ws(); if(*c)ok=false; if(!ok){r=0;bad.push_back(t);} return ok; }
  double d(A a){ double r; eval(a.value(),r); return r; }
  int i(A a){ double r; eval(a.value(),r); if(std::isnan(r)||fabs(r)>2e9)throw mc::F("harness: integer out of range"); return (int)rint(r); }
  static bool name(const S&n){ if(n.empty()||!(isalpha(n[0])||n[0]=='_'))return false; for(char q:n)if(!isalnum(q)&&q!='_')return false; return true; }
  void run(N n){ S p=n.attribute("print").value(),w=n.attribute("var").value(),e=n.attribute("eq").value(); double r; if(!p.empty()&&eval(e,r)){ std::ostringstream o; o<<p<<r; printed+=o.str()+"\n"; } if(!w.empty()&&eval(e,r)){ if(name(w))v[w]=r; else bad.push_back(""); } }
  void children(N n){ for(N k:n.children("calc"))run(k); }
  V vec(N n){ double x=d(n.attribute("x")),y=d(n.attribute("y")),z=d(n.attribute("z")); return V(x,y,z); } };
inline N need(N n,const char*c){ N r=n.child(c); if(!r)throw Reject{S(n.name())+" without "+c}; return r; }
inline A needa(N n,const char*c){ A r=n.attribute(c); if(!r)throw Reject{S(n.name())+" without attribute "+c}; return r; }
// ---- what a deck describes
struct Rms{ double r[6]; V pos,dir; double bg; int n; bool corr; };
struct Objs{ Calc calc; std::vector<GeneralField*> elems; std::vector<std::vector<V>> where; /* places worth probing per element */ std::vector<Bunch*> bunches; std::map<int,Rms> random; std::vector<Logger*> logs; bool probe=false; S pfile; int pstep=1,pnum=1; double dt=0; int nots=0; std::vector<watch_t> watches; std::vector<std::unique_ptr<pugi::xml_document>> fel; std::vector<InteractionField*> inter; std::vector<BaseObserver*> obs; std::list<S> names;
  Beam beam; bool owned=false;
  ~Objs(){ for(auto*l:logs)delete l; for(auto*e:elems)delete e; for(auto*f:inter)delete f; for(auto*o:obs)delete o; if(!owned)for(auto*b:bunches)delete b; }
  const char*keep(const S&s){ names.push_back(s); return names.back().c_str(); }
  void places(N e){ std::vector<V> w; for(N k:e.children()){ if(!k.attribute("x")&&!k.attribute("z"))continue; Calc q=calc; V p=q.vec(k); w.push_back(p); } where.push_back(w); }
  void lattice(N root){ N L=need(root,"lattice"); for(N e:L.children()){ S t=e.name(); if(t=="calc"){calc.run(e);continue;} calc.children(e); S ty=e.attribute("type").value();
      if(t=="undulator"){ if(ty!="planar"&&ty!="transverse gradient")throw Reject{"undulator type"}; V p=calc.vec(need(e,"position")); N f=need(e,"field"); double B=calc.d(f.attribute("B")),l=0,kx=0,mod=0; if(ty=="planar"){ l=calc.d(f.attribute("period")); int n=calc.i(f.attribute("N")); auto*u=new PlanarUndulator(p); u->Setup(B,l,n); elems.push_back(u); } else { kx=calc.d(f.attribute("kx")); if(f.attribute("modulation"))mod=calc.d(f.attribute("modulation")); l=calc.d(f.attribute("period")); int n=calc.i(f.attribute("N")); auto*u=new TransverseGradientUndulator(p); u->Setup(B,kx,mod,l,n); elems.push_back(u); } }
      else if(t=="wave"){ if(ty!="gaussian"&&ty!="packet")throw Reject{"wave type"}; N pn=need(e,"position"); V p=calc.vec(pn); double t0=ty=="packet"?calc.d(pn.attribute("t")):0; N f=need(e,"field"); double a=calc.d(f.attribute("ReA")),b=calc.d(f.attribute("ImA")),l=calc.d(f.attribute("lambda")),r=calc.d(f.attribute("rayleigh")); if(ty=="gaussian"){ auto*w=new GaussianWave(0.0,p); w->Setup(l,std::complex<double>(a,b),r); elems.push_back(w);} else { double tau=calc.d(f.attribute("tau")); auto*w=new GaussianWavePacket(t0,p); w->Setup(l,std::complex<double>(a,b),r,tau); elems.push_back(w);} }
      else if(t=="screen"){ A f=needa(e,"file"); N pn=need(e,"position"); V p=calc.vec(pn); double t0=calc.d(pn.attribute("t")); elems.push_back(new SourceScreen(f.value(),p,t0)); }
      else if(t=="dipole"){ if(ty!="hard edge"&&ty!="soft edge")throw Reject{"dipole type"}; V B=calc.vec(need(e,"B")),p1=calc.vec(need(e,"p1")),n1=calc.vec(need(e,"n1")),p2=calc.vec(need(e,"p2")),n2=calc.vec(need(e,"n2")); if(ty=="hard edge")elems.push_back(new HardEdgeDipole(B,p1,n1,p2,n2)); else { N tr=need(e,"transition"); double l1=calc.d(tr.attribute("l1")),l2=calc.d(tr.attribute("l2")); elems.push_back(new SoftEdgeDipole(B,p1,n1,l1,p2,n2,l2)); } }
      else if(t=="background"){ V E,B; E=V(0,0,0);B=V(0,0,0); if(e.child("E"))E=calc.vec(e.child("E")); if(e.child("B"))B=calc.vec(e.child("B")); elems.push_back(new HomogeneousField(E,B)); }
      else throw Reject{"unknown element "+t};
      places(e); } }
  int step(N l){ int s=1; if(l.attribute("step"))s=calc.i(l.attribute("step")); if(s<1)throw Reject{"log step"}; return s; }
  void log(N e,Bunch*b,bool bf){ N l=e.child("log"); if(!l)return; A f=needa(l,"file"); int s=step(l); auto*g=new ParameterLogger<Bunch>(b,keep(f.value()),s); logs.push_back(g); if(bf&&l.attribute("bunching-freq"))g->record_bunching(calc.d(l.attribute("bunching-freq"))); }
  struct Corr{int a,b;double f;};
  std::vector<Corr> corr(N e){ std::vector<Corr> r; N c=e.child("correlations"); if(!c)return r; calc.children(c); for(N k:c.children()){ S t=k.name(); if(t=="calc")continue; if(t!="linear")throw Reject{"correlation kind"}; int a=(int)calc.d(needa(k,"indep")),b=(int)calc.d(needa(k,"dep")); r.push_back({a,b,calc.d(needa(k,"factor"))}); } return r; }
  void parseBeam(N root){ N L=need(root,"beam"); for(N e:L.children()){ S t=e.name(); if(t=="calc"){calc.run(e);continue;}
      if(t=="particle"||t=="bunch"){ calc.children(e); double g=calc.d(e.attribute("gamma")),bg=sqrt(g*g-1),q=calc.d(e.attribute("charge"))/ElementaryCharge,cmr=calc.d(e.attribute("cmr")); double t0=0;
        if(t=="particle"){ if(e.child("time"))t0=calc.d(e.child("time").attribute("t0")); V x=calc.vec(need(e,"position")),m=calc.vec(need(e,"momentum")); m.normalize(); m=m*bg; auto*p=new ChargedParticle(q,q/cmr); p->initTrajectory(t0,x,m,V(0,0,0)); Bunch*b=new Bunch(); b->Add(p); bunches.push_back(b); log(e,b,false); }
        else { int n=1; if(e.attribute("n"))n=calc.i(e.attribute("n")); N tn=e.child("time"); if(tn){calc.children(tn);t0=calc.d(tn.attribute("t0"));} N pn=need(e,"position"); calc.children(pn); V x=calc.vec(pn); double r[6]={0,0,0,0,0,0},ft=0; const char*pa[3]={"xrms","yrms","zrms"}; for(int k=0;k<3;k++)if(pn.attribute(pa[k]))r[k]=calc.d(pn.attribute(pa[k])); if(pn.attribute("zft"))ft=calc.d(pn.attribute("zft"));
          N mn=need(e,"momentum"); calc.children(mn); V dir=calc.vec(mn); dir.normalize(); const char*ma[3]={"xrms","yrms","delta"}; for(int k=0;k<3;k++)if(mn.attribute(ma[k]))r[3+k]=bg*calc.d(mn.attribute(ma[k])); auto cs=corr(e);
          if(n<0)throw S("harness: negative number"); Distribution d(6,n); for(int k=0;k<6;k++){ if(k==2&&ft!=0)d.scale(2,ft); else d.generateGaussian(k,r[k]); } if(ft==0&&r[2]==0)d.scale(2,0); for(auto&c:cs)d.addCorrelation(c.a,c.b,c.f); Bunch*b=new Bunch(&d,t0,x,dir*bg,q/n,q/cmr/n); Rms R; for(int k=0;k<6;k++)R.r[k]=r[k]; if(ft!=0)R.r[2]=ft/sqrt(3.); R.pos=x; R.dir=dir; R.bg=bg; R.n=n; R.corr=cs.size(); random[bunches.size()]=R; bunches.push_back(b); log(e,b,true);
          N tj=e.child("trajectories"); if(tj){ A f=needa(tj,"file"); int s=step(tj),lim=1000000; if(tj.attribute("particles"))lim=calc.i(tj.attribute("particles")); logs.push_back(new TrajectoryLogger<Bunch>(b,keep(f.value()),s,lim)); } } }
      else if(t=="SDDS"){ A f=needa(e,"file"); calc.children(e); V dir(0,0,1); if(e.child("dir")){ calc.children(e.child("dir")); dir=calc.vec(e.child("dir")); dir.normalize(); } Bunch*b=new Bunch(f.value(),dir); bunches.push_back(b); for(auto&c:corr(e))b->addCorrelation(c.a,c.b,c.f); log(e,b,true); }
      else if(t=="probe"){ probe=true; pfile=needa(e,"file").value(); pstep=step(e); pnum=1; if(e.attribute("number"))pnum=calc.i(e.attribute("number")); }
      else throw Reject{"unknown beam entry "+t}; }
    for(auto*b:bunches)beam.Add(b); owned=true; }
  void tracking(N root){ N T=need(root,"tracking"); if(S(T.attribute("method").value())!="Vay")throw Reject{"method"}; dt=calc.d(needa(T,"delta_t")); nots=calc.i(needa(T,"n"));
    for(N e:T.children()){ S t=e.name(); if(t=="calc"){calc.run(e);continue;}
      if(t=="watch"||t=="watch-sdds"){ int s=calc.i(needa(e,"step")); watches.push_back({s,needa(e,"file").value(),t=="watch"?hdf5:sdds}); }
      else if(t=="fel1d"){ calc.children(e); int n=calc.i(needa(e,"N")); V p=calc.vec(need(e,"position")),k=calc.vec(need(e,"prop")),o=calc.vec(need(e,"pol")); int st=1; S fn; N l=e.child("log"); if(l){ fn=needa(l,"file").value(); st=step(l); } N m=need(e,"mode"); double zR=calc.d(m.attribute("zR")),w0=calc.d(m.attribute("w0")),zw=calc.d(m.attribute("zwaist")); if(n<2)throw Reject{"FEL grid"};
        // canonical description with literal numbers
        S x=F("<teufel><fel1d N='%d'>",n)+decks::vec("position",p)+decks::vec("prop",k)+decks::vec("pol",o)+(l?F("<log file='%s' step='%d'/>",fn.c_str(),st):S())+F("<mode zR='%.17g' w0='%.17g' zwaist='%.17g'/>",zR,w0,zw); N s=e.child("seed"); if(s){ double a=calc.d(s.attribute("E0")),b=calc.d(s.attribute("lambda")),c=calc.d(s.attribute("tau")),d=calc.d(s.attribute("tstart")); x+=F("<seed E0='%.17g' lambda='%.17g' tau='%.17g' tstart='%.17g'/>",a,b,c,d); }
        fel.emplace_back(new pugi::xml_document); fel.back()->load_string((x+"</fel1d></teufel>").c_str()); N r=fel.back()->child("teufel"); InputParser P(r); inter.push_back(new FEL_1D(dt,r.child("fel1d"),&P)); }
      else throw Reject{"unknown tracking entry "+t}; } }
  template<class T> void put(T*o,RadSourceType s){ o->setSourceType(s); obs.push_back(o); }
  int source(N e){ A s=e.attribute("source"); if(!s)return 1; S v=s.value(); if(v=="beam")return 1; if(v=="lattice")return 2; throw Reject{"source"}; }
  void observers(N root){ N T=need(root,"observer"); for(N e:T.children()){ S t=e.name(); if(t=="calc"){calc.run(e);continue;}
      if(t!="snapshot"&&t!="screen"&&t!="mesh"&&t!="point")throw Reject{"unknown observer "+t};
      const char*f=keep(needa(e,"file").value()); calc.children(e);
      if(t=="mesh"){ if(source(e)==1){ auto*m=new MeshedScreen<Beam>(f); put(m,BeamObservation); m->init(); m->zero(); } else { auto*m=new MeshedScreen<Lattice>(f); put(m,LatticeObservation); m->init(); m->zero(); } continue; }
      V x=calc.vec(need(e,"position")); V h,v; int nh=1,nv=1,nt=1; double t0,dtt=0,dx=0,dy=0;
      if(t!="point"){ N a=need(e,"hpitch"),b=need(e,"vpitch"); needa(a,"n"); needa(b,"n"); h=calc.vec(a); v=calc.vec(b); nh=calc.i(a.attribute("n")); nv=calc.i(b.attribute("n")); if(t=="screen"){ if(a.attribute("dt"))dx=calc.d(a.attribute("dt")); if(b.attribute("dt"))dy=calc.d(b.attribute("dt")); } }
      N tn=need(e,"time"); t0=calc.d(tn.attribute("t0")); if(t!="snapshot"){ dtt=calc.d(tn.attribute("dt")); nt=calc.i(needa(tn,"n")); }
      if(nh<0||nv<0||nt<0)throw S("harness: negative number");
      int s=source(e); RadSourceType r=s==1?BeamObservation:LatticeObservation;
      if(t=="point"){ if(s==1)put(new PointObserver<Beam>(f,x,t0,dtt,nt),r); else put(new PointObserver<Lattice>(f,x,t0,dtt,nt),r); }
      else if(t=="screen"){ if(s==1)put(new ScreenObserver<Beam>(f,x,h,v,nh,nv,t0,dtt,dx,dy,nt),r); else put(new ScreenObserver<Lattice>(f,x,h,v,nh,nv,t0,dtt,dx,dy,nt),r); }
      else { if(s==1)put(new SnapshotObserver<Beam>(f,x,h,v,nh,nv,t0),r); else put(new SnapshotObserver<Lattice>(f,x,h,v,nh,nv,t0),r); } } }
};
enum{LAT=1,BEAM=2,TRK=4,OBS=8};
// expected console output, captured
struct Cap{ std::ostringstream o; std::streambuf*old; std::ios_base::iostate st; Cap(){ st=std::cout.rdstate(); std::cout.clear(); std::cout.precision(6); std::cout.flags(std::ios_base::skipws|std::ios_base::dec); old=std::cout.rdbuf(o.rdbuf()); } ~Cap(){ std::cout.rdbuf(old); std::cout.setstate(st); } };
struct Check{ S A,B; bool statonly=false; // working directories; random coordinates only compared statistically
  long rejected=0,accepted=0; std::function<void(const S&dir,const S&deck)> prep;
  Beam*ref; Lattice codedL; // sources observers are tried with
  Check():ref(0){ hyb::constrandom=true; A=mc::work+"/da"; B=mc::work+"/db"; mkdir(A.c_str(),0700); mkdir(B.c_str(),0700); codedL.addElement(new CodedField(1e3,1e-3)); ref=new Beam(); HomogeneousField*h=new HomogeneousField(V(1e5,0,0),V(0,0.3,0)); ref->Add(fix::bunch(1,60,1e-11,h,-1e6)); }
  // files decks may refer to: src.h5 (screen), m.h5 (mesh), b.sdds (particles)
  std::map<S,S> files; void templates(){ S d=mc::work+"/tpl"; mkdir(d.c_str(),0700); decks::srcFile(d+"/src.h5"); decks::meshFile(d+"/m.h5",1); for(int q=1;q<=2;q++)decks::meshFile(d+F("/mf%d.h5",q),q,true); std::vector<fix::Col> c; const char*nm[6]={"x","xp","y","yp","p","t"}; for(int k=0;k<6;k++){ c.push_back({nm[k],{}}); for(int i=0;i<4;i++){ double v[6]={1e-3*(i+1),0.01*(i-1),-2e-3*i,0.02*i,30.0+i,1e-12*i}; c.back().v.push_back(v[k]); } } fix::sddsWrite(d+"/b.sdds",4,3e-12,c,false); for(const char*f:{"src.h5","m.h5","mf1.h5","mf2.h5","b.sdds"}){ std::ifstream i((d+"/"+f).c_str(),std::ios::binary); std::ostringstream o; o<<i.rdbuf(); files[f]=o.str(); }
    prep=[this](const S&dir,const S&deck){ hyb::cleardirfiles(dir,{"src.h5","b.sdds"}); for(auto&f:files){ if(deck.find(f.first)==S::npos)continue; S n=dir+"/"+f.first; struct stat st; if(f.first[0]!='m'&&stat(n.c_str(),&st)==0)continue; std::ofstream o(n.c_str(),std::ios::binary); o<<f.second; } }; }
  // compare everything the parser makes of the deck with the expectation; "" if the same; sections to look at
  S run(const S&xml,int sec=15,bool deep=true){ pugi::xml_document doc; if(!doc.load_string(xml.c_str()))return "harness: deck not parsed"; N root=doc.child("teufel"); if(!root)return "harness: no root"; char old[4096]; if(!getcwd(old,sizeof old))return "getcwd"; S e;
    { Objs want; S rej; bool is_rej=false; prep(B,xml); if(chdir(B.c_str()))return "chdir";
      try{ want.calc.children(root); if(sec&LAT)want.lattice(root); if(sec&BEAM)want.parseBeam(root); if(sec&TRK)want.tracking(root); if(sec&OBS)want.observers(root); } catch(const Reject&r){is_rej=true;rej=r.why;} catch(const IOexception&x){is_rej=true;rej=x.what();} catch(const S&s){ if(chdir(old))return "chdir"; return "?"+s; }
      prep(A,xml); if(chdir(A.c_str()))return "chdir"; e=actual(root,want,is_rej,rej,sec,deep); }
    if(chdir(old))return "chdir"; return e; }
  struct Got{ Lattice lat; Beam beam; std::vector<Logger*> logs; ProbeInfo pr; std::vector<watch_t> W; std::list<InteractionField*> I; std::vector<BaseObserver*> O; Got():pr{false,0,"",0,0}{} ~Got(){ for(auto*l:logs)delete l; for(auto*f:I)delete f; for(auto*o:O)delete o; } };
  S actual(N root,Objs&w,bool is_rej,const S&rej,int sec,bool deep){ Got g; S text,thrown; int nl=0,nb=0; { Cap cap; try{ InputParser P(root); if(sec&LAT)nl=P.parseLattice(&g.lat); if(sec&BEAM)nb=P.parseBeam(&g.beam,&g.logs,&g.pr); if(sec&TRK)P.parseTracking(&g.beam,&g.W,&g.I); if(sec&OBS)P.parseObservers(&g.O); } catch(const std::exception&x){thrown=x.what(); if(thrown=="")thrown="exception";} text=cap.o.str(); }
    mc::trans(); if(is_rej){ rejected++; if(thrown=="")return "not rejected although "+rej; return ""; }
    accepted++; if(thrown!="")return "rejected: "+thrown;
    // calculator: every print statement once, in order; every failed evaluation reported
    { S got; size_t p=0; std::istringstream is(text); S line; while(getline(is,line))if(line.compare(0,7,"calc : ")==0&&line.find("can't evaluate")==S::npos)got+=line.substr(7)+"\n"; (void)p; if(got!=w.calc.printed)return "calculator printed ["+got+"] instead of ["+w.calc.printed+"]"; for(auto&b:w.calc.bad)if(!b.empty()&&text.find(b)==S::npos)return "no message about "+b; if(w.calc.bad.empty()&&text.find("can't evaluate")!=S::npos)return "unexpected message: "+text.substr(text.find("can't evaluate"),80); }
    S e; if((sec&LAT)&&(e=lattice(g,w,nl))!="")return e; if((sec&BEAM)&&(e=beams(g,w,nb))!="")return e; if((sec&TRK)&&(e=track(g,w))!="")return e; if(!deep)return ""; if(statonly){statonly=false; for(auto*l:g.logs)delete l; for(auto*l:w.logs)delete l; g.logs.clear(); w.logs.clear();} return outputs(g,w); }
  S lattice(Got&g,Objs&w,int nl){ if(nl!=(int)w.elems.size()||g.lat.count()!=nl)return F("%d elements reported, %d in the lattice instead of %zu",nl,g.lat.count(),w.elems.size());
    for(int i=0;i<nl;i++){ GeneralField*a=g.lat.at(i),*b=w.elems[i]; if(typeid(*a)!=typeid(*b))return F("element %d is of kind %s instead of %s",i,typeid(*a).name(),typeid(*b).name()); std::vector<V> pts; for(double z:{-0.7,-0.021,-0.0013,0.0042,0.0171,0.9})pts.push_back(V(1.3e-4,2.1e-4,z)); for(V p:w.where[i])for(double d:{1.1e-3,0.02})for(int k=0;k<6;k++){ double s=k&1?-d:d; pts.push_back(p+V(k/2==0?s:0.13*s,k/2==1?s:0.11*s,k/2==2?s:0.07*s)); } for(V p:pts)for(double t:{0.0,1.3e-12,2.1e-10}){ ElMagField x=a->Field(t,p),y=b->Field(t,p); if(!fclose_(x,y,1e-9))return F("element %d at %s, t=%g: %s instead of %s",i,vs(p).c_str(),t,fs(x).c_str(),fs(y).c_str()); } } return ""; }
  static bool fin(V a){ return std::isfinite(a.x)&&std::isfinite(a.y)&&std::isfinite(a.z); }
  static bool same(V a,V b,double rel){ bool f=fin(a),g=fin(b); return f&&g?vclose(a,b,rel):f==g; } // overflown values need not be the same
  static double co(ChargedParticle*p,int k){ V x=p->getPosition(),m=p->getMomentum(); return k==0?x.x:k==1?x.y:k==2?x.z:k==3?m.x:k==4?m.y:m.z; }
  S beams(Got&g,Objs&w,int nb){ if(nb!=(int)w.bunches.size()||g.beam.getNOB()!=nb)return F("%d bunches reported, %d in the beam instead of %zu",nb,g.beam.getNOB(),w.bunches.size());
    HomogeneousField H(V(1e4,0,0),V(0,0,0)); for(int i=0;i<nb;i++){ Bunch*a=g.beam.getBunch(i),*b=w.bunches[i]; if(a->getNOP()!=b->getNOP())return F("bunch %d has %d particles instead of %d",i,a->getNOP(),b->getNOP()); S e; int n=a->getNOP(); for(int k=0;k<n;k++){ ChargedParticle*p=a->getParticle(k),*q=b->getParticle(k); if(!mc::near(p->getCharge(),q->getCharge(),1e-12))return F("bunch %d particle %d: charge %g instead of %g",i,k,p->getCharge(),q->getCharge()); if(p->getNP()!=1||!mc::near(p->getTime(),q->getTime(),1e-12))return F("bunch %d particle %d: start time %g instead of %g",i,k,p->getTime(),q->getTime());
        if(!same(p->getPosition(),q->getPosition(),1e-12)||!same(p->getMomentum(),q->getMomentum(),1e-12))e=F("bunch %d particle %d: %s %s instead of %s %s",i,k,vs(p->getPosition()).c_str(),vs(p->getMomentum()).c_str(),vs(q->getPosition()).c_str(),vs(q->getMomentum()).c_str());
        if(e==""&&(k==0||k==n-1)){ ChargedParticle c(p),d(q); c.InitVay(1e-12,&H); c.StepVay(&H); d.InitVay(1e-12,&H); d.StepVay(&H); if(!same(c.getMomentum(),d.getMomentum(),1e-12))return F("bunch %d particle %d: charge to mass ratio",i,k); } }
      if(e!=""){ auto r=w.random.find(i); if(r==w.random.end()||r->second.corr)return e; // random numbers may be drawn in another way: compare the parameters of the distribution
        const Rms&R=r->second; V P0=R.dir; P0=P0*R.bg; V X0=R.pos; double c0[6]={X0.x,X0.y,X0.z,P0.x,P0.y,P0.z}; for(int k=0;k<6;k++){ double m=0,s=0; for(int q=0;q<n;q++){ double o=co(a->getParticle(q),k)-c0[k]; m+=o; s+=o*o; } m/=n; s=sqrt(s/n); if(R.r[k]==0){ if(!(s<=1e-12*fabs(c0[k])+1e-300))return e; } else if(statonly=true,!(fabs(m)<6*fabs(R.r[k])/sqrt(n))||!(s<fabs(R.r[k])*(1+6/sqrt(n)))||!(s>fabs(R.r[k])*(1-5/sqrt(n))))return e; } } }
    if(g.pr.requested!=w.probe)return "probe request"; if(w.probe&&(S(g.pr.filename)!=w.pfile||(int)g.pr.step!=w.pstep||(int)g.pr.number!=w.pnum))return F("probe %s step %d number %d instead of %s %d %d",g.pr.filename,(int)g.pr.step,(int)g.pr.number,w.pfile.c_str(),w.pstep,w.pnum);
    if(g.logs.size()!=w.logs.size())return F("%zu logs instead of %zu",g.logs.size(),w.logs.size()); for(size_t i=0;i<w.logs.size();i++){ if(typeid(*g.logs[i])!=typeid(*w.logs[i]))return F("log %zu is of another kind",i); for(int s=0;s<=24;s++)if(g.logs[i]->log_requested(s)!=w.logs[i]->log_requested(s))return F("log %zu: step %d is%s requested",i,s,g.logs[i]->log_requested(s)?"":" not"); } return ""; }
  S track(Got&g,Objs&w){ if(g.beam.getTrackingMethod()!=TRACKING_VAY)return "tracking method"; if(!mc::near(g.beam.getTimeStep(),w.dt,1e-12))return F("time step %g instead of %g",g.beam.getTimeStep(),w.dt); if(g.beam.getNOTS()!=w.nots)return F("%d steps instead of %d",g.beam.getNOTS(),w.nots); if(g.W.size()!=w.watches.size())return F("%zu watch points instead of %zu",g.W.size(),w.watches.size()); for(size_t i=0;i<w.watches.size();i++)if(g.W[i].step!=w.watches[i].step||g.W[i].filename!=w.watches[i].filename||g.W[i].type!=w.watches[i].type)return F("watch point %zu: step %d file %s type %d",i,g.W[i].step,g.W[i].filename.c_str(),(int)g.W[i].type); if(g.I.size()!=w.inter.size())return F("%zu interactions instead of %zu",g.I.size(),w.inter.size()); return ""; }
  // recorded files of logs, interactions and observers
  S outputs(Got&g,Objs&w){ S e,bad[2]; for(int side=0;side<2;side++){ if(chdir(side?B.c_str():A.c_str()))return "chdir"; Beam&bm=side?w.beam:g.beam; std::vector<Logger*>&logs=side?w.logs:g.logs; std::vector<BaseObserver*>&O=side?w.obs:g.O; std::vector<InteractionField*> I; if(side)I=w.inter; else I.assign(g.I.begin(),g.I.end());
      try{ if(!logs.empty()){ HomogeneousField H(V(2e5,0,0),V(0,0.1,0)); bm.setTrackingMethod(TRACKING_VAY); bm.setTimeStep(1e-11); for(int s=0;s<=4;s++){ if(s==0)bm.setupTracking(&H); else bm.doStep(&H); for(auto*l:logs)if(s==0||l->log_requested(s))l->update(); } for(auto*l:logs)l->WriteData(); }
        for(auto*f:I){ Beam none; none.setTimeStep(w.dt); none.setNOTS(0); f->init(&none); for(int s=1;s<=4;s++){ none.setNOTS(s); f->step(&none); } f->write_output(); }
        for(auto*o:O){ if(auto*b=dynamic_cast<Observer<Beam>*>(o)){b->setSource(ref);b->integrate();} else if(auto*l=dynamic_cast<Observer<Lattice>*>(o)){l->setSource(&codedL);l->integrate();} o->generateOutput(); } }
      catch(const std::exception&x){ bad[side]=S("e")+x.what(); } }
    if(bad[0].empty()!=bad[1].empty())return F("%s: %s",bad[0].empty()?"expected objects":"objects",(bad[0]+bad[1]).c_str()+1); if(!bad[0].empty())return ""; // file names that cannot be written
    if(g.O.size()!=w.obs.size())return F("%zu observers instead of %zu",g.O.size(),w.obs.size()); for(size_t i=0;i<w.obs.size();i++){ if(typeid(*g.O[i])!=typeid(*w.obs[i]))return F("observer %zu is of kind %s instead of %s",i,typeid(*g.O[i]).name(),typeid(*w.obs[i]).name()); if(g.O[i]->getSourceType()!=w.obs[i]->getSourceType())return F("observer %zu: source type",i); }
    // fields of the interactions before anything else are part of their files only if logged: probe them directly
    { auto a=g.I.begin(); for(size_t i=0;i<w.inter.size();i++,++a)for(double z=-0.2;z<0.35;z+=0.0093)for(int t=5;t<=5;t++){ bool xa=false,xb=false; ElMagField fa,fb; V p(1e-4,2e-4,z); try{fa=(*a)->Field(t*w.dt,p);}catch(const std::exception&){xa=true;} try{fb=w.inter[i]->Field(t*w.dt,p);}catch(const std::exception&){xb=true;} if(xa!=xb)return F("interaction %zu at z=%g: grid %s",i,z,xa?"ends":"continues"); if(!xa&&!fclose_(fa,fb,1e-9))return F("interaction %zu at z=%g: %s instead of %s",i,z,fs(fa).c_str(),fs(fb).c_str()); } }
    if(w.logs.empty()&&w.inter.empty()&&w.obs.empty())return ""; std::vector<std::string> ex={"src.h5","b.sdds","SourceScreenTraces_DEBUG.h5","SourceScreenTimeDerivative_DEBUG.h5"}; hyb::Out oa=hyb::collect(A,ex),ob=hyb::collect(B,ex); return hyb::compare(ob,oa,1e-9); }
};
}
