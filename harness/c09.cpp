// C09: field of every lattice element at all points of a grid around it, from code and from an input deck
#include "fix.h"
#include "parser.h"
#include "pugixml.hpp"
#include <complex>
using namespace fix;
typedef std::function<ElMagField(double,V)> Ref;
struct Case{ std::string name; double t0; V pos; double L; double len; double tau; double sE,sB; std::function<GeneralField*()> make; std::string xml; Ref ref; std::function<std::string(GeneralField*)> get; std::function<bool(double,V)> skip; };
static std::string v3(V v){return mc::F("x=\"%.17g\" y=\"%.17g\" z=\"%.17g\"",v.x,v.y,v.z);}
static ElMagField planar(double B,double l,int N,V X){ double k=2*Pi/l,e=0.5*(N+1)*l; if(X.z< -e||X.z>=e)return ElMagField(); double r=1; if(X.z< -e+l)r*=(X.z+e)/l; if(X.z>=e-l)r*=(e-X.z)/l; return ElMagField(V(0,0,0),V(0,r*B*std::sin(k*X.z)*std::cosh(k*X.y),r*B*std::cos(k*X.z)*std::sinh(k*X.y))); }
static ElMagField tgu(double B,double kx,double m,double l,int N,V X){ double k=2*Pi/l,ky=std::sqrt(k*k+kx*kx),e=0.5*(N+1)*l; if(X.z< -e||X.z>=e)return ElMagField(); double r=B*(1+m*std::sin(k*X.z)); if(X.z< -e+l)r*=(X.z+e)/l; if(X.z>=e-l)r*=(e-X.z)/l;
  double s=std::sin(k*X.z),c=std::cos(k*X.z); return ElMagField(V(0,0,0),V(r*kx/ky*std::cos(kx*X.x)*std::sinh(ky*X.y)*s, r*s*(std::cosh(k*X.y)+std::sin(kx*X.x)*std::cosh(ky*X.y)), r*c*(std::sinh(k*X.y)+k/ky*std::sin(kx*X.x)*std::sinh(ky*X.y)))); }
static ElMagField wave(double l,std::complex<double> A,double zR,double tau,double t,V X){ double k=2*Pi/l,w0=std::sqrt(l*zR/Pi),q=X.z/zR,w=w0*std::sqrt(1+q*q),r2=X.x*X.x+X.y*X.y; double curv=X.z/(X.z*X.z+zR*zR); double ph=k*SpeedOfLight*t-k*X.z-0.5*k*r2*curv; double a=w0/w*std::exp(-r2/(w*w)); if(tau>0){double u=(t-X.z/SpeedOfLight)/tau; a*=std::exp(-u*u);} double E=a*(A.real()*std::cos(ph)-A.imag()*std::sin(ph)); return ElMagField(V(E,0,0),V(0,E/SpeedOfLight,0)); }
int main(int argc,char**argv){ mc::init(argc,argv); quiet(); std::vector<Case> C; auto never=[](double,V){return false;};
  std::vector<V> origins={V(0,0,0),V(0.4,-0.3,2.5)};
  for(V o:origins)for(double B:{0.25,-0.6})for(double l:{0.03,0.3})for(int N:{1,2,5}){ double K=l*SpeedOfLight*B/(2*Pi*mecsquared);
    Case c; c.name=mc::F("planar B=%g l=%g N=%d z=%g",B,l,N,o.z); c.t0=0;c.pos=o;c.L=l;c.len=(N+1)*l;c.tau=0;c.sE=1;c.sB=B; c.make=[=]()->GeneralField*{auto*u=new PlanarUndulator(o);u->Setup(B,l,N);return u;};
    c.xml=mc::F("<undulator name='U' type='planar'><field B='%.17g' period='%.17g' N='%d'/><position %s/></undulator>",B,l,N,v3(o).c_str()); c.ref=[=](double,V X)->ElMagField{return planar(B,l,N,X);}; c.skip=never;
    c.get=[=](GeneralField*f)->std::string{ auto*u=dynamic_cast<PlanarUndulator*>(f); if(!u)return "wrong element type"; if(u->GetBPeak()!=B||!mc::near(u->GetLambdaU(),l,1e-14)||u->GetNPeriods()!=N)return "parameters reported differ"; if(!mc::near(u->GetKpeak(),K,1e-12)||!mc::near(u->GetKrms(),K/std::sqrt(2.0),1e-12))return mc::F("K=%.12g Krms=%.12g instead of K=%.12g",u->GetKpeak(),u->GetKrms(),K); return ""; }; C.push_back(c);
    if(N!=5)for(double kx:{1.5,-4.0})for(double m:{0.0,0.1}){ Case d=c; d.name=mc::F("gradient B=%g kx=%g mod=%g l=%g N=%d z=%g",B,kx,m,l,N,o.z); d.make=[=]()->GeneralField*{auto*u=new TransverseGradientUndulator(o);u->Setup(B,kx,m,l,N);return u;};
      d.xml=mc::F("<undulator name='U' type='transverse gradient'><field B='%.17g' kx='%.17g' %s period='%.17g' N='%d'/><position %s/></undulator>",B,kx,m==0?"":mc::F("modulation='%.17g'",m).c_str(),l,N,v3(o).c_str()); d.ref=[=](double,V X)->ElMagField{return tgu(B,kx,m,l,N,X);};
      d.get=[=](GeneralField*f)->std::string{ auto*u=dynamic_cast<TransverseGradientUndulator*>(f); if(!u)return "wrong element type"; if(u->GetBPeak()!=B||!mc::near(u->GetLambdaU(),l,1e-14)||u->GetNPeriods()!=N)return "parameters reported differ"; if(!mc::near(u->GetKpeak(),K,1e-12)||!mc::near(u->GetKrms(),K/std::sqrt(2.0),1e-12))return "K differs"; return ""; }; C.push_back(d);} }
  // dipoles: limiting planes of different orientation
  struct D{V p1,n1,p2,n2;}; V s3(1/std::sqrt(3.0),1/std::sqrt(3.0),1/std::sqrt(3.0)); std::vector<D> ds={{V(0,0,-0.2),V(0,0,-1),V(0,0,0.3),V(0,0,1)},{V(0.1,0,0),V(0.6,0,0.8),V(-0.2,0.1,-0.3),V(-0.8,0,-0.6)},{V(0,0.05,0),V(0,1,0),V(0.3,0.1,0.2),s3},{V(0,0,1),V(0,0,-1),V(0,0,0.5),V(0,0,1)}};
  for(size_t i=0;i<ds.size();i++)for(V B:{V(0,0.3,0),V(-0.1,0.2,0.05)}){ D d=ds[i]; Case c; c.name=mc::F("hard edge %zu B=%g",i,B.y); c.t0=0;c.pos=(d.p1+d.p2)*0.5;c.L=0.25;c.len=1.0;c.tau=0;c.sE=1;c.sB=B.norm(); c.make=[=]()->GeneralField*{return new HardEdgeDipole(B,d.p1,d.n1,d.p2,d.n2);};
    c.xml=mc::F("<dipole name='D' type='hard edge'><B %s/><p1 %s/><n1 %s/><p2 %s/><n2 %s/></dipole>",v3(B).c_str(),v3(d.p1).c_str(),v3(d.n1).c_str(),v3(d.p2).c_str(),v3(d.n2).c_str());
    V ctr=c.pos; c.ref=[=](double,V X)->ElMagField{ X+=ctr; return (dot(X-d.p1,d.n1)<0&&dot(X-d.p2,d.n2)<0)?ElMagField(V(0,0,0),B):ElMagField(); }; c.skip=[=](double,V X){X+=ctr; return std::fabs(dot(X-d.p1,d.n1))<1e-12||std::fabs(dot(X-d.p2,d.n2))<1e-12;};
    c.get=[=](GeneralField*f)->std::string{auto*u=dynamic_cast<HardEdgeDipole*>(f); if(!u)return "wrong element type"; return veq(u->GetB(),B)?"":"GetB differs";}; C.push_back(c);
    for(double t1:{0.02,0.1})for(double t2:{0.02,0.3}){ Case s=c; s.name=mc::F("soft edge %zu B=%g l1=%g l2=%g",i,B.y,t1,t2); s.make=[=]()->GeneralField*{return new SoftEdgeDipole(B,d.p1,d.n1,t1,d.p2,d.n2,t2);};
      s.xml=mc::F("<dipole name='D' type='soft edge'><B %s/><p1 %s/><n1 %s/><p2 %s/><n2 %s/><transition l1='%.17g' l2='%.17g'/></dipole>",v3(B).c_str(),v3(d.p1).c_str(),v3(d.n1).c_str(),v3(d.p2).c_str(),v3(d.n2).c_str(),t1,t2);
      s.ref=[=](double,V X)->ElMagField{ X+=ctr; double a=std::atan(2*dot(X-d.p1,d.n1)/t1),b=std::atan(2*dot(X-d.p2,d.n2)/t2); V q=B; return ElMagField(V(0,0,0),q*(-(a+b)/Pi)); }; s.skip=never; s.get=[=](GeneralField*f)->std::string{auto*u=dynamic_cast<SoftEdgeDipole*>(f); if(!u)return "wrong element type"; return veq(u->GetB(),B)?"":"GetB differs";}; C.push_back(s);} }
  // waves
  for(V o:origins)for(double T:{0.0,3.3e-9,-7e-10})for(double l:{1e-4,1e-3})for(double zR:{0.1,1.0})for(std::complex<double> A:{std::complex<double>(1e6,0),std::complex<double>(0,2e5),std::complex<double>(-3e5,4e5)}){ 
    Case c; c.name=mc::F("wave l=%g zR=%g A=(%g,%g) z=%g t0=%g",l,zR,A.real(),A.imag(),o.z,T); c.t0=T;c.pos=o;c.L=zR;c.len=4*zR;c.tau=l/SpeedOfLight;c.sE=std::abs(A);c.sB=c.sE/SpeedOfLight; c.make=[=]()->GeneralField*{auto*w=new GaussianWave(T,o);w->Setup(l,A,zR);return w;};
    if(T==0)c.xml=mc::F("<wave name='w' type='gaussian'><position %s/><field lambda='%.17g' ReA='%.17g' ImA='%.17g' rayleigh='%.17g'/></wave>",v3(o).c_str(),l,A.real(),A.imag(),zR); c.ref=[=](double t,V X)->ElMagField{return wave(l,A,zR,0,t,X);}; c.skip=never; c.get=[=](GeneralField*f)->std::string{auto*u=dynamic_cast<GaussianWave*>(f); if(!u)return "wrong element type"; return mc::near(u->getWavelength(),l,1e-14)?"":"wavelength differs";}; C.push_back(c);
    for(double tau:{2e-12,7e-11}){ Case p=c; p.name=mc::F("packet tau=%g ",tau)+c.name; p.tau=tau; p.make=[=]()->GeneralField*{auto*w=new GaussianWavePacket(T,o);w->Setup(l,A,zR,tau);return w;}; p.xml=mc::F("<wave name='w' type='packet'><position %s t='%.17g'/><field lambda='%.17g' ReA='%.17g' ImA='%.17g' rayleigh='%.17g' tau='%.17g'/></wave>",v3(o).c_str(),T,l,A.real(),A.imag(),zR,tau); p.ref=[=](double t,V X)->ElMagField{return wave(l,A,zR,tau,t,X);}; p.get=[=](GeneralField*f)->std::string{auto*u=dynamic_cast<GaussianWavePacket*>(f); if(!u)return "wrong element type"; return mc::near(u->getWavelength(),l,1e-14)?"":"wavelength differs";}; C.push_back(p);} }
  // homogeneous
  for(V E:{V(0,0,0),V(1e6,-2e5,3e4)})for(V B:{V(0,0,0),V(0.1,-0.2,0.3)})for(int part=0;part<2;part++){ Case c; c.name=mc::F("background E=%g B=%g %d",E.x,B.x,part); c.t0=0;c.pos=V(0,0,0);c.L=1;c.len=2;c.tau=1e-9;c.sE=E.norm()+1e-3;c.sB=B.norm()+1e-9; c.make=[=]()->GeneralField*{return new HomogeneousField(E,B);}; std::string e=(part&&E.norm()==0)?"":"<E "+v3(E)+"/>",b=(part&&B.norm()==0)?"":"<B "+v3(B)+"/>"; c.xml="<background>"+e+b+"</background>"; c.ref=[=](double,V)->ElMagField{return ElMagField(E,B);}; c.skip=never; c.get=[=](GeneralField*f)->std::string{return dynamic_cast<HomogeneousField*>(f)?"":"wrong element type";}; C.push_back(c); }
  for(auto&c:C)for(int route=0;route<2;route++){ if(route&&c.xml.empty())continue; if(!mc::begin(mc::F("%s %s",c.name.c_str(),route?"deck":"code")))continue;
    Lattice lat; GeneralField*f=0; std::string err;
    if(!route){f=c.make();lat.addElement(f);} else { pugi::xml_document d; std::string x="<teufel><lattice>"+c.xml+"</lattice></teufel>"; if(!d.load_string(x.c_str()))err="xml"; else { InputParser p(d.child("teufel")); int n=p.parseLattice(&lat); if(n!=1||lat.count()!=1)err=mc::F("%d elements reported, %d created",n,lat.count()); else f=lat.at(0); } }
    if(err.empty())err=c.get(f); if(err.empty()&&!f->is_external())err="not an external field";
    double e=0.5*c.len; std::vector<double> zs={-2*e,-e-1e-3*c.L,-e,-e+0.3*c.L,-e+c.L,-e+c.L*(1-1e-9),-0.37*c.L,-1e-9*c.L,0,0.25*c.L,0.5*c.L,0.81*c.L,e-c.L,e-0.6*c.L,e,e+1e-3*c.L,3*e}; std::vector<double> xs={0,0.011,-0.3,0.7},ys={0,0.004,-0.05},ts={0,1.7e-12,-4e-10}; if(c.tau>0)for(double k:{0.25,-0.5,1.0,2.0,-6.0})ts.push_back(k*c.tau);
    mc::H h; for(double z:zs)for(double x:xs)for(double y:ys)for(double t:ts){ if(!err.empty())break; V X(x*0.1,y,z); if(c.skip(t,X))continue; mc::trans();
      // packets travel: also sample around the arrival time
      for(int arr=0;arr<(c.tau>0&&c.name[0]!='b'?2:1);arr++){ double tt=t+(arr?z/SpeedOfLight:0); ElMagField g=f->Field(c.t0+tt,c.pos+X),w=c.ref(tt,X); 
        // rounding of the argument t-t0, X-origin: allow for the field's variation over it
        double ap=std::max(1.0,std::cosh(2*Pi/c.L*std::fabs(y))),tol=1e-9*ap; if(c.tau>0&&c.name[0]!='b'){ double lam=1e-4; tol=1e-9+2*Pi*(4e-16*(std::fabs(c.pos.z)+std::fabs(z)+SpeedOfLight*(std::fabs(c.t0)+std::fabs(tt))))/lam*4; }
        if(!((g.E()-w.E()).norm()<=tol*c.sE)||!((g.B()-w.B()).norm()<=tol*std::fabs(c.sB))){err=mc::F("at local t=%g ",tt)+vs(X)+": "+fs(g)+" instead of "+fs(w);} h.d(g.E().x).d(g.B().y).d(g.B().z); } }
    if(!err.empty())mc::fail("%s",err.c_str()); mc::state(h.h); mc::outcome(h.h); if(&c==&C[5])mc::sample(c.name); }
  // elements set up again, two of a kind taking turns: the same point queried after every change, against a fresh element
  { auto mk=[](int k)->GeneralField*{ V o(0.01,-0.02,0.3); switch(k){ case 0:return new PlanarUndulator(o); case 1:return new TransverseGradientUndulator(o); case 2:return new GaussianWave(1e-10,o); default:return new GaussianWavePacket(1e-10,o);} };
    auto up=[](GeneralField*f,int k,int s){ double l[4]={0.03,0.05,0.03,0.03}; int n[4]={10,10,7,10}; double B[4]={0.3,0.3,0.3,-0.7}; switch(k){ case 0:((PlanarUndulator*)f)->Setup(B[s],l[s],n[s]);break; case 1:((TransverseGradientUndulator*)f)->Setup(B[s],s==2?3:20,s==1?0.3:0.1,l[s],n[s]);break; case 2:((GaussianWave*)f)->Setup(s==1?3e-4:1e-4,std::complex<double>(1e6,s==3?-2e5:4e5),s==2?0.5:0.1);break; default:((GaussianWavePacket*)f)->Setup(s==1?3e-4:1e-4,std::complex<double>(1e6,s==3?-2e5:4e5),s==2?0.5:0.1,s==0?1e-12:4e-12);} };
    int L=mc::thorough?4:3; for(int k=0;k<4;k++)for(int len=2;len<=L;len++){ int tot=1; for(int i=0;i<len;i++)tot*=8; for(int code_=0;code_<tot;code_++)if(mc::begin(mc::F("again:%d,%d,%d",k,len,code_)))for(int q=0;q<4&&!mc::failed();q++){ V X(0.011,-0.017,0.3+(q==1?0.104:q==2?-0.131:0.021)); double t=1e-10+(X.z-0.3)/SpeedOfLight+(q==3?0.3e-12:0); std::unique_ptr<GeneralField> f[2]={std::unique_ptr<GeneralField>(mk(k)),std::unique_ptr<GeneralField>(mk(k))}; up(f[0].get(),k,0); up(f[1].get(),k,1); int c=code_; std::vector<ElMagField> seen; for(int i=0;i<len;i++,c/=8){ up(f[c%2].get(),k,c/2%4); seen.push_back(f[c%2]->Field(t,X)); mc::trans(); }
        c=code_; for(int i=0;i<len;i++,c/=8){ int w=c%2,s=c/2%4; std::unique_ptr<GeneralField> g(mk(k)); up(g.get(),k,s); g->Field(t+0.2e-12,X+V(0.001,0.002,0.003)); ElMagField a=seen[i],b=g->Field(t,X); mc::trans(2); if(!fclose_(a,b,1e-12)){mc::fail("step %d: element %d set up with %d gives %s instead of %s",i,w,s,fs(a).c_str(),fs(b).c_str());break;} mc::H h; h.i(k).i(q).i(s); mc::state(h.h); } } } }
  // elements created empty give no field
  for(int k=0;k<7;k++){ if(!mc::begin(mc::F("default %d",k)))continue; std::unique_ptr<GeneralField> f; V p(0.1,0.2,0.3); switch(k){case 0:f.reset(new PlanarUndulator());break;case 1:f.reset(new PlanarUndulator(p));break;case 2:f.reset(new TransverseGradientUndulator(p));break;case 3:f.reset(new HardEdgeDipole());break;case 4:f.reset(new SoftEdgeDipole());break;case 5:f.reset(new GaussianWave(1e-9,p));break;default:f.reset(new GaussianWavePacket());} for(double z:{-1.0,-0.2,0.0,0.1,0.35,2.0})for(double t:{0.0,1e-9,1.1e-9}){ ElMagField g=f->Field(t,V(0.05,0.1,z)); mc::trans(); if(!feq(g,ElMagField()))mc::fail("field %s from an element that was not set up",fs(g).c_str()); } mc::state(k); }
  return mc::finish(); }
