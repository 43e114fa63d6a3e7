// C05: equation of motion: enumeration of particles x fields x steps x phases vs reference scheme and physical invariants
#include "refparticle.h"
#include <array>
static std::vector<V> dirs(bool full){ std::vector<V> d; for(int x=-1;x<=1;x++)for(int y=-1;y<=1;y++)for(int z=-1;z<=1;z++){ if(!x&&!y&&!z)continue; if(!full&&(std::abs(x)+std::abs(y)+std::abs(z)==2))continue; V v(x,y,z); v=v/v.norm(); d.push_back(v);} return d; }
struct Fd{std::string n; V E,B; bool coded;};
int main(int argc,char**argv){
  mc::init(argc,argv);
  double charges[]={-1,1,2,-1e7}, masses[]={1,1836,1e7}; double mags[]={0.02,1,40,5000};
  std::vector<Fd> fields={{"none",V(),V(),false}};
  for(V d:{V(1,0,0),V(0,1,0),V(0,0,1),V(0.6,-0.8,0),V(-0.48,0.6,0.64)}){ fields.push_back({"E"+vs(d),d*1e7,V(),false}); fields.push_back({"B"+vs(d),V(),d*0.5,false}); }
  fields.push_back({"ExB",V(3e6,0,0),V(0,0.1,0),false}); fields.push_back({"EpB",V(0,0,5e6),V(0,0,-0.2),false}); fields.push_back({"mix",V(1e6,-2e6,3e6),V(0.3,0.2,-0.1),false}); fields.push_back({"coded",V(),V(),true}); fields.push_back({"codedstrong",V(1,1,1),V(),true});
  std::vector<V> mom={V()}; for(V d:dirs(mc::thorough))for(double m:mags)mom.push_back(d*m);
  for(double q:charges)for(double m:masses)for(size_t ip=0;ip<mom.size();ip++)for(size_t k=0;k<fields.size();k++)for(double dt:{1e-13,1e-11,2e-10}){
    // keep charge/mass ratios physically meaningful: |q/m|<=2
    if(std::fabs(q)/m>2.5)continue;
    V p0=mom[ip]; Fd&fd=fields[k];
    if(!mc::begin(mc::F("push:q=%g,m=%g,p=%d,f=%s,dt=%g",q,m,(int)ip,fd.n.c_str(),dt)))continue;
    std::unique_ptr<GeneralField> f; if(fd.coded)f.reset(new CodedField(fd.E.x>0?2e7:1e6,fd.E.x>0?0.8:0.05)); else f.reset(new HomogeneousField(fd.E,fd.B));
    double t0=(ip%3)*1e-9; V x0(0.1,-0.05*(ip%5),0.2);
    // three routes: particle, bunch, beam
    ChargedParticle c(q,m); c.initTrajectory(t0,x0,p0,V(1,2,3));
    Bunch bu; ChargedParticle*bc=new ChargedParticle(q,m); bc->initTrajectory(t0,x0,p0,V()); bu.Add(new ChargedParticle(1.0,1.0)); bu.getParticle(0)->initTrajectory(0,V(1,1,1),V(0,0,1),V()); bu.Add(bc);
    Beam be; Bunch*b1=new Bunch(); ChargedParticle*ec=new ChargedParticle(q,m); ec->initTrajectory(t0,x0,p0,V()); b1->Add(ec); be.Add(new Bunch()); be.Add(b1); be.setTrackingMethod(TRACKING_VAY); be.setTimeStep(dt);
    RefParticle r(q,m); r.init(t0,x0,p0,V());
    c.InitVay(dt,f.get()); bu.InitVay(dt,f.get()); be.setupTracking(f.get()); r.initvay(dt,f.get());
    int N=8; std::string d; mc::H h; double lostp=0;
    for(int s=0;s<N&&d=="";s++){ c.StepVay(f.get()); bu.StepVay(f.get()); be.doStep(f.get()); r.step(f.get()); mc::trans(3);}
    if(be.getNOTS()!=N)mc::fail("beam counts %d steps, expected %d",be.getNOTS(),N);
    d=compareParticle(&c,r,1e-9,&h,false); if(d!="")mc::fail("particle vs reference scheme: %s",d.c_str());
    d=compareParticle(bc,r,1e-9,0,false); if(d!="")mc::fail("in bunch: %s",d.c_str()); d=compareParticle(ec,r,1e-9,0,false); if(d!="")mc::fail("in beam: %s",d.c_str());
    if(mc::failed())continue;
    // invariants, independent of the scheme
    for(int i=0;i<c.getNP();i++) if(!mc::near(c.TrajTime(i),t0+i*dt,1e-12,1e-9)){mc::fail("time of point %d",i);break;}
    if(fd.n=="none"){ V b=p0/std::sqrt(1+p0.abs2nd()); if(!veq(c.getMomentum(),p0)&&!vclose(c.getMomentum(),p0,1e-13))mc::fail("momentum changes without field"); V xe=x0+b*(SpeedOfLight*dt*N); if(!vclose(c.getPosition(),xe,1e-11,1.0))mc::fail("no straight drift: %s expected %s",vs(c.getPosition()).c_str(),vs(xe).c_str()); }
    double qm=q/m*InvRestMass;
    if(!fd.coded&&fd.E.isNull()&&!fd.B.isNull()){ // magnetic: |p| conserved between whole points up to the scheme's property: end-of-step momenta conserve exactly; half-step p has |p_h|^2 = |u|^2 + (h B x beta)^2
      double hh=qm*0.5*dt; V bd=fd.B; for(int i=1;i<c.getNP();i++){ double a=c.TrajMomentum(i).abs2nd(),b=c.TrajMomentum(1).abs2nd(); double tol=1e-9; if(!mc::near(a,b,tol)){mc::fail("momentum magnitude not conserved in magnetic field: %.15g vs %.15g",a,b);break;} }
      double g=std::sqrt(1+p0.abs2nd()); double ph=std::fabs(hh)*bd.norm()/g; if(!mc::near(c.getMomentum().abs2nd(),p0.abs2nd(),4*ph*ph+1e-9,1e-9))mc::fail("energy changes in magnetic field"); 
      double along=dot(c.getMomentum(),bd)/bd.norm(); if(!mc::near(along,dot(p0,bd)/bd.norm(),1e-9,p0.norm()))mc::fail("momentum along B changes"); }
    if(!fd.coded&&fd.B.isNull()&&!fd.E.isNull()){ V pe=p0+fd.E*(qm/SpeedOfLight*dt*N); if(!vclose(c.getMomentum(),pe,1e-9,p0.norm()))mc::fail("momentum gain in electric field %s expected %s",vs(c.getMomentum()).c_str(),vs(pe).c_str()); }
    // time reversal: start from the last recorded point with -dt
    // rounding is amplified when the particle starts slow and the kick per step is huge; skip those
    V last=c.TrajPoint(c.getNP()-1),lp=c.TrajMomentum(c.getNP()-1); double lt=c.TrajTime(c.getNP()-1);
    ChargedParticle rv(q,m); rv.initTrajectory(lt,last,lp,V()); rv.InitVay(-dt,f.get()); for(int s=0;s<N;s++){rv.StepVay(f.get());mc::trans();}
    double pmax=0; for(int i=0;i<c.getNP();i++)pmax=std::max(pmax,c.TrajMomentum(i).norm());
    if(!vclose(rv.getPosition(),x0,1e-7,1.0)||!vclose(rv.getMomentum(),p0,1e-7,std::max(1.0,pmax)))mc::fail("tracking is not reversible: back at %s p=%s, started %s p=%s",vs(rv.getPosition()).c_str(),vs(rv.getMomentum()).c_str(),vs(x0).c_str(),vs(p0).c_str());
    mc::state(h.h); if(q==2&&fd.n=="mix"&&ip==5)mc::sample(mc::F("q=%g m=%g p=%s dt=%g -> ",q,m,vs(p0).c_str(),dt)+vs(c.getPosition()));
  }
  // matched crossed fields: straight motion without drift, for many directions
  for(double q:{-1.0,1.0,3.0})for(double mag:{0.5,2.0,100.0,3e4})for(double dt:{1e-13,1e-11,1e-10}){ int di=0; for(V d:dirs(true)){ di++; for(V s:{V(1,0,0),V(0,1,0),V(0,0,1)}){ V bd=cross(d,s); if(bd.norm()<0.3)continue; bd=bd/bd.norm(); if(!mc::begin(mc::F("matched:q=%g,mag=%g,dt=%g,d=%d,s=%s",q,mag,dt,di,vs(s).c_str())))continue;
     V p=d*mag; V beta=p/std::sqrt(1+mag*mag); V B=bd*0.2; V E=-cross(beta*SpeedOfLight,B); HomogeneousField f(E,B); ChargedParticle c(q,1.0); c.initTrajectory(0,V(),p,V()); c.InitVay(dt,&f); for(int i=0;i<20;i++){c.StepVay(&f);mc::trans();}
     if(!vclose(c.getMomentum(),p,1e-8)||!vclose(c.getPosition(),beta*SpeedOfLight*dt*20,1e-8))mc::fail("drifts off in matched crossed fields: p=%s",vs(c.getMomentum()).c_str()); mc::H h;h.d(q).d(mag).d(dt).i(di);hv(h,s);mc::state(h.h);}}}
  // phases: sequences of (field, step size, number of steps) with re-initialisation at the last point
  CodedField Fa(5e6,0.3); HomogeneousField Fb(V(1e6,0,-2e6),V(0,0.4,0)); GeneralField*FF[2]={&Fa,&Fb}; double D[3]={1e-11,3e-11,-1e-11};
  int depth=mc::thorough?5:4; std::vector<std::array<int,3>> seq; std::function<void()> rec=[&]{
    if(!seq.empty()){ std::string id="phases:"; for(auto&a:seq)id+=mc::F("%d%d%d.",a[0],a[1],a[2]); if(mc::begin(id)){
      ChargedParticle c(-1,1); c.initTrajectory(1e-9,V(0.1,0.2,0.3),V(1,-2,3),V(9,9,9)); RefParticle r(-1,1); r.init(1e-9,V(0.1,0.2,0.3),V(1,-2,3),V(9,9,9)); Beam be; Bunch*bb=new Bunch(); for(int i=0;i<2;i++){ChargedParticle*o=new ChargedParticle(i?-1:7,1); o->initTrajectory(1e-9,i?V(0.1,0.2,0.3):V(0.1,0.2,0.30001),V(1,-2,3),V(9,9,9)); bb->Add(o);} be.Add(bb); be.setTrackingMethod(TRACKING_VAY);
      for(auto&a:seq){ c.InitVay(D[a[1]],FF[a[0]]); r.initvay(D[a[1]],FF[a[0]]); be.setTimeStep(D[a[1]]); be.setupTracking(FF[a[0]]); if(be.getNOTS()!=0)mc::fail("NOTS not reset by setup"); for(int s=0;s<a[2];s++){c.StepVay(FF[a[0]]);r.step(FF[a[0]]);be.doStep(FF[a[0]]);mc::trans();} if(be.getNOTS()!=a[2])mc::fail("beam NOTS=%d",be.getNOTS()); }
      mc::H h; std::string d=compareParticle(&c,r,1e-9,&h,false); if(d!="")mc::fail("%s",d.c_str()); d=compareParticle(bb->getParticle(1),r,1e-9,0,false); if(d!="")mc::fail("in beam with a second charge: %s",d.c_str()); mc::state(h.h);} }
    if((int)seq.size()==depth)return; for(int f=0;f<2;f++)for(int d=0;d<3;d++)for(int n=0;n<=2;n++){seq.push_back({f,d,n});rec();seq.pop_back();}
  }; rec();
  // every way of creating a particle gives the charge and mass requested
  for(int k=0;k<5;k++)for(double q:{-1.0,2.0,-7.0})for(double m:{1.0,1836.0,0.5}){ if(k==0&&(q!=-1||m!=1))continue; if(!mc::begin(mc::F("created:%d,%g,%g",k,q,m)))continue; std::unique_ptr<ChargedParticle> c(k==0?new ChargedParticle():k==1?new ChargedParticle(q,m):new ChargedParticle(q,m,k==2?0:k==3?3:40)); Bunch bu(3,q,m); RefParticle r(q,m);
    for(int re=0;re<2;re++){ auto go=[&](ChargedParticle*p,const char*w){ p->initTrajectory(1e-9,V(0.1,0.2,0.3),V(0.1,-0.2,0.3),V()); p->InitVay(1e-11,&Fb); for(int i=0;i<9;i++){p->StepVay(&Fb);mc::trans();} r=RefParticle(q,m); r.init(1e-9,V(0.1,0.2,0.3),V(0.1,-0.2,0.3),V()); r.initvay(1e-11,&Fb); for(int i=0;i<9;i++)r.step(&Fb); mc::H h; std::string d=compareParticle(p,r,1e-9,&h,false); if(d!="")mc::fail("%s: %s",w,d.c_str()); if(!mc::near(p->getCharge(),q*ElementaryCharge,1e-14))mc::fail("%s: charge %g",w,p->getCharge()); mc::state(h.h); }; go(c.get(),"particle"); for(int i=0;i<3;i++)go(bu.getParticle(i),"member of a bunch"); } }
  // long runs, alone and in large bunches
  for(int N:{40,129,1025,5000})for(int k=0;k<4;k++)for(double dt:{1e-12,2e-11})for(int per:{300,5})if((N<200||per>5)&&mc::begin(mc::F("long:%d,%d,%g,%d",N,k,dt,per))){ HomogeneousField Fm(V(),V(0,0.3,0.1)),Fe(V(1e6,-2e5,3e5),V()); GeneralField*f=k==0?(GeneralField*)&Fm:k==1?(GeneralField*)&Fe:k==2?(GeneralField*)&Fb:(GeneralField*)&Fa; V x0(0.1,0.2,0.3),p0(0.5,-0.2,3); Beam be; Bunch*bu=new Bunch(); int M=N<200?300:3; for(int i=0;i<M;i++){ChargedParticle*p=new ChargedParticle(-1,1+0.01*i);p->initTrajectory(1e-9,x0,p0,V()); if(i&&i%per==0){be.Add(bu);bu=new Bunch();} bu->Add(p);} be.Add(bu); auto part=[&](int i){return be.getBunch(i/per)->getParticle(i%per);}; be.setTrackingMethod(TRACKING_VAY); be.setTimeStep(dt); be.setupTracking(f); for(int s=0;s<N;s++)be.doStep(f); mc::trans(N); if(be.getNOTS()!=N)mc::fail("%d steps counted",be.getNOTS()); mc::H h;
    for(int i=0;i<M&&!mc::failed();i+=(M>3&&i>2&&i<M-2?(i%64<60?4:1):1)){ RefParticle r(-1,1+0.01*i); r.init(1e-9,x0,p0,V()); r.initvay(dt,f); for(int s=0;s<N;s++)r.step(f); std::string d=compareParticle(part(i),r,1e-7,&h,false); if(d!="")mc::fail("particle %d of %d after %d steps: %s",i,M,N,d.c_str()); if(k==0&&!mc::near(part(i)->getMomentum().norm(),part(i)->TrajMomentum(1).norm(),1e-9))mc::fail("energy not conserved in a magnetic field over %d steps",N); } mc::state(h.h); }
  // beams reject tracking without a method, particles without coordinates
  for(int m=0;m<3;m++){ if(!mc::begin(mc::F("method:%d",m)))continue; Beam be; Bunch*b=new Bunch(); ChargedParticle*p=new ChargedParticle(); b->Add(p); be.Add(b); bool thrown=false; if(m==0)be.setTrackingMethod(TRACKING_NONE); if(m==1)be.setTrackingMethod(TRACKING_EULER); if(m==2){be.setTrackingMethod(TRACKING_VAY);} else p->initTrajectory(0,V(),V(),V()); try{be.setupTracking(&Fa);}catch(std::exception&){thrown=true;} if(!thrown)mc::fail("tracking setup without method/coordinates accepted"); mc::trans(); }
  return mc::finish();
}
