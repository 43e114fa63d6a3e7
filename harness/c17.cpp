// C17: moments reported for bunches equal the defining averages over the current particles
#include "fix.h"
#include <complex>
using namespace fix;
typedef long double ld;
struct St{ double q,t; V x,p; };
static std::string cmp(Bunch&b,const std::vector<St>&s){ int n=s.size(); if(b.getNOP()!=n)return mc::F("%d particles instead of %d",b.getNOP(),n); ld Q=0,Qa=0; for(auto&k:s){Q+=k.q;Qa+=fabsl(k.q);} if(!mc::near(b.getTotalCharge(),(double)(Q*ElementaryCharge),1e-12,(double)(Qa*ElementaryCharge)))return mc::F("total charge %g instead of %g",b.getTotalCharge(),(double)(Q*ElementaryCharge)); if(!n)return "";
  auto avg=[&](std::function<ld(const St&)> f){ld a=0;for(auto&k:s)a+=f(k);return a/n;}; auto mag=[&](std::function<ld(const St&)> f){ld a=0;for(auto&k:s)a=std::max(a,fabsl(f(k)));return (double)a;};
  auto one=[&](const char*nm,double got,ld want,double scale)->std::string{ if(mc::near(got,(double)want,1e-11,scale))return ""; return mc::F("%s is %.15g instead of %.15g (%d particles)",nm,got,(double)want,n); };
  std::string e; auto T=[](const St&k)->ld{return k.t;}; if((e=one("average time",b.avgTime(),avg(T),mag(T)))!="")return e;
  std::function<ld(const St&)> X[6]={[](const St&k)->ld{return k.x.x;},[](const St&k)->ld{return k.x.y;},[](const St&k)->ld{return k.x.z;},[](const St&k)->ld{return k.p.x;},[](const St&k)->ld{return k.p.y;},[](const St&k)->ld{return k.p.z;}};
  V ax=b.avgPosition(),rx=b.rmsPosition(),am=b.avgMomentum(); double g[6]={ax.x,ax.y,ax.z,am.x,am.y,am.z},r[3]={rx.x,rx.y,rx.z}; static const char*N6[6]={"average x","average y","average z","average px","average py","average pz"}; static const char*R3[3]={"rms x","rms y","rms z"};
  for(int k=0;k<6;k++)if((e=one(N6[k],g[k],avg(X[k]),mag(X[k])))!="")return e;
  for(int k=0;k<3;k++){ ld m=avg(X[k]); ld v=sqrtl(avg([&](const St&s2)->ld{ld d=X[k](s2)-m;return d*d;})); if((e=one(R3[k],r[k],v,1e-3*mag(X[k])))!="")return e; }
  auto bg=[](const St&k)->ld{return sqrtl((ld)k.p.x*k.p.x+(ld)k.p.y*k.p.y+(ld)k.p.z*k.p.z);}; if((e=one("average gamma",b.avgGamma(),avg([&](const St&k)->ld{ld m=bg(k);return sqrtl(1+m*m);}),0))!="")return e;
  ld m=avg(bg); if(m>0){ ld d=sqrtl(avg([&](const St&k)->ld{ld q=bg(k)-m;return q*q;}))/m; if((e=one("momentum spread",b.delta(),d,1e-3))!="")return e; }
  for(double f:{0.0,1e6,3e9,7.77e11}){ ld re=0,im=0; for(auto&k:s){ld ph=2*M_PIl*f*k.x.z/SpeedOfLight;re+=cosl(ph);im+=sinl(ph);} std::complex<double> B=b.BunchingFactor(f); double tol=1e-9+1e-14*f*mag(X[2])/SpeedOfLight*10; if(fabsl(B.real()-re/n)>tol||fabsl(B.imag()-im/n)>tol)return mc::F("bunching factor at %g Hz is (%.12g,%.12g) instead of (%.12Lg,%.12Lg)",f,B.real(),B.imag(),re/n,im/n); }
  return ""; }
static St states(int i){ static const St s[8]={{-1,0,V(0,0,0),V(0,0,5)},{-2,1e-12,V(1e-3,-2e-3,1e-5),V(0.1,-0.2,5.5)},{1,-3e-12,V(-5e-4,1e-3,-3e-4),V(-0.3,0,4)},{-1e6,2e-9,V(0.5,0.25,100),V(1,2,30)},{0,5e-9,V(-2,3,-1),V(0,0,0)},{-1,0,V(0,0,1e-4),V(0,0,-5)},{3.5,1e-12,V(1e-3,-2e-3,100.00001),V(20,0,1e-3)},{-1,1,V(1e3,1e3,1e3),V(1e-6,1e-6,1e4)}}; return s[i]; }
static ChargedParticle* mk(const St&s){ ChargedParticle*p=new ChargedParticle(s.q,1); p->initTrajectory(s.t,s.x,s.p,V(0,0,0)); return p; }
int main(int argc,char**argv){ mc::init(argc,argv); quiet(); int kinds=mc::thorough?8:7,maxn=mc::thorough?5:4;
  // all ordered selections (with repetition) of up to n of the particle states
  for(int n=0;n<=maxn;n++){ long tot=1; for(int i=0;i<n;i++)tot*=kinds; for(long c=0;c<tot;c++)if(mc::begin(mc::F("ens:%d,%ld",n,c))){ Bunch b; std::vector<St> s; long k=c; for(int i=0;i<n;i++,k/=kinds){s.push_back(states(k%kinds));b.Add(mk(s.back()));} mc::trans(); std::string e=cmp(b,s); if(e!="")mc::fail("%s",e.c_str()); mc::H h; h.i(n).i(c); mc::state(h.h); } }
  // a whole beam and larger numbers, all rotations of the order
  for(int n:{7,16,33,64,65,100,128,129,256,257,300,1000,1025})for(int r=0;r<n;r+=n>33?n/7:1)if(mc::begin(mc::F("large:%d,%d",n,r))){ Bunch b; std::vector<St> s; for(int i=0;i<n;i++){int j=(i+r)%n;St a=states(j%7);a.x=a.x+V(1e-3*j,2e-3*j*j,1e-4*j);a.p=a.p+V(0.01*j,0,0.2*(j%200));a.t+=1e-12*j;s.push_back(a);b.Add(mk(a));} mc::trans(); std::string e=cmp(b,s); if(e!="")mc::fail("%s",e.c_str()); }
  // parameters follow every change of the bunch: a add, r replace first, R replace last, v start tracking, s step, m mirror+shift every particle, c copy, k correlation, x clear trajectories
  CodedField F(3e6,0.3); const char*ops="arRvsmkcx"; int depth=mc::thorough?7:6; std::vector<int> seq; std::string id;
  std::function<void(bool,bool,int)> rec=[&](bool trk,bool cleared,int n){
    if(seq.size()>=1&&mc::begin("seq:"+id)){ std::unique_ptr<Bunch> b(new Bunch()); std::vector<ChargedParticle*> ref; std::vector<ChargedParticle*> all; int next=0; auto fresh=[&](){return states(1+(next++)%6);}; std::string e;
      for(char o:id){ mc::trans(); switch(o){ case 'a':{St s=fresh();b->Add(mk(s));ref.push_back(mk(s));break;} case 'r':{St s=fresh();b->replaceParticle(0,mk(s));delete ref[0];ref[0]=mk(s);break;} case 'R':{St s=fresh();b->replaceParticle(ref.size()-1,mk(s));delete ref.back();ref.back()=mk(s);break;} case 'v':b->InitVay(1e-11,&F);for(auto*p:ref)p->InitVay(1e-11,&F);break; case 's':b->StepVay(&F);for(auto*p:ref)p->StepVay(&F);break;
          case 'm':for(int i=0;i<b->getNOP();i++)b->getParticle(i)->Shift(V(0.1,0.2,0.3*i),2);for(size_t i=0;i<ref.size();i++)ref[i]->Shift(V(0.1,0.2,0.3*i),2);break; case 'k':{ b->addCorrelation(2,5,0.7); double m=0; for(auto*p:ref)m+=p->TrajPoint(0).z; m/=ref.size(); for(auto*p:ref){V P=p->TrajMomentum(0);P.z+=0.7*(p->TrajPoint(0).z-m);p->initTrajectory(p->TrajTime(0),p->TrajPoint(0),P,p->TrajAccel(0));} break;} case 'c':{Bunch*c=new Bunch(b.get());b.reset(c);break;} case 'x':b->clearTrajectories();break; }
        std::vector<St> s; for(auto*p:ref)s.push_back({p->getCharge()/ElementaryCharge,p->getTime(),p->getPosition(),p->getMomentum()}); e=cmp(*b,s); if(e!="")break; }
      if(e!="")mc::fail("after %s: %s",id.c_str(),e.c_str()); mc::H h; for(auto*p:ref){hv(h,p->getPosition());hv(h,p->getMomentum());} mc::state(h.h); for(auto*p:ref)delete p; }
    if((int)seq.size()==depth)return; for(int k=0;ops[k];k++){ char o=ops[k]; if(o!='a'&&n==0)continue; if(o=='s'&&!trk)continue; if(o=='v'&&cleared)continue; if(o=='k'&&cleared)continue; if(o=='s'&&cleared)continue; if(o=='a'&&n==3)continue; seq.push_back(k); id+=o; bool t2=trk,c2=cleared; if(o=='a'||o=='r'||o=='R'||o=='k')t2=false; if(o=='v')t2=true; if(o=='x'){c2=true;} if((o=='a'||o=='r'||o=='R'))c2=cleared; rec(t2,c2,n+(o=='a')); seq.pop_back(); id.pop_back(); } };
  rec(false,false,0);
  // beams: totals
  for(int c=0;c<(mc::thorough?4096:512);c++)if(mc::begin(mc::F("beam:%d",c))){ Beam B; double q=0,qa=0; int np=0,nb=0; for(int i=0,k=c;i<(mc::thorough?4:3);i++,k/=8){ Bunch*b=new Bunch(); int n=k%8; for(int j=0;j<n%4;j++){St s=states((n+j*3)%7);b->Add(mk(s));q+=s.q;qa+=fabs(s.q);np++;} if(n<4||n>4||i){B.Add(b);nb++;} else {for(int j=0;j<b->getNOP();j++){double z=b->getParticle(j)->getCharge()/ElementaryCharge;q-=z;np--;} delete b;} } mc::trans(); if(B.getNOB()!=nb||B.getNOP()!=np||!mc::near(B.getTotalCharge(),q*ElementaryCharge,1e-12,qa*ElementaryCharge))mc::fail("beam reports %d bunches %d particles charge %g instead of %d, %d, %g",B.getNOB(),B.getNOP(),B.getTotalCharge(),nb,np,q*ElementaryCharge); }
  for(int n:{13,65,129,300,1025})for(int per:{0,1,3})if(mc::begin(mc::F("bunches:%d,%d",n,per))){ Beam B; double q=0,qa=0; for(int i=0;i<n;i++){ Bunch*b=new Bunch(); for(int j=0;j<per;j++){St s=states((i+j)%7);b->Add(mk(s));q+=s.q;qa+=fabs(s.q);} B.Add(b); } mc::trans(); if(B.getNOB()!=n||B.getNOP()!=n*per||!mc::near(B.getTotalCharge(),q*ElementaryCharge,1e-12,qa*ElementaryCharge))mc::fail("beam of %d bunches with %d particles reports %d bunches %d particles charge %g instead of %g",n,per,B.getNOB(),B.getNOP(),B.getTotalCharge(),q*ElementaryCharge); mc::state(mc::H().i(n).i(per).h); }
  return mc::finish(); }
