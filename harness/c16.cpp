// C16: creation of distributions and bunches (code, deck, file); operations on distributions; correlations
#include "sddsfile.h"
#include "parser.h"
#include "pugixml.hpp"
#include <random>
using namespace fix;
// the random source of the implementation is replaced: the sequence is a function of the harness seed
static unsigned g_seed=1; 
std::random_device::result_type std::random_device::_M_getval(){ g_seed=g_seed*1664525u+1013904223u; unsigned z=g_seed; z^=z>>16; z*=0x85ebca6bu; z^=z>>13; return z; }
typedef std::vector<std::vector<double>> M;   // [particle][dim]
static std::string cmpD(Distribution*d,const M&m,int dim,double rel=1e-14){ if(d->getDIM()!=dim||d->getNOP()!=(int)m.size())return mc::F("reports %d dimensions %d points instead of %d, %d",d->getDIM(),d->getNOP(),dim,(int)m.size()); for(size_t i=0;i<m.size();i++)for(int k=0;k<dim;k++)if(!mc::near(d->getCoordinate(i,k),m[i][k],rel))return mc::F("point %d coordinate %d is %.17g instead of %.17g",(int)i,k,d->getCoordinate(i,k),m[i][k]); return ""; }
static void distributions(){ int depth=mc::thorough?5:4;
  struct Op{std::string n;std::function<void(Distribution*&,M&,int)> f;}; std::vector<Op> ops; static std::string bad;
  auto valid=[](M&m,int D,int k){return k>=0&&k<D;}; (void)valid;
  for(int k:{0,2,-1,99})for(double f:{-2.5})ops.push_back({mc::F("scale(%d)",k),[=](Distribution*&d,M&m,int D){int q=k==99?D:k; d->scale(q,f); if(q>=0&&q<D)for(auto&r:m)r[q]*=f;}});
  for(auto p:std::vector<std::pair<int,int>>{{0,1},{1,0},{0,2},{2,1},{1,1},{-1,0},{0,-1},{99,0},{0,99}})ops.push_back({mc::F("corr(%d,%d)",p.first,p.second),[=](Distribution*&d,M&m,int D){int a=p.first==99?D:p.first,b=p.second==99?D:p.second; d->addCorrelation(a,b,1.75); if(a>=0&&a<D&&b>=0&&b<D&&a!=b)for(auto&r:m)r[b]+=1.75*r[a];}});
  ops.push_back({"set",[=](Distribution*&d,M&m,int D){ int N=m.size(); for(int i=-1;i<=N;i++)for(int k=-1;k<=D;k++)if((i+k)%2||i<0||i==N||k<0||k==D){ d->setCoordinate(i,k,100*i+k+0.5); if(i>=0&&i<N&&k>=0&&k<D)m[i][k]=100*i+k+0.5; } }});
  ops.push_back({"buf",[=](Distribution*&d,M&m,int D){ int n=D*m.size(); std::vector<double> b(n?n:1,-7); try{d->bufferData(b.data(),n);}catch(...){bad="bufferData with the right size throws";} for(size_t i=0;i<m.size();i++)for(int k=0;k<D;k++)if(b[i*D+k]!=d->getCoordinate(i,k))bad="bufferData order"; Distribution*e=new Distribution(D,m.size()); e->fromBuffer(b.data(),n); delete d; d=e; }});
  ops.push_back({"badbuf",[=](Distribution*&d,M&m,int D){ int n=D*m.size(); for(int s:{n-1,n+1,0,2*n})if(s!=n){ std::vector<double> b(2*n+2,-7); int th=0; try{d->fromBuffer(b.data(),s);}catch(IOexception&){th++;} try{d->bufferData(b.data(),s);}catch(IOexception&){th++;} if(th!=2)bad="buffer size mismatch not rejected"; for(double v:b)if(v!=-7)bad="rejected bufferData wrote to the buffer"; } }});
  ops.push_back({"sub",[=](Distribution*&d,M&m,int D){ int N=m.size(); for(int i=-2;i<=N+1;i++)for(int n=0;n<=N+2;n++){ if(N>8&&(i%37>1||n%41>1)&&i+n!=N)continue; Distribution*s=d->subDist(i,n); if(s->getDIM()!=D||s->getNOP()!=n)bad="subset has wrong size"; for(int a=0;a<n;a++)for(int k=0;k<D;k++){double v=s->getCoordinate(a,k); if(i+a>=0&&i+a<N){ if(v!=d->getCoordinate(i+a,k))bad=mc::F("subset(%d,%d) point %d differs from the original",i,n,a);} else if(!(fabs(v)<=1))bad="subset point outside the original is not a valid number"; } delete s; } Distribution*s=d->subDist(N/2,N-N/2); delete d; d=s; m=M(m.begin()+N/2,m.end()); }});
  ops.push_back({"get",[=](Distribution*&d,M&m,int D){ for(int i:{-1,(int)m.size(),1<<30})if(d->getCoordinate(i,0)!=0)bad="index out of range does not give zero"; for(int k:{-1,D,1<<30})if(d->getCoordinate(0,k)!=0)bad="dimension out of range does not give zero"; }});
  ops.push_back({"gauss",[=](Distribution*&d,M&m,int D){ for(int k:{-1,D})d->generateGaussian(k,3.0); int k=D-1; d->generateGaussian(k,0.0); for(auto&r:m)r[k]=0; d->generateGaussian(0,2.0); for(size_t i=0;i<m.size();i++){ double v=d->getCoordinate(i,0); if(!(fabs(v)<20))bad="gaussian value"; m[i][0]=v; } }});
  std::vector<int> seq;
  int full=depth; for(int D:{1,3,6})for(int N:{0,1,3,130,1025}){ depth=N>100?2:full; std::function<void()> rec=[&](){ std::string id; for(int k:seq)id+=mc::F("%d.",k); if((int)seq.size()==depth||seq.size()==1)if(mc::begin(mc::F("dist:%d,%d:",D,N)+id)){ bad=""; Distribution*d=new Distribution(D,N); M m(N,std::vector<double>(D)); for(int i=0;i<N;i++)for(int k=0;k<D;k++){m[i][k]=d->getCoordinate(i,k); if(!(m[i][k]>=-1&&m[i][k]<1))bad="initial value outside [-1,1)";} std::string log;
        for(int k:seq){ log+=ops[k].n+" "; ops[k].f(d,m,D); mc::trans(); std::string c=bad!=""?bad:cmpD(d,m,D,1e-12); if(c!=""){mc::fail("after %s: %s",log.c_str(),c.c_str());break;} } mc::H h; for(auto&r:m)for(double v:r)h.d(v); mc::state(h.h); delete d; }
      if((int)seq.size()==depth)return; if(D==1&&seq.size()>=3)return; for(int k=0;k<(int)ops.size();k++){ seq.push_back(k); rec(); seq.pop_back(); } }; rec(); }
  // initial and gaussian distributions for every seed
  for(int s=0;s<(mc::thorough?64:16);s++)if(mc::begin(mc::F("stat:%d",s))){ g_seed=s*7919+1; int N=6000,D=1+s%7; Distribution d(D,N); for(int k=0;k<D;k++){ double a=0,b=0,mx=-2,mn=2; for(int i=0;i<N;i++){double v=d.getCoordinate(i,k);a+=v;b+=v*v;mx=std::max(mx,v);mn=std::min(mn,v);} a/=N;b/=N; if(fabs(a)>0.05||fabs(b-1.0/3)>0.03||mx>=1||mn< -1||mx<0.98||mn> -0.98)mc::fail("coordinate %d is not uniformly distributed over [-1,1): mean %g mean square %g",k,a,b); }
    for(double sg:{1e-9,2.5}){ int k=s%D; M old(N,std::vector<double>(D)); for(int i=0;i<N;i++)for(int q=0;q<D;q++)old[i][q]=d.getCoordinate(i,q); d.generateGaussian(k,sg); double a=0,b=0,c=0; int in=0; for(int i=0;i<N;i++){double v=d.getCoordinate(i,k)/sg;a+=v;b+=v*v;c+=v*v*v*v; if(fabs(v)<1)in++; for(int q=0;q<D;q++)if(q!=k&&d.getCoordinate(i,q)!=old[i][q])mc::fail("generateGaussian(%d) changes coordinate %d",k,q);} a/=N;b/=N;c/=N; if(fabs(a)>0.08||fabs(b-1)>0.12||fabs(c-3)>0.8||fabs(in/(double)N-0.6827)>0.04)mc::fail("generateGaussian(%g): mean %g variance %g 4th moment %g of sigma",sg,a,b,c); mc::trans(); } }
}
static double co(ChargedParticle*p,int k){ V X=p->TrajPoint(0),P=p->TrajMomentum(0); switch(k){case 0:return X.x;case 1:return X.y;case 2:return X.z;case 3:return P.x;case 4:return P.y;case 5:return P.z;} return p->TrajTime(0); }
static void bunches(){
  // from a distribution
  for(int D=1;D<=8;D++)for(int N:{0,1,2,5,130,1025})for(double q:{-1.0,2.5e6})for(double m:{1.0,1836.0})for(int r=0;r<2;r++)if(mc::begin(mc::F("bunch:%d,%d,%g,%g,%d",D,N,q,m,r))){ Distribution d(D,N); for(int i=0;i<N;i++)for(int k=0;k<D;k++)d.setCoordinate(i,k,0.01*(i+1)*(k+1)*((i+k)%2?-1:1)); V X(0.5*r,-2*r,10*r),P(0,0.1*r,5+r); double t=r*1e-9; Bunch b(&d,t,X,P,q,m); mc::trans(); if(b.getNOP()!=N){mc::fail("%d particles instead of %d",b.getNOP(),N);continue;} double ref[7]={X.x,X.y,X.z,P.x,P.y,P.z,t}; for(int i=0;i<N;i++){ ChargedParticle*p=b.getParticle(i); if(!mc::near(p->getCharge(),q*ElementaryCharge,1e-12))mc::fail("particle charge %g",p->getCharge()); if(p->getNP()!=1){mc::fail("particle %d has %d trajectory points",i,p->getNP());break;} for(int k=0;k<7;k++){ double w=ref[k]+(k<D?0.01*(i+1)*(k+1)*((i+k)%2?-1:1):0); if(!mc::near(co(p,k),w,1e-14,1e-12))mc::fail("particle %d coordinate %d is %g instead of %g",i,k,co(p,k),w); } if(!veq(p->TrajAccel(0),V(0,0,0)))mc::fail("particle %d starts accelerated",i); if(!veq(p->getPosition(),p->TrajPoint(0))||!veq(p->getMomentum(),p->TrajMomentum(0))||p->getTime()!=p->TrajTime(0))mc::fail("current coordinates differ from the start"); 
      // mass: acceleration in a magnetic field
      V Bf(0,1e-3*m/fabs(q),0); HomogeneousField F(V(0,0,0),Bf); ChargedParticle c(p); c.InitVay(1e-13,&F); c.StepVay(&F); V P0=p->TrajMomentum(0),P1=c.getMomentum(); double gma=sqrt(1+P0.abs2nd()); V dP=P1-P0; V w=cross(P0/gma,Bf)*(q/m*ElementaryCharge/(mecsquared*ElementaryCharge/SpeedOfLight/SpeedOfLight)*1e-13); (void)gma; double sc=w.norm(); if(sc>0&&!vclose(dP,w,2e-2,sc))mc::fail("momentum change %s instead of %s for charge %g mass %g",vs(dP).c_str(),vs(w).c_str(),q,m); }
    if(!mc::near(b.getTotalCharge(),N*q*ElementaryCharge,1e-12))mc::fail("total charge"); mc::H h; h.i(D).i(N).d(q).d(m).i(r); mc::state(h.h); }
  for(int N:{0,1,4,257,1025})if(mc::begin(mc::F("plain:%d",N))){ Bunch b(N,-3.0,3.0); if(b.getNOP()!=N)mc::fail("%d particles",b.getNOP()); for(int i=0;i<b.getNOP();i++)if(!mc::near(b.getParticle(i)->getCharge(),-3*ElementaryCharge,1e-12)||b.getParticle(i)->getNP()!=0)mc::fail("particle %d",i); Bunch c(&b); if(c.getNOP()!=N)mc::fail("copy"); }
  // correlations of a bunch: all pairs of indices, pairs of operations
  auto mk=[](int N){ Bunch*b=new Bunch(); for(int i=0;i<N;i++){ ChargedParticle*p=new ChargedParticle(-1,1); p->initTrajectory(1e-12*i,V(1+0.1*i,2-0.3*(i%7)*(i%7),3+0.01*i),V(0.1*i,-0.2+0.05*(i%5)*(i%5)*(i%5),10+i),V(1,2,3)); b->Add(p);} return b; };
  for(int N:{0,1,2,5,130,1025})for(int a=-1;a<=6;a++)for(int d=-1;d<=6;d++)for(int a2=-1;a2<=(N>5?2:5);a2++)for(int d2=0;d2<=(a2<0?0:5);d2++)if(mc::begin(mc::F("bcorr:%d:%d,%d:%d,%d",N,a,d,a2,d2))){ std::unique_ptr<Bunch> b(mk(N)),o(mk(N)); M m(N,std::vector<double>(7)); for(int i=0;i<N;i++)for(int k=0;k<7;k++)m[i][k]=co(o->getParticle(i),k); auto ref=[&](int x,int y,double f){ if(x<0||x>5||y<0||y>5||x==y)return; double s=0; for(auto&r:m)s+=r[x]; s/=N; for(auto&r:m)r[y]+=f*(r[x]-s); }; b->addCorrelation(a,d,-1.5); ref(a,d,-1.5); if(a2>=0){b->addCorrelation(a2,d2,0.7);ref(a2,d2,0.7);} mc::trans(2); for(int i=0;i<N;i++){ ChargedParticle*p=b->getParticle(i); if(p->getNP()!=1){mc::fail("%d trajectory points",p->getNP());break;} for(int k=0;k<7;k++)if(!mc::near(co(p,k),m[i][k],1e-11,1))mc::fail("particle %d coordinate %d is %.15g instead of %.15g",i,k,co(p,k),m[i][k]); if(!veq(p->TrajAccel(0),V(1,2,3)))mc::fail("acceleration changed"); if(!veq(p->getPosition(),p->TrajPoint(0))||!veq(p->getMomentum(),p->TrajMomentum(0)))mc::fail("current coordinates differ from the trajectory"); } mc::H h; for(auto&r:m)for(double v:r)h.d(v); mc::state(h.h); }
}
struct Deck{ pugi::xml_document doc; std::unique_ptr<InputParser> p; Beam beam; std::vector<Logger*> logs; ProbeInfo probe; int n=0; Deck(const std::string&beamxml){ std::string x="<?xml version='1.0'?><teufel>"+beamxml+"</teufel>"; if(!doc.load_string(x.c_str()))mc::fail("harness deck"); p.reset(new InputParser(doc.child("teufel"))); n=p->parseBeam(&beam,&logs,&probe); } ~Deck(){for(auto*l:logs)delete l;} };
static void decks(){
  // single particles
  for(double g:{1.0,1.5,100.0})for(double q:{-1.6021766208e-19,1e-12})for(double cmr:{-1.0,0.5})for(int t=0;t<2;t++)for(int dr=0;dr<3;dr++)if(mc::begin(mc::F("particle:%g,%g,%g,%d,%d",g,q,cmr,t,dr))){ V d=dr==0?V(0,0,1):dr==1?V(0,0,-7):V(1,-2,0.5); Deck k(mc::F("<beam><particle gamma='%.17g' charge='%.17g' cmr='%.17g'>%s<position x='0.1' y='-0.2' z='3*2'/><momentum x='%.17g' y='%.17g' z='%.17g'/></particle></beam>",g,q,cmr,t?"<time t0='2e-9'/>":"",d.x,d.y,d.z)); mc::trans(); if(k.n!=1||k.beam.getNOB()!=1||k.beam.getNOP()!=1){mc::fail("%d bunches %d particles",k.beam.getNOB(),k.beam.getNOP());continue;} ChargedParticle*p=k.beam.getBunch(0)->getParticle(0); V dn=d; dn.normalize(); if(!mc::near(p->getCharge(),q,1e-12))mc::fail("charge %g instead of %g",p->getCharge(),q); if(p->getNP()!=1||p->getTime()!=(t?2e-9:0)||!vclose(p->getPosition(),V(0.1,-0.2,6),1e-14)||!vclose(p->getMomentum(),dn*sqrt(g*g-1),1e-12,1e-12))mc::fail("start t=%g %s %s",p->getTime(),vs(p->getPosition()).c_str(),vs(p->getMomentum()).c_str());
      HomogeneousField F(V(1e3,0,0),V(0,0,0)); V P0=p->getMomentum(); ChargedParticle c(p); c.InitVay(1e-12,&F); c.StepVay(&F); double dp=(c.getMomentum()-P0).x,w=1e3*1e-12*cmr*SpeedOfLight/mecsquared; if(!mc::near(dp,w,1e-6))mc::fail("momentum gain %g instead of %g: charge-to-mass ratio %g not applied",dp,w,cmr); mc::state(mc::H().d(g).d(q).d(cmr).i(t).i(dr).h); }
  // bunches: presence of every rms parameter
  int NP=3000; for(int mask=0;mask<128;mask++)for(int c=0;c<3;c++)if(mc::begin(mc::F("bunchdeck:%d,%d",mask,c))){ g_seed=100+mask*3+c; double rms[6]={0.3e-3,0.5e-3,0.8e-3,0.01,0.02,0.005}; bool ft=mask&64; static const char*nm[6]={"xrms","yrms","zrms","xrms","yrms","delta"}; std::string pa,ma; for(int k=0;k<6;k++)if(mask>>k&1)(k<3?pa:ma)+=mc::F(" %s='%.17g'",nm[k],rms[k]); if(ft)pa+=" zft='0.002'"; V dir=c==0?V(0,0,1):c==1?V(0,0,-2):V(3,0,4); V dn=dir; dn.normalize(); double g=20+c,bg=sqrt(g*g-1),t0=c*1e-10,Q=-1e-10*(1+c),cmr=-1; int n=c==2?1:NP;
      Deck k(mc::F("<beam><bunch gamma='%g' charge='%.17g' cmr='%g'%s>%s<position x='0.01' y='0.02' z='%g'%s/><momentum x='%g' y='%g' z='%g'%s/></bunch></beam>",g,Q,cmr,c==2?"":mc::F(" n='%d'",NP).c_str(),c?mc::F("<time t0='%.17g'/>",t0).c_str():"",0.5*c,pa.c_str(),dir.x,dir.y,dir.z,ma.c_str())); mc::trans(); if(k.n!=1||k.beam.getNOB()!=1||k.beam.getNOP()!=n){mc::fail("%d bunches %d particles instead of %d",k.beam.getNOB(),k.beam.getNOP(),n);continue;} Bunch*b=k.beam.getBunch(0); double ref[7]={0.01,0.02,0.5*c,bg*dn.x,bg*dn.y,bg*dn.z,t0}; if(!mc::near(b->getTotalCharge(),Q,1e-9))mc::fail("total charge %g instead of %g",b->getTotalCharge(),Q); std::vector<double> s1(6,0),s2(6,0),mx(6,0);
      for(int i=0;i<n;i++){ ChargedParticle*p=b->getParticle(i); if(!mc::near(p->getCharge(),Q/n,1e-9)){mc::fail("charge of particle %d",i);break;} if(p->TrajTime(0)!=t0)mc::fail("start time"); for(int q=0;q<6;q++){double o=co(p,q)-ref[q];s1[q]+=o;s2[q]+=o*o;mx[q]=std::max(mx[q],fabs(o));} }
      for(int q=0;q<6;q++){ double r=(mask>>q&1)?rms[q]*(q>2?bg:1):0; bool uni=q==2&&ft; if(uni)r=0.002/sqrt(3.0); s1[q]/=n;s2[q]=sqrt(s2[q]/n); if(r==0){ if(mx[q]>1e-12*std::max(1.0,fabs(ref[q])))mc::fail("coordinate %d spreads by %g although no rms value is given",q,mx[q]); } else if(n==1){ if(mx[q]>(uni?0.002:7*r))mc::fail("coordinate %d of the single particle off by %g (rms %g)",q,mx[q],r); } else { if(!mc::near(s2[q],r,0.08)||fabs(s1[q])>5*r/sqrt(n))mc::fail("coordinate %d has mean %g rms %g instead of rms %g",q,s1[q],s2[q],r); if(uni&&(mx[q]>0.002||mx[q]<0.0019))mc::fail("flat-top length %g",mx[q]); if(!uni&&mx[q]<2.5*r)mc::fail("coordinate %d is not gaussian",q); for(int u=0;u<q;u++){ double cc=0; for(int i=0;i<n;i++)cc+=(co(b->getParticle(i),q)-ref[q])*(co(b->getParticle(i),u)-ref[u]); cc/=n; if(s2[u]>0&&fabs(cc)>0.12*s2[u]*s2[q])mc::fail("coordinates %d and %d are correlated",u,q);} } } mc::state(mc::H().i(mask).i(c).h); }
  // correlations in the deck: dependent coordinates without own spread follow exactly; sequences of two in order
  for(int a=-1;a<=6;a++)for(int d=-1;d<=6;d++)for(int a2=0;a2<=5;a2++)for(int d2=-1;d2<=5;d2++){ if(d2<0&&a2)continue; if(!mc::begin(mc::F("deckcorr:%d,%d:%d,%d",a,d,a2,d2)))continue; g_seed=77; double f1=2.5,f2=-0.5; std::string cx=mc::F("<linear indep='%d' dep='%d' factor='5/2'/>",a,d)+(d2>=0?mc::F("<linear indep='%d' dep='%d' factor='-0.5'/>",a2,d2):""); const char*body="<position x='0' y='0' z='0' xrms='1' zft='0.5'/><momentum x='0' y='0' z='1' yrms='1'/>"; double bg=2; // spread in 0, 2 (flat), 4
      auto deck=[&](const std::string&c){return mc::F("<beam><bunch gamma='%.17g' charge='-1e-12' cmr='-1' n='7'>%s%s</bunch></beam>",sqrt(bg*bg+1),body,c.c_str());}; g_seed=5; Deck base(deck("")); g_seed=5; Deck k(deck("<correlations>"+cx+"</correlations>")); mc::trans(2); if(k.beam.getNOP()!=7){mc::fail("particles");continue;} M m(7,std::vector<double>(6)),got=m; for(int i=0;i<7;i++)for(int q=0;q<6;q++){m[i][q]=co(base.beam.getBunch(0)->getParticle(i),q)-(q==5?bg:0);got[i][q]=co(k.beam.getBunch(0)->getParticle(i),q)-(q==5?bg:0);}
      auto ref=[&](int x,int y,double f){ if(x<0||x>5||y<0||y>5||x==y)return; for(auto&r:m)r[y]+=f*r[x]; }; ref(a,d,f1); if(d2>=0)ref(a2,d2,f2); for(int q=0;q<6;q++){ // up to a common offset (mean-free convention)
        double off=got[0][q]-m[0][q]; for(int i=0;i<7;i++)if(!mc::near(got[i][q]-off,m[i][q],1e-9,1))mc::fail("coordinate %d of particle %d is %g instead of %g",q,i,got[i][q],m[i][q]); if(!(fabs(off)<1e-9)&&q!=d&&q!=d2)mc::fail("coordinate %d is shifted by %g although it is not dependent",q,off); } mc::H h; h.i(a).i(d).i(a2).i(d2); mc::state(h.h); }
}
static void files(){ static const V dirs[]={V(0,0,1),V(0,0,3),V(1,0,0),V(-1,0,0),V(0,0,-1),V(1,0,1),V(0,1,0),V(0.3,-0.8,0.5),V(0.9,0.1,0.2)};
  for(int N:{0,1,2,5,64,257})for(int di=0;di<9;di++)for(int as=0;as<2;as++)for(int tv=0;tv<2;tv++)for(int route=0;route<2;route++)if(mc::begin(mc::F("sdds:%d,%d,%d,%d,%d",N,di,as,tv,route))){ std::string fn=mc::work+"/b.sdds"; V dir=dirs[di]; V dn=dir; dn.normalize(); double Q=3e-12; std::vector<Col> c={{"x",{}},{"xp",{}},{"y",{}},{"yp",{}},{"p",{}},{"t",{}},{"extra",{}}}; double tm=0; for(int i=0;i<N;i++){ double v[7]={1e-3*(i+1),0.01*((i-1)%40),-2e-3*i+1e-4,-0.02*(i%30)+0.005,30.0+i,tv?1e-9+1e-12*i*i:5e-9,42}; for(int k=0;k<7;k++)c[k].v.push_back(v[k]); tm+=v[5]; } if(N)tm/=N; if(tv)std::rotate(c.begin(),c.begin()+3,c.end()); sddsWrite(fn,N,Q,c,as); std::map<std::string,std::vector<double>> m; for(auto&k:c)m[k.name]=k.v;
      std::unique_ptr<Bunch> own; std::unique_ptr<Deck> dk; Bunch*b; mc::trans(); if(route==0){own.reset(new Bunch(fn.c_str(),dir));b=own.get();} else { dk.reset(new Deck(mc::F("<beam><SDDS file='%s'>%s</SDDS></beam>",fn.c_str(),di?mc::F("<dir x='%g' y='%g' z='%g'/>",dir.x,dir.y,dir.z).c_str():""))); if(dk->beam.getNOB()!=1){mc::fail("%d bunches",dk->beam.getNOB());continue;} b=dk->beam.getBunch(0); }
      if(b->getNOP()!=N){mc::fail("%d particles instead of %d",b->getNOP(),N);continue;} if(N&&!mc::near(b->getTotalCharge(),-Q,1e-9))mc::fail("total charge %g instead of %g",b->getTotalCharge(),-Q);
      // transverse axes: as documented for the z direction, otherwise any left-handed orthonormal set with s along dir and x in the plane of x (or z) and dir
      std::vector<std::pair<V,V>> axes; if(dn.z>0.999999)axes={{V(1,0,0),V(0,-1,0)}}; else for(int w=0;w<2;w++)for(int sgn=-1;sgn<=1;sgn+=2){ V ex=(w?V(1,0,0):V(0,0,1))*(double)sgn; ex-=dn*dot(ex,dn); if(ex.norm()<1e-3)continue; ex.normalize(); axes.push_back({ex,cross(ex,dn)}); }
      std::string why="no axes"; bool ok=false; for(auto&ax:axes){ std::string e; for(int i=0;i<N;i++){ ChargedParticle*p=b->getParticle(i); double pp=m["p"][i]; V d=ax.first*m["xp"][i]+ax.second*m["yp"][i]+dn; d.normalize(); V P=d*pp; V v=d*(pp/sqrt(pp*pp+1)); V X=ax.first*m["x"][i]+ax.second*m["y"][i]+v*((tm-m["t"][i])*SpeedOfLight); if(!mc::near(p->getCharge(),-Q/N,1e-9))e="particle charge"; else if(p->getNP()!=1||p->getTime()!=0)e="start time is not 0"; else if(!vclose(p->getMomentum(),P,1e-10))e=mc::F("particle %d momentum %s instead of %s",i,vs(p->getMomentum()).c_str(),vs(P).c_str()); else if(!vclose(p->getPosition(),X,1e-9,1e-6))e=mc::F("particle %d position %s instead of %s",i,vs(p->getPosition()).c_str(),vs(X).c_str()); if(e!="")break; } if(e==""){ok=true;break;} why=e; } if(!ok)mc::fail("%s",why.c_str()); mc::state(mc::H().i(N).i(di).i(as).i(tv).i(route).h); }
  // long file names
  for(int L:{60,97,98,99,100,101,102,130,200})if(mc::begin(mc::F("longname:%d",L))){ std::string fn=mc::work+"/"; if((int)fn.size()>=L-2){continue;} while((int)fn.size()<L)fn+='f'; sddsWrite(fn,2,1e-12,{{"x",{1,2}},{"xp",{0,0}},{"y",{0,0}},{"yp",{0,0}},{"p",{3,4}},{"t",{0,0}}}); Bunch b(fn.c_str(),V(0,0,1)); mc::trans(); if(b.getNOP()!=2)mc::fail("%d particles read from a file with a name of %d characters",b.getNOP(),L); unlink(fn.c_str()); }
  // incomplete or inconsistent files give an empty bunch
  static const char*all[]={"x","xp","y","yp","p","t"}; for(int w=0;w<14;w++)if(mc::begin(mc::F("badfile:%d",w))){ std::string fn=mc::work+"/bad.sdds"; std::vector<Col> c; for(int k=0;k<6;k++)if(k!=w)c.push_back({all[k],{1,2,3}}); int np=3; const char*a="Particles",*q="Charge"; bool exists=true; if(w==6)a=0; if(w==7)q=0; if(w==8)np=4; if(w==9)np=100000; if(w==10)np=-1; if(w==11){exists=false;} sddsWrite(fn,np,1e-12,c,false,a,q); if(w==11)unlink(fn.c_str()); if(w==12){FILE*f=fopen(fn.c_str(),"w");fputs("no such format\n",f);fclose(f);} if(w==13){FILE*f=fopen(fn.c_str(),"w");fclose(f);} Bunch b(fn.c_str(),V(0,0,1)); mc::trans(); if(b.getNOP()!=0)mc::fail("%d particles instead of an empty bunch",b.getNOP()); SDDS_ClearErrors(); mc::state(w); }
}
int main(int argc,char**argv){ mc::init(argc,argv); quiet(); distributions(); bunches(); decks(); files(); return mc::finish(); }
