// C06: retarded fields: every trajectory shape/length x observer x observation time against an exact light-cone search
#include "teu.h"
struct T{std::vector<double> t; std::vector<V> x,p,a;};
static double arr(const T&T_,int i,V o){return T_.t[i]+(o-(V)T_.x[i]).norm()/SpeedOfLight;}
// reference: uniform motion before first point (exact), linear interpolation between points, none after
struct Src{bool any; V x,p,a; int seg; double f;};
static Src at(const T&T_,int s,double f){ Src r; r.any=true; r.seg=s;r.f=f; V X1=T_.x[s],X2=T_.x[s+1],P1=T_.p[s],P2=T_.p[s+1],A1=T_.a[s],A2=T_.a[s+1]; r.x=X1*(1-f)+X2*f; r.p=P1*(1-f)+P2*f; r.a=A1*(1-f)+A2*f; return r;}
static Src find(const T&T_,V o,double t){
  int n=T_.t.size(); Src r; r.any=false; if(t>arr(T_,n-1,o))return r;
  if(t<=arr(T_,0,o)){ V X=T_.x[0],P=T_.p[0]; V b=P/std::sqrt(1+P.abs2nd()); // bisection on emission time tau<=t0
    double hi=T_.t[0],w=1e-9; auto g=[&](double tau){return tau+(o-(X+b*(SpeedOfLight*(tau-T_.t[0])))).norm()/SpeedOfLight-t;}; double lo=hi-w; while(g(lo)>0){w*=2;lo=hi-w; if(w>1e3)break;} for(int i=0;i<200;i++){double m=0.5*(lo+hi); if(m==lo||m==hi)break; if(g(m)>0)hi=m; else lo=m;} double tau=0.5*(lo+hi); r.any=true;r.seg=-1;r.f=0;r.x=X+b*(SpeedOfLight*(tau-T_.t[0]));r.p=P;r.a=V(); return r; }
  for(int s=0;s+1<n;s++) if(t>arr(T_,s,o)&&t<=arr(T_,s+1,o)){ double lo=0,hi=1; auto g=[&](double f){Src q=at(T_,s,f); double tt=T_.t[s]*(1-f)+T_.t[s+1]*f; return tt+(o-q.x).norm()/SpeedOfLight-t;}; for(int i=0;i<100;i++){double m=0.5*(lo+hi); if(g(m)>0)hi=m; else lo=m;} return at(T_,s,0.5*(lo+hi)); }
  return r; }
int main(int argc,char**argv){
  mc::init(argc,argv);
  // trajectory generators by kind; time step h
  auto gen=[&](int kind,int n,double t0)->T{ T r; double h=1e-10; CodedField F(2e7,0.5); 
    V x0(0.02,-0.01,0.03); V p0; switch(kind){case 0:p0=V();break;case 1:p0=V(0.1,0.05,0.6);break;case 2:p0=V(0,0,5);break;case 3:p0=V(0.3,-0.4,1.5);break;case 4:p0=V(-0.2,0.1,0.4);break;default:p0=V(0.02,0.01,20);}
    if(kind==3||kind==4){ ChargedParticle c(-1,1); c.initTrajectory(t0,x0,p0,V()); c.InitVay(h,&F); for(int i=1;i<n;i++)c.StepVay(&F); for(int i=0;i<n;i++){r.t.push_back(c.TrajTime(i));r.x.push_back(c.TrajPoint(i));r.p.push_back(c.TrajMomentum(i));r.a.push_back(c.TrajAccel(i));} }
    else for(int i=0;i<n;i++){ V b=p0/std::sqrt(1+p0.abs2nd()); r.t.push_back(t0+h*(i+(kind==1?0.4*(i%2):0.0))); r.x.push_back(x0+b*(SpeedOfLight*(r.t[i]-t0))); r.p.push_back(p0); r.a.push_back(kind==5?V(1e9*(i+1),-5e8,2e8):V()); }
    return r; };
  std::vector<V> obs={V(0,0,3),V(0.5,0.4,1),V(-0.3,0.2,-2),V(1,-1,0.1),V(0.02,0.2,0.05),V(-0.15,-0.01,0.2),V(0.4,0,20),V(3,4,0)};
  int maxn=mc::thorough?17:9;
  std::vector<int> lens; for(int n=1;n<=maxn;n++)lens.push_back(n); for(int n:{33,65,130,300,1025,2100})lens.push_back(n);
  for(int kind=0;kind<6;kind++)for(int n:lens)for(double t0:{0.0,1e-9,-2e-9,3.3e-8})for(size_t io=0;io<obs.size();io++){
    if(n>17&&(io%3!=1||(n>300&&(kind<2||t0!=1e-9))||(n>65&&t0<0)))continue;
    if(!mc::begin(mc::F("lw:kind=%d,n=%d,t0=%g,obs=%d",kind,n,t0,(int)io)))continue;
    T tr=gen(kind,n,t0); V o=obs[io];
    ChargedParticle c(-2,1); c.initTrajectory(tr.t[0],tr.x[0],tr.p[0],tr.a[0]); for(int i=1;i<n;i++)c.storeTrajectoryPoint(tr.t[i],tr.x[i],tr.p[i],tr.a[i]);
    std::vector<std::pair<std::string,double>> times; double A0=arr(tr,0,o),A1=arr(tr,n-1,o); double span=n>1?A1-A0:1e-10;
    for(double d:{1e-13,1e-11,1e-10,7e-10,3e-9,1e-7})times.push_back({mc::F("before-%g",d),A0-d});
    for(int i=0;i<n;i++){ double a=arr(tr,i,o); if(i){times.push_back({mc::F("node%d-",i),a-1e-15});} if(i+1<n){times.push_back({mc::F("node%d+",i),a+1e-15}); double b=arr(tr,i+1,o); for(double f:{0.1,0.5,0.83})times.push_back({mc::F("seg%d@%g",i,f),a+(b-a)*f});} }
    if(n>1)times.push_back({"node0",A0-1e-16});
    for(double d:{1e-3,0.5,10.0})times.push_back({mc::F("after+%g",d),A1+span*d+1e-15});
    for(auto&tm:times){ double t=tm.second; Src s=find(tr,o,t); ElMagField f=c.RetardedField(t,o); mc::trans(); 
      // within 1e-16 s of a node either neighbour may serve: both are evaluated below through the tolerance window
      if(!s.any){ if(!f.isNull()){ if(t<A1+1e-17)continue; mc::fail("%s: field %s although nothing emitted can arrive",tm.first.c_str(),fs(f).c_str());break;} mc::outcome(0); continue; }
      ElMagField e=LW(-2,s.x,s.p,s.a,o); double tolE=1e-6*e.E().norm(),tolB=1e-6*std::max(e.B().norm(),1e-3*e.E().norm()/SpeedOfLight);
      auto win=[&](Src q){ElMagField w=LW(-2,q.x,q.p,q.a,o);tolE=std::max(tolE,(w.E()-e.E()).norm());tolB=std::max(tolB,(w.B()-e.B()).norm());};
      if(s.seg>=0){ double d=5e-5; win(at(tr,s.seg,std::max(0.0,s.f-d)));win(at(tr,s.seg,std::min(1.0,s.f+d))); }
      if(!((f.E()-e.E()).norm()<=tolE&&(f.B()-e.B()).norm()<=tolB)){ // near a node accept the neighbouring segment's value
        bool ok=false; for(double dt:{-3e-15,3e-15}){ if(std::fabs(t-A0)>2e-15&&tm.first.compare(0,4,"node"))break; Src q=find(tr,o,t+dt); ElMagField w; if(q.any)w=LW(-2,q.x,q.p,q.a,o); if((f.E()-w.E()).norm()<=std::max(tolE,1e-3*w.E().norm()))ok=true; if(!q.any&&f.isNull())ok=true; }
        if(!ok){mc::fail("%s (t=%.17g, segment %d, fraction %g): field %s expected %s",tm.first.c_str(),t,s.seg,s.f,fs(f).c_str(),fs(e).c_str());break;} }
      mc::H h; h.i(kind).i(s.seg).d(e.E().x).d(e.B().y); mc::state(h.h); }
    if(n==5&&io==1&&kind==3)mc::sample(mc::F("kind 3, 5 points, t0=%g, %d observation times around %s",t0,(int)times.size(),vs(o).c_str()));
    // embedding: dropping points that do not bracket the emission must not change the field
    if(n>=3&&!mc::failed()) for(int i=0;i+1<n;i++){ double t=arr(tr,i,o)+(arr(tr,i+1,o)-arr(tr,i,o))*0.37; ChargedParticle k(-2,1); k.initTrajectory(tr.t[i],tr.x[i],tr.p[i],tr.a[i]); k.storeTrajectoryPoint(tr.t[i+1],tr.x[i+1],tr.p[i+1],tr.a[i+1]); ElMagField a=c.RetardedField(t,o),b=k.RetardedField(t,o); mc::trans(2); if(!fclose_(a,b,1e-7)){mc::fail("field from segment %d depends on other points: %s vs %s",i,fs(a).c_str(),fs(b).c_str());break;} }
    // sums over bunches and beams see the same field
    if(!mc::failed()){ Beam be; Bunch*b=new Bunch(); b->Add(new ChargedParticle(&c)); be.Add(b); double t=A0+0.4*(A1-A0)-1e-12; ElMagField a=c.RetardedField(t,o); if(!fclose_(a,be.RetardedField(t,o),1e-12)||!fclose_(a,b->RetardedField(t,o),1e-12))mc::fail("field through bunch/beam differs"); mc::trans(2);} 
  }
  // the field depends on the recorded trajectory only, not on former queries or on how the trajectory came about
  { int depth=mc::thorough?6:4; std::vector<int> seq; const char*nm="eqlasmircA"; V o1(0,0,3),o2(-0.3,0.2,-2); std::function<void()> rec=[&]{ if(!seq.empty()){ std::string id="hist:"; for(int k:seq)id+=nm[k]; if(mc::begin(id)){
      std::unique_ptr<ChargedParticle> c(new ChargedParticle(-2,1)); CodedField F(2e7,0.5); c->initTrajectory(1e-9,V(0.02,-0.01,0.03),V(0.3,-0.4,1.5),V()); c->InitVay(1e-10,&F); for(int i=0;i<3;i++)c->StepVay(&F); auto A=[&](int i,V o){return c->TrajTime(i)+(o-c->TrajPoint(i)).norm()/SpeedOfLight;};
      std::vector<int> all=seq; all.insert(all.begin(),1); bool trk=true; for(int k:all){ int n=c->getNP(); mc::trans(); switch(nm[k]){
        case 'e': c->RetardedField(A(0,o1)-1e-9,o1); c->RetardedField(A(0,o2)+1e-12,o2); break;
        case 'q': c->RetardedField(0.5*(A(0,o1)+A(n-1,o1)),o1); break;
        case 'l': c->RetardedField(A(n-1,o1)-1e-13,o1); c->RetardedField(A(n-1,o2)+1e-9,o2); break;
        case 'a': c->storeTrajectoryPoint(c->TrajTime(n-1)+1e-10,c->TrajPoint(n-1)+V(0.005,0,0.01),V(0.4,0.1,1),V(1e9,0,0)); trk=false; break;
        case 's': if(trk){c->StepVay(&F);c->StepVay(&F);} break;
        case 'm': c->Mirror(V(0,0,0.1),V(0,0.6,0.8),-1.0); trk=false; break;
        case 'i': c->initTrajectory(2e-9,V(0.01,0.02,-0.03),V(-0.2,0.1,2.4),V()); trk=false; break;
        case 'r': c->initTrajectory(1e-9,V(0.02,-0.01,0.03),V(0.3,-0.4,1.5),V()); c->InitVay(1e-10,&F); for(int i=0;i<6;i++)c->StepVay(&F); trk=true; break;
        case 'c': c.reset(new ChargedParticle(c.get())); break;
        case 'A': c->Shift(V(0.01,0.02,-0.03),0.5); break; } }
      // a particle given the same points in one go, queried once
      int n=c->getNP(); double q=c->getCharge()/ElementaryCharge; mc::H h; std::vector<double> fr={-0.7,0.02,0.3,0.5,0.77,0.99,1.2}; for(int rev=0;rev<2&&!mc::failed();rev++)for(size_t j=0;j<fr.size()&&!mc::failed();j++)for(V o:{o1,o2}){ double f=fr[rev?fr.size()-1-j:j]; double t=n>1?A(0,o)+f*(A(n-1,o)-A(0,o)):A(0,o)-1e-10*f; ChargedParticle k(q,1); k.initTrajectory(c->TrajTime(0),c->TrajPoint(0),c->TrajMomentum(0),c->TrajAccel(0)); for(int i=1;i<n;i++)k.storeTrajectoryPoint(c->TrajTime(i),c->TrajPoint(i),c->TrajMomentum(i),c->TrajAccel(i));
        ElMagField a=c->RetardedField(t,o),b=k.RetardedField(t,o); mc::trans(2); h.d(a.E().x); if(!fclose_(a,b,1e-9))mc::fail("query %g at %s: %s instead of %s",f,vs(o).c_str(),fs(a).c_str(),fs(b).c_str()); } mc::state(h.h); } }
    if((int)seq.size()<depth)for(int k=0;k<10;k++){seq.push_back(k);rec();seq.pop_back();} }; rec(); }
  // one query repeated at the same time and place while the trajectory changes
  { int depth=mc::thorough?4:3; std::vector<int> seq; const char*nm="asmirctA"; std::function<void()> rec=[&]{ if(!seq.empty()){ std::string id="again:"; for(int k:seq)id+=nm[k]; if(mc::begin(id))for(int w=0;w<10&&!mc::failed();w++){ V o=w%2?V(0,0,3):V(-0.3,0.2,-2); double t=1e-9+(w%2?3.0:2.0)/SpeedOfLight+(w/2-1.5)*2.5e-10; CodedField F(2e7,0.5);
      std::unique_ptr<ChargedParticle> c(new ChargedParticle(-2,1)); auto start=[&](V u){ c->initTrajectory(1e-9,V(0.02,-0.01,0.03),u,V()); c->InitVay(1e-10,&F); for(int i=0;i<6;i++)c->StepVay(&F); }; start(V(0.3,-0.4,1.5)); bool trk=true; std::vector<int> all=seq; all.insert(all.begin(),-1);
      std::vector<std::pair<ElMagField,std::unique_ptr<ChargedParticle>>> seen; for(int k:all){ int n=c->getNP(); if(k>=0)switch(nm[k]){
        case 'a': c->storeTrajectoryPoint(c->TrajTime(n-1)+1e-10,c->TrajPoint(n-1)+V(0.005,0,0.01),V(0.4,0.1,1),V(1e9,0,0)); trk=false; break;
        case 's': if(trk)c->StepVay(&F); break;
        case 'm': c->Mirror(V(0,0,0.1),V(0,0.6,0.8),-1.0); trk=false; break;
        case 'i': c->initTrajectory(2e-9,V(0.01,0.02,-0.03),V(-0.2,0.1,2.4),V()); trk=false; break;
        case 'r': start(V(-0.3,0.4,-1.5)); trk=true; break;
        case 'c': c.reset(new ChargedParticle(c.get())); break;
        case 't': start(V(2.0,0.4,0.1)); trk=true; break;
        case 'A': c->Shift(V(0.01,0.02,-0.06),0.5); trk=false; break; }
        n=c->getNP(); std::unique_ptr<ChargedParticle> f(new ChargedParticle(c->getCharge()/ElementaryCharge,1)); f->initTrajectory(c->TrajTime(0),c->TrajPoint(0),c->TrajMomentum(0),c->TrajAccel(0)); for(int i=1;i<n;i++)f->storeTrajectoryPoint(c->TrajTime(i),c->TrajPoint(i),c->TrajMomentum(i),c->TrajAccel(i));
        ElMagField a=c->RetardedField(t,o); mc::trans(); seen.emplace_back(a,std::move(f)); }
        // compared afterwards: no other particle is queried in between
        for(size_t i=0;i<seen.size();i++){ ElMagField a=seen[i].first; seen[i].second->RetardedField(t+1e-15,o); ElMagField b=seen[i].second->RetardedField(t,o); mc::H h; h.d(a.E().x).d(a.B().y); mc::state(h.h); if(!fclose_(a,b,1e-9)){mc::fail("query %d after %c: %s instead of %s",w,i?nm[all[i]]:'-',fs(a).c_str(),fs(b).c_str());break;} } }
      }
    if((int)seq.size()<depth)for(int k=0;k<8;k++){seq.push_back(k);rec();seq.pop_back();} }; rec(); }
  if(mc::begin("noinit")){ ChargedParticle c; bool th=false; try{c.RetardedField(0.0,V(1,1,1));}catch(std::exception&){th=true;} if(!th)mc::fail("uninitialised particle yields a field instead of an error"); }
  return mc::finish();
}
