// C03: transfer of particles and beams through buffers
#include "refparticle.h"
#include "global.h"
struct Op{std::string n; std::function<bool(RefParticle&)> enabled; std::function<ChargedParticle*(ChargedParticle*)> impl; std::function<void(RefParticle&)> ref;};
static const double PAT=-3.25e77;
// exact heap buffer with guard pattern; ASan catches overruns
static std::vector<double> pat(size_t n){return std::vector<double>(n,PAT);}
static std::string gbad;
static ChargedParticle* viaSer(ChargedParticle*c){ std::unique_ptr<double[]> b(new double[PARTICLE_SERIALIZE_BUFSIZE]); for(int i=0;i<PARTICLE_SERIALIZE_BUFSIZE;i++)b[i]=PAT; c->serialize(b.get()); for(int i=0;i<PARTICLE_SERIALIZE_BUFSIZE;i++)if(b[i]==PAT)gbad=mc::F("serialize left element %d unwritten",i); ChargedParticle*n=new ChargedParticle(b.get()); delete c; return n; }
static ChargedParticle* viaTraj(ChargedParticle*c,int pre){ int sz=c->TrajBufSize(); std::unique_ptr<double[]> b(new double[sz]); for(int i=0;i<sz;i++)b[i]=PAT; c->serializeTraj(b.get()); for(int i=0;i<sz;i++)if(b[i]==PAT)gbad=mc::F("serializeTraj left element %d of %d unwritten",i,sz); if(sz!=9+10*c->getNP())gbad="TrajBufSize"; int np=c->getNP(); delete c; ChargedParticle*n=new ChargedParticle(b.get(),np,pre); return n; }
static void seqs(){
  static CodedField F(3e6,0.4); static CodedField G(-1e6,0.1);
  std::vector<Op> ops; auto any=[](RefParticle&){return true;}; auto has=[](RefParticle&r){return !r.tr.empty();}; auto trk=[](RefParticle&r){return r.tracking&&!r.tr.empty();};
  auto add=[&](std::string n,std::function<bool(RefParticle&)> e,std::function<ChargedParticle*(ChargedParticle*)> i,std::function<void(RefParticle&)> r){ops.push_back({n,e,i,r});};
  static V x1(0.1,-0.2,0.3),p1(0.5,1.5,-4.0),a1(1e8,2e8,-3e8);
  add("i",any,[](ChargedParticle*c){c->initTrajectory(1e-9,x1,p1,a1);return c;},[](RefParticle&r){r.init(1e-9,x1,p1,a1);});
  add("v",has,[](ChargedParticle*c){c->InitVay(1e-10,&F);return c;},[](RefParticle&r){r.initvay(1e-10,&F);});
  add("s",trk,[](ChargedParticle*c){c->StepVay(&F);return c;},[](RefParticle&r){r.step(&F);});
  add("g",trk,[](ChargedParticle*c){c->StepVay(&G);return c;},[](RefParticle&r){r.step(&G);});
  add("p",any,[](ChargedParticle*c){c->storeTrajectoryPoint(5e-9,V(7,8,9),V(1,2,3),V(4,5,6));return c;},[](RefParticle&r){r.tr.push_back({5e-9,V(7,8,9),V(1,2,3),V(4,5,6)});});
  add("e",any,[](ChargedParticle*c){c->setCurrentPoint(6e-9,V(-7,-8,-9),V(3,2,1),V(6,5,4));return c;},[](RefParticle&r){r.cur={6e-9,V(-7,-8,-9),V(3,2,1),V(6,5,4)};});
  add("x",any,[](ChargedParticle*c){c->clearTrajectory();return c;},[](RefParticle&r){r.tr.clear();});
  add("h",any,[](ChargedParticle*c){c->Shift(V(0.5,-0.25,2.0),0.5);return c;},[](RefParticle&r){r.shift(V(0.5,-0.25,2.0),0.5);});
  add("A",any,[](ChargedParticle*c){c->preAllocate(c->getNP()+3);return c;},[](RefParticle&r){});
  // transfers
  add("C",any,[](ChargedParticle*c){ChargedParticle*n=new ChargedParticle(c);delete c;return n;},[](RefParticle&r){});
  add("R",has,[](ChargedParticle*c){return viaSer(c);},[](RefParticle&r){Pt l=r.tr.back();r.init(l.t,l.x,l.p,l.a);r.E=V();r.B=V();});
  add("T",any,[](ChargedParticle*c){return viaTraj(c,0);},[](RefParticle&r){ if(r.tr.empty())r.cur={0,V(),V(),V()};else r.cur=r.tr.back(); r.fieldsKnown=false;});
  add("U",any,[](ChargedParticle*c){int n=c->getNP();ChargedParticle*k=viaTraj(c,n+2); if(k->getNpre()!=n+2)gbad="restored particle does not report the requested pre-allocation"; return k;},[](RefParticle&r){ if(r.tr.empty())r.cur={0,V(),V(),V()};else r.cur=r.tr.back(); r.fieldsKnown=false;});
  int depth=mc::thorough?7:5; std::vector<int> seq;
  std::function<void(RefParticle)> rec=[&](RefParticle r){
    std::string id; bool tr=false; for(int k:seq){id+=ops[k].n; if(k>=9)tr=true;}
    if(tr&&mc::begin("seq:"+id)){ gbad=""; ChargedParticle*c=new ChargedParticle(-2.0,3.0); for(int k:seq){c=ops[k].impl(c);mc::trans();} mc::H h; RefParticle rr=r; std::string d=gbad!=""?gbad:compareParticle(c,rr,1e-11,&h);
      if(d!="")mc::fail("after ops %s: %s",id.c_str(),d.c_str()); mc::state(h.h); if(seq.size()==5&&id=="ivsTs")mc::sample(id+" -> x="+vs(c->getPosition())); delete c; }
    if((int)seq.size()==depth)return;
    for(int k=0;k<(int)ops.size();k++) if(ops[k].enabled(r)){ RefParticle n=r; ops[k].ref(n); seq.push_back(k); rec(n); seq.pop_back(); }
  };
  { RefParticle r(-2.0,3.0); rec(r); }
  // copies leave the original alone and are independent of it
  for(int n:{0,1,2,3,4,5,6,33,129,300,1025}) for(int pre=0;pre<3;pre++) for(int how=0;how<4;how++){ if(how==3&&n==0)continue; if(!mc::begin(mc::F("indep:%d,%d,%d",n,pre,how)))continue;
    ChargedParticle*c=pre==2?new ChargedParticle(-2.0,3.0,n+5):new ChargedParticle(-2.0,3.0); if(pre==1)c->preAllocate(2); RefParticle r(-2.0,3.0);
    if(n>0){c->initTrajectory(1e-9,x1,p1,a1);r.init(1e-9,x1,p1,a1); if(n>1){c->InitVay(1e-10,&F);r.initvay(1e-10,&F); for(int i=2;i<=n;i++){c->StepVay(&F);r.step(&F);}}}
    ChargedParticle*k=0; std::vector<double> buf; int pc=c->getNP()<1?0:c->getNP();
    if(how==0)k=new ChargedParticle(c); else if(how==3){buf=pat(12);c->serialize(buf.data());k=new ChargedParticle(buf.data());} else {buf=pat(c->TrajBufSize());c->serializeTraj(buf.data());k=new ChargedParticle(buf.data(),pc,how==1?0:pc+4);}
    RefParticle rk=r; if(how){rk.fieldsKnown=false;} if(how==3){Pt l=r.tr.back();rk.init(l.t,l.x,l.p,l.a);rk.E=V();rk.B=V();rk.fieldsKnown=true;} if((how==1||how==2)&&n==0)rk.cur={0,V(),V(),V()};
    mc::H h; std::string d=compareParticle(c,r,1e-11,&h); if(d!="")mc::fail("original changed by transfer: %s",d.c_str()); d=compareParticle(k,rk,1e-11); if(d!="")mc::fail("restored differs: %s",d.c_str());
    if(n>1&&!mc::failed()&&how!=3){ for(int i=0;i<3;i++){k->StepVay(&F);rk.step(&F);} d=compareParticle(c,r,1e-11); if(d!="")mc::fail("original changed by tracking the copy: %s",d.c_str()); c->StepVay(&G); r.step(&G); d=compareParticle(k,rk,1e-10); if(d!="")mc::fail("continuation differs: %s",d.c_str()); mc::trans(4);
      mc::H h2; d=compareParticle(c,r,1e-11,&h2); if(d!="")mc::fail("original: %s",d.c_str()); mc::state(h2.h); }
    delete c; d=compareParticle(k,rk,1e-10); if(d!="")mc::fail("restored changed after deleting the original: %s",d.c_str()); mc::state(h.h); delete k; }
}
static double val(int b,int p,int k,int s){return 1000*b+100*p+10*s+k+0.5;}
static void beams(){
  CodedField F(2e6,0.3);
  // all structures: up to 3 (4) bunches of 0..3 particles
  int maxb=mc::thorough?5:4; std::vector<std::vector<int>> S; std::function<void(std::vector<int>)> gen=[&](std::vector<int> s){S.push_back(s); if((int)s.size()<maxb)for(int n=0;n<=3;n++){auto t=s;t.push_back(n);gen(t);}}; gen({}); S.push_back({300}); S.push_back(std::vector<int>(70,1)); S.push_back({0,65,1,130,0,17});
  for(auto&s:S){ std::string id="beam:"; for(int n:s)id+=std::to_string(n); if(!mc::begin(id))continue;
    auto mk=[&](Beam&B){ for(size_t b=0;b<s.size();b++){ Bunch*u=new Bunch(); for(int p=0;p<s[b];p++){ ChargedParticle*c=new ChargedParticle(-1.0-b,1.0+p); V x(val(b,p,1,0),val(b,p,2,0),val(b,p,3,0)),q(b+0.1*p,0.5-p,10+b),a(val(b,p,7,0),val(b,p,8,0),val(b,p,9,0)); c->initTrajectory(1e-9,x,q,a); u->Add(c);} B.Add(u);} B.setTrackingMethod(TRACKING_VAY); B.setTimeStep(1e-10); };
    Beam A,M; mk(A); mk(M); int nop=0; for(int n:s)nop+=n;
    if(A.getNOP()!=nop||A.getNOB()!=(int)s.size()||A.getStepBufferSize()!=10*nop){mc::fail("beam structure: NOP=%d NOB=%d step buffer %d",A.getNOP(),A.getNOB(),A.getStepBufferSize());continue;}
    // flat list of particles in order
    auto flat=[&](Beam&B){std::vector<ChargedParticle*> v; for(size_t b=0;b<s.size();b++)for(int p=0;p<s[b];p++)v.push_back(B.getBunch(b)->getParticle(p)); return v;};
    auto fa=flat(A),fm=flat(M); A.setupTracking(&F); M.clearTrajectories(); M.setNOTS(0);
    auto rd=[&](ChargedParticle*c,double*w){ w[0]=c->getTime();V x=c->getPosition(),p=c->getMomentum(),a=c->getAccel(); w[1]=x.x;w[2]=x.y;w[3]=x.z;w[4]=p.x;w[5]=p.y;w[6]=p.z;w[7]=a.x;w[8]=a.y;w[9]=a.z;};
    bool bad=false; std::vector<std::vector<double>> hist(nop); mc::H h;
    for(int st=0;st<4&&!bad;st++){
      if(st)A.doStep(&F);
      std::unique_ptr<double[]> b(new double[10*nop+1]); for(int i=0;i<=10*nop;i++)b[i]=PAT; A.bufferStep(b.get()); if(b[10*nop]!=PAT){mc::fail("bufferStep wrote beyond its reported size");bad=true;}
      for(int i=0;i<nop&&!bad;i++){double w[10];rd(fa[i],w);for(int k=0;k<10;k++){if(b[10*i+k]!=w[k]){mc::fail("step buffer particle %d item %d: %.17g expected %.17g",i,k,b[10*i+k],w[k]);bad=true;break;}hist[i].push_back(w[k]);h.d(w[k]);}}
      if(bad)break;
      int n0=M.getNOTS(); M.setStepFromBuffer(b.get()); mc::trans(2); if(M.getNOTS()!=n0+1||n0!=st){mc::fail("number of steps after reading a step buffer is %d, expected %d",M.getNOTS(),st+1);bad=true;}
      for(int i=0;i<nop&&!bad;i++){ double w[10];rd(fm[i],w); if(fm[i]->getNP()!=st+1){mc::fail("particle %d has %d points after %d buffers",i,fm[i]->getNP(),st+1);bad=true;} for(int k=0;k<10;k++)if(w[k]!=hist[i][10*st+k]){mc::fail("particle %d item %d not restored",i,k);bad=true;}
        for(int t=0;t<=st&&!bad;t++){ double*e=&hist[i][10*t]; if(fm[i]->TrajTime(t)!=e[0]||!veq(fm[i]->TrajPoint(t),V(e[1],e[2],e[3]))||!veq(fm[i]->TrajMomentum(t),V(e[4],e[5],e[6]))||!veq(fm[i]->TrajAccel(t),V(e[7],e[8],e[9]))){mc::fail("trajectory point %d of particle %d differs from the buffer read",t,i);bad=true;} }
        if(!bad&&(fm[i]->getCharge()!=fa[i]->getCharge())){mc::fail("charge changed");bad=true;} }
      // coordinate buffers with limit; per bunch
      for(size_t u=0;u<s.size()&&!bad;u++)for(int lim=0;lim<=s[u]+2&&!bad;lim++){ int m=std::min(lim,s[u]); std::vector<double> c=pat(6*m+1); double*e=A.getBunch(u)->bufferCoordinates(c.data(),lim); if(e!=c.data()+6*m||c[6*m]!=PAT){mc::fail("bufferCoordinates limit %d of %d particles: wrote %d values",lim,s[u],(int)(e-c.data()));bad=true;break;} for(int p=0;p<m&&!bad;p++){ChargedParticle*q=A.getBunch(u)->getParticle(p);V x=q->getPosition(),k=q->getMomentum();double w[6]={x.x,x.y,x.z,k.x,k.y,k.z};for(int j=0;j<6;j++)if(c[6*p+j]!=w[j]){mc::fail("bufferCoordinates bunch %d particle %d item %d",(int)u,p,j);bad=true;break;}} mc::trans(); }
      // probes: first particle of every bunch, then the second, ...
      std::vector<ChargedParticle*> order; for(int p=0;p<300;p++)for(size_t u=0;u<s.size();u++)if(p<s[u])order.push_back(A.getBunch(u)->getParticle(p));
      for(int n=0;n<=nop&&!bad;n++){ if((int)A.getProbeBufferSize(n)!=16*n){mc::fail("probe buffer size %d for %d",(int)A.getProbeBufferSize(n),n);bad=true;break;} std::vector<double> c=pat(16*n+1); A.bufferProbe(c.data(),n); if(c[16*n]!=PAT){mc::fail("bufferProbe overrun");bad=true;break;} for(int i=0;i<n&&!bad;i++){double w[10];rd(order[i],w);for(int j=0;j<10;j++)if(c[16*i+j]!=w[j]){mc::fail("probe %d of %d item %d: %.17g expected %.17g",i,n,j,c[16*i+j],w[j]);bad=true;break;} ElMagField f=F.Field(w[0],V(w[1],w[2],w[3])); if(!bad&&(!vclose(V(c[16*i+10],c[16*i+11],c[16*i+12]),f.E(),1e-12,1.0)||!vclose(V(c[16*i+13],c[16*i+14],c[16*i+15]),f.B(),1e-12,1e-6))){mc::fail("probe %d fields",i);bad=true;}} mc::trans(); }
    }
    mc::state(h.h); if(s.size()==3&&nop==5)mc::sample(id+" step buffers of 4 steps compared");
  }
}
int main(int argc,char**argv){ mc::init(argc,argv); seqs(); beams(); return mc::finish(); }
