// C04: all operation sequences on one particle vs the reference history
#include "refparticle.h"
struct Op{std::string n; std::function<bool(RefParticle&)> enabled; std::function<void(ChargedParticle*)> impl; std::function<void(RefParticle&)> ref;};
int main(int argc,char**argv){
  mc::init(argc,argv);
  CodedField F(3e6,0.4); HomogeneousField Z;
  std::vector<Op> ops; auto any=[](RefParticle&){return true;}; auto has=[](RefParticle&r){return !r.tr.empty();}; auto trk=[](RefParticle&r){return r.tracking&&!r.tr.empty();};
  auto add=[&](std::string n,std::function<bool(RefParticle&)> e,std::function<void(ChargedParticle*)> i,std::function<void(RefParticle&)> r){ops.push_back({n,e,i,r});};
  V x1(0.1,-0.2,0.3),p1(0.5,1.5,-4.0),a1(1e8,2e8,-3e8),x2(-1,2,5),p2(0,0,20),a2;
  add("iA",any,[&](ChargedParticle*c){c->initTrajectory(0.0,x1,p1,a1);},[&](RefParticle&r){r.init(0.0,x1,p1,a1);});
  add("iB",any,[&](ChargedParticle*c){c->initTrajectory(2e-9,x2,p2,a2);},[&](RefParticle&r){r.init(2e-9,x2,p2,a2);});
  add("v",has,[&](ChargedParticle*c){c->InitVay(1e-10,&F);},[&](RefParticle&r){r.initvay(1e-10,&F);});
  add("w",has,[&](ChargedParticle*c){c->InitVay(3e-10,&Z);},[&](RefParticle&r){r.initvay(3e-10,&Z);});
  add("s",trk,[&](ChargedParticle*c){c->StepVay(&F);},[&](RefParticle&r){r.step(&F);});
  add("z",trk,[&](ChargedParticle*c){c->StepVay(&Z);},[&](RefParticle&r){r.step(&Z);});
  add("a",any,[&](ChargedParticle*c){c->storeTrajectoryPoint(5e-9,V(7,8,9),V(1,2,3),V(4,5,6));},[&](RefParticle&r){r.tr.push_back({5e-9,V(7,8,9),V(1,2,3),V(4,5,6)});});
  add("c",any,[&](ChargedParticle*c){c->setCurrentPoint(6e-9,V(-7,-8,-9),V(3,2,1),V(6,5,4));},[&](RefParticle&r){r.cur={6e-9,V(-7,-8,-9),V(3,2,1),V(6,5,4)};});
  add("x",any,[&](ChargedParticle*c){c->clearTrajectory();},[&](RefParticle&r){r.tr.clear();});
  add("S",any,[&](ChargedParticle*c){c->Shift(V(0.5,-0.25,2.0),0.5);},[&](RefParticle&r){r.shift(V(0.5,-0.25,2.0),0.5);});
  add("M",any,[&](ChargedParticle*c){c->Mirror(V(0.1,0.2,0.3),V(0,0,2),-1.0);},[&](RefParticle&r){r.mirror(V(0.1,0.2,0.3),V(0,0,2),-1.0);});
  add("N",any,[&](ChargedParticle*c){c->Mirror(V(-1,2,0.5),V(1,-2,2),-2.0);},[&](RefParticle&r){r.mirror(V(-1,2,0.5),V(1,-2,2),-2.0);});
  add("P",any,[&](ChargedParticle*c){c->preAllocate(c->getNP()+3);},[&](RefParticle&r){});
  int depth=mc::thorough?7:6; std::vector<int> seq;
  std::function<void(RefParticle)> rec=[&](RefParticle r){
    std::string id; for(int k:seq)id+=ops[k].n; 
    if(mc::begin("seq:"+id)){ ChargedParticle c(-2.0,3.0); for(int k:seq){ops[k].impl(&c);mc::trans();} mc::H h; RefParticle rr=r; std::string d=compareParticle(&c,rr,1e-11,&h); if(d!="")mc::fail("after ops %s: %s",id.c_str(),d.c_str()); mc::state(h.h); if(seq.size()==6&&id.find("sS")!=std::string::npos)mc::sample(id+" -> NP="+std::to_string(c.getNP())+" x="+vs(c.getPosition())); }
    if((int)seq.size()==depth)return;
    for(int k=0;k<(int)ops.size();k++) if(ops[k].enabled(r)){ RefParticle n=r; ops[k].ref(n); seq.push_back(k); rec(n); seq.pop_back(); }
  };
  rec(RefParticle(-2.0,3.0));
  // long monotone trajectories: every length, queries at every node / between / beyond, before and after shift and mirror
  std::vector<int> lens; for(int n=1;n<=(mc::thorough?40:24);n++)lens.push_back(n); for(int n:{64,100,129,257,1000,1025,4097})lens.push_back(n);
  for(int n:lens) for(int var=0;var<4;var++){
    if(!mc::begin(mc::F("traj:n=%d,var=%d",n,var)))continue;
    ChargedParticle c(1.0,1.0,var&1?n+1:0); RefParticle r(1.0,1.0); c.initTrajectory(-1e-9,x1,p1,a1); r.init(-1e-9,x1,p1,a1);
    if(var<2){ c.InitVay(2e-10,&F); r.initvay(2e-10,&F); for(int i=1;i<n;i++){c.StepVay(&F);r.step(&F);mc::trans();} }
    else for(int i=1;i<n;i++){ Pt p={-1e-9+1e-10*i*(1+i%3),V(i,i*i,-i),V(0.1*i,2,-i),V(i*1e8,0,1e7)}; double tt=r.tr.back().t+1e-10*(1+i%3); p.t=tt; c.storeTrajectoryPoint(p.t,p.x,p.p,p.a); r.tr.push_back(p); mc::trans(); }
    mc::H h; std::string d=compareParticle(&c,r,1e-10,&h); if(d!=""){mc::fail("trajectory of %d points: %s",n,d.c_str());continue;} mc::state(h.h);
    c.Shift(V(1,2,3),2.0); r.shift(V(1,2,3),2.0); d=compareParticle(&c,r,1e-10); if(d!=""){mc::fail("after Shift, %d points: %s",n,d.c_str());continue;}
    c.Mirror(V(0,1,0),V(3,0,-4),-1.0); r.mirror(V(0,1,0),V(3,0,-4),-1.0); d=compareParticle(&c,r,1e-10); if(d!=""){mc::fail("after Mirror, %d points: %s",n,d.c_str());continue;}
    mc::trans(2);
  }
  return mc::finish();
}
