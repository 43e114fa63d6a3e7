// Reference model of a tracked particle, written from Vay, Phys. Plasmas 15, 056701 (2008), eqs. (9)-(13)
#pragma once
#include "teu.h"
struct Pt{double t;V x,p,a;};
struct RefParticle{
  double q,m; std::vector<Pt> tr; Pt cur; V E,B; bool fieldsKnown=true;
  double dt=0; V u; double g=1; bool tracking=false; double qmscale=1;
  RefParticle(double q_,double m_):q(q_),m(m_){cur={0,V(),V(),V()};}
  void init(double t,V x,V p,V a){tr.clear();cur={t,x,p,a};tr.push_back(cur);tracking=false;}
  static void secondhalf(V p,V E,V B,double h,V&u,double&g){ // eq (11),(12)
    V pp=p+E/SpeedOfLight*h; V tau=B*h; double us=dot(pp,tau),t2=dot(tau,tau),s=dot(pp,pp)+1-t2;
    g=std::sqrt((s+std::sqrt(s*s+4*(t2+us*us)))/2); V t=tau/g; u=(pp+t*dot(pp,t)+cross(pp,t))/(1+dot(t,t)); }
  void initvay(double dt_,GeneralField*f){ dt=dt_; double qm=q/m*InvRestMass; cur=tr.back(); ElMagField F=f->Field(cur.t,cur.x); E=F.E();B=F.B();fieldsKnown=true;
    secondhalf(cur.p,E,B,qm*0.5*dt,u,g); double gh=std::sqrt(dot(cur.p,cur.p)+1); cur.a=(cross(cur.p/gh,B)+E/SpeedOfLight)*qm; tr.back().a=cur.a; tracking=true; }
  void step(GeneralField*f){ double qm=q/m*InvRestMass,h=qm*0.5*dt; V bi=u/g; cur.t+=dt; cur.x+=bi*SpeedOfLight*dt; ElMagField F=f->Field(cur.t,cur.x);E=F.E();B=F.B();fieldsKnown=true;
    cur.p=u+(E/SpeedOfLight+cross(bi,B))*h; double gh=std::sqrt(dot(cur.p,cur.p)+1); cur.a=(cross(cur.p/gh,B)+E/SpeedOfLight)*qm;
    secondhalf(cur.p,E,B,h,u,g); tr.push_back(cur);}
  void shift(V d,double f){cur.x+=d;for(auto&p:tr)p.x+=d;q*=f;}
  static void mir(Pt&p,V o,V n){p.x+=n*(2*dot(o-p.x,n));p.p-=n*(2*dot(p.p,n));p.a-=n*(2*dot(p.a,n));}
  void mirror(V o,V n,double f){n=n/n.norm();mir(cur,o,n);for(auto&p:tr)mir(p,o,n);q*=f;tracking=false;fieldsKnown=false;}
};
inline std::string diffPt(Pt r,double t,V x,V p,V a,double rel){ 
  if(!mc::near(r.t,t,rel,1e-12))return mc::F("time %.17g expected %.17g",t,r.t);
  if(!vclose(r.x,x,rel,1.0))return "position "+vs(x)+" expected "+vs(r.x);
  if(!vclose(r.p,p,rel,1.0))return "momentum "+vs(p)+" expected "+vs(r.p);
  if(!vclose(r.a,a,rel,1e6))return "acceleration "+vs(a)+" expected "+vs(r.a);
  return "";}
// full observable comparison; returns "" if equal. thr: also check out of range access
inline std::string compareParticle(ChargedParticle*c,RefParticle&r,double rel=1e-11,mc::H*h=0,bool queries=true){
  if(c->getNP()!=(int)r.tr.size())return mc::F("NP=%d expected %d",c->getNP(),(int)r.tr.size());
  if(!mc::near(c->getCharge(),r.q*ElementaryCharge,rel))return mc::F("charge %.17g expected %.17g",c->getCharge(),r.q*ElementaryCharge);
  std::string d=diffPt(r.cur,c->getTime(),c->getPosition(),c->getMomentum(),c->getAccel(),rel); if(d!="")return "current "+d;
  for(int i=0;i<(int)r.tr.size();i++){ d=diffPt(r.tr[i],c->TrajTime(i),c->TrajPoint(i),c->TrajMomentum(i),c->TrajAccel(i),rel); if(d!="")return mc::F("point %d ",i)+d; }
  { std::vector<double> b(c->getProbeBufferSize(),-7.25); double*e=c->bufferProbe(b.data()); if(e!=b.data()+b.size()||b.size()!=16)return "bufferProbe size";
    d=diffPt(r.cur,b[0],V(b[1],b[2],b[3]),V(b[4],b[5],b[6]),V(b[7],b[8],b[9]),rel); if(d!="")return "probe "+d;
    if(r.fieldsKnown){ if(!vclose(V(b[10],b[11],b[12]),r.E,rel,1e-3))return "probe E "+vs(V(b[10],b[11],b[12]))+" expected "+vs(r.E); if(!vclose(V(b[13],b[14],b[15]),r.B,rel,1e-9))return "probe B "+vs(V(b[13],b[14],b[15]))+" expected "+vs(r.B);} }
  if(queries){
    int bad[4]={-1,(int)r.tr.size(),(int)r.tr.size()+7,-1000};
    for(int i:bad){ int thrown=0; try{c->TrajTime(i);}catch(std::exception&){thrown++;} try{c->TrajPoint(i);}catch(std::exception&){thrown++;} try{c->TrajMomentum(i);}catch(std::exception&){thrown++;} try{c->TrajAccel(i);}catch(std::exception&){thrown++;} if(thrown!=4)return mc::F("out-of-range index %d accepted",i);}
    // interpolation queries; only for strictly increasing times
    bool mono=true; for(size_t i=1;i<r.tr.size();i++) if(!(r.tr[i].t>r.tr[i-1].t))mono=false;
    V px,pp;
    if(r.tr.empty()){ px=V(1,2,3);pp=V(4,5,6); c->CoordinatesAtTime(0.0,&px,&pp); if(!px.isNull()||!pp.isNull())return "coordinates of empty trajectory not zero"; }
    else if(mono){ size_t n=r.tr.size(); double t0=r.tr[0].t,t1=r.tr[n-1].t,step=n>1?(t1-t0)/(n-1):1e-9;
      auto q=[&](double t,V ex,V ep)->std::string{ px=V(9,9,9);pp=V(9,9,9); c->CoordinatesAtTime(t,&px,&pp); double sc=1; for(auto&k:r.tr)sc=std::max(sc,k.p.norm()); if(!vclose(px,ex,1e-9,1.0)||!vclose(pp,ep,1e-9,sc))return mc::F("coordinates at t=%.17g: ",t)+vs(px)+vs(pp)+" expected "+vs(ex)+vs(ep); return "";};
      for(size_t i=0;i<n;i++){ d=q(c->TrajTime(i),r.tr[i].x,r.tr[i].p); if(d!="")return d; if(i+1<n){ for(double f:{0.25,0.5,0.9375}){ d=q(r.tr[i].t+(r.tr[i+1].t-r.tr[i].t)*f,r.tr[i].x*(1-f)+r.tr[i+1].x*f,r.tr[i].p*(1-f)+r.tr[i+1].p*f); if(d!="")return d; } } }
      for(double dtq:{0.5,2.0,1000.0}){ d=q(t0-step*dtq,V(),V()); if(d!="")return d; d=q(t1+step*dtq,V(),V()); if(d!="")return d; } }
  }
  if(h){ h->i(r.tr.size()).d(r.q).i(r.tracking); hv(*h,c->getPosition());hv(*h,c->getMomentum());h->d(c->getTime()*1e9); for(int i=0;i<c->getNP();i++){hv(*h,c->TrajPoint(i));hv(*h,c->TrajMomentum(i));} h->d(r.dt*1e9); }
  return "";
}
