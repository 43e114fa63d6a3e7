// C12: beam dump files contain every particle with its current coordinates; SDDS dumps can be read again
#include "sddsfile.h"
using namespace fix;
struct St{ double q,t; V x,p; };
static CodedField TF(2e7,0.4);
static std::vector<St> states(Beam*B){ std::vector<St> r; for(int b=0;b<B->getNOB();b++)for(int i=0;i<B->getBunch(b)->getNOP();i++){ChargedParticle*p=B->getBunch(b)->getParticle(i); r.push_back({p->getCharge(),p->getTime(),p->getPosition(),p->getMomentum()});} return r; }
static std::string hdf(Beam*B,const std::vector<St>&s,const std::string&fn){ int r=B->WriteWatchPointHDF5(fn); mc::trans(); if(r!=(int)s.size())return mc::F("WriteWatchPointHDF5 returns %d for %zu particles",r,s.size()); R f(fn); DS d=f.ds("electrons"); if(!d.ok||d.dim.size()!=2||d.dim[0]!=s.size()||d.dim[1]!=6)return "data set electrons missing or misshaped"; for(size_t i=0;i<s.size();i++){ double w[6]={s[i].x.x,s[i].x.y,s[i].x.z,s[i].p.x,s[i].p.y,s[i].p.z}; for(int k=0;k<6;k++)if(!(d.v[6*i+k]==w[k]))return mc::F("HDF5 record %zu value %d is %.17g instead of %.17g",i,k,d.v[6*i+k],w[k]); } return ""; }
static std::string table(SddsFile&f,const std::vector<St>&s){ static const char*c[11]={"t","x","y","z","px","py","pz","p","xp","yp","gamma"}; if(f.pages!=1||f.rows!=(int)s.size())return mc::F("SDDS file with %d pages and %d rows for %zu particles",f.pages,f.rows,s.size()); for(int k=0;k<11;k++)if(!f.col.count(c[k]))return mc::F("SDDS column %s missing",c[k]); for(size_t i=0;i<s.size();i++){ V x=s[i].x,p=s[i].p; double pp=sqrt(p.x*p.x+p.y*p.y+p.z*p.z); double w[11]={s[i].t,x.x,x.y,x.z,p.x,p.y,p.z,pp,p.x/p.z,p.y/p.z,sqrt(1+pp*pp)}; for(int k=0;k<11;k++)if(!mc::near(f.col[c[k]][i],w[k],k<7?0:1e-13))return mc::F("SDDS record %zu %s is %.17g instead of %.17g",i,c[k],f.col[c[k]][i],w[k]); } return ""; }
static std::string dumpS(Beam*B,const std::vector<St>&s,const std::string&fn){ int r=B->WriteWatchPointSDDS(fn); mc::trans(); if(r!=0)return mc::F("WriteWatchPointSDDS returns %d",r); SddsFile f=sddsRead(fn); if(!f.ok)return "SDDS file unreadable"; double Q=0,Qa=0; for(auto&k:s){Q+=k.q;Qa+=fabs(k.q);} if(!f.par.count("Particles")||f.par["Particles"]!=s.size())return mc::F("parameter Particles is %g instead of %zu",f.par.count("Particles")?f.par["Particles"]:-1,s.size()); if(f.par.count("NumberOfParticles")&&f.par["NumberOfParticles"]!=s.size())return "parameter NumberOfParticles"; if(!f.par.count("Charge")||!mc::near(fabs(f.par["Charge"]),fabs(Q),1e-12,Qa))return mc::F("parameter Charge is %g instead of %g C",f.par["Charge"],fabs(Q)); return table(f,s); }
// read an SDDS dump again
static void reread(const std::vector<St>&s,const std::string&fn){ double Q=0; for(auto&k:s){ if(!(k.q<0)||!(k.p.z>0))return; Q+=k.q; } if(s.empty())return; Bunch b(fn.c_str(),V(0,0,1)); mc::trans(); if(b.getNOP()!=(int)s.size()){mc::fail("%d of %zu particles read again",b.getNOP(),s.size());return;} if(!mc::near(b.getTotalCharge(),Q,1e-9)){mc::fail("total charge %g instead of %g read again",b.getTotalCharge(),Q);return;} double t0=0; for(auto&k:s)t0+=k.t/s.size(); bool same=true; for(size_t i=0;i<s.size();i++){ V X=b.getParticle(i)->TrajPoint(0),P=b.getParticle(i)->TrajMomentum(0); V p=s[i].p; V p0=p; double g=sqrt(1+p0.abs2nd()); V x=s[i].x; x+=p0*((t0-s[i].t)*SpeedOfLight/g); if(!mc::near(P.norm(),p0.norm(),1e-9)||!mc::near(P.x,p.x,1e-9,p0.norm())||!mc::near(fabs(P.y),fabs(p.y),1e-9,p0.norm())||!mc::near(P.z,p.z,1e-9,p0.norm())){mc::fail("particle %zu read again with momentum %s instead of %s",i,vs(P).c_str(),vs(p).c_str());return;} if(!mc::near(X.x,x.x,1e-9,1e-3)||!mc::near(fabs(X.y),fabs(x.y),1e-9,1e-3)){mc::fail("particle %zu read again at %s instead of %s",i,vs(X).c_str(),vs(x).c_str());return;} if(!vclose(P,p,1e-9)||!vclose(X,x,1e-9,1e-3))same=false; } if(!same)mc::failkey("sdds-dump-frame","vertical coordinate reversed and longitudinal coordinate lost when a dumped beam is read again"); }
static ChargedParticle* part(int k,int sgn=-1){ static const double q[5]={1,2e6,0.5,1e9,3}; return track(sgn*q[k%5],V(1e-3*(k+1),(k%2?-1:1)*7e-4*k,0.1*k*k),V(0.3*(k-1),0.05*k,(k==3?0.01:20.0)+k),k==2?0:1e-12*k,0,0,0); }
int main(int argc,char**argv){ mc::init(argc,argv); quiet(); std::string fh=mc::work+"/w.h5",fs_=mc::work+"/w.sdds";
  // all beams of up to 3 (4) bunches of 0..3 particles x preparation x former contents of the file
  int NB=mc::thorough?4:3; for(int nb=0;nb<=NB;nb++){ long tot=1; for(int i=0;i<nb;i++)tot*=4; for(long c=0;c<tot;c++)for(int prep=0;prep<6;prep++)for(int old=0;old<3;old++)if(mc::begin(mc::F("beam:%d,%ld,%d,%d",nb,c,prep,old))){ Beam B; long k=c; int id=0; for(int i=0;i<nb;i++,k/=4){ Bunch*b=new Bunch(); for(int j=0;j<k%4;j++)b->Add(part(id++,prep==5?1:-1)); B.Add(b); }
      unlink(fh.c_str()); unlink(fs_.c_str()); if(old==1){FILE*f=fopen(fh.c_str(),"w");for(int i=0;i<3000;i++)fputs("foreign ",f);fclose(f);f=fopen(fs_.c_str(),"w");for(int i=0;i<3000;i++)fputs("foreign ",f);fclose(f);} if(old==2){ Beam O; for(int q=0;q<2;q++){Bunch*b=new Bunch();for(int j=0;j<7;j++)b->Add(part(j));O.Add(b);} O.WriteWatchPointHDF5(fh);O.WriteWatchPointSDDS(fs_); }
      if(prep==1||prep==2){ B.setTrackingMethod(TRACKING_VAY),B.setTimeStep(1e-12),B.setupTracking(&TF); for(int i=0;i<(prep==1?1:7);i++)B.doStep(&TF); } if(prep==3){ B.setTrackingMethod(TRACKING_VAY),B.setTimeStep(1e-12),B.setupTracking(&TF); B.doStep(&TF); B.clearTrajectories(); B.doStep(&TF);} if(prep==4)for(int i=0;i<B.getNOB();i++)for(int j=0;j<B.getBunch(i)->getNOP();j++)B.getBunch(i)->getParticle(j)->Shift(V(0.1,0.2,-0.3),1.0);
      std::vector<St> s=states(&B); std::string e=hdf(&B,s,fh); if(e=="")e=dumpS(&B,s,fs_); if(e==""){ std::vector<St> s2=states(&B); for(size_t i=0;i<s.size();i++)if(!veq(s[i].x,s2[i].x)||!veq(s[i].p,s2[i].p)||s[i].t!=s2[i].t)e="writing a watch point changes the beam"; } if(e!=""){mc::fail("%s",e.c_str());continue;} reread(s,fs_);
      for(int i=0;i<B.getNOB()&&!mc::failed();i++){ std::string fb=mc::work+"/b.sdds"; Bunch*b=B.getBunch(i); int r=b->WriteWatchPointSDDS(fb.c_str()); SddsFile f=sddsRead(fb); std::vector<St> sb; for(int j=0;j<b->getNOP();j++){ChargedParticle*p=b->getParticle(j);sb.push_back({p->getCharge(),p->getTime(),p->getPosition(),p->getMomentum()});} if(r!=0||!f.ok)mc::fail("dump of bunch %d fails",i); else{ e=table(f,sb); if(e==""&&f.par.count("NumberOfParticles")&&f.par["NumberOfParticles"]!=sb.size())e="parameter NumberOfParticles"; if(e!="")mc::fail("bunch %d: %s",i,e.c_str()); } }
      mc::H h; for(auto&q:s){hv(h,q.x);hv(h,q.p);h.d(q.t);} h.i(nb).i(c); mc::state(h.h); } }
  // sequences of tracking and dumping into the same and different files: every dump shows the beam at that time
  { int D=mc::thorough?7:5; const char*ops="shSacH"; std::function<void(std::string)> rec=[&](std::string q){ if((int)q.size()==D){ if(!mc::begin("seq:"+q))return; Beam B; Bunch*b=new Bunch(); b->Add(part(0)); b->Add(part(1)); B.Add(b); B.setTrackingMethod(TRACKING_VAY),B.setTimeStep(1e-12),B.setupTracking(&TF); int n=0; std::map<std::string,std::vector<St>> files; for(char o:q){ std::string e; std::vector<St> s=states(&B); switch(o){ case 's':B.doStep(&TF);break; case 'h':e=hdf(&B,s,fh);files[fh]=s;break; case 'H':{std::string f=mc::work+mc::F("/x%d.h5",n++);e=hdf(&B,s,f);files[f]=s;break;} case 'S':e=dumpS(&B,s,fs_);break; case 'a':{Bunch*c=new Bunch();c->Add(part(n+2));B.Add(c);c->InitVay(1e-12,&TF);break;} case 'c':B.clearTrajectories();B.doStep(&TF);break; } if(e!=""){mc::fail("in %s: %s",q.c_str(),e.c_str());break;} } for(auto&f:files){ R r(f.first); DS d=r.ds("electrons"); if(!d.ok||d.v.size()!=6*f.second.size())mc::fail("file %s damaged by later operations",f.first.c_str()); else for(size_t i=0;i<f.second.size();i++)if(d.v[6*i]!=f.second[i].x.x||d.v[6*i+5]!=f.second[i].p.z)mc::fail("file contents changed"); unlink(f.first.c_str()); } return; } for(const char*o=ops;*o;o++)rec(q+*o); }; rec(""); }
  // many particles
  for(int n:{100,1000,4097})for(int nb:{3,1,90})if(mc::begin(mc::F("large:%d,%d",n,nb))){ Beam B; for(int b=0;b<nb;b++){ Bunch*u=new Bunch(); for(int i=b;i<n;i+=nb)u->Add(part(i)); B.Add(u);} std::vector<St> s=states(&B); std::string e=hdf(&B,s,fh); if(e=="")e=dumpS(&B,s,fs_); if(e!="")mc::fail("%s",e.c_str()); reread(s,fs_); }
  return mc::finish(); }
