// C13: logs and watch points record exactly the requested steps
#include "refrun.h"
using namespace decks;
static CodedField TF(2e7,0.4);
static ChargedParticle* part(int k){ return fix::track(-(k+1.0)*2e6,V(1e-3*(k+1),-7e-4*k,0.01*k*k),V(0.3*(k-1),0.05*k,3.0+k),k==2?3e-12:0,0,0,0); }
static Bunch* mkb(int n,int id){ Bunch*b=new Bunch(); for(int i=0;i<n;i++)b->Add(part(id+i)); return b; }
struct Row{ double v[13]; };
static const char*COL[13]={"t","x_av","y_av","z_av","bgx_av","bgy_av","bgz_av","gamma","delta","x_rms","y_rms","z_rms","BF"};
static Row row(Bunch*b,double f){ V x=b->avgPosition(),p=b->avgMomentum(),r=b->rmsPosition(); return Row{{b->avgTime(),x.x,x.y,x.z,p.x,p.y,p.z,b->avgGamma(),b->delta(),r.x,r.y,r.z,f>0?std::abs(b->BunchingFactor(f)):0}}; }
static std::string cmpRows(const std::string&fn,const std::vector<Row>&w,int np,double Q,double f){ fix::SddsFile s=fix::sddsRead(fn); if(!s.ok)return "log unreadable"; if(s.pages!=1||s.rows!=(int)w.size())return F("%d pages, %d records instead of %zu",s.pages,s.rows,w.size()); if(s.par["NumberTimeSteps"]!=w.size())return "parameter NumberTimeSteps"; if(s.par["NumberParticles"]!=np)return "parameter NumberParticles"; if(!mc::near(s.par["TotalCharge"],Q,1e-12))return F("parameter TotalCharge %g instead of %g",s.par["TotalCharge"],Q); if(f>0&&!mc::near(s.par.count("BunchingFrequency")?s.par["BunchingFrequency"]:NAN,f,1e-12))return "parameter BunchingFrequency"; for(int k=0;k<13;k++){ if(!s.col.count(COL[k]))return F("column %s missing",COL[k]); for(size_t i=0;i<w.size();i++)if(!mc::near(s.col[COL[k]][i],w[i].v[k],1e-13))return F("record %zu %s is %.15g instead of %.15g",i,COL[k],s.col[COL[k]][i],w[i].v[k]); } return ""; }
typedef std::vector<std::vector<double>> Rec; // per record: flattened values
static std::string cmpH5(const std::string&fn,const char*ds,const Rec&w,size_t np,size_t nd){ fix::R r(fn); fix::DS d=r.ds(ds); if(!d.ok||d.dim.size()!=3)return F("data set %s missing",ds); if(d.dim[0]!=w.size()||d.dim[1]!=np||d.dim[2]!=nd)return F("%s is %dx%dx%d instead of %zux%zux%zu",ds,(int)d.dim[0],(int)d.dim[1],(int)d.dim[2],w.size(),np,nd); if(r.at(ds,"NOTS")!=w.size()||r.at(ds,"NOP")!=np)return "attribute NOTS or NOP"; if(nd==16&&r.at(ds,"NOD")!=nd)return "attribute NOD"; for(size_t i=0;i<w.size();i++)for(size_t k=0;k<np*nd;k++){ size_t c=k%nd, g=nd==16?(c==0?k:k-(c-1)%3):k-c%3; double m=0; for(size_t q=g;q<(nd==16&&c==0?g+1:g+3);q++)m=std::max(m,fabs(w[i][q])); if(!(fabs(d.v[i*np*nd+k]-w[i][k])<=1e-12*m))return F("%s record %zu value %zu is %.17g instead of %.17g",ds,i,k,d.v[i*np*nd+k],w[i][k]); } return ""; }
static std::vector<double> six(Bunch*b,int n){ std::vector<double> r; for(int i=0;i<n;i++){ V x=b->getParticle(i)->getPosition(),p=b->getParticle(i)->getMomentum(); for(double v:{x.x,x.y,x.z,p.x,p.y,p.z})r.push_back(v);} return r; }
static std::vector<double> probe(Beam&B,int n){ std::vector<double> r; int N=0; for(int k=0;N<n;k++)for(int b=0;b<B.getNOB()&&N<n;b++)if(k<B.getBunch(b)->getNOP()){ ChargedParticle*p=B.getBunch(b)->getParticle(k); V x=p->getPosition(),m=p->getMomentum(),a=p->getAccel(); ElMagField f=TF.Field(p->getTime(),p->getPosition()); V e=f.E(),bb=f.B(); for(double v:{p->getTime(),x.x,x.y,x.z,m.x,m.y,m.z,a.x,a.y,a.z,e.x,e.y,e.z,bb.x,bb.y,bb.z})r.push_back(v); N++; } return r; }
static void library(){ std::string fp=mc::work+"/p.sdds",ft=mc::work+"/t.h5",fq=mc::work+"/q.h5"; int NM=mc::thorough?9:6;
  // run length x interval x structure x particle limit
  auto one=[&](int N,int iv,int st,int lim,int old){ if(!mc::begin(F("log:%d,%d,%d,%d,%d",N,iv,st,lim,old)))return;{ static const std::vector<int> S[7]={{1},{3},{2,1,3},{0,2,0,1},{300},{70,130,1},{1,257,0,33}}; Beam B; int id=0,np=0; for(int n:S[st]){B.Add(mkb(n,id));id+=n;np+=n;} Bunch*b=0; for(int i=0;i<B.getNOB();i++)if(!b||B.getBunch(i)->getNOP()>b->getNOP())b=B.getBunch(i);
      unlink(fp.c_str());unlink(ft.c_str());unlink(fq.c_str()); if(old){FILE*f=fopen(fp.c_str(),"w");for(int i=0;i<4000;i++)fputs("old ",f);fclose(f);f=fopen(ft.c_str(),"w");for(int i=0;i<4000;i++)fputs("old ",f);fclose(f);}
      B.setTrackingMethod(TRACKING_VAY); B.setTimeStep(2e-12); B.setupTracking(&TF); double bf=lim%2?2e11:0; ParameterLogger<Bunch> P(b,fp.c_str(),iv); if(bf>0)P.record_bunching(bf); TrajectoryLogger<Bunch> T(b,ft.c_str(),iv,lim); int ql=std::min(lim,np); ProbeLogger<Beam> Q(&B,fq.c_str(),iv,lim); int tl=std::min(lim,b->getNOP()); std::vector<Row> rows; Rec tr,pr; auto upd=[&](){ P.update();T.update();Q.update(); rows.push_back(row(b,bf)); tr.push_back(six(b,tl)); pr.push_back(probe(B,ql)); mc::trans(3); };
      upd(); for(int s=1;s<=N;s++){ B.doStep(&TF); bool w=s%iv==0; if(P.log_requested(s)!=w||T.log_requested(s)!=w||Q.log_requested(s)!=w){mc::fail("step %d with interval %d: requested %d",s,iv,P.log_requested(s));break;} if(w)upd(); } if(mc::failed())return;
      for(int rep=0;rep<2;rep++){ int r=P.WriteData(); if(r)mc::fail("WriteData returns %d",r); if(T.WriteData()||Q.WriteData())mc::fail("WriteData of particle log fails"); std::string e=cmpRows(fp,rows,b->getNOP(),b->getTotalCharge(),bf); if(e=="")e=cmpH5(ft,"Trajectories",tr,tl,6); if(e=="")e=cmpH5(fq,"Probe",pr,ql,16); if(e!=""){mc::fail("%s%s",rep?"written again: ":"",e.c_str());break;} if(rep==0&&lim==2)upd(); } mc::H h; for(auto&q:rows)for(double v:q.v)h.d(v); h.i(lim); mc::state(h.h); } };
  for(int N=0;N<=NM;N++)for(int iv=1;iv<=NM+1;iv++)for(int st=0;st<4;st++)for(int lim=0;lim<=6;lim++)for(int old=0;old<2;old++)one(N,iv,st,lim,old);
  // long runs and many particles
  for(int N:{40,130,257,1025})for(int iv:{1,3,64})for(int st:{0,2})for(int lim:{0,2})one(N,iv,st,lim,0);
  for(int N:{0,5})for(int iv:{1,2})for(int st=4;st<7;st++)for(int lim:{0,1,33,64,65,129,256,257,300,1000})one(N,iv,st,lim,0);
}
static std::string RD;
static void program(){ int NM=mc::thorough?7:5;
  // complete program: run length, intervals, watch steps
  for(int N=0;N<=NM;N++)for(int iv=1;iv<=N+2;iv++)for(int w=-1;w<=N+1;w++)for(int two=0;two<2;two++)if(mc::begin(F("run:%d,%d,%d,%d",N,iv,w,two))){ Deck d; d.n=N; d.lattice=lat('b')+lat('u'); d.beam=particle(0,log("p0.sdds",iv))+bunch(1,3,log("b1.sdds",two?iv+1:1)+traj("t1.h5",iv,2))+F("<probe file='q.h5' step='%d' number='2'/>",iv); d.track=watch("w.h5",w)+watch("w.sdds",w,true); if(two)d.track+=watch("w2.h5",N)+watch("w3.h5",w)+watch("w4.h5",0); hyb::cleardir(RD); write(mc::work+"/in.xml",d.xml()); hyb::Cfg c; c.args={mc::work+"/in.xml"}; c.ranks=1+two; hyb::Res r=hyb::run(c,RD); if(r.err!=""||r.status[0]){mc::fail("run fails: %s %s",r.err.c_str(),r.text[0].substr(0,300).c_str());continue;} hyb::Out o=hyb::collect(RD); 
      // own tracking of the deck
      std::string FD=mc::work+"/ref"; mkdir(FD.c_str(),0700); hyb::cleardir(FD); Deck d2=d; d2.track=""; write(mc::work+"/in2.xml",d2.xml()); RefRun f(mc::work+"/in2.xml",FD); if(f.err!=""){mc::fail("%s",f.err.c_str());continue;} std::string e; auto rec=[&](const char*file,int iv,int b){ std::string k=file; const std::vector<double>*t=o.count(k+":t")?&o[k+":t"]:0; size_t n=N/iv+1; if(!t||t->size()!=n){e=F("%s has %zu records instead of %zu",file,t?t->size():0,n);return;} for(size_t i=0;i<n;i++){ auto&H=f.hist[i*iv][b]; double at=0,ax=0,az=0,pz=0; for(auto&q:H){at+=q.t/H.size();ax+=q.x.x/H.size();az+=q.x.z/H.size();pz+=q.p.z/H.size();} if(!mc::near((*t)[i],at,1e-12)||!mc::near(o[k+":x_av"][i],ax,1e-10)||!mc::near(o[k+":z_av"][i],az,1e-10,1e-6)||!mc::near(o[k+":bgz_av"][i],pz,1e-10)){e=F("%s record %zu is not that of step %zu: t=%.12g x=%.12g z=%.12g instead of t=%.12g x=%.12g z=%.12g",file,i,i*iv,(*t)[i],o[k+":x_av"][i],o[k+":z_av"][i],at,ax,az);return;} } };
      rec("p0.sdds",iv,0); if(e=="")rec("b1.sdds",two?iv+1:1,1);
      if(e==""){ size_t n=N/iv+1; auto&v=o["t1.h5:Trajectories"]; if(v.size()!=n*2*6)e=F("trajectory log has %zu values instead of %zu",v.size(),n*12); else for(size_t i=0;i<n;i++)for(int p=0;p<2;p++){ auto&s=f.hist[i*iv][1][p]; double w[6]={s.x.x,s.x.y,s.x.z,s.p.x,s.p.y,s.p.z}; for(int k=0;k<6;k++)if(!mc::near(v[(i*2+p)*6+k],w[k],1e-11,k<3?1e-6:1))e=F("trajectory log record %zu particle %d value %d",i,p,k); } }
      if(e==""){ size_t n=N/iv+1; auto&v=o["q.h5:Probe"]; if(v.size()!=n*2*16)e=F("probe log has %zu values instead of %zu",v.size(),n*32); else for(size_t i=0;i<n;i++)for(int p=0;p<2;p++){ auto&s=p?f.hist[i*iv][1][0]:f.hist[i*iv][0][0]; double w[7]={s.t,s.x.x,s.x.y,s.x.z,s.p.x,s.p.y,s.p.z}; for(int k=0;k<7;k++)if(!mc::near(v[(i*2+p)*16+k],w[k],1e-11,k==0?1e-13:k<4?1e-6:1))e=F("probe log record %zu particle %d value %d is %g instead of %g",i,p,k,v[(i*2+p)*16+k],w[k]); } }
      auto wp=[&](const char*file,int s){ bool there=o.count(file),want=s>=0&&s<=N; if(there!=want){e=F("watch point %s of step %d %s",file,s,there?"was written":"is missing");return;} if(!want)return; size_t k=0; bool sd=strstr(file,"sdds"); for(auto&b:f.hist[s])for(auto&q:b){ double x=sd?o[std::string(file)+":x"][k]:o[std::string(file)+":electrons"][6*k],z=sd?o[std::string(file)+":z"][k]:o[std::string(file)+":electrons"][6*k+2],p=sd?o[std::string(file)+":pz"][k]:o[std::string(file)+":electrons"][6*k+5]; if(!mc::near(x,q.x.x,1e-11)||!mc::near(z,q.x.z,1e-11,1e-6)||!mc::near(p,q.p.z,1e-11)){e=F("watch point %s particle %zu is not at step %d",file,k,s);return;} k++; } size_t n=sd?o[std::string(file)+":x"].size():o[std::string(file)+":electrons"].size()/6; if(n!=k)e="watch point with wrong number of particles"; };
      if(e=="")wp("w.h5",w); if(e=="")wp("w.sdds",w); if(two){ if(e=="")wp("w2.h5",N); if(e=="")wp("w3.h5",w); if(e=="")wp("w4.h5",0); } if(e!="")mc::fail("%s",e.c_str()); mc::H h; for(auto&k:o)for(double v:k.second)h.d(v); mc::state(h.h); }
  // two loggers with different intervals per bunch, many bunches
  for(int nb=1;nb<=4;nb++)for(int N:{0,4})if(mc::begin(F("many:%d,%d",nb,N))){ Deck d; d.n=N; for(int i=0;i<nb;i++)d.beam+=particle(i,log(F("p%d.sdds",i),i+1)); hyb::cleardir(RD); write(mc::work+"/in.xml",d.xml()); hyb::Cfg c; c.args={mc::work+"/in.xml"}; hyb::Res r=hyb::run(c,RD); if(r.err!=""){mc::fail("%s",r.err.c_str());continue;} hyb::Out o=hyb::collect(RD); for(int i=0;i<nb;i++){ auto&t=o[F("p%d.sdds:t",i)]; if(t.size()!=(size_t)(N/(i+1)+1)){mc::fail("log %d has %zu records",i,t.size());break;} for(size_t k=0;k<t.size();k++)if(!mc::near(t[k],k*(i+1)*d.dt,1e-12,1e-12))mc::fail("log %d record %zu at %g",i,k,t[k]); } }
}
int main(int argc,char**argv){ mc::init(argc,argv); fix::quiet(); RD=mc::work+"/run"; mkdir(RD.c_str(),0700); library(); program(); return mc::finish(); }
