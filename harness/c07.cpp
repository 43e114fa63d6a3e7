// C07: accumulation of arriving fields into time buckets: every placement of trajectory arrival times relative to the
// bucket edges (including the edges themselves and their floating-point neighbours) against an exact bucket integral
#include "teu.h"
struct Node{double ts;ElMagField f;};
// reference: average over each bucket of the piecewise linear arriving field
static void reference(std::vector<ElMagField>&tr,double t0,double dt,const std::vector<Node>&n,std::vector<double>&scale){
  int N=tr.size();
  for(size_t s=0;s+1<n.size();s++){ long double a=n[s].ts,b=n[s+1].ts; if(!(b>a))continue; ElMagField f1=n[s].f,f2=n[s+1].f;
    for(int i=0;i<N;i++){ long double lo=(long double)t0+((long double)i-0.5L)*dt,hi=lo+dt; long double x=std::max(lo,a),y=std::min(hi,b);
      if(y<=x)continue; double w=(double)((y-x)/dt); double u=(double)(((x+y)/2-a)/(b-a)); ElMagField f=f1*(1-u); ElMagField g=f2; g*=u; f+=g; f*=w; tr[i]+=f; scale[i]+=(f1.E().norm()+f2.E().norm())*w; } } }
static void accel(double v[3]){(void)v;}
static ChargedParticle* make(double q,const std::vector<double>&ts,V o,std::vector<Node>&nodes,int kind){
  ChargedParticle*c=new ChargedParticle(q,1); int i=0; (void)accel;
  for(double t:ts){ V x=V(0.001,0.002,0.003)+V(1e-6,2e-6,-1e-6)*(double)(kind?i:0); V p=kind?V(0.1*i,-0.05,0.3+0.2*i):V(); V a=V(1e9*(1+i*i),-3e8*(i%3),2e8*i);
    double R=(o-x).norm(); double T=t-R/SpeedOfLight; // pick the time whose arrival comes closest to t
    for(int k=0;k<8;k++){ double d=(T+R/SpeedOfLight)-t; if(d==0)break; double T2=std::nextafter(T,d>0?-1e300:1e300); if(std::fabs(T2+R/SpeedOfLight-t)>=std::fabs(d))break; T=T2; }
    Node n; n.ts=T+R/SpeedOfLight; n.f=LW(q,x,p,a,o); nodes.push_back(n);
    if(i==0)c->initTrajectory(T,x,p,a); else c->storeTrajectoryPoint(T,x,p,a); i++; }
  return c; }
static double up(double x,int k){ for(;k>0;k--)x=std::nextafter(x,1e300); for(;k<0;k++)x=std::nextafter(x,-1e300); return x;}
int main(int argc,char**argv){
  mc::init(argc,argv);
  struct TT{double t0,dt;}; std::vector<TT> tts={{1.0/3*1e-8,7e-14},{0.0,1e-12},{1e-8,1e-13},{1e-9/7,0.3e-12},{1e-12,1e-12},{5e-13,1e-12}}; // the last two: observer close by, edges reachable exactly 
  int maxlen=mc::thorough?5:4;
  V ofar(0.1,-0.2,2.0),onear=V(0.001,0.002,0.003)+V(1e-5,-2e-5,2e-5),o=ofar;
  for(size_t it=0;it<tts.size();it++)for(int N:{2,3,6,17})for(int kind=0;kind<2;kind++){ o=it>=4?onear:ofar; if(N==17&&it!=5)continue; if(it>=4&&kind==1)continue;
    double t0=tts[it].t0,dt=tts[it].dt; if(!mc::thorough&&N==6&&kind==0&&it%2)continue;
    double lo=t0-dt*0.5,hi=t0+dt*((double)N-0.5);
    std::vector<std::pair<std::string,double>> pos; auto P=[&](std::string n,double v){pos.push_back({n,v});};
    P("far-",t0-1e6*dt);P("-2.3",t0-2.3*dt); for(int k:{-2,-1,0,1,2})P(mc::F("lo%+d",k),up(lo,k)); P("-0.2",t0-0.2*dt);P("0",t0);P("0.5",t0+0.5*dt);P("0.5+",up(t0+0.5*dt,1));P("0.8",t0+0.8*dt);P("1.1",t0+1.1*dt);
    for(int k:{-3,-2,-1,0,1,2})P(mc::F("hi%+d",k),up(hi,k)); P("N+1",t0+(N+1)*dt);P("far+",t0+1e11*dt);
    if(N==6){P("3.4",t0+3.4*dt);P("3.6",t0+3.6*dt);}
    std::sort(pos.begin(),pos.end(),[](const std::pair<std::string,double>&a,const std::pair<std::string,double>&b){return a.second<b.second;});
    int K=pos.size();
    std::vector<int> sel; std::function<void(int,int)> rec=[&](int from,int len){
      if(len==0){ std::string id=mc::F("seq:%d,N=%d,k=%d",(int)it,N,kind); for(int s:sel)id+=","+pos[s].first; if(!mc::begin(id))return;
        std::vector<double> ts; for(int s:sel)ts.push_back(pos[s].second); std::vector<Node> nodes; std::unique_ptr<ChargedParticle> c(make(-1e6,ts,o,nodes,kind));
        bool mono=true; for(size_t i=0;i+1<nodes.size();i++)if(!(nodes[i+1].ts>nodes[i].ts))mono=false; if(!mono)return;
        FieldTrace tr(t0,dt,N); std::vector<ElMagField> e(N); std::vector<double> sc(N,0.0);
        for(int i=0;i<N;i++){ ElMagField f(V(10+i,-3*i,2),V(1e-8*i,2e-8,-1e-8)); tr.set_field(i,f); e[i]=f; sc[i]=f.E().norm(); }
        reference(e,t0,dt,nodes,sc);
        try{ c->integrateFieldTrace(o,&tr);mc::trans(); }catch(std::exception&x){ mc::fail("exception while accumulating: %s",x.what()); return; }
        if(tr.get_N()!=(size_t)N||tr.get_t0()!=t0||tr.get_dt()!=dt){mc::fail("trace geometry changed");return;}
        double fmax=0; for(auto&n:nodes)fmax=std::max(fmax,n.f.E().norm()); double slack=fmax*(4e-16*(std::fabs(t0)+std::fabs(hi)+std::fabs(nodes.back().ts)*0)/dt*8+1e-10);
        // far ends: interpolation weights carry the rounding of the end times
        double far=0; for(auto&n:nodes)far=std::max(far,std::fabs(n.ts)); slack+=fmax*1e-9; (void)far;
        for(int i=0;i<N;i++){ ElMagField g=tr.get_field((size_t)i); double d=(g.E()-e[i].E()).norm(), db=(g.B()-e[i].B()).norm()*SpeedOfLight; 
          if(!(d<=slack+1e-9*sc[i]&&db<=slack+1e-9*sc[i])){ mc::fail("bucket %d: %s expected %s (allowed %g)",i,fs(g).c_str(),fs(e[i]).c_str(),slack+1e-9*sc[i]); return; }
          mc::H h; h.i(N).i(i).d(g.E().x/fmax); mc::outcome(h.h); }
        mc::H h; h.i(it).i(N).i(kind); for(int s:sel)h.i(s); mc::state(h.h);
        if(sel.size()==4&&sel[1]==4)mc::sample(id);
        return; }
      for(int k=from;k+len<=K;k++){sel.push_back(k);rec(k+1,len-1);sel.pop_back();} };
    for(int len=1;len<=maxlen;len++){ if(len==5&&(kind==0||N==3))continue; rec(0,len); }
  }
  // sums over bunches and beams, repeated accumulation, long trajectories over many buckets at several step/bucket ratios
  o=ofar; for(int nb:{0,1,2,3,70})for(int np:{0,1,2,3,300})for(double ratio:{0.13,0.5,1.0,1.7,25.0})for(int N:{1,2,9,40,300,1025})for(int npts:{2,3,40,700,2000}){ if(N>40&&npts<40)continue; if((N>40||npts>40)&&(nb!=1||np!=2))continue; if((nb>3||np>3)&&(N!=9||npts!=3||(nb>3?np!=1:nb!=1)))continue;
    if(!mc::begin(mc::F("beam:b=%d,p=%d,r=%g,N=%d,pts=%d",nb,np,ratio,N,npts)))continue;
    double t0=2e-9,dt=1e-13; Beam beam; std::vector<ElMagField> e(N); std::vector<double> sc(N,0.0); double fmax=0;
    for(int b=0;b<nb;b++){ Bunch*B=new Bunch(); std::vector<ElMagField> eb(N); std::vector<double> sb(N,0.0);
      for(int p=0;p<np;p++){ std::vector<double> ts; double s=t0-3.21*dt+(b%10*0.37+p%10*0.61)*dt; for(int i=0;i<npts;i++)ts.push_back(s+i*ratio*dt); std::vector<Node> nd; B->Add(make(-1e5*(p+1)+b,ts,o,nd,(b+p)%2)); if(N>=2){reference(e,t0,dt,nd,sc);reference(eb,t0,dt,nd,sb);} for(auto&n:nd)fmax=std::max(fmax,n.f.E().norm()); }
      FieldTrace tb(t0,dt,N); try{B->integrateFieldTrace(o,&tb);}catch(std::exception&x){mc::failkey("edge-exception","%s",x.what());} mc::trans();
      for(int i=0;i<N&&!mc::failed();i++)if((tb.get_field((size_t)i).E()-eb[i].E()).norm()>1e-8*fmax*(1+np))mc::fail("bunch trace bucket %d is not the sum of its particles",i);
      beam.Add(B); }
    FieldTrace tr(t0,dt,N); try{beam.integrateFieldTrace(o,&tr);beam.integrateFieldTrace(o,&tr);mc::trans(2);}catch(std::exception&x){mc::failkey("edge-exception","%s",x.what());}
    for(int i=0;i<N&&!mc::failed();i++){ ElMagField g=tr.get_field((size_t)i); if((g.E()-e[i].E()*2.0).norm()>1e-8*fmax*(1+nb*np)*2||(g.B()-e[i].B()*2.0).norm()*SpeedOfLight>1e-8*fmax*(1+nb*np)*2)mc::fail("beam trace bucket %d: %s expected twice %s",i,fs(g).c_str(),fs(e[i]).c_str()); }
    mc::H h; h.i(nb).i(np).d(ratio).i(N).i(npts); mc::state(h.h);
  }
  // segments very much shorter than the buckets (fast particles coming towards the observer), alone or in large numbers
  for(double ratio:{1e-3,1e-5,1e-7,1e-8})for(int npts:{2,3,10,2000})for(int N:{2,5})for(int where=0;where<6;where++)for(int kind=0;kind<2;kind++){ if(!mc::begin(mc::F("tiny:%g,%d,%d,%d,%d",ratio,npts,N,where,kind)))continue;
    double t0=1e-11,dt=1e-13; std::vector<double> ts; double s=where==0?t0-0.5*dt:where==1?t0:where==2?t0+0.5*dt:where==3?t0+0.9*dt:where==4?t0+(N-0.5)*dt:t0+(N-0.5)*dt*0.5; s-=ratio*dt*(npts*0.4); for(int i=0;i<npts;i++)ts.push_back(s+i*ratio*dt);
    std::vector<Node> nd; std::unique_ptr<ChargedParticle> c(make(-1e6,ts,onear,nd,0)); (void)kind; std::vector<ElMagField> e(N); std::vector<double> sc(N,0.0); FieldTrace tr(t0,dt,N); if(kind)for(int i=0;i<N;i++){ElMagField f(V(1,2,3)*nd[0].f.E().norm()*1e-6,V(1,0,1)*nd[0].f.B().norm()*1e-6);tr.set_field((size_t)i,f);e[i]=f;sc[i]=f.E().norm();} reference(e,t0,dt,nd,sc); c->integrateFieldTrace(onear,&tr); mc::trans(); double fmax=0; for(auto&n:nd)fmax=std::max(fmax,n.f.E().norm()); double slack=fmax*4e-16*(t0+N*dt)/dt*8;
    for(int i=0;i<N;i++){ ElMagField g=tr.get_field((size_t)i); double d=(g.E()-e[i].E()).norm(),db=(g.B()-e[i].B()).norm()*SpeedOfLight; if(!(d<=slack+1e-9*sc[i]&&db<=slack+1e-9*sc[i])){mc::fail("bucket %d: %s expected %s (allowed %g)",i,fs(g).c_str(),fs(e[i]).c_str(),slack+1e-9*sc[i]);break;} } mc::H h; h.d(ratio).i(npts).i(N).i(where).i(kind); mc::state(h.h); }
  return mc::finish();
}
