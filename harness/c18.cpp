// C18: the 1D FEL field follows its documented recurrence in lock-step with the beam
#include "fix.h"
#include "parser.h"
typedef std::string S; using mc::F;
// ---- independent evaluation of the documented recurrence
struct Geo{ V pos,prop,pol; double dt; int N; double zR,w0,zw; bool seed; double E0,la,tau,ts; int step; bool log; S id; };
struct P{ double u,v,t; double q; V mom,acc; double out; };   // u: distance behind the head in cells; v,w: transverse offset; t: time offset in steps
struct Ref{ Geo g; V n,ex,ey; double ds; std::vector<double> E,O; int k=0; std::vector<std::vector<double>> sE,sJ;
  Ref(const Geo&G):g(G){ n=g.prop; n.normalize(); ex=g.pol; ex=ex-n*dot(ex,n); ex.normalize(); ey=cross(n,ex); ds=g.dt*2.99792458e8; E.assign(g.N,0); if(g.seed)for(int i=0;i<g.N;i++){ double t=i*g.dt-g.ts; E[i]=g.E0*cos(2*M_PI*2.99792458e8/g.la*t)*exp(-t*t/(2*g.tau*g.tau)); } O=E; sE.push_back(E); sJ.push_back(std::vector<double>(g.N,0)); }
  V head(){ return g.pos+n*(k*ds); }
  V place(const P&p){ return head()-n*(p.u*ds)+ex*p.v-ey*(0.7*p.v); }
  double time(){ return k*g.dt; }
  void advance(const std::vector<P>*ps){ int N=g.N; std::vector<double> J(N,0.0); if(ps)for(auto&p:*ps){ double z=k*ds,w2=g.w0*g.w0*(1+(z-g.zw)*(z-g.zw)/(g.zR*g.zR)),A=M_PI*w2/2; double ga=sqrt(1+dot(p.mom,p.mom)); V a=p.acc; double j=dot(a,ex)/ga*p.q*1.6021766208e-19/A/g.dt*4e-7*M_PI*2.99792458e8*2.99792458e8; int c=(int)rint(p.u); for(int i=std::max(0,c-10);i<=c+10&&i<N;i++)J[i]+=j*exp(-(p.u-i)*(p.u-i)/8)/(2*sqrt(2*M_PI)); }
    std::vector<double> X(N,0.0); X[1]=E[0]; for(int i=1;i+1<N;i++)X[i+1]=E[i-1]+E[i+1]-O[i-1]+g.dt*g.dt*J[i]; O=E; for(int i=1;i+1<N;i++)O[i]+=g.dt*g.dt*J[i]; E=X; k++; if(ps&&k%g.step==0){sE.push_back(E);sJ.push_back(J);} } };
static bool bad(const P&p,int N){ return p.u<0||p.u>N||fabs(p.t)>0.25; }
// ---- the implementation
struct Parse{ pugi::xml_document d; InputParser*p; Parse(const S&x){ if(!d.load_string(x.c_str()))abort(); p=new InputParser(d.child("teufel")); } ~Parse(){delete p;} };
static S deck(const Geo&g,const S&file){ auto v=[](const char*t,V a){ return F("<%s x='%.17g' y='%.17g' z='%.17g'/>",t,a.x,a.y,a.z); }; return F("<teufel><fel1d N='%d'>",g.N)+v("position",g.pos)+v("prop",g.prop)+v("pol",g.pol)+F("<mode zR='%.17g' w0='%.17g' zwaist='%.17g'/>",g.zR,g.w0,g.zw)+(g.log?F("<log file='%s' step='%d'/>",file.c_str(),g.step):S(""))+(g.seed?F("<seed E0='%.17g' lambda='%.17g' tau='%.17g' tstart='%.17g'/>",g.E0,g.la,g.tau,g.ts):S(""))+"</fel1d></teufel>"; }
static FEL_1D* make(const Geo&g,const S&file,bool code){ if(code)return new FEL_1D(g.dt,g.N); Parse q(deck(g,file)); return new FEL_1D(g.dt,q.d.child("teufel").child("fel1d"),q.p); }
struct Run{ Geo g; Ref r; FEL_1D*f; S file; double scale; bool code;
  Run(const Geo&G,bool code_):g(G),r(G),f(0),code(code_){ file=mc::work+"/f.h5"; f=make(g,file,code); scale=0; look(); } ~Run(){delete f;}
  // compare the whole visible field
  void look(){ for(double e:r.E)scale=std::max(scale,fabs(e)); for(double e:r.O)scale=std::max(scale,fabs(e)); mc::H h; h.i(r.k);
    for(int i=-1;i<=g.N;i++)for(int s=0;s<3;s++){ double u=i+(s==0?0:s==1?0.49:-0.49); P p={u,1e-4*i,0,0,V(0,0,0),V(0,0,0),0}; int c=(int)rint(u); bool thr=false; ElMagField q; try{ q=f->Field(r.time()+(s==1?0.24:s==2?-0.24:0)*g.dt,r.place(p)); }catch(const IOexception&){thr=true;} mc::trans();
      bool out=c<0||c>=g.N; if(out!=thr){ mc::fail("step %d: field at cell position %g %s",r.k,u,thr?"not available":"outside of the grid is not rejected"); return; } if(out)continue;
      double e=r.E[c]; V E=r.ex*e,B=r.ey*(e/2.99792458e8); double s1=std::max(scale,1e-300); if(!vclose(q.E(),E,1e-9,s1)||!vclose(q.B(),B,1e-9,s1/2.99792458e8)){ mc::fail("step %d: field at cell position %g is %s instead of E%sB%s",r.k,u,fs(q).c_str(),vs(E).c_str(),vs(B).c_str()); return; } if(s==0)h.d(fabs(e)<1e-9*scale?0:e); }
    for(double t:{-1.0,-0.26,0.26,1.0}){ bool thr=false; P p={0.2,0,0,0,V(0,0,0),V(0,0,0),0}; try{f->Field(r.time()+t*g.dt,r.place(p));}catch(const IOexception&){thr=true;} if(!thr)mc::fail("step %d: query %g steps off in time is not rejected",r.k,t); }
    mc::state(h.h); }
  void fill(Beam&b,const std::vector<P>&ps,int split){ std::vector<Bunch*> B; if(split<0&&ps.size())split=0; for(int i=0;i<=split;i++){B.push_back(new Bunch());b.Add(B.back());} for(size_t i=0;i<ps.size();i++){ const P&p=ps[i]; ChargedParticle*c=new ChargedParticle(p.q,fabs(p.q)); c->initTrajectory(r.time()+p.t*g.dt,r.place(p),p.mom,p.acc); B[i%(split+1)]->Add(c); } b.setTimeStep(g.dt); b.setNOTS(r.k); }
  // one action; true if performed, false if rejected
  bool step(const std::vector<P>&ps,int split,int beamstep=0){ bool want=beamstep==0; for(auto&p:ps)if(bad(p,g.N))want=false; bool ok=true; { Beam b; fill(b,ps,split); b.setNOTS(r.k+beamstep); try{f->step(&b);}catch(const IOexception&){ok=false;} } mc::trans(); if(ok!=want){ mc::fail("step %d %s",r.k+1,want?"rejected":"with a misplaced beam not rejected"); return ok; } if(ok)r.advance(&ps); look(); return ok; }
  bool init(double f_dt=1){ Beam b; b.setTimeStep(g.dt*f_dt); b.setNOTS(0); bool ok=true,want=fabs(f_dt-1)<1e-9; try{f->init(&b);}catch(const IOexception&){ok=false;} mc::trans(); if(ok!=want){mc::fail("init %s",want?"rejected":"with different step size not rejected"); return ok;} if(ok)r.advance(0); look(); return ok; }
  void output(){ unlink(file.c_str()); f->write_output(); mc::trans(); if(!g.log||code){ if(access(file.c_str(),F_OK)==0)mc::fail("file written without being requested"); return; } fix::R h(file); if(!h.ok()){mc::fail("no output file");return;}
    for(int w=0;w<2;w++){ const char*n=w?"CurrentDensity":"InteractionField"; fix::DS d=h.ds(n); auto&st=w?r.sJ:r.sE; if(!d.ok||d.dim.size()!=2||d.dim[0]!=st.size()||d.dim[1]!=(hsize_t)g.N){ mc::fail("%s: %zu rows of %zu instead of %zu of %d",n,d.dim.size()?(size_t)d.dim[0]:0,d.dim.size()>1?(size_t)d.dim[1]:0,st.size(),g.N); return; } double s=0; for(auto&v:st)for(double x:v)s=std::max(s,fabs(x)); if(!w)s=std::max(s,scale); for(size_t a=0;a<st.size();a++)for(int i=0;i<g.N;i++)if(!mc::near(d.v[a*g.N+i],st[a][i],1e-9,s)){ mc::fail("%s record %zu cell %d is %.12g instead of %.12g",n,a,i,d.v[a*g.N+i],st[a][i]); return; } }
    struct{const char*n;double v;} at[]={{"N_field",(double)g.N},{"N_steps",(double)r.sE.size()},{"N_output",(double)g.step},{"dt",g.dt},{"w0",g.w0},{"z_Rayl",g.zR},{"z_waist",g.zw},{"origin.x",g.pos.x},{"origin.y",g.pos.y},{"origin.z",g.pos.z},{"prop.x",-r.n.x*r.ds},{"prop.y",-r.n.y*r.ds},{"prop.z",-r.n.z*r.ds}};
    for(auto&a:at){ double x=h.at("InteractionField",a.n); if(!mc::near(x,a.v,1e-12,fabs(r.ds)))mc::fail("attribute %s is %g instead of %g",a.n,x,a.v); } }
};
static std::vector<Geo> geos(){ std::vector<Geo> r; struct{V pos,prop,pol; const char*n;} d[]={{V(0,0,0),V(0,0,1),V(1,0,0),"z"},{V(0.01,-0.02,0.3),V(0,0,-2),V(0.3,1,5),"-z"},{V(-0.1,0,0.05),V(3,0,0),V(0,0,1),"x"},{V(0.02,0.03,-0.01),V(1,-2,2),V(1,1,0.3),"obl"}};
  for(auto&q:d)for(int seed=0;seed<3;seed++){ Geo g; g.pos=q.pos; g.prop=q.prop; g.pol=q.pol; g.dt=1e-13; g.N=5; g.zR=0.2; g.w0=3e-4; g.zw=1e-4; g.seed=seed>0; g.E0=seed==1?1e5:-3e4; g.la=seed==1?1.3e-4:7e-5; g.tau=seed==1?1.5e-13:3e-13; g.ts=seed==1?2e-13:-1e-13; g.step=1; g.log=true; g.id=F("%s%d",q.n,seed); r.push_back(g); } return r; }
int main(int argc,char**argv){ mc::init(argc,argv); fix::quiet(); auto G=geos(); const bool T=mc::thorough;
  V mom[3]={V(0.1,-0.2,20),V(0,0,0),V(-3,1,4)}, acc[4]={V(1e10,2e9,-3e9),V(-4e9,1e9,7e9),V(0,0,5e9),V(0,0,0)};
  // 1. propagation alone: all grid sizes x directions x seeds, code and deck
  for(auto g:G)for(int N=2;N<=(T?40:16);N++)for(int code=0;code<2;code++){ if(code&&g.id!="z0")continue; for(int st=1;st<=3;st++){ if(!mc::begin(F("free:%s:%d,%d,%d",g.id.c_str(),N,code,st)))continue; g.N=N; g.step=code?1:st; if(code){g.zR=1;g.w0=1e-3;g.zw=1;} Run R(g,code); R.init(); for(int k=0;k<2*N+5&&!mc::failed();k++)R.step({},k%2); R.output(); } }
  // long grids and runs
  for(size_t gi=0;gi<G.size();gi+=3)for(int N:{63,64,65,128,129,257,1000})for(int st:{1,7,64})if(mc::begin(F("freelong:%s:%d,%d",G[gi+1].id.c_str(),N,st))){ Geo g=G[gi+1]; g.N=N; g.step=st; g.tau*=gi?20:1; g.la*=gi?20:1; g.ts+=gi*3e-12; Run R(g,false); R.init(); for(int k=0;k<(N>300?140:2*N+5)&&!mc::failed();k++)R.step({},k%2); R.output(); }
  // many particles: radiating together over many steps, distributed over bunches
  for(int np:{64,65,129,300,1025})for(int split:{0,2})for(int N:{24,300})if(mc::begin(F("crowd:%d,%d,%d",np,split,N))){ Geo g=G[4]; g.N=N; g.step=5; Run R(g,false); R.init(); std::vector<P> ps; for(int i=0;i<np;i++)ps.push_back({(i*37%997)/997.0*(N-1),1e-5*(i%9),0.2*((i%5)-2)/2,-1e5*(1+i%7),mom[i%3],acc[i%3],0}); for(int k=0;k<12&&!mc::failed();k++){ R.step(ps,split); for(auto&p:ps){p.u=std::max(0.0,p.u-0.397);p.acc=p.acc*-0.8;} } R.output(); }
  // rejected grids and first steps with a different step size
  for(int N=-1;N<2;N++)if(mc::begin(F("grid:%d",N))){ for(int code=0;code<2;code++){ Geo g=G[0]; g.N=N; bool ok=true; try{ delete make(g,"x",code); }catch(const IOexception&){ok=false;} if(ok)mc::fail("grid of %d cells accepted",N); mc::trans(); } }
  for(double f:{0.5,1.001,1-1e-7,1+1e-7,2.0,-1.0})if(mc::begin(F("dt:%g",f-1))){ Run R(G[1],false); R.init(f); R.init(); R.step({},0); }
  // 2. all sequences of placements, rejected ones included
  for(int N:{2,3,4,6})for(size_t gi=0;gi<G.size();gi++){ if(!T&&(gi+N)%3)continue; std::vector<P> al; for(double u:{0.0,0.3,0.5,1.0,1.6,N/2.0,N-1.0,N-0.4,(double)N-1e-6,-0.01,N+0.01})al.push_back({u,1e-3*u,u>1?0.2:-0.2,-1e7*(1+u),mom[(int)(u*3+7)%3],acc[(int)(u*10+40)%3],0}); al.push_back({1.0,0,0.3,1e8,mom[0],acc[0],0}); al.push_back({1.0,0,-0.3,1e8,mom[0],acc[0],0}); al.push_back({1.0,0,0,0,mom[0],acc[0],1});   // the last one: beam at another step
    int depth=T?4:3; std::vector<int> ix(depth,0); for(;;){ S id=F("seq:%s:%d:",G[gi].id.c_str(),N); for(int i:ix)id+=F("%d,",i); if(mc::begin(id)){ Geo g=G[gi]; g.N=N; g.step=1+ix[0]%2; Run R(g,false); R.init(); for(int i:ix){ if(mc::failed())break; R.step({al[i]},i%2,al[i].out?(i%2?1:-1):0); } if(!mc::failed())R.step({},0); if(!mc::failed())R.output(); }
      int k=depth-1; while(k>=0&&++ix[k]==(int)al.size())ix[k--]=0; if(k<0)break; } }
  // 3. ensembles: all sets of up to 3 of 8 particles, all distributions over bunches, long range of the pulse (grid larger than it)
  for(int N:{8,24,50})for(size_t gi=0;gi<G.size();gi+=T?1:4){ std::vector<P> al; for(double u:{0.0,1.23,4.53,7.73,10.47,11.52,N-3.27,N-0.77})if(u<=N)al.push_back({u,-2e-3,0.1,(u>4?-1:1)*3e7*(1+0.1*u),mom[(int)(u*3)%3],acc[(int)(u*2)%3],0}); int n=al.size();
    for(int m=0;m<(1<<n);m++){ if(__builtin_popcount(m)>(T?5:3))continue; for(int split=0;split<3;split++)if(mc::begin(F("set:%s:%d:%d,%d",G[gi].id.c_str(),N,m,split))){ Geo g=G[gi]; g.N=N; g.zw=split==1?3e-4:split==2?-4e-4:0; g.zR=split?1e-4:0.3; Run R(g,false); R.init(); std::vector<P> ps; for(int i=0;i<n;i++)if(m>>i&1)ps.push_back(al[i]); for(int k=0;k<6&&!mc::failed();k++){ R.step(ps,split); for(auto&p:ps){p.u=std::max(0.0,p.u-0.397);p.acc=p.acc*-0.8;} } R.output(); } } }
  // a bunch with one misplaced particle anywhere: rejected as a whole, later steps as if it had not been tried
  // beams without any bunch, or with empty ones, before, between and after steps with particles, all words
  for(int L=1;L<=(T?8:6);L++)for(int code_=0,tot=(int)pow(3,L)+0.5;code_<tot;code_++)for(int st=1;st<=2;st++)if(mc::begin(F("absent:%d,%d,%d",L,code_,st))){ Geo g=G[4]; g.N=9; g.step=st; Run R(g,false); R.init(); int c=code_; for(int k=0;k<L&&!mc::failed();k++,c/=3){ if(c%3==2)R.step({{3.0+0.3*k,0,0,-1e8,mom[k%3],acc[k%3],0}},0); else R.step({},c%3-1); } R.output(); }
  for(int pos=0;pos<4;pos++)for(int kind=0;kind<4;kind++)for(int split=0;split<3;split++)if(mc::begin(F("one:%d,%d,%d",pos,kind,split))){ Geo g=G[4]; g.N=12; Run R(g,false); R.init(); std::vector<P> ps; for(int i=0;i<4;i++)ps.push_back({2.0+i,0,0,-1e8,mom[0],acc[i%3],0}); std::vector<P> b=ps; if(kind==0)b[pos].u=-0.001; else if(kind==1)b[pos].u=12.001; else b[pos].t=kind==2?0.2501:-0.2501; R.step(ps,split); R.step(b,split); R.step(ps,split); R.output(); }
  // 4. logs: all intervals x run lengths, field logged from the start
  for(int st=1;st<=8;st++)for(int n=0;n<=(T?20:10);n++)for(int wi=0;wi<2;wi++)if(mc::begin(F("log:%d,%d,%d",st,n,wi))){ Geo g=G[wi?1:4]; g.N=6; g.step=st; if(n%2)g.zw=-g.zw; g.log=wi==0||n%3; Run R(g,false); if(n){R.init(); for(int k=1;k<n;k++)R.step({{1.5,0,0,-1e8,mom[0],acc[k%2],0}},0);} R.output(); if(n==5)R.output(); }
  return mc::finish(); }
