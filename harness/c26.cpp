// C26: a recorded screen used as source re-emits the recorded field
#include "fix.h"
#include "parser.h"
typedef std::string S; using mc::F;
struct Sc{ int Nx,Ny,Nt; double dt,dtx,dty; int attrs; V n,dX,dY; V pos; double t0; std::vector<double> f; S id; };
static void write(const Sc&s,const S&fn){ fix::W w(fn); V o(9,8,7); double b[12]={o.x,o.y,o.z,s.n.x,s.n.y,s.n.z,s.dX.x,s.dX.y,s.dX.z,s.dY.x,s.dY.y,s.dY.z}; hid_t d=w.ds("Screen",{4,3},H5T_NATIVE_DOUBLE,b); w.at(d,"Nx",s.Nx); w.at(d,"Ny",s.Ny); w.at(d,"NOTS",s.Nt); w.at(d,"t0",1e-9); w.at(d,"dt",s.dt); if(s.attrs&1)w.at(d,"dtx",s.dtx); if(s.attrs&2)w.at(d,"dty",s.dty); H5Dclose(d); d=w.ds("ElMagField",{(hsize_t)s.Nx,(hsize_t)s.Ny,(hsize_t)s.Nt,6},H5T_NATIVE_DOUBLE,s.f.data()); w.at(d,"t0",1e-9); w.at(d,"dt",s.dt); w.at(d,"NOTS",s.Nt); H5Dclose(d); }
struct Ref{ Sc s; V n,ex,ey; double dx,dy; std::vector<double> g,h; // transverse fields and their time derivatives
  double tx,ty;
  Ref(const Sc&q):s(q){ n=s.n; n.normalize(); dx=s.dX.norm(); dy=s.dY.norm(); ex=s.dX; ex=ex-n*dot(ex,n); ex.normalize(); ey=s.dY; ey=ey-n*dot(ey,n); ey=ey-ex*dot(ey,ex); ey.normalize(); tx=s.attrs&1?s.dtx:0; ty=s.attrs&2?s.dty:0; g=s.f; h.assign(g.size(),0.0); int N=s.Nt;
    for(size_t i=0;i<g.size();i+=3){ V v(g[i],g[i+1],g[i+2]); v=v-n*dot(v,n); g[i]=v.x;g[i+1]=v.y;g[i+2]=v.z; }
    if(N>1)for(int c=0;c<s.Nx*s.Ny;c++)for(int k=0;k<N;k++){ int a=std::max(k-1,0),b=std::min(k+1,N-1); for(int m=0;m<6;m++)h[(c*N+k)*6+m]=(g[(c*N+b)*6+m]-g[(c*N+a)*6+m])/((b-a)*s.dt); } }
  V cell(int i,int j){ return ex*(dx*(i-s.Nx/2))+ey*(dy*(j-s.Ny/2)); }
  double start(int i,int j){ return tx*(i-s.Nx/2)+ty*(j-s.Ny/2); }
  static V vec(const double*p){return V(p[0],p[1],p[2]);}
  ElMagField operator()(double t,V X,double*scale,bool*edge){ t-=s.t0; X=X-s.pos; V E(0,0,0),B(0,0,0); *scale=0; *edge=false; for(int i=0;i<s.Nx;i++)for(int j=0;j<s.Ny;j++){ V R=X-cell(i,j); double r=R.norm(),c=2.99792458e8,u=(t-r/c-start(i,j))/s.dt; int N=s.Nt; if(fabs(u)<1e-6||fabs(u-(N-1))<1e-6)*edge=true; if(u<0||u>N-1)continue; int k=std::min((int)floor(u),N-2); double fr=u-k; if(N==1){k=0;fr=0;} const double*p=&g[((i*s.Ny+j)*N+k)*6],*q=N==1?p:p+6,*dp=&h[((i*s.Ny+j)*N+k)*6],*dq=N==1?dp:dp+6; double cs=dot(R,n)/r,w1=-cs/(r*r),w2=(1-cs)/(r*c),A=dx*dy/(4*M_PI); 
      V e=(vec(p)*(1-fr)+vec(q)*fr)*w1+(vec(dp)*(1-fr)+vec(dq)*fr)*w2,b=(vec(p+3)*(1-fr)+vec(q+3)*fr)*w1+(vec(dp+3)*(1-fr)+vec(dq+3)*fr)*w2; E=E+e*A; B=B+b*A; for(int m=0;m<6;m++)*scale=std::max(*scale,A*((fabs(p[m])+fabs(q[m]))*fabs(w1)+(fabs(dp[m])+fabs(dq[m]))*fabs(w2))*(m<3?1:c)); } return ElMagField(E,B); }
  V poynting(int i,int j){ V r(0,0,0); for(int k=0;k<s.Nt;k++){ const double*p=&g[((i*s.Ny+j)*s.Nt+k)*6]; r=r+cross(vec(p),vec(p+3))*(s.dt/(4e-7*M_PI)); } return r; } };
static std::vector<V> points(Ref&r){ std::vector<V> P; double L=std::max(r.dx,r.dy); for(double a:{0.7,5.0,-0.9,-7.0})for(int k=0;k<3;k++)P.push_back(r.s.pos+r.n*(-a*L)+r.ex*(k==1?0.4*L:k==2?-2.3*L:0.0)+r.ey*(k==1?-1.2*L:k==2?0.1*L:0.0)); P.push_back(r.s.pos+r.ex*(0.31*L)+r.ey*(0.27*L)); return P; }
static void compare(SourceScreen&ss,Ref&r,const S&what,const std::vector<V>&P,bool fine){ mc::H hh; auto one=[&](double t,V X){ double sc; bool edge; ElMagField want=r(t,X,&sc,&edge); if(edge)return; ElMagField got=ss.Field(t,X); mc::trans(); if(!fclose_(got,want,2e-7,sc,sc/2.99792458e8))mc::fail("%s: at %s t=%g: %s instead of %s",what.c_str(),vs(X).c_str(),t,fs(got).c_str(),fs(want).c_str()); hh.d(got.E().norm()); };
  for(V X:P){ for(int i=0;i<r.s.Nx;i++)for(int j=0;j<r.s.Ny;j++){ if(mc::failed())return; if(!fine&&(i+j)%2)continue; double ta=r.s.t0+r.start(i,j)+(X-r.s.pos-r.cell(i,j)).norm()/2.99792458e8; for(int k=-1;k<=r.s.Nt;k++)for(double fr:{0.0,0.001,0.3,0.999}){ if(!fine&&fr!=0.3&&k>0&&k<r.s.Nt-1)continue; one(ta+(k+fr)*r.s.dt,X); } } one(r.s.t0-1e-7,X); one(r.s.t0+1e-7,X); } mc::state(hh.h); }
static std::vector<Sc> geos(){ std::vector<Sc> r; struct{V n,x,y;const char*id;} o[]={{V(0,0,-1),V(1,0,0),V(0,1,0),"-z"},{V(0,0,1),V(0,1,0),V(1,0,0),"z"},{V(0,0,-3),V(-1,0,0),V(0,1,0),"-zl"},{V(2,0,0),V(0,1,0),V(0,0,1),"x"},{V(-1,2,2),V(2,-1,2),V(2,2,-1),"obl"},{V(0,-1,0),V(1,0,0),V(0,0,0.5),"-y"},{V(0.2,0.1,-1),V(1,0.1,0),cross(V(0.2,0.1,-1),V(1,0.1,0))+V(0.2,0.1,-1)*0.3,"lean"}};
  for(auto&q:o)for(int tm=0;tm<4;tm++){ Sc s; s.n=q.n; s.dX=q.x*1e-3; s.dY=q.y*1.5e-3; s.dt=2e-12; s.dtx=0.7e-12; s.dty=-1.1e-12; s.attrs=tm; s.pos=tm==0?V(0,0,0):tm==1?V(0.01,-0.02,0.3):tm==2?V(-1,2,-5):V(1e-4,2e-4,-3e-4); s.t0=tm==0?0:tm==1?1e-9:tm==2?-3e-10:5e-12; s.Nx=s.Ny=s.Nt=1; s.id=F("%s%d",q.id,tm); r.push_back(s); } return r; }
static void fill(Sc&s){ s.f.assign((size_t)s.Nx*s.Ny*s.Nt*6,0.0); }
static std::vector<double> smooth(const Sc&s,int kind){ std::vector<double> f(s.Nx*s.Ny*s.Nt*6); size_t p=0; for(int i=0;i<s.Nx;i++)for(int j=0;j<s.Ny;j++)for(int k=0;k<s.Nt;k++)for(int m=0;m<6;m++)f[p++]=(m<3?1e3:1e3/2.99792458e8)*(1+0.3*i*(kind?-1:1)-0.7*j+0.25*k*k*(m+1)-0.4*k*(kind==1)+0.9*m*(kind==2?-1:1)); return f; }
int main(int argc,char**argv){ mc::init(argc,argv); fix::quiet(); if(chdir(mc::work.c_str()))return 1; S fn="s.h5"; auto G=geos(); const bool T=mc::thorough;
  int shp[][3]={{1,1,1},{1,1,2},{1,1,4},{2,1,2},{1,2,3},{3,1,2},{1,3,2},{2,2,3},{3,2,2},{2,3,3},{3,3,2},{4,2,2},{1,4,3},{3,3,4},{1,1,7}}; std::vector<std::array<int,3>> big={{{9,8,20}},{{40,1,3}},{{1,33,2}},{{1,1,300}},{{17,2,65}}};
  // 1. impulses: every cell, sample and component
  for(auto&g:G)for(auto&sh:shp){ Sc s=g; s.Nx=sh[0];s.Ny=sh[1];s.Nt=sh[2]; int n=s.Nx*s.Ny*s.Nt*6; for(int m=0;m<n;m++){ if(!T&&n>60&&(m*5+(&g-&G[0]))%7)continue; if(!mc::begin(F("imp:%s:%d,%d,%d:%d",s.id.c_str(),sh[0],sh[1],sh[2],m)))continue; fill(s); s.f[m]=m%6<3?1e4:1e4/2.99792458e8; write(s,fn); SourceScreen ss(fn,s.pos,s.t0); Ref r(s); compare(ss,r,"impulse",points(r),n<=60||T); } }
  // 2. full patterns, scaled and superposed; energy and flux
  for(auto&g:G)for(auto&sh:shp)for(int k=0;k<3;k++){ if(!mc::begin(F("pat:%s:%d,%d,%d:%d",g.id.c_str(),sh[0],sh[1],sh[2],k)))continue; Sc s=g; s.Nx=sh[0];s.Ny=sh[1];s.Nt=sh[2]; s.f=smooth(s,k); write(s,fn); SourceScreen a(fn,s.pos,s.t0); Ref r(s); auto P=points(r); compare(a,r,"pattern",P,false); if(a.getBufferSize()!=s.f.size())mc::fail("buffer size %zu",a.getBufferSize());
      double E=0,sc=0; for(int i=0;i<s.Nx;i++)for(int j=0;j<s.Ny;j++){ V w=r.poynting(i,j),q=a.Poynting(i,j); if(!vclose(q,w,1e-9))mc::fail("energy flow of cell %d,%d is %s instead of %s",i,j,vs(q).c_str(),vs(w).c_str()); E-=dot(w,r.n)*r.dx*r.dy; sc+=w.norm()*r.dx*r.dy; } if(!mc::near(a.totalEnergy(),E,1e-9,sc))mc::fail("energy %g instead of %g",a.totalEnergy(),E);
      Sc s2=s; for(auto&x:s2.f)x*=-2.5; write(s2,fn); SourceScreen b(fn,s.pos,s.t0); Sc s3=s; s3.pos=s.pos+V(0.1,0.2,-0.3); s3.t0=s.t0+7e-10; write(s3,fn); SourceScreen c(fn,s3.pos,s3.t0);
      Lattice L; L.addElement(new SourceScreen(fn,s.pos,s.t0)); L.addElement(new SourceScreen(fn,s3.pos,s3.t0)); 
      for(V X:P)for(double u:{0.31,0.77,1.43,2.21}){ double t=s.t0+(X-s.pos).norm()/2.99792458e8+u*s.dt; double q; bool ed; r(t,X,&q,&ed); if(ed)continue; ElMagField fa=a.Field(t,X),fb=b.Field(t,X),fc=c.Field(t+7e-10,X+V(0.1,0.2,-0.3)); double qb=q/2.99792458e8; if(!fclose_(fb,fa*(-2.5),1e-9,q,qb))mc::fail("scaled source: %s instead of -2.5 x %s",fs(fb).c_str(),fs(fa).c_str()); if(!fclose_(fc,fa,1e-6,q,qb))mc::fail("moved source: %s instead of %s",fs(fc).c_str(),fs(fa).c_str()); double q3; ElMagField sum=L.Field(t,X),x=Ref(s3)(t,X,&q3,&ed); if(!ed&&!fclose_(sum,fa+x,2e-7,q+q3,qb+q3/2.99792458e8))mc::fail("lattice of two screens"); } }
  // larger screens, and queries in any order: the same queries forwards, backwards and interleaved
  for(auto&g:G)for(auto&sh:big)for(int k=0;k<2;k++){ if(!mc::begin(F("big:%s:%d,%d,%d:%d",g.id.c_str(),sh[0],sh[1],sh[2],k)))continue; Sc s=g; s.Nx=sh[0];s.Ny=sh[1];s.Nt=sh[2]; s.f=smooth(s,k); write(s,fn); SourceScreen a(fn,s.pos,s.t0); Ref r(s); auto P=points(r); std::vector<std::pair<double,V>> q; for(size_t p=0;p<P.size();p+=3)for(int u=-1;u<=s.Nt;u+=1+s.Nt/6)q.push_back({s.t0+(P[p]-s.pos).norm()/2.99792458e8+(u+0.37)*s.dt,P[p]}); size_t n=q.size(); std::vector<ElMagField> w(n); std::vector<double> sc(n); std::vector<char> ed(n); for(size_t i=0;i<n;i++){ bool e; w[i]=r(q[i].first,q[i].second,&sc[i],&e); ed[i]=e; } for(int order=0;order<3;order++)for(size_t i=0;i<n;i++){ size_t j=order==0?i:order==1?n-1-i:(i*7)%n; if(ed[j])continue; ElMagField f=a.Field(q[j].first,q[j].second); mc::trans(); if(!fclose_(f,w[j],2e-7,sc[j],sc[j]/2.99792458e8)){ mc::fail("query order %d: %s instead of %s",order,fs(f).c_str(),fs(w[j]).c_str()); break; } } mc::H h; h.d(w[n/2].E().norm()).i(n); mc::state(h.h); }
  // 3. observe, write, use as source: the file of a screen observer taken as it is
  for(int nx=1;nx<=3;nx++)for(int ny=1;ny<=3;ny++)for(int nt=1;nt<=(T?5:3);nt++)for(int o=0;o<4;o++)for(int td=0;td<2;td++)if(mc::begin(F("obs:%d,%d,%d,%d,%d",nx,ny,nt,o,td))){ V dx[4]={V(1e-3,0,0),V(0,0,1e-3),V(-1e-3,2e-3,0),V(0,2e-3,0)},dy[4]={V(0,2e-3,0),V(0,1e-3,0),V(2e-3,1e-3,0),V(1e-3,0,1e-3)}; Lattice L; L.addElement(new CodedField(1e4,3e-5)); double dt=3e-12; ScreenObserver<Lattice> ob(fn,V(0.1,0.2,0.3),dx[o],dy[o],nx,ny,2e-10,dt,td?0.5e-12:0,td?-0.4e-12:0,nt); ob.setSource(&L); ob.integrate(); ob.generateOutput();
      Sc s; s.Nx=nx;s.Ny=ny;s.Nt=nt;s.dt=dt;s.dtx=td?0.5e-12:0;s.dty=td?-0.4e-12:0;s.attrs=3;s.dX=dx[o];s.dY=dy[o];s.n=cross(dy[o],dx[o]);s.pos=V(-0.3,0.2,0.1);s.t0=4e-10; fill(s); size_t p=0; for(int i=0;i<nx;i++)for(int j=0;j<ny;j++)for(int k=0;k<nt;k++){ V X=V(0.1,0.2,0.3)+dx[o]*(double)(i-nx/2)+dy[o]*(double)(j-ny/2); double t=2e-10+s.dtx*(i-nx/2)+s.dty*(j-ny/2)+k*dt; ElMagField e=CodedField::eval(1e4,3e-5,t,X); for(double v:{e.E().x,e.E().y,e.E().z,e.B().x,e.B().y,e.B().z})s.f[p++]=v; }
      SourceScreen ss(fn,s.pos,s.t0); Ref r(s); compare(ss,r,"observed screen",points(r),true); }
  return mc::finish(); }
