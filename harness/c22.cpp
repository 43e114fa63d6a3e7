// C22: meshed screens describe their surface: areas, normals, local axes, neighbourhoods, energy, independence of cells
#include "obs.h"
#include <sstream>
using namespace fix;
struct Geo{ double area; V n; };
static Geo geo(const Mesh&m,int i){ V p1=m.p[m.t[i][0]],p2=m.p[m.t[i][1]],p3=m.p[m.t[i][2]]; V a=p2-p1,b=p3-p1; long double cx=(long double)b.y*a.z-(long double)b.z*a.y,cy=(long double)b.z*a.x-(long double)b.x*a.z,cz=(long double)b.x*a.y-(long double)b.y*a.x,L=sqrtl(cx*cx+cy*cy+cz*cz); return {(double)(L/2),V(cx/L,cy/L,cz/L)}; }
static std::string check(MeshedScreen<Beam>&M,const Mesh&m,bool top,bool axes=true){ int n=m.t.size(); if(M.get_Np()!=n)return mc::F("%d cells instead of %d",M.get_Np(),n); V av(0,0,0); for(int i=0;i<n;i++)av+=geo(m,i).n; av.normalize();
  for(int i=0;i<n;i++){ Geo g=geo(m,i); if(!veq(M.get_point(i),m.pos[i]))return mc::F("position of cell %d",i); if(!mc::near(M.get_area(i),g.area,1e-12))return mc::F("area of cell %d is %.17g instead of %.17g",i,M.get_area(i),g.area); V N=M.get_normal(i),X=M.get_xi(i),Y=M.get_eta(i); if(!vclose(N,g.n,1e-12,1))return mc::F("normal of cell %d is %s instead of %s",i,vs(N).c_str(),vs(g.n).c_str());
    if(axes){ if(!mc::near(X.norm(),1,1e-12)||!mc::near(Y.norm(),1,1e-12)||!mc::near(dot(X,Y),0,1e-12,1)||!mc::near(dot(X,N),0,1e-12,1)||!mc::near(dot(Y,N),0,1e-12,1)||!vclose(cross(X,Y),N,1e-12,1))return mc::F("cell %d: (xi,eta,n)=(%s,%s,%s) is not a right-handed orthonormal system",i,vs(X).c_str(),vs(Y).c_str(),vs(N).c_str());
      // smooth variation over the surface: neighbouring axes of a smooth mesh never flip
      if(i&&dot(X,M.get_xi(0))<-0.5&&dot(N,M.get_normal(0))>0.5)return mc::F("xi of cell %d is opposite to that of cell 0",i); }
    if(top){ std::vector<int> b(n+2,-77); int c=M.get_Neighbourhood(i,b.data()+1); std::set<int> w; for(int j=0;j<n;j++)for(int p:m.t[i])for(int q:m.t[j])if(p==q)w.insert(j); std::set<int> gset(b.begin()+1,b.begin()+1+std::max(0,std::min(c,n))); if(c!=(int)w.size()||gset!=w){ std::string s; for(int k=0;k<c&&k<n;k++)s+=mc::F("%d ",b[k+1]); return mc::F("neighbourhood of cell %d has %d members: %s",i,c,s.c_str()); } if(b[0]!=-77)return "buffer underrun"; for(int k=c+1;k<n+2;k++)if(b[k]!=-77)return "buffer written beyond the reported members"; } }
  return ""; }
static double num(const std::string&s,const char*key){ size_t p=s.find(key); if(p==std::string::npos)return NAN; return atof(s.c_str()+p+strlen(key)); }
static std::string report(MeshedScreen<Beam>&M,const Mesh&m,double E){ std::ostringstream o; M.writeReport(&o); double a=0; for(size_t i=0;i<m.t.size();i++)a+=geo(m,i).area; double ra=num(o.str(),"total area = "),re=num(o.str(),"Energy incident on screen = "); if(ra==ra&&!mc::near(ra,a*1e4,1e-5))return mc::F("reported total area %g cm2 instead of %g",ra,a*1e4); if(re==re&&!mc::near(re,E*1e6,1e-4,1e-9))return mc::F("reported energy %g uJ instead of %g",re,E*1e6); return ""; }
static double energy(const Mesh&m,const std::vector<std::vector<ElMagField>>&f){ double E=0; for(size_t i=0;i<m.t.size();i++){ V S(0,0,0); for(auto q:f[i])S+=cross(q.E(),q.B())/MuNull; S=S*m.dt; Geo g=geo(m,i); E-=g.area*dot(S,g.n); } return E; }
static V axis(V n,int k){ V a=fabs(n.x)<0.8?V(1,0,0):V(0,1,0); V u=cross(n,a); u.normalize(); return k?cross(n,u):u; }
int main(int argc,char**argv){ mc::init(argc,argv); quiet(); std::string fn=mc::work+"/m.h5";
  // orientation: plane and bent strips facing all directions
  int st=mc::thorough?4:8; for(int th=0;th<=180;th+=st)for(int ph=0;ph<(th==0||th==180?1:360);ph+=(mc::thorough?9:18))for(int bend=0;bend<3;bend++)if(mc::begin(mc::F("face:%d,%d,%d",th,ph,bend))){ V n(sin(th*Pi/180)*cos(ph*Pi/180),cos(th*Pi/180),sin(th*Pi/180)*sin(ph*Pi/180)); V u=axis(n,0),v=axis(n,1); Mesh m=strip(5,V(0.3,-0.2,1),u,v); for(size_t i=0;i<m.p.size();i++){ double x=dot(m.p[i]-V(0.3,-0.2,1),u),y=dot(m.p[i]-V(0.3,-0.2,1),v); m.p[i]+=n*(bend*(0.3*x*x-0.15*y*x)); } centers(m); if(bend==2)for(size_t i=0;i<m.pos.size();i++)m.pos[i]+=V(0.01*i,0,0); save(m,fn); MeshedScreen<Beam> M(fn); M.init(); mc::trans(); std::string e=check(M,m,true); if(e!=""){mc::fail("surface facing %s: %s",vs(n).c_str(),e.c_str());continue;} V a0=M.get_normal(2),x0=M.get_xi(2); M.init(); e=check(M,m,true); if(e!=""||!veq(a0,M.get_normal(2))||!veq(x0,M.get_xi(2)))mc::fail("repeated init() changes the geometry %s",e.c_str()); e=report(M,m,0); if(e!="")mc::fail("%s",e.c_str()); mc::H h; hv(h,a0); hv(h,x0); mc::state(h.h); }
  // topology: all lists of up to 3 (4) triangles over 6 points of a slightly bent surface
  std::vector<V> P={V(0,0,1),V(1,0.1,1.05),V(0.1,1.1,0.97),V(1.2,1,1.1),V(2.1,0.3,1.0),V(0.4,2.2,1.02)}; std::vector<std::array<int,3>> T; for(int a=0;a<6;a++)for(int b=0;b<6;b++)for(int c=0;c<6;c++)if(a!=b&&b!=c&&a!=c){ V x=cross(P[c]-P[a],P[b]-P[a]); if(x.z<0)continue; if(a<b&&a<c)T.push_back({{a,b,c}}); } int nT=T.size(),L=mc::thorough?4:3;
  for(int n=1;n<=L;n++){ long tot=1; for(int i=0;i<n;i++)tot*=nT; for(long c=0;c<tot;c++)if(mc::begin(mc::F("topo:%d,%ld",n,c))){ Mesh m; m.p=P; long k=c; for(int i=0;i<n;i++,k/=nT){ auto t=T[k%nT]; int r=(k+i)%3; m.t.push_back({{t[r],t[(r+1)%3],t[(r+2)%3]}}); } centers(m); save(m,fn); MeshedScreen<Beam> M(fn); M.init(); mc::trans(); double worst=1; V av(0,0,0); for(int i=0;i<n;i++)av+=geo(m,i).n; av.normalize(); for(int i=0;i<n;i++)worst=std::min(worst,dot(av,geo(m,i).n)); std::string e=check(M,m,true,worst>0.75); if(e!="")mc::fail("%s",e.c_str()); mc::H h; h.i(n).i(c); mc::state(h.h); } }
  // fans: up to 40 cells sharing one point, rings
  for(int n=3;n<=40;n++)for(int close=0;close<2;close++)if(mc::begin(mc::F("fan:%d,%d",n,close))){ Mesh m; m.p.push_back(V(0,0,1)); for(int i=0;i<n+1-close;i++)m.p.push_back(V(cos(2*Pi*i/n*0.97),sin(2*Pi*i/n*0.97),1.02)); for(int i=0;i<n;i++){int a=1+i,b=close?1+(i+1)%n:2+i; m.t.push_back({{0,b,a}});} centers(m); save(m,fn); MeshedScreen<Beam> M(fn); M.init(); mc::trans(); std::string e=check(M,m,true,true); if(e!="")mc::fail("%s",e.c_str()); }
  // large surfaces: strips and grids
  for(int n:{33,64,65,130,257,600})for(int g=0;g<2;g++)for(int fl=0;fl<2;fl++)if(mc::begin(mc::F("large:%d,%d,%d",n,g,fl))){ Mesh m; if(!g)m=strip(n,V(0,0,1),V(0.01,0,0),V(0,0.1,0)); else { int w=(int)sqrt(n/2.0),h=n/2/w; for(int i=0;i<=w;i++)for(int j=0;j<=h;j++)m.p.push_back(V(0.01*i,0.012*j,1)); for(int i=0;i<w;i++)for(int j=0;j<h;j++){ int a=i*(h+1)+j,b=a+h+1; m.t.push_back({{a,a+1,b}}); m.t.push_back({{b,a+1,b+1}}); } } for(auto&p:m.p)p+=V(0,0,0.1*p.x*p.x-0.07*p.x*p.y); if(fl)for(auto&t:m.t)std::swap(t[1],t[2]); centers(m); int nc=m.t.size(); m.Nt=2; m.dt=1.7e-12; m.t0.clear(); for(int i=0;i<nc;i++)m.t0.push_back(1e-13*i); m.f.clear(); save(m,fn); MeshedScreen<Beam> M(fn); M.init(); std::vector<std::vector<ElMagField>> f(nc,std::vector<ElMagField>(2,ElMagFieldZero)); std::string e=check(M,m,true); if(e!=""){mc::fail("%s",e.c_str());continue;} double sc=0; for(int i=0;i<nc;i++){ FieldTrace tr(m.t0[i],m.dt,2); for(int t=0;t<2;t++){ double a=1e5*(1+i%17)*(t+1); f[i][t]=ElMagField(V(a,-2*a,0.5*a),V(1e-3*(i%5),2e-3*(t+1),-1e-3)); tr.set_field((std::size_t)t,f[i][t]); sc+=geo(m,i).area*f[i][t].E().norm()*f[i][t].B().norm()/MuNull*m.dt; } M.set_trace(i,tr); } mc::trans(nc); double w=energy(m,f); if(!mc::near(M.totalEnergy(),w,1e-11,sc))mc::fail("total energy %.15g instead of %.15g",M.totalEnergy(),w); for(int i=0;i<nc;i++)for(int t=0;t<2;t++)if(!feq(M.get_trace(i).get_field((std::size_t)t),f[i][t])){mc::fail("trace of cell %d sample %d not as set",i,t);break;} e=report(M,m,w); if(e!="")mc::fail("%s",e.c_str()); e=check(M,m,true); if(e!="")mc::fail("after setting fields: %s",e.c_str()); M.zero(); if(M.totalEnergy()!=0)mc::fail("energy after zero()"); for(int i=0;i<nc;i++)for(int t=0;t<2;t++)if(!feq(M.get_trace(i).get_field((std::size_t)t),ElMagFieldZero)){mc::fail("trace of cell %d not zero after zero()",i);break;} mc::H h; h.d(w); mc::state(h.h); }
  // energy: fields in single cells and all combinations of patterns
  int NC=4,K=5; long tot=1; for(int i=0;i<NC;i++)tot*=K; for(int face=0;face<6;face++)for(int flip=0;flip<2;flip++)for(long c=0;c<tot;c++)if(mc::begin(mc::F("energy:%d,%d,%ld",face,flip,c))){ V n(face==0,face==1,face==2); if(face>=3){n=V(1,face-4,2);n.normalize();} Mesh m=strip(NC,V(0,0,2),axis(n,0),axis(n,1)); for(size_t i=0;i<m.p.size();i++)m.p[i]+=n*(0.02*i*i)+axis(n,0)*(0.05*(i%3)); if(flip)for(auto&t:m.t)std::swap(t[1],t[2]); centers(m); m.Nt=3; m.dt=1.7e-12; m.t0={0,1e-12,2e-12,-3e-12}; save(m,fn); MeshedScreen<Beam> M(fn); M.init(); std::vector<std::vector<ElMagField>> f(NC,std::vector<ElMagField>(3,ElMagFieldZero)); long k=c; for(int i=0;i<NC;i++,k/=K)for(int t=0;t<3;t++){ double a=1e5*(t+1)*(i+1); switch(k%K){case 1:f[i][t]=ElMagField(V(a,0,0),V(0,a/3e8,0));break;case 2:f[i][t]=ElMagField(V(a,-2*a,0.5*a),V(1e-3,2e-3*t,-1e-3));break;case 3:f[i][t]=ElMagField(V(a,a,a),V(0,0,0));break;case 4:f[i][t]=ElMagField(n*a,V(1e-3,1e-3,t*1e-3));break;} }
    for(int i:{2,0,3,1}){ FieldTrace tr(m.t0[i],m.dt,3); for(int t=0;t<3;t++)tr.set_field((std::size_t)t,f[i][t]); M.set_trace(i,tr); mc::trans(); } for(int i=0;i<NC;i++){ V S(0,0,0); for(auto q:f[i])S+=cross(q.E(),q.B())/MuNull; S=S*m.dt; double sc=0; for(auto q:f[i])sc+=q.E().norm()*q.B().norm()/MuNull*m.dt; if(!vclose(M.Poynting(i),S,1e-12,sc))mc::fail("energy flow of cell %d is %s instead of %s",i,vs(M.Poynting(i)).c_str(),vs(S).c_str()); for(int t=0;t<3;t++)if(!feq(M.get_trace(i).get_field((std::size_t)t),f[i][t]))mc::fail("trace of cell %d sample %d not as set",i,t); if(M.get_t0(i)!=m.t0[i])mc::fail("start time of cell %d",i); }
    double w=energy(m,f),sc=0; for(int i=0;i<NC;i++)for(auto q:f[i])sc+=geo(m,i).area*q.E().norm()*q.B().norm()/MuNull*m.dt; if(!mc::near(M.totalEnergy(),w,1e-11,sc))mc::fail("total energy %.15g instead of %.15g",M.totalEnergy(),w); std::string e=report(M,m,w); if(e!="")mc::fail("%s",e.c_str()); M.zero(); if(M.totalEnergy()!=0)mc::fail("energy after zero()"); e=check(M,m,false); if(e!="")mc::fail("geometry after field operations: %s",e.c_str()); mc::H h; h.d(w); mc::state(h.h); }
  // independence of cells: all sequences of settings, zeroing and integration
  { int D=mc::thorough?7:5; CodedField*cf=new CodedField(2,0.5); Lattice lat; lat.addElement(cf); std::string ops="012abcz"; std::function<void(std::string)> rec=[&](std::string q){ if((int)q.size()==D){ if(!mc::begin("cells:"+q))return; Mesh m=strip(3,V(0,0,2),V(1,0,0),V(0,1,0)); m.Nt=2; m.dt=1e-12; m.t0={0,5e-13,1e-12}; save(m,fn); MeshedScreen<Lattice> M(fn); M.setSource(&lat); std::vector<std::vector<ElMagField>> f(3,std::vector<ElMagField>(2,ElMagFieldZero)); int step=0; for(char o:q){ step++; mc::trans(); if(o>='0'&&o<='2'){int i=o-'0'; FieldTrace tr(m.t0[i],m.dt,2); for(int t=0;t<2;t++){f[i][t]=code(i,t,step);tr.set_field((std::size_t)t,f[i][t]);} M.set_trace(i,tr); tr.set_field((std::size_t)0,code(9,9)); } else if(o=='z'){M.zero();for(auto&r:f)for(auto&v:r)v=ElMagFieldZero;} else if(o=='a'){M.integrate();for(int i=0;i<3;i++)for(int t=0;t<2;t++)f[i][t]+=lat.Field(m.t0[i]+t*m.dt,m.pos[i]);} else if(o=='b'){FieldTrace g=M.get_trace(1);g.set_field((std::size_t)0,code(7,7));M.get_trace(2).zero();} else {FieldTrace g=M.get_trace(0)*2.0;g+=g;M.set_trace(0,g);for(auto&v:f[0]){v*=2.0;v+=v;}} for(int i=0;i<3;i++)for(int t=0;t<2;t++)if(!fclose_(M.get_trace(i).get_field((std::size_t)t),f[i][t],1e-13)){mc::fail("after %s: cell %d sample %d holds %s instead of %s",q.substr(0,step).c_str(),i,t,fs(M.get_trace(i).get_field((std::size_t)t)).c_str(),fs(f[i][t]).c_str());return;} } mc::H h; for(auto&r:f)for(auto v:r)hv(h,v.E()); mc::state(h.h); return; } for(char o:ops)rec(q+o); }; rec(""); }
  return mc::finish(); }
