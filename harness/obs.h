// all observers behind one interface: places and times an observer was asked for, access to its samples
#pragma once
#include "fix.h"
namespace fix {
enum Kind{ POINT, SCREEN, SNAP, MESH };
static const char* const KN[4]={"point","screen","snapshot","mesh"};
struct Shape{ Kind k; int nx,ny,nt; V pos,dx,dy; double t0,dt,dtx,dty; bool timing; Shape(Kind k_,int a,int b,int n,V p,V x,V y,double t,double d,double tx,double ty):k(k_),nx(a),ny(b),nt(n),pos(p),dx(x),dy(y),t0(t),dt(d),dtx(tx),dty(ty),timing(true){} };
// the grid as documented: own evaluation from the parameters
struct Grid{ std::vector<V> pos; std::vector<double> t0; };   // cells in order ix*ny+iy / mesh cell / single
inline Mesh meshOf(const Shape&s){ Mesh m=strip(s.nx,s.pos,s.dx,s.dy); for(size_t i=0;i<m.pos.size();i++)m.pos[i]+=V(1e-3*i,-2e-3,1e-3*(i%3)); if(s.timing){ m.Nt=s.nt; m.dt=s.dt; for(int i=0;i<s.nx;i++)m.t0.push_back(s.t0+i*s.dtx); } return m; }
inline Grid gridOf(const Shape&s){ Grid g; V o=s.pos,dx=s.dx,dy=s.dy; switch(s.k){
  case POINT: g.pos.push_back(o); g.t0.push_back(s.t0); break;
  case SCREEN: for(int i=0;i<s.nx;i++)for(int j=0;j<s.ny;j++){ int a=i-s.nx/2,b=j-s.ny/2; g.pos.push_back(o+dx*a+dy*b); g.t0.push_back(s.t0+a*s.dtx+b*s.dty); } break;
  case SNAP: for(int i=0;i<s.nx;i++)for(int j=0;j<s.ny;j++){ double a=i-0.5*(s.nx-1),b=j-0.5*(s.ny-1); g.pos.push_back(o+dx*a+dy*b); g.t0.push_back(s.t0); } break;
  case MESH: { Mesh m=meshOf(s); g.pos=m.pos; g.t0=m.t0; if(!s.timing)g.t0.assign(m.pos.size(),0); break; } } return g; }
template<class T> struct Obs{ Shape s; Grid g; std::string file; PointObserver<T>*p=0; ScreenObserver<T>*c=0; SnapshotObserver<T>*n=0; MeshedScreen<T>*m=0; Observer<T>*o=0;
  // mesh observers read their input from `file` (created here unless keep)
  Obs(const Shape&s_,const std::string&fn,T*src=0,bool keep=false):s(s_),g(gridOf(s_)),file(fn){ switch(s.k){
    case POINT: o=p=new PointObserver<T>(fn,s.pos,s.t0,s.dt,s.nt); break;
    case SCREEN: o=c=new ScreenObserver<T>(fn,s.pos,s.dx,s.dy,s.nx,s.ny,s.t0,s.dt,s.dtx,s.dty,s.nt); break;
    case SNAP: o=n=new SnapshotObserver<T>(fn,s.pos,s.dx,s.dy,s.nx,s.ny,s.t0); break;
    case MESH: if(!keep)save(meshOf(s),fn); o=m=new MeshedScreen<T>(fn); break; } o->setSource(src); }
  ~Obs(){ delete o; } Obs(const Obs&)=delete;
  int cells()const{ return s.k==POINT?1:s.k==MESH?s.nx:s.nx*s.ny; }
  int samples()const{ return s.k==SNAP?1:(s.k==MESH&&!s.timing)?0:s.nt; }
  ElMagField get(int i,int t){ switch(s.k){ case POINT:return p->getField(t); case SCREEN:return c->getField(i/s.ny,i%s.ny,t); case SNAP:return n->getField(i/s.ny,i%s.ny); default:return m->get_trace(i).get_field((std::size_t)t);} }
  void set(int i,int t,ElMagField f){ switch(s.k){ case POINT:p->setField(t,f);break; case SCREEN:c->setField(i/s.ny,i%s.ny,t,f);break; case SNAP:n->setField(i/s.ny,i%s.ny,f);break; default:{FieldTrace q=m->get_trace(i);q.set_field((std::size_t)t,f);m->set_trace(i,q);} } }
  std::vector<double> all(){ std::vector<double> v; for(int i=0;i<cells();i++)for(int t=0;t<samples();t++){ ElMagField f=get(i,t); V e=f.E(),b=f.B(); for(double q:{e.x,e.y,e.z,b.x,b.y,b.z})v.push_back(q);} return v; }
  std::vector<double> buf(){ double*b=o->getBuffer(); std::vector<double> v(b,b+o->getBufferSize()); delete[] b; return v; }
};
inline ElMagField code(int i,int t,double k=1){ double a=k*(1000*(i+1)+10*(t+1)); return ElMagField(V(a+1,-a-2,a+3),V(1e-6*(a+4),a+5,-0.25*(a+6))); }
inline std::string shapeId(const Shape&s){ return mc::F("%s:%d,%d,%d,%d",KN[s.k],s.nx,s.ny,s.nt,(int)s.timing); }
// large grids in every direction
inline std::vector<Shape> largeShapes(){ V o(0.1,-0.2,3.0),dx(0.0002,0.00001,-0.00003),dy(0.00004,0.0003,0.00002),e(0.1,0,0.01),f(0,0.1,0); double t0=9.9e-9,dt=1.7e-11; return {{POINT,1,1,300,o,dx,dy,t0,dt,0,0},{POINT,1,1,1025,o,dx,dy,t0,dt,0,0},{SCREEN,130,1,3,o,dx,dy,t0,dt,3.1e-12,-4.3e-12},{SCREEN,1,130,3,o,dx,dy,t0,dt,3.1e-12,-4.3e-12},{SCREEN,17,33,2,o,dx,dy,t0,dt,3.1e-14,-4.3e-14},{SCREEN,2,1,1100,o,dx,dy,t0,dt,3.1e-12,-4.3e-12},{SNAP,130,1,1,o,dx,dy,t0,dt,0,0},{SNAP,2,300,1,o,dx,dy,t0,dt,0,0},{SNAP,33,18,1,o,dx,dy,t0,dt,0,0},{MESH,130,1,3,o,e,f,t0,dt,2.9e-14,0},{MESH,2,1,1100,o,e,f,t0,dt,2.9e-12,0},{MESH,1025,1,2,o,e,f,t0,dt,2.9e-14,0}}; }
// all kinds x grid shapes; geometry with non-orthogonal steps and per-index time offsets
inline std::vector<Shape> shapes(int N,int T,bool zero){ std::vector<Shape> v; V o(0.1,-0.2,3.0),dx(0.02,0.001,-0.003),dy(0.004,0.03,0.002); double t0=9.9e-9,dt=1.7e-11; int lo=zero?0:1;
  for(int t=lo;t<=T;t++)v.push_back({POINT,1,1,t,o,dx,dy,t0,dt,0,0});
  for(int i=lo;i<=N;i++)for(int j=lo;j<=N;j++){ for(int t=lo;t<=T;t++)v.push_back({SCREEN,i,j,t,o,dx,dy,t0,dt,3.1e-12,-4.3e-12}); v.push_back({SNAP,i,j,1,o,dx,dy,t0,dt,0,0}); }
  for(int i=1;i<=N+2;i++){ for(int t=lo;t<=T;t++)v.push_back({MESH,i,1,t,o,V(0.1,0,0.01),V(0,0.1,0),t0,dt,2.9e-12,0}); if(zero){ Shape s={MESH,i,1,0,o,V(0.1,0,0.01),V(0,0.1,0),0,0,0,0}; s.timing=false; v.push_back(s);} }
  return v; }
}
