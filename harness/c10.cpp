// C10: field traces against a sample-by-sample model, for every sequence of operations up to a depth
#include "teu.h"
struct M{double t0,dt; std::vector<ElMagField> f;};
static ElMagField val(int i,int s){return ElMagField(V(1+i+10*s,-2.0*i+s,0.5*i*i-s),V(1e-8*(i-s),3e-9*i*i,1e-9*(s+1)));}
static M mk(double t0,double dt,int N,int s){M m;m.t0=t0;m.dt=dt;for(int i=0;i<N;i++)m.f.push_back(val(i,s));return m;}
static FieldTrace* real(const M&m){FieldTrace*t=new FieldTrace(m.t0,m.dt,m.f.size()); for(size_t i=0;i<m.f.size();i++)t->set_field(i,m.f[i]); return t;}
static ElMagField lin(const M&m,double t,bool&edge){ long double r=((long double)t-m.t0)/m.dt; edge=false; int N=m.f.size(); ElMagField z; 
  if(r<=-1||r>=N){return z;} long double k=floorl(r); int i=(int)k; double u=(double)(r-k); ElMagField a,b; if(i>=0&&i<N)a=m.f[i]; if(i+1>=0&&i+1<N)b=m.f[i+1]; return a*(1-u)+b*u; }
static std::string cmp(FieldTrace&t,M&m,double rel,double xE=0,double xB=0){ // xE,xB: magnitude of the operands; afterwards the model continues from the values stored
  if(t.get_N()!=m.f.size())return mc::F("size %d expected %d",(int)t.get_N(),(int)m.f.size());
  if(!mc::near(t.get_t0(),m.t0,1e-14)||!mc::near(t.get_dt(),m.dt,1e-14))return mc::F("timing (%g,%g) expected (%g,%g)",t.get_t0(),t.get_dt(),m.t0,m.dt);
  double sE=xE,sB=xB; for(ElMagField f:m.f){sE=std::max(sE,f.E().norm());sB=std::max(sB,f.B().norm());}
  for(size_t i=0;i<m.f.size();i++)if(!fclose_(t.get_field(i),m.f[i],rel,sE,sB))return mc::F("sample %d: %s expected %s",(int)i,fs(t.get_field(i)).c_str(),fs(m.f[i]).c_str());
  for(size_t i=0;i<m.f.size();i++)m.f[i]=t.get_field(i);
  std::vector<ElMagField> b(m.f.size()+1); if(m.f.size()){t.get_buffer(b.data(),m.f.size()); for(size_t i=0;i<m.f.size();i++)if(!feq(b[i],t.get_field(i)))return "buffer differs from samples";}
  for(size_t i=0;i<m.f.size();i++)if(!mc::near(t.get_time(i),m.t0+i*m.dt,1e-14,m.dt))return "time of sample";
  if(m.f.size()&&!mc::near(t.get_last_time(),m.t0+(m.f.size()-1)*m.dt,1e-14,m.dt))return "last time";
  V S; double sc=0; for(ElMagField f:m.f){ V p=cross(f.E(),f.B())*(1.0/MuNull); S+=p; sc+=f.E().norm()*f.B().norm()/MuNull; } S=S*m.dt; if(!vclose(t.Poynting(),S,1e-11,sc*m.dt))return "Poynting "+vs(t.Poynting())+" expected "+vs(S);
  return ""; }
template<class F> static bool throws(F f){ try{f();}catch(IOexception&){return true;}catch(RANGEexception&){return true;} return false; }
static ElMagField sc(ElMagField f,double k){return ElMagField(V(f.E().x*k,f.E().y*k,f.E().z*k),V(f.B().x*k,f.B().y*k,f.B().z*k));}
static ElMagField ad(ElMagField a,ElMagField b,double k=1){ElMagField c=sc(b,k); return ElMagField(V(a.E().x+c.E().x,a.E().y+c.E().y,a.E().z+c.E().z),V(a.B().x+c.B().x,a.B().y+c.B().y,a.B().z+c.B().z));}
int main(int argc,char**argv){
  mc::init(argc,argv);
  // operations on a pair (A,B) of traces
  const char*ON[]={"A*k","A/k","A+B","A+=B","A-B","A=B","copy","ptrcopy","set_t0","setbuf","retard","deriv","cancel","transform","zero","add","swap","selfplus","selfassign"}; const int NO=19;
  struct Start{M a,b;}; std::vector<Start> st; 
  for(int N:{0,1,2,3,5}){ st.push_back({mk(1e-9,1e-12,N,1),mk(1e-9,1e-12,N,2)}); st.push_back({mk(-3.7e-9,0.7e-12,N,0),mk(-3.7e-9+1.9*0.7e-12,0.7e-12,N,3)}); }
  st.push_back({mk(0,1e-12,3,1),mk(0,1e-12,4,2)}); st.push_back({mk(0,1e-12,3,1),mk(0,2e-12,3,2)}); st.push_back({mk(1e-12,1e-12,4,1),mk(0,0.5e-12,9,2)}); st.push_back({mk(0,1e-12,5,1),mk(4e-12,3e-12,2,2)}); st.push_back({mk(0,1e-12,0,1),mk(0,1e-12,2,2)});
  // nearly equal timing is a mismatch as well
  for(double f:{0.3,1e-3}){ st.push_back({mk(1e-9,1e-12,3,1),mk(1e-9+f*1e-12,1e-12,3,2)}); st.push_back({mk(1e-9,1e-12,3,1),mk(1e-9,1e-12*(1+f),3,2)}); st.push_back({mk(0,1e-12,3,1),mk(-f*1e-12,1e-12*(1-f),3,2)}); }
  for(int N:{64,130,1025,70000}){ st.push_back({mk(1e-9,1e-12,N,1),mk(1e-9,1e-12,N,2)}); st.push_back({mk(-3.7e-9,0.7e-12,N,0),mk(-3.7e-9+1.9*0.7e-12,0.7e-12,N-1,3)}); }
  int depth=mc::thorough?5:4;
  for(size_t s=0;s<st.size();s++)for(int d=1;d<=depth;d++){
    if(d==depth&&((s>=3&&s<8)||s>14)&&!mc::thorough)continue; if(d>2&&st[s].a.f.size()>9)continue; if(d>1&&st[s].a.f.size()>9999)continue;
    uint64_t tot=1;for(int i=0;i<d;i++)tot*=NO; if(d==5&&s%3)continue;
    // one case per first-two operations
    uint64_t grp=d>2?NO*NO:tot; for(uint64_t g=0;g<grp;g++){ if(!mc::begin(mc::F("seq:%d,%d,%d",(int)s,d,(int)g)))continue;
      for(uint64_t r=0;r<tot/grp&&!mc::failed();r++){ uint64_t code=g*(tot/grp)+r; std::vector<int> ops(d); uint64_t c=code; for(int i=d-1;i>=0;i--){ops[i]=c%NO;c/=NO;}
        M a=st[s].a,b=st[s].b; std::unique_ptr<FieldTrace> A(real(a)),B(real(b)); std::string tr;
        for(int i=0;i<d;i++){ int o=ops[i]; tr+=std::string(i?" ":"")+ON[o]; bool size=a.f.size()==b.f.size(), match=size&&a.t0==b.t0&&a.dt==b.dt; mc::trans(); double xE=0,xB=0; for(M*q:{&a,&b})for(ElMagField f:q->f){xE=std::max(xE,f.E().norm());xB=std::max(xB,f.B().norm());} if(o==11){xE/=a.dt;xB/=a.dt;} bool th=false,et=false; std::unique_ptr<FieldTrace> res; M m=a;
          auto put=[&](FieldTrace t){res.reset(new FieldTrace(t));};
          switch(o){
            case 0: th=throws([&]{put(*A * -1.5);}); for(auto&f:m.f)f=sc(f,-1.5); break;
            case 1: th=throws([&]{put(*A / 4.0);}); for(auto&f:m.f)f=sc(f,0.25); break;
            case 2: et=!match; th=throws([&]{put(*A + *B);}); if(match)for(size_t k=0;k<m.f.size();k++)m.f[k]=ad(a.f[k],b.f[k]); break;
            case 3: et=!match; th=throws([&]{FieldTrace&q=(*A += *B); if(&q!=A.get())mc::fail("+= returns another object");}); if(match)for(size_t k=0;k<m.f.size();k++)a.f[k]=ad(a.f[k],b.f[k]); break;
            case 4: et=!match; th=throws([&]{put(*A - *B);}); if(match)for(size_t k=0;k<m.f.size();k++)m.f[k]=ad(a.f[k],b.f[k],-1); break;
            case 5: et=!size; th=throws([&]{*A = *B;}); if(size)a=b; break;
            case 6: {FieldTrace q(*A); put(q);} break;
            case 7: {FieldTrace*q=new FieldTrace(A.get()); res.reset(q);} break;
            case 8: A->set_t0(2.5e-12+i*1e-12); a.t0=2.5e-12+i*1e-12; break;
            case 9: { size_t N=a.f.size(); std::vector<ElMagField> buf(N+2); for(size_t k=0;k<N+2;k++)buf[k]=val(k,7+i); bool x1=throws([&]{A->set_buffer(buf.data(),N+1);}),x2=N?throws([&]{A->set_buffer(buf.data(),N-1);}):true,x3=throws([&]{A->get_buffer(buf.data(),N+1);}); if(!x1||!x2||!x3)mc::fail("%s: buffer of wrong size accepted",tr.c_str()); std::string e=cmp(*A,a,1e-10); if(!e.empty()){mc::fail("%s: refused buffer changed the trace: %s",tr.c_str(),e.c_str());} for(size_t k=0;k<N;k++)buf[k]=val(k,7+i); A->set_buffer(buf.data(),N); for(size_t k=0;k<N;k++)a.f[k]=buf[k]; break; }
            case 10: { double dl=1.3e-12; M t=b; bool z=true; for(size_t k=0;k<t.f.size();k++){bool e; t.f[k]=lin(a,b.t0+k*b.dt-dl,e);} double q=0,qa=0; for(ElMagField f:t.f)q=std::max(q,std::max(f.E().norm(),f.B().norm())); for(ElMagField f:a.f)qa=std::max(qa,std::max(f.E().norm(),f.B().norm())); z=q==0; bool nearzero=!z&&q<=1e-9*qa;
                th=throws([&]{A->retard(dl,B.get());}); et=z; if(nearzero){et=th;} b=t; if(th){ /* contents of the target are unspecified: continue with a clean one */ B.reset(real(b)); } break; }
            case 11: { if(a.f.size()<2){ bool t2=throws([&]{FieldTrace*q=A->derivative(); for(size_t k=0;k<q->get_N();k++)if(!q->get_field(k).isNull())mc::fail("%s: derivative of fewer than two samples is not zero",tr.c_str()); delete q;}); (void)t2; }
                else { res.reset(A->derivative()); int N=m.f.size(); for(int k=0;k<N;k++){int l=std::max(0,k-1),h=std::min(N-1,k+1); m.f[k]=sc(ad(a.f[h],a.f[l],-1),1.0/((h-l)*a.dt));} } break; }
            case 12: { V n(0.3,-2,1.2); A->cancel_long_fields(n); V u=n/n.norm(); for(auto&f:a.f)f=ElMagField(f.E()-u*dot(f.E(),u),f.B()-u*dot(f.B(),u)); break; }
            case 13: { V ex(0.6,0.8,0),ey(0,0,1),ez(0.8,-0.6,0); A->transform(ex,ey,ez); for(auto&f:a.f)f=ElMagField(V(dot(f.E(),ex),dot(f.E(),ey),dot(f.E(),ez)),V(dot(f.B(),ex),dot(f.B(),ey),dot(f.B(),ez))); break; }
            case 14: A->zero(); for(auto&f:a.f)f=ElMagField(); break;
            case 15: { size_t N=a.f.size(); bool x1=throws([&]{A->add(N,val(1,1));}),x2=throws([&]{A->set_field(N,val(1,1));}),x3=throws([&]{A->get_field(N);}),x4=throws([&]{A->get_time(N);}),x5=throws([&]{A->add((size_t)-1,val(1,1));}); if(!x1||!x2||!x3||!x4||!x5)mc::fail("%s: out-of-range access accepted (add %d set %d get %d time %d add-1 %d)",tr.c_str(),x1,x2,x3,x4,x5); if(N){A->add(N-1,val(4,4)); a.f[N-1]=ad(a.f[N-1],val(4,4));} break; }
            case 16: std::swap(a,b); A.swap(B); break;
            case 17: put(*A + *A); for(size_t k=0;k<m.f.size();k++)m.f[k]=sc(a.f[k],2); break;
            case 18: {FieldTrace&q=*A; *A=q; break;} }
          if(th!=et)mc::fail("start %d, %s: %s",(int)s,tr.c_str(),th?"unexpected exception":"mismatch accepted without exception");
          std::string e;
          if(res&&!(e=cmp(*res,m,1e-12,xE,xB)).empty())mc::fail("start %d, %s: result: %s",(int)s,tr.c_str(),e.c_str());
          if(!(e=cmp(*A,a,1e-12,o==11?0:xE,o==11?0:xB)).empty())mc::fail("start %d, %s: first operand: %s",(int)s,tr.c_str(),e.c_str());
          if(!(e=cmp(*B,b,1e-12,o==11?0:xE,o==11?0:xB)).empty())mc::fail("start %d, %s: second operand: %s",(int)s,tr.c_str(),e.c_str());
          // interpolation anywhere
          std::vector<double> xs={-2.2,-1.0001,-0.6,0.0,0.25,0.5,1.0,1.999,2.75,4.0,4.4,5.5,1e11,-1e11,1-1e-7,1+1e-7,2-3e-9,-1e-7,-1+1e-7}; for(double q:{-1.5,-0.5,-0.01,0.3,-1-1e-7,-1+1e-7,-1e-7})xs.push_back(a.f.size()+q); for(double x:xs){ double t=a.t0+x*a.dt; bool ed; ElMagField w=lin(a,t,ed),g=A->get_field(t); double sE=0,sB=0; for(ElMagField f:a.f){sE=std::max(sE,f.E().norm());sB=std::max(sB,f.B().norm());} double k=1e-12+1e-15*(std::fabs(a.t0)/a.dt+(std::fabs(x)<1e6?std::fabs(x):0)); if(!fclose_(g,w,0,0,0)&&!((g.E()-w.E()).norm()<=k*8*sE&&(g.B()-w.B()).norm()<=8*k*sB))mc::fail("start %d, %s: field at t0%+g dt: %s expected %s",(int)s,tr.c_str(),x,fs(g).c_str(),fs(w).c_str()); }
          if(mc::failed())break;
          if(res){ if(o<=4||o==11||o==17){A.swap(res); a=m;} else { A.swap(res);} }  // results become the next operand
        }
        mc::H h; h.i(a.f.size()).d(a.t0).d(a.dt); for(ElMagField f:a.f)h.d(f.E().x).d(f.B().z); mc::state(h.h); mc::H h2; h2.i(b.f.size()).d(b.t0); for(ElMagField f:b.f)h2.d(f.E().y); mc::outcome(h2.h);
        if(s==3&&d==3&&r==100)mc::sample(tr); } } }
  // every operation with many parameter values
  std::vector<V> ns={V(1,0,0),V(0,-1,0),V(0,0,1),V(0.3,-0.2,0.1),V(1e-6,2e-6,-1e-6),V(1e5,-3e5,2e5),V(0.6,0,-0.8),V(0.577,0.577,0.577),V(-3,0,0)};
  struct Ax{V x,y,z;}; std::vector<Ax> axs={{V(1,0,0),V(0,1,0),V(0,0,1)},{V(0,1,0),V(0,0,1),V(1,0,0)},{V(-1,0,0),V(0,1,0),V(0,0,1)},{V(0.6,0.8,0),V(0,0,1),V(0.8,-0.6,0)},{V(0.6,0.8,0),V(-0.8,0.6,0),V(0,0,-1)},{V(2.0/3,-1.0/3,2.0/3),V(2.0/3,2.0/3,-1.0/3),V(-1.0/3,2.0/3,2.0/3)}};
  for(int N:{1,2,3,7,40})for(int sd=0;sd<3;sd++){ M a0=mk(2e-9,0.8e-12,N,sd); if(sd==2)for(int i=0;i<N;i++)a0.f[i]=i%2?ElMagField():ElMagField(V(0,0,i+1),V());
    auto run=[&](const std::string&id,std::function<void(FieldTrace&,M&)> f){ if(!mc::begin(id))return; M a=a0; std::unique_ptr<FieldTrace> A(real(a)); double xE=0,xB=0; for(auto&v:a.f){xE=std::max(xE,v.E().norm());xB=std::max(xB,v.B().norm());} f(*A,a); mc::trans(); std::string e=cmp(*A,a,1e-12,xE,xB); if(e!="")mc::fail("%s",e.c_str()); mc::H h; for(auto&v:a.f)hv(h,v.E()); mc::state(h.h); };
    for(size_t k=0;k<ns.size();k++)run(mc::F("normal:%d,%d,%zu",N,sd,k),[&](FieldTrace&A,M&a){ V n=ns[k]; V u=n/n.norm(); A.cancel_long_fields(n); for(auto&f:a.f)f=ElMagField(f.E()-u*dot(f.E(),u),f.B()-u*dot(f.B(),u)); });
    for(size_t k=0;k<axs.size();k++)run(mc::F("axes:%d,%d,%zu",N,sd,k),[&](FieldTrace&A,M&a){ Ax x=axs[k]; A.transform(x.x,x.y,x.z); for(auto&f:a.f){V E=f.E(),B=f.B(); f=ElMagField(V(dot(E,x.x),dot(E,x.y),dot(E,x.z)),V(dot(B,x.x),dot(B,x.y),dot(B,x.z)));} });
    for(double k:{0.0,1.0,-1.0,1e-12,3.7e9})run(mc::F("factor:%d,%d,%g",N,sd,k),[&](FieldTrace&A,M&a){ FieldTrace q=A*k; for(int i=0;i<N;i++)if(!fclose_(q.get_field((std::size_t)i),sc(a.f[i],k),1e-14))mc::fail("product sample %d",i); if(k!=0){ FieldTrace r=A/k; for(int i=0;i<N;i++)if(!fclose_(r.get_field((std::size_t)i),sc(a.f[i],1/k),1e-14))mc::fail("quotient sample %d",i); } });
    // retardation into traces of other length, step and start; the source stays as it is
    for(int Nt:{1,2,5,40})for(double rdt:{1.0,0.37,2.6})for(int pre=0;pre<2;pre++)for(double d:{0.0,0.5,1.0,1.3,-0.7,-1.0,-3.25,6.5,(double)N-1,(double)N-0.5,(double)N,-(double)Nt*rdt,1e4,-1e4})run(mc::F("retard:%d,%d,%d,%g,%d,%g",N,sd,Nt,rdt,pre,d),[&](FieldTrace&A,M&a){ M t=mk(a.t0+(pre?0.45*a.dt:0),a.dt*rdt,Nt,5); std::unique_ptr<FieldTrace> T(real(t)); double q=0,qa=0; for(auto&f:a.f)qa=std::max(qa,f.E().norm()+f.B().norm()*SpeedOfLight); for(int i=0;i<Nt;i++){bool e; t.f[i]=lin(a,t.t0+i*t.dt-d*a.dt,e); q=std::max(q,t.f[i].E().norm()+t.f[i].B().norm()*SpeedOfLight);} bool th=throws([&]{A.retard(d*a.dt,T.get());}); if(q==0&&!th){ double g=0; for(int i=0;i<Nt;i++){ElMagField f=T->get_field((std::size_t)i);g=std::max(g,f.E().norm()+f.B().norm()*SpeedOfLight);} if(g==0||g>1e-8*qa)mc::fail("no overlap, no exception"); return; } if(th){ if(q>1e-8*qa)mc::fail("rejected although there is field"); return; } for(int i=0;i<Nt;i++){ ElMagField f=T->get_field((std::size_t)i); if((f.E()-t.f[i].E()).norm()+(f.B()-t.f[i].B()).norm()*SpeedOfLight>1e-8*qa)mc::fail("sample %d: %s expected %s",i,fs(f).c_str(),fs(t.f[i]).c_str()); } if(!mc::near(T->get_t0(),t.t0,1e-15)||!mc::near(T->get_dt(),t.dt,1e-15))mc::fail("timing of the target changed"); });
  }
  return mc::finish();
}
