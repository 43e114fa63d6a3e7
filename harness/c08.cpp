// C08: superposition of fields over members of lattices, bunches and beams; member addressing
#include "fix.h"
using namespace fix;
static int g_deleted[2048];
struct Tag:public GeneralField{ int id; CodedField f; Tag(int i):id(i),f(1e3*(1+0.37*i)*((i&1)?-1:1),0.01*(2+i*i)){} ~Tag()override{g_deleted[id]++;} bool is_external()override{return true;} ElMagField Field(double t,V X)override{return f.Field(t,X);} };
static const std::vector<std::pair<double,V>> Q={{0,V(0,0,0)},{1e-9,V(0.3,-0.7,2.1)},{-4e-10,V(-12,5,0.25)}};
static void sumcheck(GeneralField*l,const std::vector<Tag*>&m,const char*what){ static bool rev=false; rev=!rev; for(size_t iq=0;iq<Q.size();iq++){ auto&q=Q[rev?Q.size()-1-iq:iq]; /* a repeated query starts where the former one ended */ V E,B; double sE=0,sB=0; for(Tag*t:m){ElMagField f=t->Field(q.first,q.second);V e=f.E(),b=f.B();E=E+e;B=B+b;sE+=e.norm();sB+=b.norm();} ElMagField g=l->Field(q.first,q.second); if(m.empty()){ if(!(veq(g.E(),V())&&veq(g.B(),V())))mc::fail("%s: empty collection gives %s",what,fs(g).c_str()); } else if(!fclose_(g,ElMagField(E,B),1e-12,sE,sB))mc::fail("%s: field of %d members at t=%g is %s, sum of members %s",what,(int)m.size(),q.first,fs(g).c_str(),fs(ElMagField(E,B)).c_str()); } }
// elements of the same and of different kinds taking turns at the same time and place: all words up to a length over (kind, variant), each step exchanges one of two elements (or changes an element) and queries the same points
static GeneralField* variant(int k,int v){ double s=v?-1.7:1; switch(k){ case 0:{auto*u=new PlanarUndulator(V(0,0,1.0));u->Setup(0.3*s,0.03+0.01*v,10);return u;} case 1:{auto*u=new TransverseGradientUndulator(V(0,0,1.0));u->Setup(0.2*s,20+10*v,0.1*v,0.03,10);return u;} case 2:return new HomogeneousField(V(1e3,-2e3,5e2)*s,V(0.01,0.02,-0.03)*s); case 3:{auto*w=new GaussianWave(1e-11,V(0.001,0,0.4));w->Setup(1e-4*(1+v),std::complex<double>(1e6,-4e5)*s,0.2);return w;} case 4:{auto*w=new GaussianWavePacket(3.3e-9,V(0,0,0.5));w->Setup(1e-4*(1+v),std::complex<double>(2e6,0)*s,0.3,1e-9);return w;} case 5:return new HardEdgeDipole(V(0.02,0.4,-0.01)*s,V(0,0,0.5),V(0,0,-1),V(0,0,1.5),V(0,0.1,1)); default:return new SoftEdgeDipole(V(0.02,0.4,-0.01)*s,V(0,0,0.5),V(0,0,-1),0.01*(1+v),V(0,0,1.5),V(0,0.1,1),0.02); } }
static void exchange(){ const std::vector<std::pair<double,V>> PT={{4e-9,V(1e-3,2e-3,0.95)},{5e-9,V(1e-3,1e-3,1.1)}}; int n=14,depth=mc::thorough?4:3; std::vector<int> w; std::vector<std::vector<ElMagField>> own(n); for(int i=0;i<n;i++){ std::unique_ptr<GeneralField> g(variant(i/2,i%2)); for(auto&q:PT)own[i].push_back(g->Field(q.first,q.second)); }
  std::function<void()> rec=[&](){
    if(w.size()>=2){ std::string id="exchange"; for(int k:w)id+=mc::F(":%d",k);
      if(mc::begin(id))for(int mode=0;mode<2;mode++){ Lattice L; V E0,B0; if(mode==0){ E0=V(1,2,3); B0=V(4,5,6); L.addElement(new HomogeneousField(E0,B0)); }
        int at=mode==0?1:0; GeneralField*cur=0; bool ok=true;
        for(size_t i=0;i<w.size()&&ok;i++){ if(cur){ L.remove(at); delete cur; } cur=variant(w[i]/2,w[i]%2); L.addElement(cur);
          for(size_t r=0;r<2*PT.size()&&ok;r++){ size_t q=i%2?r/2:PT.size()-1-r/2; ElMagField got=L.Field(PT[q].first,PT[q].second),f=own[w[i]][q]; ElMagField ex(E0+f.E(),B0+f.B()); if(!fclose_(got,ex,1e-12,E0.norm()+f.E().norm(),B0.norm()+f.B().norm())){ mc::fail("step %d point %d: %s instead of %s",(int)i,(int)q,fs(got).c_str(),fs(ex).c_str()); ok=false; } mc::trans(); } }
        mc::H hh; hh.s(id); mc::state(hh.h); } }
    if((int)w.size()==depth)return;
    for(int k=0;k<n;k++){ if(!w.empty()&&w.back()==k)continue; w.push_back(k); rec(); w.pop_back(); } };
  rec(); }
static void lattices(){ int depth=mc::thorough?7:5; // ops: a = add fresh, b = re-add a removed one, r0/r1/rl = remove first/second/last, x = invalid accesses
  std::vector<int> seq; static const char*N="abstlxn";
  std::function<void(int,int)> rec=[&](int cnt,int rem){ std::string id; for(int k:seq)id+=N[k];
    if((int)seq.size()==depth||seq.size()>=1)if(mc::begin("lattice:"+id)){ memset(g_deleted,0,sizeof g_deleted); int next=0; std::vector<Tag*> ref,out; std::vector<int> kept; { Lattice L;
        for(size_t s=0;s<seq.size();s++){ mc::trans(); int n=(int)ref.size();
          switch(N[seq[s]]){ case 'a':{Tag*t=new Tag(next++);L.addElement(t);ref.push_back(t);break;} case 'b':{Tag*t=out.back();out.pop_back();L.addElement(t);ref.push_back(t);break;}
            case 's':L.remove(0);out.push_back(ref[0]);ref.erase(ref.begin());break; case 't':L.remove(1);out.push_back(ref[1]);ref.erase(ref.begin()+1);break; case 'l':L.remove(n-1);out.push_back(ref[n-1]);ref.pop_back();break;
            case 'x': for(int i:{-1,-2147483647-1,n,n+1,2147483647}){ bool th=false; try{L.at(i);}catch(IOexception&){th=true;} if(!th)mc::fail("at(%d) of %d elements gives no exception",i,n); th=false; try{L.remove(i);}catch(IOexception&){th=true;} if(!th)mc::fail("remove(%d) of %d elements gives no exception",i,n);} break;
            case 'n': sumcheck(&L,ref,"query"); break; }
          n=(int)ref.size(); if(L.count()!=n){mc::fail("count() is %d instead of %d after step %d",L.count(),n,(int)s);break;} for(int i=0;i<n;i++)if(L.at(i)!=ref[i])mc::fail("at(%d) does not give the element added there (step %d)",i,(int)s);
          for(int i=0;i<next;i++)if(g_deleted[i])mc::fail("element %d deleted by step %d",i,(int)s); if(mc::failed())break; }
        if(!mc::failed())sumcheck(&L,ref,"lattice"); mc::H h; for(Tag*t:ref)h.i(t->id); mc::state(h.h); for(Tag*t:ref)kept.push_back(t->id); }
      for(int k:kept)if(g_deleted[k]!=1)mc::fail("element %d destroyed %d times with the lattice",k,g_deleted[k]); for(Tag*t:out){ if(g_deleted[t->id]!=0)mc::fail("element %d destroyed although removed",t->id); else delete t; } }
    if((int)seq.size()==depth)return;
    for(int k=0;k<7;k++){ char c=N[k]; if(c=='b'&&!rem)continue; if(c=='s'&&cnt<1)continue; if(c=='t'&&cnt<2)continue; if(c=='l'&&cnt<3)continue; if((c=='x'||c=='n')&&!seq.empty()&&N[seq.back()]==c)continue; int dc=(c=='a'||c=='b')?1:(c=='s'||c=='t'||c=='l')?-1:0; int dr=c=='b'?-1:dc<0?1:0; seq.push_back(k); rec(cnt+dc,rem+dr); seq.pop_back(); } };
  rec(0,0);
  // nesting: every split of up to 4 elements into (flat, inner lattice, inner inner lattice)
  for(int n=0;n<=4;n++){ int tot=1; for(int i=0;i<n;i++)tot*=3; for(int m=0;m<tot;m++)if(mc::begin(mc::F("nested:%d,%d",n,m))){ memset(g_deleted,0,sizeof g_deleted); std::vector<Tag*> ref; { Lattice L; Lattice*a=new Lattice(),*b=new Lattice(); a->addElement(b); int k=m; for(int i=0;i<n;i++,k/=3){Tag*t=new Tag(i);ref.push_back(t);(k%3==0?&L:k%3==1?a:b)->addElement(t);mc::trans();} L.addElement(a); sumcheck(&L,ref,"nested lattice"); } for(int i=0;i<n;i++)if(g_deleted[i]!=1)mc::fail("element %d destroyed %d times",i,g_deleted[i]); } }
  // many elements, every third one removed and half of them added again
  for(int n:{9,17,33,64,65,129,257,1000})for(int w=0;w<3;w++)if(mc::begin(mc::F("many:%d,%d",n,w))){ memset(g_deleted,0,sizeof g_deleted); std::vector<Tag*> ref,out; { Lattice L; for(int i=0;i<n;i++){Tag*t=new Tag(i);L.addElement(t);ref.push_back(t);mc::trans();} sumcheck(&L,ref,"large lattice"); for(int i=w?n-1:0;i>=0&&i<(int)ref.size();i+=w==0?2:w==1?-3:-1){ if(w==2&&i<n/2)break; L.remove(i); out.push_back(ref[i]); ref.erase(ref.begin()+i); mc::trans(); } if(L.count()!=(int)ref.size())mc::fail("count"); else { for(size_t i=0;i<ref.size();i++)if(L.at(i)!=ref[i]){mc::fail("at(%d)",(int)i);break;} sumcheck(&L,ref,"large lattice after removals"); for(size_t i=0;i<out.size();i+=2){L.addElement(out[i]);ref.push_back(out[i]);out[i]=0;} sumcheck(&L,ref,"large lattice after re-adding"); } }
    for(Tag*t:out)if(t){ if(g_deleted[t->id])mc::fail("removed element destroyed"); else delete t; } for(int i=0;i<n;i++)if(g_deleted[i]!=1)mc::fail("element %d destroyed %d times",i,g_deleted[i]); mc::H h; h.i(n).i(w); mc::state(h.h); }
  // real elements of all kinds, all orders
  auto mk=[](int k)->GeneralField*{ switch(k){ case 0:{auto*u=new PlanarUndulator(V(0,0,1.0));u->Setup(0.3,0.03,10);return u;} case 1:return new HomogeneousField(V(1e3,-2e3,5e2),V(0.01,0.02,-0.03)); case 2:{auto*w=new GaussianWave(1e-11,V(0.1,0,0.4));w->Setup(1e-4,std::complex<double>(1e6,-4e5),0.2);return w;} case 3:{auto*w=new GaussianWavePacket(0,V(0,0,0.5));w->Setup(1e-4,std::complex<double>(2e6,0),0.3,1e-11);return w;} case 4: return new HardEdgeDipole(V(0.02,0.4,-0.01),V(0,0,0.5),V(0,0,-1),V(0,0,1.5),V(0,0.1,1)); } return 0; };
  std::vector<int> p={0,1,2,3,4}; const std::vector<std::pair<double,V>> PT={{0,V(0,0,1.0)},{2e-12,V(1e-3,2e-3,0.9)},{1e-11,V(0.1,0.001,1.1)},{0,V(0,0,3)},{0,V(0,0.01,0.5)}};
  do{ if(!mc::begin(mc::F("real:%d%d%d%d%d",p[0],p[1],p[2],p[3],p[4])))continue; for(int n=1;n<=5;n++){ Lattice L; Own<GeneralField> own; for(int i=0;i<n;i++){L.addElement(mk(p[i]));own(mk(p[i]));mc::trans();} for(auto&q:PT){ V E,B;double sE=0,sB=0; for(auto*f:own.v){ElMagField x=f->Field(q.first,q.second);V e=x.E(),b=x.B();E=E+e;B=B+b;sE+=e.norm();sB+=b.norm();} ElMagField g=L.Field(q.first,q.second); if(!fclose_(g,ElMagField(E,B),1e-12,sE,sB))mc::fail("lattice of %d elements: %s, sum of elements %s",n,fs(g).c_str(),fs(ElMagField(E,B)).c_str()); mc::H h; h.add(&g,sizeof(double)*3); mc::state(h.h); } } }while(std::next_permutation(p.begin(),p.end()));
  exchange();
}
static CodedField FLD(4e5,0.12);
static ChargedParticle* part(int i,double f=1){ return track(f*(1+0.5*i)*((i&1)?-1:1),V(1e-3*(i+1),-7e-4*i,-2e-3*i),V(0.1*(i-1),0.05*i,2.0+0.3*i),1e-12*i,2e-11*(1+0.1*i),12,&FLD); }
struct Obs{ double t; V x; };
static std::vector<Obs> obs(){ std::vector<Obs> o; for(V x:{V(0.4,0.1,1.0),V(-0.2,0.3,-0.5),V(0.01,0.02,3)})for(double t:{1e-12,1.6e-9,3.5e-9,5.1e-9,1.02e-8})o.push_back({t,x}); return o; }
struct Sum{ std::vector<ElMagField> f; std::vector<double> sE,sB; std::vector<std::vector<ElMagField>> tr; };
static const int NT=9; static double tr0(V x){ return x.norm()/SpeedOfLight-1e-10; }
static Sum reference(const std::vector<std::pair<int,double>>&m){ static std::map<std::pair<int,double>,Sum> cache; Sum S; auto O=obs(); S.f.assign(O.size(),ElMagField()); S.sE.assign(O.size(),0); S.sB=S.sE; S.tr.assign(O.size(),std::vector<ElMagField>(NT)); 
  for(auto&k:m){ if(!cache.count(k)){ Sum s; ChargedParticle*p=part(k.first,k.second); for(auto&o:O){ s.f.push_back(p->RetardedField(o.t,o.x)); FieldTrace t(tr0(o.x),7e-11,NT); p->integrateFieldTrace(o.x,&t); std::vector<ElMagField> v; for(int i=0;i<NT;i++)v.push_back(t.get_field((std::size_t)i)); s.tr.push_back(v);} delete p; cache[k]=s; }
    Sum&s=cache[k]; for(size_t i=0;i<O.size();i++){ S.f[i]+=s.f[i]; S.sE[i]+=s.f[i].E().norm(); S.sB[i]+=s.f[i].B().norm(); for(int j=0;j<NT;j++){S.tr[i][j]+=s.tr[i][j];} } } return S; }
static size_t QI=7; // the point queried again and again: one with a field, another one from case to case
static void turn(){ static std::vector<size_t> good; static size_t n=0; if(good.empty()){ for(size_t i=0;i<obs().size();i++){ bool ok=true; for(int k=0;k<7;k++){ Sum S=reference({{k,1.0}}); if(!(S.sE[i]>0))ok=false; } if(ok)good.push_back(i); } if(good.size()<2)mc::fail("no field at the observation points"); } QI=good[n++%good.size()]; }
template<class T> static void quick(T*src,const std::vector<std::pair<int,double>>&m,const Obs&o){ Sum S=reference(m); ElMagField g=src->RetardedField(o.t,o.x); FieldTrace t(tr0(o.x),7e-11,NT); src->integrateFieldTrace(o.x,&t); ElMagField h=t.get_field((std::size_t)4); if(!fclose_(g,S.f[QI],1e-11,S.sE[QI],S.sB[QI]))mc::fail("field of %d particles after a change is %s instead of %s",(int)m.size(),fs(g).c_str(),fs(S.f[QI]).c_str()); double sE=0,sB=0; for(auto&x:S.tr[QI]){sE=std::max(sE,x.E().norm());sB=std::max(sB,x.B().norm());} if(!fclose_(h,S.tr[QI][4],1e-10,sE,sB))mc::fail("trace of %d particles after a change",(int)m.size()); mc::trans(); }
template<class T> static void same(T*src,const std::vector<std::pair<int,double>>&m,const char*what){ auto O=obs(); Sum S=reference(m); for(size_t i=0;i<O.size();i++){ ElMagField g=src->RetardedField(O[i].t,O[i].x); if(m.empty()?!feq(g,ElMagField()):!fclose_(g,S.f[i],1e-11,S.sE[i],S.sB[i])){mc::fail("%s: field at t=%g %s is %s, sum over the particles %s",what,O[i].t,vs(O[i].x).c_str(),fs(g).c_str(),fs(S.f[i]).c_str());return;}
    FieldTrace t(tr0(O[i].x),7e-11,NT); src->integrateFieldTrace(O[i].x,&t); double sE=0,sB=0; for(int j=0;j<NT;j++){sE=std::max(sE,S.tr[i][j].E().norm());sB=std::max(sB,S.tr[i][j].B().norm());} for(int j=0;j<NT;j++){ ElMagField a=t.get_field((std::size_t)j); if(!fclose_(a,S.tr[i][j],1e-10,sE,sB)){mc::fail("%s: trace sample %d is %s, sum over the particles %s",what,j,fs(a).c_str(),fs(S.tr[i][j]).c_str());return;} } } mc::trans(O.size()*(NT+1)); }
static void groupings(){ int nmax=mc::thorough?5:4;
  // every ordered arrangement of up to n particles into bunches (permutation x composition), incl. empty bunches
  for(int n=0;n<=nmax;n++){ std::vector<int> p(n); for(int i=0;i<n;i++)p[i]=i; do{ int comps=n?(1<<(n-1)):1; for(int c=0;c<comps;c++)for(int e=0;e<2;e++){ std::string id="group:"; for(int i=0;i<n;i++){id+=char('0'+p[i]); if(i<n-1&&(c>>i&1))id+='|';} id+=e?",e":""; if(!mc::begin(id))continue; Beam B; std::vector<std::pair<int,double>> all,cur; if(e)B.Add(new Bunch()); Bunch*b=0; int nb=e; for(int i=0;i<n;i++){ if(!b){b=new Bunch();nb++;} b->Add(part(p[i])); all.push_back({p[i],1.0}); cur.push_back({p[i],1.0}); if(i==n-1||(c>>i&1)){ same(b,cur,"bunch"); B.Add(b); if(e){B.Add(new Bunch());nb++;} b=0;cur.clear(); } }
      if(B.getNOB()!=nb||B.getNOP()!=n)mc::fail("beam reports %d bunches %d particles instead of %d, %d",B.getNOB(),B.getNOP(),nb,n); same(&B,all,"beam"); int k=0; for(int i=0;i<nb;i++){ Bunch*x=B.getBunch(i); if(!x){mc::fail("bunch %d missing",i);break;} for(int j=0;j<x->getNOP();j++){ double q=x->getParticle(j)->getCharge()/ElementaryCharge; double w=(1+0.5*p[k])*((p[k]&1)?-1:1); if(!mc::near(q,w,1e-12))mc::fail("bunch %d particle %d is not the one added there",i,j); k++; } if(x->getParticle(-1)||x->getParticle(x->getNOP()))mc::fail("particle index out of range not rejected"); } if(B.getBunch(-1)||B.getBunch(nb))mc::fail("bunch index out of range not rejected"); mc::H h; h.s(id); mc::state(h.h); } }while(std::next_permutation(p.begin(),p.end())); }
  // large bunches and beams
  for(int n:{17,64,65,257,1000})for(int per:{1,50,1000})if(mc::begin(mc::F("crowd:%d,%d",n,per))){ Beam B; std::vector<std::pair<int,double>> all; Bunch*b=0; int nb=0; for(int i=0;i<n;i++){ if(i%per==0){b=new Bunch();B.Add(b);nb++;} b->Add(part(i%7)); all.push_back({i%7,1.0}); } if(B.getNOB()!=nb||B.getNOP()!=n)mc::fail("beam reports %d bunches %d particles instead of %d, %d",B.getNOB(),B.getNOP(),nb,n); same(&B,all,"large beam"); mc::H h; h.i(n).i(per); mc::state(h.h); }
  // linearity in charge
  for(double f:{0.0,-1.0,0.5,-3.0,1e6})for(int i=0;i<4;i++)if(mc::begin(mc::F("charge:%g,%d",f,i))){ // motion must not change: scale mass with the charge
      auto mk=[&](double s){ double q=(1+0.5*i)*((i&1)?-1:1); ChargedParticle*p=new ChargedParticle(q*s,s==0?1:fabs(s)); for(int k=0;k<12;k++)p->storeTrajectoryPoint(1e-11*k,V(1e-3*i+1e-5*k*k,1e-5*k,2.5e-3*k),V(0.1,0.02*k,2.0),V(1e8,2e8*k,-1e7)); return p; };
      std::unique_ptr<ChargedParticle> a(mk(1)),b(mk(f)); for(auto&o:obs()){ ElMagField x=a->RetardedField(o.t,o.x),y=b->RetardedField(o.t,o.x); ElMagField w(x.E()*f,x.B()*f); if(!fclose_(y,w,1e-12))mc::fail("charge x%g: field %s instead of %s",f,fs(y).c_str(),fs(w).c_str()); FieldTrace s(tr0(o.x),7e-11,NT),t(tr0(o.x),7e-11,NT); a->integrateFieldTrace(o.x,&s); b->integrateFieldTrace(o.x,&t); double m=0,mb=0; for(int j=0;j<NT;j++){m=std::max(m,s.get_field((std::size_t)j).E().norm());mb=std::max(mb,s.get_field((std::size_t)j).B().norm());} for(int j=0;j<NT;j++){ElMagField u=s.get_field((std::size_t)j),v=t.get_field((std::size_t)j); if(!fclose_(v,ElMagField(u.E()*f,u.B()*f),1e-11,m*fabs(f),mb*fabs(f)))mc::fail("charge x%g: trace sample %d scales wrongly",f,j);} mc::trans(); } }
  // sequences of membership changes: B new bunch, p add particle to last bunch, q add to first bunch, r replace first particle of the first bunch, R replace last particle of last bunch, c clear the beam, i replace with invalid index, k copy the last bunch into a new one
  int depth=mc::thorough?6:5; std::vector<int> seq; const char*N="Bpqr RcikA"; std::vector<char> ops={'B','p','q','r','R','c','i','k'}; (void)N;
  std::function<void()> rec=[&](){ std::string id; for(int k:seq)id+=ops[k];
    if(seq.size()>=2&&mc::begin("member:"+id)){ turn(); Beam B; std::vector<std::vector<std::pair<int,double>>> ref; int next=0; auto fresh=[&](){ std::pair<int,double> k(next%7,1.0); next++; return k; };
      for(size_t s=0;s<seq.size();s++){ mc::trans(); switch(ops[seq[s]]){ case 'B':B.Add(new Bunch());ref.push_back({});break; case 'p':{if(ref.empty())break;auto k=fresh();B.getBunch(ref.size()-1)->Add(part(k.first));ref.back().push_back(k);break;} case 'q':{if(ref.empty())break;auto k=fresh();B.getBunch(0)->Add(part(k.first));ref[0].push_back(k);break;}
          case 'r':{if(ref.empty()||ref[0].empty())break;auto k=fresh();B.getBunch(0)->replaceParticle(0,part(k.first));ref[0][0]=k;break;} case 'R':{if(ref.empty()||ref.back().empty())break;auto k=fresh();B.getBunch(ref.size()-1)->replaceParticle(ref.back().size()-1,part(k.first));ref.back().back()=k;break;}
          case 'c':B.clear();ref.clear();break; case 'i':{if(ref.empty())break; ChargedParticle*p=part(5); B.getBunch(0)->replaceParticle(-1,p);B.getBunch(0)->replaceParticle(ref[0].size(),p); delete p; break;} case 'k':{if(ref.empty())break; B.Add(new Bunch(B.getBunch(ref.size()-1))); auto cp=ref.back(); ref.push_back(cp);break;} }
        if(seq.size()<=4||mc::thorough){ Obs o=obs()[QI]; /* a query after every step, at the point the final comparison starts with */ std::vector<std::pair<int,double>> now; for(auto&b:ref)for(auto&k:b)now.push_back(k); quick(&B,now,o); if(!ref.empty()){quick(B.getBunch(ref.size()-1),ref.back(),o);quick(B.getBunch(0),ref[0],o);} } }
      std::vector<std::pair<int,double>> all; for(auto&b:ref)for(auto&k:b)all.push_back(k); if(B.getNOB()!=(int)ref.size()||B.getNOP()!=(int)all.size())mc::fail("%d bunches %d particles instead of %d, %d",B.getNOB(),B.getNOP(),(int)ref.size(),(int)all.size()); else { same(&B,all,"beam"); for(size_t i=0;i<ref.size();i++)same(B.getBunch(i),ref[i],"bunch"); double q=0; for(auto&k:all)q+=(1+0.5*k.first)*((k.first&1)?-1:1)*ElementaryCharge; if(!mc::near(B.getTotalCharge(),q,1e-12,1e-18))mc::fail("total charge %g instead of %g",B.getTotalCharge(),q); } mc::H h; for(auto&b:ref){h.i(99);for(auto&k:b)h.i(k.first);} mc::state(h.h); }
    if((int)seq.size()==depth)return; for(int k=0;k<(int)ops.size();k++){ if(seq.empty()&&k)continue; seq.push_back(k); rec(); seq.pop_back(); } };
  rec();
}
int main(int argc,char**argv){ mc::init(argc,argv); quiet(); lattices(); groupings(); return mc::finish(); }
