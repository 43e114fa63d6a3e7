// C15: calculator expressions and statements of input decks
#include "menu.h"
using namespace menu;
static refdeck::Check*CK;
static void check(const S&xml,int sec,bool deep=true){ S e=CK->run(xml,sec,deep); if(e!="")mc::fail("%s",e.c_str()); mc::H h; h.s(xml); mc::state(h.h); }
struct Sec{ const char*name; int bit; S Deck::*f; std::vector<S> items; };
// replace the first occurrence of key='..' values in an item by an expression
static std::vector<std::pair<size_t,size_t>> numbers(const S&x){ std::vector<std::pair<size_t,size_t>> r; for(size_t p=0;(p=x.find("='",p))!=S::npos;){ p+=2; size_t q=x.find('\'',p); S v=x.substr(p,q-p); char*e; strtod(v.c_str(),&e); if(!v.empty()&&!*e)r.push_back({p,q-p}); p=q; } return r; }
int main(int argc,char**argv){ mc::init(argc,argv); fix::quiet(); CK=new refdeck::Check(); CK->templates();
  Sec SEC[4]={{"lat",refdeck::LAT,&Deck::lattice,lattice()},{"beam",refdeck::BEAM,&Deck::beam,beam()},{"trk",refdeck::TRK,&Deck::track,track()},{"obs",refdeck::OBS,&Deck::obs,obs()}};
  // every numeric attribute of every item takes expressions
  const char*form[]={"vv","(%s)","vv*1","2*(%s)/2","-(-(%s))","(%s)^1","_pi*(%s)/_pi","0.5*vv+vv/2","vv+uu","%s+0*zero","sqrt(vv*vv)*sign"};
  for(auto&s:SEC)for(size_t i=0;i<s.items.size();i++){ auto nm=numbers(s.items[i]); for(size_t k=0;k<nm.size();k++)for(size_t f=0;f<sizeof form/sizeof*form;f++)if(mc::begin(F("expr:%s:%zu:%zu:%zu",s.name,i,k,f))){ S it=s.items[i],v=it.substr(nm[k].first,nm[k].second); char b[200]; snprintf(b,sizeof b,form[f],v.c_str()); it.replace(nm[k].first,nm[k].second,b); Deck d; d.root="<calc var='vv' eq='"+v+"'/><calc var='uu' eq='0'/><calc var='zero' eq='7'/><calc var='zero' eq='zero-7'/><calc var='sign' eq='"+S(v[0]=='-'?"-1":"1")+"'/>"; d.*(s.f)=at(it,0); check(d.xml(),s.bit); } }
  { auto tv=std::vector<S>{"2e-12","vv","2*vv-vv","1e-12*2"}; for(size_t i=0;i<tv.size();i++)for(size_t j=0;j<4;j++)if(mc::begin(F("expr:tattr:%zu,%zu",i,j))){ const char*n[]={"7","nn","2*nn-7","nn/2+3.5"}; Deck d; d.root="<calc var='vv' eq='2e-12'/><calc var='nn' eq='7'/>"; d.tattr=F("method='Vay' delta_t='%s' n='%s'",tv[i].c_str(),n[j]); d.track=felx(2); check(at(d.xml(),0),refdeck::TRK); } }
  // operators, functions, constants
  { const char*ex[]={"_c","_e","_h","_mec2","_eps0","_mu0","_pi","1+2*3","(1+2)*3","7-4-2","8/4/2","2*3^2","2^3^1","2^-1","-3+5","3*-2","1.5e3","2E-2",".5","5.","sqrt(2)","sin(_pi/6)","cos(_pi/3)","exp(1)","abs(-3.5)","sqrt(2*(3+5))","1/_c^2/_eps0","_c*_c*_eps0*_mu0"," 1 + 1 ","((((2))))","1/0","-1/0","sqrt(-1)","0^0","zz","1+","","(1","1)","*3","sqrt(","sqrt()","2 3","a b","_c_","1+zz*0","@","'","3x","sqrt 4"}; for(size_t i=0;i<sizeof ex/sizeof*ex;i++)for(int pl=0;pl<3;pl++)if(mc::begin(F("form:%zu,%d",i,pl))){ S v=ex[i]; if(v=="'")v="&apos;"; Deck d; if(pl==0)d.lattice="<background>"+S("<E x=\"")+v+"\" y='1' z='2'/></background>"; else if(pl==1)d.lattice="<calc var='q' eq=\""+v+"\"/><background><E x='q' y='1' z='2'/></background>"; else d.lattice="<calc print='value : ' eq=\""+v+"\"/><calc var='q' eq='2'/><calc print='a' var='q' eq=\""+v+"\"/><background><E x='q' y='q' z='2'/></background>"; check(d.xml(),refdeck::LAT); } }
  // bad names and redefinitions
  { const char*nm[]={"a","_c","_pi","a1","_a","A","1a","a-b","a b"," ","sqrt_","x.y","a+"}; for(auto n:nm)for(auto m:nm)for(const char*val:{"6","0","-6","1e-30"})if(mc::begin(F("names:%s:%s:%s",n,m,val))){ Deck d; d.root=F("<calc var='%s' eq='5'/><calc var='%s' eq='%s'/><calc eq='7'/><calc/>",n,m,val); d.lattice="<background><E x='a' y='_c' z='_pi'/><B x='a1' y='_a' z='A'/></background>"; check(d.xml(),refdeck::LAT); } }
  // sequences of statements and items, per section and kind of item
  const std::vector<S> st={"<calc var='a' eq='1'/>","<calc var='a' eq='a+1'/>","<calc var='b' eq='a*2'/>","<calc var='a' eq='zz*2'/>","<calc print='p' eq='a'/>","<calc print='q' var='a' eq='a*3'/>","<calc var='b' eq='1+'/>"};
  struct Kind{ const char*name; int sec; S x; }; // %s: nested statements; a, b used in attributes
  const Kind K[]={
    {"background",0,"<background>%s<E x='a' y='b' z='1'/><B x='1' y='a' z='b'/></background>"},{"undulator",0,"<undulator type='planar'>%s<position x='0' y='0.001*b' z='0.01*a'/><field B='0.1+0.1*a' period='0.02+0.01*b' N='3'/></undulator>"},{"tgu",0,"<undulator type='transverse gradient'>%s<position x='0' y='0.001*b' z='0.01*a'/><field B='0.1*a' kx='10*b' period='0.02' N='3+a'/></undulator>"},{"wave",0,"<wave type='gaussian'>%s<position x='0' y='0.001*b' z='0.01*a'/><field lambda='1e-3*(1+b)' ReA='1e6*a' ImA='0' rayleigh='0.1'/></wave>"},{"packet",0,"<wave type='packet'>%s<position x='0' y='0.001*b' z='0.01*a' t='1e-12*a'/><field lambda='1e-3*(1+b)' ReA='1e6*a' ImA='0' rayleigh='0.1' tau='1e-11*(1+b)'/></wave>"},{"hard",0,"<dipole type='hard edge'>%s<B x='a' y='b' z='0'/><p1 x='0' y='0' z='-0.1*a'/><n1 x='0' y='0' z='-1'/><p2 x='0' y='0' z='0.1*b'/><n2 x='0' y='0' z='1'/></dipole>"},{"soft",0,"<dipole type='soft edge'>%s<B x='a' y='b' z='0'/><p1 x='0' y='0' z='-0.1*a'/><n1 x='0' y='0' z='-1'/><p2 x='0' y='0' z='0.1*b'/><n2 x='0' y='0' z='1'/><transition l1='0.01*a' l2='0.01*b'/></dipole>"},{"source",0,"<screen file='src.h5'>%s<position x='0.001*a' y='0.001*b' z='-0.05' t='1.5e-10*a'/></screen>"},
    {"particle",1,"<particle gamma='2+a' charge='-1e-12*b' cmr='-1'>%s<time t0='1e-12*a'/><position x='a' y='b' z='0'/><momentum x='a' y='b' z='1'/></particle>"},{"bunch",1,"<bunch gamma='2+a' charge='-1e-12*b' cmr='-1' n='1+a'>%s<time t0='1e-12*a'/><position x='a' y='b' z='0' xrms='a' zft='b'/><momentum x='a' y='b' z='1' yrms='a'/><log file='l.sdds' step='1+a' bunching-freq='1e10*b'/></bunch>"},{"sdds",1,"<SDDS file='b.sdds'>%s<dir x='a' y='b' z='3'/></SDDS>"},
    {"fel",2,"<fel1d N='20+a'>%s<position x='0' y='0' z='0.01*a'/><prop x='0' y='0.1*b' z='1'/><pol x='1' y='0' z='0'/><mode zR='a' w0='1e-3*b' zwaist='0'/><seed E0='1e6*a' lambda='1e-2' tau='1e-11' tstart='1e-12*b'/><log file='f.h5' step='1+a'/></fel1d>"},{"watch",2,"<watch file='w.h5' step='a+2*b'/>"},{"watch-sdds",2,"<watch-sdds file='w.sdds' step='a*b'/>"},
    {"point",3,"<point file='o%d.h5'>%s<position x='0.01*a' y='0.01*b' z='0.2'/><time t0='6.6e-10' dt='1e-12*a' n='2+b'/></point>"},{"screen",3,"<screen file='o%d.h5' source='lattice'>%s<position x='0.01*a' y='0.01*b' z='0.2'/><hpitch x='0.01' y='0' z='0' n='1+a' dt='1e-13*b'/><vpitch x='0' y='0.01*a' z='0' n='2'/><time t0='1e-10*b' dt='1e-12*a' n='2'/></screen>"},{"snapshot",3,"<snapshot file='o%d.h5' source='lattice'>%s<position x='0.01*a' y='0.01*b' z='0.2'/><hpitch x='0.01' y='0' z='0' n='1+a'/><vpitch x='0' y='0.01*a' z='0' n='2'/><time t0='1e-10*b'/></snapshot>"} };
  auto put=[](S x,const S&nest,int k){ size_t p=x.find("%s"); if(p!=S::npos)x.replace(p,2,nest); return at(x,k); };
  for(auto&k:K){ bool heavy=k.name==S("source"); int len=mc::thorough?(heavy?4:5):heavy?2:S(k.name)=="background"?4:3; int ns=st.size(); std::vector<S> al=st; al.push_back("@0"); al.push_back("@1"); al.push_back("@2"); std::vector<int> q; std::function<void()> rec=[&](){ if(!q.empty()&&q.back()>=ns){ S id=F("seq:%s",k.name); for(int i:q)id+=F(":%d",i); if(mc::begin(id)){ Deck d; S x; int n=0; for(int i:q)x+=i<ns?al[i]:put(k.x,i==ns?S():i==ns+1?"<calc var='a' eq='a+10'/>":"<calc var='b' eq='a+1'/><calc print='nested' var='a' eq='b*2'/>",n++); d.*(SEC[k.sec].f)=x; d.root="<calc var='a' eq='1'/><calc var='b' eq='3'/>"; if((q.size()+q[0])%3==0)d.root=""; if(k.sec==2)d.tattr="method='Vay' delta_t='2e-12*a' n='3+a'"; check(d.xml(),SEC[k.sec].bit,k.sec!=3||n<3); } } if((int)q.size()<len)for(size_t i=0;i<al.size();i++){ q.push_back(i); rec(); q.pop_back(); } }; rec(); }
  // statements at every nesting level of a bunch, an import and an interaction; before and between the sections
  for(int m=0;m<64;m++)for(int v=0;v<2;v++)if(mc::begin(F("nest:bunch:%d,%d",m,v))){ auto c=[&](int k){return m>>k&1?S(v?"<calc print='n' var='a' eq='a*2'/>":"<calc var='a' eq='a+1'/><calc var='b' eq='a'/>"):S();}; Deck d; d.root="<calc var='a' eq='1'/><calc var='b' eq='3'/>"; d.beam=c(0)+"<bunch gamma='2+a' charge='-1e-12*b' cmr='-1' n='1+a'>"+c(1)+"<time t0='1e-12*a'>"+c(2)+"</time><position x='a' y='b' z='0' xrms='a'>"+c(3)+"</position><momentum x='a' y='b' z='1' yrms='a'>"+c(4)+"</momentum><correlations>"+c(5)+"<linear indep='0' dep='3' factor='a'/></correlations><log file='l.sdds' bunching-freq='1e10*b'/></bunch><particle gamma='2+a' charge='1e-12' cmr='1'><position x='a' y='b' z='0'/><momentum x='a' y='b' z='1'/></particle>"; check(d.xml(),refdeck::BEAM); }
  for(int m=0;m<16;m++)if(mc::begin(F("nest:sdds:%d",m))){ auto c=[&](int k){return m>>k&1?S("<calc var='a' eq='a+1'/>"):S();}; Deck d; d.root="<calc var='a' eq='1'/>"; d.beam=c(0)+"<SDDS file='b.sdds'>"+c(1)+"<dir x='a' y='1' z='3'>"+c(2)+"</dir><correlations>"+c(3)+"<linear indep='0' dep='1' factor='a'/></correlations></SDDS><particle gamma='2+a' charge='1e-12' cmr='1'><position x='a' y='0' z='0'/><momentum x='a' y='0' z='1'/></particle>"; check(d.xml(),refdeck::BEAM); }
  for(int m=0;m<1024;m++)if(mc::begin(F("nest:sections:%d",m))){ auto c=[&](int k){return m>>k&1?S("<calc print='s' var='a' eq='a+1'/>"):S();}; S x="<?xml version='1.0'?><teufel>"+c(0)+"<calc var='a' eq='1'/><lattice>"+c(1)+"<background>"+c(2)+"<E x='a' y='0' z='0'/></background></lattice>"+c(3)+"<beam>"+c(4)+"<particle gamma='2+a' charge='1e-12' cmr='1'>"+c(5)+"<position x='a' y='0' z='0'/><momentum x='a' y='0' z='1'/></particle></beam>"+c(6)+"<tracking method='Vay' delta_t='a*1e-12' n='a'>"+c(7)+"<fel1d N='20'>"+c(8)+"<position x='0' y='0' z='0.01'/><prop x='0' y='0' z='1'/><pol x='1' y='0' z='0'/><mode zR='a' w0='1' zwaist='0'/><seed E0='a' lambda='1' tau='1e-11' tstart='0'/></fel1d></tracking><observer>"+c(9)+"<point file='o.h5'><position x='0.01*a' y='0' z='0.2'/><time t0='6.6e-10' dt='1e-12*a' n='2'/></point></observer></teufel>"; check(x,15,m%8==0); }
  mc::note("decks accepted",CK->accepted); mc::note("decks rejected",CK->rejected); return mc::finish(); }
