// C14: damaged input decks are rejected or read with the documented defaults; nothing crashes
#include "menu.h"
using namespace menu;
static refdeck::Check*CK; static long unknown=0;
static void lib(const S&xml,int sec){ if(getenv("MC_SHOW"))fprintf(stderr,"%s\n",xml.c_str()); S e=CK->run(xml,sec,true); if(e!=""&&e[0]=='?'){ unknown++; return; } if(e!="")mc::fail("%s",e.c_str()); mc::H h; h.s(xml); mc::state(h.h); }
// ---- edits of a document
typedef pugi::xml_node N;
struct Point{ std::vector<int> path; S attr; };            // node (path of child indices), attribute or ""
static void collect(N n,std::vector<int>&p,std::vector<Point>&r){ int k=0; for(N c:n.children()){ p.push_back(k++); r.push_back({p,""}); for(auto a:c.attributes())r.push_back({p,a.name()}); collect(c,p,r); p.pop_back(); } }
static N walk(N n,const std::vector<int>&p){ for(int i:p){ N c=n.first_child(); while(i--)c=c.next_sibling(); n=c; } return n; }
static const char*VAL[]={"","zz","1+","0","abc","1e300","-0.0","0.4"};
static const int NVAL=sizeof VAL/sizeof*VAL;
static int nedits(const Point&p){ return p.attr.empty()?3:2+NVAL; }
// e: 0 delete 1 rename, nodes: 2 duplicate; attributes: 2.. values. Deletions are marked and done at the end
static bool apply(N root,const Point&p,int e,std::vector<N>&del){ N n=walk(root,p.path); if(!n)return false; if(p.attr.empty()){ if(e==0)del.push_back(n); else if(e==1)n.set_name((S(n.name())+"x").c_str()); else n.parent().insert_copy_after(n,n); } else { auto a=n.attribute(p.attr.c_str()); if(!a)return false; if(e==0)n.remove_attribute(a); else if(e==1)a.set_name((p.attr+"x").c_str()); else a.set_value(VAL[e-2]); } return true; }
static S print(pugi::xml_document&d){ std::ostringstream o; d.save(o,"",pugi::format_raw); return o.str(); }
struct Base{ const char*name; int sec; S xml; };
static S edit(const S&xml,const std::vector<std::pair<const Point*,int>>&ed){ pugi::xml_document d; d.load_string(xml.c_str()); N r=d.child("teufel"); std::vector<N> del; bool dup=false; for(auto&e:ed){ if(e.first->attr.empty()&&e.second==2){dup=true;continue;} apply(r,*e.first,e.second,del); } if(dup)for(auto&e:ed)if(e.first->attr.empty()&&e.second==2)apply(r,*e.first,2,del); for(size_t k=del.size();k--;)if(k==0||del[k]!=del[k-1])del[k].parent().remove_child(del[k]); return print(d); }
int main(int argc,char**argv){ mc::init(argc,argv); fix::quiet(); CK=new refdeck::Check(); CK->templates(); auto L=lattice(),B=beam(),T=track(),O=obs(); std::vector<Base> bases; std::vector<S> keep;
  auto add=[&](const char*s,int bit,const std::vector<S>&m,S Deck::*f){ for(size_t i=0;i<m.size();i++){ Deck d; d.*f=at(m[i],0); keep.push_back(F("%s%zu",s,i)); bases.push_back({strdup(keep.back().c_str()),bit,d.xml()}); } };
  add("lat",refdeck::LAT,L,&Deck::lattice); add("beam",refdeck::BEAM,B,&Deck::beam); add("trk",refdeck::TRK,T,&Deck::track); add("obs",refdeck::OBS,O,&Deck::obs);
  // one complete bunch and the four sections with several items
  { Deck d; d.beam="<bunch gamma='5' charge='-7e-12' cmr='-1' n='3'><time t0='1e-10'/>"+xyz("position",0,1e-3,-1e-3,"xrms='3e-4' yrms='1e-4' zrms='2e-4' zft='5e-4'")+momentum("xrms='0.01' yrms='0.01' delta='0.02'")+"<correlations><linear indep='0' dep='3' factor='20'/></correlations><log file='b.sdds' step='2' bunching-freq='3e11'/><trajectories file='t.h5' step='2' particles='2'/></bunch>"; bases.push_back({"bunch",refdeck::BEAM,d.xml()}); Deck f; f.root="<calc var='a' eq='2'/>"; f.lattice=L[0]+L[4]+"<calc var='a' eq='3'/>"+L[12]; f.beam=at(B[3],0)+at(B[7],1)+at(B[13],2); f.track=at(T[0],0)+at(T[2],1)+at(T[7],2); f.obs=at(O[0],0)+at(O[7],1)+at(O[13],2); bases.push_back({"full",15,f.xml()}); }
  for(auto&b:bases){ pugi::xml_document d; d.load_string(b.xml.c_str()); std::vector<int> p; std::vector<Point> pt; collect(d.child("teufel"),p,pt); 
    for(size_t i=0;i<pt.size();i++)for(int e=0;e<nedits(pt[i]);e++){ if(mc::begin(F("one:%s:%zu,%d",b.name,i,e)))lib(edit(b.xml,{{&pt[i],e}}),b.sec);
      // pairs
      for(size_t j=i+1;j<pt.size();j++)for(int f=0;f<nedits(pt[j]);f++){ if(!mc::thorough&&((e>1||f>1)&&(i*7+j*3+e+f*5)%(b.sec==15?97:23)))continue; if(b.sec==15&&!mc::thorough&&(i+j+e+f)%3)continue; if(mc::begin(F("two:%s:%zu,%d:%zu,%d",b.name,i,e,j,f)))lib(edit(b.xml,{{&pt[i],e},{&pt[j],f}}),b.sec); } } }
  // the complete program: every single deletion and misnaming in complete decks
  { const S&x=bases.back().xml; std::vector<S> prog={x}; Deck g; g.lattice=L[6]+L[14]+L[8]+L[16]; g.beam=at(B[6],0)+at(B[10],1); g.track=at(T[1],0)+at(T[8],1); g.obs=at(O[4],0)+at(O[2],1)+at(O[8],2); prog.push_back(g.xml()); S rd=mc::work+"/run"; mkdir(rd.c_str(),0700);
    for(size_t k=0;k<prog.size();k++){ pugi::xml_document d; d.load_string(prog[k].c_str()); std::vector<int> p; std::vector<Point> pt; collect(d.child("teufel"),p,pt); for(size_t i=0;i<pt.size();i++)for(int e=0;e<nedits(pt[i]);e++)for(int ranks=1;ranks<=2;ranks++){ if(ranks==2&&(i*3+e)%(mc::thorough?1:6))continue; if(!mc::thorough&&!pt[i].attr.empty()&&e>5&&(i+e)%4)continue; if(!mc::begin(F("prog:%zu:%zu,%d:%d",k,i,e,ranks)))continue; S x=edit(prog[k],{{&pt[i],e}}); pugi::xml_document dd; dd.load_string(x.c_str()); bool rej=false; S why;
        { char old[4096]; getcwd(old,sizeof old); CK->prep(CK->B,x); chdir(CK->B.c_str()); refdeck::Objs w; try{ N r=dd.child("teufel"); w.calc.children(r); w.lattice(r); w.parseBeam(r); w.tracking(r); w.observers(r); if(w.nots>50)rej=false,why="?"; }catch(const refdeck::Reject&r){rej=true;why=r.why;}catch(const IOexception&q){rej=true;why=q.what();}catch(const S&s){why="?";} chdir(old); }
        if(why=="?"){unknown++;continue;}
        CK->prep(rd,x); unlink((rd+"/m.h5").c_str()); { std::ofstream o((rd+"/m.h5").c_str(),std::ios::binary); o<<CK->files["m.h5"]; } decks::write(mc::work+"/in.xml",x); std::map<S,S> before=CK->files; hyb::Cfg c; c.ranks=ranks; c.args={mc::work+"/in.xml"}; c.seed=1; hyb::Res r=hyb::run(c,rd); mc::trans(); bool failed=false; for(int q:r.status)failed|=q!=0;
        if(rej){ if(!failed)mc::fail("program succeeds although %s",why.c_str()); for(int q:r.status)if(q==139||q==136||q==135)mc::fail("program crashes with status %d instead of reporting: %s",q,r.text[0].substr(0,300).c_str()); if(r.text[0].find("Sanitizer")!=S::npos)mc::fail("%s",r.text[0].substr(0,400).c_str());
          // nothing written but the diagnostics of screen sources
          for(auto&w:r.writer){ S n=w.first.substr(w.first.rfind('/')+1); if(n.find("_DEBUG")==S::npos&&n.find("/dev")==S::npos)mc::fail("%s written although the deck is rejected (%s)",n.c_str(),why.c_str()); } }
        else { // numerically meaningless but well-formed decks may end with a reported error (one aborting process takes the others along), never with a crash
            bool reported=false; for(auto&t:r.text)reported|=t.find("FEL1D")!=S::npos||t.find("IOexception")!=S::npos||t.find("range")!=S::npos; if(r.err!=""&&!(reported&&r.err.find("partial end")==0))mc::fail("%s",r.err.substr(0,400).c_str()); else if((failed&&!reported)||r.text[0].find("Sanitizer")!=S::npos)mc::fail("program fails (%s)",r.text[0].substr(0,300).c_str()); }
        mc::H h; h.s(x); h.i(ranks); mc::state(h.h); } } }
  // unusable files and command lines
  { S rd=mc::work+"/run",fn=mc::work+"/in.xml"; S good=bases.back().xml; std::vector<S> bad={"","x","<","<teufel","<teufel>","<teufel></teufelx>",good.substr(0,good.size()-1),good.substr(0,good.size()/2),good.substr(0,good.size()-9),"<?xml version='1.0'?>","<?xml version='1.0'?><teufelx><lattice/><beam/><tracking method='Vay' delta_t='1e-12' n='1'/><observer/></teufelx>","<teufel/>","<teufel><lattice/></teufel>","<teufel><lattice/><beam/></teufel>","<teufel><lattice/><beam/><tracking method='Vay' delta_t='1e-12' n='1'/></teufel>","<teufel><beam/><tracking method='Vay' delta_t='1e-12' n='1'/><observer/></teufel>",S("\0\0\0",3),S("<teufel>\0</teufel>",18),"<teufel><lattice>text</lattice><beam/><tracking method='Vay' delta_t='1e-12' n='1'/><observer/></teufel>","<teufel><lattice><![CDATA[x]]></lattice><beam/><tracking method='Vay' delta_t='1e-12' n='1'/><observer/></teufel>"};
    // truncation of a complete deck at every place
    for(size_t i=0;i<good.size();i+=mc::thorough?1:37)bad.push_back(good.substr(0,i));
    for(size_t i=0;i<bad.size();i++)for(int ranks=1;ranks<=2;ranks++)if(mc::begin(F("file:%zu,%d",i,ranks))){ hyb::cleardir(rd); decks::write(fn,bad[i]); hyb::Cfg c; c.ranks=ranks; c.args={fn}; hyb::Res r=hyb::run(c,rd); mc::trans(); for(int q:r.status)if(q==0||q==139||q==136)mc::fail("status %d for a broken deck (%s)",q,bad[i].substr(0,60).c_str()); if(r.text[0].find("Sanitizer")!=S::npos)mc::fail("%s",r.text[0].substr(0,400).c_str()); for(auto&w:r.writer){ S n=w.first.substr(w.first.rfind('/')+1); if(n.find("_DEBUG")==S::npos&&w.first.find("/dev")==S::npos)mc::fail("%s written",n.c_str()); } mc::state(mc::H().s(bad[i]).i(ranks).h); }
    for(int k=0;k<3;k++)if(mc::begin(F("args:%d",k))){ hyb::cleardir(rd); hyb::Cfg c; c.ranks=1; if(k==1)c.args={mc::work+"/nosuchfile.xml"}; if(k==2)c.args={mc::work}; hyb::Res r=hyb::run(c,rd); mc::trans(); if(r.status[0]==0||r.status[0]>=128)mc::fail("status %d",r.status[0]); } }
  mc::note("decks accepted",CK->accepted); mc::note("decks rejected",CK->rejected); mc::note("left open",unknown); return mc::finish(); }
