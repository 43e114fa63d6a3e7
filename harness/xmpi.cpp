// conformance of the simulated MPI processes with the real MPI library: the same decks run by mpirun (tools/xmpi.sh; not part of a check)
#include "refrun.h"
using namespace decks;
int main(int argc,char**argv){ mc::init(argc,argv); fix::quiet(); const char*exe=getenv("XMPI_EXE"); std::string RD=mc::work+"/run",FD=mc::work+"/real"; mkdir(RD.c_str(),0700); mkdir(FD.c_str(),0700); srcFile(mc::work+"/src.h5");
  const std::string el="bugwphsS"; int runs=0;
  for(size_t k=0;k<=el.size();k++)for(int np=1;np<=5;np++)for(int nb=1;nb<=4;nb+=3)for(int f=0;f<2;f++)if(mc::begin(F("x:%zu,%d,%d,%d",k,np,nb,f))){
    Deck d; d.lattice=k<el.size()?lat(el[k]):lat('b')+lat('u')+lat('h'); for(int b=0;b<nb;b++)d.beam+=particle(b,log(F("p%d.sdds",b),1+b%2)+traj(F("t%d.h5",b),2,5)); d.beam+="<probe file='probe.h5' step='2' number='2'/>"; if(f)d.track=fel("fel.h5",1); d.track+=watch("w.h5",2)+watch("w.sdds",4,true); d.n=4;
    d.obs=point("pb.h5",0)+screen("sb.h5",1)+snap("nb.h5",1)+mesh("mb.h5",0)+point("pl.h5",2,V(0.001,0.002,0.013))+screen("sl.h5",2);
    write(mc::work+"/in.xml",d.xml()); for(auto&x:{RD,FD}){hyb::cleardir(x);meshFile(x+"/mb.h5",1);}
    hyb::Cfg c; c.ranks=np; c.args={mc::work+"/in.xml"}; hyb::Res r=hyb::run(c,RD); if(r.err!=""){mc::fail("%s",r.err.c_str());continue;}
    int rc=system(F("cd %s && mpirun --allow-run-as-root --oversubscribe -np %d %s %s/in.xml >/dev/null 2>&1",FD.c_str(),np,exe,mc::work.c_str()).c_str()); if(rc){mc::fail("mpirun: %d",rc);continue;}
    auto a=hyb::collect(RD),b=hyb::collect(FD); std::string e=a.size()<10?"few outputs":hyb::compare(b,a,1e-12); if(e!="")mc::fail("%s",e.c_str()); mc::trans(); runs++; mc::H h; h.s(d.xml()); h.i(np); mc::state(h.h); }
  mc::note("runs",runs); return mc::finish(); }
