// step-by-step execution of an input deck through the library (reference for complete program runs)
#pragma once
#include "decks.h"
#include "parser.h"
#include "logger.h"
#include "observer.h"
#include "pugixml.hpp"
namespace hyb { void seedrandom(unsigned s); }
struct PState{ double q,t; V x,p; };
struct RefRun{ std::string err; std::vector<std::vector<std::vector<PState>>> hist; /* step, bunch, particle */
  static std::vector<std::vector<PState>> snap(Beam&B){ std::vector<std::vector<PState>> r; for(int b=0;b<B.getNOB();b++){ r.push_back({}); for(int i=0;i<B.getBunch(b)->getNOP();i++){ ChargedParticle*p=B.getBunch(b)->getParticle(i); r.back().push_back({p->getCharge(),p->getTime(),p->getPosition(),p->getMomentum()}); } } return r; }
  // runs in directory dir; random numbers as process 0 of a program run with this seed
  RefRun(const std::string&deckfile,const std::string&dir,int seed=1){ char old[4096]; if(!getcwd(old,sizeof old)||chdir(dir.c_str())){err="chdir";return;} hyb::seedrandom(seed*1000003u); pugi::xml_document doc; 
    try{ if(!doc.load_file(deckfile.c_str()))throw std::runtime_error("deck"); Lattice L; { InputParser P(doc.child("teufel")); Beam B; std::vector<Logger*> logs; ProbeInfo pr{false,0,"",0,0}; std::vector<watch_t> W; std::list<InteractionField*> I; std::vector<BaseObserver*> O; P.parseLattice(&L); P.parseBeam(&B,&logs,&pr); P.parseTracking(&B,&W,&I); P.parseObservers(&O);
      int n=B.getNOTS(); Lattice*all=new Lattice(); for(int i=0;i<L.count();i++)all->addElement(L.at(i)); for(auto*f:I)all->addElement(f);
      // trajectories start afresh at step zero
      Beam T; if(pr.requested){ /* the probe is filled in the order of the beam */ Bunch*tb=new Bunch(); for(int i=0;i<B.getNOB();i++)for(int j=0;j<B.getBunch(i)->getNOP();j++)tb->Add(new ChargedParticle(B.getBunch(i)->getParticle(j))); T.Add(tb); T.setTrackingMethod(B.getTrackingMethod()); T.setTimeStep(B.getTimeStep()); T.setupTracking(all); }
      B.setupTracking(all); if(pr.requested)logs.push_back(new ProbeLogger<Beam>(&T,pr.filename,pr.step,pr.number));
      auto out=[&](int s){ hist.push_back(snap(B)); for(auto&w:W)if(w.step==s){ if(w.type==hdf5)B.WriteWatchPointHDF5(w.filename); else B.WriteWatchPointSDDS(w.filename); } for(auto*l:logs)if(s==0||l->log_requested(s))l->update(); };
      out(0); for(auto*f:I)f->init(&B);
      for(int s=1;s<=n;s++){ if(pr.requested)T.doStep(all); B.doStep(all); out(s); for(auto*f:I)f->step(&B); }
      for(auto*l:logs)l->WriteData(); for(auto*f:I)f->write_output();
      for(auto*o:O){ if(auto*b=dynamic_cast<Observer<Beam>*>(o)){b->setSource(&B);b->integrate();} if(auto*l=dynamic_cast<Observer<Lattice>*>(o)){l->setSource(&L);l->integrate();} if(auto*s=dynamic_cast<SnapshotObserver<Beam>*>(o))s->storeParticlePositions(); o->generateOutput(); delete o; }
      for(auto*l:logs)delete l; while(all->count())all->remove(0); delete all; for(auto*f:I)delete f; } }
    catch(const std::exception&e){err=std::string("reference: ")+e.what();}
    if(chdir(old))err="chdir back"; }
};
