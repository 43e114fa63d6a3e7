// Runs the real simulation program (teufel_hybrid.cpp) on N simulated MPI processes (forked), one running at a time under
// a controller that decides which process continues at every MPI call. Collectives are matched and checked.
#pragma once
#include "sddsfile.h"
#include <string>
#include <vector>
#include <map>
namespace hyb {
struct Cfg{ int ranks=1; std::vector<std::string> args; bool eager=true; double wtick=0; std::vector<int> dev; /* choice index per choice point (0=default) */ int seed=1; double hang=40; };
struct Res{ std::string err;            // protocol violation, crash, deadlock ("" if none)
  std::vector<int> status;              // exit status per rank (128+signal)
  std::vector<std::string> text;        // stderr and uncaught exception text per rank
  std::vector<int> branch;              // number of alternatives at each choice point
  int collectives=0; bool finalized=true;
  std::map<std::string,int> writer; };  // file -> rank that opened it for writing
// runs the program in directory dir (created; stale files removed)
Res run(const Cfg&c,const std::string&dir);
// all output files: "<file>:<dataset or column>" -> values; attributes "<file>:<ds>@<attr>"
typedef std::map<std::string,std::vector<double>> Out;
Out collect(const std::string&dir,const std::vector<std::string>&exclude={});
std::string compare(const Out&a,const Out&b,double rel); // rel. to the largest absolute value of each data set
void cleardir(const std::string&dir);
void cleardirfiles(const std::string&dir,const std::vector<std::string>&keep);
// explore all schedules with up to maxdev deviations, at most limit runs; f(Res) returns true to stop
long explore(Cfg c,const std::string&dir,int maxdev,long limit,const std::function<bool(const Res&,const std::vector<int>&)>&f,bool*complete=0);
}
