// Controlled scheduler: replaces the OpenMP runtime (GOMP_*, omp_*) and the thread-sanitizer runtime (__tsan_*).
// Exactly one team thread runs at a time; every runtime call is a scheduling point; the explorer enumerates all
// schedules that deviate at most `bound` times from the default one (delay bounding: continue the running thread,
// when it blocks the lowest-numbered enabled one). Happens-before (vector clocks) race detection on every memory access.
#pragma once
#include <functional>
#include <string>
#include <cstdint>
namespace sched {
struct Stats{ uint64_t executions=0,points=0,accesses=0,regions=0,maxpoints=0; bool capped=false; };
// body is run once per schedule; after each run `check` is asked for an error text (empty: fine).
// returns "" or the description of the first violation (race, deadlock, divergence, check failure) + the schedule
std::string explore(int threads,int bound,const std::function<void()>&body,const std::function<std::string()>&check,Stats&st,uint64_t cap=0);
void serial();               // leave controlled mode: parallel regions run with one thread
extern bool controlled;
}
