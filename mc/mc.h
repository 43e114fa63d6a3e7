// Small support library for the exhaustive enumerators ("model checking" harnesses).
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <cstdint>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <sstream>
#include <set>
#include <map>
#include <stdexcept>
namespace mc {
extern bool thorough;
extern uint64_t seed;
extern std::string work;            // scratch directory of this shard (exists, private)
void init(int argc,char**argv);
bool begin(const std::string&id);   // start case; false: not ours (sharding / --only)
void fail(const char*fmt,...) __attribute__((format(printf,1,2)));   // current case violates the property
void failkey(const std::string&key,const char*fmt,...) __attribute__((format(printf,2,3)));   // same, grouped under a stable key
void trans(uint64_t n=1);           // transitions (operations executed on the implementation)
void beat();                        // progress inside a long case (the runner ends a case without progress)
void state(uint64_t h);             // an observed (canonical) state
void outcome(uint64_t h);           // distinct complete outcomes
void sample(const std::string&s);   // written-out example
void note(const std::string&k,double v); // accumulates (summed over shards)
bool failed();                      // current case failed already
int finish();
// run fn in a forked child. returns: 0 ok, 1 = child reported (text in msg), 2 = crashed/signal, 3 = timeout
int isolated(const std::function<void()>&fn,double timeout_s,std::string*msg=0);
// hashing
struct H{ uint64_t h=1469598103934665603ull; H&add(const void*p,size_t n){const unsigned char*c=(const unsigned char*)p;for(size_t i=0;i<n;i++){h^=c[i];h*=1099511628211ull;}return *this;}
 H&i(int64_t v){return add(&v,8);} H&s(const std::string&v){i(v.size());return add(v.data(),v.size());}
 H&d(double v){ if(v==0)v=0; if(v!=v){return i(0x7ff8);} int e; double m=frexp(v,&e); int64_t q=(int64_t)llround(m*1e9); i(q); return i(e);} };
inline std::string F(const char*f,...) __attribute__((format(printf,1,2)));
inline std::string F(const char*f,...){char b[4096];va_list a;__builtin_va_start(a,f);vsnprintf(b,sizeof b,f,a);__builtin_va_end(a);return b;}
// closeness: |a-b| <= rel*scale (scale = max(|a|,|b|,extra))
inline bool near(double a,double b,double rel=1e-9,double scale=0){ if(a==b)return true; if(std::isnan(a)||std::isnan(b)||std::isinf(a)||std::isinf(b))return (std::isnan(a)&&std::isnan(b)); double s=std::max(std::max(std::fabs(a),std::fabs(b)),scale); return std::fabs(a-b)<=rel*s; }
}
