// operator new that fills memory with a pattern, checks the way it is released and marks released memory
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
static int pat=0; static long live=0; static const char*err=0;
struct Head{ uint64_t magic; size_t n; };
static void* get(size_t n,uint64_t kind){ Head*h=(Head*)malloc(sizeof(Head)+n+8); if(!h)throw std::bad_alloc(); h->magic=kind; h->n=n; memset(h+1,pat,n); memset((char*)(h+1)+n,0xE7,8); __sync_fetch_and_add(&live,1); return h+1; }
static void put(void*p,uint64_t kind){ if(!p)return; Head*h=(Head*)p-1; if(h->magic!=kind){ err=h->magic==0xDEADDEADull?"memory is released twice":"memory is released the wrong way"; return; } for(int i=0;i<8;i++)if(((unsigned char*)p)[h->n+i]!=0xE7)err="memory behind a block was written"; h->magic=0xDEADDEADull; memset(p,0xDD,h->n); __sync_fetch_and_sub(&live,1); free(h); }
static const uint64_t ONE=0x1111222233334444ull,ARR=0x5555666677778888ull;
void* operator new(size_t n){return get(n,ONE);} void* operator new[](size_t n){return get(n,ARR);} void operator delete(void*p)noexcept{put(p,ONE);} void operator delete[](void*p)noexcept{put(p,ARR);} void operator delete(void*p,size_t)noexcept{put(p,ONE);} void operator delete[](void*p,size_t)noexcept{put(p,ARR);}
extern "C" { void fill_set(int p){pat=p;} long fill_live(){return live;} const char*fill_error(){return err;} }
