#include "fault.h"
#include <sys/mman.h>
#include <dlfcn.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
static const char* const NAMES[]={
#define W(f,v) #f,
#include "wraplist.h"
#undef W
};
static const int MAXC=200000;
struct Sh{ volatile long n,hits; short who[MAXC]; };
static Sh*S=0; static volatile bool armed=false; static int at[64],nat=0; static fault::Mode mode=fault::NONE;
namespace fault {
static Sh*sh(){ if(!S)S=(Sh*)mmap(0,sizeof(Sh),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); return S; }
void arm(std::vector<int> a,Mode m){ sh()->n=0; S->hits=0; nat=0; for(int x:a)at[nat++]=x; mode=m; armed=true; }
void disarm(){ armed=false; }
long calls(){ return sh()->n; } long hits(){ return sh()->hits; }
std::string name(long i){ return i<S->n&&i<MAXC?NAMES[S->who[i]]:"?"; }
}
// called from the wrappers: 0 pass on, 1 fail unexecuted, 2 execute and report failure
extern "C" __attribute__((no_sanitize("address","undefined"))) int fault_decide(long f,void*ret){ if(!armed)return 0; Dl_info d; memset(&d,0,sizeof d);
  if(dladdr(ret,&d)&&d.dli_sname&&(!strncmp(d.dli_sname,"SDDS",4)||!strncmp(d.dli_sname,"H5",2)))return 0;
  long k=S->n++; if(k<MAXC)S->who[k]=f; for(int i=0;i<nat;i++)if(at[i]==k||(mode==fault::FROM&&k>=at[i])){ S->hits++; if(getenv("FAULT_TRACE"))fprintf(stderr,"call %ld %s fails\n",k,NAMES[f]); return mode==fault::AFTER?2:1; } return 0; }
extern "C" { __thread void* fault_ret[64]; __thread long fault_sp=0; 
__attribute__((no_sanitize("address","undefined"))) void fault_push(void*r){ fault_ret[fault_sp++]=r; }
__attribute__((no_sanitize("address","undefined"))) void* fault_pop(){ return fault_ret[--fault_sp]; } }
// wrappers pass all arguments (registers and stack) on unchanged
#define SAVE "push %rbp\n mov %rsp,%rbp\n sub $256,%rsp\n and $-16,%rsp\n mov %rdi,0(%rsp)\n mov %rsi,8(%rsp)\n mov %rdx,16(%rsp)\n mov %rcx,24(%rsp)\n mov %r8,32(%rsp)\n mov %r9,40(%rsp)\n mov %rax,48(%rsp)\n movups %xmm0,64(%rsp)\n movups %xmm1,80(%rsp)\n movups %xmm2,96(%rsp)\n movups %xmm3,112(%rsp)\n movups %xmm4,128(%rsp)\n movups %xmm5,144(%rsp)\n movups %xmm6,160(%rsp)\n movups %xmm7,176(%rsp)\n"
#define REST "mov 0(%rsp),%rdi\n mov 8(%rsp),%rsi\n mov 16(%rsp),%rdx\n mov 24(%rsp),%rcx\n mov 32(%rsp),%r8\n mov 40(%rsp),%r9\n mov 48(%rsp),%rax\n movups 64(%rsp),%xmm0\n movups 80(%rsp),%xmm1\n movups 96(%rsp),%xmm2\n movups 112(%rsp),%xmm3\n movups 128(%rsp),%xmm4\n movups 144(%rsp),%xmm5\n movups 160(%rsp),%xmm6\n movups 176(%rsp),%xmm7\n leave\n"
enum { BASE_=__COUNTER__ };
#define S2(x) #x
#define S1(x) S2(x)
#define W(f,v) WW(f,v,__COUNTER__)
#define WW(f,v,c) W3(f,v,c)
#define W3(f,v,c) __asm__(".text\n .globl __wrap_" #f "\n .type __wrap_" #f ",@function\n __wrap_" #f ":\n" SAVE \
 "mov $" #c "-" S1(1) ",%edi\n mov 8(%rbp),%rsi\n call fault_decide@PLT\n mov %eax,56(%rsp)\n cmp $1,%eax\n je 1f\n cmp $2,%eax\n je 2f\n" REST "jmp *__real_" #f "@GOTPCREL(%rip)\n" \
 "1: leave\n mov $" #v ",%rax\n ret\n" \
 "2: mov 8(%rbp),%rdi\n call fault_push@PLT\n lea 3f(%rip),%rax\n mov %rax,8(%rbp)\n" REST "jmp *__real_" #f "@GOTPCREL(%rip)\n" \
 "3: sub $8,%rsp\n sub $8,%rsp\n call fault_pop@PLT\n add $8,%rsp\n mov %rax,(%rsp)\n mov $" #v ",%rax\n ret\n .size __wrap_" #f ",.-__wrap_" #f "\n");
#include "wraplist.h"
