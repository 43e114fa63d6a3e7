#include "hyb.h"
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <semaphore.h>
#include <signal.h>
#include <dirent.h>
#include <errno.h>
#include <time.h>
#include <random>
#include <fstream>
extern int teufel_hybrid_main(int,char**);
namespace mc{ void beat(); }
namespace hyb {
enum Op{NONE,INIT,BARRIER,BCAST,ALLGATHER,REDUCE,ALLREDUCE,GATHER,FINALIZE,EXIT};
static const char*opn[]={"none","MPI_Init","MPI_Barrier","MPI_Bcast","MPI_Allgather","MPI_Reduce","MPI_Allreduce","MPI_Gather","MPI_Finalize","exit"};
static const size_t CAP=size_t(24)<<20; static const int MAXR=8,MAXF=64;
struct Slot{ sem_t go; volatile int op; long count; long type; long mop; int root; int code; char name[MAXF][256]; volatile int nw; char text[2000]; alignas(64) char data[64]; };
static char*region=0; static sem_t*ctl; static const size_t STRIDE=sizeof(Slot)+CAP;
static Slot*slot(int r){return (Slot*)(region+4096+r*STRIDE);}
static int me=-1,nranks=1; static double wt=0,wtick=0; static bool exited=false,inited=false,fin=false; static unsigned rseed=1; static std::string rundir;
static void sup(Slot*s){ sem_post(ctl); while(sem_wait(&s->go)&&errno==EINTR); }
static void leave(int code){ if(exited)return; exited=true; Slot*s=slot(me); s->op=EXIT; s->code=code; __sync_synchronize(); sem_post(ctl); }
static void onexit(int code,void*){ if(me>=0)leave(code); }
static void onterm(){ std::string t="uncaught exception"; try{throw;}catch(const std::exception&e){t+=std::string(": ")+e.what();}catch(...){}
  snprintf(slot(me)->text,sizeof slot(me)->text,"%s",t.c_str()); leave(134); _exit(134); }
static void*call(Op op,long count,long type,long mop,int root,const void*send,size_t bytes){ Slot*s=slot(me); if(bytes>CAP){ snprintf(s->text,2000,"transfer of %zu bytes too large for the simulation",bytes); leave(99); _exit(99);} if(!inited&&op!=INIT){ snprintf(s->text,2000,"%s before MPI_Init",opn[op]); leave(98); _exit(98); } if(fin){ snprintf(s->text,2000,"%s after MPI_Finalize",opn[op]); leave(98); _exit(98); }
  if(send&&bytes)memcpy(s->data,send,bytes); s->op=op;s->count=count;s->type=type;s->mop=mop;s->root=root; __sync_synchronize(); sup(s); return s->data; }
}
using namespace hyb;
extern "C" {
struct ompi_predefined_communicator_t{char x[512];}; struct ompi_predefined_communicator_t ompi_mpi_comm_world,ompi_mpi_comm_self,ompi_mpi_comm_null;
struct ompi_predefined_datatype_t{char x[512];}; struct ompi_predefined_datatype_t ompi_mpi_double,ompi_mpi_int,ompi_mpi_char,ompi_mpi_byte,ompi_mpi_unsigned,ompi_mpi_long,ompi_mpi_unsigned_long,ompi_mpi_float;
struct ompi_predefined_op_t{char x[512];}; struct ompi_predefined_op_t ompi_mpi_op_sum,ompi_mpi_op_max,ompi_mpi_op_min;
static size_t tsize(MPI_Datatype t){ void*p=(void*)t; if(p==&ompi_mpi_double||p==&ompi_mpi_long||p==&ompi_mpi_unsigned_long)return 8; if(p==&ompi_mpi_int||p==&ompi_mpi_unsigned||p==&ompi_mpi_float)return 4; return 1; }
int MPI_Init(int*,char***){ if(inited){ snprintf(slot(me)->text,2000,"MPI_Init called twice"); leave(98); _exit(98);} call(INIT,0,0,0,0,0,0); inited=true; return 0; }
int MPI_Init_thread(int*,char***,int req,int*prov){ MPI_Init(0,0); if(prov)*prov=req; return 0; }
int MPI_Initialized(int*f){*f=inited;return 0;} int MPI_Finalized(int*f){*f=fin;return 0;}
int MPI_Comm_size(MPI_Comm,int*n){*n=nranks;return 0;} int MPI_Comm_rank(MPI_Comm,int*n){*n=me;return 0;}
int MPI_Get_processor_name(char*n,int*l){strcpy(n,"node");*l=4;return 0;}
double MPI_Wtime(){ wt+=wtick; return wt; }
int MPI_Abort(MPI_Comm,int c){ leave(c?c:1); _exit(c?c:1); }
int MPI_Finalize(){ call(FINALIZE,0,0,0,0,0,0); fin=true; return 0; }
int MPI_Barrier(MPI_Comm){ call(BARRIER,0,0,0,0,0,0); return 0; }
int MPI_Bcast(void*b,int n,MPI_Datatype t,int root,MPI_Comm){ size_t z=n*tsize(t); void*d=call(BCAST,n,(long)t,0,root,b,z); if(me!=root)memcpy(b,d,z); return 0; }
int MPI_Allgather(const void*sb,int sn,MPI_Datatype st,void*rb,int rn,MPI_Datatype rt,MPI_Comm){ void*d=call(ALLGATHER,sn,(long)st,rn,0,sb,sn*tsize(st)); memcpy(rb,d,(size_t)rn*tsize(rt)*nranks); return 0; }
int MPI_Reduce(const void*sb,void*rb,int n,MPI_Datatype t,MPI_Op o,int root,MPI_Comm){ void*d=call(REDUCE,n,(long)t,(long)o,root,sb,n*tsize(t)); if(me==root)memcpy(rb,d,n*tsize(t)); return 0; }
int MPI_Allreduce(const void*sb,void*rb,int n,MPI_Datatype t,MPI_Op o,MPI_Comm){ void*d=call(ALLREDUCE,n,(long)t,(long)o,0,sb,n*tsize(t)); memcpy(rb,d,n*tsize(t)); return 0; }
int MPI_Gather(const void*sb,int sn,MPI_Datatype st,void*rb,int rn,MPI_Datatype rt,int root,MPI_Comm){ void*d=call(GATHER,sn,(long)st,0,root,sb,sn*tsize(st)); if(me==root)memcpy(rb,d,(size_t)rn*tsize(rt)*nranks); return 0; }
// pauses take no time; files opened for writing are recorded
int usleep(useconds_t us){ if(me>=0)return 0; timespec t={(time_t)(us/1000000),(long)(us%1000000)*1000}; nanosleep(&t,0); return 0; }
static void wrote(const char*n){ if(me<0||!n||n[0]=='/'&&strncmp(n,rundir.c_str(),rundir.size()))return; const char*b=n[0]=='/'?n+rundir.size()+1:n; Slot*s=slot(me); for(int i=0;i<s->nw;i++)if(!strcmp(s->name[i],b))return; if(s->nw<MAXF){snprintf(s->name[s->nw],256,"%s",b);s->nw=s->nw+1;} }
FILE*fopen(const char*n,const char*m){ static FILE*(*f)(const char*,const char*)=(FILE*(*)(const char*,const char*))dlsym(RTLD_NEXT,"fopen"); if(strpbrk(m,"wa+"))wrote(n); return f(n,m); }
FILE*fopen64(const char*n,const char*m){ static FILE*(*f)(const char*,const char*)=(FILE*(*)(const char*,const char*))dlsym(RTLD_NEXT,"fopen64"); if(strpbrk(m,"wa+"))wrote(n); return f(n,m); }
int open(const char*n,int fl,...){ static int(*f)(const char*,int,...)=(int(*)(const char*,int,...))dlsym(RTLD_NEXT,"open"); va_list a;va_start(a,fl);int md=va_arg(a,int);va_end(a); if((fl&O_ACCMODE)!=O_RDONLY||fl&O_CREAT)wrote(n); return f(n,fl,md); }
int open64(const char*n,int fl,...){ static int(*f)(const char*,int,...)=(int(*)(const char*,int,...))dlsym(RTLD_NEXT,"open64"); va_list a;va_start(a,fl);int md=va_arg(a,int);va_end(a); if((fl&O_ACCMODE)!=O_RDONLY||fl&O_CREAT)wrote(n); return f(n,fl,md); }
}
namespace hyb{ bool constrandom=false; }
// every process draws other random numbers; process 0 always the same ones
std::random_device::result_type std::random_device::_M_getval(){ if(hyb::constrandom)return 12345; rseed=rseed*1664525u+1013904223u; unsigned z=rseed^(rseed>>16); z*=0x85ebca6bu; z^=z>>13; return z; }
namespace hyb {
void seedrandom(unsigned s){rseed=s;}
void cleardirfiles(const std::string&dir,const std::vector<std::string>&keep){ DIR*d=opendir(dir.c_str()); if(!d){mkdir(dir.c_str(),0700);return;} while(dirent*e=readdir(d)){ std::string n=e->d_name; if(n=="."||n=="..")continue; if(std::find(keep.begin(),keep.end(),n)!=keep.end())continue; unlink((dir+"/"+n).c_str()); } closedir(d); }
void cleardir(const std::string&dir){ cleardirfiles(dir,{}); }
struct Coll{ int op; long count,type,mop; int root; int first; std::vector<char> has; std::vector<std::vector<char>> data; int n; };
Res run(const Cfg&c,const std::string&dir){
  mc::beat(); Res R; int N=c.ranks; mkdir(dir.c_str(),0700);
  if(!region){ region=(char*)mmap(0,4096+MAXR*STRIDE,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(region==MAP_FAILED){perror("mmap");exit(64);} ctl=(sem_t*)region; }
  sem_init(ctl,1,0); nranks=N; std::vector<pid_t> pid(N); R.status.assign(N,-1); R.text.assign(N,"");
  fflush(stdout);fflush(stderr);
  for(int r=0;r<N;r++){ Slot*s=slot(r); sem_init(&s->go,1,0); s->op=NONE; s->nw=0; s->text[0]=0; pid_t p=fork(); if(p<0){perror("fork");exit(64);}
    if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); me=r; wtick=c.wtick; rundir=dir; rseed=c.seed*1000003u+r*77711u; if(chdir(dir.c_str()))_exit(97); int fd=::open((dir+"/../stderr."+std::to_string(r)).c_str(),O_RDWR|O_CREAT|O_TRUNC,0600); if(fd>=0){dup2(fd,2);} std::set_terminate(onterm); on_exit(onexit,0); while(sem_wait(&s->go)&&errno==EINTR);
      s->nw=0; std::vector<char*> av; static char pn[]="teufel"; av.push_back(pn); for(auto&a:c.args)av.push_back(strdup(a.c_str())); av.push_back(0); int rc=teufel_hybrid_main((int)av.size()-1,av.data()); std::cout.flush(); leave(rc); _exit(rc); }
    pid[r]=p; }
  enum{RUNNABLE,BLOCKED,DONE}; std::vector<int> st(N,RUNNABLE),idx(N,0); std::vector<bool> wasfin(N,false); std::vector<Coll> colls; int cur=0; size_t cp=0;
  auto complete=[&](int r)->bool{ Coll&k=colls[idx[r]-1]; if(k.n==N)return true; if(!c.eager)return false; if(k.op==BCAST)return r==k.root||k.has[k.root]; if(k.op==REDUCE||k.op==GATHER)return r!=k.root; return false; };
  auto reap=[&](int r,int code){ int ws; if(waitpid(pid[r],&ws,0)==pid[r])R.status[r]=WIFEXITED(ws)?WEXITSTATUS(ws):128+WTERMSIG(ws); else R.status[r]=code; st[r]=DONE; R.text[r]=slot(r)->text; std::ifstream f(dir+"/../stderr."+std::to_string(r)); std::stringstream ss; ss<<f.rdbuf(); std::string e=ss.str(); if(e.size()>4000)e=e.substr(0,4000); R.text[r]+=e; };
  for(;;){
    std::vector<int> en; for(int r=0;r<N;r++)if(st[r]==RUNNABLE||(st[r]==BLOCKED&&complete(r)))en.push_back(r);
    bool all=true; for(int r=0;r<N;r++)if(st[r]!=DONE)all=false; if(all)break;
    if(en.empty()){ std::string w; for(int r=0;r<N;r++){ if(w.size())w+=", "; w+=mc::F("process %d ",r)+(st[r]==DONE?mc::F("ended with status %d %s",R.status[r],R.text[r].substr(0,300).c_str()):mc::F("waits in its collective %d (%s)",idx[r],opn[colls[idx[r]-1].op])); } bool failing=false; for(int r=0;r<N;r++)if(st[r]==DONE&&R.status[r])failing=true; if(!failing||!R.err.empty()) {if(R.err.empty())R.err="deadlock: "+w;} else R.err="partial end: "+w; break; }
    auto it=std::find(en.begin(),en.end(),cur); if(it!=en.end())std::rotate(en.begin(),it,it+1); // default: the running one continues, then lowest
    int pick=0; if(en.size()>1){ R.branch.push_back(en.size()); if(cp<c.dev.size())pick=std::min<int>(c.dev[cp],en.size()-1); cp++; } int r=en[pick]; cur=r; Slot*s=slot(r);
    if(st[r]==BLOCKED){ Coll&k=colls[idx[r]-1]; size_t z=0; switch(k.op){ case BCAST: if(r!=k.root){ if(k.data[k.root].size())memcpy(s->data,k.data[k.root].data(),k.data[k.root].size()); } break; case ALLGATHER: case GATHER: if(k.op==ALLGATHER||r==k.root)for(int q=0;q<N;q++){ if(k.data[q].size())memcpy(s->data+z,k.data[q].data(),k.data[q].size()); z+=k.data[q].size(); } break; case REDUCE: case ALLREDUCE: if(k.op==ALLREDUCE||r==k.root){ size_t n=k.data[0].size()/8; double*o=(double*)s->data; for(size_t i=0;i<n;i++){ double v=((double*)k.data[0].data())[i]; for(int q=1;q<N;q++){ double w=((double*)k.data[q].data())[i]; if((void*)k.mop==&ompi_mpi_op_max)v=std::max(v,w); else if((void*)k.mop==&ompi_mpi_op_min)v=std::min(v,w); else v+=w; } o[i]=v; } } break; } }
    st[r]=RUNNABLE; sem_post(&s->go);
    // wait for it to reach the next call or end
    timespec t0; clock_gettime(CLOCK_MONOTONIC,&t0); bool gone=false,hung=false; for(;;){ timespec ts; clock_gettime(CLOCK_REALTIME,&ts); ts.tv_nsec+=30000000; if(ts.tv_nsec>=1000000000){ts.tv_sec++;ts.tv_nsec-=1000000000;} if(sem_timedwait(ctl,&ts)==0)break; siginfo_t si; si.si_pid=0; if(waitid(P_PID,pid[r],&si,WEXITED|WNOHANG|WNOWAIT)==0&&si.si_pid==pid[r]){ if(sem_trywait(ctl)!=0)gone=true; break; } timespec t; clock_gettime(CLOCK_MONOTONIC,&t); if((t.tv_sec-t0.tv_sec)>c.hang){hung=true;break;} }
    for(int i=0;i<s->nw;i++){ auto w=R.writer.find(s->name[i]); if(w==R.writer.end())R.writer[s->name[i]]=r; else if(w->second!=r&&R.err.empty())R.err=mc::F("file %s is written by process %d and by process %d",s->name[i],w->second,r); }
    if(hung){ R.err=mc::F("process %d does not proceed after its collective %d",r,idx[r]); break; }
    if(gone||s->op==EXIT){ reap(r,s->code); if(gone&&R.err.empty()){ R.err=mc::F("process %d crashed (status %d): ",r,R.status[r]); std::string&t=R.text[r]; size_t p=t.find("ERROR:"); if(p==std::string::npos)p=t.find("runtime error"); if(p!=std::string::npos)p=t.rfind('\n',p)==std::string::npos?0:t.rfind('\n',p)+1; R.err+=t.substr(p==std::string::npos?0:p,600); } if(R.status[r]==0&&!wasfin[r]){R.finalized=false; if(R.err.empty())R.err=mc::F("process %d ends without MPI_Finalize",r);} continue; }
    if((size_t)idx[r]>=colls.size()){ Coll k; k.op=s->op;k.count=s->count;k.type=s->type;k.mop=s->mop;k.root=s->root;k.first=r;k.has.assign(N,0);k.data.resize(N);k.n=0; colls.push_back(k); }
    Coll&k=colls[idx[r]]; if(k.op!=s->op||k.count!=s->count||k.type!=s->type||k.mop!=s->mop||k.root!=s->root){ R.err=mc::F("collective %d: process %d calls %s(count %ld, root %d) but process %d calls %s(count %ld, root %d)",idx[r],k.first,opn[k.op],k.count,k.root,r,opn[s->op],s->count,s->root); break; }
    size_t z=(k.op==BARRIER||k.op==INIT||k.op==FINALIZE)?0:s->count*tsize((MPI_Datatype)s->type); if(k.op==ALLGATHER&&k.mop!=k.count){R.err=mc::F("MPI_Allgather receives %ld values per process but sends %ld",k.mop,k.count);break;} if(k.op!=BCAST||r==k.root)k.data[r].assign(s->data,s->data+z); k.has[r]=1; k.n++; if(k.op==FINALIZE)wasfin[r]=true; idx[r]++; st[r]=BLOCKED; mc::trans();
  }
  for(int r=0;r<N;r++)if(st[r]!=DONE){ kill(pid[r],SIGKILL); int ws; waitpid(pid[r],&ws,0); R.status[r]=-2; }
  R.collectives=colls.size(); return R;
}
long explore(Cfg c,const std::string&dir,int maxdev,long limit,const std::function<bool(const Res&,const std::vector<int>&)>&f,bool*complete){
  long n=0; if(complete)*complete=true; std::vector<std::vector<int>> level(1); for(int d=0;d<=maxdev;d++){ std::vector<std::vector<int>> next; for(auto&v:level){ if(n>=limit){ if(complete)*complete=false; return n; } c.dev=v; Res r=run(c,dir); n++; if(f(r,v))return n; if(d<maxdev)for(size_t i=v.size();i<r.branch.size();i++)for(int k=1;k<r.branch[i];k++){ std::vector<int> w=v; w.resize(i,0); w.push_back(k); next.push_back(w); } } level.swap(next); } return n; }
// ---- outputs
static herr_t listcb(hid_t,const char*n,const H5L_info_t*,void*p){ ((std::vector<std::string>*)p)->push_back(n); return 0; }
static herr_t attcb(hid_t,const char*n,const H5A_info_t*,void*p){ ((std::vector<std::string>*)p)->push_back(n); return 0; }
Out collect(const std::string&dir,const std::vector<std::string>&exclude){ Out o; DIR*d=opendir(dir.c_str()); if(!d)return o; std::vector<std::string> fs; while(dirent*e=readdir(d)){ std::string n=e->d_name; if(n!="."&&n!=".."&&std::find(exclude.begin(),exclude.end(),n)==exclude.end())fs.push_back(n); } closedir(d); std::sort(fs.begin(),fs.end());
  for(auto&n:fs){ std::string f=dir+"/"+n; o[n]={}; if(H5Fis_hdf5(f.c_str())>0){ fix::R r(f); std::vector<std::string> ds; if(r.ok())H5Literate(r.f,H5_INDEX_NAME,H5_ITER_NATIVE,0,listcb,&ds); for(auto&k:ds){ fix::DS s=r.ds(k.c_str()); std::vector<double> dm(s.dim.begin(),s.dim.end()); o[n+":"+k+"#dim"]=dm; o[n+":"+k]=s.v; hid_t h=H5Dopen2(r.f,k.c_str(),H5P_DEFAULT); std::vector<std::string> at; H5Aiterate2(h,H5_INDEX_NAME,H5_ITER_NATIVE,0,attcb,&at); H5Dclose(h); for(auto&a:at)o[n+":"+k+"@"+a]=r.atv(k.c_str(),a.c_str()); } }
    else { FILE*h=::fopen(f.c_str(),"r"); char b[8]={0}; size_t q=h?fread(b,1,4,h):0; if(h)fclose(h); if(q==4&&!strncmp(b,"SDDS",4)){ fix::SddsFile s=fix::sddsRead(f); o[n+":pages"]={(double)s.pages}; for(auto&k:s.par)o[n+"$"+k.first]={k.second}; for(auto&k:s.col)o[n+":"+k.first]=k.second; } } }
  return o; }
std::string compare(const Out&a,const Out&b,double rel){ for(auto&k:a)if(!b.count(k.first))return k.first+" is missing"; for(auto&k:b)if(!a.count(k.first))return k.first+" is unexpected"; for(auto&k:a){ const std::vector<double>&x=k.second,&y=b.at(k.first); if(x.size()!=y.size())return mc::F("%s has %zu values instead of %zu",k.first.c_str(),y.size(),x.size()); double s=0; for(double v:x)if(std::isfinite(v))s=std::max(s,fabs(v)); for(size_t i=0;i<x.size();i++)if(!mc::near(x[i],y[i],rel,s)&&(std::isfinite(x[i])||std::isfinite(y[i])))return mc::F("%s value %zu is %.15g instead of %.15g",k.first.c_str(),i,y[i],x[i]); } return ""; }
}
