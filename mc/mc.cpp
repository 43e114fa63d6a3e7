#include <cstdarg>
#include "mc.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
#include <time.h>
#include <stdlib.h>
#include <unordered_set>
#include <algorithm>
namespace mc {
bool thorough=false; uint64_t seed=1; std::string work;
static int shard=0,nshard=1; static std::string only,outfile; static FILE*out=0;
static uint64_t idx=0,ran=0,ntrans=0,nfail=0; static std::unordered_set<uint64_t> states,outcomes;
static std::vector<std::string> samples; static std::map<std::string,double> notes;
static char*cur=0; static std::string curid; static bool curfail=false;
static std::string js(const std::string&s){std::string r="\"";for(unsigned char c:s){if(c=='"'||c=='\\'){r+='\\';r+=c;}else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);r+=b;}else r+=c;}return r+"\"";}
void init(int argc,char**argv){
  for(int i=1;i<argc;i++){std::string a=argv[i]; auto nx=[&]{if(i+1>=argc){fprintf(stderr,"arg\n");exit(64);}return std::string(argv[++i]);};
    if(a=="--tier")thorough=(nx()=="thorough"); else if(a=="--seed")seed=strtoull(nx().c_str(),0,10);
    else if(a=="--shard"){std::string s=nx();sscanf(s.c_str(),"%d/%d",&shard,&nshard);} else if(a=="--only")only=nx();
    else if(a=="--out")outfile=nx(); else if(a=="--work")work=nx(); }
  if(outfile.empty())outfile="/dev/stderr";
  out=fopen(outfile.c_str(),"w"); if(!out){perror("out");exit(64);}
  fcntl(fileno(out),F_SETFD,FD_CLOEXEC);
  if(!work.empty()){ if(chdir(work.c_str())){perror("work");exit(64);}
    int fd=open((work+"/cur").c_str(),O_RDWR|O_CREAT|O_TRUNC|O_CLOEXEC,0600); if(fd<0||ftruncate(fd,8192)){perror("cur");exit(64);}
    cur=(char*)mmap(0,8192,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd);
  } else { cur=(char*)calloc(1,8192); work="."; }
  if(!getenv("MC_VERBOSE")){ int dn=open("/dev/null",O_WRONLY); dup2(dn,1); close(dn); }
}
bool begin(const std::string&id){
  uint64_t k=idx++;
  if(!only.empty()){ if(id!=only)return false; }
  else if((int)(k%nshard)!=shard)return false;
  if(nfail>=25)return false;
  curid=id; curfail=false; ran++;
  snprintf(cur+16,8000,"%s",id.c_str()); (*(uint64_t*)cur)++;
  return true;
}
static void emitfail(const std::string&key,const char*fmt,va_list a){
  char b[4096]; vsnprintf(b,sizeof b,fmt,a);
  if(key!=curid){ static std::map<std::string,int> per; if(++per[key]>3)return; }   // grouped failures: three examples per group, enumeration goes on
  else { if(curfail)return; curfail=true; nfail++; }
  fprintf(out,"{\"t\":\"fail\",\"case\":%s,\"key\":%s,\"msg\":%s}\n",js(curid).c_str(),js(key).c_str(),js(b).c_str()); fflush(out);
}
void fail(const char*fmt,...){va_list a;va_start(a,fmt);emitfail(curid,fmt,a);va_end(a);}
void failkey(const std::string&k,const char*fmt,...){va_list a;va_start(a,fmt);emitfail(k,fmt,a);va_end(a);}
bool failed(){return curfail;}
void beat(){ if(cur)(*(uint64_t*)cur)++; }
void trans(uint64_t n){ntrans+=n; beat();}
void state(uint64_t h){ if(states.size()<4000000)states.insert(h);}
void outcome(uint64_t h){ if(outcomes.size()<4000000)outcomes.insert(h);}
void sample(const std::string&s){ if(samples.size()<4)samples.push_back(s);}
void note(const std::string&k,double v){notes[k]+=v;}
int finish(){
  auto dump=[&](const char*n,std::unordered_set<uint64_t>&s){ if(work==".")return; std::string f=work+"/"+n; FILE*o=fopen(f.c_str(),"wb"); for(uint64_t h:s)fwrite(&h,8,1,o); fclose(o); };
  dump("states.bin",states); dump("outcomes.bin",outcomes);
  std::string s="["; for(size_t i=0;i<samples.size();i++){if(i)s+=",";s+=js(samples[i]);} s+="]";
  std::string n="{"; bool f=true; for(auto&k:notes){if(!f)n+=",";f=false;n+=js(k.first);char b[64];snprintf(b,64,":%.17g",k.second);n+=b;} n+="}";
  fprintf(out,"{\"t\":\"done\",\"cases\":%llu,\"seen\":%llu,\"trans\":%llu,\"states\":%llu,\"outcomes\":%llu,\"samples\":%s,\"notes\":%s}\n",(unsigned long long)ran,(unsigned long long)idx,(unsigned long long)ntrans,(unsigned long long)states.size(),(unsigned long long)outcomes.size(),s.c_str(),n.c_str());
  fflush(out); fclose(out); fflush(stdout); _exit(0);
}
int isolated(const std::function<void()>&fn,double timeout_s,std::string*msg){
  int p[2]; if(pipe(p))exit(64); fflush(out); fflush(stdout); fflush(stderr);
  pid_t pid=fork(); if(pid<0){perror("fork");exit(64);}
  if(pid==0){ setpgid(0,0); close(p[0]); dup2(p[1],2);
    std::string m; int rc=0;
    try{fn();}catch(const std::runtime_error&e){m=std::string("mcerr:")+e.what();rc=1;}
    if(rc){ssize_t w=write(p[1],m.data(),m.size());(void)w;} fflush(stdout); _exit(rc); }
  setpgid(pid,pid); close(p[1]); fcntl(p[0],F_SETFL,O_NONBLOCK);
  std::string buf; timespec t0; clock_gettime(CLOCK_MONOTONIC,&t0); int st=0; bool to=false;
  for(;;){ char b[4096]; ssize_t n; while((n=read(p[0],b,sizeof b))>0){ if(buf.size()<65536)buf.append(b,n);} 
    pid_t r=waitpid(pid,&st,WNOHANG); if(r==pid)break;
    timespec t; clock_gettime(CLOCK_MONOTONIC,&t); if((t.tv_sec-t0.tv_sec)+(t.tv_nsec-t0.tv_nsec)*1e-9>timeout_s){to=true;kill(-pid,SIGKILL);kill(pid,SIGKILL);waitpid(pid,&st,0);break;}
    usleep(500); }
  {char b[4096]; ssize_t n; while((n=read(p[0],b,sizeof b))>0){ if(buf.size()<65536)buf.append(b,n);} } close(p[0]); kill(-pid,SIGKILL);
  if(msg)*msg=buf; if(to)return 3; if(WIFEXITED(st)){ if(WEXITSTATUS(st)==0)return 0; size_t k=buf.rfind("mcerr:"); if(WEXITSTATUS(st)==1&&k!=std::string::npos){if(msg)*msg=buf.substr(k+6);return 1;} } return 2;
}
}
