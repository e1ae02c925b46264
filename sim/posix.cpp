// The simulated operating system: every libc entry point DLB uses that touches shared state, time,
// threads, processes, memory or I/O.  The DLB objects are built with these symbols renamed (sim_*).
#include "engine.h"
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <locale.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <algorithm>

std::vector<Mapping> MAPS;
// Every simulated mapping lives at a deterministic address far from anything else, inside a reserved
// inaccessible region, so that a stray access by the code under test always faults, in every run alike.
static char* const REGION=(char*)0x100000000000ULL; static const u64 SLOT=8ULL<<30, NSLOT=512; static u64 nextslot;
void os_reserve(){ void* r=mmap(REGION,SLOT*(NSLOT+32),PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(r!=REGION){ fprintf(stderr,"cannot reserve address space\n"); _exit(73); } }
char* os_arena(int i){ return REGION+SLOT*(NSLOT+i)+SLOT/2; }
static void* place(){ return REGION+SLOT*(nextslot++%NSLOT)+SLOT/2; }
static void unplace(char* a,size_t n){ mmap(a,n,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0); }
static int NEXTSEG;
std::map<std::string,std::string> FILES;           // simulated files written by the library
struct SimFile { std::string path; char* buf; size_t len; FILE* f; };
static std::vector<SimFile*> OPENF;
OsCfg OS;

// ---------------------------------------------------------------- addresses
static bool inshm(const void* a){ for(auto& m:MAPS) if((char*)a>=m.base && (char*)a<m.base+m.size) return true; return false; }
#define HELD(x,d) do{ if(inshm(x)) CUR->held+=(d); }while(0)
u64 canon(const void* a){
  for(auto& m:MAPS) if((char*)a>=m.base && (char*)a<m.base+m.size) return 0x4000000000000000ULL+((u64)m.seg->id<<32)+(u64)((char*)a-m.base);
  return (u64)a;
}
Seg* seg_find(const std::string& n){ for(Seg* s:SEGS) if(s->linked&&s->name==n) return s; return nullptr; }
bool seg_used(Seg* s){ return s->maps>0; }

void os_release(Proc* p){
  for(size_t i=0;i<MAPS.size();) if(MAPS[i].p==p){ unplace(MAPS[i].base,MAPS[i].size); MAPS[i].seg->maps--; MAPS.erase(MAPS.begin()+i); } else i++;
  p->fds.clear();
}
void os_reset(){
  for(auto& m:MAPS) unplace(m.base,m.size); MAPS.clear(); nextslot=0;
  for(Seg* s:SEGS){ close(s->memfd); delete s; } SEGS.clear(); NEXTSEG=0; FILES.clear();
  for(SimFile* f:OPENF){ fclose(f->f); free(f->buf); delete f; } OPENF.clear(); OS=OsCfg();
}
// raw bytes of a linked segment (for inspection by scenario code)
std::string seg_bytes(Seg* s){ std::string b(s->size,'\0'); ssize_t r=pread(s->memfd,&b[0],s->size,0); if(r<0) r=0; b.resize(r); return b; }

#define SIM extern "C" __attribute__((visibility("default")))
#define P() (CUR->p)

static bool sysfail(const char* what){   // injected system-call failure
  if(!CUR||!CUR->p||CUR->nopreempt) return false;
  double p=OS.pfail(what); if(p<=0) return false;
  if(R->rp->on){ for(auto& f:R->rp->faults) if(f.kind==what && f.task==(u64)CUR->id && f.k==CUR->k){ R->fault_trace.push_back(f); fired(what); logf("FAULT %s",what); return true; } return false; }
  if(rchance(31,p)){ Fault f{what,(u64)CUR->id,CUR->k,0}; R->fault_trace.push_back(f); fired(what); logf("FAULT %s",what); return true; }
  return false;
}

// ---------------------------------------------------------------- shared memory, descriptors
SIM int sim_shm_open(const char* name,int flags,mode_t){
  seam("shm_open"); Proc* p=P();
  if(sysfail("shm_open_fail")){ errno=EACCES; return -1; }
  if((int)p->fds.size()>=p->fd_limit){ fired("emfile"); errno=EMFILE; return -1; }
  Seg* s=seg_find(name);
  if(s && (flags&O_CREAT) && (flags&O_EXCL)){ errno=EEXIST; return -1; }
  if(!s){ if(!(flags&O_CREAT)){ errno=ENOENT; return -1; }
    s=new Seg; s->id=NEXTSEG++; s->name=name; s->memfd=memfd_create("simshm",MFD_CLOEXEC); s->size=0; s->linked=true; s->created=NOW; SEGS.push_back(s); logf("SHM create %s",name); }
  int fd=p->next_fd++; p->fds[fd]={s}; return fd;
}
SIM int sim_shm_unlink(const char* name){
  seam("shm_unlink"); Seg* s=seg_find(name); if(!s){ errno=ENOENT; return -1; }
  s->linked=false; logf("SHM unlink %s maps=%d",name,s->maps); if(s->maps>0) probe("unlink_while_mapped"); return 0;
}
SIM int sim_ftruncate(int fd,off_t n){
  seam("ftruncate"); auto it=P()->fds.find(fd); if(it==P()->fds.end()){ errno=EBADF; return -1; }
  if(sysfail("ftruncate_fail")){ errno=ENOSPC; return -1; }
  Seg* s=it->second.seg; s->size=n; return ftruncate(s->memfd,n);
}
SIM void* sim_mmap(void* a,size_t n,int prot,int fl,int fd,off_t off){
  seam("mmap"); if(fd<0) return mmap(a,n,prot,fl,fd,off);
  auto it=P()->fds.find(fd); if(it==P()->fds.end()){ errno=EBADF; return MAP_FAILED; }
  if(sysfail("mmap_fail")){ errno=ENOMEM; return MAP_FAILED; }
  Seg* s=it->second.seg; size_t sz=(n+4095)&~4095ULL; void* r=mmap(place(),sz,prot,MAP_SHARED|MAP_FIXED,s->memfd,off);
  if(r!=MAP_FAILED){ MAPS.push_back({(char*)r,sz,s,P()}); s->maps++; P()->maps++; }
  return r;
}
SIM int sim_munmap(void* a,size_t n){
  seam("munmap");
  for(size_t i=0;i<MAPS.size();i++) if(MAPS[i].base==a){ MAPS[i].seg->maps--; unplace((char*)a,MAPS[i].size); P()->maps--; MAPS.erase(MAPS.begin()+i); return 0; }
  return munmap(a,n);
}
SIM int sim_close(int fd){ if(CUR&&CUR->p){ seam("close"); if(P()->fds.erase(fd)) return 0; } errno=EBADF; return -1; }
SIM int sim_fstat(int fd,struct stat* st){ seam("fstat"); auto it=P()->fds.find(fd); if(it==P()->fds.end()){ errno=EBADF; return -1; } memset(st,0,sizeof *st); st->st_size=it->second.seg->size; st->st_nlink=it->second.seg->linked?1:0; return 0; }
SIM int sim_access(const char* path,int){ seam("access"); if(!strncmp(path,"/dev/shm/",9)){ std::string n=std::string("/")+(path+9); if(seg_find(n)) return 0; errno=ENOENT; return -1; } if(FILES.count(path)) return 0; errno=ENOENT; return -1; }

// ---------------------------------------------------------------- clocks
static u64 gran(u64 v){ u64 g=R->cfg.clk_gran; return g>1? v-v%g : v; }
static u64 rt_now(){ return 1600000000ULL*1000000000ULL+NOW+(CUR&&CUR->p?CUR->p->rt_skew:0); }
static u64 rt_to_sim(const struct timespec* t){ u64 v=(u64)t->tv_sec*1000000000ULL+t->tv_nsec; u64 base=1600000000ULL*1000000000ULL+(CUR&&CUR->p?CUR->p->rt_skew:0); return v>base? v-base : 1; }
SIM int sim_clock_gettime(clockid_t c,struct timespec* t){
  seam("clock_gettime"); NOW+=20; u64 v= (c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE)? gran(rt_now()) : gran(NOW); t->tv_sec=v/1000000000ULL; t->tv_nsec=v%1000000000ULL; return 0; }
SIM time_t sim_time(time_t* t){ time_t v=rt_now()/1000000000ULL; if(t)*t=v; return v; }
SIM int sim_gettimeofday(struct timeval* t,void*){ u64 v=rt_now(); t->tv_sec=v/1000000000ULL; t->tv_usec=v%1000000000ULL/1000; return 0; }
SIM int sim_usleep(useconds_t u){ seam("usleep"); sim_sleep((u64)u*1000+rnd(32)%1000); return 0; }
SIM int sim_nanosleep(const struct timespec* t,struct timespec*){ seam("nanosleep"); sim_sleep((u64)t->tv_sec*1000000000ULL+t->tv_nsec); return 0; }
SIM unsigned sim_sleep_s(unsigned s){ seam("sleep"); sim_sleep((u64)s*1000000000ULL); return 0; }
SIM int sim_sched_yield(){ seam("sched_yield"); yield_now(); return 0; }

// ---------------------------------------------------------------- mutex
struct SMutex { u32 owner, count, pad0, pad1; u32 kind, robust; };
static bool task_dead(u32 o){ for(Task* t:TASKS) if((u32)t->id+1==o) return t->st==T_DONE; return true; }
static int mlock(SMutex* m,bool timed,u64 dl,bool tr){
  u32 me=CUR->id+1;
  if(m->owner==me){ if(m->kind==PTHREAD_MUTEX_RECURSIVE){ m->count++; return 0; } if(tr) return EBUSY; if(m->kind==PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
  bool first=true;
  while(m->owner){
    if(m->robust && m->owner!=me && task_dead(m->owner)){ m->owner=me; m->count=1; HELD(m,1); probe("eownerdead"); return EOWNERDEAD; }
    if(tr) return EBUSY;
    if(first){ probe("mutex_contended"); first=false; }
    if(block(canon(m),dl,false,"mutex")==W_TIMEOUT && timed && m->owner) { probe("mutex_timeout"); if(task_dead(m->owner)) P()->lock_timeouts++; return ETIMEDOUT; }
  }
  m->owner=me; m->count=1; HELD(m,1); return 0;
}
SIM int sim_pthread_mutex_init(pthread_mutex_t* m,const pthread_mutexattr_t* a){ seam("mutex_init"); memset(m,0,sizeof *m); SMutex* s=(SMutex*)m; if(a){ int k=0; pthread_mutexattr_gettype(a,&k); s->kind=k; int r=0; pthread_mutexattr_getrobust(a,&r); s->robust=r==PTHREAD_MUTEX_ROBUST; } return 0; }
SIM int sim_pthread_mutex_destroy(pthread_mutex_t* m){ seam("mutex_destroy"); SMutex* s=(SMutex*)m; return s->owner?EBUSY:0; }
SIM int sim_pthread_mutex_lock(pthread_mutex_t* m){ seam("mutex_lock"); return mlock((SMutex*)m,false,0,false); }
SIM int sim_pthread_mutex_trylock(pthread_mutex_t* m){ seam("mutex_trylock"); return mlock((SMutex*)m,false,0,true); }
SIM int sim_pthread_mutex_timedlock(pthread_mutex_t* m,const struct timespec* t){ seam("mutex_timedlock"); u64 d=rt_to_sim(t); return mlock((SMutex*)m,true,d?d:1,false); }
SIM int sim_pthread_mutex_consistent(pthread_mutex_t*){ return 0; }
SIM int sim_pthread_mutex_unlock(pthread_mutex_t* mm){
  seam("mutex_unlock"); SMutex* m=(SMutex*)mm; u32 me=CUR->id+1;
  if(m->owner!=me){ probe("unlock_not_owner"); logf("mutex unlocked by non-owner %u",m->owner); }
  if(m->owner==me && m->kind==PTHREAD_MUTEX_RECURSIVE && --m->count>0) return 0;
  if(m->owner==me) HELD(m,-1); m->owner=0; m->count=0; wake(canon(m),1); seam("mutex_unlocked"); return 0;
}
// ---------------------------------------------------------------- condition variables
static int cwait(pthread_cond_t* c,pthread_mutex_t* mm,u64 dl){
  SMutex* m=(SMutex*)mm; if(m->owner==(u32)CUR->id+1) HELD(m,-1); m->owner=0; m->count=0; wake(canon(m),1);
  u64 d=dl; bool spur=false;
  if(R->cfg.pspur>0 && rchance(33,R->cfg.pspur)){ u64 s=NOW+1+rnd(34)%1000000; if(!d||s<d){ d=s; spur=true; } }
  Wake w=block(canon(c)+1,d,true,"cond"); int rc=0;
  if(w==W_TIMEOUT){ if(spur) fired("spurious_wakeup"); else rc=ETIMEDOUT; }
  mlock(m,false,0,false); return rc;
}
SIM int sim_pthread_cond_init(pthread_cond_t* c,const pthread_condattr_t*){ seam("cond_init"); memset(c,0,sizeof *c); return 0; }
SIM int sim_pthread_cond_destroy(pthread_cond_t*){ seam("cond_destroy"); return 0; }
SIM int sim_pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ seam("cond_wait"); return cwait(c,m,0); }
SIM int sim_pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* t){ seam("cond_timedwait"); u64 d=rt_to_sim(t); return cwait(c,m,d?d:1); }
SIM int sim_pthread_cond_signal(pthread_cond_t* c){ seam("cond_signal"); if(!wake(canon(c)+1,1)) probe("signal_no_waiter"); return 0; }
SIM int sim_pthread_cond_broadcast(pthread_cond_t* c){ seam("cond_broadcast"); wake(canon(c)+1,-1); return 0; }
// ---------------------------------------------------------------- rwlock (reader preference, as glibc's default)
struct SRw { u32 writer, readers; };
static int rwl(SRw* l,bool wr,bool tr,bool timed,u64 dl){
  u32 me=CUR->id+1; if(l->writer==me) return EDEADLK;
  while(l->writer || (wr&&l->readers)){ if(tr) return EBUSY; if(block(canon(l),dl,false,"rwlock")==W_TIMEOUT&&timed&&(l->writer||(wr&&l->readers))){ probe("rwlock_timeout"); return ETIMEDOUT; } }
  if(wr) l->writer=me; else l->readers++; HELD(l,1); return 0;
}
SIM int sim_pthread_rwlock_init(pthread_rwlock_t* l,const pthread_rwlockattr_t*){ seam("rw_init"); memset(l,0,sizeof *l); return 0; }
SIM int sim_pthread_rwlock_destroy(pthread_rwlock_t*){ seam("rw_destroy"); return 0; }
SIM int sim_pthread_rwlock_rdlock(pthread_rwlock_t* l){ seam("rdlock"); return rwl((SRw*)l,false,false,false,0); }
SIM int sim_pthread_rwlock_wrlock(pthread_rwlock_t* l){ seam("wrlock"); return rwl((SRw*)l,true,false,false,0); }
SIM int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t* l){ seam("tryrdlock"); return rwl((SRw*)l,false,true,false,0); }
SIM int sim_pthread_rwlock_trywrlock(pthread_rwlock_t* l){ seam("trywrlock"); return rwl((SRw*)l,true,true,false,0); }
SIM int sim_pthread_rwlock_timedwrlock(pthread_rwlock_t* l,const struct timespec* t){ seam("timedwrlock"); u64 d=rt_to_sim(t); return rwl((SRw*)l,true,false,true,d?d:1); }
SIM int sim_pthread_rwlock_timedrdlock(pthread_rwlock_t* l,const struct timespec* t){ seam("timedrdlock"); u64 d=rt_to_sim(t); return rwl((SRw*)l,false,false,true,d?d:1); }
SIM int sim_pthread_rwlock_unlock(pthread_rwlock_t* ll){ seam("rw_unlock"); SRw* l=(SRw*)ll; if(l->writer) l->writer=0; else if(l->readers) l->readers--; else { probe("rwunlock_not_held"); HELD(l,1); } HELD(l,-1); wake(canon(l),-1); seam("rw_unlocked"); return 0; }
// ---------------------------------------------------------------- barrier
struct SBar { u32 count, arrived, gen, leaving; };
SIM int sim_pthread_barrier_init(pthread_barrier_t* b,const pthread_barrierattr_t*,unsigned n){ seam("bar_init"); if(n==0||n>0x7fffffff){ probe("barrier_init_einval"); return EINVAL; } memset(b,0,sizeof *b); ((SBar*)b)->count=n; return 0; }
SIM int sim_pthread_barrier_destroy(pthread_barrier_t* bb){ seam("bar_destroy"); SBar* b=(SBar*)bb; if(b->arrived) probe("barrier_destroy_with_waiters"); while(b->leaving) block(canon(b)+2,0,false,"barrier_destroy"); memset(b,0,sizeof *b); return 0; }
SIM int sim_pthread_barrier_wait(pthread_barrier_t* bb){
  seam("bar_wait"); SBar* b=(SBar*)bb; u32 g=b->gen; b->arrived++;
  if(b->arrived>=b->count){ b->leaving=b->arrived; b->arrived=0; b->gen++; wake(canon(b)+1,-1); if(--b->leaving==0) wake(canon(b)+2,-1); return PTHREAD_BARRIER_SERIAL_THREAD; }
  while(b->gen==g) block(canon(b)+1,0,false,"barrier");
  if(b->leaving && --b->leaving==0) wake(canon(b)+2,-1);
  return 0;
}
// ---------------------------------------------------------------- threads
SIM int sim_pthread_create(pthread_t* t,const pthread_attr_t*,void*(*fn)(void*),void* a){ seam("pthread_create"); if(sysfail("pthread_create_fail")) return EAGAIN; Task* n=new_task_fn(P(),fn,a); n->helper=true; n->opdesc="library thread"; n->affinity=CUR->affinity; *t=(pthread_t)(n->id+1); return 0; }
SIM int sim_pthread_join(pthread_t t,void** r){ seam("pthread_join"); for(Task* x:TASKS) if((pthread_t)(x->id+1)==t){ join_task(x); if(r) *r=x->ret; return 0; } if(r) *r=nullptr; return 0; }
SIM int sim_pthread_cancel(pthread_t){ return 0; }
SIM pthread_t sim_pthread_self(){ return (pthread_t)(CUR->id+1); }
SIM int sim_pthread_getaffinity_np(pthread_t t,size_t n,cpu_set_t* s){ Task* x=CUR; for(Task* y:TASKS) if((pthread_t)(y->id+1)==t) x=y; memset(s,0,n); memcpy(s,&x->affinity,n<sizeof(cpu_set_t)?n:sizeof(cpu_set_t)); return 0; }
SIM int sim_pthread_setaffinity_np(pthread_t t,size_t n,const cpu_set_t* s){ seam("setaffinity"); for(Task* y:TASKS) if((pthread_t)(y->id+1)==t){ CPU_ZERO(&y->affinity); memcpy(&y->affinity,s,n<sizeof(cpu_set_t)?n:sizeof(cpu_set_t)); return 0; } return ESRCH; }
SIM int sim_sched_getaffinity(pid_t,size_t n,cpu_set_t* s){ memset(s,0,n); memcpy(s,&P()->mask,n<sizeof(cpu_set_t)?n:sizeof(cpu_set_t)); return 0; }
SIM int sim_sched_setaffinity(pid_t,size_t,const cpu_set_t*){ return 0; }
SIM int sim_sched_getcpu(){ return mu_first(&P()->mask); }
// emulated TLS (clang -femulated-tls): one instance per (task, object)
struct EmuCtl { size_t size, align; union { uintptr_t index; void* address; } object; void* value; };
SIM void* sim_emutls_get_address(EmuCtl* c){
  Task* t=CUR; Copy* cp=t->p?t->p->copy:nullptr; if(!cp){ fprintf(stderr,"tls outside a process\n"); _exit(74); }
  if(!c->object.index) c->object.index=++cp->tlsn;
  size_t i=c->object.index; if(t->tls.size()<i) t->tls.resize(i,nullptr);
  if(!t->tls[i-1]){ size_t al=c->align<16?16:c->align; void* v=nullptr; if(posix_memalign(&v,al,(c->size+al-1)/al*al)) _exit(75); if(c->value) memcpy(v,c->value,c->size); else memset(v,0,c->size); t->tls[i-1]=v; }
  return t->tls[i-1];
}
// ---------------------------------------------------------------- processes
SIM pid_t sim_getpid(){ return P()->pid; }
SIM uid_t sim_getuid(){ return 1000; }
SIM int sim_kill(pid_t pid,int){ seam("kill"); if(proc_exists(pid)) return 0; errno=ESRCH; return -1; }
SIM void sim_abort(){ proc_exit(X_ABORT); }
SIM void sim_exit(int){ proc_exit(X_EXIT); }
SIM void sim_exit_raw(int){ proc_exit(X_EXIT); }
SIM pid_t sim_fork(){ errno=EAGAIN; return -1; }
SIM int sim_execvp(const char*,char*const*){ errno=ENOENT; return -1; }
SIM int sim_gethostname(char* b,size_t n){ snprintf(b,n,"simnode"); return 0; }
SIM char* sim_getenv(const char* n){ auto it=P()->env.find(n); return it==P()->env.end()?nullptr:(char*)it->second.c_str(); }
SIM char* sim_secure_getenv(const char* n){ return sim_getenv(n); }
SIM int sim_setenv(const char* n,const char* v,int ow){ if(ow||!P()->env.count(n)) P()->env[n]=v; return 0; }
SIM int sim_unsetenv(const char* n){ P()->env.erase(n); return 0; }
SIM long sim_syscall(long n,...){ if(n==SYS_gettid) return P()->pid*100+CUR->id; errno=ENOSYS; return -1; }
SIM int sim_ioctl(int,unsigned long,...){ errno=ENOTTY; return -1; }
SIM int sim_isatty(int){ return 0; }
SIM void* sim_dlopen(const char*,int){ return nullptr; }
SIM void* sim_dlsym(void*,const char*){ return nullptr; }
SIM char* sim_dlerror(){ return (char*)"simulated: no such object"; }
// ---------------------------------------------------------------- stdio
static void out(const char* b,size_t n,bool err){ Proc* p=P(); if(R->logging){ std::string s(b,n); while(!s.empty()&&s.back()=='\n') s.pop_back(); if(!s.empty()) trace_only(((err?"stderr: ":"stdout: ")+s).c_str()); } if(p->err.size()<(1u<<18)) p->err.append(b,n); }
static int vout(FILE* f,const char* fmt,va_list l){
  if(f==stderr||f==stdout){ char b[8192]; int n=vsnprintf(b,sizeof b,fmt,l); out(b,n<(int)sizeof b?n:sizeof b-1,f==stderr); seam("fprintf"); return n; }
  return vfprintf(f,fmt,l);
}
SIM int sim_fprintf(FILE* f,const char* fmt,...){ va_list l; va_start(l,fmt); int n=vout(f,fmt,l); va_end(l); return n; }
SIM int sim_vfprintf(FILE* f,const char* fmt,va_list l){ return vout(f,fmt,l); }
SIM int sim_printf(const char* fmt,...){ va_list l; va_start(l,fmt); int n=vout(stdout,fmt,l); va_end(l); return n; }
SIM int sim_vprintf(const char* fmt,va_list l){ return vout(stdout,fmt,l); }
SIM int sim_puts(const char* s){ out(s,strlen(s),false); out("\n",1,false); return 0; }
SIM int sim_putchar(int c){ char b=c; out(&b,1,false); return c; }
SIM int sim_fputs(const char* s,FILE* f){ if(f==stderr||f==stdout){ out(s,strlen(s),f==stderr); return 0; } return fputs(s,f); }
SIM int sim_fputc(int c,FILE* f){ if(f==stderr||f==stdout){ char b=c; out(&b,1,f==stderr); return c; } return fputc(c,f); }
SIM size_t sim_fwrite(const void* b,size_t s,size_t n,FILE* f){ if(f==stderr||f==stdout){ out((const char*)b,s*n,f==stderr); return n; } return fwrite(b,s,n,f); }
SIM int sim_fflush(FILE* f){ if(f==stderr||f==stdout||!f) return 0; return fflush(f); }
SIM FILE* sim_fopen(const char* path,const char* mode){
  seam("fopen"); if(mode[0]=='r'){ auto it=FILES.find(path); if(it==FILES.end()){ errno=ENOENT; return nullptr; } SimFile* s=new SimFile{path,nullptr,0,nullptr}; s->buf=(char*)malloc(it->second.size()+1); memcpy(s->buf,it->second.data(),it->second.size()); s->len=it->second.size(); s->f=fmemopen(s->buf,s->len?s->len:1,"r"); s->path=""; OPENF.push_back(s); return s->f; }
  SimFile* s=new SimFile{path,nullptr,0,nullptr}; s->f=open_memstream(&s->buf,&s->len); if(mode[0]=='a'&&FILES.count(path)) fwrite(FILES[path].data(),1,FILES[path].size(),s->f); OPENF.push_back(s); return s->f; }
SIM int sim_fclose(FILE* f){ for(size_t i=0;i<OPENF.size();i++) if(OPENF[i]->f==f){ SimFile* s=OPENF[i]; fclose(f); if(!s->path.empty()) FILES[s->path]=std::string(s->buf,s->len); free(s->buf); delete s; OPENF.erase(OPENF.begin()+i); return 0; } return fclose(f); }
// ---------------------------------------------------------------- memory: bump arena per process copy, poisoned on free
struct AHdr { u64 size; void* ra; u32 magic; u32 pad; };
static const u32 AMAG=0xA110C8ED, FMAG=0xF4EEF4EE;
#define RA __builtin_return_address(0)
static void* aalloc(size_t n,void* ra,size_t al=16){
  Task* t=CUR; if(!t||!t->p) return malloc(n); Copy* c=t->p->copy; size_t st=(c->arena_used+sizeof(AHdr)+al-1)/al*al; size_t end=(st+n+31)&~15ULL;
  if(end>c->arena_size){ fprintf(stderr,"engine: arena exhausted\n"); _exit(76); }
  AHdr* h=(AHdr*)(c->arena+st)-1; h->size=n; h->ra=ra; h->magic=AMAG; c->arena_used=end; t->p->live_allocs++; t->p->live_bytes+=n; return c->arena+st;
}
#include <dlfcn.h>
static Copy* acopy(void* p){ for(Copy* c:COPIES) if((char*)p>=c->arena&&(char*)p<c->arena+c->arena_size) return c; return nullptr; }
SIM void* sim_malloc(size_t n){ void* p=aalloc(n,RA); Copy* c=acopy(p); if(c) memset(p,0xA5,n); return p; }
SIM void* sim_calloc(size_t a,size_t b){ void* p=aalloc(a*b,RA); memset(p,0,a*b); return p; }
SIM void sim_free(void* p){
  if(!p) return; Copy* c=acopy(p); if(!c){ free(p); return; } AHdr* h=(AHdr*)p-1;
  if(h->magic!=AMAG){ logf("bad free"); fail("*",h->magic==FMAG?"double-free":"bad-free","free() of a pointer that is not an allocated block"); if(CUR&&CUR->p) proc_exit(X_SEGV); return; }
  h->magic=FMAG; memset(p,0xDD,h->size); if(c->user){ c->user->live_allocs--; c->user->live_bytes-=h->size; }
}
SIM void* sim_realloc(void* p,size_t n){ if(!p) return sim_malloc(n); AHdr* h=(AHdr*)p-1; void* q=sim_malloc(n); if(acopy(q)) ((AHdr*)q-1)->ra=RA; memcpy(q,p,h->size<n?h->size:n); sim_free(p); return q; }
SIM int sim_posix_memalign(void** r,size_t al,size_t n){ *r=aalloc(n,RA,al<16?16:al); memset(*r,0xA5,n); return 0; }
SIM void* sim_aligned_alloc(size_t al,size_t n){ void* r; sim_posix_memalign(&r,al,n); return r; }
SIM char* sim_strdup(const char* s){ size_t n=strlen(s)+1; char* p=(char*)aalloc(n,RA); memcpy(p,s,n); return p; }
SIM char* sim_strndup(const char* s,size_t m){ size_t n=strnlen(s,m); char* p=(char*)aalloc(n+1,RA); memcpy(p,s,n); p[n]=0; return p; }
SIM int sim_vasprintf(char** r,const char* f,va_list l){ char* b; int n=vasprintf(&b,f,l); if(n>=0){ *r=sim_strdup(b); free(b); } return n; }
SIM int sim_asprintf(char** r,const char* f,...){ va_list l; va_start(l,f); int n=sim_vasprintf(r,f,l); va_end(l); return n; }
SIM char* sim_strdup2(const char* s){ return sim_strdup(s); }
SIM int sim_asprintf_chk(char** r,int,const char* f,...){ va_list l; va_start(l,f); int n=sim_vasprintf(r,f,l); va_end(l); return n; }

// live blocks of a process, by allocation site (debugging aid)
void dump_live(Proc* p){ Copy* c=p->copy; size_t i=0; while(i+sizeof(AHdr)<=c->arena_used){ AHdr* h=(AHdr*)(c->arena+i); if(h->magic==AMAG||h->magic==FMAG){ if(h->magic==AMAG){ Dl_info d; dladdr(h->ra,&d); fprintf(stderr,"live %p %lu bytes from %s+%lx\n",(void*)(h+1),(unsigned long)h->size,d.dli_fname,(unsigned long)((char*)h->ra-(char*)d.dli_fbase)); } i+=sizeof(AHdr)+(h->size+7)/8*8; i=(i+7)&~7ULL; } else i+=8; } }
