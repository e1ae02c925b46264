#include "engine.h"
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <elf.h>
#include <sys/mman.h>
#include <algorithm>

Run* R; Task* CUR; u64 NOW; std::vector<Proc*> PROCS; std::vector<Task*> TASKS; std::vector<Seg*> SEGS; std::vector<Copy*> COPIES; u64 OPSEQ;
extern std::vector<Mapping> MAPS;
static void* MAIN_SP; static Task* NEXT_FORCED;
static const size_t STK=192*1024; static char* STKBASE; static const int NSTK=192; static std::vector<int> FREESTK;
static std::vector<Task*> GRAVE; static u64 RNDCTR;

// ---------------------------------------------------------------- context switch
extern "C" void ctx_switch(void** save,void* to);
asm(R"(
.text
.globl ctx_switch
.type ctx_switch,@function
ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

bool addr_is_stack(const void* a){ return (char*)a>=STKBASE && (char*)a<STKBASE+STK*NSTK; }

static void to_main(){ ctx_switch(&CUR->sp,MAIN_SP); }

static void task_done(Task* t){ t->st=T_DONE; t->k++; wake(0x7000000000000000ULL+t->id,-1); }

static void trampoline(){
  Task* t=CUR;
  if(t->fn) t->ret=t->fn(t->arg); else t->body();
  task_done(t);
  to_main(); abort();
}

static void start_stack(Task* t){
  if(FREESTK.empty()){ fprintf(stderr,"engine: out of stacks\n"); _exit(70); }
  t->stk=FREESTK.back(); FREESTK.pop_back();
  char* top=STKBASE+STK*(t->stk+1); memset(top-24*1024,0xB7,24*1024);   // unused stack has the same contents in every run
  void** s=(void**)(((uintptr_t)top)&~15ULL);
  *--s=nullptr;            // alignment: at entry rsp%16==8
  *--s=(void*)trampoline;
  for(int i=0;i<6;i++) *--s=nullptr;
  t->sp=s; t->started=true;
}
static void free_stack(Task* t){ if(t->stk>=0){ FREESTK.push_back(t->stk); t->stk=-1; } }

// ---------------------------------------------------------------- logging / hashing / randomness
void hash_ev(u64 v){ R->hash=(R->hash^v)*1099511628211ULL; R->hash^=R->hash>>29; }
char* strf(const char* fmt,...){ static char b[8][4096]; static int i; char* p=b[i++&7]; va_list l; va_start(l,fmt); vsnprintf(p,4096,fmt,l); va_end(l); return p; }
void logf(const char* fmt,...){
  char b[2048]; va_list l; va_start(l,fmt); int n=vsnprintf(b,sizeof b,fmt,l); va_end(l);
  if(n>(int)sizeof b-1) n=sizeof b-1;
  u64 h=1469598103934665603ULL; for(int i=0;i<n;i++) h=(h^(unsigned char)b[i])*1099511628211ULL;
  hash_ev(h);
  if(R->logging){ char c[2200]; snprintf(c,sizeof c,"[%12lu] %s/t%d: %s",(unsigned long)NOW,CUR&&CUR->p?CUR->p->name.c_str():"-",CUR?CUR->id:-1,b); R->log.push_back(c); }
}
u64 rnd_at(u64 kind,u64 a,u64 b){ return mix2(mix2(R->seed*0x9E3779B97F4A7C15ULL+kind,a),b); }
u64 rnd(u64 kind){ return rnd_at(kind,CUR?CUR->id+1:0,CUR?++CUR->rc:++RNDCTR); }
void fail(const std::string& prop,const std::string& cls,const char* fmt,...){
  char b[2048]; va_list l; va_start(l,fmt); vsnprintf(b,sizeof b,fmt,l); va_end(l);
  if(R->logging) R->log.push_back("VIOLATION "+prop+" ["+cls+"] "+b);
  static const bool any=::getenv("SIM_ANYPROP")!=0; if(!any && prop!=R->prop && prop!="*") { R->probes["other_violation_"+prop+"_"+cls]++; return; }
  if(R->viol.size()<20) R->viol.push_back({R->prop,any&&prop!="*"&&prop!=R->prop?prop+"."+cls:cls,b,R->steps,NOW});
}
void probe(const char* n,u64 c){ R->probes[n]+=c; }
void fired(const char* n,u64 c){ R->fired[n]+=c; }

// ---------------------------------------------------------------- preemption
static double U(u64 h){ return (h>>11)*(1.0/9007199254740992.0); }
static void plan_next(Task* t){
  if(R->rp->sched_on){ t->next_k=t->k+1; return; }  // replay: look-up at every step
  double g=R->cfg.gap; if(g<=0){ t->next_k=~0ULL>>1; return; }
  double u=U(rnd_at(11,t->id+1,t->k)); double d=1+(-g*__builtin_log(1-u*0.999999)); t->next_k=t->k+(u64)d;
}
u64 sched_key(u64 task,u64 k); static u64 skey(u64 task,u64 k){ return ((task&0xffff)<<48)|(k&0xffffffffffffULL); }
u64 sched_key(u64 t,u64 k){ return skey(t,k); }

static bool runnable(Task* t){ return t->st==T_RUN || (t->st==T_BLOCK && t->wake_at && t->wake_at<=NOW); }

static void record_switch(Task* from,u64 fk,int to,u64 stall){ R->trace.push_back({from?(u64)from->id:~0ULL>>1,fk,to,stall}); }

// choose the next task; `from` may be still runnable (preempted) or not
static Task* pick(Task* from,bool forced){
  Task* cand[256]; int n=0;
  for(Task* t:TASKS) if(t->st!=T_DONE && runnable(t) && !(t==from && !forced)) { cand[n++]=t; if(n==256) break; }
  if(!n) return nullptr;
  u64 ft=from?from->id+1:0, fk=from?from->k:R->switches;
  if(R->cfg.strat==1){ u64 tot=0; for(int i=0;i<n;i++) tot+=cand[i]->weight; u64 x=rnd_at(12,ft,fk)%tot; for(int i=0;i<n;i++){ if(x<cand[i]->weight) return cand[i]; x-=cand[i]->weight; } }
  return cand[rnd_at(12,ft,fk)%n];
}

static void advance(u64 ns){ NOW+=ns; }

// preemption at the current step. returns true if switched
static void preempt_to(Task* to,u64 stall){
  Task* me=CUR;
  if(stall){ me->st=T_BLOCK; me->key=0; me->wake_at=NOW+stall; me->cond=false; me->where="stalled"; fired("stall"); }
  NEXT_FORCED=to; to_main();
}
static Task* task_by_id(int id){ for(Task* t:TASKS) if(t->id==id) return t; return nullptr; }

static u64 QSEQ(Task*t){ return t->slice; }
// a quantum expired without anybody blocking: simulated CPUs are spinning; let time flow ever faster
static u64 QEXP; 
static void spin_time(bool alone){ QEXP++; u64 n=0; for(Task* t:TASKS) if(t->st==T_RUN) n++; u64 e=QEXP/(n?n:1); if(e>24) e=24; NOW+=R->cfg.tick*20*(1ULL<<e); (void)alone; }

static bool locked(Proc* p){ if(R->crash_needlock) return CUR->held<=0; if(!R->crash_nolock) return false; for(Task* t:p->tasks) if(t->st!=T_DONE&&t->held>0) return true; return false; }
static void check_faults(Task* me){
  // crash faults keyed by (task,step); only explicit entries (recorded or planned)
  for(auto& f:R->rp->faults) if(f.task==(u64)me->id && f.k==me->k && f.kind=="crash" && !locked(me->p)) {
    fired("crash"); R->fault_trace.push_back(f); logf("FAULT crash of %s at step %lu",me->p->name.c_str(),(unsigned long)me->k); kill_proc(me->p,X_CRASH); }
}

void slow_step(bool is_seam,const char* where){
  Task* me=CUR; if(!me) return;
  if(me->nopreempt||!me->p){ if(me->next_k<=me->k) plan_next(me); return; }
  bool quantum=QSEQ(me)>=R->cfg.quantum; if(quantum) spin_time(false);
  if(R->rp->sched_on){
    auto it=R->rp->sched.find(skey(me->id,me->k)); Task* to=nullptr; u64 stall=0; bool have=it!=R->rp->sched.end() && it->second.task==(u64)me->id && it->second.k==me->k;
    if(have){ to=task_by_id(it->second.to); stall=it->second.stall; if(to&&(to==me||to->st==T_DONE||!runnable(to))) to=nullptr; }
    plan_next(me);
    if(!to && quantum){ // default rotation
      Task* best=nullptr; for(Task* t:TASKS) if(t!=me&&t->st!=T_DONE&&runnable(t)){ if(!best) best=t; if(t->id>me->id){ best=t; break; } }
      to=best; me->slice=0; if(!to) return;
    }
    if(!to&&!stall) return;
    if(!to) return;
    record_switch(me,me->k,to->id,stall); advance(1+rnd_at(13,me->id+1,me->k)%R->cfg.tick); preempt_to(to,stall); return;
  }
  if(me->k>=me->next_k) plan_next(me);
  Task* to=pick(me,false);
  if(!to){ if(quantum) me->slice=0; return; }
  u64 stall=0; if(R->cfg.pstall>0 && U(rnd_at(14,me->id+1,me->k))<R->cfg.pstall) stall=1+rnd_at(15,me->id+1,me->k)%R->cfg.stall_ns;
  record_switch(me,me->k,to->id,stall); advance(1+rnd_at(13,me->id+1,me->k)%R->cfg.tick); preempt_to(to,stall);
}

static inline void count_step(){
  Task* me=CUR; me->k++; me->slice++; R->steps++;
  if(__builtin_expect(R->steps>R->maxsteps,0)) { if(!R->ended) end_run("livelock"); }
}
extern u64 CRASH_AT_TASK;
static inline void maybe_crash(){ if(__builtin_expect(R->crash_enabled,0)) { Task* me=CUR; if(!me->p||me->nopreempt) return; check_faults(me); if(!R->rp->on) for(auto& c:R->crash_plan) if(c.first==(u64)me->p->idx && (c.second? (c.second--,false) : !locked(me->p))) {
      c.second=~0ULL>>1; Fault f{"crash",(u64)me->id,me->k,0}; R->fault_trace.push_back(f); fired("crash"); logf("FAULT crash of %s at step %lu",me->p->name.c_str(),(unsigned long)me->k); kill_proc(me->p,X_CRASH); } } }

extern "C" void hook_mem(const void* a){
  if(__builtin_expect(!CUR,0)) return;
  if(addr_is_stack(a)) return;
  count_step(); maybe_crash();
  if(__builtin_expect(CUR->k>=CUR->next_k || CUR->slice>=R->cfg.quantum,0)) slow_step(false,"mem");
}
void seam(const char* where){
  if(!CUR||!CUR->p) return;
  count_step(); maybe_crash(); CUR->where=where;
  if(CUR->nopreempt) return;
  NOW+=10+rnd_at(16,CUR->id+1,CUR->k)%(R->cfg.tick/4+1);
  if(R->rp->sched_on){ slow_step(true,where); return; }
  if(CUR->k>=CUR->next_k || CUR->slice>=R->cfg.quantum || U(rnd_at(17,CUR->id+1,CUR->k))<R->cfg.pseam) slow_step(true,where);
}
void yield_now(){ if(!CUR->nopreempt){ count_step(); maybe_crash(); slow_step(true,"yield"); } }

// ---------------------------------------------------------------- block / wake
Wake block(u64 key,u64 deadline,bool cond,const char* where){
  Task* me=CUR; QEXP=0; me->st=T_BLOCK; me->key=key; me->wake_at=deadline; me->wake=W_NONE; me->cond=cond; me->where=where; me->k++;
  if(deadline && deadline<=NOW) me->wake_at=NOW;
  maybe_crash();
  to_main();
  return me->wake;
}
int waiters(u64 key){ int n=0; for(Task* t:TASKS) if(t->st==T_BLOCK&&t->key==key&&key) n++; return n; }
int wake(u64 key,int n){
  Task* w[256]; int m=0; for(Task* t:TASKS) if(t->st==T_BLOCK && t->key==key && key && m<256) w[m++]=t;
  int cnt=0; while(m>0 && (n<0||cnt<n)){ int i= n<0?0: (int)(rnd_at(18,CUR?CUR->id+1:0,(CUR?CUR->k:0)+cnt)%m); Task* t=w[i]; w[i]=w[--m]; t->st=T_RUN; t->key=0; t->wake_at=0; t->wake=W_WOKEN; cnt++; }
  return cnt;
}
void sim_sleep(u64 ns){ block(0,NOW+(ns?ns:1),false,"sleep"); }
void quiesce(){ Task* me=CUR; me->quiesce=true; me->st=T_BLOCK; me->key=0; me->wake_at=0; me->where="quiesce"; me->k++; to_main(); me->quiesce=false; }
void trace_only(const char* b){ if(R->logging) R->log.push_back(std::string(strf("[%12lu] %s/t%d: ",(unsigned long)NOW,CUR&&CUR->p?CUR->p->name.c_str():"-",CUR?CUR->id:-1))+b); }
void end_run(const std::string& why){ if(!R->ended){ R->ended=true; R->end_reason=why; } if(CUR){ to_main(); } }

// ---------------------------------------------------------------- processes and tasks
static int NEXTPID, NEXTTASK;
bool proc_exists(int pid){ for(Proc* p:PROCS) if(p->pid==pid && (p->alive||p->zombie)) return true; return false; }

static void copy_reset(Copy* c){ for(size_t i=0;i<c->data.size();i++) memcpy(c->data[i].first,c->snap[i].data(),c->data[i].second); if(c->arena_used) memset(c->arena,0,c->arena_used); c->arena_used=0; c->tlsn=0; c->user=nullptr; }

Proc* new_proc(const std::string& name,const cpu_set_t& mask,int pid){
  Proc* p=new Proc; p->idx=(int)PROCS.size(); p->name=name; p->mask=mask; p->pid=pid?pid:NEXTPID; if(!pid) NEXTPID+=1+rnd_at(20,p->idx,0)%3;
  p->copy=nullptr; for(Copy* c:COPIES) if(!c->user){ p->copy=c; break; }
  if(!p->copy){ // reuse the copy of a dead process
    for(Copy* c:COPIES) if(!c->user->alive){ Proc* o=c->user; o->copy=nullptr; copy_reset(c); p->copy=c; break; }
  }
  if(!p->copy){ fprintf(stderr,"engine: out of process copies\n"); _exit(71); }
  p->copy->user=p; p->started_at=NOW; PROCS.push_back(p);
  logf("PROC %s pid=%d",name.c_str(),p->pid);
  return p;
}
static Task* mk_task(Proc* p){
  Task* t=new Task; t->id=NEXTTASK++; t->p=p; if(p){ p->tasks.push_back(t); t->affinity=p->mask; } TASKS.push_back(t);
  t->weight= R->cfg.strat==1 ? 1+(rnd_at(21,t->id,0)%8==0?0:(rnd_at(22,t->id,0)%40)) : 1;
  plan_next(t); return t;
}
Task* new_task(Proc* p,std::function<void()> b){ Task* t=mk_task(p); t->body=std::move(b); return t; }
Task* new_task_fn(Proc* p,void*(*fn)(void*),void* a){ Task* t=mk_task(p); t->fn=fn; t->arg=a; return t; }
void join_task(Task* t){ while(t->st!=T_DONE) block(0x7000000000000000ULL+t->id,0,false,"join"); }

void kill_proc(Proc* p,ExitKind how){
  if(!p->alive) return; p->alive=false; p->how=how; p->ended_at=NOW; p->err.shrink_to_fit();
  bool self=false; for(Task* t:p->tasks){ if(t==CUR) self=true; if(t->st!=T_DONE) task_done(t); }
  os_release(p);
  if(R->on_exit) R->on_exit(p,how);
  if(self){ to_main(); abort(); }
}
void proc_exit(ExitKind how){ logf("EXIT kind=%d",how); kill_proc(CUR->p,how); abort(); }

// ---------------------------------------------------------------- main loop
static void reap(){ for(size_t i=0;i<TASKS.size();){ Task* t=TASKS[i]; if(t->st==T_DONE && t!=CUR){ free_stack(t); for(void* x:t->tls) free(x); t->tls.clear(); GRAVE.push_back(t); TASKS.erase(TASKS.begin()+i); } else i++; } }

static void loop(){
  Task* last=nullptr; u64 lastk=0;
  while(!R->ended){
    reap(); bool lastok=last && last->st!=T_DONE;
    Task* t=nullptr;
    if(NEXT_FORCED){ t=NEXT_FORCED; NEXT_FORCED=nullptr; if(t->st==T_DONE||!runnable(t)) t=nullptr; }
    if(!t){
      bool any=false; for(Task* x:TASKS) if(runnable(x)){ any=true; break; }
      if(!any){
        u64 m=0; for(Task* x:TASKS) if(x->st==T_BLOCK&&x->wake_at&&(!m||x->wake_at<m)) m=x->wake_at;
        if(m){ if(m>NOW) NOW=m; continue; }
        Task* q=nullptr; for(Task* x:TASKS) if(x->quiesce&&x->st==T_BLOCK){ q=x; break; }
        if(q){ q->st=T_RUN; t=q; }
        else if(TASKS.empty()){ R->ended=true; R->end_reason="done"; break; }
        else { R->deadlock=true; std::string d; for(Task* x:TASKS) d+=std::string(d.empty()?"":"; ")+(x->p?x->p->name:"director")+"/t"+std::to_string(x->id)+" in "+x->opdesc+" at "+x->where; R->deadlock_desc=d; R->ended=true; R->end_reason="deadlock"; break; }
      }
      if(!t){
        u64 lt=last?last->id:~0ULL>>1; 
        if(R->rp->sched_on){
          auto it=R->rp->sched.find(skey(lt,lastk)); if(it!=R->rp->sched.end()&&it->second.task==lt&&it->second.k==lastk){ for(Task* x:TASKS) if(x->id==it->second.to&&runnable(x)) t=x; }
          if(!t){ for(Task* x:TASKS) if(runnable(x)){ if(!t) t=x; if(x->id>(int)lt){ t=x; break; } } }
        } else {
          Task* cand[256]; int n=0; for(Task* x:TASKS) if(runnable(x)&&n<256) cand[n++]=x;
          if(R->cfg.strat==1){ u64 tot=0; for(int i=0;i<n;i++) tot+=cand[i]->weight; u64 x=rnd_at(19,lt+1,lastk)%tot; for(int i=0;i<n;i++){ if(x<cand[i]->weight){ t=cand[i]; break; } x-=cand[i]->weight; } }
          else t=cand[rnd_at(19,lt+1,lastk)%n];
        }
        R->trace.push_back({lt,lastk,t->id,0});
      }
    }
    (void)lastok;
    if(t->st==T_BLOCK){ t->st=T_RUN; t->wake= t->key||true ? W_TIMEOUT : W_NONE; t->key=0; t->wake_at=0; }
    if(t!=last){ R->switches++; R->ilv=mix2(R->ilv,t->id*0x10001ULL + (u64)(uintptr_t)0 + std::hash<std::string>()(t->where)); hash_ev(0x5000+t->id); hash_ev(t->k); }
    if(!t->started) start_stack(t);
    t->slice=0; CUR=t; errno=t->err;
    ctx_switch(&MAIN_SP,t->sp);
    t->err=errno; last=t; lastk=t->k; CUR=nullptr;
  }
}

void run_one(Run* r,std::function<void()> director){
  R=r; NOW=1000000000ULL*1000 + mix2(r->seed,77)%1000000000ULL; r->start_time=NOW; NEXTPID=1000+(int)(mix2(r->seed,5)%20000); NEXTTASK=0; RNDCTR=0; OPSEQ=0; NEXT_FORCED=nullptr; CUR=nullptr; QEXP=0;
  Task* d=mk_task(nullptr); d->body=director; d->opdesc="director";
  loop();
  // tear down: drop every coroutine, process, segment
  CUR=nullptr;
  for(Task* t:TASKS){ free_stack(t); for(void* x:t->tls) free(x); delete t; } TASKS.clear();
  for(Task* t:GRAVE) delete t; GRAVE.clear();
  for(Proc* p:PROCS) os_release(p);
  os_reset();
  for(Copy* c:COPIES) if(c->user||c->arena_used) copy_reset(c);
  std::sort(FREESTK.begin(),FREESTK.end(),std::greater<int>());
  for(Proc* p:PROCS) delete p; PROCS.clear();
  hash_ev(NOW); hash_ev(r->steps);
}

// ---------------------------------------------------------------- library copies
struct findarg { const char* path; Copy* c; bool ok; };
static int phdr_cb(struct dl_phdr_info* i,size_t,void* a){
  findarg* f=(findarg*)a; if(!i->dlpi_name||strcmp(i->dlpi_name,f->path)) return 0;
  u64 relro_s=0,relro_e=0; for(int j=0;j<i->dlpi_phnum;j++) if(i->dlpi_phdr[j].p_type==PT_GNU_RELRO){ relro_s=i->dlpi_addr+i->dlpi_phdr[j].p_vaddr; relro_e=relro_s+i->dlpi_phdr[j].p_memsz; relro_e=(relro_e+4095)&~4095ULL; relro_s&=~4095ULL; }
  for(int j=0;j<i->dlpi_phnum;j++){ auto& ph=i->dlpi_phdr[j]; if(ph.p_type!=PT_LOAD||!(ph.p_flags&PF_W)) continue; u64 s=i->dlpi_addr+ph.p_vaddr,e=s+ph.p_memsz;
    if(relro_e>s&&relro_s<=s) s=relro_e<e?relro_e:e; if(s<e) f->c->data.push_back({(char*)s,(size_t)(e-s)}); }
  f->c->base=(char*)i->dlpi_addr; f->ok=true; return 1;
}
void engine_init(const std::vector<std::string>& libs){
  os_reserve(); STKBASE=(char*)mmap(os_arena(20),STK*NSTK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  for(int i=0;i<NSTK;i++) mprotect(STKBASE+STK*i,4096,PROT_NONE);
  for(int i=NSTK-1;i>=0;i--) FREESTK.push_back(i);
  for(auto& l:libs){ Copy* c=new Copy; c->path=l; c->h=dlopen(l.c_str(),RTLD_NOW|RTLD_LOCAL); if(!c->h){ fprintf(stderr,"dlopen: %s\n",dlerror()); _exit(72); }
    findarg f{l.c_str(),c,false}; dl_iterate_phdr(phdr_cb,&f); if(!f.ok||c->data.empty()){ fprintf(stderr,"engine: cannot find data of %s\n",l.c_str()); _exit(73); }
    for(auto& d:c->data) c->snap.emplace_back(d.first,d.first+d.second);
    c->arena_size=64<<20; c->arena=(char*)mmap(os_arena((int)COPIES.size()),c->arena_size,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
    COPIES.push_back(c); }
}
