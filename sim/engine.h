// Deterministic simulator: engine interface.
// One OS thread hosts every simulated process and thread as coroutines; every source of
// nondeterminism (scheduling, clock, wake order, faults, operations) is a hash of
// (seed, kind, task, per-task step), so a run is a pure function of (scenario, seed, replay edits).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <unordered_map>
#include <sched.h>
#include <time.h>
#include <errno.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

static inline u64 mix(u64 x){ x+=0x9e3779b97f4a7c15ULL; x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL; x=(x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31); }
static inline u64 mix2(u64 a,u64 b){ return mix(a^mix(b+0x517cc1b727220a95ULL)); }

struct Rng { u64 s; explicit Rng(u64 x=1):s(x){} u64 next(){ s+=0x9e3779b97f4a7c15ULL; return mix(s);} 
  u64 below(u64 n){ return n? next()%n:0; } bool chance(double p){ return (next()>>11)*(1.0/9007199254740992.0) < p; }
  int range(int a,int b){ return a+(int)below((u64)(b-a+1)); } double unit(){ return (next()>>11)*(1.0/9007199254740992.0);} };

struct Proc; struct Task; struct Run;

enum TState { T_RUN, T_BLOCK, T_DONE };
enum Wake { W_NONE=0, W_WOKEN, W_TIMEOUT, W_SPURIOUS };

struct Task {
  int id; Proc* p; void* sp=nullptr; int stk=-1; TState st=T_RUN;
  u64 rc=0; u64 k=0, next_k=0;          // steps executed, step of the next preemption
  u64 slice=0;                // steps since scheduled
  u64 wake_at=0;              // deadline (sim ns), 0 = none
  u64 key=0; Wake wake=W_NONE; bool cond=false; bool quiesce=false;
  bool started=false, detached=false, helper=false; u64 weight=1;
  void* (*fn)(void*)=nullptr; void* arg=nullptr; void* ret=nullptr;
  std::function<void()> body; std::vector<void*> tls; int err=0; const char* where=""; std::string opdesc; cpu_set_t affinity; int nopreempt=0; int held=0;
};

struct Seg { int id; std::string name; int memfd; size_t size; bool linked; int maps=0; u64 created; };
struct Mapping { char* base; size_t size; Seg* seg; Proc* p; };
struct FdEnt { Seg* seg; };

struct Copy { std::string path; void* h; char* base; std::vector<std::pair<char*,size_t>> data; std::vector<std::vector<char>> snap; struct Api* api=nullptr; Proc* user=nullptr;
  char* arena=nullptr; size_t arena_size=0, arena_used=0; u32 tlsn=0; };

enum ExitKind { X_RUNNING=0, X_NORMAL, X_CRASH, X_ABORT, X_EXIT, X_SEGV };

struct Proc {
  int idx; int pid; std::string name; Copy* copy; cpu_set_t mask; bool alive=true; bool zombie=false; ExitKind how=X_RUNNING;
  std::map<int,FdEnt> fds; int next_fd=3; std::vector<Task*> tasks; std::string err; std::map<std::string,std::string> env; 
  int open_fds=0, maps=0; u64 panics=0; u64 started_at=0, ended_at=0; void* app=nullptr; int fd_limit=1024; i64 rt_skew=0; int lock_timeouts=0; i64 live_allocs=0, live_bytes=0;
};

struct Sched { u64 task, k; int to; u64 stall; };     // recorded decision: at task step k run `to` (stall: put preempted task to sleep ns)
struct Fault { std::string kind; u64 task, k; u64 a; };

struct Replay { bool on=false; bool sched_on=false; std::unordered_map<u64,Sched> sched; std::vector<Fault> faults; std::set<u64> skip_ops; std::string scenario; u64 seed=0; std::string cls; std::string prop; u64 hash=0; bool has_hash=false; };

struct Violation { std::string prop, cls, msg; u64 step; u64 time; };

struct RunCfg { // swarm knobs, drawn per run
  double gap=50; double pseam=0.1; double pstall=0; u64 stall_ns=0; u64 quantum=4000; u64 tick=200; u64 clk_gran=1; int strat=0; double pspur=0; double pearly=0; bool precise=true; double pcrash=0; };

struct Run {
  std::string scenario, prop; u64 seed; Replay* rp; RunCfg cfg;
  std::vector<Sched> trace; std::vector<Fault> fault_trace; std::vector<Violation> viol; std::map<std::string,u64> known;
  std::map<std::string,u64> fired;   // fault kinds injected
  std::map<std::string,u64> probes;  // rare conditions reached
  u64 hash=1469598103934665603ULL; u64 ilv=0; u64 switches=0, steps=0, ops=0; bool nontrivial=false; bool ended=false; std::string end_reason;
  u64 maxsteps=6000000; std::vector<std::string> log; bool logging=false; std::map<std::string,u64> cfgdesc; bool deadlock=false; std::string deadlock_desc;
  bool allow_deadlock=false; u64 state_hash=0; std::set<u64> states; u64 start_time=0; std::function<void(Proc*,ExitKind)> on_exit; 
  std::vector<u64> ops_done; bool crash_enabled=false, crash_nolock=false, crash_needlock=false; std::vector<std::pair<u64,u64>> crash_plan;
};

extern Run* R; extern Task* CUR; extern u64 NOW; extern std::vector<Proc*> PROCS; extern std::vector<Task*> TASKS; extern std::vector<Seg*> SEGS; extern std::vector<Copy*> COPIES;

// ---- engine services
void hash_ev(u64 v);
void logf(const char* fmt,...) __attribute__((format(printf,1,2)));
void trace_only(const char* b);
u64 rnd(u64 kind);                        // stateless: hash of (seed, kind, task, step, counter)
u64 rnd_at(u64 kind,u64 a,u64 b);
static inline bool rchance(u64 kind,double p){ return p>0 && (rnd(kind)>>11)*(1.0/9007199254740992.0) < p; }
void fail(const std::string& prop,const std::string& cls,const char* fmt,...) __attribute__((format(printf,3,4)));
void probe(const char* name,u64 n=1);
void fired(const char* name,u64 n=1);
void seam(const char* where);             // preemption point at a libc boundary
void yield_now();                         // explicit
Wake block(u64 key,u64 deadline,bool cond,const char* where);   // park current task
int wake(u64 key,int n);                  // wake up to n waiters (n<0: all)
int waiters(u64 key);
u64 canon(const void* a);
void sim_sleep(u64 ns);
void quiesce();                           // (harness) wait until nothing else can run
void kill_proc(Proc* p,ExitKind how);
[[noreturn]] void proc_exit(ExitKind how);
Proc* new_proc(const std::string& name,const cpu_set_t& mask,int pid=0);
Task* new_task(Proc* p,std::function<void()> body);
Task* new_task_fn(Proc* p,void*(*fn)(void*),void* arg);
void join_task(Task* t);
bool proc_exists(int pid);
Seg* seg_find(const std::string& name);
bool seg_used(Seg* s);
void run_one(Run* r,std::function<void()> director);
void engine_init(const std::vector<std::string>& libs);
void end_run(const std::string& why);
extern u64 OPSEQ;
struct NoPreempt { NoPreempt(){ CUR->nopreempt++; } ~NoPreempt(){ CUR->nopreempt--; } };
bool addr_is_stack(const void*);
char* strf(const char* fmt,...);
struct OsCfg { std::map<std::string,double> p; double pfail(const char* w){ if(p.empty()) return 0; auto i=p.find(w); return i==p.end()?0:i->second; } };
extern OsCfg OS; extern std::map<std::string,std::string> FILES;
std::string seg_bytes(Seg* s);
static inline int mu_first(const cpu_set_t* s){ for(int i=0;i<CPU_SETSIZE;i++) if(CPU_ISSET(i,s)) return i; return -1; }
void os_reserve(); char* os_arena(int i); void os_release(Proc* p); void os_reset();
[[noreturn]] void segv_exit();
