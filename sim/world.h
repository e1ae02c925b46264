// A set of simulated applications using DLB through its public API, with a recorded history.
#pragma once
#include "engine.h"
#include "api.h"
#include "scen.h"
typedef std::vector<int> IV;
struct Mask { cpu_set_t s; Mask(){ CPU_ZERO(&s);} Mask(const cpu_set_t& x):s(x){} bool has(int c)const{ return CPU_ISSET(c,&s);} void add(int c){CPU_SET(c,&s);} void del(int c){CPU_CLR(c,&s);} int count()const{return CPU_COUNT(&s);} bool empty()const{return !count();}
  Mask operator&(const Mask&o)const{ Mask r; CPU_AND(&r.s,&s,&o.s); return r;} Mask operator|(const Mask&o)const{ Mask r; CPU_OR(&r.s,&s,&o.s); return r;} Mask operator-(const Mask&o)const{ Mask r=*this; for(int i=0;i<64;i++) if(o.has(i)) r.del(i); return r;} bool operator==(const Mask&o)const{ return CPU_EQUAL(&s,&o.s);} bool operator!=(const Mask&o)const{return !(*this==o);} bool sub(const Mask&o)const{ return ((*this)-o).empty(); }
  std::string str()const{ std::string r="{"; for(int i=0;i<64;i++) if(has(i)) r+=(r.size()>1?",":"")+std::to_string(i); return r+"}"; } static Mask of(int c){ Mask m; m.add(c); return m; } static Mask range(int a,int b){ Mask m; for(int i=a;i<b;i++) m.add(i); return m; }
  u64 bits()const{ u64 b=0; for(int i=0;i<64;i++) if(has(i)) b|=1ULL<<i; return b; } int first()const{ return mu_first(&s);} };
static inline Mask mask_bits(u64 b){ Mask m; for(int i=0;i<64;i++) if(b>>i&1) m.add(i); return m; }

enum OpCode { O_INIT, O_FINALIZE, O_LEND, O_LENDCPU, O_LENDMASK, O_LENDCPUS, O_RECLAIM, O_RECLAIMCPU, O_RECLAIMCPUS, O_RECLAIMMASK, O_ACQCPU, O_ACQCPUS, O_ACQMASK, O_ACQINMASK, O_BORROW, O_BORCPU, O_BORCPUS, O_BORMASK, O_BORINMASK,
  O_RETURN, O_RETCPU, O_RETMASK, O_SETMAX, O_UNSETMAX, O_DISABLE, O_ENABLE, O_CHECK, O_BLOCK_IN, O_BLOCK_OUT, O_POLLDROM, O_SLEEP, O_CUSTOM, O_N };
extern const char* OPNAME[];
struct Cb { char kind; int n; Mask m; u64 seq; struct Op* op; bool helper; };   // e/d single cpu in m; t: set_num_threads n; p: process mask; a: active mask
struct App; struct AppThread;
struct Op { u64 id=0; int code=O_CUSTOM; int n=0; Mask m; u64 s=0,e=0; int rc=0; bool started=false, done=false; std::vector<Cb> cbs; App* app=nullptr; AppThread* thr=nullptr; std::function<int()> fn; std::string desc; u64 ns=0; int nosched=0; bool skip=false, fixed=false, noop=false; Mask lentm; u64 t0=0,t1=0; Mask before, told; };
struct AppThread { App* app; Task* task; int idx; std::deque<Op*> q; Op* cur=nullptr; u64 key; Mask aff; Mask inblk; bool blocked=false; };
struct App { int idx; Proc* p=nullptr; Api* a=nullptr; std::string name, args, key="k"; int color=0; Mask own; int ncpus=0; bool up=false, enabled=true; std::vector<AppThread*> th; struct World* w;
  // view built from return codes and callbacks
  Mask has, lent; int nthreads=0; int maxpar=0; bool expect_death=false; bool dead=false; std::vector<Cb> hcbs; bool cbset=false; int dead_how=0; int group=0; int cbvar=-1; bool keep=false, async=false, pm=false; int aff=0; int maxopt=0; Mask doubt; u64 gen=0; bool conv=false; };
struct World {
  Run& r; Rng rng; int ncpu, ncore, nnode, tpc; std::vector<App*> apps; std::vector<Op*> hist; u64 seq=0; std::function<void(Op*)> after_op; std::function<void(App*,Cb&)> on_cb; bool serial=false; u64 nextid=1, fixid=0; Mask sys; bool smt=false; bool slow_cb=false;
  World(Run& run); ~World();
  App* add_app(const std::string& name,const Mask& own,const std::string& args);
  void launch(App* a);                    // create the process
  AppThread* add_thread(App* a);
  Op* mk(App* a,int code,int n=0,Mask m=Mask()); Op* mkf(App* a,int code,int n=0,Mask m=Mask()){ Op* o=mk(a,code,n,m); o->fixed=true; o->id=(1ULL<<40)+fixid++; nextid--; return o; }
  Op* custom(App* a,const std::string& d,std::function<int()> f);
  void post(AppThread* t,Op* o); 
  bool run(Op* o,int thr=0);              // post and wait for quiescence; false if it did not finish
  bool settle();                          // wait for quiescence; false if some posted op is unfinished
  std::string stuck();
  void exec(Op* o);
  std::string table(App* a);              // text of the shared table
  bool died(App* a){ return a->dead; }
  void set_callbacks(App* a);
  int core(int c){ return c/tpc; } Mask coremask(int c){ return Mask::range(c/tpc*tpc,c/tpc*tpc+tpc); }
};
static inline const char* rcs(int rc){ static const char* n[]={"NOTED","SUCCESS"}; (void)n; switch(rc){ case 0:return "SUCCESS"; case 1:return "NOTED"; case 2:return "NOUPDT"; case -1:return "ERR_UNKNOWN"; case -2:return "ERR_NOINIT"; case -3:return "ERR_INIT"; case -4:return "ERR_DISBLD"; case -5:return "ERR_NOSHMEM"; case -6:return "ERR_NOPROC"; case -7:return "ERR_PDIRTY"; case -8:return "ERR_PERM"; case -9:return "ERR_TIMEOUT"; case -10:return "ERR_NOCBK"; case -11:return "ERR_NOENT"; case -12:return "ERR_NOCOMP"; case -13:return "ERR_REQST"; case -14:return "ERR_NOMEM"; case -15:return "ERR_NOPOL"; case -16:return "ERR_NOTALP"; case -17:return "ERR_NOLEWI"; default:return "?"; } }
struct syncflags { bool is_mpi:1, is_blocking:1, is_collective:1, is_dlb_barrier:1, do_lewi:1; };
