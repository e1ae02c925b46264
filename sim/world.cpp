#include "world.h"
#include <stdlib.h>
const char* OPNAME[]={"Init","Finalize","Lend","LendCpu","LendCpuMask","LendCpus","Reclaim","ReclaimCpu","ReclaimCpus","ReclaimCpuMask","AcquireCpu","AcquireCpus","AcquireCpuMask","AcquireCpusInMask","Borrow","BorrowCpu","BorrowCpus","BorrowCpuMask","BorrowCpusInMask","Return","ReturnCpu","ReturnCpuMask","SetMaxParallelism","UnsetMaxParallelism","Disable","Enable","CheckCpuAvailability","IntoBlockingCall","OutOfBlockingCall","PollDROM","sleep","custom"};

World::World(Run& run):r(run),rng(mix2(run.seed,0x517)){
  run.on_exit=[this](Proc* p,ExitKind how){ for(App* a:apps) if(a->p==p){ a->dead=true; a->dead_how=how; a->up=false; if(how!=X_NORMAL&&how!=X_CRASH&&!a->expect_death){ std::string t=p->err.size()>600?p->err.substr(p->err.size()-600):p->err; for(char&c:t) if(c=='\n') c='|'; 
     std::string od; for(auto*t2:a->th) if(t2->cur) od+=t2->cur->desc+" "; fail("*",how==X_SEGV?"segv":how==X_ABORT?"abort":"exit","process %s died (%s) during %s: %s",a->name.c_str(),how==X_SEGV?"memory fault":how==X_ABORT?"abort":"exit",od.c_str(),t.c_str()); end_run("died"); } } };
}
World::~World(){ for(App* a:apps){ for(auto t:a->th) delete t; delete a; } for(Op* o:hist) delete o; }

App* World::add_app(const std::string& name,const Mask& own,const std::string& args){ App* a=new App; a->idx=(int)apps.size(); a->name=name; a->own=own; a->args=args; a->w=this; apps.push_back(a); return a; }

static void thread_main(AppThread* t){
  while(true){
    while(t->q.empty()) { CUR->opdesc="idle"; block(t->key,0,false,"idle"); }
    Op* o=t->q.front(); t->q.pop_front(); t->cur=o; CUR->opdesc=o->desc; t->app->w->exec(o); t->cur=nullptr;
  }
}
void World::launch(App* a){
  a->p=new_proc(a->name,a->own.s); a->a=a->p->copy->api; a->dead=false; a->cbset=false; a->p->app=a; a->th.clear();
  add_thread(a);
}
AppThread* World::add_thread(App* a){ AppThread* t=new AppThread; t->app=a; t->idx=(int)a->th.size(); t->aff=a->own; a->th.push_back(t); t->task=new_task(a->p,[t]{ thread_main(t); }); t->key=0x6000000000000000ULL+t->task->id; t->task->helper=false; return t; }
Op* World::mk(App* a,int code,int n,Mask m){ Op* o=new Op; o->id=nextid++;  o->code=code; o->n=n; o->m=m; o->app=a; char b[256]; bool um= code==O_LENDMASK||code==O_RECLAIMMASK||code==O_ACQMASK||code==O_ACQINMASK||code==O_BORMASK||code==O_BORINMASK||code==O_RETMASK||code==O_BLOCK_IN||code==O_BLOCK_OUT; bool un= code==O_LENDCPU||code==O_LENDCPUS||code==O_RECLAIMCPU||code==O_RECLAIMCPUS||code==O_ACQCPU||code==O_ACQCPUS||code==O_ACQINMASK||code==O_BORCPU||code==O_BORCPUS||code==O_BORINMASK||code==O_RETCPU||code==O_SETMAX||code==O_CHECK; 
  snprintf(b,sizeof b,"%s(%s%s%s)",OPNAME[code],un?std::to_string(n).c_str():"",un&&um?",":"",um?m.str().c_str():""); o->desc=b; hist.push_back(o); return o; }
Op* World::custom(App* a,const std::string& d,std::function<int()> f){ Op* o=mk(a,O_CUSTOM); o->desc=d; o->fn=std::move(f); o->fixed=true; o->id=(1ULL<<40)+fixid++; nextid--; return o; }
void World::post(AppThread* t,Op* o){ if(!o->fixed){ if(r.rp->skip_ops.count(o->id)){ o->skip=true; return; } r.ops_done.push_back(o->id); } o->thr=t; t->q.push_back(o); wake(t->key,-1); }
bool World::settle(){ quiesce(); for(App* a:apps) if(!a->dead) for(auto t:a->th) if(t->cur||!t->q.empty()) return false; return true; }
std::string World::stuck(){ std::string s; for(App* a:apps) if(!a->dead) for(auto t:a->th) if(t->cur) s+=a->name+" in "+t->cur->desc+" at "+t->task->where+"; "; return s; }
bool World::run(Op* o,int thr){ if(o->app->dead) return false; post(o->app->th[thr],o); if(o->skip) return true; quiesce(); return o->done; }

// ---- callbacks
static void cb_push(App* a,Cb c){ World* w=a->w; c.seq=++w->seq; c.helper=CUR->helper; c.op=nullptr; for(auto t:a->th) if(t->task==CUR) c.op=t->cur; 
  logf("cb %s %c %s n=%d%s",a->name.c_str(),c.kind,c.m.str().c_str(),c.n,c.helper?" (helper)":"");
  if(c.op) c.op->cbs.push_back(c); else a->hcbs.push_back(c);
  if(c.kind=='e') a->has=a->has|c.m; if(c.kind=='d'){ a->has=a->has-c.m; for(auto t:a->th) if(t->cur) t->cur->told=t->cur->told|c.m; } if(c.kind=='e'||c.kind=='d') a->doubt=a->doubt-c.m; if(c.kind=='e') a->lent=a->lent-c.m;
  if(w->on_cb) w->on_cb(a,c); if(w->slow_cb) yield_now(); }
static void cb_enable(int c,void* x){ cb_push((App*)x,Cb{'e',0,Mask::of(c)}); }
static void cb_disable(int c,void* x){ cb_push((App*)x,Cb{'d',0,Mask::of(c)}); }
static void cb_enable_set(const cpu_set_t* s,void* x){ cb_push((App*)x,Cb{'e',0,Mask(*s)}); }
static void cb_disable_set(const cpu_set_t* s,void* x){ cb_push((App*)x,Cb{'d',0,Mask(*s)}); }
static void cb_threads(int n,void* x){ ((App*)x)->nthreads=n; cb_push((App*)x,Cb{'t',n,Mask()}); }
static void cb_pmask(const cpu_set_t* s,void* x){ cb_push((App*)x,Cb{'p',0,Mask(*s)}); }
void World::set_callbacks(App* a){
  Api* A=a->a; int v=a->cbvar>=0?a->cbvar:(int)(mix2(r.seed,a->idx+100)%3); a->cbset=true;
  A->DLB_CallbackSet(dlb_callback_enable_cpu,(dlb_callback_t)cb_enable,a); A->DLB_CallbackSet(dlb_callback_disable_cpu,(dlb_callback_t)cb_disable,a);
  if(v){ A->DLB_CallbackSet(dlb_callback_enable_cpu_set,(dlb_callback_t)cb_enable_set,a); if(v>1) A->DLB_CallbackSet(dlb_callback_disable_cpu_set,(dlb_callback_t)cb_disable_set,a); }
  A->DLB_CallbackSet(dlb_callback_set_num_threads,(dlb_callback_t)cb_threads,a); A->DLB_CallbackSet(dlb_callback_set_process_mask,(dlb_callback_t)cb_pmask,a);
}
void World::exec(Op* o){
  App* a=o->app; Api* A=a->a; o->s=++seq; o->started=true; o->t0=NOW; o->before=a->has; r.ops++; int rc=0; const cpu_set_t* m=&o->m.s;
  // what the application stops using before it makes the call
  if(o->code==O_LEND) a->has=Mask(); if(o->code==O_LENDCPU) a->has.del(o->n); if(o->code==O_LENDMASK) a->has=a->has-o->m;
  if(o->code==O_BLOCK_IN){ o->m=o->m&a->has; if(o->m.empty()||o->thr->blocked||!a->up||!a->enabled) o->noop=true; else { o->lentm= a->keep? o->m-coremask(o->m.first()):o->m; a->has=a->has-o->lentm; o->thr->blocked=true; o->thr->inblk=o->lentm; o->thr->aff=o->m; o->desc="IntoBlockingCall("+o->m.str()+")"; } }
  if(o->code==O_BLOCK_OUT){ if(!o->thr->blocked) o->noop=true; else { o->m=o->thr->aff; o->lentm=o->thr->inblk; o->thr->blocked=false; o->desc="OutOfBlockingCall("+o->m.str()+")"; } }
  if(o->noop){ o->e=++seq; o->done=true; return; }
  CUR->opdesc=o->desc; logf("call %s %s",a->name.c_str(),o->desc.c_str());
  if(serial) CUR->nopreempt++;
  switch(o->code){
    case O_INIT: { std::string s="--shm-key="+a->key+" "+a->args; if(a->color) s+=" --lewi-color="+std::to_string(a->color); A->mu_testing_set_sys(ncpu,ncore,nnode); rc=A->DLB_Init(a->ncpus,a->own.empty()?nullptr:&a->own.s,s.c_str()); if(rc>=0){ set_callbacks(a); a->up=true; a->enabled=true; a->has=a->own; a->lent=Mask(); a->maxpar=a->maxopt; a->doubt=Mask(); a->gen++; a->nthreads=a->ncpus; } break; }
    case O_FINALIZE: rc=A->DLB_Finalize(); if(rc>=0){ a->up=false; a->has=Mask(); a->lent=Mask(); a->doubt=Mask(); } break;
    case O_LEND: rc=A->DLB_Lend(); break; case O_LENDCPU: rc=A->DLB_LendCpu(o->n); break; case O_LENDMASK: rc=A->DLB_LendCpuMask(m); break; case O_LENDCPUS: rc=A->DLB_LendCpus(o->n); break;
    case O_RECLAIM: rc=A->DLB_Reclaim(); break; case O_RECLAIMCPU: rc=A->DLB_ReclaimCpu(o->n); break; case O_RECLAIMCPUS: rc=A->DLB_ReclaimCpus(o->n); break; case O_RECLAIMMASK: rc=A->DLB_ReclaimCpuMask(m); break;
    case O_ACQCPU: rc=A->DLB_AcquireCpu(o->n); break; case O_ACQCPUS: rc=A->DLB_AcquireCpus(o->n); break; case O_ACQMASK: rc=A->DLB_AcquireCpuMask(m); break; case O_ACQINMASK: rc=A->DLB_AcquireCpusInMask(o->n,m); break;
    case O_BORROW: rc=A->DLB_Borrow(); break; case O_BORCPU: rc=A->DLB_BorrowCpu(o->n); break; case O_BORCPUS: rc=A->DLB_BorrowCpus(o->n); break; case O_BORMASK: rc=A->DLB_BorrowCpuMask(m); break; case O_BORINMASK: rc=A->DLB_BorrowCpusInMask(o->n,m); break;
    case O_RETURN: rc=A->DLB_Return(); break; case O_RETCPU: rc=A->DLB_ReturnCpu(o->n); break; case O_RETMASK: rc=A->DLB_ReturnCpuMask(m); break;
    case O_SETMAX: rc=A->DLB_SetMaxParallelism(o->n); if(rc==0&&o->n>0) a->maxpar=o->n; break; case O_UNSETMAX: rc=A->DLB_UnsetMaxParallelism(); if(rc==0) a->maxpar=0; break;
    case O_DISABLE: rc=A->DLB_Disable(); if(rc>=0) a->enabled=false; break; case O_ENABLE: rc=A->DLB_Enable(); if(rc>=0) a->enabled=true; break; case O_CHECK: rc=A->DLB_CheckCpuAvailability(o->n); if(rc==0){ a->has.add(o->n); a->lent.del(o->n); } break;
    case O_BLOCK_IN: { CUR->affinity=o->m.s; syncflags f{true,true,true,false,true}; ((void(*)(syncflags))A->sym("into_sync_call"))(f); break; }
    case O_BLOCK_OUT: { if(a->conv) a->has=a->has|o->lentm; CUR->affinity=o->m.s; syncflags f{true,true,true,false,true}; ((void(*)(syncflags))A->sym("out_of_sync_call"))(f); if(a->conv) break; Mask owned=o->lentm&a->own; a->has=a->has|owned; a->doubt=a->doubt|(o->lentm-owned); break; }
    case O_POLLDROM: { int n; cpu_set_t mm; CPU_ZERO(&mm); rc=A->DLB_PollDROM(&n,&mm); o->n=n; o->m=Mask(mm); break; }
    case O_SLEEP: if(serial) CUR->nopreempt--; sim_sleep(o->ns?o->ns:1000); if(serial) CUR->nopreempt++; break;
    case O_CUSTOM: rc=o->fn(); break;
  }
  if(serial) CUR->nopreempt--;
  if((rc==DLB_ERR_DISBLD||rc==DLB_ERR_NOINIT)&&(o->code==O_LEND||o->code==O_LENDCPU||o->code==O_LENDMASK)) a->has=a->has|(o->before-o->told);   // refused: nothing was given away
  else if(o->code==O_LEND) a->doubt=Mask(); else if(o->code==O_LENDCPU) a->doubt.del(o->n); else if(o->code==O_LENDMASK) a->doubt=a->doubt-o->m;   // given up for good
  o->rc=rc; o->e=++seq; o->t1=NOW; o->done=true; logf("ret %s %s = %s",a->name.c_str(),o->desc.c_str(),rcs(rc));
  if(after_op) after_op(o);
  if(!serial) seam("after-op");
}
std::string World::table(App* a){
  std::string res; Op* o=custom(a,"PrintShmem",[a,&res]{ std::string keep; keep.swap(a->p->err); int rc=a->a->DLB_PrintShmem(0,(dlb_printshmem_flags_t)0); res.swap(a->p->err); a->p->err=keep; return rc; }); run(o); return res;
}
