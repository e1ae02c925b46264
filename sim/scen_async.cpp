// Helper threads and their message queues: every message accepted by a running helper is applied exactly once, in order per
// sender, by the process it was sent to, before that process finalizes (C20).
#include "world.h"
#include <memory>
namespace {
struct Msg { int id, target, sender, thr; char kind; int n; u64 s=0,e=0; bool done=false; u64 at=0; int inc=-1; int times=0; };
struct Inc { u64 is=0,ie=0,fs=0,fe=0; bool ok=false; };
struct Tg { std::vector<Inc> inc; int out=0; int slow=0; bool gate=false, exact=false; u64 gkey=0; std::vector<u64> gates; std::map<std::pair<char,int>,Msg*> by; int idx; World* w; App* a; bool dead_name=false; u64 applied=0; int half=-1; };
static std::vector<Tg*> TGS;
void applied(Tg* t,char kind,int n){ if(!t) return;   // told before DLB_CallbackSet stored the argument (messages sent while the target initializes)
  World& w=*t->w; u64 q=++w.seq; logf("%s applies %c %d",t->a->name.c_str(),kind,n); auto it=t->by.find({kind,n});
  if(kind=='t'&&it==t->by.end()) return;                                  // a number the library itself may send
  if(it==t->by.end()){ if(n<200) return; for(auto* o:TGS) if(o->by.count({kind,n})){ fail("C20","wrong-process","%s applied a message sent to %s",t->a->name.c_str(),o->a->name.c_str()); return; } fail("C20","invented","%s applied a message (%c %d) that nobody sent",t->a->name.c_str(),kind,n); return; }
  Msg* m=it->second; if(m->times++){ fail("C20","duplicate","%s applied the message %c %d twice",t->a->name.c_str(),kind,n); return; } 
  m->at=q; m->inc=(int)t->inc.size()-1; t->applied++; if(t->out>0) t->out--; 
  if(!m->s) fail("C20","invented","%s applied a message that was not sent yet",t->a->name.c_str());
  Inc* i=m->inc>=0?&t->inc[m->inc]:nullptr; if(!i||i->fe||!CUR->helper) fail("C20","after-finalize","%s applied a message %s",t->a->name.c_str(),!CUR->helper?"in a thread that is not its helper":"after it finalized");
  else if(m->done&&m->e<i->is) fail("C20","stale","%s applied a message that was sent before it initialized",t->a->name.c_str());
  u64 before=q; (void)before;
  if(t->gate&&kind=='e'&&n>=1000) { while(t->gate) block(t->gkey,NOW+50000000,false,"gate"); }
  if(t->slow&&rnd(0x78)%t->slow==0) sim_sleep(1000+rnd(0x77)%3000000); else if(w.slow_cb) yield_now(); }
void a_en(int c,void* x){ applied((Tg*)x,'e',c); }
void a_di(int c,void* x){ applied((Tg*)x,'d',c); }
// a set {t,t+1} may come as a whole or one by one
void a_set(Tg* t,char k,const cpu_set_t* s){ if(!t) return; int c=-1,cnt=0; for(int i=0;i<CPU_SETSIZE;i++) if(CPU_ISSET(i,s)){ if(c<0) c=i; cnt++; } if(c<200) return; if(cnt!=2||!CPU_ISSET(c+1,s)) fail("C20","wrong-content","%s was told the wrong set of CPUs",t->a->name.c_str()); applied(t,k,c); }
void a_ens(const cpu_set_t* s,void* x){ a_set((Tg*)x,'e',s); }
void a_dis(const cpu_set_t* s,void* x){ a_set((Tg*)x,'d',s); }
void a_nt(int n,void* x){ applied((Tg*)x,'t',n); }
}
SCENARIO(async){
  World w(run); Rng& g=w.rng; if(run.cfg.pstall>0) run.cfg.stall_ns=std::min<u64>(run.cfg.stall_ns,5000000);
  int na=g.range(2,4); w.ncpu=w.ncore=std::max(na*2,(int)g.range(8,24)); w.nnode=1; w.tpc=1; w.slow_cb=g.chance(0.5); run.nontrivial=true; int per=w.ncpu/na;
  std::vector<std::unique_ptr<Tg>> T; std::vector<std::unique_ptr<Msg>> M; TGS.clear(); int tag=200, gtag=1000;
  for(int i=0;i<na;i++){ int md=g.below(4); std::string ar=md==0?"--mode=async --lewi=no --drom=no --talp=no":md==1?"--mode=async --lewi=no --drom":md==2?"--mode=async --lewi --lewi-barrier=no":"--mode=async --lewi --drom --talp"; App* a=w.add_app(std::string(1,'A'+i),md==0&&g.chance(0.5)?Mask():Mask::range(i*per,(i+1)*per),ar); a->ncpus=per; w.launch(a); int nt=g.range(1,3); for(int k=1;k<nt;k++) w.add_thread(a);
    T.emplace_back(new Tg); Tg* t=T.back().get(); t->idx=i; t->w=&w; t->a=a; t->gkey=0x7100000000000000ULL+i; t->slow=g.chance(0.4)?(int)g.range(1,8):0; TGS.push_back(t); }
  std::vector<char> up(na,0); std::vector<int> numleft(na,w.ncpu);
  auto init=[&](int i,int th=0){ App* a=w.apps[i]; Tg* t=T[i].get(); bool sets1=g.chance(0.5), sets2=g.chance(0.5), bad=g.chance(0.06); (void)bad;
    Op* o=w.custom(a,"Init",[&w,a,t,sets1,sets2,&up,i]{ Api* A=a->a; t->inc.emplace_back(); size_t k=t->inc.size()-1; t->inc[k].is=++w.seq; t->out=0; A->mu_testing_set_sys(w.ncpu,w.ncpu,1); 
      int rc=A->DLB_Init(a->ncpus,a->own.empty()?nullptr:&a->own.s,("--shm-key=k "+a->args).c_str()); logf("Init %s = %s",a->name.c_str(),rcs(rc));
      if(rc>=0){ A->DLB_CallbackSet(dlb_callback_enable_cpu,(dlb_callback_t)a_en,t); A->DLB_CallbackSet(dlb_callback_disable_cpu,(dlb_callback_t)a_di,t); (void)sets1;(void)sets2; A->DLB_CallbackSet(dlb_callback_enable_cpu_set,(dlb_callback_t)a_ens,t); A->DLB_CallbackSet(dlb_callback_disable_cpu_set,(dlb_callback_t)a_dis,t); A->DLB_CallbackSet(dlb_callback_set_num_threads,(dlb_callback_t)a_nt,t);
        t->inc[k].ok=true; t->inc[k].ie=++w.seq; a->up=true; } else { fail("C20","init","DLB_Init of %s = %s",a->name.c_str(),rcs(rc)); } return rc; });
    up[i]=1; w.post(a->th[th],o); };
  auto fini=[&](int i){ App* a=w.apps[i]; Tg* t=T[i].get(); Op* o=w.custom(a,"Finalize",[&w,a,t]{ Inc& x=t->inc.back(); x.fs=++w.seq; if(t->out) probe("finalize_with_messages",1); int rc=a->a->DLB_Finalize(); x.fe=++w.seq; t->out=0; a->up=false; logf("Finalize %s = %s",a->name.c_str(),rcs(rc)); if(rc) fail("C20","finalize","DLB_Finalize of %s = %s",a->name.c_str(),rcs(rc)); return rc; }); up[i]=0; w.post(a->th[0],o); };
  auto send=[&](int i,int th,int j,bool gate=false){ App* a=w.apps[i]; Tg* t=T[j].get(); Msg* m=new Msg; M.emplace_back(m); m->id=M.size(); m->target=j; m->sender=i; m->thr=th; int k=g.below(10); bool set=false;
    if(gate){ m->kind='e'; m->n=gtag++; if(gtag>1020) gtag=1020; } else if(k<2&&numleft[j]>0){ m->kind='t'; m->n=numleft[j]--; } else { if(tag>980) tag=980; m->kind=k&1?'e':'d'; m->n=tag; set=k>=7; tag+=2; if(tag>=980){ M.pop_back(); return; } }
    t->by[{m->kind,m->n}]=m; bool full=g.chance(0.5); (void)full;
    Op* o=w.mk(a,O_CUSTOM); char b[80]; snprintf(b,sizeof b,"send to %s: %s %d%s",t->a->name.c_str(),m->kind=='e'?"enable":m->kind=='d'?"disable":"threads",m->n,set?" (set)":""); o->desc=b;
    o->fn=[&w,a,t,m,set]{ if(!a->up) return 0; while(t->out>=(t->exact?99:90)){ probe("queue_full"); sim_sleep(200000); if(!a->up) return 0; } Api* A=a->a; int pid=t->a->p->pid; m->s=++w.seq; if(!t->inc.empty()&&!t->inc.back().fe) t->out++; if(t->out==99) probe("99_outstanding"); cpu_set_t s; CPU_ZERO(&s); CPU_SET(m->n,&s); if(set) CPU_SET(m->n+1,&s);
      if(m->kind=='t') ((void(*)(pid_t,int))A->sym("shmem_async_set_num_cpus"))(pid,m->n); else if(set) ((void(*)(pid_t,const cpu_set_t*))A->sym(m->kind=='e'?"shmem_async_enable_cpu_set":"shmem_async_disable_cpu_set"))(pid,&s); else ((void(*)(pid_t,int))A->sym(m->kind=='e'?"shmem_async_enable_cpu":"shmem_async_disable_cpu"))(pid,m->n);
      m->e=++w.seq; m->done=true; return 0; };
    w.post(a->th[th],o); };
  auto slp=[&](int i,int th,u64 mx){ Op* z=w.mk(w.apps[i],O_SLEEP); z->ns=1+g.below(mx); w.post(w.apps[i]->th[th],z); };
  auto settle=[&]{ if(w.settle()) return true; fail("C20","stuck","calls do not finish: %s",w.stuck().c_str()); return false; };
  for(int i=0;i<na;i++) if(i<2||g.chance(0.7)) init(i); if(!settle()) return;
  int rounds=g.range(1,4);
  for(int ph=0;ph<rounds&&run.viol.empty();ph++){
    bool burst=g.chance(0.12); std::vector<char> u(up.begin(),up.end());
    if(burst){ // the helper of j is busy while the others fill its queue
      std::vector<int> U; for(int i=0;i<na;i++) if(u[i]) U.push_back(i); if(U.size()<2){ for(int i=0;i<na;i++) if(!u[i]) init(i); if(!settle()) return; continue; }
      int j=U[g.below(U.size())], s=j; while(s==j) s=U[g.below(U.size())]; Tg* t=T[j].get(); t->gate=t->exact=true; send(s,0,j,true); int k=g.chance(0.6)?99:g.range(20,110); for(int x=0;x<k;x++){ int who=U[g.below(U.size())]; if(who==j&&g.chance(0.9)) who=s; send(who,who==j?0:g.below(w.apps[who]->th.size()),j); }
      bool f=g.chance(0.5); if(f) fini(j); int op=s; for(int i:U) if(i!=j&&i!=s) op=i; Op* o=w.custom(w.apps[op],"open the gate",[t,&w]{ sim_sleep(1+rnd(0x99)%20000000); t->gate=false; wake(t->gkey,-1); return 0; }); AppThread* gt=w.add_thread(w.apps[op]); w.post(gt,o); if(!settle()) return; t->exact=false; if(f&&g.chance(0.7)){ init(j); if(!settle()) return; } probe("burst"); continue; }
    // processes that leave in this phase use one thread only (calls concurrent with the own DLB_Finalize are not supported)
    std::vector<char> leaver(na,0); for(int i=0;i<na;i++) leaver[i]=g.chance(0.35);
    int k=g.range(4,26);
    for(int x=0;x<k;x++){ int i=g.below(na); App* a=w.apps[i]; 
      if(leaver[i]){ int c=g.below(10); if(!u[i]){ if(c<5){ init(i); u[i]=1; } continue; } if(c<2){ fini(i); u[i]=0; continue; } if(c<3){ slp(i,0,3000000); continue; } send(i,0,g.below(na)); continue; }
      if(!u[i]) continue; int th=g.below(a->th.size()); if(g.chance(0.12)) slp(i,th,2000000); else { int j=g.below(na), r=g.chance(0.2)?(int)g.range(2,8):1; while(r--) send(i,th,j); } }
    for(int i=0;i<na;i++) up[i]=u[i];
    if(!settle()) return; }
  // ---- end: everybody finalizes, some at once
  for(int i=0;i<na;i++) if(up[i]&&g.chance(0.5)){ send(i,0,g.below(na)); } bool conc=g.chance(0.5); for(int i=0;i<na;i++) if(up[i]){ fini(i); if(!conc) if(!settle()) return; } if(!settle()) return;
  // ---- the history
  for(auto& m:M){ if(!m->s||!run.viol.empty()) continue; Tg* t=T[m->target].get(); probe(m->times?"applied":"not_applied"); 
    for(size_t i=0;i<t->inc.size();i++){ Inc& x=t->inc[i]; if(x.ok&&x.ie<m->s&&m->done&&m->e<x.fs){ if(!m->times) fail("C20","lost","%s never applied the message %c %d, sent while its helper was running",t->a->name.c_str(),m->kind,m->n); else if(m->inc!=(int)i) fail("C20","late","%s applied a message only after it finalized and initialized again",t->a->name.c_str()); } } 
    for(auto& m2:M) if(m2->id>m->id&&m2->s&&m2->target==m->target&&m2->sender==m->sender&&m2->thr==m->thr&&m->done&&m2->s>m->e){ if(m->times&&m2->times&&m->at>m2->at) fail("C20","order","%s applied %c %d before %c %d, sent earlier by the same thread",t->a->name.c_str(),m2->kind,m2->n,m->kind,m->n);
      // accepted, although an earlier one of the same sender to the same incarnation was dropped
      if(!m->times&&m2->times){ Inc& x=t->inc[m2->inc]; if(m->s>x.ie) fail("C20","dropped","%s applied %c %d but not %c %d, sent earlier by the same thread",t->a->name.c_str(),m2->kind,m2->n,m->kind,m->n); } } }
  for(App* a:w.apps) if(!a->dead) kill_proc(a->p,X_NORMAL);
}
