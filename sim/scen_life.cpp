// Process life cycle: processes of every kind initialize, use the library, finalize, attach and detach, again and again
// and concurrently (also from several threads of one process). Decides C21 (one shared state per key) and C27
// (idempotent, repeatable, leak-free, clean start).
#include "world.h"
extern std::vector<Mapping> MAPS;
void dump_live(Proc*);
namespace {
struct LP { App* a=nullptr; std::vector<std::string> kinds; std::string args; bool masked=false,classic=false,drom=false,talp=false,ext=false,lewi=false,async=false; Mask ask; int ncpus=0; bool up=false,overlap=false; int busy=0; int att=0,tatt=0; int initok=0,initerr=0,pending=0; std::vector<int> rcs; int cycles=0; };
bool has(const std::string& s,const char* t){ return s.find(t)!=std::string::npos; }
std::string pick_args(Rng& g,bool masked,int n,bool share){
  std::string s;
  if(masked){ int k=g.below(4); if(k!=1) s+="--lewi "; if(k==1||k==2) s+="--drom "; if(g.chance(0.25)) s+="--mode=async ";
    if(has(s,"--lewi")&&g.chance(0.15)) s+="--lewi-respect-cpuset=no "; if(g.chance(0.15)) s+="--debug-opts=lend-post-mortem "; if(g.chance(0.15)) s+="--lewi-keep-one-cpu "; if(g.chance(0.2)) s+="--lewi-max-parallelism="+std::to_string(g.range(1,n))+" "; if(g.chance(0.1)) s+="--lewi-affinity="+std::string(g.chance(0.5)?"mask":"nearby-only")+" "; if(!has(s,"--lewi ")) s+="--lewi=no "; }
  else { int k=g.below(share?5:4); if(k<2) s+="--lewi "; else s+="--lewi=no "; if(k==0||k==2) s+="--mode=async "; if(k==4) s+="--talp "; }
  if((masked||share)&&g.chance(0.3)&&!has(s,"--talp ")) s+="--talp "; if(has(s,"--talp ")){ if(g.chance(0.5)) s+="--talp-external-profiler "; s+="--talp-summary=none "; } else s+="--talp=no ";
  if(g.chance(0.3)) s+="--barrier=no "; if(g.chance(0.15)) s+="--lewi-barrier "; return s; }
}
SCENARIO(life){
  World w(run); Rng& g=w.rng; const std::string& P=run.prop; if(run.cfg.pstall>0) run.cfg.stall_ns=std::min<u64>(run.cfg.stall_ns,3000000);
  int n=g.range(2,6), na=g.range(2,std::min(n,5)); w.ncpu=w.ncore=n; w.nnode=1; w.tpc=1; run.nontrivial=true;
  bool faults=P=="C27"&&g.chance(0.15); double overlap=P=="C27"?0.15:0.05; bool share=g.chance(0.25); std::string col=share?" --lewi-color=1":"";  /* CPU sharing is all or nothing on a node */
  std::vector<LP> L(na); u64 ovl=0;
  for(int i=0;i<na;i++){ LP& l=L[i]; Mask m; for(int c=i*n/na;c<(i+1)*n/na;c++) m.add(c); l.a=w.add_app(std::string(1,'A'+i),m,""); w.launch(l.a); l.a->p->env["DLB_ARGS"]="--shm-key=k"+col; int t=g.range(0,2); for(int k=0;k<t;k++) w.add_thread(l.a); int nk=g.range(1,2); for(int k=0;k<nk;k++){ bool mk=g.chance(0.6); l.kinds.push_back((mk?"M":"-")+pick_args(g,mk,n,share)+(mk?col:"")); } l.ncpus=g.range(1,4); }
  // ---- invariants that hold after every step
  auto chk=[&]{ CUR->nopreempt++; for(size_t i=0;i<MAPS.size()&&run.viol.empty();i++){ Mapping& m=MAPS[i]; App* a=(App*)m.p->app; if(!a) continue; LP& l=L[a->idx]; if(a->idx>=na||l.busy) continue;
      if(!m.seg->linked) fail("C21","orphan","%s is attached to %s, which was removed from the system while %s still uses it",a->name.c_str(),m.seg->name.c_str(),a->name.c_str());
      for(size_t j=0;j<i;j++) if(MAPS[j].p==m.p&&MAPS[j].seg->name==m.seg->name) fail("C21","twice","%s has %s attached twice",a->name.c_str(),m.seg->name.c_str()); } CUR->nopreempt--; };
  auto clean=[&](LP& l,const char* when){ App* a=l.a; if(l.up||l.att||l.tatt||l.busy||!run.viol.empty()) return; CUR->nopreempt++; if(a->p->maps) { std::string s; for(auto& m:MAPS) if(m.p==a->p) s+=" "+m.seg->name; fail("C27","still-attached","%s is still attached to%s %s (%s)",a->name.c_str(),s.c_str(),when,l.args.c_str()); }
    if(!a->p->fds.empty()) fail("C27","open-files","%s keeps %d open descriptors %s (%s)",a->name.c_str(),(int)a->p->fds.size(),when,l.args.c_str());
    int live=0; for(Task* t:a->p->tasks) if(t->st!=T_DONE) live++; if(live>(int)a->th.size()) fail("C27","live-threads","%s has %d threads of the library running %s (%s)",a->name.c_str(),live-(int)a->th.size(),when,l.args.c_str()); CUR->nopreempt--; };
  // ---- calls of a process that is not initialized (nor attached)
  auto down=[&](LP& l,const char* when){ if(l.up||l.att||l.tatt) return; Api* A=l.a->a; cpu_set_t m; CPU_ZERO(&m); CPU_SET(0,&m); int x=0; int pl[16],ne=0; dlb_node_metrics_t* nm=nullptr; (void)nm; u64 z=mix2(run.seed,l.cycles*7+l.a->idx);
    struct E { const char* nm; int rc,want; }; std::vector<E> v; for(int k=0;k<5;k++){ z=mix(z); logf("down call %d",(int)(z%32)); switch(z%32){
      case 0: v.push_back({"Lend",A->DLB_Lend(),DLB_ERR_NOINIT}); break; case 1: v.push_back({"LendCpu",A->DLB_LendCpu(0),DLB_ERR_NOINIT}); break; case 2: v.push_back({"LendCpus",A->DLB_LendCpus(1),DLB_ERR_NOINIT}); break; case 3: v.push_back({"LendCpuMask",A->DLB_LendCpuMask(&m),DLB_ERR_NOINIT}); break;
      case 4: v.push_back({"Reclaim",A->DLB_Reclaim(),DLB_ERR_NOINIT}); break; case 5: v.push_back({"ReclaimCpu",A->DLB_ReclaimCpu(0),DLB_ERR_NOINIT}); break; case 6: v.push_back({"AcquireCpu",A->DLB_AcquireCpu(0),DLB_ERR_NOINIT}); break; case 7: v.push_back({"AcquireCpus",A->DLB_AcquireCpus(1),DLB_ERR_NOINIT}); break; case 8: v.push_back({"AcquireCpuMask",A->DLB_AcquireCpuMask(&m),DLB_ERR_NOINIT}); break;
      case 9: v.push_back({"Borrow",A->DLB_Borrow(),DLB_ERR_NOINIT}); break; case 10: v.push_back({"BorrowCpu",A->DLB_BorrowCpu(0),DLB_ERR_NOINIT}); break; case 11: v.push_back({"BorrowCpus",A->DLB_BorrowCpus(1),DLB_ERR_NOINIT}); break; case 12: v.push_back({"Return",A->DLB_Return(),DLB_ERR_NOINIT}); break; case 13: v.push_back({"ReturnCpu",A->DLB_ReturnCpu(0),DLB_ERR_NOINIT}); break; case 14: v.push_back({"ReturnCpuMask",A->DLB_ReturnCpuMask(&m),DLB_ERR_NOINIT}); break;
      case 15: v.push_back({"Enable",A->DLB_Enable(),DLB_ERR_NOINIT}); break; case 16: v.push_back({"Disable",A->DLB_Disable(),DLB_ERR_NOINIT}); break; case 17: v.push_back({"SetMaxParallelism",A->DLB_SetMaxParallelism(1),DLB_ERR_NOINIT}); break; case 18: v.push_back({"UnsetMaxParallelism",A->DLB_UnsetMaxParallelism(),DLB_ERR_NOINIT}); break; case 19: { int rc=A->DLB_CheckCpuAvailability(0); v.push_back({"CheckCpuAvailability",rc==DLB_ERR_DISBLD||rc==DLB_ERR_NOINIT?DLB_ERR_NOLEWI:rc,DLB_ERR_NOLEWI}); break; }
      case 20: v.push_back({"PollDROM",A->DLB_PollDROM(&x,&m),DLB_ERR_NOINIT}); break; case 21: v.push_back({"PollDROM_Update",A->DLB_PollDROM_Update(),DLB_ERR_NOINIT}); break; case 22: v.push_back({"Barrier",A->DLB_Barrier(),DLB_ERR_NOCOMP}); break; case 23: v.push_back({"BarrierAttach",A->DLB_BarrierAttach(),DLB_ERR_NOCOMP}); break; case 24: v.push_back({"BarrierDetach",A->DLB_BarrierDetach(),DLB_ERR_NOCOMP}); break;
      case 25: v.push_back({"MonitoringRegionsUpdate",A->DLB_MonitoringRegionsUpdate(),DLB_ERR_NOTALP}); break; case 26: v.push_back({"MonitoringRegionStart",A->DLB_MonitoringRegionStart(nullptr),DLB_ERR_NOTALP}); break; case 27: v.push_back({"MonitoringRegionGetGlobal is NULL",A->DLB_MonitoringRegionGetGlobal()==nullptr,1}); break; case 28: v.push_back({"DROM_GetPidList",A->DLB_DROM_GetPidList(pl,&ne,16),DLB_ERR_NOSHMEM}); break; case 30: v.push_back({"BarrierNamedRegister is NULL",A->DLB_BarrierNamedRegister("x",(dlb_barrier_flags_t)0)==nullptr,1}); break; case 31: v.push_back({"MonitoringRegionRegister is NULL",A->DLB_MonitoringRegionRegister("x")==nullptr,1}); break; case 29: v.push_back({"Finalize",A->DLB_Finalize(),DLB_NOUPDT}); break; } }
    for(E& e:v) if(e.rc!=e.want) fail("C27","down-rc","DLB_%s of %s %s returned %s",e.nm,l.a->name.c_str(),when,rcs(e.rc)); };
  auto all=[&](LP& l,std::function<int(int)> f){ // run f on every thread of the process and wait for all of them
    App* a=l.a; l.rcs.assign(a->th.size(),0); l.pending=(int)a->th.size()-1; for(size_t t=1;t<a->th.size();t++){ LP* lp=&l; w.post(a->th[t],w.custom(a,"team",[lp,f,t]{ lp->rcs[t]=f((int)t); lp->pending--; return lp->rcs[t]; })); } l.rcs[0]=f(0); while(l.pending) sim_sleep(1000); };
  auto nap=[](u64 r){ static const u64 t[]={0,0,0,500,5000,100000,3000000}; u64 x=t[r%7]; if(x) sim_sleep(1+mix(r)%x); };
  auto doInit=[&](LP& l,u64 z){ App* a=l.a; Api* A=a->a; std::string k=l.kinds[mix(z)%l.kinds.size()]; l.masked=k[0]=='M'; l.args="--shm-key=k "+k.substr(1); l.lewi=has(l.args,"--lewi "); l.classic=!l.masked&&l.lewi; l.drom=has(l.args,"--drom"); l.talp=has(l.args,"--talp "); l.ext=has(l.args,"external"); l.async=has(l.args,"async"); l.ask=a->own; l.overlap=false;
    if(l.masked&&(mix(z+9)%1000)<overlap*1000){ l.ask.add(mix(z+1)%n); l.overlap=l.ask!=a->own; if(l.overlap) ovl++; } u64 ovl0=ovl;
    Mask ask=l.ask; std::string args=l.args; bool masked=l.masked; int nc=l.ncpus; l.busy++; l.initok=0; logf("init %s '%s' %s",a->name.c_str(),args.c_str(),masked?ask.str().c_str():"no mask");
    all(l,[&,A,ask,args,masked,nc,z](int t){ if(t) nap(z+t*77); int rc=A->DLB_Init(nc,masked?&ask.s:nullptr,args.c_str()); logf("init %s thread %d = %s",a->name.c_str(),t,rcs(rc)); return rc; }); l.busy--;
    int ok=0,other=0; for(int rc:l.rcs){ if(rc==DLB_SUCCESS||rc==DLB_NOTED) ok++; else if(rc!=DLB_ERR_INIT) other=rc; } l.cycles++; bool may=ovl!=ovl0; for(int i=0;i<na;i++) if(L[i].overlap) may=true; if(faults&&l.async) may=true;
    if(ok>1) fail("C27","two-inits","%d concurrent DLB_Init calls of %s took effect",ok,a->name.c_str());
    if(!ok&&!may) fail(P=="C21"?"C21":"C27","init-failed","no DLB_Init of %s succeeded (%s): %s",a->name.c_str(),l.args.c_str(),rcs(other)); if(!ok) probe("failed_init");
    l.up=ok>0; a->up=l.up; if(l.up&&l.async){ CUR->nopreempt++; int live=0; for(Task* t:a->p->tasks) if(t->st!=T_DONE) live++; if(live!=(int)a->th.size()+1) fail("C27","no-helper","DLB_Init of %s succeeded (%s) but its helper thread does not run",a->name.c_str(),l.args.c_str()); CUR->nopreempt--; }
    if(l.up){ a->cbset=false; w.set_callbacks(a); } else if(l.overlap){ l.overlap=false; ovl++; } chk(); clean(l,"after DLB_Init failed"); if(!ok){ down(l,"after a failed DLB_Init"); } };
  auto doFin=[&](LP& l,u64 z){ App* a=l.a; Api* A=a->a; l.busy++; bool was=l.up; l.up=false; a->up=false; logf("finalize %s",a->name.c_str()); all(l,[&,A,z](int t){ if(t) nap(z+t*31); int rc=A->DLB_Finalize(); logf("finalize %s thread %d = %s",a->name.c_str(),t,rcs(rc)); return rc; }); l.busy--; int ok=0; for(int rc:l.rcs) if(rc==DLB_SUCCESS) ok++; else if(rc!=DLB_NOUPDT) fail("C27","finalize-rc","DLB_Finalize of %s returned %s",a->name.c_str(),rcs(rc));
    if(ok!=(was?1:0)) fail("C27","finalizes","%d concurrent DLB_Finalize calls of %s took effect",ok,a->name.c_str()); if(l.overlap) ovl++; l.overlap=false; chk(); clean(l,"after DLB_Finalize"); down(l,"after DLB_Finalize"); };
  auto doUse=[&](LP& l,u64 z){ Api* A=l.a->a; l.busy++; all(l,[&,A,z](int t){ if(l.classic&&t) return 0; u64 y=mix(z+t*101); int nn=1+y%4; for(int k=0;k<nn;k++){ y=mix(y); int c=mix(y+1)%n; int rc=0,x; cpu_set_t m; int pl[16],ne; switch(y%16){ case 0: rc=A->DLB_Lend(); break; case 1: rc=A->DLB_Reclaim(); break; case 2: rc=A->DLB_Borrow(); break; case 3: rc=A->DLB_AcquireCpus(1+c); break; case 4: rc=A->DLB_Return(); break; case 5: rc=A->DLB_LendCpu(c); break; case 6: rc=A->DLB_ReclaimCpu(c); break; case 7: rc=A->DLB_PollDROM(&x,&m); break; case 8: rc=A->DLB_CheckCpuAvailability(c); break; case 9: rc=A->DLB_SetMaxParallelism(1+c); break; case 10: rc=A->DLB_Disable(); break; case 11: rc=A->DLB_Enable(); break; case 12: if(l.masked||l.talp||l.att||l.tatt) rc=A->DLB_DROM_GetPidList(pl,&ne,16); break;
        case 13: if(!t){ dlb_monitor_t* r=A->DLB_MonitoringRegionRegister(c%2?"one":"two"); if(r){ A->DLB_MonitoringRegionStart(r); if(y%2) A->DLB_MonitoringRegionStop(r); } break; } case 14: if(!t){ std::string keep; keep.swap(l.a->p->err); rc=A->DLB_PrintShmem(0,(dlb_printshmem_flags_t)0); l.a->p->err=keep; break; } case 15: { void* r=A->DLB_BarrierNamedRegister("extra",(dlb_barrier_flags_t)0); (void)r; break; } }
        if(rc==DLB_ERR_NOINIT) fail("C27","noinit","a call of %s, which is initialized, returned %s",l.a->name.c_str(),rcs(rc)); } return 0; }); l.busy--; chk(); };
  auto doAtt=[&](LP& l,bool talp){ Api* A=l.a->a; l.busy++; int rc=talp?A->DLB_TALP_Attach():A->DLB_DROM_Attach(); l.busy--; if(rc) fail("C27","attach-rc","attach of %s returned %s",l.a->name.c_str(),rcs(rc)); (talp?l.tatt:l.att)++; chk(); };
  auto doDet=[&](LP& l,bool talp){ Api* A=l.a->a; int& c=talp?l.tatt:l.att; l.busy++; int rc=talp?A->DLB_TALP_Detach():A->DLB_DROM_Detach(); l.busy--; if(c>0){ c--; if(rc) fail("C27","detach-rc","detach of %s, attached, returned %s",l.a->name.c_str(),rcs(rc)); } else if(!rc&&!l.up&&!l.att&&!l.tatt) fail("C27","detach-rc","detach of %s, not attached, returned %s",l.a->name.c_str(),rcs(rc)); chk(); clean(l,"after detaching"); };
  if(faults) OS.p["pthread_create_fail"]=0.3;
  int np=g.range(2,4);
  for(LP& l:L){ Api* A=l.a->a; w.run(w.custom(l.a,"setup",[A,n]{ A->mu_testing_set_sys(n,n,1); return 0; })); }
  for(int ph=0;ph<np&&run.viol.empty();ph++){
    for(int i=0;i<na;i++){ u64 z=g.next(); int na_=g.range(1,P=="C21"?5:4); LP* l=&L[i]; Op* o=w.custom(l->a,"program",[&,l,z,na_]{ u64 y=z; for(int k=0;k<na_&&run.viol.empty();k++){ y=mix(y); if(y%4==0) nap(mix(y+5)); u64 v=mix(y+3)%20;
        if(!l->up){ if(v<13) doInit(*l,y); else if(v<15) doAtt(*l,false); else if(v<16) doAtt(*l,true); else if(v<18){ if(l->att) doDet(*l,false); else if(l->tatt) doDet(*l,true); } else down(*l,l->cycles?"after DLB_Finalize":"before DLB_Init"); }
        else { if(v<10) doFin(*l,y); else if(v<15) doUse(*l,y); else if(v<16) doAtt(*l,false); else if(v<17) doAtt(*l,true); else if(l->att) doDet(*l,false); else if(l->tatt) doDet(*l,true); } } return 0; }); w.post(l->a->th[0],o); }
    if(!w.settle()){ fail(P,"stuck","calls do not finish: %s",w.stuck().c_str()); return; } if(!run.viol.empty()) return;
    // ---- quiescent: what exists is what is used
    bool any=false; for(LP& l:L) if(l.up||l.att||l.tatt) any=true;
    for(Seg* s:SEGS){ if(s->linked&&!s->maps) fail("C21","left-over","%s still exists although no process uses it",s->name.c_str()); if(!any&&s->linked) fail("C21","left-over","%s still exists after the last process left",s->name.c_str()); }
    // ---- everybody with the process table open sees exactly the registered processes
    std::set<int> reg; for(LP& l:L) if(l.up&&(l.masked||l.talp)) reg.insert(l.a->p->pid);
    for(LP& l:L) if((l.up&&(l.masked||l.talp))||l.att||l.tatt){ int pl[32],ne=0,rc=99; w.run(w.custom(l.a,"DROM_GetPidList",[&]{ return rc=l.a->a->DLB_DROM_GetPidList(pl,&ne,32); })); if(rc!=0){ fail("C21","pidlist","%s cannot list the processes: %s",l.a->name.c_str(),rcs(rc)); break; } std::set<int> got(pl,pl+ne); if(got!=reg){ std::string t,u; for(int x:got) t+=" "+std::to_string(x); for(int x:reg) u+=" "+std::to_string(x); fail("C21","pidlist","%s sees processes%s but registered are%s",l.a->name.c_str(),t.c_str(),u.c_str()); break; } }
    // CPUs lent by one LeWI process can be borrowed by another one (same CPU table)
    if(run.viol.empty()&&g.chance(0.5)){ std::vector<LP*> v; for(LP& l:L) if(l.up&&l.masked&&l.lewi&&!l.overlap&&!l.async) v.push_back(&l); if(v.size()>1){ LP& a=*v[g.below(v.size())]; LP& b=*v[g.below(v.size())]; int c=a.a->own.first(); if(&a!=&b&&!has(b.args,"affinity")&&!has(b.args,"max-par")){ bool pub=false; for(LP& l:L) if(l.overlap) pub=true; int r[5]={99,99,99,99,99}; auto one=[&](LP& l,const char* nm,std::function<int()> f,int i){ w.run(w.custom(l.a,nm,[&,f,i]{ return r[i]=f(); })); };
        one(a,"Enable",[&]{ return a.a->a->DLB_Enable(); },4); one(b,"Enable",[&]{ return b.a->a->DLB_Enable(); },4); one(a,"Reclaim",[&]{ return a.a->a->DLB_ReclaimCpu(c); },0); if(r[0]>=0&&r[0]!=DLB_NOTED&&!pub){ one(a,"LendCpu",[&]{ return a.a->a->DLB_LendCpu(c); },1); one(b,"BorrowCpu",[&]{ return b.a->a->DLB_BorrowCpu(c); },2); if(r[1]==0&&r[2]!=0) { one(a,"Reclaim",[&]{ return a.a->a->DLB_ReclaimCpu(c); },3); if(r[3]==DLB_SUCCESS) fail("C21","split","%s lent CPU %d, which nobody else used, but %s could not borrow it: %s",a.a->name.c_str(),c,b.a->name.c_str(),rcs(r[2])); } else probe("cross_borrow"); one(b,"ReturnCpu",[&]{ return b.a->a->DLB_ReturnCpu(c); },3); one(a,"Reclaim",[&]{ return a.a->a->DLB_ReclaimCpu(c); },3); } } } }
  }
  if(!run.viol.empty()) return;
  // ---- everybody leaves
  for(LP& l:L){ LP* p=&l; u64 z=g.next(); w.post(l.a->th[0],w.custom(l.a,"leave",[&,p,z]{ if(z%3==0) nap(z); if(z%2){ if(p->up) doFin(*p,z); while(p->att) doDet(*p,false); while(p->tatt) doDet(*p,true); } else { while(p->tatt) doDet(*p,true); while(p->att) doDet(*p,false); if(p->up) doFin(*p,z); } return 0; })); }
  if(!w.settle()){ fail(P,"stuck","calls do not finish: %s",w.stuck().c_str()); return; } if(!run.viol.empty()) return;
  for(Seg* s:SEGS) if(s->linked) fail("C21","left-over","%s still exists after the last process left",s->name.c_str());
  for(LP& l:L) clean(l,"after everybody left"); if(P!="C27"){ for(LP& l:L) kill_proc(l.a->p,X_NORMAL); } if(!run.viol.empty()||P!="C27") return;
  OS.p.clear();
  // ---- a process with a past behaves exactly like a new one
  LP& o=L[g.below(na)]; for(LP& l:L) if(&l!=&o) kill_proc(l.a->p,X_NORMAL);
  std::string k=g.chance(0.5)?o.kinds[0]:(g.chance(0.7)?"M":"-")+pick_args(g,true,n,share); if(k[0]=='-') k="-"+pick_args(g,false,n,share); bool masked=k[0]=='M'; std::string args="--shm-key=k "+k.substr(1); u64 sseed=g.next(); Mask half=Mask::range(0,(n+1)/2), rest=Mask::range((n+1)/2,n); Mask own=masked?half:o.a->own; bool partner=n>1&&g.chance(0.6);
  std::string pargs="--shm-key=k "+(masked?std::string("--lewi "):k.substr(1))+(g.chance(0.4)?" --drom":"")+col; if(!masked) pargs="--shm-key=k "+k.substr(1);
  struct Tr { std::string s; i64 bytes; };
  auto script=[&](App* a,int tag)->std::string{ Rng q(sseed); std::string tr; a->own=masked?own:a->own; App* pa=nullptr; Api* A=a->a;
    auto call=[&](App* x,const std::string& nm,std::function<int()> f){ int rc=99; Op* op=w.custom(x,nm,[&]{ rc=f(); return rc; }); a->hcbs.clear(); w.run(op); if(op->done) w.settle(); if(!op->done){ tr+=nm+" does not finish; "; return rc; } tr+=(x==a?"":"partner ")+nm+"="+rcs(rc); std::string cs; for(auto* v:{&op->cbs,&a->hcbs}) for(auto& c:*v) { cs+=std::string(" ")+c.kind+(c.kind=='t'?std::to_string(c.n):c.m.str()); } tr+=cs+"; "; return rc; };
    if(partner){ pa=w.add_app("P"+std::to_string(tag),rest,pargs); pa->p=nullptr; w.launch(pa); pa->p->env["DLB_ARGS"]="--shm-key=k"+col; call(pa,"Init",[&]{ pa->a->mu_testing_set_sys(n,n,1); return pa->a->DLB_Init(2,masked?&pa->own.s:nullptr,pargs.c_str()); }); }
    call(a,"Init",[&]{ if(tag==9) A->mu_testing_set_sys(n,n,1); int rc=A->DLB_Init(2,masked?&own.s:nullptr,args.c_str()); if(rc>=0){ a->cbvar=sseed%3; w.set_callbacks(a); } return rc; });
    int m=q.range(4,14); for(int i=0;i<m;i++){ int c=q.below(n); App* x=pa&&q.chance(0.3)?pa:a; Api* X=x->a; switch(q.below(22)){ case 0: call(x,"Lend",[&]{ return X->DLB_Lend(); }); break; case 1: call(x,"Reclaim",[&]{ return X->DLB_Reclaim(); }); break; case 2: call(x,"Borrow",[&]{ return X->DLB_Borrow(); }); break; case 3: call(x,"AcquireCpus",[&]{ return X->DLB_AcquireCpus(c); }); break; case 4: call(x,"AcquireCpu "+std::to_string(c),[&]{ return X->DLB_AcquireCpu(c); }); break; case 5: call(x,"Return",[&]{ return X->DLB_Return(); }); break;
        case 6: case 7: call(x,"LendCpu "+std::to_string(c),[&]{ return X->DLB_LendCpu(c); }); break; case 8: call(x,"ReclaimCpu "+std::to_string(c),[&]{ return X->DLB_ReclaimCpu(c); }); break; case 9: call(x,"BorrowCpu "+std::to_string(c),[&]{ return X->DLB_BorrowCpu(c); }); break; case 10: call(x,"BorrowCpus",[&]{ return X->DLB_BorrowCpus(c); }); break; case 11: call(x,"LendCpus",[&]{ return X->DLB_LendCpus(c); }); break;
        case 12: call(x,"CheckCpu "+std::to_string(c),[&]{ return X->DLB_CheckCpuAvailability(c); }); break; case 13: call(x,"SetMax",[&]{ return X->DLB_SetMaxParallelism(1+c); }); break; case 14: call(x,"UnsetMax",[&]{ return X->DLB_UnsetMaxParallelism(); }); break; case 15: call(x,"Disable",[&]{ return X->DLB_Disable(); }); break; case 16: call(x,"Enable",[&]{ return X->DLB_Enable(); }); break;
        case 17: call(a,"PollDROM",[&]{ int nn=0; cpu_set_t mm; CPU_ZERO(&mm); int rc=A->DLB_PollDROM(&nn,&mm); return rc; }); break; case 18: call(a,"regions",[&]{ dlb_monitor_t* gl=A->DLB_MonitoringRegionGetGlobal(); if(gl) tr+="global "+std::to_string(gl->num_measurements)+" "; dlb_monitor_t* r=A->DLB_MonitoringRegionRegister("r"); if(!r) return 0; int rc=A->DLB_MonitoringRegionStart(r); A->DLB_MonitoringRegionStop(r); tr+="meas "+std::to_string(r->num_measurements)+" mpi "+std::to_string(r->num_mpi_calls)+" "; return rc; }); break;
        case 19: call(a,"named",[&]{ return A->DLB_BarrierNamedRegister("b1",(dlb_barrier_flags_t)0)?1:0; }); break; case 20: call(a,"GetVar",[&]{ char v[4096]; static const char* on[]={"--lewi","--drom","--mode","--lewi-keep-one-cpu","--lewi-respect-cpuset","--lewi-affinity","--lewi-max-parallelism","--lewi-color","--talp","--barrier","--debug-opts","--lewi-barrier","--talp-external-profiler"}; int rc=0; for(const char* z:on){ v[0]=0; rc=A->DLB_GetVariable(z,v); tr+=std::string(z)+"="+v+" "; } return rc; }); break; case 21: if(!pa) call(a,"BarrierDetach",[&]{ return A->DLB_BarrierDetach(); }); break; } }
    call(a,"Finalize",[&]{ return A->DLB_Finalize(); }); if(pa) call(pa,"Finalize",[&]{ return pa->a->DLB_Finalize(); }); if(pa) kill_proc(pa->p,X_NORMAL); return tr; };
  i64 b[4],cnt[4]; std::string t0; for(int i=0;i<4;i++){ std::string t=script(o.a,i); b[i]=o.a->p->live_bytes; cnt[i]=o.a->p->live_allocs; if(i==0) t0=t; else if(t!=t0) { size_t d=0; while(d<t.size()&&d<t0.size()&&t[d]==t0[d]) d++; d=d>60?d-60:0; fail("C27","history","%s (%s) behaves differently in its cycle %d: '...%s' instead of '...%s'",o.a->name.c_str(),args.c_str(),i+1,t.substr(d,200).c_str(),t0.substr(d,200).c_str()); return; } if(!run.viol.empty()) return; o.up=false; o.args=args; clean(o,"after DLB_Finalize"); for(Seg* s:SEGS) if(s->linked) fail("C21","left-over","%s still exists after the last process left",s->name.c_str()); }
  if(getenv("SIM_DUMP")) dump_live(o.a->p);
  if(b[1]<b[2]&&b[2]<b[3]&&cnt[1]<cnt[2]&&cnt[2]<cnt[3]) fail("C27","leak","every Init/Finalize cycle of %s (%s) leaves %ld bytes in %ld blocks allocated",o.a->name.c_str(),args.c_str(),(long)(b[3]-b[2]),(long)(cnt[3]-cnt[2]));
  kill_proc(o.a->p,X_NORMAL); App* q=w.add_app("N",o.a->own,""); w.launch(q); q->p->env["DLB_ARGS"]="--shm-key=k"+col; std::string t=script(q,9); if(t!=t0){ size_t d=0; while(d<t.size()&&d<t0.size()&&t[d]==t0[d]) d++; d=d>60?d-60:0; fail("C27","history","%s (%s), which had initialized before, behaves differently from a new process: '...%s' instead of '...%s'",o.a->name.c_str(),args.c_str(),t0.substr(d,200).c_str(),t.substr(d,200).c_str()); }
  probe("clean_start"); kill_proc(q->p,X_NORMAL);
}
