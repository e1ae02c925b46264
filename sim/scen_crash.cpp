// Death of processes. `crash` (C22): some processes die at arbitrary points outside shared critical sections; the others carry
// on, and the next process that initializes frees exactly what the dead ones had. `lockcrash` (C23): a process dies
// inside a shared critical section; later processes stop promptly with a diagnostic, and a new set starts normally.
#include "lewi_model.h"
namespace {
struct CP { App* a; std::string args; bool drom=false,talp=false,async=false,bar=true; std::map<std::string,int> nb; std::map<std::string,void*> h; bool regs=false, busyb=false; int defatt=0; bool victim=false; };
struct Cfg { int n; bool async=false, classic=false; double pdrom=0.5,ptalp=0.4; };
Op* lewi_op(World& w,Rng& g,App* a,bool async){ int c=(int)g.below(w.ncpu); Mask any=mask_bits(g.next()&((1ULL<<w.ncpu)-1)); Mask ow=any&a->own; if(ow.empty()) ow=a->own; int n=g.range(1,w.ncpu); int oc=ow.first(); if(oc<0) oc=0;
  switch(g.below(async?20:22)){ case 0: case 1: return w.mk(a,O_LEND); case 2: case 3: return w.mk(a,O_LENDCPU,g.chance(0.7)?oc:c); case 4: case 5: return w.mk(a,O_LENDMASK,0,g.chance(0.7)?ow:any); case 6: return w.mk(a,O_RECLAIM); case 7: return w.mk(a,O_RECLAIMCPU,oc); case 8: return w.mk(a,O_RECLAIMCPUS,n); case 9: return w.mk(a,O_ACQCPU,g.chance(0.5)?oc:c); case 10: return w.mk(a,O_ACQCPUS,n); case 11: return w.mk(a,O_ACQMASK,0,any); case 12: case 13: return w.mk(a,O_BORROW); case 14: return w.mk(a,O_BORCPU,c); case 15: case 16: return w.mk(a,O_BORCPUS,n); case 17: return w.mk(a,O_BORMASK,0,any); case 18: return w.mk(a,O_BORINMASK,n,any); case 19: return w.mk(a,O_RETURN); case 20: return w.mk(a,O_RETURN); default: return w.mk(a,O_RETMASK,0,any); } }
static const char* BN[]={"b0","b1"};
void post_other(World& w,Rng& g,CP& p,bool talpops){ // operations of the other modules
  CP* q=&p; App* a=p.a; auto cust=[&](const std::string& d,std::function<int()> f){ Op* o=w.mk(a,O_CUSTOM); o->desc=d; o->fn=std::move(f); w.post(a->th[0],o); };
  u64 k0=g.below(talpops?5:4); if(p.regs&&k0<3) k0=3; switch(k0){
    case 0: { std::string b=BN[g.below(2)]; cust("BarrierNamedRegister "+b,[q,b]{ q->busyb=true; void* h=q->a->a->DLB_BarrierNamedRegister(b.c_str(),(dlb_barrier_flags_t)0); if(h){ q->h[b]=h; q->nb[b]=1; } q->busyb=false; return h?0:-1; }); break; }
    case 1: { std::string b=BN[g.below(2)]; cust("BarrierNamedDetach "+b,[q,b]{ if(q->nb[b]<=0) return 0; q->busyb=true; q->nb[b]--; int r=q->a->a->DLB_BarrierNamedDetach((dlb_barrier_t*)q->h[b]); q->busyb=false; return r; }); break; }
    case 2: cust("BarrierDetach",[q]{ if(!q->bar||q->defatt<=0) return 0; q->busyb=true; q->defatt--; int r=q->a->a->DLB_BarrierDetach(); q->busyb=false; return r; }); break;
    case 3: w.post(a->th[0],w.mk(a,O_POLLDROM)); break;
    case 4: { int k=(int)g.below(2); cust("region",[q,k]{ Api* A=q->a->a; dlb_monitor_t* r=A->DLB_MonitoringRegionRegister(k?"one":"two"); if(r){ A->DLB_MonitoringRegionStart(r); A->DLB_MonitoringRegionStop(r); } return 0; }); break; }
  } }
void setup(World& w,Rng& g,Cfg& C,std::vector<CP>& v,int na,bool others){
  std::vector<int> cores; for(int i=0;i<w.ncore;i++) cores.push_back(i); if(g.chance(0.3)) for(int i=w.ncore-1;i>0;i--) std::swap(cores[i],cores[g.below(i+1)]); bool un=g.chance(0.3)&&w.ncore>na; std::vector<int> cnt(na,1); for(int i=na;i<w.ncore-(un?1:0);i++) cnt[g.below(na)]++; int pos=0;
  v.resize(na); for(int i=0;i<na;i++){ CP& p=v[i]; Mask m; for(int j=0;j<cnt[i];j++) m=m|w.coremask(cores[pos++]*w.tpc); p.async=C.async; p.args=C.async?"--lewi --lewi-barrier=no --mode=async":"--lewi --lewi-barrier=no"; if(others&&g.chance(C.pdrom)){ p.drom=true; p.args+=" --drom"; } if(others&&g.chance(C.ptalp)){ p.talp=true; p.args+=" --talp --talp-external-profiler --talp-summary=none"; } if(g.chance(0.25)){ p.bar=false; p.args+=" --barrier=no"; } p.a=w.add_app(std::string(1,'A'+(int)w.apps.size()),m,p.args); p.a->async=C.async; w.launch(p.a); }
}
int count_of(std::vector<CP>& v,const std::string& b){ int n=0; for(CP& p:v) if(!p.a->dead&&p.a->up) n+=p.nb[b]; return n; }
}
SCENARIO(crash){
  World w(run); Rng& g=w.rng; const std::string P="C22"; static const int shapes[][3]={{3,3,1},{4,4,1},{6,6,1},{6,6,2},{8,8,1},{8,4,1}}; int sh=g.below(6); w.ncpu=shapes[sh][0]; w.ncore=shapes[sh][1]; w.nnode=shapes[sh][2]; w.tpc=w.ncpu/w.ncore; w.smt=w.tpc>1; w.slow_cb=g.chance(0.3); if(run.cfg.pstall>0) run.cfg.stall_ns=std::min<u64>(run.cfg.stall_ns,3000000);
  Cfg C; C.n=w.ncpu; C.async=g.chance(0.25); bool others=g.chance(0.7); int na=g.range(2,std::min(4,w.ncore)); std::vector<CP> v; setup(w,g,C,v,na,others);
  // ---- the dying ones
  int nv=na>2&&g.chance(0.3)?2:1; std::vector<int> idx; for(int i=0;i<na;i++) idx.push_back(i); for(int i=na-1;i>0;i--) std::swap(idx[i],idx[g.below(i+1)]); run.crash_nolock=true; run.crash_enabled=true;
  bool early=g.chance(0.2); for(int k=0;k<nv;k++){ CP& p=v[idx[k]]; p.victim=true; p.a->expect_death=true; }
  for(CP& p:v) w.post(p.a->th[0],w.mkf(p.a,O_INIT));
  auto arm=[&](bool e){ for(CP& p:v) if(p.victim) run.crash_plan.push_back({(u64)p.a->p->idx,e?g.below(4000):10+g.below(g.chance(0.5)?1500:12000)}); };
  if(early) arm(true);
  if(!w.settle()){ fail(P,"stuck","initialisation does not finish: %s",w.stuck().c_str()); return; }
  for(CP& p:v){ if(!p.a->up&&!p.a->dead){ fail(P,"init-failed","%s could not initialize",p.a->name.c_str()); return; } p.defatt=p.bar&&p.a->up?1:0; }
  if(others&&g.chance(0.6)&&!early){ for(CP& p:v){ CP* q=&p; p.regs=true; for(const char* b:BN) w.run(w.custom(p.a,std::string("BarrierNamedRegister ")+b,[q,b]{ void* h=q->a->a->DLB_BarrierNamedRegister(b,(dlb_barrier_flags_t)0); if(h){ q->h[b]=h; q->nb[b]=1; } return h?0:-1; })); } }
  if(!early) arm(false);
  int nops=g.range(3,16); for(CP& p:v) if(!p.a->dead) for(int i=0;i<nops;i++){ if(others&&g.chance(0.3)) post_other(w,g,p,p.talp); else w.post(p.a->th[0],lewi_op(w,g,p.a,C.async)); if(g.chance(0.15)){ Op* s=w.mk(p.a,O_SLEEP); s->ns=1+g.below(20000); w.post(p.a->th[0],s); } }
  for(CP& p:v) if(p.victim&&g.chance(0.15)){ CP* q=&p; Op* o=w.mk(p.a,O_CUSTOM); o->desc="(about to finalize)"; o->fn=[q]{ q->busyb=true; return 0; }; w.post(p.a->th[0],o); w.post(p.a->th[0],w.mk(p.a,O_FINALIZE)); }
  if(!w.settle()){ fail(P,"stuck","after the death of a process calls of the others do not finish: %s",w.stuck().c_str()); return; }
  for(CP& p:v) if(p.victim&&p.a->dead&&p.a->dead_how!=X_CRASH){ std::string t=p.a->p->err.size()>400?p.a->p->err.substr(p.a->p->err.size()-400):p.a->p->err; fail("*",p.a->dead_how==X_SEGV?"segv":"abort","process %s died by itself (%s): %s",p.a->name.c_str(),p.a->dead_how==X_SEGV?"memory fault":"abort or exit",t.c_str()); return; }
  run.nontrivial=run.switches>10; if(!run.viol.empty()) return;
  for(CP& p:v) if(p.victim&&!p.a->dead){ kill_proc(p.a->p,X_CRASH); fired("crash_idle"); }
  run.crash_enabled=false; std::vector<CP*> live,dead; for(CP& p:v) (p.a->dead?dead:live).push_back(&p); if(live.empty()) return; Mask deadown; for(CP* d:dead) deadown=deadown|d->a->own;
  LG L; L.w=&w; L.id=0; L.as=P; for(CP* p:live) L.apps.push_back(p->a); Model M(L); bool exact=!C.async; w.serial=true;
  auto reach=[&](const char* when){ std::vector<St> o; bool pr; if(!M.parse(o,pr)||!pr) return true; for(int i=0;i<w.ncpu;i++) for(CP* d:dead) if(o[i].owner==d->a->idx||o[i].guest==d->a->idx||o[i].owner==-2||o[i].guest==-2){ fail(P,"dead-cpu","%s, CPU %d is %s %s, which is dead",when,i,o[i].owner==d->a->idx?"still owned by":"assigned to",d->a->name.c_str()); return false; } return true; };
  if(exact){ if(M.from_table()) M.check_views("after a process died"); else M.init_home(); if(!run.viol.empty()) return;
    // ---- before anybody cleans up: the others operate on what is theirs
    int k=g.range(0,12); for(int i=0;i<k;i++){ App* a=live[g.below(live.size())]->a; Op* o=lewi_op(w,g,a,false); if(!w.run(o)){ fail(P,"stuck","call does not finish: %s",w.stuck().c_str()); return; } if(o->skip) continue; M.step(o); if(!run.viol.empty()) return; } M.compare_table(); if(!run.viol.empty()) return; }
  else { for(CP* p:live){ Op* o=w.mkf(p->a,O_RECLAIM); if(!w.run(o)){ fail(P,"stuck","call does not finish: %s",w.stuck().c_str()); return; } if(o->rc<0) fail(P,"reclaim","%s cannot reclaim its CPUs after another process died: %s",p->a->name.c_str(),rcs(o->rc)); } w.settle(); }
  // ---- a process whose initialization fails for want of resources harms nobody either
  std::vector<App*> fresh; bool allmods=true;
  if(g.chance(0.25)){ static const char* FK[]={"shm_open_fail","ftruncate_fail","mmap_fail"}; App* j=w.add_app("J",Mask(),others?"--lewi --talp --talp-external-profiler --talp-summary=none --drom":"--lewi"); Mask all=Mask::range(0,w.ncpu); Mask used; for(CP* p:live) used=used|p->a->own; j->own=all-used-deadown; if(!j->own.empty()){ if(C.async) j->args+=" --mode=async"; j->expect_death=true; w.launch(j); OS.p[FK[g.below(3)]]=0.4; Op* o=w.mkf(j,O_INIT); w.run(o); OS.p.clear(); bool reinit=false;
      if(!j->dead){ if(o->rc>=0){ Op* f=w.mkf(j,O_FINALIZE); w.run(f); if(!f->done){ fail(P,"stuck","call does not finish: %s",w.stuck().c_str()); return; } } else fail(P,"no-error","an initialization that found no error returned %s",rcs(o->rc)); kill_proc(j->p,X_NORMAL); reinit=true; } else { probe("fatal_init"); if(j->dead_how!=X_ABORT) fail(P,"bad-death","a failing initialization ended with exit kind %d",j->dead_how); } (void)reinit; if(!run.viol.empty()) return; L.respect=true; M.valid=false; exact=false; dead.push_back(new CP{j}); } }
  // ---- the next process
  App* nw=w.add_app("N",deadown,""); nw->args=std::string("--lewi --lewi-barrier=no --drom")+(C.async?" --mode=async":"")+(others?" --talp --talp-external-profiler --talp-summary=none":""); nw->async=C.async; w.launch(nw); fresh.push_back(nw); CP nc; nc.a=nw; nc.talp=others; nc.drom=true;
  if(g.chance(0.3)){ Mask sub; for(int i=0;i<w.ncpu;i++) if(deadown.has(i)&&g.chance(0.6)) sub=sub|w.coremask(i); if(!sub.empty()) nw->own=sub&deadown; }
  Op* oi=w.mkf(nw,O_INIT); L.apps.push_back(nw); if(!w.run(oi)){ fail(P,"stuck","a process that initializes after others died does not finish: %s",w.stuck().c_str()); return; } if(!run.viol.empty()) return;
  if(oi->rc<0){ fail(P,"not-freed","a new process cannot register the CPUs %s of the dead ones %s: %s",nw->own.str().c_str(),deadown.str().c_str(),rcs(oi->rc)); return; } nc.defatt=1;
  if(exact&&M.valid){ for(CP* d:dead){ int p=d->a->idx; for(int x=0;x<w.ncpu;x++) if(M.c[x].owner==p){ if(M.c[x].guest==p) M.c[x].guest=-1; M.c[x].owner=-1; M.c[x].st=DIS; } else if(M.c[x].guest==p) M.lend(p,x); } M.step(oi); M.compare_table(); }
  w.settle(); if(!run.viol.empty()||!reach("after a new process initialized")) return;
  // registered processes
  { std::set<int> reg; for(CP* p:live) if(p->a->up) reg.insert(p->a->p->pid); reg.insert(nw->p->pid); int pl[32],ne=0,rc=0; w.run(w.custom(nw,"DROM_GetPidList",[&]{ return rc=nw->a->DLB_DROM_GetPidList(pl,&ne,32); })); std::set<int> got(pl,pl+ne); if(rc||got!=reg) fail(P,"registered","after the clean up %d processes are registered, %d are alive",(int)got.size(),(int)reg.size());
    for(CP* d:dead){ cpu_set_t m; int r=0,pid=d->a->p->pid; w.run(w.custom(nw,"GetProcessMask of the dead",[&]{ return r=nw->a->DLB_DROM_GetProcessMask(pid,&m,(dlb_drom_flags_t)0); })); if(r!=DLB_ERR_NOPROC) fail(P,"dead-entry","the mask of the dead process %s is still available: %s",d->a->name.c_str(),rcs(r)); if(others){ dlb_node_times_t nt[16]; int nn=0; double t1,t2; int pr=0; w.run(w.custom(nw,"GetTimes of the dead",[&]{ r=nw->a->DLB_TALP_GetTimes(pid,&t1,&t2); pr=nw->a->DLB_TALP_GetNodeTimes(DLB_GLOBAL_REGION_NAME,nt,&nn,16); return r; })); if(r!=DLB_ERR_NOPROC) fail(P,"dead-entry","the times of the dead process %s are still available: %s",d->a->name.c_str(),rcs(r)); (void)pr; for(int i=0;i<nn&&!pr;i++) if(nt[i].pid==pid) fail(P,"dead-entry","the dead process %s is part of the node times",d->a->name.c_str()); } }
    for(CP* p:live) if(p->a->up&&!p->drom){ cpu_set_t m; CPU_ZERO(&m); int r=0; w.run(w.custom(nw,"GetProcessMask",[&]{ return r=nw->a->DLB_DROM_GetProcessMask(p->a->p->pid,&m,(dlb_drom_flags_t)0); })); if(r||Mask(m)!=p->a->own) fail(P,"living-mask","the mask of %s, alive, is %s (%s) after the clean up, it was %s",p->a->name.c_str(),Mask(m).str().c_str(),rcs(r),p->a->own.str().c_str()); }
    if(others) for(CP* p:live) if(p->a->up&&p->talp){ double t1,t2; int r=0; w.run(w.custom(nw,"GetTimes",[&]{ return r=nw->a->DLB_TALP_GetTimes(p->a->p->pid,&t1,&t2); })); if(r) fail(P,"living-entry","the times of %s, alive, are not available after the clean up: %s",p->a->name.c_str(),rcs(r)); } }
  if(!run.viol.empty()) return;
  // barrier membership: exact when every dead process was attached (it is removed once from each barrier in use: there is no record of who is attached)
  auto members=[&](const char* what,bool once,int got,int want){ if(got==want) return true; bool unk=false; for(CP* d:dead) unk=unk||d->busyb; probe("barrier_others"); if(unk) return true; if(!once&&!g.chance(0.1)) return true; fail(P,once?"barrier-members":"barrier-members-others","after the clean up %s has %d participants, %d are attached",what,got,want); return false; };
  for(const char* b:BN){ int want=count_of(v,b), got=-9; std::string bs=b; void* h=nullptr; bool once=true; for(CP* d:dead) if(d->nb[bs]!=1) once=false; w.run(w.custom(nw,"BarrierNamedRegister/Detach",[&]{ h=nw->a->DLB_BarrierNamedRegister(b,(dlb_barrier_flags_t)0); if(!h) return 0; return got=nw->a->DLB_BarrierNamedDetach((dlb_barrier_t*)h); })); if(h&&!members((std::string("barrier ")+b).c_str(),once,got,want)) return; }
  { int want=1,got=-9; bool once=true; for(CP* p:live) if(p->a->up) want+=p->defatt; for(CP* d:dead) if(d->defatt!=1) once=false; w.run(w.custom(nw,"BarrierDetach/Attach",[&]{ int r=nw->a->DLB_BarrierDetach(); got=r+1; return nw->a->DLB_BarrierAttach(); })); if(!members("the default barrier",once,got,want)) return; }
  if(run.probes["barrier_others"]==0){ w.serial=false; auto round=[&](const std::string& b){ bool any=false; for(CP* p:live) if(p->a->up){ int k=b.empty()?p->defatt:p->nb[b]; if(k>1) return true; } for(CP* p:live) if(p->a->up){ int k=b.empty()?p->defatt:p->nb[b]; if(!k) continue; any=true; Api* A=p->a->a; void* h=b.empty()?nullptr:p->h[b]; w.post(p->a->th[0],w.custom(p->a,"Barrier "+b,[A,h]{ return h?A->DLB_BarrierNamed((dlb_barrier_t*)h):A->DLB_Barrier(); })); } if(b.empty()){ Api* A=nw->a; w.post(nw->th[0],w.custom(nw,"Barrier",[A]{ return A->DLB_Barrier(); })); } (void)any; if(!w.settle()){ fail(P,"barrier-stuck","after the clean up, the processes attached to barrier %s do not get through it: %s",b.c_str(),w.stuck().c_str()); return false; } return true; };
    if(!round("")||!round("b0")||!round("b1")) return; w.serial=true; }
  // ---- and everything goes on
  if(exact){ if(M.from_table()) M.check_views("after the clean up"); int k=g.range(2,16); std::vector<App*> all; for(CP* p:live) if(p->a->up) all.push_back(p->a); all.push_back(nw); for(int i=0;i<k&&M.valid;i++){ App* a=all[g.below(all.size())]; Op* o=lewi_op(w,g,a,false); if(!w.run(o)){ fail(P,"stuck","call does not finish: %s",w.stuck().c_str()); return; } if(o->skip) continue; M.step(o); if(!run.viol.empty()) return; } M.compare_table(); if(!run.viol.empty()) return; }
  for(App* a:L.apps) if(a->up){ w.run(w.mkf(a,O_RECLAIM)); w.settle(); } for(App* a:L.apps) if(a->up){ if(!C.async) w.run(w.mkf(a,O_RETURN)); } w.settle();
  for(App* a:L.apps) if(a->up){ Mask f=a->has-a->own; if(!f.empty()&&!C.async) w.run(w.mkf(a,O_LENDMASK,0,f)); }
  if(!run.viol.empty()) return; { std::vector<St> o; bool pr; if(M.parse(o,pr)&&pr) for(int i=0;i<w.ncpu;i++) for(App* a:L.apps) if(a->up&&a->own.has(i)&&(o[i].owner!=a->idx||o[i].guest!=a->idx)) fail(P,"not-restored","after the clean up, CPU %d of %s is owned by %d, used by %d",i,a->name.c_str(),o[i].owner,o[i].guest); }
  if(!run.viol.empty()||!reach("at the end")) return;
  for(App* a:L.apps) if(a->up){ Op* o=w.mkf(a,O_FINALIZE); if(!w.run(o)||o->rc) { fail(P,"finalize","%s cannot finalize after another process died: %s %s",a->name.c_str(),rcs(o->rc),w.stuck().c_str()); return; } }
  for(Seg* s:SEGS) if(s->linked&&allmods) { bool mine=false; for(const char* x:{"cpuinfo","procinfo"}) if(s->name.find(x)!=std::string::npos) mine=true; if(others||mine) fail(P,"left-over","%s still exists after the last living process left",s->name.c_str()); }
  for(App* a:w.apps) if(a->p&&!a->dead) kill_proc(a->p,X_NORMAL);
}
SCENARIO(lockcrash){
  World w(run); Rng& g=w.rng; const std::string P="C23"; static const int ns[]={3,4,6}; int n=ns[g.below(3)]; w.ncpu=w.ncore=n; w.nnode=1; w.tpc=1; w.slow_cb=g.chance(0.3); if(run.cfg.pstall>0) run.cfg.stall_ns=std::min<u64>(run.cfg.stall_ns,3000000);
  Cfg C; C.n=n; C.async=g.chance(0.3); C.pdrom=C.ptalp=0.6; int na=g.range(1,std::min(3,n)); std::vector<CP> v; bool classic=g.chance(0.15);
  setup(w,g,C,v,na,true); if(classic) for(CP& p:v){ p.a->own=Mask(); p.a->ncpus=2; p.drom=p.talp=false; p.a->args=p.args=C.async?"--lewi --lewi-barrier=no --mode=async":"--lewi --lewi-barrier=no"; p.bar=true; }
  CP& vic=v[g.below(na)]; vic.victim=true; for(CP& p:v) p.a->expect_death=true; /* the others may find out too, when they initialize */ run.crash_needlock=true; run.crash_enabled=true;
  bool early=g.chance(0.4); auto arm=[&](u64 x){ run.crash_plan.push_back({(u64)vic.a->p->idx,x}); }; if(early) arm(g.below(3000));
  for(CP& p:v) w.post(p.a->th[0],w.mkf(p.a,O_INIT)); bool ok=w.settle(); for(CP& p:v) p.defatt=p.bar?1:0;
  if(!early&&ok){ arm(g.below(g.chance(0.5)?600:5000)); int nops=g.range(3,14); for(CP& p:v) if(!p.a->dead) for(int i=0;i<nops;i++){ if(classic){ Op* o; switch(g.below(4)){ case 0: o=w.mk(p.a,O_LEND); break; case 1: o=w.mk(p.a,O_RECLAIM); break; case 2: o=w.mk(p.a,O_BORROW); break; default: o=w.mk(p.a,O_LENDCPUS,1); } w.post(p.a->th[0],o); } else if(g.chance(0.3)) post_other(w,g,p,p.talp); else w.post(p.a->th[0],lewi_op(w,g,p.a,C.async)); } if(g.chance(0.3)) w.post(vic.a->th[0],w.mk(vic.a,O_FINALIZE)); ok=w.settle(); }
  run.crash_enabled=false; run.nontrivial=vic.a->dead&&vic.a->dead_how==X_CRASH; if(!vic.a->dead){ for(CP& p:v) if(!p.a->dead) kill_proc(p.a->p,X_NORMAL); if(ok) return; fail(P,"stuck","calls do not finish although nobody died: %s",w.stuck().c_str()); return; }
  for(CP& p:v) if(p.a->dead&&!p.victim&&p.a->dead_how==X_ABORT&&p.a->p->err.find("dlb_shm --delete")==std::string::npos) fail(P,"diagnostic","%s stopped without telling how to recover: %s",p.a->name.c_str(),p.a->p->err.c_str());
  if(!run.viol.empty()) return;
  bool killothers=g.chance(0.5); if(killothers) for(CP& p:v) if(!p.a->dead) kill_proc(p.a->p,X_CRASH);
  // ---- later processes
  int nn=g.range(1,2); bool removed=false; for(int i=0;i<nn;i++){ App* j=w.add_app(std::string("J")+char('0'+i),Mask(),""); Mask used; for(CP& p:v) if(!p.a->dead) used=used|p.a->own; Mask fr=Mask::range(0,n)-used; if(!classic){ if(fr.empty()) break; j->own=fr; if(i) j->own=Mask::of(fr.first()); } else j->ncpus=2; j->args=classic?v[0].args:std::string("--lewi --drom --talp --talp-external-profiler --talp-summary=none")+(C.async?" --mode=async":""); j->expect_death=true; w.launch(j); u64 t0=NOW; Op* o=w.mkf(j,O_INIT); bool fin=w.run(o); u64 el=NOW-t0;
    if(!j->dead&&!fin){ fail(P,"hang","a process that initializes after another died holding a lock hangs: %s",w.stuck().c_str()); return; }
    if(j->dead){ probe("stopped"); if(j->dead_how!=X_ABORT) fail(P,"bad-death","the process ended by %s",j->dead_how==X_SEGV?"a memory fault":"exit"); if(el>3000000000ULL) fail(P,"slow","the process needed %.1f s to find out",el/1e9); if(j->p->err.find("dlb_shm --delete")==std::string::npos){ std::string e=j->p->err; for(char&c:e) if(c=='\n') c='|'; fail(P,"diagnostic","the process stopped without telling how to recover: %s",e.c_str()); } }
    else { if(j->p->lock_timeouts) fail(P,"continued","a process that could not obtain a lock held by a dead process went on (DLB_Init: %s)",rcs(o->rc)); probe("unaffected"); if(o->rc>=0){ Op* f=w.mkf(j,O_FINALIZE); if(!w.run(f)&&!j->dead){ fail(P,"hang","DLB_Finalize hangs: %s",w.stuck().c_str()); return; } } if(!j->dead) kill_proc(j->p,X_NORMAL); }
    if(!run.viol.empty()) return; (void)removed; }
  // ---- after removing the stale state everything works again
  for(App* a:w.apps) if(a->p&&!a->dead) kill_proc(a->p,X_CRASH); for(Seg* s:SEGS) s->linked=false; 
  std::vector<CP> v2; int nb=g.range(2,std::min(3,n)); setup(w,g,C,v2,nb,true); for(CP& p:v2){ p.a->expect_death=false; w.post(p.a->th[0],w.mkf(p.a,O_INIT)); } if(!w.settle()){ fail(P,"restart","after removing the stale state, initialisation hangs: %s",w.stuck().c_str()); return; } for(CP& p:v2) if(!p.a->up){ fail(P,"restart","after removing the stale state a process cannot initialize"); return; }
  if(!C.async){ w.serial=true; LG L; L.w=&w; L.id=0; L.as=P; for(CP& p:v2) L.apps.push_back(p.a); Model M(L); if(M.from_table()) M.check_home(); for(int i=0;i<6&&M.valid&&run.viol.empty();i++){ Op* o=lewi_op(w,g,v2[g.below(nb)].a,false); if(!w.run(o)){ fail(P,"restart","call hangs: %s",w.stuck().c_str()); return; } if(!o->skip) M.step(o); } }
  for(CP& p:v2){ Op* o=w.mkf(p.a,O_FINALIZE); if(!w.run(o)||o->rc){ fail(P,"restart","finalization after a restart: %s",rcs(o->rc)); return; } kill_proc(p.a->p,X_NORMAL); }
  for(Seg* s:SEGS) if(s->linked) fail(P,"restart","%s is left over after a restart",s->name.c_str());
}
