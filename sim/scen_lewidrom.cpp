// LeWI and DROM together: applications lend, borrow and reclaim CPUs (polling mode) while an administrator changes their
// masks, reserves CPUs for new processes and processes come and go.  The oracle is the model of the CPU table of lewi_model.h
// plus one rule for a delivered mask: the new CPUs become the process' own and busy, the removed ones stop being its own, and
// CPUs in use by others stay in use until their users are told.
#include "lewi_model.h"
SCENARIO(lewidrom){
  World w(run); Rng& g=w.rng; const std::string& P=run.prop;
  static const int shapes[][3]={{3,3,1},{4,4,1},{4,2,1},{6,6,1},{6,6,2},{8,8,2},{8,4,1},{8,4,2},{5,5,1},{6,3,1}}; int sh=g.below(10); w.ncpu=shapes[sh][0]; w.ncore=shapes[sh][1]; w.nnode=shapes[sh][2]; w.tpc=w.ncpu/w.ncore; w.smt=w.tpc>1; w.slow_cb=g.chance(0.3);
  LG L; L.w=&w; L.id=0; int N=w.ncpu; Mask ALL=Mask::range(0,N);
  auto report=[&](const std::string& prop,const char* cls,const std::string& msg){ fail(prop,cls,"%s",msg.c_str()); for(const char* q:{"C12","C13","C17"}) if(P==q&&prop!=P) fail(P,cls,"%s",msg.c_str()); };
  bool resv=g.chance(P=="C17"?1.0:0.35); int n=g.range(2,std::max(2,std::min(4,w.ncore-(resv?2:1)))); if(resv&&n+2>N) resv=false; if(n+1+resv>N) n=N-1-resv;
  std::vector<Mask> own(n); std::vector<int> cores; for(int i=0;i<w.ncore;i++) cores.push_back(i); if(g.chance(0.3)) for(int i=w.ncore-1;i>0;i--) std::swap(cores[i],cores[g.below(i+1)]);
  int total=w.ncore-(g.chance(0.4)&&w.ncore>n?(int)g.range(1,w.ncore-n):0), pos=0; std::vector<int> cnt(n,1); for(int i=n;i<total;i++) cnt[g.below(n)]++; for(int i=0;i<n;i++) for(int j=0;j<cnt[i];j++) own[i]=own[i]|w.coremask(cores[pos++]*w.tpc);
  for(int i=0;i<n;i++){ App* a=w.add_app(std::string(1,'A'+i),own[i],"--lewi --drom"); static const char* AN[]={"auto","nearby-first","nearby-only","spread-ifempty","mask"}; a->aff=g.chance(0.6)?0:(int)g.below(4); if(a->aff) a->args+=std::string(" --lewi-affinity=")+AN[a->aff]; L.apps.push_back(a); }
  App* child=nullptr,*res=nullptr; if(resv){ child=w.add_app("child",Mask(),"--lewi --drom"); L.apps.push_back(child); if(g.chance(0.5)) res=w.add_app("reserved",Mask(),""); else res=child; }
  App* adm=w.add_app("adm",ALL,"");
  for(App* a:w.apps){ w.launch(a); a->p->env["DLB_ARGS"]="--shm-key="+a->key; }
  struct Kill { World& w; ~Kill(){ for(App* a:w.apps) if(a->p&&!a->dead) kill_proc(a->p,X_NORMAL); } } killer{w};
  if(run.cfg.pstall>0) run.cfg.stall_ns=std::min<u64>(run.cfg.stall_ns,1000000);
  auto coremasks=[&](){ Mask m; for(int c=0;c<w.ncore;c++) if(g.chance(0.5)) m=m|w.coremask(c*w.tpc); if(m.empty()) m=w.coremask(w.tpc*(int)g.below(w.ncore)); return m; };
  auto cores_of=[&](Mask m){ Mask r; for(int i=0;i<N;i++) if(m.has(i)) r=r|w.coremask(i); return r; }; // processes own whole cores
  Mask rm; bool rok=false; Op* pre=nullptr;
  std::map<Op*,int> kind; // 1 poll, 2 set, 3 get own, 4 preinit
  auto poll=[&](App* a,bool fixed)->Op*{ Op* o=fixed?w.mkf(a,O_CUSTOM):w.mk(a,O_CUSTOM); bool upd=g.chance(0.6); o->desc=upd?"PollDROM_Update()":"PollDROM()"; kind[o]=1; Op* q=o; o->fn=[a,q,upd]{ if(upd) return a->a->DLB_PollDROM_Update(); int nc=0; cpu_set_t m; CPU_ZERO(&m); int rc=a->a->DLB_PollDROM(&nc,&m); q->m=Mask(m); return rc; }; return o; };
  auto setm=[&](App* by,App* t,Mask m,int fl,bool fixed)->Op*{ Op* o=fixed?w.mkf(by,O_CUSTOM):w.mk(by,O_CUSTOM); o->desc="SetProcessMask("+t->name+","+m.str()+(fl&DLB_STEAL_CPUS?",steal":"")+")"; kind[o]=2; Op* q=o; q->m=m; o->fn=[by,t,q,fl]{ return by->a->DLB_DROM_SetProcessMask(by==t?0:t->p->pid,&q->m.s,(dlb_drom_flags_t)fl); }; return o; };
  auto getm=[&](App* a,App* t)->Op*{ Op* o=w.mkf(a,O_CUSTOM); o->desc="GetProcessMask("+t->name+")"; kind[o]=3; Op* q=o; o->fn=[a,t,q]{ cpu_set_t m; CPU_ZERO(&m); int rc=a->a->DLB_DROM_GetProcessMask(a==t?0:t->p->pid,&m,(dlb_drom_flags_t)0); q->m=Mask(m); return rc; }; return o; };
  auto newmask=[&](Op* o)->Mask{ for(Cb& c:o->cbs) if(c.kind=='p') return c.m; return o->m; };
  struct Del { App* a; Mask m; u64 s,e; }; std::vector<Del> dels; // masks delivered
  auto crossed=[&](App* a,int x){ for(Del& d:dels) if(d.a==a&&d.m.has(x)) for(Del& q:dels) if(q.a!=a&&q.m.has(x)&&q.s<=d.e&&d.s<=q.e) return true; return false; };
  // the reserved CPUs are left alone until the child starts
  auto free_of=[&](Mask m){ return rok?m-rm:m; };
  w.after_op=[&](Op* o){ if((kind[o]==1||(kind[o]==2&&o->app->up&&o->app!=adm))&&o->rc==0){ App* a=o->app; Mask nm=newmask(o), lost=a->own-nm; for(Cb& c:o->cbs) if(c.kind=='d') lost=lost-c.m; dels.push_back({a,nm,o->s,o->e}); a->own=nm; a->has=a->has-lost; a->doubt=a->doubt|lost; } /* the new mask itself tells which CPUs are lost; one may be in use as borrowed */ if(kind[o]==4&&o->rc!=0) probe("preinit_refused"); };
  auto gen=[&](App* a)->Op*{ int r=g.below(100); Mask any=mask_bits(g.next()&((1ULL<<N)-1)); if(w.smt&&g.chance(0.7)) any=coremasks(); Mask ow=any&a->own; if(ow.empty()) ow=a->own.empty()?Mask::of(0):a->own; int c=g.chance(0.6)?ow.first():(int)g.below(N), k=g.range(1,N);
    if(r<8) return w.mk(a,O_LEND); if(r<13) return w.mk(a,O_LENDCPU,c); if(r<22) return w.mk(a,O_LENDMASK,0,g.chance(0.7)?ow:any);
    if(r<28) return w.mk(a,O_RECLAIM); if(r<31) return w.mk(a,O_RECLAIMCPU,c); if(r<33) return w.mk(a,O_RECLAIMCPUS,k); if(r<35) return w.mk(a,O_RECLAIMMASK,0,ow);
    if(r<38) return w.mk(a,O_ACQCPU,c); if(r<41) return w.mk(a,O_ACQCPUS,k); if(r<43) return w.mk(a,O_ACQMASK,0,any);
    if(r<53) return w.mk(a,O_BORROW); if(r<55) return w.mk(a,O_BORCPU,c); if(r<59) return w.mk(a,O_BORCPUS,k); if(r<62) return w.mk(a,O_BORMASK,0,any);
    if(r<70) return w.mk(a,O_RETURN); if(r<72) return w.mk(a,O_RETCPU,c); if(r<76) return w.mk(a,O_BLOCK_IN,0,any); if(r<80) return setm(a,a,free_of(cores_of(g.chance(0.7)?(g.chance(0.5)?a->own|any:a->own&any):any)),(g.chance(0.5)?DLB_STEAL_CPUS:0)|DLB_SYNC_QUERY*0,false);
    return poll(a,false); };
  { Op* o=w.custom(adm,"DROM_Attach",[adm,N,&w]{ adm->a->mu_testing_set_sys(N,w.ncore,w.nnode); return adm->a->DLB_DROM_Attach(); }); w.post(adm->th[0],o); }
  for(int i=0;i<n;i++) w.post(w.apps[i]->th[0],w.mkf(w.apps[i],O_INIT));
  if(!w.settle()){ report(P,"stuck","initialisation does not finish: "+w.stuck()); return; }
  auto mkpre=[&]{ rm=coremasks(); pre=w.mkf(adm,O_CUSTOM); pre->desc="PreInit("+rm.str()+",steal)"; kind[pre]=4; Mask m=rm; int pid=res->p->pid; bool st=g.chance(0.8); App* A=adm; pre->fn=[A,m,pid,st]{ std::map<std::string,std::string> env=A->p->env; int rc=A->a->DLB_DROM_PreInit(pid,&m.s,(dlb_drom_flags_t)(st?DLB_STEAL_CPUS:0),nullptr); A->p->env=env; return rc; }; };
  // ---- concurrent
  int nops=g.range(3,16); bool conc=g.chance(0.8);
  if(conc){
    const bool prec=false;
    for(int i=0;i<n;i++){ App* a=w.apps[i]; for(int k=0;k<nops;k++){ Op* o=gen(a); w.post(a->th[0],o); if(o->code==O_BLOCK_IN) w.post(a->th[0],w.mkf(a,O_BLOCK_OUT)); if(g.chance(0.15)){ Op* s=w.mk(a,O_SLEEP); s->ns=1+g.below(50000); w.post(a->th[0],s); } } }
    int na=g.range(1,6); for(int k=0;k<na;k++){ App* t=w.apps[g.below(n)]; Mask m=coremasks(); double x=g.unit(); if(x<0.4) m=m|own[t->idx]; else if(x<0.6) m=m&own[t->idx]; if(m.empty()) m=own[t->idx]; w.post(adm->th[0],setm(adm,t,m,g.chance(0.6)?DLB_STEAL_CPUS:0,false)); if(prec&&k==na/2){ mkpre(); w.post(adm->th[0],pre); } Op* s=w.mk(adm,O_SLEEP); s->ns=1+g.below(50000); w.post(adm->th[0],s); }
    if(!w.settle()){ report(P,"stuck","calls do not finish: "+w.stuck()); return; } }
  run.nontrivial=run.switches>10; if(!run.viol.empty()) return;
  Model M(L); w.serial=true;
  auto RUN=[&](Op* o)->bool{ if(!w.run(o)){ report(P,"stuck","call does not finish: "+w.stuck()); return false; } return run.viol.empty(); };
  // a delivered mask: what the table and the callbacks must say
  auto pollstep=[&](Op* o){ if(!M.valid||!o->done||o->skip) return; App* a=o->app; int p=a->idx; Mask E,D; for(Cb& cb:o->cbs){ if(cb.kind=='e') E=E|cb.m; if(cb.kind=='d') D=D|cb.m; } const char* d=o->desc.c_str(); char b[400];
    auto F=[&](const char* prop,const char* cls,Mask x,const char* what){ snprintf(b,sizeof b,"%s %s %s %s",a->name.c_str(),d,what,x.str().c_str()); report(prop,cls,b); };
    if(o->rc!=0){ if(!E.empty()) F("C01","unexpected-enable",E,"enabled"); if(!D.empty()) F("C01","unexpected-disable",D,"disabled"); return; }
    Mask X=newmask(o),mE,mD,okE,okD=M.pend[a]; 
    for(int x=0;x<N;x++){ St& s=M.c[x]; if(X.has(x)){ if(s.owner!=p){ if(s.guest!=p) mE.add(x); okE.add(x); s.owner=p; s.st=BUSY; if(s.guest<0) s.guest=p; } }
      else if(s.owner==p){ s.owner=-1; s.st=DIS; if(s.guest==p){ s.guest=-1; mD.add(x); } } else if(s.guest==p&&s.st==BUSY){ s.guest=s.owner; mD.add(x); } }
    if(!mE.sub(E)) F("C02","own-not-enabled",mE-E,"does not enable the CPUs it now owns"); if(!E.sub(okE)) F("C01","unexpected-enable",E-okE,"enabled"); if(!mD.sub(D)) F("C02","lost-not-disabled",mD-D,"does not disable the CPUs it lost"); if(!D.sub(mD|okD)) F("C01","unexpected-disable",D-mD-okD,"disabled"); M.pend[a]=Mask(); };
  auto cmp=[&](){ bool pr; std::vector<St> t; if(!M.valid||!M.parse(t,pr)||!pr) return; for(int x=0;x<N;x++) if(t[x].owner!=M.c[x].owner||t[x].guest!=M.c[x].guest||t[x].st!=M.c[x].st){ if(w.smt&&t[x].owner==M.c[x].owner&&t[x].st==M.c[x].st) continue; char b[200]; snprintf(b,sizeof b,"CPU %d: owner/guest/state is %d/%d/%d, the calls so far imply %d/%d/%d",x,t[x].owner,t[x].guest,t[x].st,M.c[x].owner,M.c[x].guest,M.c[x].st); const char* Q="C01"; if(t[x].guest>=0&&t[x].owner<0) Q="C04"; else if(t[x].guest!=M.c[x].guest&&M.c[x].guest==M.c[x].owner) Q="C02"; else if(t[x].guest<0||t[x].st!=M.c[x].st) Q="C03"; report(Q,"table-mismatch",b); return; } };
  auto home=[&]()->bool{ // everybody gets its pending mask, asks for its CPUs and leaves those of the others
    for(App* a:L.apps) if(a->up) for(int k=0;k<4;k++){ Op* o=poll(a,true); if(!RUN(o)) return false; if(o->rc!=0) break; if(k==3){ report("C13","always-pending","polls of "+a->name+" never end"); return false; } }
    Mask all; for(App* a:L.apps) if(a->up){ Op* o=getm(a,a); if(!RUN(o)) return false; if(o->rc!=0||!(o->m==a->own)){ report("C13","mask-differs",a->name+" was told to use "+a->own.str()+" but its mask is "+o->m.str()); return false; } if(!(all&o->m).empty()){ report("C12","overlap","CPUs "+(all&o->m).str()+" are in the mask of two processes"); return false; } all=all|o->m; }
    if(res&&rok) all=all|rm;
    for(App* a:L.apps) if(a->up){ if(!RUN(w.mkf(a,O_RECLAIM))) return false; }
    for(int k=0;k<2;k++) for(App* a:L.apps) if(a->up&&(k==0||!a->doubt.empty())) if(!RUN(w.mkf(a,O_RETURN))) return false;
    if(!M.from_table()) return true; 
    for(int i=0;i<N;i++){ App* o=nullptr; for(App* a:L.apps) if(a->up&&a->own.has(i)) o=a; St& s=M.c[i]; char b[300];
      if(o&&crossed(o,i)&&s.owner!=o->idx){ fail("C02","crossed-deliveries","CPU %d was given to two processes by masks delivered at the same time and is now owned by %d instead of %s",i,s.owner,o->name.c_str()); return false; }
      if(o){ if(s.owner!=o->idx||s.guest!=o->idx||s.st!=BUSY){ snprintf(b,sizeof b,"after everybody got its mask, reclaimed and polled, CPU %d of %s is owned by %d, used by %d, state %d",i,o->name.c_str(),s.owner,s.guest,s.st); report(s.owner!=o->idx?"C02":"C03","not-restored",b); return false; } if(!o->has.has(i)){ snprintf(b,sizeof b,"after everybody got its mask and reclaimed, %s was not told to use its CPU %d",o->name.c_str(),i); report("C02","not-regained",b); return false; } }
      for(App* a:L.apps) if(a!=o&&a->has.has(i)){ snprintf(b,sizeof b,"after everybody got its mask, reclaimed and polled, %s still uses CPU %d",a->name.c_str(),i); report("C02","not-given-back",b); return false; }
      if(!o&&rok&&rm.has(i)){ if(s.owner!=res->idx||s.st!=BUSY||(s.guest>=0&&s.guest!=res->idx)){ snprintf(b,sizeof b,"the reserved CPU %d is owned by %d, used by %d, state %d",i,s.owner,s.guest,s.st); report("C17","not-reserved",b); return false; } }
      else if(!o&&(s.owner>=0||s.guest>=0||s.st!=DIS)){ snprintf(b,sizeof b,"CPU %d belongs to nobody but is owned by %d, used by %d, state %d",i,s.owner,s.guest,s.st); report("C04","owner-of-unregistered",b); return false; } }
    return true; };
  if(pre&&pre->done) rok=pre->rc==0;
  if(resv&&rok&&g.chance(0.5)){} else if(resv&&!pre&&g.chance(0.6)){ mkpre(); if(!RUN(pre)) return; rok=pre->rc==0; }
  // the mask of a victim of a reservation changes at its next poll
  if(!home()) return;
  // ---- serial, exact
  auto eff=[&]()->Mask{ Mask m; for(int x=0;x<N;x++) if(M.c[x].owner>=0||M.c[x].st!=DIS||M.c[x].guest>=0) m.add(x); for(App* a:L.apps) if(a->up) m=m|a->own; if(rok) m=m|rm; return m; };
  int n2=g.range(5,30);
  for(int i=0;i<n2&&M.valid;i++){ int r=g.below(100); App* a=L.apps[g.below(n)];
    if(r<18){ App* t=L.apps[g.below(L.apps.size())]; if(!t->up) continue; Mask m=coremasks(); double x=g.unit(); if(x<0.4) m=m|t->own; else if(x<0.6) m=m&t->own; m=free_of(m); if(m.empty()) m=t->own; if(m.empty()) continue; if(!RUN(setm(adm,t,m,g.chance(0.6)?DLB_STEAL_CPUS:0,false))) return; continue; }
    if(resv&&child&&!child->up&&!child->gen&&r<26){ if(!rok){ mkpre(); if(!RUN(pre)) return; if(pre->rc==0){ rok=true; for(int x=0;x<N;x++) if(rm.has(x)){ M.c[x].owner=res->idx; M.c[x].st=BUSY; if(M.c[x].guest<0) M.c[x].guest=res->idx; } cmp(); if(!run.viol.empty()) return; } continue; }
      // the child starts with the reserved CPUs
      child->own=rm; child->args+=" --preinit-pid="+std::to_string(res->p->pid); Op* o=w.mkf(child,O_INIT); for(int x=0;x<N;x++) if(rm.has(x)&&M.c[x].guest==res->idx) M.c[x].guest=-1; if(!RUN(o)) return; if(o->rc!=0){ report("C17","not-inherited","child could not initialize with its reservation "+rm.str()+": "+rcs(o->rc)); return; } rok=false; M.step(o); probe("inherited"); cmp(); if(!run.viol.empty()) return; continue; }
    if(child&&child->up&&g.chance(0.25)) a=child;
    if(!a->up){ for(App* b:L.apps) if(b->up) for(int k=0;k<3;k++){ Op* o=poll(b,true); if(!RUN(o)) return; pollstep(o); if(!run.viol.empty()) return; if(o->rc!=0) break; } Mask fr; for(int x=0;x<N;x++) if((w.coremask(x)&eff()).empty()) fr.add(x); Mask m=coremasks()&fr; if(m.empty()) m=fr; if(m.empty()) continue; a->own=m; Op* o=w.mkf(a,O_INIT); if(!RUN(o)) return; M.step(o); cmp(); if(!run.viol.empty()) return; continue; }
    if(r>94&&!a->th[0]->blocked){ Op* o=w.mkf(a,O_FINALIZE); if(!RUN(o)) return; bool any=false; for(App* b:L.apps) if(b->up) any=true; if(!any&&rok){ M.valid=false; if(!M.from_table()) return; } else M.step(o); a->own=Mask(); if(!any) break; cmp(); if(!run.viol.empty()) return; continue; }
    Op* o=gen(a); if(a->th[0]->blocked){ if(r%3) continue; o=w.mkf(a,O_BLOCK_OUT); }
    if(w.r.rp->skip_ops.count(o->id)) continue; if(!RUN(o)) return; if(o->skip) continue;
    if(kind[o]==1||kind[o]==2) pollstep(o); else M.step(o); if(!run.viol.empty()) return; if(g.chance(0.4)||kind[o]){ cmp(); if(!run.viol.empty()) return; } }
  for(App* a:L.apps) if(a->th[0]->blocked){ Op* o=w.mkf(a,O_BLOCK_OUT); if(!RUN(o)) return; }
  if(!home()) return;
  for(App* a:L.apps) if(a->up) if(!RUN(w.mkf(a,O_FINALIZE))) return;
}
