// LeWI with CPU masks, polling mode.
// Phase 1: concurrent random calls, checked against possession intervals derived from the history.
// Phase 2: one call at a time, checked exactly against a reference model of the shared CPU table.
#include "lewi_model.h"

// ---------------------------------------------------------------- interval checks over the concurrent history
namespace {
struct Poss { App* a; int c; u64 s, a0, b; u64 gen; bool owned; Op* op; Op* endop; };
bool drops(Op* o,int c){ if(o->done&&(o->rc==DLB_ERR_DISBLD||o->rc==DLB_ERR_NOINIT)) return false; switch(o->code){ case O_LEND: return true; case O_LENDCPU: return o->n==c; case O_LENDMASK: return o->m.has(c); case O_FINALIZE: return o->rc>=0; case O_BLOCK_IN: return o->lentm.has(c)&&!o->noop; default: return false; } }
// may this call, at any moment of its execution, make the CPU available to others on behalf of its owner?
bool may_lend(Op* o,int c,bool pm){ if(drops(o,c)) return o->code!=O_FINALIZE||pm; return o->code==O_SETMAX; }
}
void check_history(LG& g,u64 upto){
  World& w=*g.w; const u64 INF=~0ULL; std::vector<Poss> ps; std::map<std::pair<App*,int>,Poss> cur;
  struct Ev { u64 seq; int t; Op* o; Cb* cb; }; std::vector<Ev> ev;
  for(Op* o:w.hist) if(o->app->group==g.id && o->started && o->s<=upto){ ev.push_back({o->s,0,o,nullptr}); if(o->done) ev.push_back({o->e,1,o,nullptr}); for(Cb& c:o->cbs) ev.push_back({c.seq,2,o,&c}); }
  std::sort(ev.begin(),ev.end(),[](const Ev&a,const Ev&b){ return a.seq<b.seq; });
  auto endp=[&](App* a,int c,u64 b,Op* o){ auto it=cur.find({a,c}); if(it!=cur.end()){ it->second.b=b; it->second.endop=o; ps.push_back(it->second); cur.erase(it); } };
  auto beg=[&](App* a,int c,u64 s,u64 t,Op* o){ if(cur.count({a,c})) return; cur[{a,c}]=Poss{a,c,s,t,INF,0,a->own.has(c),o,nullptr}; };
  for(auto& e:ev){ App* a=e.o->app; if(a->th.size()>1) continue; Op* o=e.o;
    if(e.t==0){ for(int c=0;c<w.ncpu;c++) if(drops(o,c)) endp(a,c,o->s,o); 
      // a call that disables the CPU: the process stops using it somewhere within the call
      for(Cb& cb:o->cbs) if(cb.kind=='d') for(int c=0;c<w.ncpu;c++) if(cb.m.has(c)) endp(a,c,o->s,o); }
    if(e.t==1){ if(o->code==O_INIT&&o->rc>=0) for(int c=0;c<w.ncpu;c++) if(a->own.has(c)) beg(a,c,o->s,o->e,o);
      if(o->code==O_BLOCK_OUT&&!o->noop) for(int c=0;c<w.ncpu;c++) if((o->lentm&a->own).has(c)) beg(a,c,o->s,o->e,o);
      if(o->code==O_CHECK&&o->rc==0) beg(a,o->n,o->s,o->e,o); }
    if(e.t==2&&e.cb->kind=='e') for(int c=0;c<w.ncpu;c++) if(e.cb->m.has(c)){ bool later_d=false; for(Cb& cb:o->cbs) if(cb.kind=='d'&&cb.m.has(c)&&cb.seq>e.cb->seq) later_d=true; if(!later_d) beg(a,c,o->s,e.cb->seq,o); }
  }
  for(auto& k:cur) ps.push_back(k.second);
  auto own_at=[&](int c)->App*{ for(App* a:g.apps) if(a->own.has(c)) return a; return nullptr; };
  for(auto& x:ps) for(auto& y:ps) if(x.c==y.c&&x.a!=y.a){
    if(!x.owned&&!y.owned&&x.a0<y.a0&&y.a0<x.b) g.F("C01","two-borrowers","CPU %d enabled for %s by %s while %s, which got it by %s, was still using it",x.c,y.a->name.c_str(),y.op->desc.c_str(),x.a->name.c_str(),x.op->desc.c_str());
    if(x.owned&&!y.owned&&y.s>x.a0&&y.a0<x.b) g.F("C01","handed-out-in-use","CPU %d enabled for %s by %s although its owner %s was using it since %s",x.c,y.a->name.c_str(),y.op->desc.c_str(),x.a->name.c_str(),x.op->desc.c_str());
  }
  // every CPU obtained from another process was lent by its owner at some point
  for(auto& y:ps) if(!y.owned){ App* o=own_at(y.c); if(!o){ if(g.respect) g.F("C04","unowned-cpu","%s obtained CPU %d, which no process registered, by %s",y.a->name.c_str(),y.c,y.op->desc.c_str()); continue; }
    if(o->th.size()>1) continue; bool lent=false, was_down=true, up_before=false; for(Op* p:w.hist) if(p->app==o&&p->started){ if(p->s<y.a0&&may_lend(p,y.c,g.pm)) lent=true; if(p->code==O_INIT&&p->s<y.a0) { was_down=false; up_before=true; } if(p->code==O_FINALIZE&&p->done&&p->rc>=0&&p->e<y.s) was_down=true; }
    // an initialisation that started after the finalisation may have brought the owner back
    u64 lastinit=0,lastfin=0; for(Op* p:w.hist) if(p->app==o&&p->started){ if(p->code==O_INIT&&p->s<y.a0) lastinit=std::max(lastinit,p->s); if(p->code==O_FINALIZE&&p->done&&p->rc>=0&&p->e<y.s) lastfin=std::max(lastfin,p->e); } was_down=up_before&&lastfin>lastinit;
    if(!g.respect) continue;
    if(!up_before) g.F("C04","unowned-cpu","%s obtained CPU %d by %s before its owner registered",y.a->name.c_str(),y.c,y.op->desc.c_str());
    else if(was_down&&!g.pm) g.F("C04","finalized-owner","%s obtained CPU %d by %s after its owner %s had finalized",y.a->name.c_str(),y.c,y.op->desc.c_str(),o->name.c_str());
    else if(!lent&&up_before) g.F("C04","never-lent","%s obtained CPU %d by %s but its owner %s never lent it",y.a->name.c_str(),y.c,y.op->desc.c_str(),o->name.c_str()); }
  // per operation checks
  for(Op* o:w.hist) if(o->app->group==g.id&&o->done&&!o->noop&&o->s<=upto&&o->app->th.size()==1){ App* a=o->app;
    bool acq=o->code==O_ACQCPU&&o->n>=0&&o->n<w.ncpu&&a->own.has(o->n), rec=(o->code==O_RECLAIMCPU&&o->n>=0&&o->n<w.ncpu&&a->own.has(o->n))||o->code==O_RECLAIM||(o->code==O_RECLAIMMASK&&o->m.sub(a->own));
    if((acq||rec)&&o->rc<0&&o->rc!=DLB_ERR_DISBLD&&o->rc!=DLB_ERR_NOINIT) g.F("C02","reclaim-refused","%s %s returned %s",a->name.c_str(),o->desc.c_str(),rcs(o->rc));
    if((acq||rec)&&o->rc>=0){ Mask want=o->code==O_RECLAIM?a->own:o->code==O_RECLAIMMASK?o->m:Mask::of(o->n); Mask got=o->before; for(Cb&cb:o->cbs) if(cb.kind=='e') got=got|cb.m; want=want-g.silent(a); if(!want.sub(got)) g.F("C02","reclaim-incomplete","%s %s = %s left owned CPUs %s unused",a->name.c_str(),o->desc.c_str(),rcs(o->rc),(want-got).str().c_str()); }
    if(o->code==O_RETURN||o->code==O_RETCPU||o->code==O_RETMASK) if(o->rc>=0||o->rc==DLB_ERR_PERM) for(int c=0;c<w.ncpu;c++) if(o->before.has(c)&&!a->own.has(c)){ if(o->code==O_RETCPU&&o->n!=c) continue; if(o->code==O_RETMASK&&!o->m.has(c)) continue;
      App* ow=own_at(c); if(!ow||ow->th.size()>1) continue; // reclaim of c finished before this call, nothing lent it since
      u64 tr=0; for(Op* p:w.hist) if(p->app==ow&&p->done&&p->e<o->s){ bool r=p->code==O_INIT&&p->rc>=0; for(Cb&cb:p->cbs) if(cb.kind=='e'&&cb.m.has(c)) r=true; if(p->code==O_BLOCK_OUT&&!p->noop&&(p->lentm&ow->own).has(c)) r=true; if(r) tr=std::max(tr,p->e); }
      if(!tr) continue; bool relent=false; for(Op* p:w.hist) if(p->app==ow&&p->started&&p->s<o->e&&(!p->done||p->e>tr)&&(may_lend(p,c,true)||p->code==O_SETMAX||p->code==O_DISABLE)) relent=true; if(relent) continue;
      // the borrower must have obtained it before the reclaim, and must not have been told already
      bool told=false; for(Cb&cb:o->cbs) if(cb.kind=='d'&&cb.m.has(c)) told=true;
      if(!told) g.F("C02","return-not-told","%s polled with %s (= %s) but was not told to leave CPU %d, asked back by %s",a->name.c_str(),o->desc.c_str(),rcs(o->rc),c,ow->name.c_str()); }
  }
}
// limits, evaluated as each call returns
static void check_limits(LG& g,Op* o){ App* a=o->app; if(a->group!=g.id||a->th.size()>1||o->noop) return; World& w=*g.w; 
  int lim=a->maxpar; if(o->rc<0) return; int n=a->has.count();
  bool many=o->code==O_BORROW||o->code==O_BORCPUS||o->code==O_BORMASK||o->code==O_BORINMASK||o->code==O_ACQCPUS||o->code==O_ACQMASK||o->code==O_ACQINMASK; Mask e; for(Cb& cb:o->cbs) if(cb.kind=='e') e=e|cb.m;
  if(lim>0&&o->code==O_SETMAX&&o->n>0&&n>lim+w.tpc-1&&(w.tpc>1||n>lim)) g.F("C07","setmax-exceeded","%s %s left it with %d CPUs %s",a->name.c_str(),o->desc.c_str(),n,a->has.str().c_str());
  if(lim>0&&many&&!e.empty()&&n>lim+w.tpc-1) g.F("C07","limit-exceeded","%s %s raised it to %d CPUs, its maximum is %d",a->name.c_str(),o->desc.c_str(),n,lim);
  if((o->code==O_BORCPUS||o->code==O_ACQCPUS||((o->code==O_BORINMASK||o->code==O_ACQINMASK)))&&o->n>0&&e.count()>o->n+w.tpc-1) g.F("C07","more-than-asked","%s %s obtained %d CPUs",a->name.c_str(),o->desc.c_str(),e.count());
  if(o->code==O_BORMASK||o->code==O_BORINMASK||o->code==O_ACQMASK||o->code==O_ACQINMASK){ Mask m; for(int c=0;c<w.ncpu;c++) if(o->m.has(c)) m=m|w.coremask(c); if(a->aff!=AFF_SPREAD&&!e.sub(m)) g.F("C04","outside-request","%s %s obtained %s",a->name.c_str(),o->desc.c_str(),e.str().c_str()); }
  if(a->aff==AFF_NEARONLY&&many&&!e.sub(g.nearby(a))) g.F("C04","outside-affinity","%s (nearby-only) obtained %s by %s",a->name.c_str(),e.str().c_str(),o->desc.c_str());
  if(!a->enabled&&o->code!=O_DISABLE&&!e.empty()) g.F("C08","obtained-while-disabled","%s obtained %s while disabled",a->name.c_str(),e.str().c_str());
}

SCENARIO(lewi){
  World w(run); Rng& g=w.rng; bool c28=run.prop=="C28";
  static const int shapes[][3]={{2,2,1},{3,3,1},{4,4,1},{4,2,1},{6,6,1},{6,6,2},{8,8,2},{8,4,1},{8,4,2},{8,8,1}}; int sh=g.below(10); w.ncpu=shapes[sh][0]; w.ncore=shapes[sh][1]; w.nnode=shapes[sh][2]; w.tpc=w.ncpu/w.ncore; w.smt=w.tpc>1; w.slow_cb=g.chance(0.3);
  int ngroups=c28?2:1; std::vector<LG> G(ngroups); bool pm=g.chance(run.prop=="C04"||run.prop=="C08"?0.3:0.1), respect=!g.chance(run.prop=="C04"?0.25:0.08); bool post=pm||!respect;
  bool multi=g.chance(0.12); bool allow_block=g.chance(run.prop=="C09"?0.9:0.25); bool allow_life=g.chance(run.prop=="C08"||run.prop=="C04"?0.7:0.3); bool allow_max=g.chance(run.prop=="C07"?0.95:0.3); bool allow_check=g.chance(0.25);
  int color2=c28&&g.chance(0.5);
  for(int k=0;k<ngroups;k++){ LG& L=G[k]; L.w=&w; L.id=k; L.pm=post; L.respect=respect; L.c28=c28;
    int n=g.range(2,std::min(4,w.ncore)); if(c28) n=std::max(1,std::min(std::min(n,3),color2?w.ncpu/2:3));   // colours share the process list, one slot per CPU
    std::vector<Mask> own(n); int left=w.ncore; std::vector<int> cores; for(int i=0;i<w.ncore;i++) cores.push_back(i); bool shuffle=g.chance(0.3); if(shuffle) for(int i=w.ncore-1;i>0;i--) std::swap(cores[i],cores[g.below(i+1)]);
    int pos=0; bool some_unowned=g.chance(0.35); int total=w.ncore-(some_unowned&&w.ncore>n? (int)g.range(1,w.ncore-n):0); (void)left;
    std::vector<int> cnt(n,1); for(int i=n;i<total;i++) cnt[g.below(n)]++; for(int i=0;i<n;i++) for(int j=0;j<cnt[i];j++) own[i]=own[i]|w.coremask(cores[pos++]*w.tpc);
    for(int i=0;i<n;i++){ App* a=w.add_app(std::string(1,'A'+(int)w.apps.size()),own[i],"--lewi"); a->group=k; a->pm=post; 
      static const char* AN[]={"auto","nearby-first","nearby-only","spread-ifempty","mask"}; a->aff=g.chance(0.5)?0:(int)g.below(5); if(a->aff) a->args+=std::string(" --lewi-affinity=")+AN[a->aff];
      if(pm) a->args+=" --debug-opts=lend-post-mortem"; if(!respect) a->args+=" --lewi-respect-cpuset=no"; a->keep=g.chance(0.3); if(a->keep) a->args+=" --lewi-keep-one-cpu=yes"; if(allow_max&&g.chance(0.25)){ a->maxopt=g.range(1,w.ncpu); a->args+=" --lewi-max-parallelism="+std::to_string(a->maxopt); }
      if(k&&!color2) a->key="other"; if(k&&color2) a->color=7; if(!k&&color2) a->color=3; L.apps.push_back(a); }
  }
  w.after_op=[&](Op* o){ for(LG& L:G) check_limits(L,o); };
  for(App* a:w.apps){ w.launch(a); if(multi&&g.chance(0.5)) w.add_thread(a); }
  for(LG& L:G) for(App* a:L.apps) L.multi|=a->th.size()>1;
  // ---- phase 1: concurrent
  auto gen=[&](App* a,bool seq)->Op*{ int r; LG& L=G[a->group]; (void)L;
    while(true){ r=g.below(100); int c=g.chance(0.03)?w.ncpu+(int)g.below(3):(int)g.below(w.ncpu); u64 mb=g.next(); Mask any=mask_bits(mb&((1ULL<<w.ncpu)-1)); Mask ow=any&a->own; if(ow.empty()) ow=a->own; int n=g.range(1,w.ncpu); if(g.chance(0.03)) n=(int)g.below(2)-1; int oc=ow.first();
      if(r<8) return w.mk(a,O_LEND); if(r<15) return w.mk(a,O_LENDCPU,g.chance(0.7)?oc:c); if(r<24) return w.mk(a,O_LENDMASK,0,g.chance(0.7)?ow:any);
      if(r<30) return w.mk(a,O_RECLAIM); if(r<34) return w.mk(a,O_RECLAIMCPU,g.chance(0.8)?oc:c); if(r<37) return w.mk(a,O_RECLAIMCPUS,n); if(r<40) return w.mk(a,O_RECLAIMMASK,0,g.chance(0.8)?ow:any);
      if(r<43) return w.mk(a,O_ACQCPU,g.chance(0.5)?oc:c); if(r<46) return w.mk(a,O_ACQCPUS,n); if(r<48) return w.mk(a,O_ACQMASK,0,any); if(r<50) return w.mk(a,O_ACQINMASK,n,any);
      if(r<57) return w.mk(a,O_BORROW); if(r<60) return w.mk(a,O_BORCPU,c); if(r<65) return w.mk(a,O_BORCPUS,n); if(r<68) return w.mk(a,O_BORMASK,0,any); if(r<71) return w.mk(a,O_BORINMASK,n,any);
      if(r<79) return w.mk(a,O_RETURN); if(r<81) return w.mk(a,O_RETCPU,c); if(r<83) return w.mk(a,O_RETMASK,0,any);
      if(r<88){ if(allow_max) return g.chance(0.8)?w.mk(a,O_SETMAX,n):w.mk(a,O_UNSETMAX); continue; }
      if(r<92){ if(allow_life) return g.chance(0.5)?w.mk(a,O_DISABLE):w.mk(a,O_ENABLE); continue; }
      if(r<95){ if(allow_life&&seq) return w.mk(a,a->up?O_FINALIZE:O_INIT); if(allow_life&&!seq&&a->th.size()==1) return w.mk(a,O_CUSTOM,-7); continue; }
      if(r<97){ if(allow_check) return w.mk(a,O_CHECK,g.below(w.ncpu)); continue; }
      if(r<100){ if(allow_block&&a->th.size()==1) return w.mk(a,O_BLOCK_IN,0,any); continue; }
    } };
  for(App* a:w.apps){ w.post(a->th[0],w.mkf(a,O_INIT)); }
  bool sync_init=g.chance(0.6)||multi; if(sync_init&&!w.settle()){ G[0].F(run.prop,"stuck","initialisation does not finish: %s",w.stuck().c_str()); return; }
  int nops=g.range(4,24); for(App* a:w.apps) for(AppThread* t:a->th) for(int i=0;i<nops;i++){ 
      Op* o=gen(a,false); if(o->code==O_CUSTOM&&o->n==-7){ o->code=O_FINALIZE; o->desc="Finalize()"; Op* q=w.mkf(a,O_INIT); w.post(t,o); w.post(t,q); continue; }
      w.post(t,o); if(o->code==O_BLOCK_IN){ if(g.chance(0.7)){ Op* s=w.mk(a,O_SLEEP); s->ns=1+g.below(100000); w.post(t,s); } w.post(t,w.mkf(a,O_BLOCK_OUT)); } else if(g.chance(0.15)){ Op* s=w.mk(a,O_SLEEP); s->ns=1+g.below(20000); w.post(t,s); } }
  if(!w.settle()){ G[0].F(run.prop,"stuck","calls do not finish: %s",w.stuck().c_str()); return; }
  run.nontrivial=run.switches>10; u64 upto=w.seq;
  if(!run.viol.empty()) return;
  for(LG& L:G) check_history(L,upto);
  if(!run.viol.empty()) return;
  // ---- the shared table agrees with what processes were told
  std::vector<Model> M; for(LG& L:G){ M.emplace_back(L); Model& m=M.back(); if(!m.from_table()) continue; if(!multi) m.check_views("after concurrent phase"); else for(App* a:L.apps){ a->has=Mask(); a->doubt=Mask(); for(int c=0;c<w.ncpu;c++) if(m.c[c].guest==a->idx) a->has.add(c); } }
  if(!run.viol.empty()) return;
  if(multi) for(App* a:w.apps) if(a->up&&a->th.size()>1){ w.run(w.mkf(a,O_ENABLE)); w.run(w.mkf(a,O_UNSETMAX)); a->enabled=true; a->maxpar=0; }   // concurrent settings: make them known
  // ---- whatever is idle is obtained by the next process that asks for everything
  for(size_t k=0;k<G.size();k++) if(g.chance(0.6)){ App* a=G[k].apps[g.below(G[k].apps.size())]; if(!a->up||!a->enabled) continue; Op* o=w.mkf(a,O_BORROW); if(!M[k].valid) continue; w.run(o); M[k].step(o); if(!run.viol.empty()) return; }
  // ---- every owner ends up with exactly its CPUs
  for(LG& L:G){ for(App* a:L.apps){ if(!a->up) w.run(w.mkf(a,O_INIT)); w.run(w.mkf(a,O_ENABLE)); w.run(w.mkf(a,O_UNSETMAX)); }
    for(App* a:L.apps) w.run(w.mkf(a,O_RECLAIM)); for(App* a:L.apps){ w.run(w.mkf(a,O_RETURN)); } for(App* a:L.apps) if(!a->doubt.empty()) w.run(w.mkf(a,O_RETURN));
    // CPUs nobody owns any more may still be in use by their borrowers: lend them back
    for(App* a:L.apps){ Mask foreign=a->has-a->own; bool un=true; for(App* b:L.apps) if(!(foreign&b->own).empty()) un=false; if(!foreign.empty()&&un) w.run(w.mkf(a,O_LENDMASK,0,foreign)); } }
  if(!run.viol.empty()) return;
  for(size_t k=0;k<G.size();k++){ Model& m=M[k]; if(m.from_table()) m.check_home(); else m.init_home(); }
  if(!run.viol.empty()) return;
  // ---- phase 2: sequential, exact
  w.serial=true; int n2=g.range(6,40); std::vector<bool> blk(w.apps.size(),false);
  for(int i=0;i<n2;i++){ App* a=w.apps[g.below(w.apps.size())]; Op* o=gen(a,true); u64 r2=g.next();
    if(o->code==O_CUSTOM) o->code=O_RETURN;
    if(a->th[0]->blocked){ if(r2%3==0){ Op* q=w.mkf(a,O_BLOCK_OUT); w.run(q); M[a->group].step(q); } }
    else { if((o->code==O_FINALIZE&&!a->up)||(o->code==O_INIT&&a->up)) continue; if(!a->up&&o->code!=O_INIT) continue; if(w.r.rp->skip_ops.count(o->id)) continue;
      if(!w.run(o)){ G[0].F(run.prop,"stuck","sequential call does not finish: %s",w.stuck().c_str()); return; } if(o->skip) continue; M[a->group].step(o); }
    if(!run.viol.empty()) return;
    if(r2%5==1||i==n2-1) for(Model& m:M){ m.compare_table(); if(!run.viol.empty()) return; } }
  // ---- shutdown
  for(App* a:w.apps){ if(a->th[0]->blocked){ Op* q=w.mkf(a,O_BLOCK_OUT); w.run(q); M[a->group].step(q); } }
  for(App* a:w.apps) if(a->up){ Op* o=w.mkf(a,O_FINALIZE); w.run(o); M[a->group].step(o); if(!run.viol.empty()) return; }
  for(App* a:w.apps) kill_proc(a->p,X_NORMAL);
}
