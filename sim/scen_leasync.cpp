// LeWI with CPU masks in asynchronous mode: queued requests (C05) and convergence of what the helper threads told each process
// with the shared CPU table (C06). Serial phases are checked after every call, concurrent ones when everything is quiet.
#include "lewi_model.h"
namespace {
struct Cred { std::vector<int> lo,hi; int glo=0,ghi=0; Mask allowed; size_t nh=0; bool wd=false; };   // requests of one process, as bounds
}
SCENARIO(leasync){
  World w(run); Rng& g=w.rng; if(run.cfg.pstall>0) run.cfg.stall_ns=std::min<u64>(run.cfg.stall_ns,3000000); run.nontrivial=true; w.slow_cb=g.chance(0.3);
  w.smt=g.chance(0.2); w.tpc=w.smt?2:1; int n=w.smt?2*g.range(2,4):g.range(2,8); w.ncpu=n; w.ncore=n/w.tpc; w.nnode=1; if(w.ncore%2==0&&g.chance(0.3)) w.nnode=2;
  int na=g.range(2,std::min(4,w.ncore)); bool pm=g.chance(0.1), mx=g.chance(0.3); LG L; L.w=&w; L.id=0; L.pm=pm; L.conv=true; L.as=run.prop=="C05"?"C05":"C06"; Model M(L);
  std::vector<int> cores; for(int i=0;i<w.ncore;i++) cores.push_back(i); bool shuf=g.chance(0.5); if(shuf) for(int i=w.ncore-1;i>0;i--) std::swap(cores[i],cores[g.below(i+1)]);
  std::vector<int> cnt(na,1); int left=w.ncore-na; for(int k=0;k<left;k++) if(g.chance(0.85)) cnt[g.below(na)]++; int pos=0;
  std::vector<Cred> K(na);
  for(int i=0;i<na;i++){ Mask m; for(int j=0;j<cnt[i];j++) m=m|w.coremask(cores[pos++]*w.tpc); bool kp=g.chance(0.3), near=w.nnode==2&&g.chance(0.3); std::string ar="--lewi --mode=async --lewi-barrier=no"; if(kp) ar+=" --lewi-keep-one-cpu"; if(near) ar+=" --lewi-affinity=nearby-only"; if(pm) ar+=" --debug-opts=lend-post-mortem"; if(g.chance(0.3)) ar+=" --barrier=no"; if(g.chance(0.2)) ar+=" --drom"; if(g.chance(0.2)) ar+=" --talp --talp-summary=none";
    App* a=w.add_app(std::string(1,'A'+i),m,ar); a->async=a->conv=true; a->keep=kp; a->ncpus=m.count(); w.launch(a); L.apps.push_back(a); Cred& c=K[i]; c.lo.assign(n,0); c.hi.assign(n,0); c.allowed=near?L.nearby(a):Mask::range(0,n); }
  auto reset=[&](int i){ Cred& c=K[i]; c.glo=c.ghi=0; c.wd=false; c.lo.assign(n,0); c.hi.assign(n,0); };
  struct Bye{ World& w; ~Bye(){ for(App* a:w.apps) if(!a->dead) kill_proc(a->p,X_NORMAL); } } bye{w};
  std::vector<Op*> ph; bool conc=false; u64 phase0=0; std::vector<int> mp(na,0);
  w.after_op=[&](Op* o){ ph.push_back(o); };
  auto F=[&](const char* p,const char* cls,const std::string& m){ fail(p,cls,"%s",m.c_str()); };
  // account for what the calls of this phase asked for and what was delivered; then compare everything with the table
  auto evaluate=[&](const char* when)->bool{
    if(!run.viol.empty()) return false;
    std::vector<int> inits;
    for(int i=0;i<na;i++){ App* a=w.apps[i]; Cred& c=K[i]; struct Ev{ u64 seq; int t; Op* o; Cb* cb; }; std::vector<Ev> ev; for(Op* o:ph) if(o->app==a&&o->done&&!o->noop) ev.push_back({o->e,0,o,nullptr}); 
      // what the process was told by its helper, in the order seen by the process
      for(;c.nh<a->hcbs.size();c.nh++) ev.push_back({a->hcbs[c.nh].seq,1,nullptr,&a->hcbs[c.nh]});
      if(conc){ // requests first: a delivery may be seen before the call that asked for it returns
        std::stable_sort(ev.begin(),ev.end(),[](const Ev&x,const Ev&y){ auto key=[](const Ev& e){ return e.t==1&&e.cb->kind=='d'?0:e.t==0?1:2; }; return key(x)!=key(y)?key(x)<key(y):x.seq<y.seq; }); }
      else std::stable_sort(ev.begin(),ev.end(),[](const Ev&x,const Ev&y){ return (x.t==1?x.seq:x.o->s)<(y.t==1?y.seq:y.o->s); });
      auto deliver=[&](int cpu,bool sure,const char* by){ bool own=a->own.has(cpu); (void)sure;
        if(c.hi[cpu]>0){ c.hi[cpu]--; if(c.lo[cpu]>0) c.lo[cpu]--; if(conc&&c.ghi>0&&c.allowed.has(cpu)){ c.wd=true; if(c.glo>0) c.glo--; } return; }
        if(own&&conc){ if(c.glo>0) c.glo--; return; }
        if(c.ghi>0&&c.allowed.has(cpu)){ c.ghi--; if(c.glo>0) c.glo--; if(conc&&c.lo[cpu]>0){ c.lo[cpu]--; c.wd=true; } return; }
        if(own) return;                                                     // its own CPU, given back by whoever was using it
        F("C05","not-requested",a->name+" was given CPU "+std::to_string(cpu)+by+", which it had not requested any more ("+when+")"); };
      for(Ev& e:ev){ 
        if(e.t==1){ for(int x=0;x<n;x++) if(e.cb->m.has(x)){ if(e.cb->kind=='d'){ if(!a->own.has(x)){ c.hi[x]++; if(!conc) c.lo[x]++; } } else if(e.cb->kind=='e'){ deliver(x,true,""); probe("delivered"); } } continue; }
        Op* o=e.o; int ne=0; Mask en; for(Cb& k:o->cbs) if(k.kind=='e') en=en|k.m; ne=en.count();
        switch(o->code){
          case O_INIT: case O_FINALIZE: case O_DISABLE: case O_ACQCPUS: if(o->code==O_ACQCPUS&&o->n!=0){ if(o->rc==DLB_NOTED||o->rc==DLB_SUCCESS){ int r=o->n-ne; bool lim=a->maxpar>0||mp[i]>0; if(r>0){ c.ghi+=r; if(!lim) c.glo+=r; probe("requested"); } if(r>0&&o->rc==DLB_SUCCESS&&!lim) F("C05","short","AcquireCpus obtained less CPUs than requested and did not register the rest: "+a->name+" "+o->desc); } break; }
            if(o->rc>=0){ if(conc){ c.wd=true; c.glo=0; c.lo.assign(n,0); } else reset(i); probe("withdrawn"); }
            if(o->code==O_INIT) inits.push_back(i);
            break;
          case O_ACQCPU: if(o->rc==DLB_NOTED&&!a->own.has(o->n)){ c.hi[o->n]++; c.lo[o->n]++; probe("requested_cpu"); } break;
          // giving up a CPU of other process withdraws the requests for it
          case O_LEND: case O_LENDCPU: case O_LENDMASK: case O_BLOCK_IN: case O_SETMAX: if(o->rc==0||o->code==O_BLOCK_IN){ Mask m=o->code==O_LEND?Mask::range(0,n):o->code==O_LENDCPU?Mask::of(o->n):o->code==O_BLOCK_IN?o->lentm:o->m; if(o->code==O_SETMAX){ m=Mask(); for(Cb& k:o->cbs) if(k.kind=='d') m=m|k.m; } for(int x=0;x<n;x++) if(m.has(x)&&!a->own.has(x)){ c.lo[x]=0; if(!conc) c.hi[x]=0; else c.wd=true; } 
             for(int x=0;x<n;x++) if(en.has(x)) deliver(x,false," in its own call"); 
             if(o->code==O_SETMAX){ if(c.ghi) c.wd=true; c.glo=0; for(auto& v:c.lo) v=0; } } break;
          default: break; } } 
    }
    for(int i:inits) for(int k=0;k<na;k++) if(k!=i) for(int x=0;x<n;x++) if(w.apps[i]->own.has(x)){ K[k].lo[x]=0; if(!conc) K[k].hi[x]=0; else if(K[k].hi[x]) K[k].wd=true; }   // a CPU registered again loses its requests
    for(int i=0;i<na;i++) mp[i]=w.apps[i]->maxpar;
    ph.clear(); if(!run.viol.empty()) return false;
    // the table
    App* any=nullptr; for(App* a:w.apps) if(a->up&&!a->dead) any=a; if(!any) return true; bool s=w.serial; w.serial=true; bool ok=M.from_table(); w.serial=s; ph.clear(); if(!ok) return run.viol.empty();
    for(int x=0;x<n;x++){ St& t=M.c[x]; std::string X=std::to_string(x);
      if(t.guest>=0&&!w.apps[t.guest]->up) F("C06","guest-gone","CPU "+X+" is assigned to "+w.apps[t.guest]->name+", which finalized ("+when+")");
      for(int i=0;i<na;i++){ App* a=w.apps[i]; if(!a->up) continue; bool tb=t.guest==i, v=a->has.has(x); if(tb==v) continue; if(v&&t.owner==i&&t.st==BUSY&&t.guest<0) continue;
        // messages are sent, and own callbacks called, after the table is unlocked: two of them for the same CPU may be inverted
        bool inv=false; if(conc){ std::vector<std::pair<u64,char>> cb; for(Op* o:w.hist) if(o->app==a&&o->started){ for(Cb& k:o->cbs) if(k.m.has(x)&&(k.kind=='e'||k.kind=='d')) cb.push_back({k.seq,k.kind}); if((o->code==O_LEND||(o->code==O_LENDCPU&&o->n==x)||(o->code==O_LENDMASK&&o->m.has(x))||(o->code==O_BLOCK_IN&&o->lentm.has(x)))&&!o->noop) { cb.push_back({o->s,'d'}); } if(o->code==O_FINALIZE) cb.push_back({o->s,'d'}); if(o->code==O_INIT&&a->own.has(x)) cb.push_back({o->e,'e'}); if(o->code==O_BLOCK_OUT&&o->lentm.has(x)) cb.push_back({o->s,'e'}); if(o->code==O_CHECK&&o->n==x&&o->rc==0) cb.push_back({o->e,'e'}); } for(Cb& k:a->hcbs) if(k.m.has(x)) cb.push_back({k.seq,k.kind}); std::sort(cb.begin(),cb.end());
          while(!cb.empty()&&cb[0].first<phase0) cb.erase(cb.begin()); for(size_t q=0;q+1<cb.size();q++) if(cb[q].second!=cb.back().second) inv=true; }
        if(inv){ fail("C06","inverted","%s: %s %s CPU %d, which is assigned to %s; two notifications of this CPU were inverted",when,a->name.c_str(),v?"was told to use":"was told to leave",x,t.guest>=0?w.apps[t.guest]->name.c_str():"nobody"); return false; }
        if(tb) F("C06","not-told",std::string(when)+": CPU "+X+" is assigned to "+a->name+", which was not told to use it"); else F("C06","stale-use",std::string(when)+": "+a->name+" was told to use CPU "+X+", assigned to "+(t.guest>=0?w.apps[t.guest]->name:"nobody")); }
      if(t.guest<0&&t.st==LENT) for(int i=0;i<na;i++){ App* a=w.apps[i]; Cred& c=K[i]; if(!a->up||!a->enabled||c.wd) continue; bool want=c.lo[x]>0||(c.glo>0&&c.allowed.has(x)); if(want&&M.elig(i,x)) F("C05","not-served","CPU "+X+" is idle although "+a->name+" requested "+(c.lo[x]?"it":std::to_string(c.glo)+" CPUs")+" ("+when+")"); }
      if(t.st==BUSY&&t.owner>=0&&t.guest>=0&&t.guest!=t.owner) F("C06","reclaimed-not-returned","CPU "+X+" was reclaimed by "+w.apps[t.owner]->name+" but is still assigned to "+w.apps[t.guest]->name+" ("+when+")"); 
    }
    phase0=w.seq; return run.viol.empty(); };
  auto settle=[&]{ if(w.settle()) return true; fail(L.as,"stuck","calls do not finish: %s",w.stuck().c_str()); return false; };
  for(int i=0;i<na;i++) if(g.chance(0.9)){ w.post(w.apps[i]->th[0],w.mkf(w.apps[i],O_INIT)); } if(!settle()) return; conc=true; if(!evaluate("after initialization")) return;
  auto gen=[&](App* a,bool fin)->Op*{ int x=g.below(n); Mask anym=mask_bits(g.next()&((1ULL<<n)-1)); Mask ow=anym&a->own; if(ow.empty()) ow=a->own; int k=g.range(1,n); std::vector<int> O; for(int q=0;q<n;q++) if(a->own.has(q)) O.push_back(q); int oc=O[g.below(O.size())]; 
    switch(g.below(fin?30:29)){ case 0: case 1: return w.mk(a,O_LEND); case 2: case 3: return w.mk(a,O_LENDCPU,g.chance(0.7)?oc:x); case 4: case 5: return w.mk(a,O_LENDMASK,0,g.chance(0.7)?ow:anym); case 6: case 7: return w.mk(a,O_RECLAIM); case 8: return w.mk(a,O_RECLAIMCPU,oc); case 9: return w.mk(a,O_RECLAIMCPUS,k); case 10: return w.mk(a,O_RECLAIMMASK,0,ow); case 11: case 12: return w.mk(a,O_ACQCPU,g.chance(0.3)?oc:x); case 13: case 14: case 15: case 16: return w.mk(a,O_ACQCPUS,g.range(1,std::max(1,n/2))); case 17: return w.mk(a,O_ACQCPUS,g.chance(0.6)?0:k); case 18: return w.mk(a,O_ACQMASK,0,anym); case 19: return w.mk(a,O_BORROW); case 20: return w.mk(a,O_BORCPU,x); case 21: return w.mk(a,O_BORCPUS,k); case 22: return w.mk(a,O_BORMASK,0,anym); case 23: return w.mk(a,mx&&g.chance(0.4)?O_SETMAX:O_LENDCPU,mx?k:oc); case 24: case 25: { Mask m=g.chance(0.5)?a->own:anym; return w.mkf(a,O_BLOCK_IN,0,m); } case 26: return w.mk(a,O_CHECK,g.chance(0.6)?oc:x); case 27: return w.mk(a,O_DISABLE); case 28: return w.mk(a,O_ENABLE); default: return w.mkf(a,O_FINALIZE); } };
  int rounds=g.range(1,4); 
  for(int p=0;p<rounds&&run.viol.empty();p++){
    bool ser=p<rounds-1?g.chance(0.7):g.chance(0.35); conc=!ser; int k=g.range(3,ser?24:7); 
    if(ser) for(int j=0;j<k;j++){ int i=g.below(na); App* a=w.apps[i]; Op* o; if(!a->up){ if(pm||!g.chance(0.4)) continue; o=w.mkf(a,O_INIT); } else if(a->th[0]->blocked&&g.chance(0.6)) o=w.mkf(a,O_BLOCK_OUT); else { o=gen(a,g.chance(0.4)); if(((o->code==O_BLOCK_IN||o->code==O_DISABLE)&&a->th[0]->blocked)||(mx&&a->th[0]->blocked&&o->code==O_SETMAX)) continue; if(o->code==O_FINALIZE&&a->th[0]->blocked) continue; }
        if(!w.run(o)){ if(run.viol.empty()) fail(L.as,"stuck","%s does not return: %s",o->desc.c_str(),w.stuck().c_str()); return; } if(!evaluate(("after "+a->name+" "+o->desc).c_str())) return; }
    else { for(int i=0;i<na;i++){ App* a=w.apps[i]; bool u=a->up, blk=a->th[0]->blocked; for(int j=0;j<k;j++){ if(!u){ if(!pm&&g.chance(0.3)){ w.post(a->th[0],w.mkf(a,O_INIT)); u=true; } continue; } Op* o; if(blk){ o=w.mkf(a,O_BLOCK_OUT); blk=false; } else { o=gen(a,g.chance(0.3)); if(o->code==O_SETMAX||(blk&&o->code==O_DISABLE)) continue; if(o->code==O_BLOCK_IN) blk=true; if(o->code==O_FINALIZE) u=false; } w.post(a->th[0],o); if(g.chance(0.15)){ Op* z=w.mk(a,O_SLEEP); z->ns=1+g.below(20000); w.post(a->th[0],z); } } }
      if(!settle()) return; if(!evaluate("when quiet")) return; 
      // requests withdrawn concurrently with deliveries: start again from none
      conc=false; for(int i=0;i<na;i++){ App* a=w.apps[i]; if(!a->up) continue; if(K[i].wd||!a->enabled){ if(!a->enabled) if(!w.run(w.mkf(a,O_ENABLE))) return; if(!w.run(w.mkf(a,O_ACQCPUS,0))) return; if(!evaluate("after withdrawing")) return; } } } }
  // ---- everybody withdraws and goes home
  conc=false; if(!run.viol.empty()) return;
  for(int i=0;i<na;i++){ App* a=w.apps[i]; if(!a->up) continue; std::vector<Op*> v; if(a->th[0]->blocked) v.push_back(w.mkf(a,O_BLOCK_OUT)); v.push_back(w.mkf(a,O_ENABLE)); v.push_back(w.mkf(a,O_UNSETMAX)); v.push_back(w.mkf(a,O_ACQCPUS,0)); for(Op* o:v){ if(!w.run(o)){ if(run.viol.empty()) fail(L.as,"stuck","%s does not return",o->desc.c_str()); return; } if(!evaluate("at the end")) return; } }
  for(int i=0;i<na;i++){ App* a=w.apps[i]; if(!a->up) continue; if(!w.run(w.mkf(a,O_RECLAIM))) return; if(!evaluate("at the end, reclaiming")) return; }
  for(int i=0;i<na;i++){ App* a=w.apps[i]; if(!a->up) continue; for(int x=0;x<n;x++) if(a->own.has(x)&&(M.c[x].guest!=i||!a->has.has(x))) F("C06","not-home","after reclaiming, CPU "+std::to_string(x)+" of "+a->name+" is not in use by it"); if(!run.viol.empty()) return; if(!w.run(w.mkf(a,O_ACQCPUS,0))) return; }
  bool cf=g.chance(0.4); for(int i=0;i<na;i++) if(w.apps[i]->up){ w.post(w.apps[i]->th[0],w.mkf(w.apps[i],O_FINALIZE)); if(!cf) if(!settle()) return; } if(!settle()) return;
}
