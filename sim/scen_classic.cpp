// Classic LeWI (no CPU binding): processes with a number of CPUs lend, reclaim, borrow, block, (un)limit, disable, leave and join
// concurrently. The history must be explained by one shared counter of idle CPUs (C10).
#include "world.h"
#include "lin.h"
#include <memory>
namespace {
enum { K_INIT,K_FIN,K_LEND,K_RECLAIM,K_BORROW,K_BORN,K_IN,K_OUT,K_DIS,K_EN,K_MAX,K_UNMAX,K_NOP }; const char* KN[]={"Init","Finalize","Lend","Reclaim","Borrow","BorrowCpus","IntoBlockingCall","OutOfBlockingCall","Disable","Enable","SetMaxParallelism","UnsetMaxParallelism","unsupported"};
struct CR { int k,app,n; u64 s=0,e=0; bool done=false; int rc=0; int thr=0; };
struct CM { int n; std::vector<int> d; std::vector<char> greedy,keep; std::vector<CR*> ops;
  struct St { struct P { int my=0,maxp=0; bool reg=false,en=true; }; std::vector<P> p; u64 hash()const{ u64 x=0; for(auto& q:p) x=mix2(x,(u64)(q.my+100)*4000+q.maxp*4+q.reg*2+q.en); return x; } };
  struct Loc { int pc=0; u64 hash()const{ return pc+5; } };
  int idle(const St& s){ int t=0; for(size_t i=0;i<d.size();i++) if(s.p[i].reg) t+=d[i]-s.p[i].my; return t; }
  template<class F> void succ(const St& s0,const Loc&,int i,F emit){ const CR& o=*ops[i]; const St::P& q=s0.p[o.app]; int a=o.app, D=d[a];
    auto fin=[&](int my,std::function<void(St::P&)> f=nullptr){ if(o.done&&q.reg&&o.k!=K_FIN&&o.thr!=std::max(1,std::min(my,n))) return; St s=s0; s.p[a].my=my; if(f) f(s.p[a]); Loc x; x.pc=-1; emit(s,x); };
    auto take=[&]{ St s=s0; s.p[a].my=D; int id=idle(s); return greedy[a]?D+std::max(0,id):D; };
    if(o.k==K_INIT){ fin(D,[](St::P& p){ p.reg=true; p.en=true; p.maxp=0; }); return; }
    if(!q.reg){ fin(q.my); return; }
    switch(o.k){
      case K_FIN: fin(0,[](St::P& p){ p.reg=false; }); return;
      case K_EN: fin(q.my,[](St::P& p){ p.en=true; }); return; case K_DIS: fin(q.en?D:q.my,[](St::P& p){ p.en=false; }); return; }
    if(!q.en){ if(o.k==K_OUT||o.k==K_IN){ fin(q.my); return; } if(o.k==K_MAX||o.k==K_UNMAX){ fin(q.my); if(o.k==K_MAX&&o.n>0) fin(std::min(q.my,o.n),[&](St::P& p){ p.maxp=o.n; }); if(o.k==K_UNMAX) fin(q.my,[](St::P& p){ p.maxp=0; }); return; } if(o.done&&o.rc>=0&&o.k!=K_NOP) return; fin(q.my); return; }
    switch(o.k){
      case K_LEND: fin(1); return; case K_RECLAIM: case K_OUT: fin(take()); return; case K_IN: fin(keep[a]?1:0); return;
      case K_MAX: if(o.n<=0) fin(q.my); else fin(std::min(q.my,o.n),[&](St::P& p){ p.maxp=o.n; }); return; case K_UNMAX: fin(q.my,[](St::P& p){ p.maxp=0; }); return;
      case K_BORROW: case K_BORN: { int want=o.k==K_BORROW?1000:o.n, my=q.my, id=idle(s0); if(want>0){ if(id<0&&my>D) my-=std::min(-id,my-D); else if(id>0){ int mx=want; if(q.maxp>0) mx=std::min(mx,q.maxp-my); my+=std::min(id,mx); } }
        if(!o.done||(o.rc==DLB_SUCCESS)==(my!=q.my)) fin(my);
        // giving up when others interfere is allowed
        if(my!=q.my&&(!o.done||o.rc==DLB_NOUPDT)){ bool c=false; for(auto* x:ops) if(x!=&o&&x->app!=a&&x->s<o.e&&(!x->done||x->e>o.s)) c=true; if(c) fin(q.my); } return; }
      default: fin(q.my); return; } }
  std::string str(const St& s){ std::string r; for(size_t i=0;i<d.size();i++) if(s.p[i].reg) r+=std::string(" ")+char('A'+i)+"="+std::to_string(s.p[i].my)+"/"+std::to_string(d[i])+(s.p[i].en?"":" disabled"); return r+" idle="+std::to_string(idle(s)); }
};
}
SCENARIO(classic){
  World w(run); Rng& g=w.rng; if(run.cfg.pstall>0) run.cfg.stall_ns=std::min<u64>(run.cfg.stall_ns,100000);
  int n=g.range(2,8), na=g.range(2,std::min(n,5)); w.ncpu=w.ncore=n; w.nnode=1; w.tpc=1; run.nontrivial=true;
  CM M; M.n=n; std::vector<int> d(na,1); for(int k=na;k<n;k++) if(g.chance(0.85)) d[g.below(na)]++; M.d=d; double pg=g.chance(0.4)?0:g.unit();
  for(int i=0;i<na;i++){ bool gr=g.chance(pg), kp=g.chance(0.4); M.greedy.push_back(gr); M.keep.push_back(kp); App* a=w.add_app(std::string(1,'A'+i),Mask(),std::string("--lewi --lewi-barrier=no --drom=no --talp=no ")+(gr?"--lewi-greedy ":"")+(kp?"--lewi-keep-one-cpu ":"")+(g.chance(0.3)?"--barrier=no ":"")); a->ncpus=d[i]; w.launch(a); }
  std::vector<std::unique_ptr<CR>> H; std::vector<char> blk(na,0),up(na,0),en(na,1);
  auto post=[&](int ai,int k,int nn=0,bool fixed=false){ App* a=w.apps[ai]; Api* A=a->a; Op* o; CR* r=new CR; H.emplace_back(r); r->k=k; r->app=ai; r->n=nn; 
    auto body=[&,A,a,ai,k,nn,r]{ int rc=0; r->s=++w.seq; syncflags f{true,true,true,false,true}; Mask all=Mask::range(0,n); CUR->affinity=all.s;
      switch(k){ case K_INIT: { A->mu_testing_set_sys(n,n,1); rc=A->DLB_Init(a->ncpus,nullptr,("--shm-key=k "+a->args).c_str()); if(rc>=0){ w.set_callbacks(a); a->nthreads=a->ncpus; up[ai]=1; a->up=true; } else fail("C10","init","DLB_Init of %s = %s",a->name.c_str(),rcs(rc)); break; }
        case K_FIN: rc=A->DLB_Finalize(); up[ai]=0; a->up=false; break; case K_LEND: rc=A->DLB_Lend(); break; case K_RECLAIM: rc=A->DLB_Reclaim(); break; case K_BORROW: rc=A->DLB_Borrow(); break; case K_BORN: rc=A->DLB_BorrowCpus(nn); break;
        case K_IN: ((void(*)(syncflags))A->sym("into_sync_call"))(f); break; case K_OUT: ((void(*)(syncflags))A->sym("out_of_sync_call"))(f); break;
        case K_DIS: rc=A->DLB_Disable(); break; case K_EN: rc=A->DLB_Enable(); break; case K_MAX: rc=A->DLB_SetMaxParallelism(nn); break; case K_UNMAX: rc=A->DLB_UnsetMaxParallelism(); break;
        case K_NOP: switch(nn){ case 0: rc=A->DLB_LendCpus(1); break; case 1: rc=A->DLB_AcquireCpus(1); break; case 2: rc=A->DLB_ReclaimCpus(1); break; case 3: rc=A->DLB_LendCpu(0); break; case 4: rc=A->DLB_Return(); break; case 5: rc=A->DLB_BorrowCpu(0); break; case 6: rc=A->DLB_AcquireCpu(0); break; default: rc=A->DLB_CheckCpuAvailability(0); } break; }
      r->rc=rc; r->thr=a->nthreads; r->e=++w.seq; r->done=true; logf("%s %s(%d) = %s threads %d",a->name.c_str(),KN[k],nn,rcs(rc),r->thr); return rc; };
    std::string ds=std::string(KN[k])+"("+std::to_string(nn)+")"; if(fixed) o=w.custom(a,ds,body); else { o=w.mk(a,O_CUSTOM); o->desc=ds; o->fn=body; } w.post(a->th[0],o); if(o->skip) r->s=r->e=0; return r; };
  auto settle=[&]{ if(w.settle()) return true; fail("C10","stuck","calls do not finish: %s",w.stuck().c_str()); return false; };
  for(int i=0;i<na;i++) if(g.chance(0.8)){ post(i,K_INIT,0,true); en[i]=1; } if(!settle()) return;
  int rounds=g.range(1,4);
  for(int ph=0;ph<rounds&&run.viol.empty();ph++){
    bool serial=ph==0&&g.chance(0.3); int k=g.range(3,10)*na; double pf=g.chance(0.3)?0.06:0; std::vector<char> u(up.begin(),up.end());
    for(int j=0;j<k;j++){ int i=g.below(na); int c=g.below(100), kk; int nn=0; 
      if(!u[i]){ if(g.chance(0.3)){ post(i,K_INIT,0,true); u[i]=1; blk[i]=0; } continue; }
      if(blk[i]){ kk=K_OUT; blk[i]=0; } else if(g.chance(pf)){ kk=K_FIN; u[i]=0; post(i,kk,0,true); if(serial) if(!settle()) return; continue; }
      else if(c<20) kk=K_LEND; else if(c<38) kk=K_RECLAIM; else if(c<60) kk=K_BORROW; else if(c<72){ kk=K_BORN; nn=g.range(-1,n); } else if(c<84){ kk=K_IN; blk[i]=1; } else if(c<87) kk=K_DIS; else if(c<91) kk=K_EN; else if(c<94){ kk=K_MAX; nn=g.range(0,n); } else if(c<97) kk=K_UNMAX; else { kk=K_NOP; nn=g.below(8); }
      // what opens and closes a blocking call stays together when a run is minimised
      post(i,kk,nn,kk==K_IN||kk==K_OUT); if(g.chance(0.1)){ Op* z=w.mk(w.apps[i],O_SLEEP); z->ns=1+g.below(20000); w.post(w.apps[i]->th[0],z); } if(serial) if(!settle()) return; }
    if(!settle()) return; 
  }
  // ---- everybody asks for its CPUs and adapts: exactly the registered number each
  for(int i=0;i<na;i++) if(up[i]){ if(blk[i]) post(i,K_OUT,0,true); blk[i]=0; post(i,K_EN,0,true); post(i,K_UNMAX,0,true); } if(!settle()) return;
  std::vector<CR*> last(na,nullptr); std::vector<char> fr; for(int r=0;r<2;r++) for(int i=0;i<na;i++) if(up[i]&&!M.greedy[i]){ post(i,K_RECLAIM,0,true); if(!settle()) return; }
  bool anyg=false; for(int i=0;i<na;i++) if(up[i]&&M.greedy[i]) anyg=true;
  if(!anyg&&run.viol.empty()){ for(int r=0;r<2;r++) for(int i=0;i<na;i++) if(up[i]){ last[i]=post(i,K_RECLAIM,0,true); if(!settle()) return; } 
    for(int i=0;i<na;i++) if(up[i]&&last[i]->thr!=d[i]) fail("C10","not-recovered","after everybody reclaimed, %s has %d CPUs instead of %d",w.apps[i]->name.c_str(),last[i]->thr,d[i]);
    std::vector<int> U; for(int i=0;i<na;i++) if(up[i]) U.push_back(i);
    if(U.size()>=2){ int x=U[g.below(U.size())], y=U[g.below(U.size())]; if(x!=y){ post(x,K_LEND,0,true); if(!settle()) return; CR* b=post(y,K_BORROW,0,true); if(!settle()) return; if(b->thr!=d[y]+d[x]-1) fail("C10","vanished","%s lent %d CPUs and only %d of them can be borrowed",w.apps[x]->name.c_str(),d[x]-1,b->thr-d[y]); else if(d[x]>1) probe("lent_and_borrowed");
      if(g.chance(0.5)){ post(x,K_FIN,0,true); if(!settle()) return; CR* c=post(y,K_BORROW,0,true); if(!settle()) return; if(c->thr!=d[y]) fail("C10","not-returned","%s finalized but %s keeps %d CPUs (registered with %d)",w.apps[x]->name.c_str(),w.apps[y]->name.c_str(),c->thr,d[y]); } } } }
  for(int i=0;i<na;i++) if(up[i]) post(i,K_FIN,0,true); if(!settle()) return;
  for(Seg* s:SEGS) if(s->linked) fail("C10","left-over","%s still exists after everybody finalized",s->name.c_str());
  // ---- the history
  std::vector<std::unique_ptr<CR>> H2; for(auto& r:H) if(r->s) H2.push_back(std::move(r)); Lin<CM> L(M); for(auto& r:H2){ M.ops.push_back(r.get()); L.iv.push_back({r->s,r->done?r->e:~0ULL,r->done}); } CM::St s0; s0.p.resize(na);
  bool ok=L.run(s0,[](const CM::St&){ return true; }); if(L.gaveup) probe("lin_gaveup"); int bor=0; for(auto& r:H2) if((r->k==K_BORROW||r->k==K_BORN)&&r->rc==0) bor++; probe("borrows",bor);
  if(!ok){ std::string fr,cls="unexplained"; u64 best=~0ULL; for(int i:L.frontier) if(i>=0){ CR* o=M.ops[i]; fr+=std::string(1,'A'+o->app)+" "+KN[o->k]+"("+std::to_string(o->n)+") = "+rcs(o->rc)+" with "+std::to_string(o->thr)+" CPUs; "; if(o->done&&o->e<best){ best=o->e; cls=std::string("unexplained-")+KN[o->k]; } }
    fail("C10",cls,"no order of the calls explains: %sin state%s",fr.c_str(),M.str(L.best_state).c_str()); }
  for(App* a:w.apps) if(!a->dead) kill_proc(a->p,X_NORMAL);
}
