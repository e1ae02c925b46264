// Classic LeWI in asynchronous mode (numbers of CPUs, helper threads): the history of calls and of the updates applied by the
// helper threads must be explained by one table of processes, idle CPUs and requests (C11).
#include "world.h"
#include "lin.h"
#include <memory>
namespace {
enum { K_INIT,K_FIN,K_LEND,K_LENDN,K_RECLAIM,K_ACQ,K_BORROW,K_BORN,K_IN,K_OUT,K_DIS,K_EN,K_NOP }; const char* KN[]={"Init","Finalize","Lend","LendCpus","Reclaim","AcquireCpus","Borrow","BorrowCpus","IntoBlockingCall","OutOfBlockingCall","Disable","Enable","unsupported"};
struct CR { int k,app,n; u64 s=0,e=0; bool done=false; int rc=0; int thr=-1; };
struct Bits { u64 b[2]={0,0}; bool has(int i)const{ return b[i>>6]>>(i&63)&1; } void set(int i){ b[i>>6]|=1ULL<<(i&63); } };
struct AM { int n; std::vector<int> d; std::vector<char> keep; std::vector<CR*> ops; std::vector<std::vector<Cb>> msg;
  struct St { struct P { int my=0; long req=0,prev=0; bool reg=false,en=true; Bits used; }; std::vector<P> p; u64 hash()const{ u64 x=0; for(auto& q:p) x=mix2(mix2(x,(u64)(q.my+100)*4+q.reg*2+q.en),mix2(mix2(q.req,q.prev),mix2(q.used.b[0],q.used.b[1]))); return x; } };
  struct Loc { int pc=0; u64 hash()const{ return pc+5; } };
  static const long BIG=1000000; static long cap(long x){ return std::min(x,2*BIG); }
  int clampn(int v){ return std::max(1,std::min(v,n)); }
  int idle(const St& s){ int t=0; for(size_t i=0;i<d.size();i++) if(s.p[i].reg) t+=d[i]-s.p[i].my; return t; }
  // the target of an update is leaving: the message may come too late
  bool leaving(const CR& o,int t){ for(auto* x:ops) if(x->app==t&&x->k==K_FIN&&(!o.done||x->s<o.e)&&(!x->done||x->e>o.s)) return true; return false; }
  void deliver(const CR& o,const St& s,int t,std::function<void(const St&)> next){ int v=clampn(s.p[t].my); auto& m=msg[t]; bool any=false; u64 lastseq=0; (void)lastseq;
    for(size_t i=0;i<m.size();i++) if(m[i].n==v&&m[i].seq>o.s&&!s.p[t].used.has(i)){ St z=s; z.p[t].used.set(i); any=true; next(z); break; }
    if(!any?leaving(o,t)||!o.done:leaving(o,t)) next(s); }
  // hand k CPUs to those who asked
  void give(const CR& o,const St& s,int a,int k,size_t j,std::function<void(const St&)> next){ if(j==d.size()||!k){ long want=0; for(size_t i=j;i<d.size();i++) if((int)i!=a&&s.p[i].reg) want+=s.p[i].req; if(k&&want) return; next(s); return; }
    if((int)j==a||!s.p[j].reg||!s.p[j].req){ give(o,s,a,k,j+1,next); return; } long rest=0; for(size_t i=j+1;i<d.size();i++) if((int)i!=a&&s.p[i].reg) rest+=s.p[i].req;
    for(int q=(int)std::min<long>(k,s.p[j].req);q>=0&&rest>=std::min<long>(k-q,rest+s.p[j].req-q);q--){ if(k-q>rest&&q<std::min<long>(k,s.p[j].req)) break; St z=s; z.p[j].my+=q; z.p[j].req-=q; if(q) deliver(o,z,j,[&](const St& y){ give(o,y,a,k-q,j+1,next); }); else give(o,z,a,k,j+1,next); } }
  // take k CPUs from those who have more than theirs
  void take(const CR& o,const St& s,int a,int k,size_t j,std::function<void(const St&)> next){ if(!k){ next(s); return; } if(j==d.size()) return; int sp=(int)j!=a&&s.p[j].reg?std::max(0,s.p[j].my-d[j]):0; 
    for(int q=std::min(k,sp);q>=0;q--){ St z=s; z.p[j].my-=q; z.p[j].req=cap(z.p[j].req+q); if(q) deliver(o,z,j,[&](const St& y){ take(o,y,a,k-q,j+1,next); }); else take(o,z,a,k,j+1,next); } }
  void home(const CR& o,const St& s0,int a,std::function<void(const St&)> next){ St s=s0; auto& q=s.p[a]; int df=d[a]-q.my; if(df<0){ int k=-df; q.my=d[a]; give(o,s,a,k,0,next); } else if(df>0){ int b=std::min(df,idle(s)); q.my+=b; take(o,s,a,df-b,0,[&](const St& y){ St z=y; z.p[a].my+=df-b; next(z); }); } else next(s); }
  template<class F> void succ(const St& s0,const Loc&,int i,F emit){ const CR& o=*ops[i]; int a=o.app, D=d[a]; const St::P& q=s0.p[a];
    auto fin=[&](const St& s){ if(o.done&&o.k!=K_FIN&&o.k!=K_INIT){ if(o.thr>=0?o.thr!=clampn(s.p[a].my):clampn(s.p[a].my)!=clampn(q.my)) return; } Loc x; x.pc=-1; emit(s,x); };
    auto rc=[&](int r){ return !o.done||o.rc==r; }; auto same=[&]{ fin(s0); };
    if(o.k==K_INIT){ St s=s0; auto& p=s.p[a]; p.my=D; p.reg=true; p.en=true; p.req=p.prev=0; fin(s); return; }
    if(!q.reg){ same(); return; }
    if(o.k==K_FIN){ St s=s0; s.p[a].req=0; home(o,s,a,[&](const St& y){ St z=y; z.p[a].reg=false; z.p[a].my=0; fin(z); }); return; }
    if(o.k==K_EN){ if(q.en){ same(); return; } St s=s0; s.p[a].en=true; if(q.prev){ long k=q.prev; s.p[a].prev=0; acquire(o,s,a,k,[&](const St& y,int){ fin(y); }); } else fin(s); return; }
    if(o.k==K_DIS){ if(!q.en){ same(); return; } St s=s0; auto& p=s.p[a]; p.en=false; long pr=p.req+std::max(0,p.my-D); p.req=0; if(pr) p.prev=cap(pr); home(o,s,a,[&](const St& y){ fin(y); }); return; }
    if(!q.en){ if(o.done&&o.rc>=0&&o.k!=K_NOP&&o.k!=K_IN&&o.k!=K_OUT) return; same(); return; }
    auto lend=[&](int k,int keepn){ if(keepn>=0){ if(keepn>q.my){ if(rc(DLB_ERR_PERM)||o.k==K_IN) same(); return; } if(keepn==q.my){ if(rc(DLB_NOUPDT)||o.k==K_IN) same(); return; } k=q.my-keepn; } if(!rc(0)) return; St s=s0; auto& p=s.p[a]; long pr=p.req+std::min(std::max(0,p.my-D),k); p.req=0; if(pr) p.prev=cap(pr); p.my-=k; give(o,s,a,k,0,[&](const St& y){ fin(y); }); };
    switch(o.k){
      case K_LEND: lend(0,1); return; case K_IN: lend(0,keep[a]?1:0); return; case K_LENDN: if(o.n<=0||o.n>q.my){ if(!o.done||o.rc!=0) same(); return; } lend(o.n,-1); return;
      case K_RECLAIM: case K_OUT: { if(q.my>=D){ if(rc(DLB_NOUPDT)||o.k==K_OUT) same(); return; } if(o.k!=K_OUT&&!rc(0)) return; home(o,s0,a,[&](const St& y){ St z=y; auto& p=z.p[a]; long b=std::min<long>(p.prev,idle(z)); if(p.prev){ p.my+=b; p.prev-=b; p.req=cap(p.req+p.prev); p.prev=0; } fin(z); }); return; }
      case K_ACQ: { if(o.n==0){ if(!rc(0)) return; St s=s0; s.p[a].req=s.p[a].prev=0; fin(s); return; } if(o.n<0){ if(!o.done||o.rc!=0) same(); return; } St s=s0; long k=(o.n>=0x7fff?BIG:o.n)+s.p[a].prev; s.p[a].prev=0; acquire(o,s,a,k,[&](const St& y,int r){ if(rc(r)) fin(y); }); return; }
      case K_BORROW: case K_BORN: { int want=o.k==K_BORROW?1000:o.n, b=std::min(idle(s0),want); if(b<=0){ if(rc(DLB_NOUPDT)) same(); return; } if(!rc(0)) return; St s=s0; s.p[a].my+=b; fin(s); return; }
      default: same(); return; } }
  void acquire(const CR& o,const St& s0,int a,long k,std::function<void(const St&,int)> next){ St s=s0; int b=(int)std::min<long>(idle(s),k); s.p[a].my+=b; k-=b; int t=(int)std::min<long>(k,std::max(0,d[a]-s.p[a].my)); take(o,s,a,t,0,[&](const St& y){ St z=y; z.p[a].my+=t; long r=k-t; if(r) z.p[a].req=cap(z.p[a].req+r); next(z,r?DLB_NOTED:DLB_SUCCESS); }); }
  std::string str(const St& s){ std::string r; for(size_t i=0;i<d.size();i++) if(s.p[i].reg) r+=std::string(" ")+char('A'+i)+"="+std::to_string(s.p[i].my)+"/"+std::to_string(d[i])+(s.p[i].req?" asks "+std::to_string(s.p[i].req):"")+(s.p[i].en?"":" disabled"); r+=" idle="+std::to_string(idle(s)); for(size_t i=0;i<d.size();i++){ for(size_t k=0;k<msg[i].size();k++) if(!s.p[i].used.has(k)) r+=std::string(" [")+char('A'+i)+" told "+std::to_string(msg[i][k].n)+"]"; } return r; }
};
}
SCENARIO(lewiasync){
  World w(run); Rng& g=w.rng; if(run.cfg.pstall>0) run.cfg.stall_ns=std::min<u64>(run.cfg.stall_ns,3000000);
  int n=g.range(2,8), na=g.range(2,std::min(n,4)); w.ncpu=w.ncore=n; w.nnode=1; w.tpc=1; run.nontrivial=true; w.slow_cb=g.chance(0.3);
  AM M; M.n=n; std::vector<int> d(na,1); for(int k=na;k<n;k++) if(g.chance(0.85)) d[g.below(na)]++; M.d=d;
  for(int i=0;i<na;i++){ bool kp=g.chance(0.4); M.keep.push_back(kp); App* a=w.add_app(std::string(1,'A'+i),Mask(),std::string("--lewi --mode=async --lewi-barrier=no --drom=no --talp=no ")+(kp?"--lewi-keep-one-cpu ":"")+(g.chance(0.3)?"--barrier=no ":"")); a->ncpus=d[i]; w.launch(a); }
  std::vector<std::unique_ptr<CR>> H; std::vector<char> blk(na,0),up(na,0);
  auto post=[&](int ai,int k,int nn=0,bool fixed=false){ App* a=w.apps[ai]; Api* A=a->a; Op* o; CR* r=new CR; H.emplace_back(r); r->k=k; r->app=ai; r->n=nn; 
    auto body=[&,A,a,ai,k,nn,r]{ int rc=0; r->s=++w.seq; syncflags f{true,true,true,false,true}; Mask all=Mask::range(0,n); CUR->affinity=all.s; Op* me=a->th[0]->cur;
      switch(k){ case K_INIT: { A->mu_testing_set_sys(n,n,1); rc=A->DLB_Init(a->ncpus,nullptr,("--shm-key=k "+a->args).c_str()); if(rc>=0){ w.set_callbacks(a); up[ai]=1; a->up=true; } else fail("C11","init","DLB_Init of %s = %s",a->name.c_str(),rcs(rc)); break; }
        case K_FIN: rc=A->DLB_Finalize(); up[ai]=0; a->up=false; break; case K_LEND: rc=A->DLB_Lend(); break; case K_LENDN: rc=A->DLB_LendCpus(nn); break; case K_RECLAIM: rc=A->DLB_Reclaim(); break; case K_ACQ: rc=A->DLB_AcquireCpus(nn); break; case K_BORROW: rc=A->DLB_Borrow(); break; case K_BORN: rc=A->DLB_BorrowCpus(nn); break;
        case K_IN: ((void(*)(syncflags))A->sym("into_sync_call"))(f); break; case K_OUT: ((void(*)(syncflags))A->sym("out_of_sync_call"))(f); break;
        case K_DIS: rc=A->DLB_Disable(); break; case K_EN: rc=A->DLB_Enable(); break;
        case K_NOP: switch(nn){ case 0: rc=A->DLB_SetMaxParallelism(1); break; case 1: rc=A->DLB_UnsetMaxParallelism(); break; case 2: rc=A->DLB_ReclaimCpus(1); break; case 3: rc=A->DLB_LendCpu(0); break; case 4: rc=A->DLB_Return(); break; case 5: rc=A->DLB_BorrowCpu(0); break; case 6: rc=A->DLB_AcquireCpu(0); break; default: rc=A->DLB_CheckCpuAvailability(0); } break; }
      r->rc=rc; for(Cb& c:me->cbs) if(c.kind=='t') r->thr=c.n; r->e=++w.seq; r->done=true; logf("%s %s(%d) = %s%s",a->name.c_str(),KN[k],nn,rcs(rc),r->thr>=0?(" threads "+std::to_string(r->thr)).c_str():""); return rc; };
    std::string ds=std::string(KN[k])+"("+std::to_string(nn)+")"; if(fixed) o=w.custom(a,ds,body); else { o=w.mk(a,O_CUSTOM); o->desc=ds; o->fn=body; } w.post(a->th[0],o); return r; };
  auto settle=[&]{ if(w.settle()) return true; fail("C11","stuck","calls do not finish: %s",w.stuck().c_str()); return false; };
  for(int i=0;i<na;i++) if(g.chance(0.85)) post(i,K_INIT,0,true); if(!settle()) return;
  int rounds=g.range(1,3);
  for(int ph=0;ph<rounds&&run.viol.empty();ph++){
    bool serial=g.chance(0.3); int k=g.range(2,serial?9:6)*na; double pf=g.chance(0.3)?0.06:0; std::vector<char> u(up.begin(),up.end());
    for(int j=0;j<k;j++){ int i=g.below(na); int c=g.below(100), kk; int nn=0; 
      if(!u[i]){ if(g.chance(0.3)){ post(i,K_INIT,0,true); u[i]=1; blk[i]=0; } continue; }
      if(blk[i]){ kk=K_OUT; blk[i]=0; } else if(g.chance(pf)){ kk=K_FIN; u[i]=0; post(i,kk,0,true); if(serial) if(!settle()) return; continue; }
      else if(c<14) kk=K_LEND; else if(c<26){ kk=K_LENDN; nn=g.range(-1,d[i]+1); } else if(c<42) kk=K_RECLAIM; else if(c<60){ kk=K_ACQ; nn=g.chance(0.15)?0:g.chance(0.15)?DLB_MAX_CPUS:g.range(-1,n); } else if(c<68) kk=K_BORROW; else if(c<78){ kk=K_BORN; nn=g.range(-1,n); } else if(c<88){ kk=K_IN; blk[i]=1; } else if(c<92) kk=K_DIS; else if(c<97) kk=K_EN; else { kk=K_NOP; nn=g.below(8); }
      post(i,kk,nn,kk==K_IN||kk==K_OUT); if(g.chance(0.1)){ Op* z=w.mk(w.apps[i],O_SLEEP); z->ns=1+g.below(20000); w.post(w.apps[i]->th[0],z); } if(serial) if(!settle()) return; }
    if(!settle()) return; 
  }
  // ---- everybody withdraws its requests and asks for its CPUs: exactly the registered number each, none idle, none lost
  for(int i=0;i<na;i++) if(up[i]){ if(blk[i]) post(i,K_OUT,0,true); blk[i]=0; post(i,K_EN,0,true); } if(!settle()) return; for(int i=0;i<na;i++) if(up[i]) post(i,K_ACQ,0,true); if(!settle()) return;
  for(int r=0;r<2;r++) for(int i=0;i<na;i++) if(up[i]){ post(i,K_RECLAIM,0,true); if(!settle()) return; post(i,K_ACQ,0,true); if(!settle()) return; }
  for(int i=0;i<na;i++) if(up[i]&&run.viol.empty()){ CR* a=post(i,K_LENDN,d[i]+1,true); if(!settle()) return; if(a->rc==0) fail("C11","extra","%s has more than its %d CPUs after everybody reclaimed",w.apps[i]->name.c_str(),d[i]); CR* b=post(i,K_LENDN,d[i],true); if(!settle()) return; if(b->rc!=0) fail("C11","not-recovered","%s does not have its %d CPUs after everybody reclaimed",w.apps[i]->name.c_str(),d[i]); 
      std::vector<int> U; for(int x=0;x<na;x++) if(up[x]&&x!=i) U.push_back(x); if(!U.empty()){ int y=U[g.below(U.size())]; CR* c=post(y,K_BORROW,0,true); if(!settle()) return; if(c->thr!=std::min(n,d[y]+d[i])) fail("C11","vanished","%s lent its %d CPUs; %s, with %d, borrows and has %d",w.apps[i]->name.c_str(),d[i],w.apps[y]->name.c_str(),d[y],c->thr); else probe("lent_and_borrowed"); }
      if(g.chance(0.2)){ post(i,K_FIN,0,true); if(!settle()) return; break; } post(i,K_RECLAIM,0,true); if(!settle()) return; post(i,K_ACQ,0,true); if(!U.empty()) for(int y:U) post(y,K_ACQ,0,true); if(!settle()) return; }
  for(int i=0;i<na;i++) if(up[i]) post(i,K_FIN,0,true); if(!settle()) return;
  for(Seg* s:SEGS) if(s->linked) fail("C11","left-over","%s still exists after everybody finalized",s->name.c_str());
  // ---- the history
  std::vector<std::unique_ptr<CR>> H2; for(auto& r:H) if(r->s) H2.push_back(std::move(r)); for(App* a:w.apps){ M.msg.emplace_back(); for(Cb& c:a->hcbs) if(c.kind=='t') M.msg.back().push_back(c); if(M.msg.back().size()>128) return; probe("updates",M.msg.back().size()); }
  Lin<AM> L(M); for(auto& r:H2){ M.ops.push_back(r.get()); L.iv.push_back({r->s,r->done?r->e:~0ULL,r->done}); } AM::St s0; s0.p.resize(na);
  bool ok=L.run(s0,[&](const AM::St& s){ for(int i=0;i<na;i++) for(size_t k=0;k<M.msg[i].size();k++) if(!s.p[i].used.has(k)) return false; return true; }); if(L.gaveup) probe("lin_gaveup");
  if(!ok){ std::string fr,cls="unexplained"; u64 best=~0ULL; for(int i:L.frontier) if(i>=0){ CR* o=M.ops[i]; fr+=std::string(1,'A'+o->app)+" "+KN[o->k]+"("+std::to_string(o->n)+") = "+rcs(o->rc)+(o->thr>=0?" with "+std::to_string(o->thr)+" CPUs":"")+"; "; if(o->done&&o->e<best){ best=o->e; cls=std::string("unexplained-")+KN[o->k]; } }
    fail("C11",cls,"no order of the calls explains: %sin state%s",fr.c_str(),M.str(L.best_state).c_str()); }
  for(App* a:w.apps) if(!a->dead) kill_proc(a->p,X_NORMAL);
}
