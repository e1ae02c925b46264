// Node barriers: teams of processes run rounds on several (named) barriers while others attach, detach, register, initialize and finalize.
// Every call is recorded; a sequential model of membership and rounds must explain the whole history (see lin.h).
#include "world.h"
#include "lin.h"
#include <memory>
namespace {
enum { B_BAR,B_REG,B_ATT,B_DET,B_INIT,B_FIN }; const char* BN[]={"barrier","register","attach","detach","init","finalize"};
struct BR { int k,app,b; u64 s=0,e=0; bool done=false; int rc=0; bool null=false; };
struct BM { int n,nb; std::vector<BR*> ops;
  struct St { struct B { u32 parts=0,arr=0,leave=0; bool ex=false; }; std::vector<B> b; u64 hash()const{ u64 x=0; for(auto& q:b) x=mix2(x,mix2(q.parts*4+q.ex,mix2(q.arr,q.leave))); return x; } };
  struct Loc { int pc=0; u64 hash()const{ return pc+5; } };
  int live(const St& s){ int c=0; for(auto& q:s.b) c+=q.ex; return c; }
  template<class F> void succ(const St& s0,const Loc& l,int i,F emit){ const BR& d=*ops[i]; u32 me=1u<<d.app; const St::B& b=s0.b[d.b]; bool idle=!b.arr&&!b.leave;
    auto fin=[&](const St& s,int rc,bool null=false){ if(d.done&&(d.rc!=rc||d.null!=null)) return; Loc x; x.pc=-1; emit(s,x); };
    switch(d.k){
      case B_BAR: if(!(b.parts&me)){ fin(s0,DLB_NOUPDT); return; }
        if(l.pc==0){ if((b.arr|b.leave)&me) return; St s=s0; auto& q=s.b[d.b]; q.arr|=me; if(q.arr==q.parts){ q.leave|=q.arr; q.arr=0; } Loc x; x.pc=1; emit(s,x); return; }
        if(!(b.leave&me)) return; { St s=s0; s.b[d.b].leave&=~me; fin(s,0); } return;
      case B_REG: case B_INIT: if(b.parts&me){ if(d.k==B_REG) fin(s0,0); return; } if(!b.ex&&live(s0)>=n){ fin(s0,0,d.k==B_REG); return; } if(!idle) return; { St s=s0; s.b[d.b].ex=true; s.b[d.b].parts|=me; fin(s,0); } return;
      case B_ATT: if(b.parts&me){ fin(s0,DLB_ERR_PERM); return; } if(d.b==0){ if(!b.ex&&live(s0)>=n){ fin(s0,DLB_ERR_NOMEM); return; } if(!idle) return; St s=s0; s.b[0].ex=true; s.b[0].parts|=me; fin(s,__builtin_popcount(s.b[0].parts)); return; }
        if(!b.ex){ fin(s0,DLB_ERR_PERM); return; } if(!idle) return; { St s=s0; s.b[d.b].parts|=me; fin(s,__builtin_popcount(s.b[d.b].parts)); } return;
      case B_DET: if(!(b.parts&me)){ fin(s0,DLB_ERR_PERM); return; } if(!idle) return; { St s=s0; auto& q=s.b[d.b]; q.parts&=~me; if(!q.parts) q.ex=false; fin(s,__builtin_popcount(q.parts)); } return;
      case B_FIN: { bool any=false; for(int j=0;j<nb;j++) if(s0.b[j].parts&me){ any=true; if(s0.b[j].arr||s0.b[j].leave) continue; St s=s0; auto& q=s.b[j]; q.parts&=~me; if(!q.parts) q.ex=false; Loc x; x.pc=l.pc+1; emit(s,x); } if(!any) fin(s0,0); return; } } }
  std::string str(const St& s){ std::string r; for(int j=0;j<nb;j++) if(s.b[j].ex){ auto f=[&](u32 m){ std::string t; for(int i=0;i<16;i++) if(m>>i&1) t+=char('A'+i); return t.empty()?std::string("-"):t; }; r+=" b"+std::to_string(j)+"[members "+f(s.b[j].parts)+" arrived "+f(s.b[j].arr)+" leaving "+f(s.b[j].leave)+"]"; } return r; }
};
struct Ctx { std::vector<std::unique_ptr<BR>> h; std::vector<u32> mem; /* members as the harness knows them */ std::vector<std::vector<dlb_barrier_t*>> ptr; std::vector<std::vector<int>> pgen; std::vector<int> gen; std::vector<std::string> name;
  // progress of the leader in the running segment of each barrier
  std::vector<int> lstart,lend,K; };
}
SCENARIO(barrier){
  World w(run); Rng& g=w.rng; const std::string& P=run.prop; if(run.cfg.pstall>0) run.cfg.stall_ns=std::min<u64>(run.cfg.stall_ns,100000);
  int na=g.range(2,5), n=std::max(na,g.range(3,8)); w.ncpu=w.ncore=n; w.nnode=1; w.tpc=1; Ctx C; bool lewi=g.chance(0.5); int nb=1+g.range(0,std::min(3,n-1)); bool lbar=lewi&&g.chance(0.6); bool many=g.chance(0.08); if(many) nb=n+1;
  C.mem.assign(nb,0); C.lstart.assign(nb,0); C.lend.assign(nb,0); C.K.assign(nb,0); C.ptr.assign(8,std::vector<dlb_barrier_t*>(nb,nullptr)); C.pgen.assign(8,std::vector<int>(nb,-1)); C.gen.assign(nb,0); std::vector<int> fl(nb); for(int j=0;j<nb;j++){ C.name.push_back(j?std::string(g.chance(0.1)?"a rather long name for a barrier ":"bar")+char('0'+j):"default"); fl[j]=g.below(3); static const int F[]={DLB_BARRIER_LEWI_ON,DLB_BARRIER_LEWI_OFF,DLB_BARRIER_LEWI_RUNTIME}; fl[j]=F[fl[j]]; if(C.name.back().size()>30) C.name.back()=std::string("n")+char('0'+j)+" a rather long name"; }
  // names of which one is the beginning of another are different names
  if(nb>1&&nb<9&&g.chance(0.3)){ std::string base=g.chance(0.5)?"default":"bar"; for(int j=1;j<nb;j++) C.name[j]=base+std::string(j,'x'); for(int j=nb-1;j>1;j--) std::swap(C.name[j],C.name[1+g.below(j)]); }
  std::vector<App*> as; bool lewi_all=lewi; for(int i=0;i<na;i++){ Mask m; for(int c=i*n/na;c<(i+1)*n/na;c++) m.add(c); std::string args=std::string("--drom=no ")+(lewi?"--lewi ":"--lewi=no ")+(lbar?"--lewi-barrier ":"--lewi-barrier=no "); if(!lewi) args+="--drom "; App* a=w.add_app(std::string(1,'A'+i),m,args); as.push_back(a); w.launch(a); }
  auto call=[&](int k,int ai,int b,std::function<int(BR*)> f)->int{ C.h.push_back(std::make_unique<BR>()); BR* r=C.h.back().get(); r->k=k; r->app=ai; r->b=b; r->s=++w.seq; logf("bar %c %s %s",'A'+ai,BN[k],k==B_FIN?"":C.name[b].c_str()); r->rc=f(r); r->e=++w.seq; r->done=true; logf("bar %c %s = %s",'A'+ai,BN[k],rcs(r->rc)); return r->rc; };
  auto dBar=[&](int ai,int b){ Api* A=as[ai]->a; CUR->affinity=as[ai]->own.s; int rc=call(B_BAR,ai,b,[&](BR*){ return b?A->DLB_BarrierNamed(C.ptr[ai][b]):A->DLB_Barrier(); }); return rc; };
  auto dReg=[&](int ai,int b){ Api* A=as[ai]->a; return call(B_REG,ai,b,[&](BR* r){ dlb_barrier_t* p=A->DLB_BarrierNamedRegister(C.name[b].c_str(),(dlb_barrier_flags_t)fl[b]); r->null=!p; if(p){ C.ptr[ai][b]=p; C.pgen[ai][b]=C.gen[b]; C.mem[b]|=1u<<ai; } return 0; }); };
  auto dAtt=[&](int ai,int b){ Api* A=as[ai]->a; return call(B_ATT,ai,b,[&](BR*){ int rc=b?A->DLB_BarrierNamedAttach(C.ptr[ai][b]):A->DLB_BarrierAttach(); if(rc>0) C.mem[b]|=1u<<ai; return rc; }); };
  auto dDet=[&](int ai,int b){ Api* A=as[ai]->a; return call(B_DET,ai,b,[&](BR*){ C.mem[b]&=~(1u<<ai); if(!C.mem[b]) C.gen[b]++; int rc=b?A->DLB_BarrierNamedDetach(C.ptr[ai][b]):A->DLB_BarrierDetach(); return rc; }); };
  auto dInit=[&](int ai){ App* a=as[ai]; Api* A=a->a; return call(B_INIT,ai,0,[&](BR*){ A->mu_testing_set_sys(n,n,1); int rc=A->DLB_Init(0,&a->own.s,("--shm-key=k "+a->args).c_str()); if(rc>=0){ a->up=true; C.mem[0]|=1u<<ai; for(int j=1;j<nb;j++) C.ptr[ai][j]=nullptr; } return rc; }); };
  auto dFin=[&](int ai){ App* a=as[ai]; Api* A=a->a; return call(B_FIN,ai,0,[&](BR*){ a->up=false; for(int j=0;j<nb;j++) if(C.mem[j]>>ai&1){ C.mem[j]&=~(1u<<ai); if(!C.mem[j]) C.gen[j]++; } return A->DLB_Finalize(); }); };
  auto nap=[&g](u64 r){ static const u64 t[]={0,0,500,5000,100000,3000000,20000000}; u64 x=t[r%7]; if(x) sim_sleep(1+mix(r)%x); (void)0; };
  auto prog=[&](int ai,std::function<void()> f){ Op* o=w.custom(as[ai],"program",[f]{ f(); return 0; }); w.post(as[ai]->th[0],o); };
  auto bad=[&](const char* when){ u32 inb=0; std::string st=w.stuck(); for(auto& r:C.h) if(!r->done){ inb|=1u<<r->k; st+=std::string(1,'A'+r->app)+" in "+BN[r->k]+" "+C.name[r->b]+"; "; } (void)inb; fail(P,"stuck","%s: calls do not finish: %s",when,st.c_str()); };
  run.nontrivial=true;
  // ---- start: everybody (or most) initialize concurrently
  for(int i=0;i<na;i++) if(i==0||g.chance(0.75)){ u64 z=g.next(); prog(i,[&,i,z]{ nap(z); dInit(i); }); }
  if(!w.settle()){ bad("initialization"); return; }
  int np=g.range(2,4);
  for(int ph=0;ph<np&&run.viol.empty();ph++){
    // registrations race with each other
    if(nb>1&&(ph==0||g.chance(0.4))){ for(int i=0;i<na;i++) if(as[i]->up){ std::vector<int> L; for(int j=1;j<nb;j++) if(g.chance(many?0.9:0.6)) L.push_back(j); for(size_t k=L.size();k>1;k--) std::swap(L[k-1],L[g.below(k)]); u64 z=g.next(); prog(i,[&,i,L,z]{ u64 y=z; for(int b:L){ nap(y=mix(y)); dReg(i,b); if(y%5==0) dReg(i,b); } }); } if(!w.settle()){ bad("registration"); return; } }
    // the segments of this phase, the same order for everybody; the leader of a segment is one of the members and stays till the end
    struct Seg { int b,K,lead; u32 mem,join,leave,det; bool leaveall; }; std::vector<Seg> segs; std::vector<int> L; for(int j=0;j<nb;j++) if(C.mem[j]&&(j==0||g.chance(0.7))) L.push_back(j); for(size_t k=L.size();k>1;k--) std::swap(L[k-1],L[g.below(k)]); if(L.size()>3) L.resize(3);
    double pj=P=="C19"?0.6:0.3, pl=P=="C19"?0.5:0.25; std::vector<u32> fin(1,0); u32 finish=0, starters=0; for(int i=0;i<na;i++){ if(as[i]->up&&g.chance(pl*0.4)) finish|=1u<<i; if(!as[i]->up&&g.chance(pj)) starters|=1u<<i; }
    if(__builtin_popcount(C.mem[0]&~finish)==0) finish=0;
    for(int b:L){ Seg s{b,P=="C18"?g.range(1,6):g.range(1,4),0,C.mem[b],0,0,0,false}; std::vector<int> m; for(int i=0;i<na;i++) if(C.mem[b]>>i&1) m.push_back(i); s.lead=m[g.below(m.size())]; for(int i=0;i<na;i++) if(i!=s.lead){ if((C.mem[b]>>i&1)){ if(g.chance(pl)) s.leave|=1u<<i; } else if(as[i]->up&&g.chance(pj)) s.join|=1u<<i; } C.lstart[b]=C.lend[b]=0; C.K[b]=s.K; segs.push_back(s); }
    // a process that initializes now joins the default barrier
    bool defseg=false; for(auto& s:segs) if(s.b==0){ defseg=true; s.join|=starters; }
    auto joiner=[&](int i,const Seg& s,u64 z,bool attached){ int b=s.b; if(!attached){ nap(z); if(b==0) dAtt(i,0); else if(C.ptr[i][b]&&C.pgen[i][b]==C.gen[b]&&z%2) dAtt(i,b); else dReg(i,b); } if(!(C.mem[b]>>i&1)) return; int did=0; if(C.lstart[b]<s.K){ if(mix(z)%3) sim_sleep(1+mix(z+1)%100000); if(C.lstart[b]<s.K){ dBar(i,b); did=1; } } (void)did; while(true){ sim_sleep(60000000); if(C.lend[b]>=s.K) break; dBar(i,b); } };
    for(int i=0;i<na;i++){ u64 z=g.next(); bool st=starters>>i&1, fi=finish>>i&1; if(!as[i]->up&&!st) continue;
      prog(i,[&,i,z,st,fi,segs,defseg,joiner]{ u64 y=z; if(st){ nap(y=mix(y)); dInit(i); if(!as[i]->up) return; }
        std::vector<std::pair<int,bool>> late; 
        for(const Seg& s:segs){ int b=s.b; u32 me=1u<<i; 
          if(i==s.lead){ for(int k=0;k<s.K;k++){ nap(y=mix(y)); C.lstart[b]++; dBar(i,b); C.lend[b]++; } }
          else if(s.mem&me){ for(int k=0;k<s.K;k++){ if(mix(y)%2) nap(y=mix(y)); dBar(i,b); } }
          else if(s.join&me){ if(C.lend[b]>=s.K&&!st&&y%2) continue; joiner(i,s,y=mix(y),st&&b==0); }
          else if(!(C.mem[b]>>i&1)&&mix(y+7)%4==0&&b==0&&as[i]->up) { dBar(i,0); }
          if((s.leave&me)&&(C.mem[b]>>i&1)&&!fi){ if(y%3==0) nap(y=mix(y)); dDet(i,b); if(y%4==0){ dBar(i,b); } if(y%7==0) dDet(i,b); } }
        if(fi){ if(y%2) nap(y=mix(y)); dFin(i); } (void)defseg; }); }
    if(!w.settle()){ bad("rounds"); return; } if(!run.viol.empty()) return;
  }
  // ---- a waiting process lends its CPUs and gets them back
  if(lewi_all){ std::vector<int> cand; for(int b=many?1:0;b<nb;b++) if(__builtin_popcount(C.mem[b])>=2) cand.push_back(b); if(!cand.empty()){ int b=cand[g.below(cand.size())]; std::vector<int> m; for(int i=0;i<na;i++) if(C.mem[b]>>i&1) m.push_back(i); int wa=m[g.below(m.size())], bo=m[g.below(m.size())]; if(wa!=bo&&!as[wa]->own.empty()){
      bool on=b?fl[b]==DLB_BARRIER_LEWI_ON:lbar; prog(wa,[&,wa,b]{ dBar(wa,b); }); w.settle(); int cpu=as[wa]->own.first(); int brc=99; Op* q=w.custom(as[bo],"borrow",[&,bo,cpu]{ brc=as[bo]->a->DLB_BorrowCpu(cpu); return brc; }); w.run(q);
      if(on&&brc!=DLB_SUCCESS) fail("C18","not-lent","%s waits in barrier %s with LeWI but its CPU %d cannot be borrowed (%s)",as[wa]->name.c_str(),C.name[b].c_str(),cpu,rcs(brc));
      if(!on&&brc==DLB_SUCCESS) fail("C18","lent","%s waits in barrier %s without LeWI but its CPU %d was lent",as[wa]->name.c_str(),C.name[b].c_str(),cpu);
      if(on) probe("lewi_barrier"); for(int i:m) if(i!=wa) prog(i,[&,i,b]{ dBar(i,b); }); if(!w.settle()){ bad("rounds"); return; }
      w.run(w.custom(as[bo],"return",[&,bo]{ return as[bo]->a->DLB_Return(); })); } } 
    // nobody borrows any more: every process has its CPUs back
    w.serial=true; for(int i=0;i<na;i++) if(as[i]->up) for(int c=0;c<n;c++) if(as[i]->own.has(c)){ int rc=99; w.run(w.custom(as[i],"check",[&,i,c]{ return rc=as[i]->a->DLB_CheckCpuAvailability(c); })); if(rc!=DLB_SUCCESS) fail("C18","not-restored","after the barriers CPU %d is not back in use by its owner %s (%s)",c,as[i]->name.c_str(),rcs(rc)); } w.serial=false; }
  // ---- everybody leaves; a new set of processes starts clean
  for(int i=0;i<na;i++) if(as[i]->up){ u64 z=g.next(); prog(i,[&,i,z]{ if(z%2) nap(z); dFin(i); }); }
  if(!w.settle()){ bad("finalization"); return; } if(!run.viol.empty()) return;
  for(Seg* s:SEGS) if(s->linked&&s->name.find("barrier")!=std::string::npos) fail("C19","left-over","shared memory %s still exists after everybody finalized",s->name.c_str());
  if(g.chance(0.4)){ for(int i=0;i<na;i++) prog(i,[&,i]{ dInit(i); }); if(!w.settle()){ bad("second start"); return; } for(int i=0;i<na;i++) prog(i,[&,i]{ dBar(i,0); dBar(i,0); dFin(i); }); if(!w.settle()){ bad("second start"); return; } }
  BM M; M.n=n; M.nb=nb; Lin<BM> L(M); for(auto& r:C.h){ M.ops.push_back(r.get()); L.iv.push_back({r->s,r->done?r->e:~0ULL,r->done}); } BM::St s0; s0.b.resize(nb); bool ok=L.run(s0,[](const BM::St&){ return true; }); if(L.gaveup) probe("lin_gaveup");
  if(run.logging) for(auto& r:C.h) logf("H %lu-%lu %c %s %s = %s%s",(unsigned long)r->s,(unsigned long)r->e,'A'+r->app,BN[r->k],r->k==B_FIN?"":C.name[r->b].c_str(),r->rc>0?std::to_string(r->rc).c_str():rcs(r->rc),r->null?" NULL":"");
  for(auto& r:C.h){ if(r->k==B_BAR&&r->rc==0) probe("rounds"); if(r->k==B_ATT&&r->rc>1) probe("attached"); if(r->null) probe("no_room"); }
  if(!ok){ std::string fr,cls="unexplained"; bool bar=false; u64 best=~0ULL; for(int i:L.frontier) if(i>=0){ BR* d=C.h[i].get(); if(d->k==B_BAR) bar=true; fr+=std::string(1,'A'+d->app)+" "+BN[d->k]+" "+(d->k==B_FIN?"":C.name[d->b])+" -> "+(d->rc>0?std::to_string(d->rc):rcs(d->rc))+"; "; if(d->done&&d->e<best){ best=d->e; cls=std::string("unexplained-")+BN[d->k]; } } 
    if(P=="C19"||bar) fail(P,cls,"no order of the calls explains: %s in state%s",fr.c_str(),M.str(L.best_state).c_str()); }
  for(App* a:as) if(!a->dead) kill_proc(a->p,X_NORMAL);
}
