// DROM: dynamic resource ownership. Every call is recorded and the whole history must be explained by a sequential
// reference model of the owner tables in which each call is a short sequence of atomic steps (see lin.h).
#include "world.h"
#include "lin.h"
#include <array>
#include <memory>
enum { K_NONE,K_INIT,K_FIN,K_POLL,K_GET,K_SET,K_PREINIT,K_POSTFIN,K_RECOVER,K_LIST,K_CRASH,K_ATTACH,K_DETACH,K_FIN2 };
static const char* KN[]={"none","init","finalize","poll","get","set","preinit","postfinalize","recover","pidlist","crash","attach","detach","finalize-preinit"};
enum { F_STEAL=1,F_RET=2,F_SYNC=4,F_NOSYNC=16 };
struct D { int k=K_NONE; int self=0,tgt=0,pre=0; u64 m=0; int fl=0; bool open=false,ret=false,upd=false,drom=true; int rc=0; u64 out=0; int ncpus=0; std::vector<int> list; int cbn=0; u64 cbm=0; u64 el=0; Op* op=nullptr; u64 s=0,e=0; bool done=false; bool late=false; };
struct DP { int pid=0; bool dirty=false,pre=false; u64 cur=0,fut=0,stolen=0; int gen=0; u64 h()const{ return mix2(mix2(mix2(pid*4+dirty*2+pre,cur),mix2(fut,stolen)),gen); } u64 eff()const{ return dirty?fut:cur; } };
struct DM {
  int n; u64 ALL; std::vector<D*> ops; bool hascrash=false;
  struct St { std::vector<DP> p; u64 free=0; std::array<int,16> own{}; int gen=0; std::vector<int> dead;
    u64 hash()const{ u64 x=free; for(auto& q:p) x+=mix(q.h()); for(int i=0;i<16;i++) if(own[i]) x+=mix2(i+1,own[i]); for(int d:dead) x+=mix2(d,99); return mix2(x,gen); } };
  struct Loc { int pc=0; u64 a=0,b=0,c=0; int g=0; std::vector<std::array<u64,3>> vic; u64 hash()const{ u64 x=mix2(pc*1000+g,mix2(a,mix2(b,c))); for(auto& v:vic) x=mix2(x,mix2(v[0]*64+v[1],v[2])); return x; } };
  static DP* find(St& s,int pid){ for(auto& q:s.p) if(q.pid==pid) return &q; return nullptr; }
  static const DP* find(const St& s,int pid){ for(auto& q:s.p) if(q.pid==pid) return &q; return nullptr; }
  static void erase(St& s,int pid){ for(size_t i=0;i<s.p.size();i++) if(s.p[i].pid==pid){ s.p.erase(s.p.begin()+i); return; } }
  static bool isdead(const St& s,int pid){ for(int d:s.dead) if(d==pid) return true; return false; }
  DP& add(St& s,int pid){ DP q; q.pid=pid; q.gen=++s.gen; s.p.push_back(q); return s.p.back(); }
  void cleanP(St& s,bool all){ bool any=false; for(int d:s.dead) if(DP* q=find(s,d)) if(all||!q->pre){ s.free|=q->eff(); erase(s,d); any=true; } if((any||all)&&!s.dead.empty()&&s.p.empty()) s.free=ALL; }
  void cleanC(St& s,bool all){ for(int c=0;c<n;c++) if(s.own[c]&&isdead(s,s.own[c])){ DP* q=find(s,s.own[c]); if(all||(q&&!q->pre)) s.own[c]=0; } }
  void cpuUpdate(St& s,int pid,u64 m){ for(int c=0;c<n;c++) if(m>>c&1) s.own[c]=pid; else if(s.own[c]==pid) s.own[c]=0; }
  void cpuDereg(St& s,int pid){ for(int c=0;c<n;c++) if(s.own[c]==pid) s.own[c]=0; }
  // every way to give the CPUs of mask back (to one of the processes they were taken from, or to the free set)
  void release(St s,int pid,u64 mask,bool ret,const std::function<void(St)>& out){
    int c=0; while(c<n&&!(mask>>c&1)) c++;
    if(c>=n){ out(s); return; }
    mask&=~(1ULL<<c); u64 b=1ULL<<c; if(DP* q=find(s,pid)){ q->fut&=~b; q->dirty=true; }
    if(!ret){ s.free|=b; release(s,pid,mask,ret,out); return; }
    bool any=false; for(size_t i=0;i<s.p.size();i++) if(s.p[i].stolen&b){ any=true; St t=s; t.p[i].stolen&=~b; t.p[i].fut|=b; t.p[i].dirty=true; release(t,pid,mask,ret,out); }
    if(!any){ s.free|=b; release(s,pid,mask,ret,out); } }
  // can `need` be stolen?  bit0: success possible, bit1: refusal possible
  int stealable(const St& s,int pid,u64 need){ if(!need) return 1; u64 cov=0; bool dirty=false; for(auto& q:s.p) if(q.pid!=pid&&(q.cur&need)){ if(q.dirty) dirty=true; else cov|=q.cur&need; } int r=0; if(cov==need) r|=1; if(cov!=need||dirty) r|=2; return r; }
  std::vector<std::array<u64,3>> steal(St& s,int pid,u64 need){ std::vector<std::array<u64,3>> v; for(auto& q:s.p) if(q.pid!=pid&&!q.dirty&&(q.cur&need)){ u64 t=q.cur&need; v.push_back({(u64)q.pid,(u64)q.gen,t}); q.dirty=true; q.fut=q.cur&~t; q.stolen|=t; } return v; }
  void give(DP& q,u64 m){ if(!m) return; q.fut|=m; q.stolen&=~m; q.dirty=true; }
  void rollback(St& s,const Loc& l){ for(auto& v:l.vic){ DP* q=find(s,v[0]); if(q&&(q->stolen&v[2])==v[2]){ q->fut|=v[2]; q->stolen&=~v[2]; q->dirty=q->cur!=q->fut; } else { u64 f=v[2]; for(auto& o:s.p) f&=~o.eff(); s.free|=f; } } }
  // change the mask of a process that has no pending change.  wait: synchronous stealing takes two steps
  template<class F> void setmask(const St& s0,const Loc& l,const D& d,int pid,F out){  // out(state, loc, rc): rc 99 = stealing in progress
    const DP* q=find(s0,pid); u64 acq=d.m&s0.free, need=d.m&~s0.free&~q->cur, rel=q->cur&~d.m; int r=stealable(s0,pid,need);
    if(r&2) out(s0,l,DLB_ERR_PERM);
    if(r&1){ St s=s0; Loc x=l; x.vic=steal(s,pid,need); DP* p=find(s,pid);
      if((d.fl&F_SYNC)&&need&&d.tgt!=0&&!(d.tgt==d.self&&d.drom)){ x.a=need; x.b=acq; x.c=p->cur; x.g=p->gen; out(s,x,99); return; }
      give(*p,need); s.free&=~acq; give(*p,acq); Loc y=l; release(s,pid,rel,d.fl&F_RET,[&](St t){ out(t,y,DLB_SUCCESS); }); } }
  template<class F> void setmask2(const St& s0,const Loc& l,const D& d,int pid,F out){   // end of a synchronous steal
    const DP* q=find(s0,pid); bool held=false; for(auto& v:s0.p) if(v.pid!=pid&&(v.cur&l.a)) held=true;
    auto back=[&](int rc){ St s=s0; rollback(s,l); Loc y=l; y.vic.clear(); out(s,y,rc); };
    if(!q||q->gen!=l.g) back(DLB_ERR_NOPROC);
    if(held){ if(d.el>=1000000000ULL) back(DLB_ERR_TIMEOUT); return; } if(!q) return;
    if(q->dirty||q->cur!=l.c){ back(DLB_ERR_PDIRTY); return; }
    u64 acq=l.b,rel=q->cur&~d.m; if(acq&~s0.free){ back(DLB_ERR_PERM); return; }
    St s=s0; DP* p=find(s,pid); give(*p,l.a); s.free&=~acq; give(*p,acq); Loc y=l; y.vic.clear(); y.a=y.b=y.c=0; release(s,pid,rel,d.fl&F_RET,[&](St t){ out(t,y,DLB_SUCCESS); }); }

  template<class F> void succ(const St& s0,const Loc& l,int i,F emit){
    const D& d=*ops[i]; if(d.self&&d.k!=K_CRASH&&isdead(s0,d.self)) return;
    auto fin=[&](const St& s){ Loc x; x.pc=-1; emit(s,x); };
    auto at=[&](const St& s,int pc){ Loc x=l; x.pc=pc; emit(s,x); };
    bool dn=d.done;
    #define RES(s,r) do{ if(!dn||d.rc==(r)) fin(s); }while(0)
    // an unattached caller opens both tables first, which cleans up after dead processes
    if(d.open&&hascrash&&d.k!=K_INIT&&l.pc<2){ for(int v=0;v<2;v++){ St s=s0; if(l.pc==0) cleanC(s,v); else cleanP(s,v); at(s,l.pc+1); } return; }
    int pc=d.open&&hascrash&&d.k!=K_INIT? l.pc-2:l.pc; int o=l.pc-pc;
    switch(d.k){
    case K_ATTACH: case K_DETACH: RES(s0,0); return;
    case K_CRASH: { St s=s0; s.dead.push_back(d.tgt); std::sort(s.dead.begin(),s.dead.end()); fin(s); return; }
    case K_INIT: {
      if(pc==0){ for(int v=0;v<(hascrash?2:1);v++){ St s=s0; if(hascrash) cleanP(s,v); at(s,1); } return; }
      if(pc==1){ const DP* e=find(s0,d.self); const DP* pr=d.pre?find(s0,d.pre):nullptr; u64 m=d.m; int err=0; St s=s0; bool full=(int)s.p.size()>=n;
        if(e&&e!=pr) err=DLB_ERR_INIT; else if(pr&&!pr->pre) err=DLB_ERR_INIT;
        else if(!pr){ if(full) err=DLB_ERR_NOMEM; else if(m&~s.free) err=DLB_ERR_PERM; else { s.free&=~m; DP& q=add(s,d.self); q.cur=q.fut=m; } }
        else { u64 pm=pr->eff(); DP* q=find(s,d.pre);
          if(!m||m==pm){ q->pid=d.self; q->pre=false; q->gen=++s.gen; m=pm; }
          else if(pr->dirty) err=DLB_ERR_PDIRTY;
          else if((m&pm)==pm){ if((m&~pm)&~s.free) err=DLB_ERR_PERM; else { s.free&=~(m&~pm); q->pid=d.self; q->pre=false; q->gen=++s.gen; q->cur=q->fut=m; } }
          else if(full) err=DLB_ERR_NOMEM;
          else if((m&~pm)&~s.free) err=DLB_ERR_PERM;
          else { s.free&=~(m&~pm); q->cur&=~m; q->fut&=~m; DP& nq=add(s,d.self); nq.cur=nq.fut=m; } }
        if(err){ RES(s0,err); return; }
        Loc x=l; x.pc=2; x.a=m; emit(s,x); return; }
      if(pc==2){ for(int v=0;v<(hascrash?2:1);v++){ St s=s0; if(hascrash) cleanC(s,v); at(s,3); } return; }
      if(pc==3){ bool perm=false; for(int c=0;c<n;c++) if((l.a>>c&1)&&s0.own[c]&&s0.own[c]!=d.self&&s0.own[c]!=d.pre) perm=true; St s=s0;
        if(perm){ cpuDereg(s,d.self); at(s,4); return; } for(int c=0;c<n;c++) if(l.a>>c&1) s.own[c]=d.self; RES(s,0); return; }
      { St s=s0; DP* q=find(s,d.self); if(!q){ RES(s,DLB_ERR_PERM); return; } u64 m=q->eff(); erase(s,d.self); release(s,0,m,d.ret,[&](St t){ RES(t,DLB_ERR_PERM); }); return; } }
    case K_FIN: {
      if(pc==0){ St s=s0; cpuDereg(s,d.self); at(s,1); return; }
      St s=s0; DP* q=find(s,d.self); if(!q){ RES(s,0); return; } u64 m=q->eff(); erase(s,d.self); release(s,0,m,d.ret,[&](St t){ RES(t,0); }); return; }
    case K_FIN2: {   // second DLB_Finalize of a process that did DLB_PreInit: what is left of the reservation
      if(pc==0){ St s=s0; cpuDereg(s,d.tgt); at(s,1+o); return; }
      St s=s0; DP* q=find(s,d.tgt); if(!q){ RES(s,0); return; } u64 m=q->eff(); erase(s,d.tgt); release(s,0,m,d.ret,[&](St t){ RES(t,0); }); return; }
    case K_POLL: {
      if(pc==1+o||pc==1){ St s=s0; cpuUpdate(s,d.self,l.a); if(!dn||d.rc==0) fin(s); return; }
      if(!d.drom){ RES(s0,DLB_ERR_NOCOMP); return; }
      const DP* q=find(s0,d.self); if(!q){ RES(s0,DLB_ERR_NOPROC); return; } if(!q->dirty){ if(!dn||(d.rc==DLB_NOUPDT&&!d.cbn)) fin(s0); return; }
      if(dn){ if(d.rc!=0) return; if(d.upd){ if(d.cbn!=1||d.cbm!=q->fut) return; } else if(d.out!=q->fut||d.ncpus!=__builtin_popcountll(q->fut)) return; }
      St s=s0; DP* p=find(s,d.self); p->cur=p->fut; p->dirty=false; Loc x=l; x.pc=1; x.a=p->fut; emit(s,x); return; }
    case K_GET: {
      auto R2=[&](const St& s,int rc,u64 m){ if(!dn||(d.rc==rc&&(rc<0||d.out==m))) fin(s); };
      if(l.pc==11){ St s=s0; cpuUpdate(s,d.self,l.a); fin(s); return; }
      if(d.tgt==0||(d.tgt==d.self&&d.drom)){ const DP* q=d.drom?find(s0,d.self):nullptr; if(!q){ R2(s0,DLB_ERR_NOPROC,0); return; }
        if(!q->dirty){ R2(s0,0,q->cur); return; } if(dn&&(d.rc!=DLB_NOTED||d.out!=q->fut)) return; St s=s0; DP* p=find(s,d.self); p->cur=p->fut; p->dirty=false; Loc x=l; x.pc=11; x.a=p->cur; emit(s,x); return; }
      const DP* q=find(s0,d.tgt);
      if(pc==0){ if(!q){ R2(s0,DLB_ERR_NOPROC,0); return; } if(!q->dirty){ R2(s0,0,q->cur); return; } if(!(d.fl&F_SYNC)){ R2(s0,0,q->fut); return; } Loc x=l; x.pc=o+1; x.g=q->gen; emit(s0,x); return; }
      if(!q||q->gen!=l.g){ R2(s0,DLB_ERR_NOPROC,0); if(!q) return; } if(!q->dirty){ R2(s0,0,q->cur); return; } if(d.el>=1000000000ULL) R2(s0,DLB_ERR_TIMEOUT,0); return; }
    case K_SET: {
      bool self=d.tgt==0||(d.tgt==d.self&&d.drom); int tp=self?d.self:d.tgt;
      if(l.pc==12){ St s=s0; cpuUpdate(s,d.self,d.m); fin(s); return; }
      if(l.pc==10){ const DP* q=find(s0,tp); if(!q||q->gen!=l.g){ RES(s0,DLB_ERR_NOPROC); if(!q) return; } if(!q->dirty) RES(s0,0); if(q->dirty&&d.el>=1000000000ULL) RES(s0,DLB_ERR_TIMEOUT); return; }
      auto after=[&](const St& s,Loc x,int rc){ if(rc==99){ x.pc=9; emit(s,x); return; } if(rc<0){ RES(s,rc); return; } 
        if(d.fl&F_SYNC){ x=Loc(); x.pc=10; x.g=find(s,tp)->gen; emit(s,x); return; } RES(s,0); };
      if(l.pc==9){ setmask2(s0,l,d,tp,after); return; }
      if(self){ const DP* q=d.drom?find(s0,d.self):nullptr; if(!q){ RES(s0,DLB_ERR_NOPROC); return; }
        auto okself=[&](const St& s1,Loc,int rc){ if(rc<0){ RES(s1,rc); return; } if(dn&&d.rc!=0) return; if(d.fl&F_NOSYNC){ if(!dn||!d.cbn) fin(s1); return; } if(dn&&(d.cbn!=1||d.cbm!=d.m)) return; St s=s1; DP* p=find(s,d.self); p->cur=p->fut; p->dirty=false; Loc x; x.pc=12; emit(s,x); };
        if(q->dirty){ if(q->fut==d.m) okself(s0,l,0); else RES(s0,DLB_ERR_PDIRTY); return; } setmask(s0,l,d,d.self,okself); return; }
      const DP* q=find(s0,tp); if(!q){ RES(s0,DLB_ERR_NOPROC); return; } if(q->dirty){ RES(s0,DLB_ERR_PDIRTY); return; }
      setmask(s0,l,d,tp,after); return; }
    case K_PREINIT: {
      auto after=[&](const St& s1,Loc x,int rc){ if(rc==99){ x.pc=9; emit(s1,x); return; }
        if(rc<0){ St s=s1; DP* q=find(s,d.tgt); u64 m=q?q->fut:0; erase(s,d.tgt); release(s,0,m,d.fl&F_RET,[&](St t){ RES(t,rc); }); return; }
        St s=s1; DP* q=find(s,d.tgt); q->cur=q->fut=d.m; q->dirty=false; x=Loc(); x.pc=10; emit(s,x); };
      if(l.pc==9){ setmask2(s0,l,d,d.tgt,after); return; }
      if(l.pc==10){ bool perm=false; if(!(d.fl&F_STEAL)) for(int c=0;c<n;c++) if((d.m>>c&1)&&s0.own[c]&&s0.own[c]!=d.tgt) perm=true;
        if(perm){ Loc x; x.pc=11; emit(s0,x); return; } St s=s0; for(int c=0;c<n;c++) if(d.m>>c&1) s.own[c]=d.tgt; RES(s,0); return; }
      if(l.pc==11){ St s=s0; DP* q=find(s,d.tgt); if(!q){ RES(s,DLB_ERR_PERM); return; } u64 m=q->eff(); erase(s,d.tgt); release(s,0,m,d.fl&F_RET,[&](St t){ RES(t,DLB_ERR_PERM); }); return; }
      if(find(s0,d.tgt)){ RES(s0,DLB_ERR_INIT); return; } if((int)s0.p.size()>=n){ RES(s0,DLB_ERR_NOMEM); return; }
      if(!(d.fl&F_STEAL)){ if(d.m&~s0.free){ RES(s0,DLB_ERR_PERM); return; } St s=s0; s.free&=~d.m; DP& q=add(s,d.tgt); q.pre=true; q.cur=q.fut=d.m; Loc x; x.pc=10; emit(s,x); return; }
      St s=s0; DP& q=add(s,d.tgt); q.pre=true; setmask(s,l,d,d.tgt,after); return; }
    case K_POSTFIN: {
      if(l.pc==10){ St s=s0; cpuDereg(s,d.tgt); RES(s,0); return; }
      St s=s0; DP* q=find(s,d.tgt); if(!q){ RES(s0,DLB_ERR_NOPROC); return; } u64 m=q->eff(); erase(s,d.tgt); release(s,0,m,d.fl&F_RET,[&](St t){ Loc x; x.pc=10; emit(t,x); }); return; }
    case K_RECOVER: { const DP* q=find(s0,d.tgt); if(!q){ RES(s0,DLB_ERR_NOPROC); return; } if(!q->stolen){ RES(s0,DLB_NOUPDT); return; }
      St s=s0; DP* p=find(s,d.tgt); u64 r=p->stolen&s.free; s.free&=~r; give(*p,r); RES(s,0); return; }
    case K_LIST: { if(dn){ if(d.rc!=0) return; std::vector<int> a; for(auto& q:s0.p) a.push_back(q.pid); std::sort(a.begin(),a.end()); if(a!=d.list) return; } fin(s0); return; }
    default: fin(s0); }
    #undef RES
  }
  std::string str(const St& s){ std::string r; for(auto& q:s.p) r+=" "+std::to_string(q.pid)+(q.pre?"(reserved)":"")+":"+mask_bits(q.cur).str()+(q.dirty?"->"+mask_bits(q.fut).str():"")+(q.stolen?" stolen"+mask_bits(q.stolen).str():""); r+=" free"+mask_bits(s.free).str()+" owners["; for(int i=0;i<n;i++) r+=std::to_string(s.own[i])+(i<n-1?",":"]"); return r; }
};
static std::set<std::string> attrib(int k,const D* d){ std::set<std::string> r={"C12"}; switch(k){
  case K_POLL: r.insert({"C13","C15"}); break; case K_GET: r.insert({"C13","C14","C15"}); break; case K_SET: r.insert({"C13","C14"}); if(d&&(d->fl&F_SYNC)) r.insert("C15"); break;
  case K_FIN: case K_FIN2: r.insert({"C16","C17"}); break; case K_POSTFIN: case K_RECOVER: r.insert({"C16","C17"}); break; case K_PREINIT: r.insert({"C17","C14"}); break; case K_INIT: r.insert({"C17","C14"}); if(d&&d->rc<0) r.insert("C27"); break; case K_LIST: r.insert({"C17","C14"}); break; }
  if(d&&(d->fl&F_RET)) r.insert("C16"); if(d&&(d->fl&F_SYNC)) r.insert("C15"); return r; }

SCENARIO(drom){
  World w(run); Rng& g=w.rng; const std::string& P=run.prop; int n=g.range(3,6), napp=g.range(1,std::min(3,n-1)); bool wantvis=g.chance(0.4),wantpre=P=="C17"||g.chance(P=="C14"?0.6:0.35); int nchild=wantpre?g.range(1,2):0; bool launcher=wantpre&&g.chance(0.3);
  n=std::max(n,napp+1+wantvis+nchild+launcher);   // DLB can keep track of as many attached processes as CPUs
  w.ncpu=w.ncore=n; w.nnode=1; w.tpc=1; w.slow_cb=g.chance(0.3);
  DM M; M.n=n; M.ALL=(1ULL<<n)-1; std::vector<std::unique_ptr<D>> ds; std::map<Op*,D*> dof;
  bool lewi=g.chance(0.2), crash=P=="C22"?true:P=="C15"?g.chance(0.4):g.chance(0.1); bool multi=g.chance(P=="C13"?0.3:0.08); double psync=P=="C15"?0.6:0.2, psteal=0.5, pret=P=="C16"?0.6:0.2; M.hascrash=crash;
  struct Role { App* a; int kind; u64 own; int pre=0; bool ret=false; bool drom=true; bool att=false; };   // 0 app, 1 admin, 2 visitor, 3 child, 4 launcher
  std::vector<Role> R_; u64 left=M.ALL; 
  auto sub=[&](u64 of,double p){ u64 r=0; for(int c=0;c<n;c++) if((of>>c&1)&&g.chance(p)) r|=1ULL<<c; return r; };
  for(int i=0;i<napp;i++){ u64 m=sub(left,0.45); if(!m) m=left&-left; if(left==m&&i<napp-1) m=left&-left; left&=~m; Role r; r.kind=0; r.own=m; r.ret=g.chance(pret); r.a=w.add_app(std::string(1,'A'+i),mask_bits(m),std::string("--drom=1")+(lewi?" --lewi":"")+(r.ret?" --debug-opts=return-stolen":"")); R_.push_back(r); if(!left) break; }
  napp=R_.size(); { Role r; r.kind=1; r.own=M.ALL; r.a=w.add_app("adm",mask_bits(M.ALL),""); r.att=true; R_.push_back(r); }
  if(wantvis){ Role r; r.kind=2; r.own=M.ALL; r.a=w.add_app("vis",mask_bits(M.ALL),""); R_.push_back(r); }
  int lpid=0; u64 lmask=0;
  if(launcher){ lmask=g.chance(0.6)?(sub(left,0.7)?:left):sub(M.ALL,0.5); if(!lmask) lmask=1; Role r; r.kind=4; r.own=lmask; r.a=w.add_app("launch",mask_bits(lmask),""); R_.push_back(r); }
  for(int i=0;i<nchild;i++){ Role r; r.kind=3; r.own=0; r.a=w.add_app(std::string("child")+char('0'+i),mask_bits(M.ALL),""); R_.push_back(r); }
  for(auto& r:R_){ w.launch(r.a); r.a->p->env["DLB_ARGS"]="--shm-key="+r.a->key; if(r.kind==4) lpid=r.a->p->pid; if(r.kind==0&&multi) w.add_thread(r.a); }
  auto old=run.on_exit; run.on_exit=[&](Proc* p,ExitKind how){ old(p,how); if(how==X_CRASH) for(auto& r:R_) if(r.a->p==p){ auto d=std::make_unique<D>(); d->k=K_CRASH; d->tgt=p->pid; d->s=++w.seq; d->e=++w.seq; d->done=true; ds.push_back(std::move(d)); } };
  std::map<int,bool> cancel; std::vector<int> pids; for(auto& r:R_) if(r.kind==0||r.kind==3||r.kind==4) pids.push_back(r.a->p->pid);
  std::map<int,int> fork_pre; // child index -> fake pid
  auto mk=[&](App* a,int k,bool fixed=false)->D*{ auto u=std::make_unique<D>(); D* d=u.get(); d->k=k; d->self=a->p->pid; Op* o=fixed?w.mkf(a,O_CUSTOM):w.mk(a,O_CUSTOM); d->op=o; dof[o]=d; ds.push_back(std::move(u)); 
    for(auto& r:R_) if(r.a==a){ d->ret=r.ret; d->open=r.kind==2||((r.kind==3||r.kind==4)); d->drom=r.kind==0||r.kind==3; if(r.kind==4) d->drom=false; } return d; };
  auto desc=[&](D* d){ std::string s=KN[d->k]; auto nm=[&](int pid){ for(auto& r:R_) if(r.a->p&&r.a->p->pid==pid) return r.a->name; return std::to_string(pid); }; if(d->k==K_GET||d->k==K_SET||d->k==K_PREINIT||d->k==K_POSTFIN||d->k==K_RECOVER) s+=" "+(d->tgt?nm(d->tgt):std::string("self")); if(d->k==K_SET||d->k==K_PREINIT||d->k==K_INIT) s+=" "+mask_bits(d->m).str(); if(d->pre) s+=" preinit="+nm(d->pre); if(d->fl) s+=std::string(d->fl&F_STEAL?" steal":"")+(d->fl&F_RET?" return":"")+(d->fl&F_SYNC?" sync":"")+(d->fl&F_NOSYNC?" nosync":""); d->op->desc=s; };
  auto bind=[&](D* d){ App* a=d->op->app; Op* o=d->op; desc(d);
    o->fn=[d,a,o,n,&w]()->int{ Api* A=a->a; int rc=0; cpu_set_t m; CPU_ZERO(&m); cpu_set_t in=mask_bits(d->m).s;
      if(d->k!=K_INIT&&d->k!=K_FIN2&&d->k!=K_ATTACH&&d->op->app->th.size()&&(d->k==K_POLL||d->k==K_FIN)&&!a->up){ d->k=K_NONE; return 0; }
      if(a->up) d->open=false; else if(d->k!=K_INIT&&a->name!="adm"){ d->open=true; d->drom=false; } if(d->k==K_INIT&&a->up){ d->k=K_NONE; return 0; }
      bool att=a->up||d->op->app->name=="adm"; if(!att&&(d->k==K_RECOVER||d->k==K_LIST||d->k==K_POSTFIN||(d->k==K_PREINIT&&!d->upd))){ d->k=K_NONE; return 0; } if(!att) A->mu_testing_set_sys(n,n,1);
      switch(d->k){
        case K_ATTACH: A->mu_testing_set_sys(n,n,1); rc=A->DLB_DROM_Attach(); break; case K_DETACH: rc=A->DLB_DROM_Detach(); break;
        case K_INIT: { std::string s="--shm-key="+a->key+" "+a->args+(d->pre?" --preinit-pid="+std::to_string(d->pre):std::string("")); A->mu_testing_set_sys(n,n,1); a->own=mask_bits(d->m); d->drom=true; d->open=true; rc=A->DLB_Init(0,&in,s.c_str()); if(rc>=0){ w.set_callbacks(a); a->up=true; } break; }
        case K_FIN: a->up=false; rc=A->DLB_Finalize(); break; case K_FIN2: rc=A->DLB_Finalize(); break;
        case K_POLL: if(d->upd) rc=A->DLB_PollDROM_Update(); else { int nc=-1; rc=A->DLB_PollDROM(&nc,&m); d->ncpus=nc; } break;
        case K_GET: rc=A->DLB_DROM_GetProcessMask(d->tgt,&m,(dlb_drom_flags_t)d->fl); break;
        case K_SET: rc=A->DLB_DROM_SetProcessMask(d->tgt,&in,(dlb_drom_flags_t)d->fl); break;
        case K_PREINIT: if(d->upd){ A->mu_testing_set_sys(n,n,1); char** ne=nullptr; (void)ne; rc=A->DLB_PreInit(&in,nullptr); } else { std::map<std::string,std::string> env=a->p->env; rc=A->DLB_DROM_PreInit(d->tgt,&in,(dlb_drom_flags_t)d->fl,nullptr); a->p->env=env; } break;
        case K_POSTFIN: rc=A->DLB_DROM_PostFinalize(d->tgt,(dlb_drom_flags_t)d->fl); break;
        case K_RECOVER: rc=A->DLB_DROM_RecoverStolenCpus(d->tgt); break;
        case K_LIST: { int l[64],ne=0; rc=A->DLB_DROM_GetPidList(l,&ne,64); d->list.assign(l,l+ne); std::sort(d->list.begin(),d->list.end()); break; }
      }
      d->out=Mask(m).bits(); (void)o; return rc; }; };
  auto anymask=[&](u64 base){ u64 r; double x=g.unit(); if(x<0.45) r=sub(M.ALL,0.5); else if(x<0.7) r=base|sub(M.ALL,0.3); else if(x<0.9) r=base&sub(M.ALL,0.6); else r=base; if(!r&&!g.chance(0.1)) r=1ULL<<g.below(n); return r; };
  auto setflags=[&](D* d){ if(g.chance(psteal)) d->fl|=F_STEAL; if(g.chance(pret)) d->fl|=F_RET; if(g.chance(psync)) d->fl|=F_SYNC; if(d->tgt==0||d->tgt==d->self) if(g.chance(0.25)) d->fl|=F_NOSYNC; };
  auto post=[&](AppThread* t,D* d){ bind(d); w.post(t,d->op); };
  auto nap=[&](AppThread* t){ Op* s=w.mk(t->app,O_SLEEP); static const u64 top[]={1000,100000,20000000,20000000,400000000}; s->ns=1+g.below(top[g.below(5)]); w.post(t,s); };
  auto gen=[&](Role& r)->D*{ App* a=r.a; int me=a->p->pid; std::vector<int> oth; for(int p:pids) oth.push_back(p); int t=oth[g.below(oth.size())]; int x=g.below(100); D* d;
    if(r.kind==0||r.kind==3){
      if(x<42){ d=mk(a,K_POLL); d->upd=g.chance(0.5); }
      else if(x<52){ d=mk(a,K_GET); d->tgt=g.chance(0.5)?0:me; if(g.chance(psync)) d->fl|=F_SYNC; }
      else if(x<60){ d=mk(a,K_GET); d->tgt=t; if(g.chance(psync)) d->fl|=F_SYNC; }
      else if(x<76){ d=mk(a,K_SET); d->tgt=g.chance(0.5)?0:me; d->m=anymask(r.own); setflags(d); }
      else if(x<84){ d=mk(a,K_SET); d->tgt=t; d->m=anymask(r.own); setflags(d); }
      else if(x<90){ d=mk(a,K_RECOVER); d->tgt=me; }
      else { d=mk(a,K_LIST); }
      return d; }
    if(x<45){ d=mk(a,K_SET); d->tgt=t; u64 b=M.ALL; for(auto& q:R_) if(q.a->p->pid==t) b=q.own; d->m=anymask(b); setflags(d); return d; }
    if(x<70||r.kind!=1){ d=mk(a,K_GET); d->tgt=t; if(g.chance(psync)) d->fl|=F_SYNC; return d; }
    if(x<78){ d=mk(a,K_RECOVER); d->tgt=t; return d; }
    if(x<86){ d=mk(a,K_LIST); return d; }
    if(x<92&&wantpre){ d=mk(a,K_PREINIT); d->tgt=g.chance(0.5)?t:900; d->m=anymask(left?left:1); setflags(d); if(d->tgt<900&&d->tgt==lpid) d->tgt=900; for(auto& q:R_) if(q.kind==3&&q.a->p->pid==d->tgt) d->tgt=900; return d; }
    d=mk(a,K_POSTFIN); d->tgt=900; if(g.chance(pret)) d->fl|=F_RET; return d; };
  // ---- start
  { D* d=mk(R_[napp].a,K_ATTACH,true); d->open=true; bind(d); w.post(R_[napp].a->th[0],d->op); }
  for(auto& r:R_) if(r.kind==0){ D* d=mk(r.a,K_INIT,true); d->m=r.own; post(r.a->th[0],d); }
  if(multi||g.chance(0.6)) if(!w.settle()){ fail(P,"stuck","initialisation does not finish: %s",w.stuck().c_str()); return; }
  int nops=g.range(2,crash?6:8);
  for(auto& r:R_) if(r.kind<=2) for(AppThread* t:r.a->th){ bool fin=false; for(int i=0;i<nops;i++){ if(r.kind==0&&!multi&&g.chance(0.08)){ post(t,mk(r.a,K_FIN)); D* d=mk(r.a,K_INIT); d->m=g.chance(0.6)?r.own:anymask(r.own); if(!d->m) d->m=r.own; if(wantpre&&g.chance(0.3)) d->pre=pids[g.below(pids.size())]; if(d->pre==r.a->p->pid) d->pre=0; post(t,d); continue; } if(g.chance(0.5)) nap(t); post(t,gen(r)); } (void)fin; }
  // reservations: an administrator (or a launcher) reserves CPUs, the child inherits them or the reservation is cancelled
  App* adm=R_[napp].a; int ci=0;
  if(launcher) for(auto& r:R_) if(r.kind==4){ if(g.chance(0.5)) nap(r.a->th[0]); D* d=mk(r.a,K_PREINIT); d->tgt=r.a->p->pid; d->m=r.own; d->upd=true; d->open=true; post(r.a->th[0],d); }
  for(auto& r:R_) if(r.kind==3){ int mode=launcher&&g.chance(0.6)?2:g.chance(0.3)?1:0; D* pre=nullptr; int ppid=0; u64 pm=0; AppThread* ct=r.a->th[0];
    if(mode==2){ ppid=lpid; pm=lmask; for(auto& q:ds) if(q->k==K_PREINIT&&q->tgt==lpid) pre=q.get(); }
    else { ppid=mode==1?910+ci:r.a->p->pid; App* by=g.chance(0.8)?adm:R_[0].a; pm=g.chance(0.6)&&left?sub(left,0.7):sub(M.ALL,0.4); if(!pm) pm=1ULL<<g.below(n); if(g.chance(0.5)) nap(by->th[0]); pre=mk(by,K_PREINIT); pre->tgt=ppid; pre->m=pm; if(g.chance(0.4)) pre->fl|=F_STEAL; if(g.chance(psync)) pre->fl|=F_SYNC; if(g.chance(pret)) pre->fl|=F_RET; post(by->th[0],pre); }
    ci++; if(mode!=2&&g.chance(0.25)){ D* d=mk(adm,K_POSTFIN); d->tgt=ppid; if(g.chance(pret)) d->fl|=F_RET; post(adm->th[0],d); if(mode==0||g.chance(0.5)){ r.own=0; continue; } }
    u64 im=pm; double x=g.unit(); if(mode==0){ if(x<0.15) im=pm|sub(M.ALL,0.3); else if(x<0.25) im=0; } else { if(x<0.4) im=sub(pm,0.6); else if(x<0.55) im=sub(M.ALL,0.5); else if(x<0.65) im=0; } if(!im&&g.chance(0.5)) im=pm; r.own=im?im:pm; r.ret=g.chance(pret); r.a->args=std::string("--drom=1")+(r.ret?" --debug-opts=return-stolen":"");
    Op* wo=w.custom(r.a,"wait for the reservation",[pre]{ for(int i=0;i<4000&&!pre->op->done&&!pre->op->skip&&!pre->op->app->dead;i++) sim_sleep(1000000); return 0; }); w.post(ct,wo);
    D* d=mk(r.a,K_INIT,true); d->pre=ppid; d->m=im; if(g.chance(0.1)) d->pre=0; d->ret=r.ret; post(ct,d);
    int k=g.range(0,4); for(int i=0;i<k;i++){ if(g.chance(0.4)) nap(ct); D* q=gen(r); q->drom=true; post(ct,q); } if(g.chance(0.5)){ post(ct,mk(r.a,K_FIN)); } }
  if(crash){ run.crash_enabled=true; run.crash_nolock=true; int v=g.below(R_.size()); if(R_[v].kind!=4) run.crash_plan.push_back({(u64)R_[v].a->p->idx,200+g.below(g.chance(0.5)?3000:30000)}); }
  bool ok=w.settle(); run.crash_enabled=false; if(!ok){ fail(P=="C12"||P=="C15"?P:"C15","stuck","calls do not finish: %s",w.stuck().c_str()); return; } run.nontrivial=run.switches>10; if(!run.viol.empty()) return;
  // ---- probing: everything that is pending gets delivered, every mask is read, every free CPU is assigned, everybody leaves
  w.serial=true; bool noserial=false; auto go=[&](D* d)->bool{ bind(d); bool r=w.run(d->op); if(!r&&!d->op->app->dead){ fail(P,"stuck","call does not finish: %s",w.stuck().c_str()); noserial=true; } return r; };
  auto up=[&](Role& r){ return (r.kind==0||r.kind==3)&&r.a->up&&!r.a->dead; };
  App* probe_app=adm->dead?nullptr:adm;
  for(int round=0;round<2;round++){ for(auto& r:R_) if(up(r)){ D* d=mk(r.a,K_POLL,true); d->upd=g.chance(0.5); d->drom=true; go(d); d=mk(r.a,K_GET,true); d->drom=true; go(d); if(round==0&&g.chance(0.7)){ d=mk(r.a,K_RECOVER,true); d->tgt=r.a->p->pid; go(d); } if(noserial) return; } }
  if(probe_app) for(int p:pids){ D* d=mk(adm,K_GET,true); d->tgt=p; go(d); if(noserial) return; }
  if(probe_app){ go(mk(adm,K_LIST,true)); }
  // somebody takes every CPU one by one: only free ones (or held by non-busy processes) change hands, which the model follows
  for(auto& r:R_) if(up(r)&&g.chance(0.7)){ D* d=mk(r.a,K_SET,true); d->tgt=0; d->m=M.ALL; d->drom=true; go(d); for(auto& q:R_) if(up(q)){ D* e=mk(q.a,K_POLL,true); e->drom=true; go(e); } break; }
  if(noserial) return;
  std::vector<int> ord; for(size_t i=0;i<R_.size();i++) ord.push_back(i); for(size_t i=ord.size();i>1;i--) std::swap(ord[i-1],ord[g.below(i)]);
  for(int i:ord){ Role& r=R_[i]; if(up(r)){ D* d=mk(r.a,K_FIN,true); go(d); for(auto& q:R_) if(up(q)){ D* e=mk(q.a,K_POLL,true); e->drom=true; go(e); e=mk(q.a,K_GET,true); e->drom=true; go(e); if(noserial) return; } } if(noserial) return; }
  if(launcher) for(auto& r:R_) if(r.kind==4&&!r.a->dead){ bool done=false; for(auto& q:ds) if(q->k==K_PREINIT&&q->upd&&q->op->done&&q->op->rc==0) done=true; if(done){ D* d=mk(r.a,K_FIN2,true); d->tgt=r.a->p->pid; d->open=true; go(d); } }
  if(probe_app){ go(mk(adm,K_LIST,true)); std::vector<int> fk={900,910,911,912}; for(auto& r:R_) if(r.kind==3) fk.push_back(r.a->p->pid); for(int p:fk){ D* d=mk(adm,K_POSTFIN,true); d->tgt=p; go(d); } go(mk(adm,K_LIST,true)); go(mk(adm,K_DETACH,true)); }
  if(noserial) return;
  // a fresh process gets the whole machine
  App* fresh=nullptr; for(auto& r:R_) if(r.kind==0&&!r.a->dead) fresh=r.a; if(fresh){ fresh->args="--drom=1"; D* d=mk(fresh,K_INIT,true); d->m=M.ALL; go(d); d=mk(fresh,K_GET,true); d->drom=true; go(d); d=mk(fresh,K_FIN,true); go(d); }
  if(noserial||!run.viol.empty()) return;
  // ---- check the history
  Lin<DM> L(M); std::vector<D*> hs;
  for(auto& u:ds){ D* d=u.get(); if(d->k==K_NONE) continue; if(d->op){ Op* o=d->op; if(!o->started||o->skip) continue; d->s=o->s; d->e=o->done?o->e:~0ULL; d->done=o->done; d->rc=o->rc; d->el=o->done?o->t1-o->t0:~0ULL>>1; for(Cb& c:o->cbs) if(c.kind=='p'){ d->cbn++; d->cbm=c.m.bits(); } if(o->done&&d->el>12000000000ULL&&P=="C15"){ fail("C15","unbounded","%s %s took %.1f s",o->app->name.c_str(),o->desc.c_str(),d->el/1e9); return; } } hs.push_back(d); }
  for(D* d:hs){ if(d->done&&d->rc==DLB_ERR_TIMEOUT) probe("timeout"); if(d->done&&d->rc==DLB_ERR_PERM) probe("perm"); if(d->done&&d->rc==DLB_ERR_PDIRTY) probe("pdirty"); if(d->k==K_CRASH) probe("crashed"); if(d->done&&d->k==K_INIT&&d->pre&&d->rc==0) probe("inherited"); if(d->done&&d->k==K_RECOVER&&d->rc==0) probe("recovered"); if(d->done&&d->rc==DLB_ERR_NOMEM) probe("nomem"); if((d->k==K_SET)&&(d->fl&F_SYNC)&&d->done&&d->rc==0&&d->el>10000000) probe("sync_ok"); }
  M.ops=hs; for(D* d:hs) L.iv.push_back({d->s,d->e,d->done}); DM::St s0; s0.free=M.ALL; s0.own.fill(0);
  bool lin=L.run(s0,[](const DM::St&){ return true; }); if(L.gaveup) probe("lin_gaveup");
  if(run.logging){ for(D* d:hs) logf("H %lu-%lu %s %s = %s out=%s cb=%d%s%s",(unsigned long)d->s,(unsigned long)d->e,d->op?d->op->app->name.c_str():"-",d->op?d->op->desc.c_str():KN[d->k],d->done?rcs(d->rc):"(unfinished)",mask_bits(d->out).str().c_str(),d->cbn,d->cbn?mask_bits(d->cbm).str().c_str():"",d->open?" open":""); logf("lin=%d nodes=%zu gaveup=%d",lin,L.nodes,L.gaveup); }
  if(!lin){ std::set<std::string> at; std::string fr; std::string cls="unexplained"; u64 best=~0ULL; for(int i:L.frontier) if(i>=0){ D* d=hs[i]; auto s=attrib(d->k,d); at.insert(s.begin(),s.end()); fr+=(d->op?d->op->app->name+" "+d->op->desc:std::string(KN[d->k]))+" -> "+(d->done?rcs(d->rc):"unfinished")+" "+mask_bits(d->out).str()+(d->cbn?" told "+mask_bits(d->cbm).str():"")+(d->list.size()?" list of "+std::to_string(d->list.size()):"")+"; "; if(d->e<best&&d->done){ best=d->e; cls=std::string("unexplained-")+KN[d->k]; } }
    bool died=false; for(D* d:hs) if(d->k==K_CRASH) died=true; if(died) at.insert("C22"); // the others, or the clean up, misbehave after a death
    if(at.count(P)) fail(P,cls,"no order of the calls explains: %s in state%s",fr.c_str(),M.str(L.best_state).c_str()); }
  for(auto& r:R_) if(!r.a->dead) kill_proc(r.a->p,X_NORMAL);
}
