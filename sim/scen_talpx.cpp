// External view of TALP data (C26): processes publish the times of their regions while other processes, observers and threads read them,
// with initialization and finalization cycles, resets, administrators that come and go and processes that die; and node metrics collectives.
#include "world.h"
#include <memory>
#include <cmath>
#include <climits>
#include <cstdarg>
namespace {
const char* P="C26";
struct Ver { u64 s,e; i64 mpi,useful,mpi0,useful0; bool reset; };
struct Life { std::string name; dlb_monitor_t* h=nullptr; u64 rs,re,fs=~0ULL,fe=~0ULL; std::vector<Ver> v; bool unknown=false; };
struct XA { App* a; bool obs=false, plain=false, multi=false, up=false, att=false, unsure=false; std::vector<std::unique_ptr<Life>> L; std::vector<Life*> cur; u64 is=0,ie=0,fs=~0ULL,fe=~0ULL; bool everup=false; std::vector<std::array<u64,4>> past; u64 deadat=~0ULL; std::vector<std::array<u64,2>> own; };
enum { R_TIMES, R_NODE, R_QUERY, R_PIDS };
struct Rd { Op* o; int kind; int by,of; std::string name; int rc=0, n=0, max=0; std::vector<dlb_node_times_t> v; dlb_node_metrics_t m; double mpi=0,us=0; std::vector<int> pids; bool open,own0=false,up=false; };
struct X { World& w; Run& run; Rng& g; std::vector<XA> a; std::vector<std::unique_ptr<Rd>> R; std::vector<std::string> names; int nr=0; bool anyinit=false; std::vector<std::array<u64,2>> talpup;   // [first possible, certain)
  X(World& ww,Run& r):w(ww),run(r),g(ww.rng){}
  static i64 ns(double s){ return llround(s*1e9); }
  // --- writers
  struct WOp { Op* o; int ai,k; Life* l; };
  void snap0(XA& x,std::vector<Ver>& t){ for(Life* l:x.cur) t.push_back({0,0,0,0,l->h->mpi_time,l->h->useful_time,false}); }
  Op* wr(int ai,int t,int k,int r){ XA& x=a[ai]; App* ap=x.a; const char* N[]={"Register","Start","Stop","Reset","Update","IntoSync","OutOfSync","IntoSync collective","OutOfSync collective"}; Op* o=w.mk(ap,O_CUSTOM); o->desc="t"+std::to_string(t)+" "+N[k]+(k<4?" "+names[r]:""); X* X_=this; std::string nm=names[r];
    o->fn=[X_,ai,k,r,nm]{ XA& x=X_->a[ai]; Api* A=x.a->a; ((void(*)(void*))A->sym("spd_enter_dlb"))(nullptr); if(!x.up) return 0; Life* l=nullptr; for(Life* q:x.cur) if(q->name==nm) l=q; u64 s=X_->w.seq;
      std::vector<std::pair<i64,i64>> b; for(Life* q:x.cur) b.push_back({q->h->mpi_time,q->h->useful_time}); size_t nb=b.size(); int rc=0;
      if(k==0){ dlb_monitor_t* h=A->DLB_MonitoringRegionRegister(nm.c_str()); if(!h) fail(P,"register","registering %s failed",nm.c_str()); else if(!l){ Life* z=new Life; z->name=nm; z->h=h; z->rs=s; z->re=~0ULL; z->v.push_back({s,s,0,0,0,0,false}); x.L.emplace_back(z); x.cur.push_back(z); z->re=X_->w.seq+1; } return 0; }
      dlb_monitor_t* h=nullptr; if(k<4&&r){ if(!l) return 0; h=l->h; }
      if(k==1) rc=A->DLB_MonitoringRegionStart(h); else if(k==2) rc=A->DLB_MonitoringRegionStop(h); else if(k==3) rc=A->DLB_MonitoringRegionReset(h); else if(k==4) rc=A->DLB_MonitoringRegionsUpdate();
      else { syncflags f{true,true,k>=7,false,false}; ((void(*)(syncflags))A->sym(k%2?"into_sync_call":"out_of_sync_call"))(f); }
      if(k==5||k==6) return rc;
      u64 e=X_->w.seq+1; for(size_t i=0;i<nb&&i<x.cur.size();i++){ Life* q=x.cur[i]; bool rs=k==3&&rc==0&&(r?q==l:q->name=="Global"); q->v.push_back({s,e,q->h->mpi_time,q->h->useful_time,b[i].first,b[i].second,rs}); }
      return rc; };
    w.post(ap->th[t],o); return o; }
  // --- readers
  Op* rd(int ai,int t,int kind,int of,const std::string& nm,int max,bool fixed=false){ XA& x=a[ai]; R.emplace_back(new Rd); Rd* q=R.back().get(); q->kind=kind; q->by=ai; q->of=of; q->name=nm; q->max=max; const char* N[]={"GetTimes","GetNodeTimes","QueryPOPNodeMetrics","GetPidList"}; Op* o=fixed?w.mkf(x.a,O_CUSTOM):w.mk(x.a,O_CUSTOM); q->o=o; bool nul=nm=="Global"&&g.chance(0.5);
    o->desc="t"+std::to_string(t)+" "+N[kind]+" "+(kind==R_TIMES?of>=0?a[of].a->name:"nobody":kind<3?nm:""); int pid=of>=0?of==ai&&g.chance(0.5)?0:a[of].a->p->pid:77777; q->own0=pid==0; X* X_=this;
    o->fn=[q,pid,nul,X_,ai]{ Api* A=X_->a[ai].a->a; q->up=X_->a[ai].up; q->open=(X_->a[ai].up&&(!X_->a[ai].plain||q->kind==R_PIDS))||X_->a[ai].att; const char* n=nul?nullptr:q->name.c_str(); switch(q->kind){ case R_TIMES: q->mpi=q->us=-7; q->rc=A->DLB_TALP_GetTimes(pid,&q->mpi,&q->us); break;
        case R_NODE: { q->v.resize(q->max+1); memset(q->v.data(),0x55,sizeof(dlb_node_times_t)*(q->max+1)); q->n=-1; q->rc=A->DLB_TALP_GetNodeTimes(n,q->v.data(),&q->n,q->max); break; }
        case R_QUERY: memset(&q->m,0,sizeof q->m); q->rc=A->DLB_TALP_QueryPOPNodeMetrics(n,&q->m); break;
        case R_PIDS: q->pids.assign(q->max+1,-5); q->n=-1; q->rc=A->DLB_TALP_GetPidList(q->pids.data(),&q->n,q->max); break; } return q->rc; };
    if(!fixed) w.post(x.a->th[t],o); return o; }
  // possible values of a life for a read in [s,e]
  struct Rg { i64 m0,m1,u0,u1; bool any=false, exact=false; };
  bool exists(Life& l,u64 s,u64 e){ return l.re<s&&l.fs>e; }  bool maybe(Life& l,u64 s,u64 e){ return l.rs<=e&&l.fe>=s; }
  Rg range(XA& x,Life& l,u64 s,u64 e,std::vector<std::pair<i64,i64>>* cand){ Rg r; r.m0=r.u0=INT64_MAX; r.m1=r.u1=-1; r.any=true; 
    if(l.unknown&&e>=l.fs){ r.m0=r.u0=0; r.m1=r.u1=INT64_MAX; return r; }
    if(!x.multi){ size_t b=0; for(size_t k=0;k<l.v.size();k++) if(l.v[k].e<s||k==0) b=k; int n=0; for(size_t k=b;k<l.v.size();k++){ if(k>b&&l.v[k].s>e) break; n++; r.m0=std::min(r.m0,l.v[k].mpi); r.m1=std::max(r.m1,l.v[k].mpi); r.u0=std::min(r.u0,l.v[k].useful); r.u1=std::max(r.u1,l.v[k].useful); if(cand) cand->push_back({l.v[k].mpi,l.v[k].useful}); } r.exact=n==1; return r; }
    r.m0=r.u0=0; r.m1=r.u1=INT64_MAX; for(Ver& v:l.v){ if(v.e<s){ r.m0=std::max(r.m0,v.mpi0); r.u0=std::max(r.u0,v.useful0); } if(v.e>e){ r.m1=std::min(r.m1,v.mpi); r.u1=std::min(r.u1,v.useful); } } return r; }
  bool okval(XA& x,const std::string& nm,i64 mpi,i64 us,u64 s,u64 e,std::string& why){ bool any=false; for(auto& lp:x.L){ Life& l=*lp; if(l.name!=nm||!maybe(l,s,e)) continue; any=true; std::vector<std::pair<i64,i64>> c; Rg r=range(x,l,s,e,&c); bool m,u; if(c.empty()){ m=mpi>=r.m0&&mpi<=r.m1; u=us>=r.u0&&us<=r.u1; } else { m=u=false; for(auto& q:c){ m|=q.first==mpi; u|=q.second==us; } } if(m&&u) return true; char b[200]; snprintf(b,sizeof b," (it published MPI %lld..%lld useful %lld..%lld)",(long long)r.m0,(long long)r.m1,(long long)r.u0,(long long)r.u1); why+=b; }
    if(!any) why=" (it has no such region)"; return false; }
  int definite(const std::string& nm,u64 s,u64 e,int* poss){ int d=0; *poss=0; for(XA& x:a){ bool D=false,M=false; for(auto& l:x.L) if(l->name==nm){ if(exists(*l,s,e)) D=true; if(maybe(*l,s,e)) M=true; } d+=D; *poss+=M; } return d; }
  void check(Rd* q){ Op* o=q->o; if(o->skip||!o->done) return; u64 s=o->s,e=o->e; const char* d=o->desc.c_str(); const char* by=a[q->by].a->name.c_str(); int poss,def=definite(q->name,s,e,&poss);
    auto bad=[&](const char* cls,const char* f,...) __attribute__((format(printf,3,4))){ char b[500]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); fail(P,cls,"%s of %s: %s",d,by,b); };
    if(q->kind==R_TIMES){ XA* x=q->of>=0?&a[q->of]:nullptr; if(x&&q->of==q->by){ if(q->own0&&q->rc!=(q->up?0:DLB_ERR_NOTALP)) bad("rc","returned %s, must be %s",rcs(q->rc),q->up?"SUCCESS":"ERR_NOTALP"); return; }      // its own times are read from the process itself
      if(!q->open){ if(q->rc!=DLB_ERR_NOSHMEM) bad("rc","returned %s, must be ERR_NOSHMEM",rcs(q->rc)); return; }
      bool D=false,M=false; if(x) for(auto& l:x->L) if(l->name=="Global"){ D|=exists(*l,s,e); M|=maybe(*l,s,e); }
      if(q->rc==DLB_ERR_NOPROC){ if(D) bad("missing","the process is not found"); return; } if(q->rc!=0){ bad("rc","returned %s",rcs(q->rc)); return; } if(!M){ bad("ghost","times of a process that has no region"); return; }
      std::string why; if(!okval(*x,"Global",ns(q->mpi),ns(q->us),s,e,why)) bad("value","MPI time %lld useful time %lld%s",(long long)ns(q->mpi),(long long)ns(q->us),why.c_str()); return; }
    if(q->kind==R_PIDS){ if(!q->open){ if(q->rc!=DLB_ERR_NOSHMEM) bad("rc","returned %s, must be ERR_NOSHMEM",rcs(q->rc)); return; } if(q->rc){ bad("rc","returned %s",rcs(q->rc)); return; } std::set<int> seen; if(q->n<0||q->n>q->max){ bad("count","%d elements of %d",q->n,q->max); return; }
      int D=0; for(XA& x:a){ bool dd=false,mm=false; auto look=[&](u64 is,u64 ie,u64 fs,u64 fe){ if(ie<s&&fs>e) dd=true; if(is<=e&&fe>=s) mm=true; }; for(auto& p:x.past) look(p[0],p[1],p[2],p[3]); if(x.everup) look(x.is,x.ie,x.fs,x.fe); D+=dd; bool in=false; for(int i=0;i<q->n;i++) if(q->pids[i]==x.a->p->pid){ in=true; seen.insert(q->pids[i]); } if(in&&!mm){ bad("pids","process %s is listed but it is not registered",x.a->name.c_str()); return; } if(!in&&dd&&q->n<q->max){ bad("pids","process %s is not listed",x.a->name.c_str()); return; } }
      if((int)seen.size()!=q->n) bad("pids","%d elements, only %d of them are different registered processes",q->n,(int)seen.size()); else if(q->n<std::min(q->max,D)) bad("pids","%d elements only",q->n); return; }
    // shared by NodeTimes and Query: is the table there?
    if(!q->open){ if(q->rc!=DLB_ERR_NOSHMEM) bad("rc","returned %s, must be ERR_NOSHMEM",rcs(q->rc)); return; }
    int gp,gd=definite("Global",s,e,&gp);
    if(q->rc==DLB_ERR_NOSHMEM){ if(gd) bad("rc","returned ERR_NOSHMEM while a process publishes"); return; }
    if(q->kind==R_NODE){ if(q->rc){ bad("rc","returned %s",rcs(q->rc)); return; } if(q->n<0||q->n>q->max){ bad("count","%d elements of %d",q->n,q->max); return; } if(*(unsigned char*)&q->v[q->n]!=0x55){ bad("overrun","written beyond the number of elements"); return; }
      int prev=-1; for(int i=0;i<q->n;i++){ dlb_node_times_t& t=q->v[i]; if(t.pid<=prev){ bad("order","processes are repeated or not sorted"); return; } prev=t.pid; XA* x=nullptr; for(XA& y:a) if(y.a->p->pid==t.pid) x=&y; if(!x){ bad("ghost","unknown process %d",t.pid); return; } std::string why; if(!okval(*x,q->name,t.mpi_time,t.useful_time,s,e,why)){ bad("value","process %s MPI time %lld useful time %lld%s",x->a->name.c_str(),(long long)t.mpi_time,(long long)t.useful_time,why.c_str()); return; } }
      if(q->n<std::min(q->max,def)) bad("missing","%d processes, %d have the region",q->n,def); return; }
    // aggregates
    i64 um0=0,um1=0,uu0=0,uu1=0,mm0=0,mm1=0,mu0=0,mu1=0; int c0=0,c1=0; bool ex=true; auto add=[](i64 x,i64 y){ return x>INT64_MAX-y?INT64_MAX:x+y; };
    for(XA& x:a){ Rg t; t.m0=t.u0=INT64_MAX; t.m1=t.u1=0; bool any=false,sure=false; int nl=0; for(auto& l:x.L) if(l->name==q->name&&maybe(*l,s,e)){ Rg r=range(x,*l,s,e,nullptr); any=true; nl++; if(exists(*l,s,e)) sure=true; t.m0=std::min(t.m0,r.m0); t.u0=std::min(t.u0,r.u0); t.m1=std::max(t.m1,r.m1); t.u1=std::max(t.u1,r.u1); if(!r.exact) ex=false; } if(!any) continue; if(!sure){ ex=false; t.m0=t.u0=0; } if(nl>1) ex=false;
      um0+=t.m0; um1=add(um1,t.m1); uu0+=t.u0; uu1=add(uu1,t.u1); mm0=std::max(mm0,t.m0); mm1=std::max(mm1,t.m1); mu0=std::max(mu0,t.u0); mu1=std::max(mu1,t.u1); if(t.m0>0||t.u0>0) c0++; if(t.m1>0||t.u1>0) c1++; }
    if(q->rc==DLB_ERR_NOENT){ if(c0) bad("missing","no data, %d processes have published some",c0); return; } if(q->rc){ bad("rc","returned %s",rcs(q->rc)); return; } dlb_node_metrics_t& m=q->m;
    if(m.processes_per_node<c0||m.processes_per_node>c1||m.processes_per_node<1){ bad("processes","%d processes, must be %d..%d",m.processes_per_node,c0,c1); return; }
    if(m.total_mpi_time<um0||m.total_mpi_time>um1||m.total_useful_time<uu0||m.total_useful_time>uu1||m.max_mpi_time<mm0||m.max_mpi_time>mm1||m.max_useful_time<mu0||m.max_useful_time>mu1){ bad("aggregate","totals MPI %lld useful %lld, max MPI %lld useful %lld; must be %lld..%lld %lld..%lld %lld..%lld %lld..%lld",(long long)m.total_mpi_time,(long long)m.total_useful_time,(long long)m.max_mpi_time,(long long)m.max_useful_time,(long long)um0,(long long)um1,(long long)uu0,(long long)uu1,(long long)mm0,(long long)mm1,(long long)mu0,(long long)mu1); return; }
    if(strncmp(m.name,q->name.c_str(),DLB_MONITOR_NAME_MAX-1)){ bad("name","name %.60s",m.name); return; }
    derived(m,d); if(ex) probe("exact_aggregate"); }
  void derived(dlb_node_metrics_t& m,const char* d){ double u=m.total_useful_time,p=m.total_mpi_time,mx=m.max_useful_time,n=m.processes_per_node; i64 el=n>0?(m.total_useful_time+m.total_mpi_time)/m.processes_per_node:0; if(u<=0||mx<=0||el<=0) return; double pe=u/(u+p), lb=(u/n)/mx, ce=mx/el; auto far=[](double x,double y){ return std::fabs(x-y)>1e-4*std::max(1.0,std::fabs(y)); };
    if(far(m.parallel_efficiency,pe)||far(m.load_balance,lb)||far(m.communication_efficiency,ce)) fail(P,"efficiency","%s: efficiencies %.5f %.5f %.5f, must be %.5f %.5f %.5f",d,m.parallel_efficiency,m.communication_efficiency,m.load_balance,pe,ce,lb); }
  // reads of the same region that follow one another must not go back
  void monotone(){ struct S { u64 s,e; int pid; std::string n; i64 m,u; }; std::vector<S> v; for(auto& q:R){ Op* o=q->o; if(o->skip||!o->done||q->rc) continue; if(q->kind==R_TIMES&&q->of>=0&&q->of!=q->by) v.push_back({o->s,o->e,a[q->of].a->p->pid,"Global",ns(q->mpi),ns(q->us)}); if(q->kind==R_NODE) for(int i=0;i<q->n;i++) v.push_back({o->s,o->e,q->v[i].pid,q->name,q->v[i].mpi_time,q->v[i].useful_time}); }
    for(S& x:v) for(S& y:v) if(x.e<y.s&&x.pid==y.pid&&x.n==y.n&&(y.m<x.m||y.u<x.u)){ XA* z=nullptr; for(XA& q:a) if(q.a->p->pid==x.pid) z=&q; bool brk=false; for(auto& l:z->L) if(l->name==x.n){ if(l->rs>=x.s&&l->rs<=y.e) brk=true; for(Ver& r:l->v) if(r.reset&&r.e>=x.s&&r.s<=y.e) brk=true; if(l->fe>=x.s&&l->fs<=y.e) brk=true; } if(brk) continue; fail(P,"backwards","region %s of %s: times %lld/%lld were read, and later %lld/%lld",x.n.c_str(),z->a->name.c_str(),(long long)x.m,(long long)x.u,(long long)y.m,(long long)y.u); return; } }
  bool stuck(){ if(w.settle()) return false; fail("*","stuck","calls do not finish: %s",w.stuck().c_str()); return true; }
  void init(int ai){ XA& x=a[ai]; w.post(x.a->th[0],initop(ai)); }
  Op* initop(int ai){ XA& x=a[ai]; X* X_=this; Op* o=w.mkf(x.a,O_CUSTOM); o->desc="Init"; o->fn=[X_,ai]{ XA& x=X_->a[ai]; App* p=x.a; if(x.up) return 0; if(x.everup) x.past.push_back({x.is,x.ie,x.fs,x.fe}); x.everup=true; x.is=X_->w.seq; x.ie=x.fs=x.fe=~0ULL; Life* z=nullptr; bool talp=!x.plain; if(talp){ z=new Life; z->name="Global"; z->rs=x.is; z->re=~0ULL; z->v.push_back({x.is,x.is,0,0,0,0,false}); x.L.emplace_back(z); }
      p->a->mu_testing_set_sys(X_->w.ncpu,X_->w.ncpu,1); std::string ar="--shm-key="+p->key+" "+p->args; int rc=p->a->DLB_Init(p->ncpus,&p->own.s,ar.c_str()); if(rc<0){ fail("*","init","DLB_Init = %s",rcs(rc)); return rc; } x.ie=X_->w.seq+1; x.up=true; if(talp){ z->h=p->a->DLB_MonitoringRegionGetGlobal(); z->re=x.ie; x.cur.assign(1,z); if(!z->h) fail(P,"global","no global region"); } return rc; }; return o; }
  Op* finop(int ai){ XA& x=a[ai]; X* X_=this; Op* o=w.mkf(x.a,O_CUSTOM); o->desc="Finalize"; o->fn=[X_,ai]{ XA& x=X_->a[ai]; if(!x.up) return 0; u64 s=X_->w.seq; x.fs=s; for(Life* l:x.cur){ l->fs=s; l->unknown=true; } x.up=false; x.cur.clear(); int rc=x.a->a->DLB_Finalize(); u64 e=X_->w.seq+1; x.fe=e; for(auto& l:x.L) if(l->fs==s) l->fe=e; return rc; }; return o; }
  Op* attop(int ai,bool on){ XA& x=a[ai]; X* X_=this; Op* o=w.mkf(x.a,O_CUSTOM); o->desc=on?"TALP_Attach":"TALP_Detach"; o->fn=[X_,ai,on]{ XA& x=X_->a[ai]; Api* A=x.a->a; if(on==x.att) return 0; A->mu_testing_set_sys(X_->w.ncpu,X_->w.ncpu,1); int rc; if(on){ rc=A->DLB_TALP_Attach(); x.att=true; } else { x.att=false; rc=A->DLB_TALP_Detach(); } if(rc) fail(P,"attach","%s = %s",on?"Attach":"Detach",rcs(rc)); return rc; }; return o; }
};
}
SCENARIO(talpx){
  World w(run); Rng& g=w.rng; if(run.cfg.pstall>0) run.cfg.stall_ns=std::min<u64>(run.cfg.stall_ns,3000000); run.cfg.clk_gran=std::min<u64>(run.cfg.clk_gran,1000000); int n=g.range(2,8); w.ncpu=w.ncore=n; w.nnode=1; w.tpc=1; run.nontrivial=true; X x(w,run); x.names={"Global","a","ab","Globals"};
  bool collect=g.chance(0.3); int na=g.range(collect?2:1,std::min(n,4)), no=g.range(0,std::min(2,n-na)); int mult=g.chance(0.7)?1:g.range(2,3); std::string ms=mult>1?" --shm-size-multiplier="+std::to_string(mult):"";
  struct Bye { World& w; ~Bye(){ for(App* a:w.apps) if(a->p&&!a->dead) kill_proc(a->p,X_NORMAL); } } bye{w};
  bool ext=!collect||g.chance(0.3); std::string base="--lewi=no --drom=no"+ms; int lim=collect?0:1;
  for(int i=0;i<na+no;i++){ XA q; q.obs=i>=na; q.plain=!q.obs&&i>0&&lim&&g.chance(0.15); std::string ar=base+" --talp"+(ext?" --talp-external-profiler":""); if(q.plain) ar=base+" --talp"; if(collect&&!ext&&(run.seed>>5)%3==0&&na*3<=n*mult) ar+=" --talp-summary=node"; if(!q.plain) ar+=" --talp-output-file=/o/t"+std::to_string(i)+".json";
    Mask m; if(!q.obs) for(int c=i*n/na;c<(i+1)*n/na;c++) m.add(c); q.a=w.add_app(std::string(1,q.obs?'X'+i-na:'A'+i),m,ar); q.a->ncpus=m.count(); x.a.push_back(std::move(q)); }
  for(size_t i=0;i<x.a.size();i++){ App* p=x.a[i].a; w.launch(p); p->p->env["DLB_ARGS"]="--shm-key="+p->key+ms; int t=collect?0:g.range(0,2); for(int k=0;k<t;k++) w.add_thread(p); x.a[i].multi=t>0&&g.chance(0.4); }
  if(collect){ // ---- collectives: every process must obtain the same sums
    int rounds=g.range(1,8), nreg=g.range(1,3); for(int i=0;i<na;i++) x.init(i); for(int i=0;i<no;i++) if(g.chance(0.6)) w.post(x.a[na+i].a->th[0],x.attop(na+i,true)); if(x.stuck()) return;
    struct Res { dlb_node_metrics_t m; int rc=-99; i64 mpi=0,us=0; bool reg=false; }; std::vector<std::vector<Res>> res(rounds,std::vector<Res>(na)); std::vector<int> reg(rounds); for(auto& r:reg) r=g.below(nreg); std::vector<std::vector<dlb_monitor_t*>> H(na,std::vector<dlb_monitor_t*>(4,nullptr)); std::vector<Op*> fx; X* X_=&x;
    for(int i=0;i<na;i++){ Op* o=w.mkf(x.a[i].a,O_CUSTOM); o->desc="register"; o->fn=[X_,i,&H,nreg]{ Api* A=X_->a[i].a->a; H[i][0]=A->DLB_MonitoringRegionGetGlobal(); for(int r=1;r<nreg;r++) H[i][r]=A->DLB_MonitoringRegionRegister(X_->names[r].c_str()); return 0; }; w.run(o); }
    for(int i=0;i<na;i++){ App* ap=x.a[i].a; for(int r=0;r<rounds;r++){ int k=g.below(5); for(int q=0;q<k;q++){ int c=g.below(6), rr=g.below(nreg); Op* o=w.mk(ap,c<2?O_SLEEP:O_CUSTOM); if(c<2) o->ns=1+g.below(1ULL<<g.range(4,24)); else { o->desc=c==2?"Start":c==3?"Stop":c==4?"IntoSync":"OutOfSync"; o->fn=[X_,i,&H,c,rr]{ Api* A=X_->a[i].a->a; if(c==2) return A->DLB_MonitoringRegionStart(H[i][rr]); if(c==3) return A->DLB_MonitoringRegionStop(H[i][rr]); syncflags f{true,true,false,false,false}; ((void(*)(syncflags))A->sym(c==4?"into_sync_call":"out_of_sync_call"))(f); return 0; }; } w.post(ap->th[0],o); }
        Op* o=w.mkf(ap,O_CUSTOM); o->desc="CollectPOPNodeMetrics "+x.names[reg[r]]; Res* q=&res[r][i]; int rg=reg[r]; o->fn=[X_,i,&H,q,rg]{ Api* A=X_->a[i].a->a; memset(&q->m,0,sizeof q->m); q->m.processes_per_node=-1; q->rc=A->DLB_TALP_CollectPOPNodeMetrics(rg==0?nullptr:H[i][rg],&q->m); q->mpi=H[i][rg]->mpi_time; q->us=H[i][rg]->useful_time; return q->rc; }; w.post(ap->th[0],o); } }
    for(int i=0;i<no;i++){ int k=g.below(8); for(int q=0;q<k;q++){ App* ap=x.a[na+i].a; if(g.chance(0.5)){ Op* z=w.mk(ap,O_SLEEP); z->ns=1+g.below(1ULL<<g.range(4,22)); w.post(ap->th[0],z); } else w.post(ap->th[0],x.attop(na+i,g.chance(0.5))); } }
    if(x.stuck()||!run.viol.empty()) return; probe("collectives");
    for(int r=0;r<rounds;r++){ i64 M=0,U=0,mM=0,mU=0; int c=0; for(auto& q:res[r]){ M+=q.mpi; U+=q.us; mM=std::max(mM,q.mpi); mU=std::max(mU,q.us); c+=q.mpi>0||q.us>0; } for(int i=0;i<na;i++){ Res& q=res[r][i]; dlb_node_metrics_t& m=q.m; if(q.rc){ fail(P,"rc","CollectPOPNodeMetrics of %s = %s",x.a[i].a->name.c_str(),rcs(q.rc)); return; } if(!c) continue; 
        if(m.processes_per_node!=c||m.total_mpi_time!=M||m.total_useful_time!=U||m.max_mpi_time!=mM||m.max_useful_time!=mU){ fail(P,"collective","collective %d (%s) in %s: %d processes, totals MPI %lld useful %lld max %lld %lld; must be %d %lld %lld %lld %lld",r,x.names[reg[r]].c_str(),x.a[i].a->name.c_str(),m.processes_per_node,(long long)m.total_mpi_time,(long long)m.total_useful_time,(long long)m.max_mpi_time,(long long)m.max_useful_time,c,(long long)M,(long long)U,(long long)mM,(long long)mU); return; } x.derived(m,"collective"); } }
    for(int i=0;i<no;i++) w.post(x.a[na+i].a->th[0],x.attop(na+i,false)); for(int i=0;i<na;i++) w.post(x.a[i].a->th[0],x.finop(i)); x.stuck(); return; }
  // ---- publishers and readers
  for(int i=0;i<na;i++) if(i==0||g.chance(0.8)) x.init(i); for(int i=0;i<no;i++) if(g.chance(0.8)) w.post(x.a[na+i].a->th[0],x.attop(na+i,true)); if(x.stuck()||!run.viol.empty()) return;
  int phases=g.range(1,4); bool churn=g.chance(0.4), deaths=g.chance(0.2);
  for(int ph=0;ph<phases&&run.viol.empty();ph++){
    size_t r0=x.R.size(); (void)r0; int k=g.range(5,40);
    for(int q=0;q<k;q++){ int ai=g.below(x.a.size()); XA& y=x.a[ai]; if(y.a->dead) continue; int nt=y.a->th.size(), t=g.below(nt); int c=g.below(20);
      if(c<3){ Op* z=w.mk(y.a,O_SLEEP); z->ns=1+g.below(1ULL<<g.range(4,24)); w.post(y.a->th[t],z); continue; }
      if(c<9||y.obs||y.plain){ int kind=g.below(4), of=g.chance(0.95)?g.below(x.a.size()):-1; if(nt>1&&churn&&!y.obs&&t>0) continue; if(y.obs&&churn) t=0; x.rd(ai,t,kind,of,x.names[g.below(g.chance(0.7)?2:x.names.size())],g.chance(0.8)?8:g.below(4)); if(y.obs&&churn&&g.chance(0.2)) w.post(y.a->th[0],x.attop(ai,g.chance(0.6))); if(!y.plain||!churn||nt>1||!g.chance(0.2)) continue; w.post(y.a->th[0],y.everup&&g.chance(0.5)?x.finop(ai):x.initop(ai)); continue; }
      if(c==9&&churn&&nt==1){ w.post(y.a->th[0],g.chance(0.5)?x.finop(ai):x.initop(ai)); continue; }
      if(!y.multi||!churn) {} int kk=g.below(12); int op=kk<1?0:kk<4?1:kk<6?2:kk==6?(y.multi?4:3):kk<9?4:5+g.below(4); if(y.multi&&op==0) op=1;
      int tt=y.multi&&op!=0?t:0; if(!y.multi&&nt>1&&t>0&&(op==5||op==6)) tt=t; x.wr(ai,tt,op,g.below(g.chance(0.7)?2:x.names.size())); }
    if(x.stuck()||!run.viol.empty()) return;
    for(auto& q:x.R) if(run.viol.empty()) x.check(q.get()); if(run.viol.empty()) x.monotone(); if(!run.viol.empty()) return; x.R.clear();
    // quiescent: what is read is what the process reports
    std::vector<int> rdrs; for(size_t i=0;i<x.a.size();i++) if(!x.a[i].a->dead&&(x.a[i].up||x.a[i].att)&&!x.a[i].plain) rdrs.push_back(i);
    if(rdrs.size()){ int ri=rdrs[g.below(rdrs.size())]; for(auto& nm:x.names){ Op* o=x.rd(ri,0,R_NODE,-1,nm,8,true); Rd* q=x.R.back().get(); if(!w.run(o)){ x.stuck(); return; } x.check(q); if(!run.viol.empty()) return; if(q->rc==0) for(XA& y:x.a) if(!y.a->dead&&y.up) for(Life* l:y.cur) if(l->name==nm){ bool f=false; for(int i=0;i<q->n;i++) if(q->v[i].pid==y.a->p->pid){ f=true; if(q->v[i].mpi_time!=l->h->mpi_time||q->v[i].useful_time!=l->h->useful_time){ fail(P,"quiescent","nothing is running: region %s of %s has MPI time %lld useful time %lld, others read %lld %lld",nm.c_str(),y.a->name.c_str(),(long long)l->h->mpi_time,(long long)l->h->useful_time,(long long)q->v[i].mpi_time,(long long)q->v[i].useful_time); return; } } if(!f){ fail(P,"missing","region %s of %s is not found",nm.c_str(),y.a->name.c_str()); return; } } 
        Op* o2=x.rd(ri,0,R_QUERY,-1,nm,8,true); q=x.R.back().get(); if(!w.run(o2)){ x.stuck(); return; } x.check(q); } 
      for(size_t of=0;of<x.a.size()&&run.viol.empty();of++){ Op* o=x.rd(ri,0,R_TIMES,of,"Global",8,true); Rd* q=x.R.back().get(); if(!w.run(o)){ x.stuck(); return; } x.check(q); } if(run.viol.empty()){ Op* o=x.rd(ri,0,R_PIDS,-1,"",g.chance(0.7)?12:g.below(4),true); Rd* q=x.R.back().get(); if(!w.run(o)){ x.stuck(); return; } x.check(q); } if(run.viol.empty()) x.monotone(); x.R.clear(); probe("quiescent_reads"); }
    if(deaths&&g.chance(0.4)){ int ai=g.below(x.a.size()); XA& y=x.a[ai]; if(!y.a->dead){ y.a->expect_death=true; kill_proc(y.a->p,X_CRASH); y.a->dead=true; u64 s=w.seq; for(Life* l:y.cur) l->fs=s; if(y.everup&&y.up) y.fs=s; y.up=false; y.att=false; y.cur.clear(); fired("crash_idle"); } } }
  if(!run.viol.empty()) return;
  for(size_t i=0;i<x.a.size();i++) if(!x.a[i].a->dead) w.post(x.a[i].a->th[0],x.a[i].obs?x.attop(i,false):x.finop(i)); if(x.stuck()) return;
}
