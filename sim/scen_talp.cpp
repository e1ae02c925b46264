// TALP accounting and region semantics (C24, C25): a process with several threads starts, stops, resets and registers regions,
// makes synchronization calls and runs OpenMP-like teams; every time comes from the simulated clock, so what the regions must
// contain is known exactly when calls do not overlap, and up to the length of the overlapping calls when they do.
#include "world.h"
#include "lin.h"
#include <memory>
#include <cmath>
extern "C" { typedef struct { bool ready; unsigned level; const void* codeptr_ra; void* omptm; void* talp; unsigned requested __attribute__((aligned(64))); unsigned actual; } __attribute__((aligned(64))) par_t; }
namespace {
enum { S_DIS, S_USE, S_MPI, S_IN, S_OUT };
enum { K_REG, K_START, K_STOP, K_STOPLAST, K_RESET, K_UPDATE, K_INTO, K_OUTOF, K_OBS, K_REPORT, K_GETG, K_TIMES, K_SLEEP, K_OMP };
struct Tr { u64 a,b,s,e; int st; bool back; };
struct Ev { u64 s,e; int k; };                     // 0: sync call, 1: parallel, 2: task
struct Iv { u64 s0,s1,e0,e1,ss,se,es,ee; bool open; };
struct Rg { std::string name; dlb_monitor_t* h=nullptr; bool started=false, enabled=true, anon=false; std::vector<Iv> iv; int nm=0, nr=0; i64 el0=0,el1=0; double sched_lo=0,sched_hi=0; bool fuzzy=false; };
struct Th { std::vector<Tr> tr; std::vector<Ev> ev; bool touched=false, obs=false; int st() const { return tr.empty()?S_DIS:tr.back().st; } };
struct Rec { Op* o; int th,k,r; int rc=0; dlb_monitor_t* got=nullptr; dlb_monitor_t* arg=nullptr; i64 st=0,en=0; int flag=0; double d1=0,d2=0; std::string nm; };
struct TP { World& w; Run& run; App* a; std::vector<Rg> rg; std::vector<Th> th; std::vector<std::unique_ptr<Rec>> recs; std::vector<int> order; bool exact=true, unsure=false, ext=false, fresh_conc=false; u64 gran; std::string select; int anon=0;
  TP(World& ww,Run& rr):w(ww),run(rr){ gran=rr.cfg.clk_gran?rr.cfg.clk_gran:1; }
  u64 fl(u64 t){ return t/gran*gran; }
  dlb_monitor_t* arg(int r){ return r==0&&(run.seed>>3)%2?nullptr:rg[r].h; }
  Op* op(int t,int k,int r,int flag=0){
    recs.emplace_back(new Rec); Rec* c=recs.back().get(); c->th=t; c->k=k; c->r=r; c->flag=flag; Op* o=w.mk(a,O_CUSTOM); c->o=o; const char* N[]={"Register","Start","Stop","StopLast","Reset","Update","IntoSync","OutOfSync","Observer","Report","GetGlobal","GetTimes","Sleep","omp"};
    std::string nm=r>=0?rg[r].name:""; if(k==K_REG&&flag==1) for(char&ch:nm) ch=toupper(ch); c->nm=nm; char b[200]; snprintf(b,sizeof b,"t%d %s %.40s%s",t,N[k],r>=0?nm.empty()?"(anonymous)":nm.c_str():"",k==K_INTO||k==K_OUTOF?flag?" collective":"":k==K_OBS?flag?" on":" off":""); o->desc=b;
    TP* T=this; o->fn=[T,c,nm]{ Api* A=T->a->a; int k=c->k; ((void(*)(void*))A->sym("spd_enter_dlb"))(nullptr); if(k==K_START||k==K_STOP||k==K_RESET||k==K_REPORT){ c->arg=T->arg(c->r); if(c->r>0&&!c->arg){ c->rc=-99; return 0; } }
      switch(k){ case K_REG: c->got=A->DLB_MonitoringRegionRegister(nm.empty()?(c->flag?nullptr:""):nm.c_str()); break;
        case K_START: c->rc=A->DLB_MonitoringRegionStart(c->arg); if(c->rc==0){ dlb_monitor_t* m=c->arg?c->arg:T->rg[0].h; c->st=m->start_time; } break;
        case K_STOP: c->rc=A->DLB_MonitoringRegionStop(c->arg); if(c->rc==0){ dlb_monitor_t* m=c->arg?c->arg:T->rg[0].h; c->en=m->stop_time; } break;
        case K_STOPLAST: c->rc=A->DLB_MonitoringRegionStop((dlb_monitor_t*)DLB_LAST_OPEN_REGION); break;
        case K_RESET: c->rc=A->DLB_MonitoringRegionReset(c->arg); break; case K_UPDATE: c->rc=A->DLB_MonitoringRegionsUpdate(); break;
        case K_INTO: { syncflags f{true,true,c->flag!=0,false,false}; ((void(*)(syncflags))A->sym("into_sync_call"))(f); break; }
        case K_OUTOF: { syncflags f{true,true,c->flag!=0,false,false}; ((void(*)(syncflags))A->sym("out_of_sync_call"))(f); break; }
        case K_OBS: c->rc=A->DLB_SetObserverRole(c->flag); break; case K_REPORT: { std::string keep; keep.swap(T->a->p->err); c->rc=A->DLB_MonitoringRegionReport(c->arg); T->a->p->err.swap(keep); break; }
        case K_GETG: c->got=A->DLB_MonitoringRegionGetGlobal(); break;
        case K_TIMES: c->rc=A->DLB_TALP_GetTimes(c->flag?0:T->a->p->pid,&c->d1,&c->d2); break; }
      return c->rc; };
    return o; }
  void slp(int t,u64 mx){ Op* z=w.mk(a,O_SLEEP); z->ns=1+w.rng.below(mx); if(!z->skip){ w.post(a->th[t],z); } }
  // ---- what the regions must contain
  void push(int t,u64 a0,u64 b0,u64 s,u64 e,int st,bool back=false){ if(th[t].st()==st) return; th[t].tr.push_back({a0,b0,s,e,st,back}); }
  static i64 pos(i64 x){ return x>0?x:0; }
  void bounds(const Rg& R,const Iv& v,int st,i64& lo,i64& hi){      // time in state st (or -1: any measured state)
    for(Th& x:th) for(size_t i=0;i<x.tr.size();i++){ if(st>=0?x.tr[i].st!=st:x.tr[i].st==S_DIS) continue; if(st<0&&i&&x.tr[i-1].st!=S_DIS) continue;
      Tr f=x.tr[i]; if(f.back&&f.s>v.se&&(v.open||f.e<v.es)) { f.a=v.s0; f.b=v.s1; } size_t j=i+1; if(st<0) while(j<x.tr.size()&&x.tr[j].st!=S_DIS) j++; bool end=j<x.tr.size(); i64 ea=end?x.tr[j].a:INT64_MAX/2, eb=end?x.tr[j].b:INT64_MAX/2;
      if(exact){ i64 l=std::min<i64>(v.e0,ea)-std::max<i64>(v.s1,f.b), h=std::min<i64>(v.e1,eb)-std::max<i64>(v.s0,f.a); lo+=pos(l); hi+=pos(h); }
      else { lo+=pos(std::min<i64>(v.e0,ea)-std::max<i64>(v.s1,f.b)); hi+=pos(std::min<i64>(v.e1,eb)-std::max<i64>(v.s0,f.a)); } } }
  bool quiet(){ for(Th& x:th) if(x.st()==S_IN) return false; return true; }
  // check one region; `flush`: window of the last flush of an open region (0: unknown, only the closed part is looked at)
  bool check(int r,u64 f0,u64 f1,u64 fs,u64 fe,const char* when,const dlb_monitor_t* mm=nullptr){
    Rg& R=rg[r]; const dlb_monitor_t& m=mm?*mm:*R.h; const char* N=R.name.c_str(); const char* P24="C24"; if(!R.h&&!mm) return true;
    auto bad=[&](const char* cls,const char* what,i64 v,i64 lo,i64 hi){ fail(P24,cls,"%s: region %.40s %s is %lld, must be %lld..%lld",when,N,what,(long long)v,(long long)lo,(long long)hi); return false; };
    struct { const char* n; i64 v; } all[]={{"useful time",m.useful_time},{"MPI time",m.mpi_time},{"load imbalance time",m.omp_load_imbalance_time},{"scheduling time",m.omp_scheduling_time},{"serialization time",m.omp_serialization_time},{"elapsed time",m.elapsed_time},{"num MPI calls",m.num_mpi_calls}};
    if(!fresh_conc) for(auto& x:all) if(x.v<0&&(!run.cfg.pstall||x.v<-(i64)1000)) { if(exact) return bad("negative",x.n,x.v,0,INT64_MAX); }
    if(m.num_measurements!=R.nm){ fail("C25","num-measurements","%s: region %.40s has %d measurements, %d were made since its last reset",when,N,m.num_measurements,R.nm); return false; }
    if(!mm&&m.num_resets!=R.nr){ fail("C25","num-resets","%s: region %.40s has %d resets, %d were made",when,N,m.num_resets,R.nr); return false; }
    i64 elo=R.el0,ehi=R.el1; for(auto& v:R.iv) if(!v.open){ elo+=(i64)v.e0-(i64)v.s1; ehi+=(i64)v.e1-(i64)v.s0; }
    if(m.elapsed_time<elo||m.elapsed_time>ehi) return bad("elapsed","elapsed time",m.elapsed_time,elo,ehi);
    if(R.fuzzy) return true; if(!quiet()) return true;
    i64 lo[6]={0},hi[6]={0}; int c[3][2]={{0}}; 
    for(auto v:R.iv){ if(v.open){ if(!f1) return true; v.e0=f0; v.e1=f1; v.es=fs; v.ee=fe; } if(v.e1<v.s0) v.e1=v.s0; 
      bounds(R,v,-1,lo[0],hi[0]); for(int s=1;s<=4;s++) bounds(R,v,s,lo[s],hi[s]);
      for(Th& x:th) for(Ev& e:x.ev){ if(e.e<v.ss||e.s>v.ee) continue; c[e.k][1]++; if(e.s>v.se&&e.e<v.es) c[e.k][0]++; } }
    i64 tot=m.useful_time+m.mpi_time+m.omp_load_imbalance_time+m.omp_scheduling_time+m.omp_serialization_time;
    if(tot<lo[0]||tot>hi[0]) return bad("sum","total of all times",tot,lo[0],hi[0]);
    if(m.useful_time<lo[1]||m.useful_time>hi[1]) return bad("useful","useful time",m.useful_time,lo[1],hi[1]);
    if(m.mpi_time<lo[2]||m.mpi_time>hi[2]) return bad("mpi","MPI time",m.mpi_time,lo[2],hi[2]);
    i64 in=m.omp_load_imbalance_time+m.omp_scheduling_time; if(in<lo[3]||in>hi[3]) return bad("omp-in","time waiting inside parallel regions",in,lo[3],hi[3]);
    if(m.omp_serialization_time<lo[4]||m.omp_serialization_time>hi[4]) return bad("omp-out","serialization time",m.omp_serialization_time,lo[4],hi[4]);
    if(m.omp_scheduling_time<R.sched_lo-1||m.omp_scheduling_time>R.sched_hi+1) return bad("omp-sched","scheduling time",m.omp_scheduling_time,R.sched_lo,R.sched_hi);
    if(m.num_mpi_calls<c[0][0]||m.num_mpi_calls>c[0][1]) return bad("mpi-calls","number of sync calls",m.num_mpi_calls,c[0][0],c[0][1]);
    if(m.num_omp_parallels<c[1][0]||m.num_omp_parallels>c[1][1]) return bad("parallels","number of parallels",m.num_omp_parallels,c[1][0],c[1][1]);
    if(m.num_omp_tasks<c[2][0]||m.num_omp_tasks>c[2][1]) return bad("tasks","number of tasks",m.num_omp_tasks,c[2][0],c[2][1]);
    int used=0,act=0; for(Th& x:th){ used+=x.touched; act+=x.st()!=S_DIS; } if(m.num_cpus>used) return bad("ncpus","number of CPUs",m.num_cpus,0,used);
    if(R.nm&&hi[0]==lo[0]&&R.iv.size()&&(R.iv.back().open?f1!=0:true)){ i64 e=m.elapsed_time; if(e>0&&m.num_cpus<1) return bad("ncpus","number of CPUs",m.num_cpus,1,used); }
    return true; }
  void check_all(u64 f0,u64 f1,u64 fs,u64 fe,const char* when){ for(size_t i=0;i<rg.size();i++) if(run.viol.empty()) check(i,f0,f1,fs,fe,when); }
  void unorder(int r){ for(size_t i=0;i<order.size();i++) if(order[i]==r){ order.erase(order.begin()+i); return; } }
  // ---- apply a finished call of a serial phase
  void apply(Rec* c){
    Op* o=c->o; if(o->skip||!o->done||c->rc==-99) return; u64 a0=fl(o->t0), b0=fl(o->t1); if(b0<a0) b0=a0; Th& x=th[c->th]; char wh[120]; snprintf(wh,sizeof wh,"after %s",o->desc.c_str());
    auto want=[&](int e){ if(c->rc!=e){ fail("C25","rc","%s returned %s, must be %s",o->desc.c_str(),rcs(c->rc),rcs(e)); return false; } return true; };
    switch(c->k){
      case K_REG: { Rg& R=rg[c->r]; std::string n=c->nm; if(!strncasecmp(n.c_str(),"all",127)&&n.size()==3){ if(c->got) fail("C25","register","the reserved name %s was registered",n.c_str()); break; }
        if(!c->got){ fail("C25","register","registering %.40s failed",n.c_str()); break; } if(R.anon){ for(auto& q:rg) if(q.h==c->got){ fail("C25","register","an anonymous region is not a new one"); return; } R.h=c->got; break; }
        if(c->flag==1&&c->r!=0){ for(auto& q:rg) if(q.h==c->got) fail("C25","register","names %s and %s give the same region",n.c_str(),q.name.c_str()); break; }
        if(!R.h){ bool an=false; for(auto& q:rg) if(q.anon&&q.h==c->got&&q.h->name==std::string(c->nm)) an=true; if(an) break; }   // it is the name of an anonymous region: the same region
        if(R.h&&R.h!=c->got){ fail("C25","register","registering %s again gives another region",n.c_str()); break; } for(size_t i=0;i<rg.size();i++) if((int)i!=c->r&&rg[i].h==c->got){ fail("C25","register","two names give the same region"); return; }
        if(!R.h){ R.h=c->got; if(strncmp(R.h->name,R.name.c_str(),127)||R.h->elapsed_time||R.h->num_measurements) fail("C25","register","new region %s is not empty",n.c_str()); } break; }
      case K_START: { Rg& R=rg[c->r]; if(x.obs){ want(DLB_ERR_PERM); break; } if(R.started||!R.enabled){ if(!want(DLB_NOUPDT)) return; check(c->r,0,0,0,0,wh); break; } if(!want(0)) return; x.touched=true;
        if(c->st<(i64)a0||c->st>(i64)b0){ fail("C24","start-time","%s: the region starts at %lld, the call was made at %lld..%lld",wh,(long long)c->st,(long long)a0,(long long)b0); return; }
        check_all(c->st,c->st,o->s,o->e,wh); R.started=true; R.iv.push_back({(u64)c->st,(u64)c->st,0,0,o->s,o->e,0,0,true}); order.insert(order.begin(),c->r); push(c->th,c->st,c->st,o->s,o->e,S_USE); break; }
      case K_STOPLAST: if(x.obs){ want(DLB_ERR_PERM); break; } if(order.empty()){ want(DLB_ERR_NOENT); break; } c->r=order.front(); if(unsure) for(int q:order) if(rg[q].h->num_measurements==rg[q].nm+1) c->r=q; c->en=rg[c->r].h->stop_time; /* fallthrough */
      case K_STOP: { Rg& R=rg[c->r]; if(x.obs){ want(DLB_ERR_PERM); break; } if(!R.started){ if(!want(DLB_NOUPDT)) return; check(c->r,0,0,0,0,wh); break; } if(!want(0)) return; x.touched=true;
        if(c->en<(i64)a0||c->en>(i64)b0){ fail("C24","stop-time","%s: the region stops at %lld, the call was made at %lld..%lld",wh,(long long)c->en,(long long)a0,(long long)b0); return; }
        Iv& v=R.iv.back(); v.open=false; v.e0=v.e1=c->en; v.es=o->s; v.ee=o->e; R.started=false; R.nm++; unorder(c->r); check_all(c->en,c->en,o->s,o->e,wh); break; }
      case K_RESET: { Rg& R=rg[c->r]; if(!want(0)) return; R.nr++; R.nm=0; R.iv.clear(); R.el0=R.el1=0; R.sched_lo=R.sched_hi=0; R.fuzzy=false; if(R.started){ probe("reset_open"); R.started=false; unorder(c->r); } check(c->r,0,0,0,0,wh); break; }
      case K_UPDATE: if(x.obs){ want(DLB_ERR_PERM); break; } if(!want(0)) return; check_all(a0,b0,o->s,o->e,wh); break;
      case K_INTO: case K_OUTOF: if(x.obs) break; x.touched=true; push(c->th,a0,b0,o->s,o->e,c->k==K_INTO?S_MPI:S_USE); if(c->k==K_OUTOF) x.ev.push_back({o->s,o->e,0}); if(ext&&c->flag) check_all(a0,b0,o->s,o->e,wh); break;
      case K_OBS: x.obs=c->flag; want(0); break; case K_REPORT: want(0); break;
      case K_GETG: if(c->got!=rg[0].h) fail("C25","global","GetGlobal gives %p, must be %p",(void*)c->got,(void*)rg[0].h); break;
      case K_TIMES: if(!want(0)) return; if(std::fabs(c->d1-rg[0].h->mpi_time*1e-9)>1e-9||std::fabs(c->d2-rg[0].h->useful_time*1e-9)>1e-9) fail("C25","own-times","GetTimes gives %.9f/%.9f, the global region has %lld/%lld",c->d1,c->d2,(long long)rg[0].h->mpi_time,(long long)rg[0].h->useful_time); break;
    } }
  bool serial(int t,int k,int r,int flag=0){ if(!run.viol.empty()) return false; Op* o=op(t,k,r,flag); Rec* c=recs.back().get(); w.serial=true; bool ok=w.run(o,t); w.serial=false; if(!ok){ fail("*","stuck","%s does not finish: %s",o->desc.c_str(),w.stuck().c_str()); return false; } apply(c); return run.viol.empty(); }
  // OpenMP events
  bool omp(int t,const char* fn,std::function<void(Api*,void*)> call,int st,int evk=-1,bool back=false,bool post_only=false){ if(!run.viol.empty()) return false; TP* T=this; recs.emplace_back(new Rec); Rec* c=recs.back().get(); c->th=t; c->k=K_OMP; c->r=-1; c->flag=st|(evk+1)<<4|(back?256:0); std::string f=fn;
    Op* o=w.custom(a,"t"+std::to_string(t)+" "+fn,[T,call,f]{ Api* A=T->a->a; ((void(*)(void*))A->sym("spd_enter_dlb"))(nullptr); call(A,A->sym(f.c_str())); return 0; }); c->o=o; if(post_only){ w.post(a->th[t],o); return true; }
    w.serial=true; bool ok=w.run(o,t); w.serial=false; if(!ok){ fail("*","stuck","%s does not finish",fn); return false; } ompapply(c); return true; }
  void ompapply(Rec* c){ Op* o=c->o; if(!o->done) return; u64 a0=fl(o->t0), b0=fl(o->t1); int st=c->flag&15, evk=(c->flag>>4&15)-1; th[c->th].touched=true; if(st!=15&&(c->flag&256?th[c->th].st()==S_DIS:true)) push(c->th,a0,b0,o->s,o->e,st,(c->flag&256)!=0); if(evk>=0) th[c->th].ev.push_back({o->s,o->e,evk}); }
};
typedef void(*vf)(void); typedef void(*pf)(void*); typedef void(*pif)(void*,unsigned);
struct RegM { struct St { std::vector<signed char> ord; std::vector<int> nm,nr; u64 hash() const { u64 h=7; for(auto x:ord) h=mix2(h,x+1); h=mix2(h,99); for(int x:nm) h=mix2(h,x); for(int x:nr) h=mix2(h,x); return h; } };
  struct Loc { int pc=0; u64 hash() const { return pc; } }; std::vector<Rec*> c; std::vector<char> en;
  template<class F> void succ(const St& s,const Loc&,int i,F out){ Rec* x=c[i]; St n=s; auto it=x->r>=0?std::find(n.ord.begin(),n.ord.end(),(signed char)x->r):n.ord.end(); bool started=x->r>=0&&it!=n.ord.end(); Loc d; d.pc=-1;
    switch(x->k){ case K_START: if(x->rc==0){ if(started||!en[x->r]) return; n.ord.insert(n.ord.begin(),x->r); } else if(x->rc==DLB_NOUPDT){ if(!started&&en[x->r]) return; } else return; break;
      case K_STOP: if(x->rc==0){ if(!started) return; n.ord.erase(it); n.nm[x->r]++; } else if(x->rc==DLB_NOUPDT){ if(started) return; } else return; break;
      case K_STOPLAST: if(x->rc==0){ if(n.ord.empty()) return; n.nm[n.ord[0]]++; n.ord.erase(n.ord.begin()); } else if(x->rc==DLB_ERR_NOENT){ if(!n.ord.empty()) return; } else return; break;
      case K_RESET: if(x->rc) return; n.nm[x->r]=0; n.nr[x->r]++; if(started) n.ord.erase(it); break; default: break; }
    out(n,d); } };
}
SCENARIO(talp){
  World w(run); Rng& g=w.rng; if(run.cfg.pstall>0) run.cfg.stall_ns=std::min<u64>(run.cfg.stall_ns,3000000); run.cfg.clk_gran=std::min<u64>(run.cfg.clk_gran,1000000); w.ncpu=w.ncore=g.range(2,8); w.nnode=1; w.tpc=1; run.nontrivial=true;
  TP T(w,run); int nth=g.range(1,5); bool om=g.chance(0.35); T.ext=g.chance(0.3); std::string ar="--talp --lewi=no --drom=no"; if(T.ext) ar+=" --talp-external-profiler"; if(g.chance(0.3)) ar+=" --barrier=no";
  if(g.chance(0.15)){ const char* S[]={"include:a,b","exclude:b","b,global","exclude:all","include:all","exclude:Global"}; T.select=S[g.below(6)]; ar+=" --talp-region-select="+T.select; }
  int outk=g.below(5); if(outk==0) ar+=" --talp-summary=pop-metrics --talp-output-file=/o/t.xml"; else if(outk==1) ar+=" --talp-summary=pop-metrics:process"; else if(outk==2) ar+=" --talp-summary=none"; else if(outk==3) ar+=" --talp-summary=pop-metrics --talp-output-file=/o/t.txt";
  App* a=w.add_app("A",Mask::range(0,g.range(1,w.ncpu)),ar); T.a=a; w.launch(a); for(int i=1;i<nth;i++) w.add_thread(a);
  struct Bye { World& w; Run& r; ~Bye(){ if(r.viol.empty()||1) for(App* a:w.apps) if(a->p&&!a->dead) kill_proc(a->p,X_NORMAL); } } bye{w,run};
  auto sel=[&](const std::string& n){ std::string s=T.select; if(s.empty()) return true; bool inc=true; if(!s.compare(0,8,"exclude:")){ inc=false; s=s.substr(8); } else if(!s.compare(0,8,"include:")) s=s.substr(8); if(s=="all") return inc; bool f=false; size_t p=0; while(p<=s.size()){ size_t q=s.find(',',p); if(q==std::string::npos) q=s.size(); std::string t=s.substr(p,q-p); if(t==n||(n=="Global"&&!strcasecmp(t.c_str(),"global"))) f=true; p=q+1; } return inc?f:!f; };
  int cycles=g.chance(0.25)?2:1;
  for(int cy=0;cy<cycles&&run.viol.empty();cy++){
    bool mask=g.chance(0.8); (void)mask; Op* oi=w.mkf(a,O_INIT); if(!w.run(oi)||oi->rc<0){ fail("*","init","DLB_Init = %s",rcs(oi->rc)); return; }
    T.rg.clear(); T.th.assign(nth,Th()); T.order.clear(); T.recs.clear();
    auto addr=[&](const std::string& n,bool anon=false){ Rg R; R.name=n; R.anon=anon; R.enabled=anon?sel("(anonymous)"):sel(n); T.rg.push_back(R); return (int)T.rg.size()-1; };
    addr("Global"); addr("a"); addr("b"); addr(g.chance(0.2)?"Anonymous Region "+std::to_string(g.range(0,3)):"a longer name with spaces"); addr(std::string(140,'x')); int rall=addr("all");
    { Op* o=T.op(0,K_GETG,0); Rec* c=T.recs.back().get(); o->fixed=true; w.run(o); if(o->skip||!c->got){ fail("C25","global","no global region"); return; } T.rg[0].h=c->got; }
    if(om){ Op* o=w.custom(a,"omp init",[a]{ Api* A=a->a; ((void(*)(void*))A->sym("spd_enter_dlb"))(nullptr); ((void(*)(int,const void*))A->sym("talp_openmp_init"))(a->p->pid,nullptr); return 0; }); w.serial=true; w.run(o); w.serial=false; u64 S=T.rg[0].h->start_time; if(T.rg[0].enabled){ if(!o->done||S<T.fl(o->t0)||S>T.fl(o->t1)){ fail("C24","omp-init","the global region starts at %llu",(unsigned long long)S); return; }
        T.rg[0].started=true; T.rg[0].iv.push_back({S,S,0,0,o->s,o->e,0,0,true}); T.order.insert(T.order.begin(),0); } T.th[0].touched=true; T.push(0,T.rg[0].enabled?S:T.fl(o->t0),T.rg[0].enabled?S:T.fl(o->t1),o->s,o->e,S_USE); }
    std::vector<char> begun(nth,0); begun[0]=1; int live_par=0;
    int rounds=g.range(1,5);
    for(int ph=0;ph<rounds&&run.viol.empty();ph++){
      int mode=g.below(10); int nr=T.rg.size();
      if(om&&mode>=5){ // ---- a team
        int n1=g.range(1,nth); par_t* p1=new par_t(); p1->level=1; p1->requested=n1; p1->actual=g.chance(0.85)?n1:g.range(1,n1); n1=p1->actual; bool nested=n1>=2&&n1<nth&&g.chance(0.5); bool conc=!nested&&g.chance(0.5); live_par++;
        std::vector<size_t> mark(nth); for(int i=0;i<nth;i++) mark[i]=T.th[i].tr.size();
        auto begin=[&](int i){ if(!begun[i]){ begun[i]=1; T.omp(i,"talp_openmp_thread_begin",[](Api*,void* f){ ((vf)f)(); },S_OUT,-1,true); } };
        T.omp(0,"talp_openmp_parallel_begin",[p1](Api*,void* f){ ((pf)f)(p1); },15,1); u64 pb=w.seq;
        for(int i=0;i<n1;i++) begin(i);
        auto body=[&](int i,par_t* p,int idx,bool po){ size_t r0=T.recs.size(); T.omp(i,"talp_openmp_into_parallel_function",[p,idx](Api*,void* f){ ((pif)f)(p,idx); },S_USE,-1,false,po); if(po) T.slp(i,2000000); else if(g.chance(0.7)){ Op* z=w.mk(a,O_SLEEP); z->ns=1+g.below(4000000); w.run(z,i); }
          int m=g.below(4); for(int q=0;q<m;q++){ int c=g.below(5); if(c==0){ T.omp(i,"talp_openmp_task_create",[](Api*,void* f){ ((vf)f)(); },15,2,false,po); continue; } bool tk=c==1; T.omp(i,tk?"talp_openmp_task_complete":"talp_openmp_into_parallel_sync",[p,tk](Api*,void* f){ if(tk) ((vf)f)(); else ((pf)f)(p); },S_IN,-1,false,po);
            if(po) T.slp(i,1000000); else { Op* z=w.mk(a,O_SLEEP); z->ns=1+g.below(1000000); w.run(z,i); } T.omp(i,tk?"talp_openmp_task_switch":"talp_openmp_outof_parallel_sync",[p,tk](Api*,void* f){ if(tk) ((vf)f)(); else ((pf)f)(p); },S_USE,-1,false,po); if(po) T.slp(i,1000000); else if(g.chance(0.5)){ Op* z=w.mk(a,O_SLEEP); z->ns=1+g.below(1000000); w.run(z,i); } }
          (void)r0; };
        auto barrier=[&](int i,par_t* p,bool po){ T.omp(i,"talp_openmp_into_parallel_implicit_barrier",[p](Api*,void* f){ ((pf)f)(p); },S_IN,-1,false,po); if(!po&&g.chance(0.5)){ Op* z=w.mk(a,O_SLEEP); z->ns=1+g.below(1000000); w.run(z,i); } };
        auto schedbounds=[&](const std::vector<int>& m,u64 e0,u64 e1,double& lo,double& hi){ lo=hi=1e18; for(int i:m){ i64 l=0,h=0; auto& tr=T.th[i].tr; for(size_t k=mark[i];k<tr.size();k++) if(tr[k].st==S_IN){ u64 ea=k+1<tr.size()?tr[k+1].a:e0, eb=k+1<tr.size()?tr[k+1].b:e1; l+=TP::pos((i64)ea-(i64)tr[k].b); h+=TP::pos((i64)eb-(i64)tr[k].a); } lo=std::min(lo,(double)l); hi=std::min(hi,(double)h); } if(m.empty()) lo=hi=0; lo*=m.size(); hi*=m.size(); };
        if(conc){ size_t r0=T.recs.size(); T.exact=false; std::vector<std::vector<int>> q; for(int i=0;i<n1;i++){ body(i,p1,i,true); barrier(i,p1,true); } if(!w.settle()){ fail("*","stuck","the team does not finish: %s",w.stuck().c_str()); return; } for(int i=0;i<n1;i++) for(size_t k=r0;k<T.recs.size();k++) if(T.recs[k]->k==K_OMP&&T.recs[k]->th==i) T.ompapply(T.recs[k].get()); T.exact=true; }
        else if(!nested) { for(int i=0;i<n1;i++) body(i,p1,i,false); for(int i=n1;i--;) barrier(i,p1,false); }
        else { probe("nested_parallel"); for(int i=0;i<n1;i++) body(i,p1,i,false); int pr=n1-1; par_t* p2=new par_t(); p2->level=2; int n2=std::min(nth-n1,(int)g.range(1,3))+1; p2->requested=p2->actual=n2; std::vector<int> tm{pr}; for(int k=1;k<n2;k++) tm.push_back(n1+k-1);
          T.omp(pr,"talp_openmp_parallel_begin",[p2](Api*,void* f){ ((pf)f)(p2); },15,1); std::vector<size_t> mk=mark; for(int k=1;k<n2;k++){ begin(tm[k]); mark[tm[k]]=T.th[tm[k]].tr.size(); } 
          for(int k=0;k<n2;k++) body(tm[k],p2,k,false); for(int k=n2;k--;) barrier(tm[k],p2,false);
          if(!T.omp(pr,"talp_openmp_parallel_end",[p2](Api*,void* f){ ((pf)f)(p2); },15)) return; Op* oe=T.recs.back()->o; u64 a0=T.fl(oe->t0), b0=T.fl(oe->t1); std::vector<int> wk(tm.begin()+1,tm.end()); double lo,hi; schedbounds(wk,a0,b0,lo,hi); for(auto& R:T.rg) if(R.started){ R.sched_lo+=lo; R.sched_hi+=hi; }
          T.push(pr,a0,b0,oe->s,oe->e,S_USE); for(int k=1;k<n2;k++) T.push(tm[k],a0,b0,oe->s,oe->e,S_OUT); delete p2; if(!run.viol.empty()) return;
          for(int i=n1;i--;) barrier(i,p1,false); }
        if(!T.omp(0,"talp_openmp_parallel_end",[p1](Api*,void* f){ ((pf)f)(p1); },15)) return; Op* oe=T.recs.back()->o; u64 a0=T.fl(oe->t0), b0=T.fl(oe->t1); std::vector<int> tm; for(int i=0;i<n1;i++) tm.push_back(i); double lo,hi; schedbounds(tm,a0,b0,lo,hi); for(auto& R:T.rg) if(R.started){ R.sched_lo+=lo; R.sched_hi+=hi; }
        T.push(0,a0,b0,oe->s,oe->e,S_USE); for(int i=1;i<n1;i++) T.push(i,a0,b0,oe->s,oe->e,S_OUT); delete p1; (void)pb;
        if(g.chance(0.1)&&nth>1){ int i=g.range(1,nth-1); if(begun[i]==1&&T.th[i].st()==S_OUT){ T.omp(i,"talp_openmp_thread_end",[](Api*,void* f){ ((vf)f)(); },S_DIS); begun[i]=2; nth=i; } }
        if(!T.serial(0,K_UPDATE,-1)) return; continue; }
      bool conc=!om&&mode>=5&&nth>1;
      if(!conc){ int k=g.range(3,18); for(int x=0;x<k&&run.viol.empty();x++){ int t=om?0:g.below(nth), c=g.below(20), r=g.below(5); 
          if(om&&T.th[0].obs) c=18;
          if(c<3){ Op* z=w.mk(a,O_SLEEP); z->ns=1+g.below(1ULL<<g.range(1,33)); w.run(z,t); continue; }
          if(c<5){ int v=g.below(12); if(v==0){ int i=addr("",true); T.serial(t,K_REG,i,g.below(2)); } else if(v==1) T.serial(t,K_REG,rall,g.below(2)); else if(v==2) T.serial(t,K_REG,0,1); else T.serial(t,K_REG,r,r&&v==3?1:0); if(v==3&&r) { for(auto& q:T.rg) (void)q; } continue; }
          if(c<9) T.serial(t,K_START,g.below(T.rg.size())); else if(c<11) T.serial(t,K_STOP,g.below(T.rg.size())); else if(c==11) T.serial(t,K_STOPLAST,-1); else if(c==12&&g.chance(0.4)) T.serial(t,K_RESET,g.below(T.rg.size())); else if(c==13) T.serial(t,K_UPDATE,-1); else if(c<16) T.serial(t,K_INTO,-1,g.below(2)); else if(c<18) T.serial(t,K_OUTOF,-1,g.below(2)); else if(c==18&&(T.th[t].obs||g.chance(0.3))) T.serial(t,K_OBS,-1,!T.th[t].obs); else if(c==19){ int v=g.below(3); if(v==0&&T.rg[r].h) T.serial(t,K_REPORT,r); else if(v==1) T.serial(t,K_GETG,0); else T.serial(t,K_TIMES,-1,g.below(2)); } }
        continue; }
      // ---- concurrent phases
      bool contend=g.chance(0.5); (void)nr; for(int t=0;t<nth;t++) if(T.th[t].obs) if(!T.serial(t,K_OBS,-1,0)) return;
      bool touch=!contend||g.chance(0.7); if(touch) for(int t=0;t<nth;t++){ if(!T.serial(t,K_INTO,-1,0)||!T.serial(t,K_OUTOF,-1,0)) return; }
      for(int r=1;r<5;r++) if(!T.rg[r].h&&g.chance(0.6)) if(!T.serial(0,K_REG,r)) return;
      size_t r0=T.recs.size(); bool resets=contend&&g.chance(0.3); std::vector<Rec*> C; 
      if(contend){ std::vector<int> use; for(int r=0;r<(int)T.rg.size();r++) if(T.rg[r].h&&use.size()<3&&g.chance(0.6)) use.push_back(r); if(use.empty()) use.push_back(0); int k=g.range(2,12); bool regrace=g.chance(0.5); std::vector<int> nu; if(regrace) for(int r=1;r<5;r++) if(!T.rg[r].h) nu.push_back(r);
        for(int x=0;x<k;x++){ int t=g.below(nth), c=g.below(12), r=use[g.below(use.size())]; Op* o=nullptr; if(c<4) o=T.op(t,K_START,r); else if(c<7) o=T.op(t,K_STOP,r); else if(c==7) o=T.op(t,K_STOPLAST,-1); else if(c==8&&resets) o=T.op(t,K_RESET,r); else if(c==9&&nu.size()) o=T.op(t,K_REG,nu[g.below(nu.size())]); else if(c==10) o=T.op(t,K_UPDATE,-1); else { T.slp(t,g.chance(0.5)?3000:300000); continue; } w.post(a->th[t],o); } }
      else { std::vector<int> own(T.rg.size()); for(auto& v:own) v=g.below(nth); int k=g.range(4,24); bool big=g.chance(0.6);
        for(int x=0;x<k;x++){ int t=g.below(nth), c=g.below(10); Op* o=nullptr; if(c<3){ T.slp(t,big?30000000:20000); continue; } if(c<5) o=T.op(t,K_INTO,-1,g.below(2)); else if(c<7) o=T.op(t,K_OUTOF,-1,g.below(2)); else if(c==7) o=T.op(t,K_UPDATE,-1); else { std::vector<int> m; for(size_t r=0;r<own.size();r++) if(own[r]==t&&T.rg[r].h) m.push_back(r); if(m.empty()) continue; o=T.op(t,g.chance(0.5)?K_START:K_STOP,m[g.below(m.size())]); } w.post(a->th[t],o); } }
      if(!w.settle()){ fail("*","stuck","calls do not finish: %s",w.stuck().c_str()); return; } if(!run.viol.empty()) return;
      for(size_t k=r0;k<T.recs.size();k++) if(!T.recs[k]->o->skip&&T.recs[k]->o->done&&T.recs[k]->rc!=-99) C.push_back(T.recs[k].get());
      std::stable_sort(C.begin(),C.end(),[](Rec* x,Rec* y){ return x->o->s<y->o->s; });
      // registrations: one region per name
      for(Rec* c:C) if(c->k==K_REG){ Rg& R=T.rg[c->r]; if(!c->got) { fail("C25","register","registering %s failed",R.name.c_str()); return; } if(!R.h){ bool an=false; for(auto& q:T.rg) if(q.anon&&q.h==c->got&&q.h->name==R.name) an=true; if(an) continue; } if(R.h&&R.h!=c->got){ fail("C25","register-race","registering %.40s from two threads gives two regions",R.name.c_str()); return; } R.h=c->got; }
      // region calls are linearizable
      { RegM m; Lin<RegM> L(m); RegM::St s0; for(int r:T.order) s0.ord.push_back(r); for(auto& R:T.rg){ s0.nm.push_back(R.nm); s0.nr.push_back(R.nr); m.en.push_back(R.enabled); } 
        for(Rec* c:C) if(c->k==K_START||c->k==K_STOP||c->k==K_STOPLAST||c->k==K_RESET){ m.c.push_back(c); L.iv.push_back({c->o->s,c->o->e,true}); }
        std::vector<char> st(T.rg.size(),0); for(size_t i=0;i<T.rg.size();i++) (void)i; w.run(w.custom(a,"is started",[a,&st,&T]{ auto f=(bool(*)(const dlb_monitor_t*))a->a->sym("monitoring_region_is_started"); for(size_t i=0;i<T.rg.size();i++) if(T.rg[i].h) st[i]=f(T.rg[i].h); return 0; }));
        auto fits=[&](const RegM::St& s){ for(size_t i=0;i<T.rg.size();i++){ Rg& R=T.rg[i]; if(!R.h) continue; if(R.h->num_measurements!=s.nm[i]||R.h->num_resets!=s.nr[i]) return false; bool o=std::find(s.ord.begin(),s.ord.end(),(signed char)i)!=s.ord.end(); if(o!=(bool)st[i]) return false; } return true; }; bool lin=L.run(s0,fits);
        // which regions opened last may not be known after previous concurrent calls
        if(!lin&&T.unsure&&s0.ord.size()<=5){ auto o0=s0.ord; std::sort(s0.ord.begin(),s0.ord.end()); do { if(s0.ord==o0) continue; L.gaveup=false; L.nodes=0; L.best=0; L.frontier.clear(); lin=L.run(s0,fits); } while(!lin&&!L.gaveup&&std::next_permutation(s0.ord.begin(),s0.ord.end())); if(lin) probe("order_resolved"); }
        if(!lin&&T.unsure&&s0.ord.size()>5) return;
        if(!lin){
          std::string d; for(Rec* c:m.c) d+=c->o->desc+"="+rcs(c->rc)+"; "; if(d.size()>700) d.resize(700); for(size_t i=0;i<T.rg.size();i++) if(T.rg[i].h){ char b[120]; snprintf(b,sizeof b,"%.20s: %d measurements %s; ",T.rg[i].name.c_str(),T.rg[i].h->num_measurements,st[i]?"started":"stopped"); d+=b; }
          fail("C25","not-atomic","no order of the calls gives these results: %s",d.c_str()); return; }
        if(L.gaveup){ probe("lin_gaveup"); return; }
        // adopt, with windows
        T.order.clear(); T.unsure=true; for(auto x:L.final_state.ord) T.order.push_back(x); for(size_t i=0;i<T.rg.size();i++){ T.rg[i].nm=L.final_state.nm[i]; bool rs=T.rg[i].nr!=L.final_state.nr[i]; T.rg[i].nr=L.final_state.nr[i]; if(rs) T.rg[i].fuzzy=true; } }
      T.exact=false;
      for(Rec* c:C){ Op* o=c->o; u64 a0=T.fl(o->t0), b0=T.fl(o->t1); if(c->k==K_INTO||c->k==K_OUTOF){ T.th[c->th].touched=true; T.push(c->th,a0,b0,o->s,o->e,c->k==K_INTO?S_MPI:S_USE); if(c->k==K_OUTOF) T.th[c->th].ev.push_back({o->s,o->e,0}); }
        if((c->k==K_START||c->k==K_STOP||c->k==K_STOPLAST)&&c->rc==0) T.th[c->th].touched=true; if(c->k==K_START&&c->rc==0) T.push(c->th,a0,b0,o->s,o->e,S_USE); }
      if(!contend){ for(Rec* c:C){ if(c->rc||c->r<0) continue; Op* o=c->o; u64 a0=T.fl(o->t0), b0=T.fl(o->t1); Rg& R=T.rg[c->r]; if(c->k==K_START){ if(c->st<(i64)a0||c->st>(i64)b0){ fail("C24","start-time","%s: the region starts at %lld, the call was made at %lld..%lld",o->desc.c_str(),(long long)c->st,(long long)a0,(long long)b0); return; } R.started=true; R.iv.push_back({a0,b0,0,0,o->s,o->e,0,0,true}); }
          else if(c->k==K_STOP){ R.started=false; Iv& v=R.iv.back(); v.open=false; v.e0=a0; v.e1=b0; v.es=o->s; v.ee=o->e; } }
        probe("concurrent_owner_phase"); }
      else { // which call stopped what is not known: only the totals
        probe("concurrent_contended_phase"); bool last=false; for(Rec* c:C) if(c->k==K_STOPLAST&&c->rc==0) last=true;
        for(size_t i=0;i<T.rg.size();i++){ Rg& R=T.rg[i]; if(!R.h) continue; bool any=false; for(Rec* c:C) if((c->r==(int)i&&(c->k==K_START||c->k==K_STOP||c->k==K_RESET))||(c->k==K_STOPLAST)) any=true; bool st=std::find(T.order.begin(),T.order.end(),(int)i)!=T.order.end(); if(!any){ continue; }
          i64 lo=0,hi=0; int ns=0,ne=0; for(auto& v:R.iv){ if(v.open){ lo-=v.s1; hi-=v.s0; ns++; } else { lo+=(i64)v.e0-(i64)v.s1; hi+=(i64)v.e1-(i64)v.s0; } } lo+=R.el0; hi+=R.el1;
          for(Rec* c:C) if(c->rc==0&&c->r==(int)i){ u64 a0=T.fl(c->o->t0),b0=T.fl(c->o->t1); if(c->k==K_START){ lo-=(i64)b0; hi-=(i64)a0; ns++; } if(c->k==K_STOP){ lo+=(i64)a0; hi+=(i64)b0; ne++; } }
          if(!resets&&!last&&!R.fuzzy){ if(st){ lo+=R.h->start_time; hi+=R.h->start_time; } if(R.h->elapsed_time<lo||R.h->elapsed_time>hi){ fail("C24","elapsed","after calls from several threads: region %.40s has an elapsed time of %lld, must be %lld..%lld",R.name.c_str(),(long long)R.h->elapsed_time,(long long)lo,(long long)hi); return; } }
          // continue from what is there
          R.iv.clear(); R.el0=R.el1=R.h->elapsed_time; R.started=st; R.fuzzy=true; if(st){ u64 S=R.h->start_time; R.iv.push_back({S,S,0,0,w.seq,w.seq,0,0,true}); } } }
      // flush, then look
      { Op* o=T.op(0,K_UPDATE,-1); o->fixed=true; Rec* c=T.recs.back().get(); w.serial=true; w.run(o,0); w.serial=false; (void)c; if(!T.th[0].obs&&!o->skip) T.check_all(T.fl(o->t0),T.fl(o->t1),o->s,o->e,"after calls from several threads"); }
      // later phases start from what has been measured so far; forget regions whose bounds are not exact any more
      for(auto& R:T.rg){ bool wide=false; for(auto& v:R.iv) if(v.s0!=v.s1||(!v.open&&v.e0!=v.e1)) wide=true; (void)wide; } T.exact=true;
    }
    if(!run.viol.empty()) return;
    // ---- the end: what is open gets stopped, everything is reported
    for(int t=0;t<(int)T.th.size()&&t<(int)a->th.size();t++) if(T.th[t].obs) T.serial(t,K_OBS,-1,0); FILES.erase("/o/t.xml"); FILES.erase("/o/t.txt"); std::vector<dlb_monitor_t> dummy; 
    std::map<std::string,int> names; for(size_t i=0;i<T.rg.size();i++) if(T.rg[i].h) names[std::string(T.rg[i].h->name)]=i;
    Op* of=w.mkf(a,O_FINALIZE); w.serial=true; bool fin=w.run(of); w.serial=false; if(!fin){ fail("C25","finalize-hangs","DLB_Finalize does not finish (%s)",w.stuck().c_str()); return; } if(of->rc!=0){ fail("*","finalize","DLB_Finalize = %s",rcs(of->rc)); return; }
    if(!T.th[0].obs) T.th[0].touched=true; u64 a0=T.fl(of->t0), b0=T.fl(of->t1); for(auto& R:T.rg) if(R.started){ R.started=false; R.nm++; Iv& v=R.iv.back(); v.open=false; v.e0=a0; v.e1=b0; v.es=of->s; v.ee=of->e; probe("open_at_finalize"); }
    if(outk==0||outk==3){ std::string f=outk==0?FILES["/o/t.xml"]:FILES["/o/t.txt"]; size_t p=0; const char* start=outk==0?"<Application>":"### Name:"; std::set<std::string> seen; int cnt=0;
      while((p=f.find(start,p))!=std::string::npos){ size_t e=f.find(start,p+5); std::string b=f.substr(p,e==std::string::npos?e:e-p); p+=5; auto get=[&](const char* x,const char* t)->std::string{ std::string k=outk==0?std::string("<")+x+">":t; size_t q=b.find(k); if(q==std::string::npos) return "?"; q+=k.size(); while(q<b.size()&&b[q]==' ') q++; size_t z=b.find(outk==0?'<':'\n',q); return b.substr(q,z-q); };
        std::string n=get("name","### Name:"); cnt++; auto it=names.find(n); if(it==names.end()){ if(cy==0||cycles==1){ bool fu=false; (void)fu; } continue; } if(!seen.insert(n).second){ fail("C25","output","region %.40s is reported twice",n.c_str()); return; }
        Rg& R=T.rg[it->second]; if(b.find("No data")!=std::string::npos||get("elapsedTime","### Elapsed Time (ns):")=="0"||get("elapsedTime","### Elapsed Time (ns):")=="?"){ i64 hi=R.el1; for(auto& v:R.iv) hi+=0,hi+=(i64)v.e1-(i64)v.s0; i64 lo=R.el0; for(auto& v:R.iv) lo+=(i64)v.e0-(i64)v.s1; if(lo>0) { fail("C25","output","region %.40s is reported empty",n.c_str()); return; } continue; }
        dlb_monitor_t m; memset(&m,0,sizeof m); auto I=[&](const char* x,const char* t){ return atoll(get(x,t).c_str()); }; m.num_cpus=I("numCpus","### Number of CPUs:"); m.num_measurements=I("numMeasurements","### Number of measurements:"); m.num_mpi_calls=I("numMpiCalls","### Number of MPI calls:"); m.num_omp_parallels=I("numOmpParallels","### Number of OpenMP parallel regions:"); m.num_omp_tasks=I("numOmpTasks","### Number of OpenMP explicit tasks:"); m.elapsed_time=I("elapsedTime","### Elapsed Time (ns):"); m.useful_time=I("usefulTime","### Useful Time (ns):"); m.mpi_time=I("mpiTime","### MPI Time (ns):"); m.omp_load_imbalance_time=I("ompLoadImbalanceTime","### OpenMP Load Imbalance Time (ns):"); m.omp_scheduling_time=I("ompSchedulingTime","### OpenMP Scheduling Time (ns):"); m.omp_serialization_time=I("ompSerializationTime","### OpenMP Serialization Time (ns):");
        if(!T.check(it->second,0,0,0,0,"in the final report",&m)) return; }
      for(auto& x:names) if(!seen.count(x.first)){ fail("C25","output","region %.40s is not in the final report",x.first.c_str()); return; } probe("report_checked"); }
    nth=std::max(nth,1);
  }
  for(App* x:w.apps) if(!x->dead) kill_proc(x->p,X_NORMAL);
}
