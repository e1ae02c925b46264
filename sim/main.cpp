// simrun: executes seeds, replays and minimises failing runs.
#include "engine.h"
#include "api.h"
#include "scen.h"
#include <dlfcn.h>
#include <signal.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <ucontext.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/resource.h>

void* Api::sym(const char* n){ void* p=dlsym(h,n); if(!p){ fprintf(stderr,"missing symbol %s\n",n); _exit(77); } return p; }
static std::map<std::string,Scenario>& reg(){ static std::map<std::string,Scenario> m; return m; }
int register_scenario(const char* name,Scenario s){ reg()[name]=s; return 0; }

static u64 CURSEED; static std::string CURSCEN;
static void die_report(const char* what){ char b[512]; int n=snprintf(b,sizeof b,"SIMCRASH %s scenario=%s seed=%lu task=%s step=%lu\n",what,CURSCEN.c_str(),(unsigned long)CURSEED,CUR&&CUR->p?CUR->p->name.c_str():"-",CUR?(unsigned long)CUR->k:0UL); if(write(2,b,n)){} }
[[noreturn]] void segv_exit(){ proc_exit(X_SEGV); }
static void on_segv(int sig,siginfo_t* si,void* uc){
  if(CUR&&CUR->p&&CUR->p->copy){
    ucontext_t* u=(ucontext_t*)uc; char* rip=(char*)u->uc_mcontext.gregs[REG_RIP]; char* sp=(char*)u->uc_mcontext.gregs[REG_RSP];
    // a fault inside (or called from) the library on the task's own stack: the simulated process dies of it
    if(getenv("SIM_DEBUG")){ fprintf(stderr,"SEGV rip=%p base=%p off=%lx addr=%p lib=%s\n",rip,CUR->p->copy->base,(long)(rip-CUR->p->copy->base),si->si_addr,CUR->p->copy->path.c_str()); u64* f=(u64*)u->uc_mcontext.gregs[REG_RBP]; for(int i=0;i<12&&addr_is_stack(f);i++){ fprintf(stderr,"  %lx\n",(long)((char*)f[1]-CUR->p->copy->base)); f=(u64*)f[0]; } }
    if(addr_is_stack(sp)){ (void)rip; (void)si; (void)sig; u->uc_mcontext.gregs[REG_RSP]=(((greg_t)sp-4096)&~15LL)-8; u->uc_mcontext.gregs[REG_RIP]=(greg_t)segv_exit; return; }
  }
  die_report(sig==SIGSEGV?"sigsegv":sig==SIGALRM?"hang":"signal"); _exit(sig==SIGALRM?78:79);
}

Run* execute(const std::string& scen,const std::string& prop,u64 seed,Replay* rp,bool logging){
  auto it=reg().find(scen); if(it==reg().end()){ fprintf(stderr,"unknown scenario %s\n",scen.c_str()); _exit(64); }
  Run* r=new Run; r->scenario=scen; r->prop=prop; r->seed=seed; r->rp=rp; r->logging=logging; CURSEED=seed; CURSCEN=scen;
  Rng c(mix2(seed,0xC0FF));
  // swarm: every run draws its own scheduling style and fault rates
  static const double gaps[]={3,8,20,50,120,400,1500,6000}; r->cfg.gap=gaps[c.below(8)]; static const double ps[]={0.02,0.1,0.3,0.6}; r->cfg.pseam=ps[c.below(4)];
  r->cfg.strat=c.chance(0.35)?1:0; if(c.chance(0.3)){ r->cfg.pstall=c.chance(0.5)?0.01:0.1; static const u64 st[]={2000,100000,3000000,40000000}; r->cfg.stall_ns=st[c.below(4)]; }
  static const u64 tk[]={20,200,2000,20000}; r->cfg.tick=tk[c.below(4)]; static const u64 gr[]={1,1,1,1000,1000000,4000000}; r->cfg.clk_gran=gr[c.below(6)]; if(c.chance(0.3)) r->cfg.pspur=0.2;
  r->cfgdesc["gap"]=(u64)r->cfg.gap; r->cfgdesc["strat"]=r->cfg.strat; r->cfgdesc["clk_gran"]=r->cfg.clk_gran; r->cfgdesc["stall"]=r->cfg.pstall>0;
  struct itimerval iv={{0,0},{30,0}}; setitimer(ITIMER_REAL,&iv,nullptr);
  run_one(r,[&]{ it->second.fn(*r); });
  iv.it_value.tv_sec=0; setitimer(ITIMER_REAL,&iv,nullptr);
  if(r->end_reason=="deadlock" && !r->allow_deadlock && r->viol.empty()) { Violation v{prop,"deadlock","no task can make progress: "+r->deadlock_desc,r->steps,0}; r->viol.push_back(v); hash_ev(1); }
  if(r->end_reason=="livelock" && !r->allow_deadlock && r->viol.empty()) { Violation v{prop,"livelock","no progress within the step bound ("+std::to_string(r->maxsteps)+" steps): "+r->deadlock_desc,r->steps,0}; r->viol.push_back(v); }
  if(!r->viol.empty() && it->second.owner.count(r->viol[0].cls)==0){}
  return r;
}

// ---------------------------------------------------------------- replay files (line based text)
static void save_replay(const std::string& path,const std::string& scen,const std::string& prop,u64 seed,const Replay& rp,Run* r){
  std::ofstream f(path); f<<"dlbsim-replay 1\nproperty "<<prop<<"\nscenario "<<scen<<"\nseed "<<seed<<"\nclass "<<r->viol[0].cls<<"\nhash "<<r->hash<<"\nmessage "<<r->viol[0].msg<<"\n";
  for(u64 o:rp.skip_ops) f<<"skip "<<o<<"\n"; for(auto& x:rp.faults) f<<"fault "<<x.kind<<" "<<x.task<<" "<<x.k<<" "<<x.a<<"\n";
  std::vector<Sched> v; for(auto& kv:rp.sched) v.push_back(kv.second); std::sort(v.begin(),v.end(),[](const Sched&a,const Sched&b){ return a.task!=b.task?a.task<b.task:a.k<b.k; });
  for(auto& s:v) f<<"sched "<<s.task<<" "<<s.k<<" "<<s.to<<" "<<s.stall<<"\n"; f<<"end\n";
}
u64 sched_key(u64 task,u64 k);
static bool load_replay(const std::string& path,Replay& rp){
  std::ifstream f(path); std::string l; bool end=false; if(!f) return false; rp.on=rp.sched_on=true;
  while(std::getline(f,l)){ std::istringstream s(l); std::string k; s>>k; if(k=="property") s>>rp.prop; else if(k=="scenario") s>>rp.scenario; else if(k=="seed") s>>rp.seed; else if(k=="class") s>>rp.cls; else if(k=="hash"){ s>>rp.hash; rp.has_hash=true; }
    else if(k=="skip"){ u64 o; s>>o; rp.skip_ops.insert(o); } else if(k=="fault"){ Fault x; s>>x.kind>>x.task>>x.k>>x.a; rp.faults.push_back(x); } else if(k=="sched"){ Sched x; s>>x.task>>x.k>>x.to>>x.stall; rp.sched[sched_key(x.task,x.k)]=x; } else if(k=="end") end=true; }
  return end;
}
static Replay from_run(Run* r){ Replay p; p.on=p.sched_on=true; p.faults=r->fault_trace; p.skip_ops=r->rp->skip_ops; for(auto& s:r->trace) p.sched[sched_key(s.task,s.k)]=s; return p; }

// ddmin over ops, faults and scheduling decisions
static int minimise(const std::string& scen,const std::string& prop,u64 seed,const std::string& cls,Replay& best,double budget_s){
  int tries=0; struct timespec t0; clock_gettime(CLOCK_MONOTONIC,&t0);
  auto over=[&]{ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return (t.tv_sec-t0.tv_sec)+(t.tv_nsec-t0.tv_nsec)*1e-9>budget_s; };
  auto test=[&](Replay& p)->bool{ tries++; Run* r=execute(scen,prop,seed,&p,false); bool ok=!r->viol.empty()&&r->viol[0].cls==cls; 
     if(ok){ // keep only what was actually used
       Replay q=p; q.sched.clear(); for(auto& s:r->trace){ auto k=sched_key(s.task,s.k); if(p.sched.count(k)) q.sched[k]=s; } p=q; }
     delete r; return ok; };
  // 1. drop operations
  { Replay p0=best; p0.on=true; Run* r=execute(scen,prop,seed,&p0,false); std::vector<u64> ops=r->ops_done; delete r;
    for(size_t n=std::max<size_t>(1,ops.size()/2); n>=1&&!over(); n/=2){ for(size_t i=0;i<ops.size()&&!over();){ Replay p=best; for(size_t j=i;j<std::min(i+n,ops.size());j++) p.skip_ops.insert(ops[j]); if(test(p)){ best=p; ops.erase(ops.begin()+i,ops.begin()+std::min(i+n,ops.size())); } else i+=n; } if(n==1) break; } }
  // 2. drop faults
  for(size_t i=0;i<best.faults.size()&&!over();){ Replay p=best; p.faults.erase(p.faults.begin()+i); if(test(p)) best=p; else i++; }
  // 3. drop scheduling decisions
  { std::vector<u64> ks; for(auto& k:best.sched) ks.push_back(k.first); std::sort(ks.begin(),ks.end(),[&](u64 a,u64 b){ const Sched&x=best.sched[a],&y=best.sched[b]; return x.task!=y.task?x.task<y.task:x.k<y.k; });
    for(size_t n=std::max<size_t>(1,ks.size()/2); n>=1&&!over(); n/=2){ for(size_t i=0;i<ks.size()&&!over();){ Replay p=best; size_t e=std::min(i+n,ks.size()); for(size_t j=i;j<e;j++) p.sched.erase(ks[j]); if(test(p)){ best=p; ks.erase(ks.begin()+i,ks.begin()+e); ks.erase(std::remove_if(ks.begin(),ks.end(),[&](u64 k){ return !best.sched.count(k); }),ks.end()); } else i+=n; } if(n==1) break; } }
  return tries;
}
static std::string esc(const std::string& s){ std::string o; for(char c:s){ if(c=='"'||c=='\\') { o+='\\'; o+=c; } else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }

int main(int argc,char** argv){
  { int pe=personality(0xffffffff); if(pe!=-1&&!(pe&ADDR_NO_RANDOMIZE)&&!getenv("DLBSIM_REEXEC")&&personality(pe|ADDR_NO_RANDOMIZE)!=-1){ setenv("DLBSIM_REEXEC","1",1); execv("/proc/self/exe",argv); } }
  std::map<std::string,std::string> a; for(int i=1;i+1<argc;i+=2) a[argv[i]]=argv[i+1];
  stack_t ss; ss.ss_sp=malloc(1<<16); ss.ss_size=1<<16; ss.ss_flags=0; sigaltstack(&ss,nullptr);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_segv; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL}) sigaction(s,&sa,nullptr); sa.sa_flags=SA_SIGINFO|SA_ONSTACK; 
  { struct sigaction sb=sa; sb.sa_sigaction=[](int,siginfo_t*,void*){ die_report("hang"); _exit(78); }; sigaction(SIGALRM,&sb,nullptr); }
  std::vector<std::string> libs; { std::istringstream s(a["--libs"]); std::string x; while(std::getline(s,x,',')) libs.push_back(x); }
  engine_init(libs); for(Copy* c:COPIES){ Api* p=new Api; p->h=c->h;
#define D(f) p->f=(decltype(p->f))p->sym(#f);
    DLB_FUNCS(D)
#undef D
    p->mu_testing_set_sys=(decltype(p->mu_testing_set_sys))p->sym("mu_testing_set_sys"); c->api=p; }
  std::string mode=a["--mode"], prop=a["--prop"], scen=a["--scenario"]; std::string dir=a["--replay-dir"];
  if(mode=="replay"){
    Replay rp; if(!load_replay(a["--file"],rp)){ fprintf(stderr,"cannot read replay file\n"); return 65; }
    bool lg=a["--log"]!="0"; Run* r=execute(rp.scenario,rp.prop,rp.seed,&rp,lg); if(lg) for(auto& l:r->log) printf("%s\n",l.c_str());
    bool rep=!r->viol.empty()&&r->viol[0].cls==rp.cls; printf("REPLAY property=%s class=%s reproduced=%d hash=%lu hash_match=%d steps=%lu sched=%zu faults=%zu\n",rp.prop.c_str(),rp.cls.c_str(),rep,(unsigned long)r->hash,(int)(rp.has_hash&&rp.hash==r->hash),(unsigned long)r->steps,rp.sched.size(),rp.faults.size());
    for(auto& v:r->viol) printf("  %s: %s\n",v.cls.c_str(),v.msg.c_str());
    return rep?1:0; }
  if(mode=="one"){ Replay none; u64 seed=strtoull(a["--seed"].c_str(),0,10); Run* r=execute(scen,prop,seed,&none,a["--log"]=="1"); for(auto& l:r->log) printf("%s\n",l.c_str()); printf("RUN seed=%lu hash=%lu end=%s steps=%lu switches=%lu viol=%zu simns=%lu nontrivial=%d\n",(unsigned long)seed,(unsigned long)r->hash,r->end_reason.c_str(),(unsigned long)r->steps,(unsigned long)r->switches,r->viol.size(),(unsigned long)(NOW-r->start_time),(int)r->nontrivial); for(auto& v:r->viol) printf("  %s %s: %s\n",v.prop.c_str(),v.cls.c_str(),v.msg.c_str()); for(auto& p:r->probes) printf("  probe %s %lu\n",p.first.c_str(),(unsigned long)p.second);
    if(a["--verify-replay"]=="1"){ Replay p=from_run(r); Run* q=execute(scen,prop,seed,&p,false); printf("RECORDED-REPLAY hash=%lu match=%d\n",(unsigned long)q->hash,(int)(q->hash==r->hash)); }
    return 0; }
  // mode run: indices i = from + worker, step nworkers, < to
  u64 base=strtoull(a["--base"].c_str(),0,10), from=strtoull(a["--from"].c_str(),0,10), to=strtoull(a["--to"].c_str(),0,10), step=strtoull(a["--step"].c_str(),0,10); double cap=atof(a["--cap"].c_str()); if(!step) step=1; int maxviol=a.count("--maxviol")?atoi(a["--maxviol"].c_str()):3;
  std::vector<std::pair<std::string,double>> mixv; { std::istringstream s(scen); std::string x; while(std::getline(s,x,',')){ size_t c=x.find(':'); mixv.push_back({x.substr(0,c),c==std::string::npos?1:atof(x.c_str()+c+1)}); } } double tw=0; for(auto& m:mixv) tw+=m.second;
  std::set<std::string> knowncls; { std::istringstream s(a["--known"]); std::string x; while(std::getline(s,x,',')) if(!x.empty()) knowncls.insert(x); }
  std::map<std::string,u64> probes,fired,knownhits,ends,scount; std::set<u64> ilv; u64 runs=0,nontriv=0,steps=0,switches=0,simns=0,ops=0; double t0; { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); t0=t.tv_sec+t.tv_nsec*1e-9; }
  std::map<std::string,int> seen; int nv=0; u64 lasti=from; std::string hashes; bool want_hash=a["--hashes"]=="1"; u64 hsum=0; std::vector<std::string> samples;
  for(u64 i=from;i<to;i+=step){
    struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); if(cap>0&&t.tv_sec+t.tv_nsec*1e-9-t0>cap) break; if(nv&&a["--stop"]=="1") break;
    u64 seed=mix2(mix2(base,std::hash<std::string>()(prop)),i); seed&=0x7fffffffffffffffULL; double x=(mix2(seed,99)>>11)*(1.0/9007199254740992.0)*tw; std::string sc=mixv[0].first; for(auto& m:mixv){ if(x<m.second){ sc=m.first; break; } x-=m.second; }
    Replay none; Run* r=execute(sc,prop,seed,&none,false); runs++; lasti=i; scount[sc]++; ends[r->end_reason]++; steps+=r->steps; switches+=r->switches; simns+=NOW-r->start_time; ops+=r->ops; if(r->nontrivial){ nontriv++; ilv.insert(r->ilv); } for(auto& p:r->probes) probes[p.first]+=p.second; for(auto& p:r->fired) fired[p.first]+=p.second; for(auto& p:r->known) knownhits[p.first]+=p.second;
    hsum+=mix(r->hash^i); if(want_hash) hashes+=std::to_string(i)+" "+std::to_string(r->hash)+"\n"; if(samples.size()<4&&r->nontrivial) { std::string s="{\"seed\":"+std::to_string(seed)+",\"scenario\":\""+sc+"\",\"hash\":\""+std::to_string(r->hash)+"\",\"switches\":"+std::to_string(r->switches)+",\"steps\":"+std::to_string(r->steps); for(auto& c:r->cfgdesc) s+=",\""+c.first+"\":"+std::to_string(c.second); samples.push_back(s+"}"); }
    if(!r->viol.empty()){
      std::string cls=r->viol[0].cls; 
      if(knowncls.count(cls)){ knownhits[cls]++; }
      else if(seen[cls]++==0 && nv<maxviol){
        nv++; Replay none2; Run* r2=execute(sc,prop,seed,&none2,false); bool same=r2->hash==r->hash&&!r2->viol.empty()&&r2->viol[0].cls==cls; 
        Replay full=from_run(r); Run* r3=execute(sc,prop,seed,&full,false); bool rsame=!r3->viol.empty()&&r3->viol[0].cls==cls; bool hm=r3->hash==r->hash;
        Replay best=full; int tries=0; if(rsame) tries=minimise(sc,prop,seed,cls,best,atof(a["--minbudget"].c_str())>0?atof(a["--minbudget"].c_str()):20);
        std::string file=dir+"/"+prop+"-"+cls+"-"+std::to_string(seed)+".replay"; Run* rf=execute(sc,prop,seed,&best,false); if(rf->viol.empty()) { Violation v=r->viol[0]; rf->viol.push_back(v); } save_replay(file,sc,prop,seed,best,rf);
        printf("{\"t\":\"viol\",\"seed\":%lu,\"scenario\":\"%s\",\"cls\":\"%s\",\"msg\":\"%s\",\"deterministic\":%d,\"replay_ok\":%d,\"replay_hash_match\":%d,\"file\":\"%s\",\"sched0\":%zu,\"sched\":%zu,\"faults\":%zu,\"skipped_ops\":%zu,\"tries\":%d}\n",(unsigned long)seed,sc.c_str(),esc(cls).c_str(),esc(r->viol[0].msg).c_str(),same,rsame,hm,file.c_str(),r->trace.size(),best.sched.size(),best.faults.size(),best.skip_ops.size(),tries); fflush(stdout); }
    }
    delete r;
  }
  auto jm=[&](const std::map<std::string,u64>& m){ std::string s="{"; bool f=true; for(auto& p:m){ if(!f) s+=","; f=false; s+="\""+esc(p.first)+"\":"+std::to_string(p.second); } return s+"}"; };
  std::string clss; for(auto& p:seen) clss+=(clss.empty()?"\"":",\"")+esc(p.first)+"\":"+std::to_string(p.second);
  if(want_hash) printf("HASHES\n%sENDHASHES\n",hashes.c_str());
  if(!a["--ilv"].empty()){ FILE* f=fopen(a["--ilv"].c_str(),"wb"); for(u64 v:ilv) fwrite(&v,8,1,f); fclose(f); }
  std::string sm; for(auto& s:samples) sm+=(sm.empty()?"":",")+s;
  printf("{\"t\":\"stats\",\"runs\":%lu,\"nontrivial\":%lu,\"distinct\":%zu,\"steps\":%lu,\"switches\":%lu,\"sim_ns\":%lu,\"ops\":%lu,\"last\":%lu,\"hsum\":\"%lu\",\"fired\":%s,\"probes\":%s,\"known\":%s,\"ends\":%s,\"scenarios\":%s,\"classes\":{%s},\"samples\":[%s]}\n",(unsigned long)runs,(unsigned long)nontriv,ilv.size(),(unsigned long)steps,(unsigned long)switches,(unsigned long)simns,(unsigned long)ops,(unsigned long)lasti,(unsigned long)hsum,jm(fired).c_str(),jm(probes).c_str(),jm(knownhits).c_str(),jm(ends).c_str(),jm(scount).c_str(),clss.c_str(),sm.c_str());
  return 0;
}
