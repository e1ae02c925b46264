// Independence of shared-memory keys: what a group of processes observes while processes of another key are active is
// exactly what it observes when it is alone. Decides C28 together with the LeWI scenario (colors).
#include "world.h"
namespace {
struct KP { App* a=nullptr; bool masked=false; std::string args; };
struct Grp { std::string key; int color=0; bool masked=false,classic=false; std::vector<std::string> args; std::vector<Mask> own; };
std::string kind(Rng& g,int k,bool color){ // 0: masks, 1: classic LeWI, 2: LeWI without masks, asynchronous
  std::string s; if(k==0){ s="--lewi "; if(g.chance(0.5)) s+="--drom "; if(g.chance(0.4)) s+="--mode=async "; if(g.chance(0.3)) s+="--talp --talp-external-profiler --talp-summary=none "; else s+="--talp=no "; }
  else s=std::string("--lewi --talp=no ")+(k==2?"--mode=async ":""); 
  if(g.chance(0.2)) s+="--barrier=no "; return s; }
}
SCENARIO(keys){
  World w(run); Rng& g=w.rng; run.nontrivial=true; if(run.cfg.pstall>0) run.cfg.stall_ns=std::min<u64>(run.cfg.stall_ns,3000000);
  int n=w.ncpu=w.ncore=g.range(2,6); w.nnode=1; w.tpc=1;
  Grp G[2]; int v=g.below(6); std::string lng; for(int i=0;i<62;i++) lng+=(char)('a'+i%26);
  int kd[2]={(int)g.below(3),(int)g.below(3)}; if(g.chance(0.5)) kd[0]=kd[1]=0;
  switch(v){ case 0: G[0].key="k"; G[1].key="other"; break; case 1: G[0].key="k"; G[0].color=g.range(1,12); G[1].key=std::to_string(G[0].color)+"_k"; kd[0]=kd[1]=0; break;
    case 2: { int d=g.range(20,61); G[0].key=G[1].key=lng.substr(0,g.range(d+1,62)); G[1].key[d]='Z'; break; }
    case 3: G[0].key="async_k"; G[1].key="k"; kd[0]=g.chance(0.7)?1:kd[0]; kd[1]=2; break; case 4: G[0].key="k"; G[1].key=g.chance(0.5)?"k2":"K"; break; case 5: G[0].key="1"; G[1].key="1_1"; break; }
  if(g.chance(0.5)){ std::swap(G[0],G[1]); std::swap(kd[0],kd[1]); }
  for(int k=0;k<2;k++){ Grp& x=G[k]; x.masked=kd[k]==0; int na=g.range(1,2); int h=g.range(1,n-1); bool whole=na==1&&g.chance(0.5); for(int i=0;i<na;i++){ x.args.push_back(kind(g,kd[k],x.color>0)); if(x.color) x.args.back()+="--lewi-color="+std::to_string(x.color)+" "; x.own.push_back(whole?Mask::range(0,n):i?Mask::range(h,n):Mask::range(0,h)); } if(na==2) x.args[1]=x.args[0]; }
  u64 s0=g.next(); bool allowp=g.chance(0.5); std::string first; int nsteps=g.range(3,14);
  auto arg=[&](Grp& x,int i){ return "--shm-key="+x.key+" "+x.args[i]; };
  // one random call of process i of the group; the text of what it observed
  auto act=[&](Grp& x,std::vector<App*>& as,int i,u64 z,std::string* out)->Op*{ App* a=as[i]; Api* A=a->a; int c=mix(z+1)%n; Grp* X=&x; std::vector<App*>* AS=&as; int k=z%20; static const char* nm[]={"Lend","Reclaim","Borrow","AcquireCpus","AcquireCpu","Return","LendCpu","ReclaimCpu","BorrowCpu","BorrowCpus","LendCpus","SetMax","PollDROM","PidList","GetMask","SetMask","Barrier","Named","TalpPids","Reinit"};
    return w.custom(a,nm[k],[=,&w]{ int rc=0; auto put=[&](const std::string& s){ if(out) *out+=s; };
      switch(k){ case 0: rc=A->DLB_Lend(); break; case 1: rc=A->DLB_Reclaim(); break; case 2: rc=A->DLB_Borrow(); break; case 3: rc=A->DLB_AcquireCpus(c); break; case 4: rc=A->DLB_AcquireCpu(c); break; case 5: rc=A->DLB_Return(); break; case 6: rc=A->DLB_LendCpu(c); break; case 7: rc=A->DLB_ReclaimCpu(c); break; case 8: rc=A->DLB_BorrowCpu(c); break; case 9: rc=A->DLB_BorrowCpus(c); break; case 10: rc=A->DLB_LendCpus(c); break; case 11: rc=A->DLB_SetMaxParallelism(1+c); break;
        case 12: { int nn=0; cpu_set_t m; CPU_ZERO(&m); rc=A->DLB_PollDROM(&nn,&m); if(rc==0) put(Mask(m).str()); break; }
        case 13: case 14: case 15: { a->p->env["DLB_ARGS"]=arg(*X,i)+(X->masked?"":" --lewi=no"); int r=A->DLB_DROM_Attach(); put(std::string("attach=")+rcs(r)+" "); if(r<0){ rc=r; break; } int pl[16]; int np=0; rc=A->DLB_DROM_GetPidList(pl,&np,16); std::string s="pids:"; for(size_t j=0;j<AS->size();j++) for(int q=0;q<np;q++) if(pl[q]==(*AS)[j]->p->pid) s+=" "+std::to_string(j); s+=" of "+std::to_string(np); put(s+" ");
            if(k==14) for(App* b:*AS){ cpu_set_t m; CPU_ZERO(&m); int r2=A->DLB_DROM_GetProcessMask(b->p->pid,&m,(dlb_drom_flags_t)0); put(std::string(rcs(r2))+(r2>=0?Mask(m).str():"")+" "); }
            if(k==15&&np>0){ App* b=(*AS)[mix(z+2)%AS->size()]; Mask m=mask_bits(mix(z+3)&((1<<n)-1)); if(!m.empty()){ int r2=A->DLB_DROM_SetProcessMask(b->p->pid,&m.s,(dlb_drom_flags_t)0); put(std::string("set=")+rcs(r2)+" "); } }
            A->DLB_DROM_Detach(); break; }
        case 16: if(AS->size()==1) rc=A->DLB_Barrier(); break; case 17: if(AS->size()==1){ dlb_barrier_t* b=A->DLB_BarrierNamedRegister("b",(dlb_barrier_flags_t)0); put(b?"reg ":"null "); if(b) rc=A->DLB_BarrierNamed(b); } break;
        case 18: { a->p->env["DLB_ARGS"]=arg(*X,i)+(X->masked?"":" --lewi=no"); int r=A->DLB_TALP_Attach(); put(std::string("attach=")+rcs(r)+" "); if(r<0){ rc=r; break; } int pl[16]; int np=0; rc=A->DLB_TALP_GetPidList(pl,&np,16); put("pids "+std::to_string(rc>=0?np:0)+" "); A->DLB_TALP_Detach(); break; }
        case 19: rc=A->DLB_Finalize(); put(std::string("fini=")+rcs(rc)+" "); rc=A->DLB_Init(2,X->masked?&a->own.s:nullptr,arg(*X,i).c_str()); if(rc>=0) w.set_callbacks(a); break; }
      return rc; }); };
  auto launch=[&](Grp& x,int tag){ std::vector<App*> as; for(size_t i=0;i<x.args.size();i++){ App* a=w.add_app(std::string(1,'A'+tag)+std::to_string(i),x.own[i],x.args[i]); a->cbvar=s0%3; w.launch(a); a->p->env["DLB_ARGS"]="--shm-key="+x.key; as.push_back(a); } return as; };
  auto initop=[&](Grp& x,std::vector<App*>& as,int i){ App* a=as[i]; Grp* X=&x; return w.custom(a,"Init",[=,&w]{ a->a->mu_testing_set_sys(n,n,1); int rc=a->a->DLB_Init(2,X->masked?&a->own.s:nullptr,arg(*X,i).c_str()); if(rc>=0) w.set_callbacks(a); return rc; }); };
  // phase 0: the first group alone; phase 1: with the other one
  auto phase=[&](int ph)->std::string{
    std::string tr; std::vector<App*> A=launch(G[0],ph*2), B; Rng q(s0), o(s0^77); if(ph) B=launch(G[1],1);
    int bn=0; auto other=[&](int m){ for(int j=0;j<m&&B.size();j++){ int i=o.below(B.size()); if(bn<(int)B.size()) { w.post(B[bn]->th[0],initop(G[1],B,bn)); bn++; continue; } u64 z=o.next(); if(!allowp&&z%20>=13&&z%20<=15) z-=z%20; Op* op=act(G[1],B,i,z,nullptr); op->fixed=false; op->id=(1ULL<<30)+w.nextid++; w.post(B[i]->th[0],op); } };
    auto step=[&](App* a,Op* op,std::string* ex){ for(App* b:A) b->hcbs.clear(); if(!w.run(op)){ tr+=op->desc+" does not finish"; return false; } w.settle(); tr+=a->name.substr(1)+" "+op->desc+"="+rcs(op->rc)+" "+*ex; ex->clear();
      for(App* b:A){ std::vector<std::string> cs; if(b==a) for(Cb& c:op->cbs) cs.push_back(c.kind+(c.kind=='t'?std::to_string(c.n):c.m.str())); for(Cb& c:b->hcbs) cs.push_back(c.kind+(c.kind=='t'?std::to_string(c.n):c.m.str())); std::sort(cs.begin(),cs.end()); for(auto& s:cs) tr+=" "+b->name.substr(1)+s; } tr+="; "; return run.viol.empty(); };
    std::string ex; other(o.below(3)); for(size_t i=0;i<A.size();i++){ other(o.below(2)); if(!step(A[i],initop(G[0],A,i),&ex)) return tr; }
    for(int s=0;s<nsteps;s++){ other(o.below(4)); int i=q.below(A.size()); u64 z=q.next(); if(!step(A[i],act(G[0],A,i,z,&ex),&ex)) return tr; }
    for(size_t i=0;i<A.size();i++){ other(o.below(2)); App* a=A[i]; if(!step(a,w.custom(a,"Finalize",[a]{ return a->a->DLB_Finalize(); }),&ex)) return tr; }
    for(App* b:B) w.post(b->th[0],w.custom(b,"Finalize",[b]{ return b->a->DLB_Finalize(); })); if(!w.settle()) fail("C28","stuck","calls do not finish: %s",w.stuck().c_str());
    for(App* b:A) kill_proc(b->p,X_NORMAL); for(App* b:B) kill_proc(b->p,X_NORMAL); return tr; };
  std::string t0=phase(0); if(!run.viol.empty()) return; std::string t1=phase(1); if(!run.viol.empty()) return; probe("differential"); if(v) probe("similar_keys");
  if(t0!=t1){ size_t d=0; while(d<t0.size()&&d<t1.size()&&t0[d]==t1[d]) d++; d=d>60?d-60:0; fail("C28","keys","a group with key %s%s observes '...%s' while processes with key %s%s are active, '...%s' when it is alone",G[0].key.c_str(),G[0].color?(" and color "+std::to_string(G[0].color)).c_str():"",t1.substr(d,200).c_str(),G[1].key.c_str(),G[1].color?(" and color "+std::to_string(G[1].color)).c_str():"",t0.substr(d,200).c_str()); }
}
