#include "lewi_model.h"
#include <stdlib.h>
void LG::F(const std::string& prop,const char* cls,const char* fmt,...){ char b[1500]; va_list l; va_start(l,fmt); vsnprintf(b,sizeof b,fmt,l); va_end(l); fail(c28?"C28":as.size()?as:prop,cls,"%s",b); }

bool Model::parse(std::vector<St>& out,bool& printed){
  App* a=nullptr; for(App* x:L.apps) if(x->up&&!x->dead&&!x->th[0]->blocked) { a=x; break; } if(!a&&L.conv) for(App* x:L.apps) if(x->up&&!x->dead) { a=x; break; } printed=false; if(!a) return false;
  std::string t=w.table(a); out.assign(w.ncpu,St()); size_t pos=t.find("=== CPU States ==="); if(pos==std::string::npos) return true; printed=true; size_t end=t.find("Format:",pos);
  const char* s=t.c_str()+pos+18; const char* e=end==std::string::npos?t.c_str()+t.size():t.c_str()+end; int found=0;
  auto pid2=[&](int pid)->int{ if(pid==0) return -1; for(App* x:w.apps) if(x->p&&x->p->pid==pid) return x->idx; return -2; };
  for(const char* p=s;p<e;p++) if(*p=='['){ const char* q=p-1; while(q>s&&*q==' ') q--; while(q>s&&q[-1]>='0'&&q[-1]<='9') q--; int cpu=atoi(q), ow,gu; char st[16]; if(sscanf(p,"[ %d / %d / %15[a-z ] ]",&ow,&gu,st)==3&&cpu>=0&&cpu<w.ncpu){ found++; out[cpu].owner=pid2(ow); out[cpu].guest=pid2(gu); std::string ss=st; out[cpu].st= ss.find("off")!=ss.npos?DIS: ss.find("busy")!=ss.npos||ss.find("recl")!=ss.npos?BUSY:LENT; } }
  return found==w.ncpu;
}
bool Model::from_table(){ bool pr; std::vector<St> o; valid=false; if(!parse(o,pr)||!pr) return false; c=o; pend.clear(); for(App* a:L.apps){ for(int i=0;i<w.ncpu;i++) if(a->doubt.has(i)&&c[i].guest==a->idx){ a->doubt.del(i); a->has.add(i); } pend[a]=a->doubt; } valid=true;
  std::string s; for(int i=0;i<w.ncpu;i++){ char b[64]; snprintf(b,sizeof b," %d:%d/%d/%d",i,c[i].owner,c[i].guest,c[i].st); s+=b; } logf("table%s",s.c_str()); return true; }
void Model::init_home(){ valid=true; for(int i=0;i<w.ncpu;i++){ c[i]=St(); if(!L.respect) c[i].st=LENT; for(App* a:L.apps) if(a->own.has(i)){ c[i].owner=c[i].guest=a->idx; c[i].st=BUSY; } } pend.clear(); }
void Model::check_views(const char* when){
  for(int i=0;i<w.ncpu;i++) for(App* a:L.apps){ if(a->doubt.has(i)) continue; 
    bool t=c[i].guest==a->idx; bool v=a->has.has(i); bool own=c[i].owner==a->idx;
    if(t&&!v&&a->up) L.F("C03","held-unused","%s: CPU %d is assigned to %s, which was not told to use it: the CPU is lost",when,i,a->name.c_str());
    if(v&&!t&&!(own&&c[i].st==BUSY)) { bool fin=own; for(App* b:L.apps) if(b->own.has(i)&&!b->up) fin=true; (void)fin; L.F("C01","used-unassigned","%s: %s is using CPU %d, which is assigned to %s",when,a->name.c_str(),i,c[i].guest>=0?app(c[i].guest)->name.c_str():"nobody"); } }
}
void Model::check_home(){
  for(int i=0;i<w.ncpu;i++){ App* o=nullptr; for(App* a:L.apps) if(a->own.has(i)) o=a; 
    if(o){ if(c[i].owner!=o->idx||c[i].guest!=o->idx||c[i].st!=BUSY) L.F("C03","not-restored","after everybody reclaimed and polled, CPU %d of %s is owned by %d, used by %d, state %d",i,o->name.c_str(),c[i].owner,c[i].guest,c[i].st); 
      if(!o->has.has(i)) L.F("C02","not-regained","after reclaiming, %s was not told to use its CPU %d",o->name.c_str(),i); }
    for(App* a:L.apps) if(a!=o&&a->has.has(i)) L.F("C02","not-given-back","after everybody reclaimed and polled, %s still uses CPU %d",a->name.c_str(),i); 
    if(!o&&c[i].owner>=0) L.F("C04","owner-of-unregistered","CPU %d has owner %d",i,c[i].owner); }
}
void Model::compare_table(){ if(!valid) return; bool pr; std::vector<St> o; if(!parse(o,pr)||!pr) return;
  for(int i=0;i<w.ncpu;i++) if(o[i].owner!=c[i].owner||o[i].guest!=c[i].guest||o[i].st!=c[i].st){
    const char* P="C01"; if(o[i].guest>=0&&o[i].owner<0&&L.respect) P="C04"; else if(o[i].guest!=c[i].guest&&c[i].guest==c[i].owner) P="C02"; else if(o[i].guest<0||o[i].st!=c[i].st) P="C03";
    L.F(P,"table-mismatch","CPU %d: owner/guest/state is %d/%d/%d, the calls so far imply %d/%d/%d",i,o[i].owner,o[i].guest,o[i].st,c[i].owner,c[i].guest,c[i].st); return; } }
void Model::free_guest(int x){ if(c[x].guest<0&&c[x].st==BUSY&&c[x].owner>=0) c[x].guest=c[x].owner; }
void Model::lend(int p,int x){ if(x<0||x>=w.ncpu) return; if(c[x].owner==p) c[x].st=LENT; if(c[x].guest==p) c[x].guest=-1; if(c[x].guest<0){ free_guest(x); if(c[x].guest>=0){ Mask m=w.coremask(x); for(int y=0;y<w.ncpu;y++) if(m.has(y)&&y!=x) free_guest(y); } } }
Mask Model::idle_for(int p,const Mask& S){ Mask r; 
  for(int x=0;x<w.ncpu;x++) if(S.has(x)&&c[x].guest<0&&elig(p,x)&&(c[x].owner==p||c[x].st==LENT)) r.add(x); return r; }

void Model::step(Op* o){
  if(!valid||!o->done||o->noop) return; App* a=o->app; int p=a->idx; int N=w.ncpu; Mask E,D; for(Cb& cb:o->cbs){ if(cb.kind=='e') E=E|cb.m; if(cb.kind=='d') D=D|cb.m; } int rc=o->rc; const char* d=o->desc.c_str(); const char* n=a->name.c_str();
  Mask ALL=Mask::range(0,N); Mask owned,guested; pend[a]=pend[a]-E; for(int x=0;x<N;x++){ if(c[x].owner==p) owned.add(x); if(c[x].guest==p) guested.add(x); } int tol=w.tpc-1; bool wasdis=!a->enabled&&!(o->code==O_DISABLE&&rc==0);
  auto RC=[&](const char* P,int want){ if(rc!=want) L.F(P,"wrong-result","%s %s returned %s, expected %s",n,d,rcs(rc),rcs(want)); };
  if(o->code==O_ENABLE&&rc==0) wasdis=false;
  if(o->code!=O_INIT&&o->code!=O_FINALIZE&&o->code!=O_ENABLE&&o->code!=O_DISABLE&&o->code!=O_BLOCK_IN&&o->code!=O_BLOCK_OUT&&wasdis){ if(rc!=DLB_ERR_DISBLD) L.F("C08","works-disabled","%s %s returned %s while disabled",n,d,rcs(rc)); if(!E.empty()||!D.empty()) L.F("C08","callbacks-disabled","%s %s ran callbacks while disabled",n,d); return; }
  if((o->code==O_BLOCK_IN||o->code==O_BLOCK_OUT)&&wasdis) return;
  auto enable_one=[&](int x,const char* what){ // a CPU handed to p by a borrow-like request
    St& s=c[x]; if(s.guest==p){ L.F("C01","enabled-twice","%s %s enabled CPU %d, which it already used",n,what,x); return; }
    if(s.owner!=p){ if(s.st==DIS) L.F("C04","disabled-cpu","%s %s obtained CPU %d, which nobody has registered",n,what,x); else if(s.st==BUSY) L.F("C01","not-lent","%s %s obtained CPU %d, which its owner has not lent",n,what,x); else if(s.guest>=0) L.F("C01","in-use","%s %s obtained CPU %d while %s uses it",n,what,x,app(s.guest)->name.c_str()); else if(!elig(p,x)) L.F("C01","core-shared","%s %s obtained CPU %d whose core is in use by another process",n,what,x); }
    if(s.guest<0) s.guest=p; if(s.owner==p) s.st=BUSY; };
  auto limit=[&](int req){ int lim=N; if(a->maxpar>0) lim=std::max(0,a->maxpar-count(p)); if(req>0) lim=std::min(lim,req); return lim; };
  auto setfor=[&](const Mask& m){ Mask S=m; if(a->aff==AFF_NEARONLY) S=S&L.nearby(a); if(a->aff==AFF_SPREAD) S=S&a->own; return S; };
  auto spread=[&](){ Mask m; if(a->aff!=AFF_SPREAD) return m; int per=N/w.nnode; for(int k=0;k<w.nnode;k++){ bool all=true; for(int x=k*per;x<(k+1)*per;x++) if(c[x].guest>=0) all=false; if(all) m=m|Mask::range(k*per,(k+1)*per); } return m; };
  auto expand=[&](const Mask& m){ Mask r; for(int x=0;x<N;x++) if(m.has(x)) r=r|w.coremask(x); return r; };
  auto reclaim=[&](const Mask& want,const char* P){ // all of these owned CPUs are asked back
    Mask need=want-guested; if(!need.sub(E)) L.F(P,"reclaim-incomplete","%s %s left owned CPUs %s unused",n,d,(need-E).str().c_str()); bool noted=false,succ=false; for(int x=0;x<N;x++) if(want.has(x)){ c[x].st=BUSY; if(c[x].guest==p) continue; if(c[x].guest<0){ c[x].guest=p; succ=true; } else noted=true; } return noted?1:succ?0:2; };
  auto borrow=[&](const Mask& m,int req,bool acquire){
    Mask S=setfor(m); int lim=limit(req); int got=0; bool notowned=false; Mask spr=spread(); 
    Mask ownwant; if(acquire) for(int x=0;x<N;x++) if(S.has(x)&&c[x].owner==p&&c[x].guest!=p&&!(c[x].st==BUSY)) ownwant.add(x);
    Mask renoted; if(acquire) for(int x=0;x<N;x++) if(S.has(x)&&c[x].owner==p&&c[x].guest!=p&&c[x].st==BUSY&&c[x].guest>=0) renoted.add(x);
    Mask av0=idle_for(p,S); bool noted=false; 
    for(int x=0;x<N;x++) if(E.has(x)){ if(!expand(S).has(x)&&!spr.has(x)) L.F("C04","outside-request","%s %s obtained CPU %d, which is not in the requested set",n,d,x);
      if(acquire&&c[x].owner==p){ if(c[x].guest==p) L.F("C01","enabled-twice","%s %s enabled CPU %d, which it already used",n,d,x); if(c[x].guest>=0&&c[x].guest!=p) noted=true; c[x].st=BUSY; if(c[x].guest<0) c[x].guest=p; if(!renoted.has(x)) got++; }
      else { if(c[x].owner!=p) notowned=true; enable_one(x,d); got++; } }
    // a request for everything also obtains CPUs of partially visited cores: count only what was idle
    if(got>lim+ (lim>0?tol:0)) L.F("C07","more-than-allowed","%s %s obtained %d CPUs, at most %d allowed (maximum %d, in use before %d)",n,d,got,lim,a->maxpar,count(p)-got);
    Mask left=idle_for(p,S); int renote_used=(renoted&E).count();
    if(!left.empty()&&got+renote_used<lim&&!w.smt) L.F("C03","idle-not-obtained","%s %s left idle CPUs %s although only %d of %d were obtained",n,d,left.str().c_str(),got,lim);
    if(!left.empty()&&w.smt&&got==0&&renote_used==0&&lim>0&&E.empty()) { // with SMT whole cores are visited in order until one hardware thread is refused
      Mask first; for(int x=0;x<N;x++) if(left.has(x)){ Mask k=w.coremask(x); bool ok=true; for(int y=0;y<x;y++) if(k.has(y)&&c[y].guest!=p&&!left.has(y)) ok=false; if(ok) first.add(x); } if(!first.empty()) L.F("C03","idle-not-obtained","%s %s left idle CPUs %s",n,d,first.str().c_str()); }
    if(acquire&&notowned){ Mask miss=ownwant-E; if(!miss.empty()&&!w.smt) L.F("C02","owned-not-first","%s %s obtained foreign CPUs but left its own %s",n,d,miss.str().c_str()); }
    if(acquire&&!w.smt){ int want=std::min(lim,ownwant.count()); if((E&ownwant).count()+renote_used<want) L.F("C02","acquire-refused","%s %s regained %d of its own lent CPUs %s",n,d,(E&ownwant).count(),ownwant.str().c_str()); }
    if(E.empty()){ if(rc!=2) L.F("C03","wrong-result","%s %s returned %s but enabled nothing",n,d,rcs(rc)); } else if(rc!=0&&rc!=1) L.F("C03","wrong-result","%s %s returned %s but enabled %s",n,d,rcs(rc),E.str().c_str());
    if(!D.empty()) L.F("C01","unexpected-disable","%s %s disabled %s",n,d,D.str().c_str()); (void)noted; (void)av0; };
  auto noE=[&](){ if(!E.empty()) L.F("C01","unexpected-enable","%s %s enabled %s",n,d,E.str().c_str()); }; auto noD=[&](){ if(!D.empty()) L.F("C01","unexpected-disable","%s %s disabled %s",n,d,D.str().c_str()); };
  bool oob=o->n>=N||o->n<0;
  switch(o->code){
    case O_LEND: noE(); noD(); RC("C03",0); for(int x=0;x<N;x++) lend(p,x); pend[a]=Mask(); break;
    case O_LENDCPU: noE(); noD(); if(oob){ RC("C04",-8); break; } RC("C03",0); lend(p,o->n); pend[a].del(o->n); break;
    case O_LENDMASK: noE(); noD(); RC("C03",0); for(int x=0;x<N;x++) if(o->m.has(x)) lend(p,x); pend[a]=pend[a]-o->m; break;
    case O_RECLAIM: { if(!E.sub(owned)) L.F("C04","reclaim-foreign","%s %s enabled %s",n,d,(E-owned).str().c_str()); noD(); Mask already=owned&guested; if(!(E&already).empty()) L.F("C02","enabled-twice","%s %s enabled CPUs it used",n,d); int e=reclaim(owned,"C02"); if(a->own.sub(owned)||rc!=-8) RC("C02",e); break; }
    case O_RECLAIMCPU: { if(oob||c[o->n].owner!=p){ RC("C04",-8); noE(); break; } noD(); Mask m=Mask::of(o->n); if(!E.sub(m)) L.F("C02","reclaim-other","%s %s enabled %s",n,d,E.str().c_str()); int e=reclaim(m,"C02"); RC("C02",e); break; }
    case O_RECLAIMCPUS: { noD(); if(!E.sub(owned-guested)) L.F("C02","reclaim-foreign","%s %s enabled %s",n,d,E.str().c_str()); int av=(owned-guested).count(); int want=o->n<=0?0:std::min(o->n,av); if(E.count()<want||E.count()>want+tol) L.F("C02","reclaim-count","%s %s enabled %d CPUs, expected %d",n,d,E.count(),want); int e=reclaim(E,"C02"); RC("C02",e); break; }
    case O_RECLAIMMASK: { noD(); Mask m=o->m&owned; if(!E.sub(m)) L.F("C04","reclaim-foreign","%s %s enabled %s",n,d,E.str().c_str()); int e=reclaim(m,"C02"); if(o->m.sub(owned)) RC("C02",e); break; }
    case O_ACQCPU: { noD(); if(oob){ RC("C04",-8); break; } St& s=c[o->n]; Mask m=Mask::of(o->n); if(!E.sub(m)) { L.F("C04","outside-request","%s %s enabled %s",n,d,E.str().c_str()); break; }
      if(s.guest==p){ RC("C02",2); noE(); } else if(s.owner==p){ int e=reclaim(m,"C02"); RC("C02",e); } else if(s.guest<0&&s.st==LENT&&elig(p,o->n)){ RC("C03",0); if(E.empty()) L.F("C03","idle-not-obtained","%s %s did not enable the idle CPU",n,d); s.guest=p; } else { noE(); RC(s.st==DIS?"C04":"C01",s.st==DIS?-8:2); } break; }
    case O_ACQCPUS: if(o->n==0){ RC("C05",0); noE(); break; } if(o->n<0){ RC("C05",2); noE(); break; } borrow(ALL,o->n,true); break;
    case O_ACQMASK: borrow(o->m,0,true); break; case O_ACQINMASK: borrow(o->m,o->n,true); break;
    case O_BORROW: borrow(ALL,0,false); break; case O_BORCPUS: borrow(ALL,o->n,false); break; case O_BORMASK: borrow(o->m,0,false); break; case O_BORINMASK: borrow(o->m,o->n,false); break;
    case O_BORCPU: { noD(); if(oob){ RC("C04",-8); noE(); break; } Mask m=Mask::of(o->n); Mask av=idle_for(p,m); if(!E.sub(m)){ L.F("C04","outside-request","%s %s enabled %s",n,d,E.str().c_str()); break; } if(!E.empty()) enable_one(o->n,d); else if(!av.empty()) L.F("C03","idle-not-obtained","%s %s did not obtain the idle CPU",n,d); RC("C03",E.empty()?2:0); break; }
    case O_RETURN: case O_RETCPU: case O_RETMASK: { noE(); Mask S=o->code==O_RETURN?ALL:o->code==O_RETMASK?o->m:(oob?Mask():Mask::of(o->n)); if(o->code==O_RETCPU&&oob){ RC("C04",-8); break; } Mask must; for(int x=0;x<N;x++) if(S.has(x)&&c[x].guest==p&&c[x].owner!=p){ if(c[x].st==BUSY||c[x].st==DIS||asked(p,x)) must.add(x); }
      Mask pd=pend[a]&S; Mask told=D-pd; 
      // eligibility may change as siblings are returned
      Mask done; for(int x=0;x<N;x++) if(told.has(x)){ bool ok=c[x].guest==p&&c[x].owner!=p&&(c[x].st==BUSY||c[x].st==DIS||!elig(p,x)||must.has(x)); if(!ok) L.F("C02","return-wrong","%s %s told it to leave CPU %d, which nobody asked back",n,d,x); else { c[x].guest=c[x].st==BUSY?c[x].owner:-1; done.add(x); } }
      Mask miss=must-done; if(!miss.empty()){ bool dis=false; for(int x=0;x<N;x++) if(miss.has(x)&&c[x].st==DIS) dis=true; L.F(dis?"C08":"C02","return-not-told","%s %s was not told to leave %s",n,d,miss.str().c_str()); }
      if(!pd.sub(D)) L.F("C09","pending-not-told","%s %s was not told that it lost %s in a blocking call",n,d,(pd-D).str().c_str()); pend[a]=pend[a]-pd;
      if(o->code==O_RETURN){ if((rc==0)!=(!D.empty())) L.F("C02","wrong-result","%s %s returned %s and disabled %s",n,d,rcs(rc),D.str().c_str()); } break; }
    case O_SETMAX: { if(o->n<=0){ noE(); noD(); break; } noE(); RC("C07",0); Mask poss; for(int x=0;x<N;x++) if(c[x].guest==p||(c[x].owner==p&&c[x].st==BUSY)) poss.add(x); if(!D.sub(poss|owned)) L.F("C07","disable-foreign","%s %s disabled %s",n,d,(D-poss-owned).str().c_str());
      bool full=owned.sub(poss); int before=poss.count(); for(int x=0;x<N;x++) if(D.has(x)) lend(p,x); int now=count(p); if(now>o->n) L.F("C07","setmax-exceeded","%s %s left it with %d CPUs",n,d,now); if(full&&now<std::min(before,o->n)) L.F("C07","setmax-overlent","%s %s left it with %d of %d CPUs",n,d,now,before); break; }
    case O_UNSETMAX: RC("C07",0); noE(); noD(); break;
    case O_CHECK: { noE(); noD(); if(oob) break; St& s=c[o->n]; if(s.owner!=p&&s.st!=LENT) RC("C04",-8); else if(s.guest==p) RC("C01",0); else if(s.guest<0){ if(w.smt&&s.owner!=p&&!elig(p,o->n)){ if(rc==0) s.guest=p; break; } RC("C03",0); s.guest=p; if(s.owner==p){ if(s.st==LENT) probe("check_owner_lent"); s.st=BUSY; } } else { if(rc==0) L.F("C01","check-in-use","%s %s says the CPU is available while %s uses it",n,d,app(s.guest)->name.c_str()); } if(rc==0) a->has.add(o->n); break; }
    case O_DISABLE: { if(rc!=0){ RC("C08",2); noE(); noD(); break; } Mask g2=guested-owned; if(!E.sub(owned)) L.F("C08","enable-foreign","%s %s enabled %s",n,d,E.str().c_str()); reclaim(owned,"C08"); if(D!=g2) L.F("C08","disable-incomplete","%s %s disabled %s, it was borrowing %s",n,d,D.str().c_str(),g2.str().c_str()); for(int x=0;x<N;x++) if(g2.has(x)) lend(p,x); pend[a]=Mask(); break; }
    case O_ENABLE: noE(); noD(); break;
    case O_FINALIZE: if(rc<0){ L.F("C08","finalize-failed","%s %s returned %s",n,d,rcs(rc)); break; } for(int x=0;x<N;x++) if(c[x].owner==p){ if(c[x].guest==p) c[x].guest=-1; c[x].owner=-1; c[x].st=L.pm?LENT:DIS; } else if(c[x].guest==p) lend(p,x); pend[a]=Mask(); { bool any=false; for(App* b:L.apps) if(b->up) any=true; if(!any) for(int x=0;x<N;x++){ c[x]=St(); if(!L.respect) c[x].st=LENT; } } break;
    case O_INIT: if(rc<0){ L.F("C08","reinit-failed","%s %s returned %s",n,d,rcs(rc)); break; } for(int x=0;x<N;x++) if(a->own.has(x)){ c[x].owner=p; c[x].st=BUSY; if(c[x].guest<0) c[x].guest=p; } pend[a]=Mask(); break;
    case O_BLOCK_IN: noE(); noD(); for(int x=0;x<N;x++) if(o->lentm.has(x)) lend(p,x); pend[a]=pend[a]-o->lentm; break;
    case O_BLOCK_OUT: { noE(); noD(); Mask ow=o->lentm&owned, no=o->lentm-owned; for(int x=0;x<N;x++) if(ow.has(x)){ c[x].st=BUSY; if(c[x].guest<0) c[x].guest=p; }
      for(int x=0;x<N;x++) if(no.has(x)){ if((a->own.has(x)||(ow.empty()&&(o->m&owned&(a->keep?ALL-w.coremask(o->m.first()):ALL)).empty()))&&c[x].guest<0&&elig(p,x)&&c[x].st==LENT){ c[x].guest=p; a->has.add(x); a->doubt.del(x); } else pend[a].add(x); } break; }
    default: break;
  }
}
