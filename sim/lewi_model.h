// Reference model of the LeWI CPU table in polling mode.
#pragma once
#include "world.h"
#include <algorithm>
#include <stdarg.h>
enum { AFF_AUTO, AFF_NEARFIRST, AFF_NEARONLY, AFF_SPREAD, AFF_MASK };
struct LG { World* w; int id; std::vector<App*> apps; bool pm=false, respect=true, c28=false, multi=false, conv=false; std::string as;
  void F(const std::string& prop,const char* cls,const char* fmt,...) __attribute__((format(printf,4,5)));
  Mask nearby(App* a){ Mask m; int per=w->ncpu/w->nnode; for(int k=0;k<w->nnode;k++){ Mask nm=Mask::range(k*per,(k+1)*per); if(!(nm&a->own).empty()) m=m|nm; } return m; }
  Mask silent(App* a){ (void)a; return Mask(); }
};
enum { DIS, BUSY, LENT };
struct St { int owner=-1, guest=-1, st=DIS; };
struct Model {
  LG& L; World& w; std::vector<St> c; bool valid=false; std::map<App*,Mask> pend; 
  Model(LG& l):L(l),w(*l.w),c(l.w->ncpu){}
  App* app(int i){ return w.apps[i]; }
  bool parse(std::vector<St>& out,bool& printed);
  bool from_table(); void init_home(); void check_views(const char* when); void check_home(); void compare_table(); void step(Op* o);
  bool asked(int p,int cpu){ Mask m=w.coremask(cpu); for(int x=0;x<w.ncpu;x++) if(m.has(x)&&c[x].st==BUSY&&c[x].owner!=p) return true; return false; } // a CPU of the core is needed by its owner
  bool elig(int p,int cpu){ if(!w.smt) return c[cpu].owner==p||c[cpu].guest==p||c[cpu].guest<0; Mask m=w.coremask(cpu); for(int x=0;x<w.ncpu;x++) if(m.has(x)) if((c[x].guest!=p&&c[x].guest>=0)||(c[x].st==BUSY&&c[x].owner!=p)) return false; return true; }
  void lend(int p,int x); void free_guest(int x);
  Mask idle_for(int p,const Mask& S); int count(int p){ int n=0; for(auto&s:c) if(s.guest==p||(s.owner==p&&s.st==BUSY)) n++; return n; }
};
void check_history(LG& g,u64 upto);
