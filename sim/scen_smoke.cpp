#include "world.h"
SCENARIO(smoke){
  World w(run); w.ncpu=4; w.ncore=4; w.nnode=1; w.tpc=1;
  for(int i=0;i<2;i++){ App* a=w.add_app(i?"B":"A",Mask::range(2*i,2*i+2),"--lewi"); w.launch(a); w.post(a->th[0],w.mk(a,O_INIT)); for(int k=0;k<6;k++) w.post(a->th[0],w.mk(a,w.rng.chance(0.5)?O_LEND:w.rng.chance(0.5)?O_BORROW:O_RECLAIM)); }
  if(!w.settle()) fail(run.prop,"stuck","%s",w.stuck().c_str());
  std::string t=w.table(w.apps[0]); logf("%s",t.c_str());
  for(App* a:w.apps) w.post(a->th[0],w.mk(a,O_FINALIZE)); if(!w.settle()) fail(run.prop,"stuck","%s",w.stuck().c_str());
  for(App* a:w.apps) kill_proc(a->p,X_NORMAL); run.nontrivial=true;
}
