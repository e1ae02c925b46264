// Linearizability search: is there an order of the (sub-)steps of the recorded calls, consistent with real time,
// under which a sequential reference model gives every result that was observed?
// Model: struct St (copyable, u64 hash() const); struct Loc { int pc; ... u64 hash() const } with pc==-1 meaning finished;
//        template<F> void succ(const St&,const Loc&,int op,F out)  emits every (St,Loc) one step further that matches the observation.
#pragma once
#include <vector>
#include <unordered_set>
#include <algorithm>
typedef uint64_t u64;
struct LinIv { u64 s,e; bool done; };
template<class M> struct Lin {
  typedef typename M::St St; typedef typename M::Loc Loc; M& m; std::vector<LinIv> iv; size_t limit=60000; 
  std::vector<int> frontier; size_t best=0, nodes=0; bool gaveup=false; St best_state, final_state;
  Lin(M& mm):m(mm){}
  template<class Fin> bool run(const St& s0,Fin fin){
    size_t n=iv.size(); std::vector<int> ord(n); for(size_t i=0;i<n;i++) ord[i]=i; std::sort(ord.begin(),ord.end(),[&](int a,int b){ return iv[a].s<iv[b].s; });
    struct Node { St st; std::vector<Loc> loc; }; std::vector<Node> stack; std::unordered_set<u64> seen; stack.push_back({s0,std::vector<Loc>(n)});
    while(!stack.empty()){
      Node nd=std::move(stack.back()); stack.pop_back(); if(++nodes>limit){ gaveup=true; return true; }
      u64 h=nd.st.hash(); for(size_t i=0;i<n;i++) h=h*0x100000001b3ULL^mixl(nd.loc[i].pc<0?~0ULL:nd.loc[i].hash()+i*77); if(!seen.insert(h).second) continue;
      size_t comp=0; u64 mine=~0ULL; for(size_t i=0;i<n;i++){ if(nd.loc[i].pc<0) comp++; else if(iv[i].done) mine=std::min(mine,iv[i].e); }
      if(mine==~0ULL&&fin(nd.st)){ final_state=nd.st; return true; }
      std::vector<int> en; for(size_t k=0;k<n;k++){ int i=ord[k]; if(nd.loc[i].pc>=0&&iv[i].s<mine) en.push_back(i); }
      if(comp>=best||nodes==1){ if(comp>best||nodes==1) frontier.clear(); best=comp; best_state=nd.st; for(int i:en) if(std::find(frontier.begin(),frontier.end(),i)==frontier.end()) frontier.push_back(i); if(en.empty()&&mine==~0ULL) frontier.push_back(-1); }
      // depth first, operations that return earliest first
      std::sort(en.begin(),en.end(),[&](int a,int b){ return iv[a].e>iv[b].e; });
      for(int i:en){ const Loc l0=nd.loc[i]; m.succ(nd.st,l0,i,[&](const St& s,const Loc& l){ Node x{s,nd.loc}; x.loc[i]=l; stack.push_back(std::move(x)); }); }
    }
    return false;
  }
  static u64 mixl(u64 x){ x+=0x9e3779b97f4a7c15ULL; x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL; x=(x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31); }
};
