#include "../expr.h"
#include <random>
using namespace sx;
int main(){ Pool p; std::mt19937_64 g(7); 
 // random expression fuzz: simplified vs raw
 for(int it=0;it<400000;it++){ 
  int nv=1+g()%3; unsigned W=(g()%2)?64:32; std::vector<u64> m; std::vector<std::pair<Expr*,u64>> st;
  for(int i=0;i<nv;i++){ unsigned nb=1+g()%12; bool s=g()%2; if(g()%6==0) nb=W; u64 v=g()&maskw(nb); m.push_back(v); Expr*e=p.ext(s?O_SEXT:O_ZEXT,p.var(i,nb),W); st.push_back({e,s?(u64)sext(v,nb)&maskw(W):v}); }
  u64 base[]={0,1,2,10,1000,1000000000,1000000000ull*1000000007ull,~0ull,1ull<<63,(1ull<<63)-1,1ull<<31,12345};
  for(int i=0;i<3;i++){u64 k=base[g()%12]; st.push_back({p.cst(k,W),k&maskw(W)});}
  for(int i=0;i<6;i++){ auto A=st[g()%st.size()],B=st[g()%st.size()]; u8 ops[]={O_ADD,O_SUB,O_ADD,O_SUB,O_MUL,O_SDIV,O_SREM,O_UDIV,O_UREM,O_AND}; u8 o=ops[g()%10]; if(o==O_MUL&&B.first->op!=O_CONST)continue; if((o>=O_UDIV&&o<=O_SREM)&&(B.first->op!=O_CONST||!B.second))continue; u64 c=evalop(o,W,W,A.second,B.second,0,0); Expr*e=p.bin(o,A.first,B.first); std::unordered_map<Expr*,u64> mm; u64 r=p.eval(e,m,mm); if(r!=c){printf("BAD op %d it %d\n",o,it);return 1;} i64 sv=sext(c,W); if(sv<e->lo||sv>e->hi){printf("BADRANGE op %d it %d\n",o,it);return 1;} st.push_back({e,c}); }
  for(int i=0;i<6;i++){ auto A=st[g()%st.size()],B=st[g()%st.size()]; u8 ops[]={O_EQ,O_ULT,O_ULE,O_SLT,O_SLE}; u8 o=ops[g()%5]; u64 c=evalop(o,1,W,A.second,B.second,0,0); Expr*e=p.bin(o,A.first,B.first); std::unordered_map<Expr*,u64> mm; if(p.eval(e,m,mm)!=c){printf("BADCMP op %d it %d\n",o,it);return 1;} }
 } puts("ok"); }
