// Randomised comparison of NatSet / GNSet / hashing against std::set.   sets <natset|gnset|hash> <from> <to>
#include <string.h>
#include <set>
#include <vector>
#include <iostream>
#include <random>
#include <algorithm>
#include <functional>
#include <sstream>
#include <unordered_set>
#include "util.hpp"
typedef std::set<int> S;
static long seed_; static std::string log_;
static void fail(const std::string& m) { std::cout << "FAIL seed " << seed_ << ": " << m << "\n  history: " << log_ << std::endl; exit(1); }
#define CK(c,m) do { if (!(c)) fail(m); } while(0)
static std::string str(const S& s) { std::ostringstream o; o << "{"; for(int v:s) o << v << ","; o << "}"; return o.str(); }
struct R { std::mt19937_64 g; int in(int a,int b) { return a + (int)(g() % (unsigned long)(b-a+1)); }
   int val(int M) { switch(in(0,5)) { case 0: return std::min(M-1,64*in(0,M/64)); case 1: return std::max(0,std::min(M-1,64*in(1,std::max(1,M/64))-1)); case 2: return M-1; case 3: return 0; default: return in(0,M-1);} } };
template <class Set> S content(const Set& s) { S r; int last=-1; long n=0; for(auto v : s) { if (v<=last) fail("iteration not increasing"); last=v; r.insert(v); if (++n>200000) fail("iteration does not end"); } return r; }
template <class Set> void same(const Set& s,const S& o,int M,const char* what) {
   S c = content(s);
   if (c!=o) fail(std::string(what)+": iterated "+str(c)+" expected "+str(o));
   CK((int)s.size()==(int)o.size(),std::string(what)+": size"); CK(s.empty()==o.empty(),std::string(what)+": empty");
   for(int v=0;v<M;v++) CK(s.contains(v)==(o.count(v)>0),std::string(what)+": contains "+std::to_string(v)+" content "+str(o));
}
template <unsigned short N> void natset(R& r) {
   const int M=64*N; typedef NatSet<N> T; T a,b; S oa,ob; log_="NatSet<"+std::to_string(N)+">";
   auto L=[](const std::string& s) { log_ += "; "+s; };
   int nop=r.in(1,14);
   for(int k=0;k<nop;k++) {
      switch(r.in(0,14)) {
         case 0: case 1: case 2: { int v=r.val(M); L("insert "+std::to_string(v)); a.insert(v); oa.insert(v); break; }
         case 3: { int n=r.in(0,M/2); L("insert many"); while(n--) { int v=r.val(M); a.insert(v); oa.insert(v);} break; }
         case 4: L("complement"); { auto& x=a.complement(); CK(&x==&a,"complement returns *this"); S n; for(int v=0;v<M;v++) if(!oa.count(v)) n.insert(v); oa=n; } break;
         case 5: { L("unionWith "+str(ob)); auto& x=a.unionWith(b); CK(&x==&a,"ret"); oa.insert(ob.begin(),ob.end()); same(b,ob,M,"right operand"); break; }
         case 6: { L("interWith "+str(ob)); a.interWith(b); S n; for(int v:oa) if(ob.count(v)) n.insert(v); oa=n; break; }
         case 7: { L("swap"); T t(a); a=b; b=t; std::swap(oa,ob); break; }
         case 8: L("clear"); a.clear(); oa.clear(); break;
         case 9: { int lb=r.val(M),ub=r.val(M); if (r.in(0,3) && lb>ub) std::swap(lb,ub); L("range "+std::to_string(lb)+".."+std::to_string(ub)); a=T(lb,ub); oa.clear(); for(int v=lb;v<=ub;v++) oa.insert(v); break; }
         case 10: { // ofs - S over the admissible part of S
            int o=r.in(0,2*M-2); if (r.in(0,1)) o=r.val(M); T s; S os,res; for(int v:oa) if (o-v>=0 && o-v<M) { s.insert(v); os.insert(v); res.insert(o-v);} L("a = "+std::to_string(o)+" - "+str(os)); a = r.in(0,1) ? T(o,s) : o - s; oa=res; same(s,os,M,"operand of ofs-S"); break; }
         case 11: { L("a|b"); T t = a|b; S n(oa); n.insert(ob.begin(),ob.end()); same(t,n,M,"a|b"); break; }
         case 12: { L("a&b"); T t = a&b; S n; for(int v:oa) if(ob.count(v)) n.insert(v); same(t,n,M,"a&b"); break; }
         case 13: { L("init list"); int x=r.val(M),y=r.val(M),z=r.val(M); a=T({x,y,z}); oa={x,y,z}; break; }
         case 14: { L("copy"); T t(a); same(t,oa,M,"copy"); t.insert(r.val(M)); break; }
      }
      same(a,oa,M,"a"); same(b,ob,M,"b");
      CK((a==b)==(oa==ob),"equality"); { T c; for(int v:oa) c.insert(v); CK(c==a,"equality of rebuilt set"); }
      if (!oa.empty()) CK(a.largest()==*oa.rbegin(),"largest");
      { GNSet g(a); S c=content(g); CK(c==oa,"conversion to GNSet"); }
      { std::ostringstream o; o << a; }
   }
}
static GNSet mk(R& r,S& o,int M) {
   o.clear();
   switch(r.in(0,5)) {
      case 0: { int n=r.in(0,M); log_+=" mk"+std::to_string(n); return GNSet((unsigned short)n); }
      case 1: { int lb=r.val(M),ub=r.val(M); if (r.in(0,3)&&lb>ub) std::swap(lb,ub); for(int v=lb;v<=ub;v++) o.insert(v); log_+=" mk["+std::to_string(lb)+","+std::to_string(ub)+"]"; return GNSet(lb,ub); }
      case 2: { int lb=r.val(M),ub=r.val(M); if (lb>ub) std::swap(lb,ub); for(int v=lb;v<ub;v++) o.insert(v); log_+=" mkRange"; return GNSet(Range::open(lb,ub)); }
      case 3: { int x=r.val(M),y=r.val(M); o={x,y}; log_+=" mkInit"; return GNSet({x,y}); }
      case 4: { GNSet g((unsigned short)r.in(0,64)); int n=r.in(0,9); while(n--) { int v=r.val(M); g.insert(v); o.insert(v);} log_+=" mkIns"+str(o); return g; }
      default: { log_+=" mkDef"; return GNSet(); }
   }
}
static void gnset(R& r) {
   const int M = r.in(0,9)==0 ? 4096 : (r.in(0,1) ? 330 : 130); S oa,ob; log_="GNSet"; GNSet a=mk(r,oa,M),b=mk(r,ob,M);
   auto L=[](const std::string& s) { log_ += "; "+s; };
   int nop=r.in(1,14), Mx=M;
   for(int k=0;k<nop;k++) {
      switch(r.in(0,19)) {
         case 0: case 1: { int v=r.val(M); L("insert "+std::to_string(v)); CK(&a.insert(v)==&a,"ret"); oa.insert(v); break; }
         case 2: { int n=r.in(0,40); L("insert many"); while(n--) { int v=r.val(M); a.insert(v); oa.insert(v);} break; }
         case 3: { int v=r.in(0,3)? r.val(M) : r.val(2*M); L("remove "+std::to_string(v)); a.remove(v); oa.erase(v); break; }
         case 4: { L("unionWith "+str(ob)); a.unionWith(b); oa.insert(ob.begin(),ob.end()); break; }
         case 5: { L("interWith "+str(ob)); a.interWith(b); S n; for(int v:oa) if(ob.count(v)) n.insert(v); oa=n; break; }
         case 6: { L("diffWith "+str(ob)); a.diffWith(b); S n; for(int v:oa) if(!ob.count(v)) n.insert(v); oa=n; break; }
         case 7: { L("swap"); GNSet t(a); a=b; b=t; std::swap(oa,ob); break; }
         case 8: { L("b=mk"); b=mk(r,ob,M); break; }
         case 9: L("clear"); a.clear(); oa.clear(); break;
         case 10: { int p=r.in(0,3)? r.val(M) : r.in(-1,2*M); L("removeAbove "+std::to_string(p)); a.removeAbove(p); S n; for(int v:oa) if(v<=p) n.insert(v); oa=n; break; }
         case 11: { int p=r.in(0,3)? r.val(M) : r.in(-1,2*M); L("removeBelow "+std::to_string(p)); a.removeBelow(p); S n; for(int v:oa) if(v>=p) n.insert(v); oa=n; break; }
         case 12: { L("a|b"); GNSet t = a|b; S n(oa); n.insert(ob.begin(),ob.end()); same(t,n,M,"a|b"); break; }
         case 13: { L("a&b"); GNSet t = a&b; S n; for(int v:oa) if(ob.count(v)) n.insert(v); same(t,n,M,"a&b"); break; }
         case 14: { L("a-b"); GNSet t = a-b; S n; for(int v:oa) if(!ob.count(v)) n.insert(v); same(t,n,M,"a-b"); break; }
         case 15: { L("complement"); int c=64*(unsigned short)a.nbWords(); a.complement(); S n; for(int v=0;v<c;v++) if(!oa.count(v)) n.insert(v); oa=n; Mx=std::max(Mx,c); break; }
         case 16: { L("copy ctor"); GNSet t(a); same(t,oa,Mx,"copy"); t.insert(r.val(M)); t.complement(); break; }
         case 17: { L("move"); GNSet t(std::move(a)); same(t,oa,Mx,"moved"); a=std::move(t); break; }
         case 18: { L("aliased union"); a.unionWith(a); a.interWith(a); break; }
         case 19: { L("a=b"); a=b; oa=ob; break; }
      }
      same(a,oa,2*Mx+70,"a"); same(b,ob,2*Mx+70,"b");
      CK((a==b)==(oa==ob),"a==b"); CK((b==a)==(oa==ob),"b==a"); CK((a!=b)==(oa!=ob),"a!=b"); CK((b!=a)==(oa!=ob),"b!=a");
      { GNSet c((unsigned short)r.in(0,200)); for(int v:oa) c.insert(v); CK(c==a && a==c && !(a!=c) && !(c!=a),"equality with a rebuilt set of other capacity"); }
      if (!oa.empty()) { CK(*a.rbegin()==*oa.rbegin(),"rbegin"); CK(max(a)==*oa.rbegin(),"max"); CK(min(a)==*oa.begin(),"min"); }
      { auto i=a.begin(); for(int v:oa) { CK(i!=a.end() && *i==v,"post-increment"); i++; } CK(i==a.end(),"post-increment end"); }
   }
}
template <unsigned short N> void nhash(R& r) {
   NatSet<N> a,b; S o; int n=r.in(0,70); while(n--) o.insert(r.val(64*N)); std::vector<int> v(o.begin(),o.end()); std::shuffle(v.begin(),v.end(),r.g); for(int x:v) a.insert(x); for(int x:o) b.insert(x);
   log_="NatSet hash "+str(o);
   NatSet<N> c(a); c.complement().complement();
   CK(a==b && std::hash<NatSet<N>>{}(a)==std::hash<NatSet<N>>{}(b),"NatSet hash"); CK(std::hash<NatSet<N>>{}(a)==std::hash<NatSet<N>>{}(c),"NatSet hash copy");
}
static void hashes(R& r) {
   nhash<1>(r); nhash<2>(r); nhash<3>(r); nhash<4>(r);
   for(int k=0;k<4;k++) {
      S o; int M=r.in(0,1)?330:130; int n=r.in(0,12); while(n--) o.insert(r.val(M)); log_="GNSet hash "+str(o);
      std::vector<int> v(o.begin(),o.end()); std::shuffle(v.begin(),v.end(),r.g);
      GNSet a((unsigned short)r.in(0,500)),b((unsigned short)r.in(0,500)),c(0,r.in(0,400)); for(int x:v) a.insert(x); for(int x:o) b.insert(x);
      if (r.in(0,1)) { b.insert(600); b.remove(600);} if (r.in(0,2)==0) { c.clear(); for(int x:v) c.insert(x);} else c=a;
      CK(a==b && std::hash<GNSet>{}(a)==std::hash<GNSet>{}(b),"GNSet hash (other capacity)"); CK(a==c && std::hash<GNSet>{}(a)==std::hash<GNSet>{}(c),"GNSet hash (copy)");
      CK(a.hash()==b.hash(),"hash()");
   }
   { int n=r.in(1,9); FArray<long> x(n),y(n+r.in(0,2)); std::vector<long> p,q; for(int i=0;i<n;i++) { long z=r.in(0,5); x[i]=z; if (i<(int)y.size()) y[i]=z; p.push_back(z); q.push_back(z);} log_="FArray/vector hash n="+std::to_string(n);
     if (x==y) CK(std::hash<FArray<long>>{}(x)==std::hash<FArray<long>>{}(y),"FArray hash"); q.reserve(50);
     FArray<long> w(x); CK(w==x && std::hash<FArray<long>>{}(x)==std::hash<FArray<long>>{}(w),"FArray copy hash");
     CK(std::hash<std::vector<long>>{}(p)==std::hash<std::vector<long>>{}(q),"vector hash"); }
   // equal states must be found again through a standard container using these hashes
   { std::unordered_set<GNSet> h; std::vector<S> all; log_="unordered_set<GNSet>"; for(int k=0;k<6;k++) { S o; GNSet g((unsigned short)r.in(0,200)); int n=r.in(0,4); while(n--) { int v=r.val(200); g.insert(v); o.insert(v);} h.insert(g); if (std::find(all.begin(),all.end(),o)==all.end()) all.push_back(o);} CK(h.size()==all.size(),"distinct sets in a hash container");
     for(auto& o:all) { GNSet g(0,r.in(0,300)); g.clear(); for(int v:o) g.insert(v); CK(h.count(g)==1,"lookup of an equal set"); } }
}
int main(int argc,char* argv[]) {
   std::string w=argv[1]; long lo=atol(argv[2]),hi=atol(argv[3]);
   for(seed_=lo;seed_<hi;seed_++) { R r; r.g.seed(seed_*7919+w[0]); log_="";
      if (w=="natset") { switch(seed_%4) { case 0: natset<1>(r); break; case 1: natset<2>(r); break; case 2: natset<3>(r); break; default: natset<4>(r);} }
      else if (w=="gnset") gnset(r); else hashes(r); }
   std::cout << "OK " << hi-lo << " cases" << std::endl; return 0;
}
