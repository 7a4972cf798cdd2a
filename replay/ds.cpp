// Randomised comparison of CODD's containers against standard-library models.   ds <what> <from> <to>
#include <string.h>
#include <unistd.h>
#include <bit>
#include <optional>
#include <set>
#include <map>
#include <deque>
#include <vector>
#include <iostream>
#include <random>
#include <algorithm>
#include <functional>
#include <sstream>
#include "util.hpp"
#include "store.hpp"
#include "vec.hpp"
#include "heap.hpp"
#include "queue.hpp"
#include "hashtable.hpp"
#include "lighthash.hpp"
#include "msort.hpp"
#include "node.hpp"
#include "uf.hpp"
#include "dd.hpp"
static long seed_; static std::string log_;
static std::streambuf* out_;
static void fail(const std::string& m) { std::cout.rdbuf(out_); std::cout << "FAIL seed " << seed_ << ": " << m << "\n  history: " << log_ << std::endl; _exit(1); }
#define CK(c,m) do { if (!(c)) fail(m); } while(0)
#define L(x) do { std::ostringstream o_; o_ << "; " << x; log_ += o_.str(); } while(0)
struct R { std::mt19937_64 g; int in(int a,int b) { return a + (int)(g() % (unsigned long)(b-a+1)); } };
// ---------------------------------------------------------------- pool
struct Blk { unsigned char* p; size_t n; unsigned char tag; };
static void pool(R& r) {
   size_t seg = r.in(0,3)==0 ? 16*r.in(1,8) : 16*r.in(8,64); Pool p(seg); L("segment size " << seg);
   std::vector<Blk> live; std::vector<std::pair<PoolMark,size_t>> marks;
   int nop = r.in(5,r.in(0,9)==0 ? 400 : 80); unsigned char tag=1;
   auto verify=[&]{ for(auto& b:live) for(size_t i=0;i<b.n;i++) CK(b.p[i]==b.tag,"content of a live block changed"); };
   for(int k=0;k<nop;k++) {
      int op=r.in(0,19);
      if (op<15) { size_t n = r.in(0,9)==0 ? r.in(1,(int)seg*3) : r.in(1,(int)std::max<size_t>(2,seg/3)); L("allocate " << n); unsigned char* q=(unsigned char*)p.allocate(n);
         CK(q!=nullptr,"null block"); CK(((size_t)q & 0xF)==0,"alignment");
         for(auto& b:live) CK(q+n<=b.p || b.p+b.n<=q,"overlapping live blocks");
         memset(q,tag,n); live.push_back({q,n,tag}); tag=tag%250+1;
      } else if (op==15 || op==16) { L("mark"); marks.push_back({p.mark(),live.size()}); }
      else if (op==17 || op==18) { if (!marks.empty()) { int j=r.in(0,(int)marks.size()-1); L("clear to mark " << j); p.clear(marks[j].first); live.resize(marks[j].second); marks.resize(j+(r.in(0,1))); } }
      else if (r.in(0,9)==0) { L("clear"); p.clear(); live.clear(); marks.clear(); }
      verify();
      CK(p.capacity()==seg,"capacity");
   }
}
// ---------------------------------------------------------------- vec
template <class V,class T> void chk(const V& v,const std::vector<T>& o,const char* w) {
   CK((size_t)v.size()==o.size(),std::string(w)+": size"); for(size_t i=0;i<o.size();i++) { CK(v.get(i)==o[i],std::string(w)+": element"); CK(v[i]==o[i],std::string(w)+": element []"); }
   size_t k=0; for(auto x:v) { CK(k<o.size() && x==o[k],std::string(w)+": iteration"); k++; } CK(k==o.size(),std::string(w)+": iteration length");
   k=0; for(auto i=v.cbegin();i!=v.cend();++i) { CK(*i==o[k],"const iteration"); k++; }
}
template <class T,class S> void vec(R& r) {
   Pool p(r.in(0,1)?4096:64),p2(4096); typedef Vec<T,S> V; V a(&p,(S)r.in(0,5)),b(&p); std::vector<T> oa,ob; T x=1;
   int nop=r.in(1,60);
   for(int k=0;k<nop;k++) {
      switch(r.in(0,11)) {
         case 0: case 1: case 2: case 3: { L("push_back"); S i=a.push_back(x); CK((size_t)i==oa.size(),"index returned by push_back"); oa.push_back(x++); break; }
         case 4: if (!oa.empty()) { L("pop_back"); T v=a.pop_back(); CK(v==oa.back(),"value returned by pop_back"); oa.pop_back(); } break;
         case 5: if (!oa.empty()) { int i=r.in(0,(int)oa.size()-1); L("at " << i); a.at(i,x); oa[i]=x++; } break;
         case 6: if (!oa.empty()) { int i=r.in(0,(int)oa.size()-1); L("remove " << i); T seen=-1; int calls=0; S ns=a.remove(i,[&](T v) { seen=v; calls++; }); T mv = oa.back(); bool last = i==(int)oa.size()-1; oa[i]=oa.back(); oa.pop_back(); CK((size_t)ns==oa.size(),"size returned by remove"); CK(last || (calls==1 && seen==mv),"relink callback"); } break;
         case 7: { L("b=a"); b=a; ob=oa; chk(b,ob,"b"); break; }
         case 8: { L("copy into another pool"); V c(&p2,a); chk(c,oa,"copy in pool"); c.push_back(77); if (!oa.empty()) c.at(0,99); V d(a); chk(d,oa,"copy ctor"); d.push_back(5); break; }
         case 9: { L("swap"); V t(a); a=b; b=std::move(t); std::swap(oa,ob); break; }
         case 10: { int i=r.in(0,(int)oa.size()+2); L("[" << i << "]="); a[i]=x; if (i<(int)oa.size()) { oa[i]=x; oa.resize(i+1);} else { while((int)oa.size()<i) oa.push_back(a.get((S)oa.size())); oa.push_back(x);} x++; break; }
         case 11: if (r.in(0,4)==0) { L("clear"); a.clear(); oa.clear(); } else { L("move"); V c(std::move(a)); chk(c,oa,"moved"); a=std::move(c);} break;
      }
      chk(a,oa,"a"); chk(b,ob,"b");
   }
}
// ---------------------------------------------------------------- sort
static void sorts(R& r) {
   int n=r.in(0,r.in(0,9)==0?300:40); std::vector<long> v(n); int kr=r.in(1,60); for(int i=0;i<n;i++) v[i]=(long)r.in(0,kr)*100000+i; L("n=" << n << " keys 0.." << kr);
   auto key=[](long a) { return a/100000; };
   for(int m=0;m<3;m++) { std::vector<long> a(v); a.resize(n+2,-7);
      if (m==0) mergeSort(a.data(),n,[&](const long& x,const long& y) { return key(x)<key(y); });
      else if (m==1) mergeSort(a.data(),n,[&](const long& x,const long& y) { return key(x)<=key(y); });
      else mergeSort(a.data(),n,[&](const long& x,const long& y) { return key(x)>key(y); });
      CK(a[n]==-7 && a[n+1]==-7,"writes past the end"); a.resize(n);
      for(int i=0;i+1<n;i++) CK(m==2 ? key(a[i])>=key(a[i+1]) : key(a[i])<=key(a[i+1]),"not sorted at "+std::to_string(i));
      std::vector<long> s(a),t(v); std::sort(s.begin(),s.end()); std::sort(t.begin(),t.end()); CK(s==t,"not a permutation"); }
}
// ---------------------------------------------------------------- heap
struct HE { int k; int id; void operator--(int) { k--; } bool operator==(const HE& o) const { return k==o.k && id==o.id; } };
static void heap(R& r) {
   Pool p(1<<14); int init=r.in(2,r.in(0,1)?5:70); int kr=r.in(1,50); bool mx=r.in(0,1); auto ord=[mx](const HE& a,const HE& b) { return mx ? a.k>b.k : a.k<b.k; }; Heap<HE,decltype(ord)> h(&p,init,ord); typedef Heap<HE,decltype(ord)>::LocType Loc;
   std::map<int,int> m; std::map<int,Loc*> loc; int id=0; L("initial size " << init); bool ordered=true;
   auto best=[&]{ int b=0; bool f=true; for(auto& [i,k]:m) { if (f || (mx ? k>b : k<b)) b=k; f=false; } return b; };
   int nop=r.in(1,200);
   for(int k=0;k<nop;k++) {
      switch(r.in(0,13)) {
         case 0: case 1: case 2: case 3: case 4: { int key=r.in(0,kr); if (!ordered) { h.buildHeap(); ordered=true; L("build"); } L("insertHeap " << key); auto l=h.insertHeap(HE{key,id}); CK(l->value().id==id && l->value().k==key,"location returned by insertHeap"); loc[id]=(Loc*)l; m[id++]=key; break; }
         case 5: case 6: { int key=r.in(0,kr); L("insert " << key); auto l=h.insert(HE{key,id}); CK((**l).id==id,"location returned by insert"); loc[id]=l; m[id++]=key; ordered=false; break; }
         case 7: case 8: case 9: case 10: if (!m.empty()) { if (!ordered) { h.buildHeap(); ordered=true; L("build"); } L("extractMax"); HE e=h.extractMax(); CK(m.count(e.id) && m[e.id]==e.k,"extracted value not in the heap"); CK(e.k==best(),"extracted value is not the best"); m.erase(e.id); loc.erase(e.id); } break;
         case 11: if (!m.empty() && ordered) { auto it=m.begin(); std::advance(it,r.in(0,(int)m.size()-1)); int i=it->first; L("remove id " << i); HE e=h.remove(loc[i]); CK(e.id==i,"remove returned another element"); m.erase(i); loc.erase(i); } break;
         case 12: if (!m.empty() && ordered && !mx) { auto it=m.begin(); std::advance(it,r.in(0,(int)m.size()-1)); int i=it->first; L("decrease id " << i); h.decrease(loc[i]); m[i]--; } break;
         case 13: if (r.in(0,5)==0) { L("clear"); h.clear(); m.clear(); loc.clear(); ordered=true; } break;
      }
      CK(h.size()==m.size(),"size"); CK(h.empty()==m.empty(),"empty");
      { std::map<int,int> c; for(unsigned i=0;i<h.size();i++) { HE e=h[i]->value(); CK(!c.count(e.id),"duplicate element"); c[e.id]=e.k; } CK(c==m,"content"); }
      for(auto& [i,l]:loc) CK(l->value().id==i,"a location changed its element");
   }
}
// ---------------------------------------------------------------- queue
static void queue(R& r) {
   CQueue<long> q(r.in(0,2)==0?32:r.in(1,5)); std::deque<long> o; long x=1; int nop=r.in(1,300); int bias=r.in(4,7);
   for(int k=0;k<nop;k++) {
      int op=r.in(0,11);
      if (op<bias) { L("enQueue"); auto l=q.enQueue(x); CK(l->value()==x,"location returned by enQueue"); o.push_back(x++); }
      else if (op<10) { L("deQueue"); long v=q.deQueue(); if (o.empty()) CK(v==0,"deQueue on empty"); else { CK(v==o.front(),"deQueue order"); o.pop_front(); } }
      else if (op==10) { L("peek"); CK(q.peek()==(o.empty()?0:o.front()),"peek"); }
      else if (r.in(0,9)==0) { L("clear"); q.clear(); o.clear(); }
      CK(q.size()==(int)o.size(),"size"); CK(q.empty()==o.empty(),"empty");
      size_t i=0; q.doOnAll([&](Location<long>* l) { CK(i<o.size() && **l==o[i],"doOnAll order"); i++; }); CK(i==o.size(),"doOnAll count");
   }
}
// ---------------------------------------------------------------- hash tables
struct WK { int k; bool operator==(const WK& o) const { return k==o.k; } }; static int wmod_=3;
std::ostream& operator<<(std::ostream& os,const WK& w) { return os << w.k; }
template <> struct std::hash<WK> { std::size_t operator()(const WK& w) const noexcept { return (std::size_t)(w.k%wmod_)*(wmod_>50 ? 0x9E3779B97F4A7C15ull : 1ull); } };
static void htab(R& r) {
   wmod_=r.in(0,1)?r.in(1,7):1000; Pool p(1<<16); static const size_t szs[]={2,3,10,547,548,1000,20000}; size_t sz=szs[r.in(0,6)]; L("capacity " << sz);
   { Hashtable<WK,long> h(&p,sz); std::map<int,long> m; long x=1; int nop=r.in(1,80),kr=r.in(2,40);
     for(int k=0;k<nop;k++) { int key=r.in(0,kr);
        switch(r.in(0,6)) {
           case 0: case 1: L("insert " << key); h.insert(WK{key},x); m[key]=x++; break;
           case 2: { L("get " << key); long v=-1; bool f=h.get(WK{key},v); CK(f==(m.count(key)>0),"get: presence"); if (f) CK(v==m[key],"get: value"); else CK(v==-1,"get: value touched"); break; }
           case 3: case 4: { L("getLoc/safeInsertAt " << key); long v=-1; auto l=h.getLoc(WK{key},v); CK((bool)l==(m.count(key)>0),"getLoc: presence"); if (l) CK(v==m[key],"getLoc: value"); else { h.safeInsertAt(l,WK{key},x); m[key]=x++; } break; }
           case 5: if (!m.count(key)) { L("safeInsert " << key); h.safeInsert(WK{key},x); m[key]=x++; } break;
           case 6: if (r.in(0,9)==0) { L("clear"); h.clear(); m.clear(); } break; }
        CK(h.size()==m.size(),"size"); for(int q=0;q<=kr;q++) { long v=-1; bool f=h.get(WK{q},v); CK(f==(m.count(q)>0) && (!f || v==m[q]),"lookup of "+std::to_string(q)); }
        std::map<int,long> all; h.doOnAll([&](const WK& w,long v) { CK(!all.count(w.k),"doOnAll duplicate"); all[w.k]=v; }); CK(all==m,"doOnAll");
     } }
   { LHashtable<WK> h(&p,sz); std::map<int,Node<WK>*> m; int nop=r.in(1,60),kr=r.in(2,40); unsigned id=0;
     for(int k=0;k<nop;k++) { int key=r.in(0,kr);
        if (r.in(0,30)==0) { L("L clear"); h.clear(); m.clear(); }
        else { L("L lookup/insert " << key); Node<WK>* v=nullptr; auto l=h.getLoc(WK{key},v); CK((bool)l==(m.count(key)>0),"getLoc: presence"); if (l) CK(v==m[key],"getLoc: node"); else { auto n=new (&p) Node<WK>(&p,WK{key},id++,true); if (r.in(0,1)) h.safeInsertAt(l,n); else h.rawInsertAt(l,n); m[key]=n; } }
        CK(h.size()==m.size(),"size"); for(int q=0;q<=kr;q++) { Node<WK>* v=nullptr; auto l=h.getLoc(WK{q},v); CK((bool)l==(m.count(q)>0) && (!l || v==m[q]),"lookup of "+std::to_string(q)); }
        std::set<Node<WK>*> all,exp; h.doOnAll([&](Node<WK>* n) { CK(all.insert(n).second,"doOnAll duplicate"); }); for(auto& [a,b]:m) exp.insert(b); CK(all==exp,"doOnAll");
     } }
}
// ---------------------------------------------------------------- nodes and arcs
struct TN : public Node<WK> { TN(Pool* p,int k,unsigned id) : Node<WK>(p,WK{k},id,true) {} using ANode::addArc; };
static void nodes(R& r) {
   Pool p(1<<14); int n=r.in(2,9); std::vector<TN*> nd; for(int i=0;i<n;i++) nd.push_back(new (&p) TN(&p,i,i)); L("nodes " << n);
   struct E { Edge::Ptr e; int f,t,l; bool live; }; std::vector<E> es; 
   auto check=[&]{ for(int i=0;i<n;i++) {
         std::multiset<Edge*> k,ek,q,eq; for(auto it=nd[i]->beginKids();it!=nd[i]->endKids();it++) { k.insert((*it).get()); CK((*it)->_from.get()==nd[i],"outgoing arc has another source"); }
         for(auto it=nd[i]->beginPar();it!=nd[i]->endPar();it++) { q.insert((*it).get()); CK((*it)->_to.get()==nd[i],"incoming arc has another target"); }
         for(auto& x:es) if (x.live) { if (x.f==i) ek.insert(x.e.get()); if (x.t==i) eq.insert(x.e.get()); }
         CK(k==ek,"outgoing arcs of node "+std::to_string(i)); CK(q==eq,"incoming arcs of node "+std::to_string(i)); CK(nd[i]->nbChildren()==ek.size() && nd[i]->nbParents()==eq.size(),"arc counts");
         unsigned ix=0; for(auto it=nd[i]->beginKids();it!=nd[i]->endKids();it++,ix++) CK((*it)->_fix==ix,"source index of an arc"); ix=0; for(auto it=nd[i]->beginPar();it!=nd[i]->endPar();it++,ix++) CK((*it)->_tix==ix,"target index of an arc");
      } for(auto& x:es) CK(x.e->_lbl==x.l && x.e->_from.get()==nd[x.f] && x.e->_to.get()==nd[x.t],"arc end points or label"); };
   int nop=r.in(1,50);
   for(int k=0;k<nop;k++) {
      if (r.in(0,9)<8) { int f=r.in(0,n-2),t=r.in(f+1,n-1),lb=r.in(0,5); L("arc " << f << "->" << t << ":" << lb); Edge::Ptr e=new (&p) Edge(nd[f],nd[t],lb); es.push_back({e,f,t,lb,true}); nd[f]->addArc(e); nd[t]->addArc(e); }
      else { int i=r.in(0,n-1); L("disconnect " << i); nd[i]->disconnect(); for(auto& x:es) if (x.f==i || x.t==i) x.live=false; }
      check();
   }
   // node list
   ANList l; std::vector<TN*> o; nop=r.in(1,40); std::vector<bool> in(n,false); 
   for(int k=0;k<nop;k++) { int i=r.in(0,n-1);
      if (!in[i]) { L("list push " << i); l.push_back(nd[i]); o.push_back(nd[i]); in[i]=true; }
      else if (r.in(0,2)) { L("list remove " << i); l.remove(nd[i]); o.erase(std::find(o.begin(),o.end(),nd[i])); in[i]=false; }
      else { L("list pop"); in[o.back()->getId()]=false; l.pop_back(); o.pop_back(); }
      CK(l.size()==o.size(),"list size"); size_t j=0; for(auto x:l) { CK(j<o.size() && x.get()==o[j],"list order"); j++; } CK(j==o.size(),"list length");
      CK(o.empty() || (l.front().get()==o.front() && l.back().get()==o.back()),"list ends"); if (o.empty()) CK(l.front().get()==nullptr && l.back().get()==nullptr,"empty list ends");
      { auto it=l.end(); (void)it; j=o.size(); if (j) { auto c=ANode::Ptr(l.back()); } }
      for(int q=0;q<n;q++) CK(l.confirmMembership(nd[q])==in[q],"membership"); 
   }
   // node array
   NDArray a(r.in(1,4)); std::vector<TN*> oa; nop=r.in(1,40);
   for(int k=0;k<nop;k++) {
      switch(r.in(0,5)) {
         case 0: case 1: case 2: { int i=r.in(0,n-1); L("nd push"); a.push_back(nd[i]); oa.push_back(nd[i]); break; }
         case 3: if (!oa.empty()) { L("nd front/pop"); CK(a.front().get()==oa[0],"array front"); a.pop_front(); oa.erase(oa.begin()); } break;
         case 4: if (!oa.empty()) { int i=r.in(0,(int)oa.size()-1); L("nd erase " << i); auto it=a.begin(); for(int q=0;q<i;q++) it++; CK((*it).get()==oa[i],"array iterator"); auto nx=a.erase(it); oa.erase(oa.begin()+i); if (i<(int)oa.size()) CK((*nx).get()==oa[i],"iterator after erase"); else CK(nx==a.end(),"iterator after erase at end"); } break;
         case 5: if (r.in(0,6)==0) { L("nd clear"); a.clear(); oa.clear(); } break; }
      CK(a.size()==oa.size(),"array size"); size_t j=0; for(auto it=a.begin();it!=a.end();it++) { CK(j<oa.size() && (*it).get()==oa[j],"array order"); j++; } CK(j==oa.size(),"array length");
   }
   { NDArray b(2); std::vector<TN*> ob; int m=r.in(0,20); for(int i=0;i<m;i++) { int q=r.in(0,n-1); b.push_back(nd[q]); ob.push_back(nd[q]); } L("nd sort " << m); b.sort([](const ANode::Ptr& x,const ANode::Ptr& y) { return x->getId()<y->getId(); }); std::sort(ob.begin(),ob.end(),[](TN* x,TN* y) { return x->getId()<y->getId(); }); size_t j=0; for(auto it=b.begin();it!=b.end();it++) { CK((*it).get()==ob[j],"array sort"); j++; } CK(j==ob.size(),"array sort length"); }
}
// ---------------------------------------------------------------- ranges, union-find, arrays
static void misc(R& r) {
   { int f=r.in(-20,20),t=r.in(-20,20); L("range " << f << "," << t); auto it=[&](Range g) { std::vector<int> v; for(auto i:g) { v.push_back(i); if (v.size()>100) fail("range iteration does not end"); } return v; };
     std::vector<int> e; if (f<=t) for(int i=f;i<t;i++) e.push_back(i); else for(int i=f;i>t;i--) e.push_back(i);
     CK(it(Range::open(f,t))==e,"open range"); CK(Range::open(f,t).size()==(int)e.size(),"range size"); CK(it(Range(f,t))==e,"range");
     std::vector<int> c; if (f<=t) for(int i=f;i<=t;i++) c.push_back(i); else for(int i=f;i>=t;i--) c.push_back(i); CK(it(Range::close(f,t))==c,"closed range");
     CK(Range::close(f,t).size()==(int)c.size(),"closed range size");
     std::vector<int> rv(e.rbegin(),e.rend()); if (f<t) CK(it(Range::open(f,t).flip())==rv,"flipped range");
     CK(it(Range::openInc(f,t))==(f<=t?e:std::vector<int>()),"openInc"); CK(it(Range::closeInc(f,t))==(f<=t?c:std::vector<int>()),"closeInc"); }
   { UnionFind<int> u; int n=r.in(1,12); std::vector<UnionFind<int>::Node::Ptr> v; std::vector<int> lab; for(int i=0;i<n;i++) { v.push_back(u.makeSet(i)); lab.push_back(i); }
     int nop=r.in(0,20); for(int k=0;k<nop;k++) { int a=r.in(0,n-1),b=r.in(0,n-1); L("merge " << a << "," << b); auto q=u.merge(v[a],v[b]); int x=lab[a],y=lab[b]; for(auto& l:lab) if (l==y) l=x; CK(u.setFor(q)==u.setFor(v[a]),"merge result outside the merged class");
       for(int i=0;i<n;i++) for(int j=0;j<n;j++) CK((u.setFor(v[i])==u.setFor(v[j]))==(lab[i]==lab[j]),"classes"); } }
   { int n=r.in(0,9); FArray<long> a(n,5); std::vector<long> o(n,5); L("farray " << n); for(int k=0;k<n;k++) { int i=r.in(0,n-1); a[i]=k; o[i]=k; } auto ck=[&](const FArray<long>& x,const std::vector<long>& y) { CK(x.size()==y.size(),"farray size"); for(size_t i=0;i<y.size();i++) CK(x[i]==y[i],"farray element"); size_t j=0; for(auto v:x) CK(v==y[j++],"farray iteration"); };
     ck(a,o); FArray<long> b(a); ck(b,o); CK(a==b,"farray equality"); if (n) { b[n-1]=77; CK(!(a==b),"farray inequality"); ck(a,o); } FArray<long> c(r.in(0,9)); c=a; ck(c,o); FArray<long> d(std::move(c)); ck(d,o); c=d; ck(c,o); ck(d,o); FArray<long> e(3); e=std::move(d); ck(e,o); d=a; ck(d,o); FArray<long> g(n+1); CK(!(g==a),"farray sizes"); }
   { int x=r.in(1,4),y=r.in(1,4),z=r.in(1,4); L("matrix " << x << y << z); Matrix<long,2> m(x,y); int dm[]={x,y,z}; FMatrix<FArray<long>,3> c(dm); long k=0; for(int i=0;i<x;i++) for(int j=0;j<y;j++) { m[i][j]=k++; for(int l=0;l<z;l++) c[i][j][l]=k++; }
     Matrix<long,2> m2; m2=m; FMatrix<FArray<long>,3> c2(c); k=0; for(int i=0;i<x;i++) for(int j=0;j<y;j++) { CK(m[i][j]==k && m2[i][j]==k,"matrix cell"); k++; for(int l=0;l<z;l++) { CK(c[i][j][l]==k && c2[i][j][l]==k,"3-matrix cell"); k++; } } CK(m.getDim(0)==x && m.getDim(1)==y && c.getDim(2)==z,"dimensions");
     m2[0][0]=99; CK(m[0][0]==0,"matrix copy shares cells"); }
}
int main(int argc,char* argv[]) {
   std::string w=argv[1]; long lo=atol(argv[2]),hi=atol(argv[3]); out_=std::cout.rdbuf(); std::ostringstream sink; std::cout.rdbuf(sink.rdbuf());
   for(seed_=lo;seed_<hi;seed_++) { R r; r.g.seed(seed_*7919+w[0]*31+w[1]); log_=""; sink.str("");
      if (w=="pool") pool(r); else if (w=="vec") { switch(seed_%3) { case 0: vec<long,unsigned>(r); break; case 1: vec<int,unsigned>(r); break; default: vec<long,std::size_t>(r);} } else if (w=="sort") sorts(r); else if (w=="heap") heap(r); else if (w=="queue") queue(r); else if (w=="htab") htab(r); else if (w=="nodes") nodes(r); else if (w=="misc") misc(r); else _exit(9); }
   std::cout.rdbuf(out_); std::cout << "OK " << hi-lo << " cases" << std::endl; _exit(0);
}
