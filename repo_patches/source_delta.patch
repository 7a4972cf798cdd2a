From f2b45e4ce9779d0a4f70bb5b415624233be10063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:05 +0000
Subject: [PATCH 01/11] fix: GNSet::insert loops forever on a set with no
 storage (empty range)

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 1a7341e..9d01a3b 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -546,7 +546,7 @@ public:
       const int i = p >> 6;
       const auto old = _mxw;
       if (i >= _mxw) {
-         while(i >= _mxw) _mxw <<= 1;
+         while(i >= _mxw) _mxw = (_mxw == 0) ? 1 : _mxw << 1;
          auto np = new unsigned long long[_mxw];
          for(int i=0;i < old;i++)
             np[i] = _t[i];
-- 
2.43.0


From c01908afb079a992ef1872d3d95d4f8292e197cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:05 +0000
Subject: [PATCH 02/11] fix: GNSet::hash differs for equal sets with different
 capacities

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 9d01a3b..c1ff3e3 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -738,7 +738,7 @@ public:
   }
    std::size_t hash() const noexcept {
       std::size_t hv = 0;
-      for(auto i = 0;i < _mxw;i++)
+      for(int i = _mxw - 1;i >= 0;i--) // high to low: trailing zero words do not matter (as in ==)
          hv = std::rotl(hv,2) ^ _t[i];
       return hv;
    }   
-- 
2.43.0


From a94abcfd6be0788ecdbf1eb08da2dd6e643f71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:05 +0000
Subject: [PATCH 03/11] fix: GNSet::removeAbove relied on a stale bound and
 could miss values or write out of bounds

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index c1ff3e3..8dc955c 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -609,7 +609,7 @@ public:
    }
    void removeAbove(int p) noexcept {
       int w = ++p >> 6;
-      if (p > _nbp) return;
+      if (w >= _mxw) return;
       assert(w >= 0 && w < _mxw);
       const int b = p & 63;
       _t[w] = _t[w] & ((1ull << b) - 1);
-- 
2.43.0


From 0113ee589f56b02678f6722795129108aae1b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:05 +0000
Subject: [PATCH 04/11] fix: NatSet(ofs,S) lost values and wrote out of bounds
 for some offsets

---
 src/util.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.hpp b/src/util.hpp
index 8dc955c..cff0a9c 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -210,7 +210,7 @@ public:
          //std::cout << "MOVE Down=" << x << " lw:" << lw << "\n";
          unsigned long long nt[nbw] = {0}; 
          for(int i=0;i <= std::min(lw,nbw-1);i++) {
-            auto next =  (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (x+1))-1); // get the next block to inject here.
+            auto next =  (i+1==nbw) ? 0 : _t[i+1]; // get the next block to inject here.
             nt[i] = (_t[i] >> x) | (next << (64 - x));
          }
          for(int i=0;i < nbw;i++) _t[i] = nt[i];         
@@ -226,9 +226,9 @@ public:
             assert(lw < nbw); // by definition, it's at most the index of the last word (1 less than size)
             unsigned long long nt[nbw] = {0}; 
             for(int i=0;i <= lw;i++) {
-               auto next = (i+1==nbw) ? 0 : _t[i+1] & ((1ull << (by+1))-1);
-               nt[i+delta] = (_t[i] >> by) | (next << (64 - by));
-               for(int j=i;j < i+delta;j++) _t[j] = 0;
+               auto next = (i+1==nbw) ? 0 : _t[i+1];
+               if (i + delta < nbw)
+                  nt[i+delta] = (_t[i] >> by) | (next << (64 - by));
             }
             for(int i=0;i < nbw;i++) _t[i] = nt[i];
          } else if (by < 0) {
-- 
2.43.0


From 2b5026ce070393bb57d5a3a131c1296e15affca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:05 +0000
Subject: [PATCH 05/11] fix: Exact compilation with a local bound pruned every
 node below the root

---
 src/dd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index f0f42a7..3f61963 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -323,6 +323,9 @@ void Exact::compute(Bounds& bnds)
             Edge::Ptr e = new (_dd->_mem) Edge(p,child,l);
             e->_obj = theCost;
             _dd->addArc(e); // connect to new node
+            const auto ep = p->getBound() + theCost;
+            if (_dd->isBetter(ep,child->getBound()))
+               child->setBound(ep); // transition prunes with the bound of its source
             if (!_dd->eqSink(child)) {
                if (newNode)
                   qn.enQueue(child);
-- 
2.43.0


From a846c760fbab03c74bf7c6a649cee5ae0b4f2f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:36 +0000
Subject: [PATCH 06/11] fix: B&B dropped a subproblem whose state was known
 with a worse bound

---
 src/dd.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dd.hpp b/src/dd.hpp
index 40191f2..381258c 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -344,7 +344,7 @@ struct Maximize {
 };
 
 
-template <typename ST> requires Printable<ST> && Hashable<ST>
+template <typename ST,class Compare = Minimize<double>> requires Printable<ST> && Hashable<ST>
 class DDNodeAllocator :public AbstractNodeAllocator {
    LHashtable<ST> _nmap;
 public:
@@ -353,16 +353,17 @@ public:
       auto sp = static_cast<const Node<ST>*>(src.get());
       Node<ST>* at = nullptr;
       auto inMap = _nmap.getLoc(sp->get(),at);
-      if (!inMap) {
+      // a known state is worth another visit when it is reached with a strictly better bound.
+      if (!inMap || Compare{}.better(sp->getBound(),at->getBound())) {
          auto reuse = _base->claimNode();
          if (reuse) {
             Node<ST>* nn = static_cast<Node<ST>*>(reuse.get());
             nn->resetWith(sp);
-            _nmap.safeInsertAt(inMap,nn);
+            _nmap.rawInsertAt(inMap,nn); // ahead of (so hiding) any older node for this state
             return nn;
          } else {
             Node<ST>* nn = new (_base->get()) Node<ST>(_base->get(),_base->grabId(),*sp);
-            _nmap.safeInsertAt(inMap,nn);
+            _nmap.rawInsertAt(inMap,nn); // ahead of (so hiding) any older node for this state
             return nn;
          }
       } else {
@@ -573,7 +574,7 @@ public:
       return AbstractDD::Ptr(new DD(std::forward<Args>(args)...));
    }
    AbstractNodeAllocator::Ptr makeNDAllocator() const noexcept {
-      return std::shared_ptr<DDNodeAllocator<ST>>(new DDNodeAllocator<ST>(new LPool(new Pool)));
+      return std::shared_ptr<DDNodeAllocator<ST,Compare>>(new DDNodeAllocator<ST,Compare>(new LPool(new Pool)));
    }
    void printNode(std::ostream& os,ANode::Ptr n) const {
       auto sp = static_cast<const Node<ST>*>(n.get());
-- 
2.43.0


From 8b0c714d68e0ec55063a26334eac62e38dee48af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:36 +0000
Subject: [PATCH 07/11] fix: B&B dropped the subproblem whose cut set is its
 own root instead of widening

---
 src/search.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/search.cpp b/src/search.cpp
index a06a2aa..57fea69 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -126,6 +126,8 @@ void BAndB::search(Bounds& bnds)
                   auto w = ddr[0]->getWidth() + 1;
                   ddr[0]->setWidth(w);
                   std::cout << "\t-->widening... " << w << " CUTSET SIZE:" << cutSet.size() <<  "\n";
+                  pq.insertHeap(QNode {bbn.node,curDual}); // explore it again, with the new width
+                  continue;
                }
                // use the bound in n (the ones in nd are _reset_ when duplicate occurs????)
                bool newGuyDominated = false;
-- 
2.43.0


From 431f5bd89d78538f62067a30bb078b980ae08149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:36 +0000
Subject: [PATCH 08/11] fix: B&B lost solutions whose path is exact up to the
 sink of an inexact relaxation

---
 src/dd.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dd.hpp b/src/dd.hpp
index 381258c..fe784e6 100644
--- a/src/dd.hpp
+++ b/src/dd.hpp
@@ -437,6 +437,21 @@ private:
          bnds.setIncumbent(_trg->beginOptLabels(),_trg->endOptLabels());
          std::cout <<  std::setprecision(6) << "D TIGHTEN: " << bnds << "\n";
       }
+      else if (_strat->dual()) {
+         // The cut set leaves the sink out: paths that are exact all the way to the sink are solutions.
+         for(auto pi = _trg->beginPar();pi != _trg->endPar();pi++) {
+            const Edge::Ptr e = *pi;
+            const auto ep = e->_from->getBound() + e->_obj;
+            if (e->_from->isExact() && isBetter(ep,bnds.getPrimal())) {
+               std::vector<int> sol;
+               for(auto it = e->_from->beginOptLabels();it != e->_from->endOptLabels();it++)
+                  sol.push_back(*it);
+               sol.push_back(e->_lbl);
+               bnds.setPrimal(ep);
+               bnds.setIncumbent(sol.begin(),sol.end());
+            }
+         }
+      }
    }
    ANode::Ptr hasNode(const ST& state) {
       Node<ST>* at = nullptr;
-- 
2.43.0


From 37727d552104ec299aafaadaf4a14481092bd804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:02 +0000
Subject: [PATCH 09/11] fix: iterating over a copy of a GNSet without storage
 produced 65535 bogus values

---
 src/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index cff0a9c..7bf7ab1 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -642,7 +642,7 @@ public:
       unsigned long long    _cw; // current word
       iterator(unsigned long long* t,unsigned short nbw,unsigned short at)
          : _t(t),_nbw(nbw),_cwi(at),_cw((at < nbw) ? t[at] : 0) {
-         while (_cw == 0 && _t && ++_cwi < _nbw) 
+         while (_cw == 0 && _cwi < _nbw && ++_cwi < _nbw) 
             _cw = _t[_cwi];         
       }
       iterator(unsigned long long* t,unsigned short nbw)
-- 
2.43.0


From f63985e7a0685b670cf27ac4d6f08941abebe461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:18 +0000
Subject: [PATCH 10/11] fix: copy-assigning to a moved-from GNSet wrote through
 a null pointer

---
 src/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.hpp b/src/util.hpp
index 7bf7ab1..3357b7a 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -441,7 +441,8 @@ public:
       _mxw = s._mxw;
       _nbp = s._nbp;
       _t = s._t;
-      s._t = nullptr;      
+      s._t = nullptr;
+      s._mxw = 0;
    }
    template <unsigned short nbw> GNSet(const NatSet<nbw>& s) {     
       _mxw = nbw;
@@ -521,6 +522,7 @@ public:
       _nbp = s._nbp;
       _t = s._t;
       s._t = nullptr;
+      s._mxw = 0;
       return *this;
    }
    short nbWords() const noexcept { return _mxw;}
-- 
2.43.0


From a9e4d83f41a0671de18f5864f4730a07d297fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:18 +0000
Subject: [PATCH 11/11] fix: copy-assigning to a moved-from FArray wrote
 through a null pointer

---
 src/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.hpp b/src/util.hpp
index 3357b7a..60ce474 100644
--- a/src/util.hpp
+++ b/src/util.hpp
@@ -933,6 +933,7 @@ public:
    }
    FArray(FArray&& t) : _tab(t._tab),_mx(t._mx) {
       t._tab = nullptr;
+      t._mx = 0;
    }
    ~FArray() { if (_tab) delete[] _tab;}
    FArray& operator=(const FArray& t) {
@@ -950,6 +951,7 @@ public:
       _mx = a._mx;
       _tab = a._tab;
       a._tab = nullptr;
+      a._mx = 0;
       return *this;
    }
    std::size_t size() const noexcept { return _mx;}
-- 
2.43.0

