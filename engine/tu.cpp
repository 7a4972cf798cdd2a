// Translation unit under verification: every source file of /repo/src plus explicit instantiations of
// its templates over opaque element types (all operations on the element type are external functions).
// It contains no re-statement of CODD code: the functions proved are the ones defined in /repo/src.
#include <string.h>
#include <bit>
#include <algorithm>
#include <optional>
#include "util.hpp"
#include "msort.hpp"
#include "vec.hpp"
#include "heap.hpp"
#include "queue.hpp"
#include "hashtable.hpp"
#include "uf.hpp"
#include "dd.cpp"
#include "node.cpp"
#include "pool.cpp"
#include "search.cpp"
#include "store.cpp"
#include "util.cpp"
#include "RuntimeMonitor.cpp"

// ---- opaque element types --------------------------------------------------
struct VST { long id; };                       // a user state
bool operator==(const VST&,const VST&);
std::ostream& operator<<(std::ostream&,const VST&);
std::size_t vst_hash(const VST&);
bool vst_eq(const VST&,const VST&);
template<> struct std::hash<VST> { std::size_t operator()(const VST& s) const noexcept { return vst_hash(s);} };
template<> struct std::equal_to<VST> { bool operator()(const VST& a,const VST& b) const { return vst_eq(a,b);} };

struct HV { long id; void operator--(int); };                        // a heap value
bool operator==(const HV&,const HV&);
struct HOrd { long tag; bool operator()(const HV& a,const HV& b) const; };

struct KV { long id; };
std::size_t kv_hash(const KV&); bool kv_eq(const KV&,const KV&);
template<> struct std::hash<KV> { std::size_t operator()(const KV& s) const noexcept { return kv_hash(s);} };
template<> struct std::equal_to<KV> { bool operator()(const KV& a,const KV& b) const { return kv_eq(a,b);} };
struct MCmp { long tag; bool operator()(const long& a,const long& b) const; };

// ---- instantiations ----------------------------------------------------------
template class NatSet<1>; template class NatSet<2>; template class NatSet<3>; template class NatSet<4>;
#define NS(N) \
 bool natset_eq##N(const NatSet<N>& a,const NatSet<N>& b) { return a==b; } \
 NatSet<N> natset_sub##N(int o,const NatSet<N>& b) { return o-b; } \
 NatSet<N> natset_or##N(const NatSet<N>& a,const NatSet<N>& b) { return a|b; } \
 NatSet<N> natset_and##N(const NatSet<N>& a,const NatSet<N>& b) { return a&b; } \
 std::size_t natset_hash##N(const NatSet<N>& a) { return std::hash<NatSet<N>>{}(a); } \
 void natset_gn##N(GNSet* p,const NatSet<N>& a) { new (p) GNSet(a); }
NS(1) NS(2) NS(3) NS(4)
bool gnset_eq(const GNSet& a,const GNSet& b) { return a==b; }
bool gnset_ne(const GNSet& a,const GNSet& b) { return a!=b; }
GNSet gnset_or(const GNSet& a,const GNSet& b) { return a|b; }
GNSet gnset_and(const GNSet& a,const GNSet& b) { return a&b; }
GNSet gnset_sub(const GNSet& a,const GNSet& b) { return a-b; }
std::size_t gnset_hash(const GNSet& a) { return std::hash<GNSet>{}(a); }
int gnset_min(const GNSet& a) { return min(a); }
int gnset_max(const GNSet& a) { return max(a); }
template <class V,class T,class S> void use_vec(Pool* p,V& v,const V& w,T x,S i) {
   V a(p,i); V b(p,w); V c(w); V d(std::move(v)); a = w; b = std::move(c); v.clear(); v.size(); v.push_back(x); v.pop_back();
   w.get(i); w[i]; v[i] = w[i]; v.at(i,x); for(auto z : v) v.push_back(z); v.getPool(); for(auto k=v.cbegin();k!=v.cend();++k) v.push_back(*k);
}
template void use_vec<Vec<long,unsigned>,long,unsigned>(Pool*,Vec<long,unsigned>&,const Vec<long,unsigned>&,long,unsigned);
template void use_vec<Vec<int,unsigned>,int,unsigned>(Pool*,Vec<int,unsigned>&,const Vec<int,unsigned>&,int,unsigned);
struct RL { long tag; void operator()(long) const; };
unsigned vec_remove(Vec<long,unsigned>& v,unsigned i,RL r) { return v.remove(i,r); }
template <class T> void sink(T);
void use_gn() { sink(static_cast<GNSet&(GNSet::*)(int)>(&GNSet::insert)); sink(&GNSet::remove); sink(&GNSet::complement); sink(&GNSet::contains); sink(&GNSet::removeAbove);
   sink(&GNSet::removeBelow); sink(&GNSet::clear); sink(&GNSet::empty); sink(&GNSet::nbWords); sink(&GNSet::largestPossible);
   sink(static_cast<GNSet&(GNSet::*)(const GNSet&)>(&GNSet::operator=)); sink(static_cast<GNSet&(GNSet::*)(GNSet&&)>(&GNSet::operator=)); }
void use_gn2(GNSet* p,Range r,int a,int b,unsigned short n,std::initializer_list<int> l) { new (p) GNSet(r); new (p) GNSet(a,b); new (p) GNSet(n); new (p) GNSet(l); }
void use_misc() { sink(static_cast<void(Pool::*)()>(&Pool::clear)); sink(&Pool::usage); sink(&Pool::capacity); sink(&ANList::front); sink(&ANList::back); sink(&ANList::confirmMembership);
   sink(&NDArray::push_front); sink(&NDArray::front); sink(&NDArray::pop_front); sink(&NDArray::size); sink(&NDArray::operator[]); sink(static_cast<NDArray::iterator(NDArray::*)(NDArray::iterator)>(&NDArray::erase));
   sink(&Range::contains); sink(&Range::size); sink(&Range::largest); sink(&Range::flip); sink(&Range::open); sink(&Range::close); sink(&Range::openInc); sink(&Range::closeInc); sink(&Range::begin); sink(&Range::end);
   sink(&LPool::release); sink(&LPool::claimNode); sink(&LPool::grabId); sink(&ANode::clearParents); sink(&ANode::clearKids); }
template class Heap<HV,HOrd>;
template class CQueue<long>;
struct QV { long tag; void operator()(Location<long>*) const; }; struct QF { long tag; long operator()(long,long) const; };
void cq_visit(CQueue<long>& q,QV f) { q.doOnAll(f); }
long cq_fold(CQueue<long>& q,QF f,long b) { return q.foldl(f,b); }
typedef void(*LocFun)(Location<long>*); void cq_doall(CQueue<long>& q,LocFun f) { q.doOnAll(f); }
template class Hashtable<KV,long>;
template class LHashtable<VST>;
template void mergeSort<long,MCmp>(long*,std::size_t,const MCmp&);
template class FArray<long>; 
template <class M> void use_mat(M& m,const int* d) { M a(d); M b(m); a = b; m.getDim(0); }
template void use_mat<FMatrix<FArray<long>,2>>(FMatrix<FArray<long>,2>&,const int*); template void use_mat<FMatrix<FArray<long>,3>>(FMatrix<FArray<long>,3>&,const int*);
void use_mat2(int r,int c) { Matrix<long,2> m(r,c); }
bool farray_eq(const FArray<long>& a,const FArray<long>& b) { return a==b; }
long fm2_get(FMatrix<FArray<long>,2>& m,int i,int j) { return m[i][j]; }
long fm3_get(FMatrix<FArray<long>,3>& m,int i,int j,int k) { return m[i][j][k]; }
std::size_t farray_hash(const FArray<long>& a) { return std::hash<FArray<long>>{}(a); }
std::size_t vector_hash(const std::vector<long>& a) { return std::hash<std::vector<long>>{}(a); }
template class UnionFind<long>;
#define DDT(C) template class DD<VST,C,VST(*)(),GNSet(*)(const VST&),std::optional<VST>(*)(const VST&,int),double(*)(const VST&,int),std::optional<VST>(*)(const VST&,const VST&),bool(*)(const VST&),double(*)(const VST&,LocalContext),bool(*)(const VST&,const VST&)>;
DDT(Minimize<double>)
DDT(Maximize<double>)
bool sp_edge(const handle_ptr<ANode>& a,const handle_ptr<ANode>& b) { return a==b; }
void use_fa(FArray<long>& a,const FArray<long>& b) { FArray<long> c; c = b; FArray<long> d(std::move(c)); a = std::move(d); a[0] = b[1]; for(auto x : b) a[0] = x; }
