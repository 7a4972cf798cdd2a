"""Heap<T,Ord>: 1-based binary heap of locations.  Slot i holds the location (DB[i],DO[i]); wf: location of slot i knows its slot.
Smaller rank = better; the order is an arbitrary total preorder (answers on ties arbitrary)."""
import re,z3
from vcg import *
import base
K=[]
I=z3.IntSort()
rank=z3.Function('rank',I,I)
def _ordr(ex,st,a,b):
    r=ex.fresh_const(z3.BoolSort(),'ord'); st.assume(z3.And(z3.Implies(rank(a)<rank(b),r),z3.Implies(rank(a)>rank(b),z3.Not(r)))); return r
@base.bi(r'HOrd::operator\(\)\(HV const&, HV const&\) const$')
def _ord(ex,st,ins,a,sh):
    ex.trusted.add('heap order: an arbitrary total preorder (strict or not) on the elements'); return _ordr(ex,st,ex.load(st,a[1],'i64'),ex.load(st,a[2],'i64'))
@base.bi(r'HV::operator--\(int\)$')
def _dec(ex,st,ins,a,sh):
    ex.trusted.add('the decrement applied by Heap::decrease makes an element at least as good as it was')
    x=ex.load(st,a[0],'i64'); y=ex.fresh_const(I,'dec'); st.assume(rank(y)<=rank(x)); ex.store(st,a[0],'i64',y); return None
PR='Heap::Location._p'; VR='Heap::Location._val.id'
F=lambda c,f,st=None:c.ex.rd(st or c.new,c.this,'Heap.'+f)
class H:
    """the heap as seen in one state"""
    def __init__(s,c,st=None):
        s.c=c; s.st=st=st or c.new; ex=c.ex; d=F(c,'_data',st); s.d=d.b
        s.B=ex.sel(st,ex.reg(st,'elem:ptr#b',I),d.b); s.O=ex.sel(st,ex.reg(st,'elem:ptr#o',I),d.b)
        s.P=ex.reg(st,PR,I); s.V=ex.reg(st,VR,I); s.at=F(c,'_at',st); s.mxs=F(c,'_mxs',st)
    def b(s,i): return z3.Select(s.B,i)
    def o(s,i): return z3.Select(s.O,i)
    def p(s,i): return z3.Select(z3.Select(s.P,s.b(i)),s.o(i))
    def v(s,i): return z3.Select(z3.Select(s.V,s.b(i)),s.o(i))
    def r(s,i): return rank(s.v(i))
    def wf(s):
        i=z3.Int('i!h'); ex=s.c.ex; st=s.st
        return [('sizes',z3.And(s.at>=1,s.at<=s.mxs,s.mxs>=1,s.mxs<2**28,s.d>=1,s.d<st.next,ex.blen(s.d)>=8*s.mxs)),
          ('slots',z3.ForAll([i],z3.Implies(z3.And(i>=0,i<s.mxs),z3.And(s.b(i)>=1,s.b(i)<st.next,s.o(i)>=0,(s.o(i)+1)*16<=ex.blen(s.b(i)),s.p(i)==i)),patterns=[s.b(i)]))]
    def pairs(s,ex=lambda j,i:z3.BoolVal(False)):
        """heap order on every (parent j, child i) except those excluded"""
        i,j=z3.Ints('i!c j!c')
        return z3.ForAll([j,i],z3.Implies(z3.And(j>=1,2*j<=i,i<=2*j+1,i<s.at,z3.Not(ex(j,i))),s.r(j)<=s.r(i)),patterns=[z3.MultiPattern(s.b(j),s.b(i))])
    def kids(s,q,g,cond=True):
        """slot g not worse than any child of q"""
        k=z3.Int('k!g'); return z3.ForAll([k],z3.Implies(z3.And(cond,k>=2*q,k<=2*q+1,k<s.at),s.r(g)<=s.r(k)),patterns=[s.b(k)])
def seg(c,st=None):
    st=st or c.new; l=F(c,'_lseg',st).b; m=F(c,'_ms',st); n=F(c,'_nbs',st); return ('segment table',z3.And(m>=1,m<2**28,n>=0,n<=m,l>=1,l<st.next,c.ex.blen(l)>=8*m,l!=F(c,'_data',st).b))
def kept(c,h,h0,drop=None):
    """every element in the heap before is still there: same location, same value"""
    i=z3.Int('i!l'); p=z3.Select(z3.Select(h.P,h0.b(i)),h0.o(i))
    g=z3.And(p>=1,p<h.at,h.b(p)==h0.b(i),h.o(p)==h0.o(i))
    cond=z3.And(i>=1,i<h0.at)
    if drop is not None: cond=z3.And(cond,i!=drop)
    return ('every element still in the heap',z3.ForAll([i],z3.Implies(cond,g),patterns=[h0.b(i)]))
def samevals(h,h0): 
    i=z3.Int('i!v'); return ('values unchanged',z3.ForAll([i],z3.Implies(z3.And(i>=0,i<h0.mxs),z3.Select(z3.Select(h.V,h0.b(i)),h0.o(i))==h0.v(i)),patterns=[h0.b(i)]))
class HC(Contract):
    only=r'Heap<HV'
    mode='int'; prop=('C09',); bounds=True; names=('p','i','l','r','best','gp'); world='heap'
    flatfn=staticmethod(lambda r:not r.startswith('elem:ptr'))
    perm=('_at',)
    def mkargs(s,c,args):
        out=[]
        for a,v in zip(c.ex.F['args'],args):
            if a[1]=='at' and a[2]=='ptr': o=z3.Int('arg_at_off'); v=P('h',v.b,o)
            if a[1]=='v' and a[2]=='ptr': v=P('h',v.b,v.o,('%struct.HV',0,None))
            out.append(v)
        return out
def rows(c,at=False,vals=False,grow=False):
    r=[('reg','elem:ptr',F(c,'_data',c.old).b),('reg',PR)]
    if at: r.append(('f',c.this,'Heap._at'))
    if vals: r.append(('reg',VR))
    if grow: r+=[('f',c.this,'Heap.'+f) for f in ('_data','_lseg','_mxs','_ms','_nbs')]+[('next',)]
    return r
def inner(h,c):
    """loop frame: nothing but the slots moves"""
    h0=H(c,c.old); return h.wf()+[kept(c,h,h0),samevals(h,h0),('array',z3.And(h.d==h0.d,h.at==h0.at,h.mxs==h0.mxs)),('slot 0',z3.And(h.b(0)==h0.b(0),h.o(0)==h0.o(0)))]
class Heapify(HC):
    def requires(s,c): h=H(c); p=c.a[1]; return h.wf()+[('slot',p>=1),('order below',h.pairs(lambda j,i:j<=p))]
    def modifies(s,c): return rows(c)
    def ensures(s,c): h=H(c); p=c.a[1]; return inner(h,c)+[('order from the slot down',h.pairs(lambda j,i:j<p))]
    def loopinv(s,k):
        def inv(c):
            h=H(c); p=c.v('p','i32'); p0=c.a[1]
            return inner(h,c)+[('position',z3.And(p>=p0,z3.Or(p==p0,p/2>=p0),z3.Or(p==p0,p<h.at))),('order except at the slot',h.pairs(lambda j,i:z3.Or(j<p0,j==p))),('parent bounds the children',h.kids(p,p/2,p/2>=p0))]
        return inv
K.append(Heapify(r'Heap::heapify\(int\)$'))
J=lambda h,q:z3.And(h.pairs(lambda j,i:i==q),h.kids(q,q/2,q>=2))
class Refloat(HC):
    def requires(s,c): h=H(c); p=c.a[1]; return h.wf()+[('slot',z3.And(p>=1,p<h.at)),('order except above the slot',h.pairs(lambda j,i:i==p)),('parent bounds the children',h.kids(p,p/2,p>=2))]
    def modifies(s,c): return rows(c)
    def ensures(s,c): h=H(c); return inner(h,c)+[('heap order',h.pairs())]
    def loopinv(s,k):
        def inv(c):
            h=H(c); p=c.v('p','i32'); p0=c.a[1]
            return inner(h,c)+[('position',z3.And(p>=0,p<=p0)),('order except above one slot',z3.Or(z3.And(p==p0,J(h,p)),z3.And(p<p0,2*p<h.at,J(h,2*p)),z3.And(p<p0,2*p+1<h.at,J(h,2*p+1))))]
        return inv
K.append(Refloat(r'Heap::refloat\(int\)$'))
class ToRoot(HC):
    def requires(s,c): h=H(c); p=c.a[1]; return h.wf()+[('slot',z3.And(p>=1,p<h.at)),('heap order',h.pairs())]
    def modifies(s,c): return rows(c)
    def ensures(s,c): h=H(c); h0=H(c,c.old); p=c.a[1]; return inner(h,c)+[('element at the root',z3.And(h.b(1)==h0.b(p),h.o(1)==h0.o(p))),('order below the root',h.pairs(lambda j,i:j==1))]
    def loopinv(s,k):
        def inv(c):
            h=H(c); h0=H(c,c.old); p=c.v('p','i32'); p0=c.a[1]; q=z3.If(p>=1,p,1)
            return inner(h,c)+[('position',z3.And(p>=0,p<=p0)),('moving element',z3.And(h.b(q)==h0.b(p0),h.o(q)==h0.o(p0))),('order except at the slot',h.pairs(lambda j,i:z3.Or(j==q,i==q))),('parent bounds the children',h.kids(q,q/2,q>=2)),('above',z3.Implies(p<1,q==1))]
        return inv
K.append(ToRoot(r'Heap::sendToRoot\(int\)$'))
def rootbest(h):
    i=z3.Int('i!b'); return z3.ForAll([i],z3.Implies(z3.And(i>=1,i<h.at),h.r(1)<=h.r(i)),patterns=[h.b(i)])
class Extract(HC):
    def requires(s,c): h=H(c); return h.wf()+[('not empty',h.at>=2),('order below the root',h.pairs(lambda j,i:j==1))]
    def modifies(s,c): return rows(c,at=True)
    def ensures(s,c):
        h=H(c); h0=H(c,c.old); full=h0.pairs(); best=z3.Implies(full,rootbest(h0))     # lemma 'root of a heap is best'
        rv=c.ret if isz(c.ret) else None
        e=h.wf()+[kept(c,h,h0,drop=1),samevals(h,h0),('one element less',h.at==h0.at-1),('heap order',h.pairs()),('array',z3.And(h.d==h0.d,h.mxs==h0.mxs)),('returns the root',rv==h0.v(1))]
        i=z3.Int('i!z'); b=z3.Implies(full,z3.ForAll([i],z3.Implies(z3.And(i>=1,i<h0.at),rank(rv)<=h0.r(i)),patterns=[h0.b(i)]))
        e.append(('no other element is better',b if c.ins is not None else z3.Implies(best,b)))
        return e
K.append(Extract(r'Heap::extractMax\(\)$'))
class Resize(HC):
    def requires(s,c): h=H(c); return h.wf()+[seg(c),('full',h.at==h.mxs),('room',h.mxs<2**26),('room',F(c,'_ms')<2**26)]
    def modifies(s,c): return rows(c,vals=True,grow=True)
    def ensures(s,c):
        h=H(c); h0=H(c,c.old); i=z3.Int('i!n')
        return h.wf()+[seg(c),('doubled',z3.And(h.mxs==2*h0.mxs,h.at==h0.at)),samevals(h,h0),('slots kept',z3.ForAll([i],z3.Implies(z3.And(i>=0,i<h0.at),z3.And(h.b(i)==h0.b(i),h.o(i)==h0.o(i))),patterns=[h.b(i)]))]
    def loopinv(s,k): return s.L(k)
    def L(s,k):
        def cells(c,t): st=c.new; return c.ex.sel(st,c.ex.reg(st,'elem:ptr#b',I),t),c.ex.sel(st,c.ex.reg(st,'elem:ptr#o',I),t)
        def ctor(c): cur=c.phis[0]; return [('construction position',z3.And(c.ex.off(cur.o)>=0,(c.ex.off(cur.o)+1)*16<=c.ex.blen(cur.b)))]
        def copied(c,n):
            h0=H(c,c.old); B,O=cells(c,c.v('nd','ptr').b); k=z3.Int('k!r'); return z3.ForAll([k],z3.Implies(z3.And(k>=0,k<n),z3.And(z3.Select(B,k)==h0.b(k),z3.Select(O,k)==h0.o(k))),patterns=[z3.Select(B,k)])
        def cp(c):
            i=c.v('i','i32'); return [('copied',z3.And(i>=0,i<=F(c,'_at',c.old),copied(c,i)))]
        def old(c):
            h0=H(c,c.old); st=c.new; i=z3.Int('i!x'); Pn=c.ex.reg(st,PR,I)
            return ('old locations kept',z3.ForAll([i],z3.Implies(z3.And(i>=0,i<h0.mxs),z3.Select(z3.Select(Pn,h0.b(i)),h0.o(i))==i),patterns=[h0.b(i)]))
        def fresh(c):
            i=c.v('i','i32'); h0=H(c,c.old); n=c.v('newSeg','ptr'); B,O=cells(c,c.v('nd','ptr').b); k=z3.Int('k!r'); Pn=c.ex.reg(c.new,PR,I)
            return [('range',z3.And(i>=h0.mxs,i<=2*h0.mxs)),('copied',copied(c,h0.mxs)),old(c),('new slots',z3.ForAll([k],z3.Implies(z3.And(k>=h0.mxs,k<i),z3.And(z3.Select(B,k)==n.b,z3.Select(O,k)==k-h0.mxs)),patterns=[z3.Select(B,k)])),('new locations',z3.And(c.ex.off(n.o)==0,z3.ForAll([k],z3.Implies(z3.And(k>=0,k<i-h0.mxs),z3.Select(c.ex.sel(c.new,Pn,n.b),k)==k+h0.mxs),patterns=[z3.Select(c.ex.sel(c.new,Pn,n.b),k)])))]
        def lseg(c): i=c.v('i','i32'); return [('index',z3.And(i>=0,i<=F(c,'_ms',c.old)))]
        return [ctor,cp,fresh,lseg][k] if k<4 else None
K.append(Resize(r'Heap::resize\(\)$'))
def vv(c,p,st=None): 
    return c.ex.rd(st or c.new,p,'HV.id')
class Insert(HC):
    def requires(s,c): h=H(c); return h.wf()+[seg(c),('room',h.mxs<2**26),('room',F(c,'_ms')<2**26)]+s.more(c,h)
    def more(s,c,h): return []
    def modifies(s,c): return rows(c,at=True,vals=True,grow=True)
    def common(s,c):
        h=H(c); h0=H(c,c.old); i=z3.Int('i!n'); x=vv(c,c.a[1],c.old)
        sv=('values of the other elements kept',z3.ForAll([i],z3.Implies(z3.And(i>=1,i<h0.at),z3.Select(z3.Select(h.V,h0.b(i)),h0.o(i))==h0.v(i)),patterns=[h0.b(i)]))
        return h,h0,x,h.wf()+[seg(c),('one more element',h.at==h0.at+1),sv]
    def ensures(s,c):
        h,h0,x,e=s.common(c); i=z3.Int('i!n')
        return e+[('slots kept',z3.ForAll([i],z3.Implies(z3.And(i>=0,i<h0.at),z3.And(h.b(i)==h0.b(i),h.o(i)==h0.o(i))),patterns=[h.b(i)])),('new element last',z3.And(c.ret.b==h.b(h0.at),c.ex.off(c.ret.o)==h.o(h0.at),h.v(h0.at)==x))]
K.append(Insert(r'Heap::insert\(HV const&\)$'))
class InsertHeap(Insert):
    def more(s,c,h): return [('heap order',h.pairs())]
    def ensures(s,c):
        h,h0,x,e=s.common(c); b,o=c.ret.b,c.ex.off(c.ret.o); p=z3.Select(z3.Select(h.P,b),o)
        return e+[kept(c,h,h0),('new element in the heap',z3.And(p>=1,p<h.at,h.b(p)==b,h.o(p)==o,h.v(p)==x)),('heap order',h.pairs())]
K.append(InsertHeap(r'Heap::insertHeap\(HV const&\)$'))
def live(c,h,a): p=z3.Select(z3.Select(h.P,a.b),c.ex.off(a.o)); return p,z3.And(p>=1,p<h.at,h.b(p)==a.b,h.o(p)==c.ex.off(a.o))
class Remove(HC):
    def requires(s,c): h=H(c); return h.wf()+[('heap order',h.pairs()),('element of the heap',live(c,h,c.a[1])[1])]
    def modifies(s,c): return rows(c,at=True)
    def ensures(s,c):
        h=H(c); h0=H(c,c.old); p=live(c,h0,c.a[1])[0]
        return h.wf()+[kept(c,h,h0,drop=p),samevals(h,h0),('one element less',h.at==h0.at-1),('heap order',h.pairs()),('returns its value',c.ret==h0.v(p))]
K.append(Remove(r'Heap::remove\(Heap::Location\*\)$'))
class Decrease(HC):
    def requires(s,c): h=H(c); return h.wf()+[('heap order',h.pairs()),('element of the heap',live(c,h,c.a[1])[1])]
    def modifies(s,c): return rows(c,vals=True)
    def ensures(s,c):
        h=H(c); h0=H(c,c.old); p=live(c,h0,c.a[1])[0]; i=z3.Int('i!w')
        return h.wf()+[kept(c,h,h0),('heap order',h.pairs()),('size kept',h.at==h0.at),('other values kept',z3.ForAll([i],z3.Implies(z3.And(i>=1,i<h0.at,i!=p),z3.Select(z3.Select(h.V,h0.b(i)),h0.o(i))==h0.v(i)),patterns=[h0.b(i)]))]
K.append(Decrease(r'Heap::decrease\(Heap::Location\*\)$'))
class Build(HC):
    def requires(s,c): return H(c).wf()
    def modifies(s,c): return rows(c)
    def ensures(s,c): h=H(c); return inner(h,c)+[('heap order',h.pairs())]
    def loopinv(s,k):
        def inv(c): h=H(c); i=c.v('i','i32'); return inner(h,c)+[('index',z3.And(i>=0)),('order from the index up',h.pairs(lambda j,x:j<=i))]
        return inv
K.append(Build(r'Heap::buildHeap\(\)$'))
def simple(pat,post,w=(),pre=lambda c:[]):
    class X(HC):
        def requires(s,c): return H(c).wf()+[('domain',x) for x in pre(c)]
        def modifies(s,c): return [('f',c.this,'Heap.'+f) for f in w]
        def ensures(s,c): return post(c)
    K.append(X(pat))
simple(r'Heap::clear\(\)$',lambda c:H(c).wf()+[('empty',H(c).at==1)],('_at',))
simple(r'Heap::size\(\) const$',lambda c:[('number of elements',c.ret==H(c).at-1)])
simple(r'Heap::empty\(\) const$',lambda c:[('no element',c.ret==(H(c).at==1) if z3.is_bool(c.ret) else (c.ret!=0)==(H(c).at==1))])
simple(r'Heap::operator\[\]\(int\) const$',lambda c:[('element',z3.And(c.ret.b==H(c).b(c.a[1]+1),c.ex.off(c.ret.o)==H(c).o(c.a[1]+1)))],pre=lambda c:[c.a[1]>=0,c.a[1]<H(c).at-1])
class Ctor(HC):
    def requires(s,c): return [('size',z3.And(c.a[2]>=1,c.a[2]<2**26))]
    def modifies(s,c): return [('f',c.this,'Heap.'+f) for f in ('_pool','_data','_lseg','_mxs','_at','_ms','_nbs')]+[('reg','Heap._ord.tag'),('next',)]
    def ensures(s,c): h=H(c); return h.wf()+[seg(c),('empty',h.at==1),('new',z3.And(h.d>=c.old.next))]
    def loopinv(s,k):
        def ctor(c): cur=c.phis[0]; return [('construction position',z3.And(c.ex.off(cur.o)>=0,(c.ex.off(cur.o)+1)*16<=c.ex.blen(cur.b)))]
        def fill(c):
            h=H(c); i=c.v('i','i32'); cs=c.v('cs','ptr'); k=z3.Int('k!r')
            return [('index',z3.And(i>=0,i<=h.mxs)),('slots',z3.ForAll([k],z3.Implies(z3.And(k>=0,k<i),z3.And(h.b(k)==cs.b,h.o(k)==k,h.p(k)==k)),patterns=[h.b(k)]))]
        return [ctor,fill][k]
K.append(Ctor(r'Heap::Heap\(Pool\*, int, HOrd\)$'))
def lemma():
    h=z3.Function('h',I,I); n,i,m=z3.Ints('n i m')
    par=z3.Implies(z3.And(i>=2,i<n),h(i/2)<=h(i))
    yield ('root of a heap is best: base',[],h(1)<=h(1))
    yield ('root of a heap is best: step',[i>=2,i<n,par,z3.ForAll([m],z3.Implies(z3.And(m>=1,m<i),h(1)<=h(m)),patterns=[h(m)])],h(1)<=h(i))
LEMMAS={'C09':[('root of a heap is best',lemma)]}
