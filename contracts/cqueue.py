"""CQueue<T>: circular buffer of locations.  View: element k (0<=k<_cnt) is the value in slot (_exit+k) modulo _mxs."""
import re,z3
from vcg import *
K=[]
I=z3.IntSort()
pow2=z3.Function('is_pow2',I,z3.BoolSort()); band=z3.Function('band',I,I,I)
a_,m_=z3.Ints('a!w m!w')
WRAP=z3.ForAll([a_,m_],z3.Implies(z3.And(pow2(m_+1),a_>=0,a_<=m_+1,m_<2**30),band(a_,m_)==z3.If(a_==m_+1,0,a_)),patterns=[band(a_,m_)])
DBL=z3.ForAll([m_],z3.Implies(z3.And(pow2(m_),m_>=1,m_<2**29),pow2(2*m_)),patterns=[pow2(m_)])
ONE=pow2(1)
F=lambda c,f,st=None:c.ex.rd(st or c.new,c.this,'CQueue.'+f)
class Q:
    def __init__(s,c,st=None):
        s.c=c; s.st=st=st or c.new; ex=c.ex; s.d=F(c,'_data',st).b
        s.B=ex.sel(st,ex.reg(st,'elem:ptr#b',I),s.d); s.O=ex.sel(st,ex.reg(st,'elem:ptr#o',I),s.d); s.V=ex.reg(st,'Location._val',I)
        s.mxs,s.en,s.ex_,s.mask,s.cnt=[F(c,f,st) for f in ('_mxs','_enter','_exit','_mask','_cnt')]
    def b(s,i): return z3.Select(s.B,i)
    def o(s,i): return z3.Select(s.O,i)
    def v(s,i): return z3.Select(z3.Select(s.V,s.b(i)),s.o(i))
    def slot(s,k): return z3.If(s.ex_+k>=s.mxs,s.ex_+k-s.mxs,s.ex_+k)
    def seq(s,k): return s.v(s.slot(k))
    def wf(s):
        i,j=z3.Ints('i!q j!q'); ex=s.c.ex; st=s.st
        return [('sizes',z3.And(s.mxs>=1,s.mxs<2**28,pow2(s.mxs),s.mask==s.mxs-1,s.ex_>=0,s.ex_<s.mxs,s.cnt>=0,s.cnt<s.mxs,s.en==s.slot(s.cnt),s.d>=1,s.d<st.next,ex.blen(s.d)>=8*s.mxs)),
          ('slots',z3.ForAll([i],z3.Implies(z3.And(i>=0,i<s.mxs),z3.And(s.b(i)>=1,s.b(i)<st.next,s.o(i)>=0,(s.o(i)+1)*16<=ex.blen(s.b(i)))),patterns=[s.b(i)])),
          ('slots distinct',z3.ForAll([i,j],z3.Implies(z3.And(i>=0,i<s.mxs,j>=0,j<s.mxs,i!=j),z3.Or(s.b(i)!=s.b(j),s.o(i)!=s.o(j))),patterns=[z3.MultiPattern(s.b(i),s.b(j))]))]
def seg(c,st=None):
    st=st or c.new; l=F(c,'_vlocs',st).b; m=F(c,'_mxSeg',st); n=F(c,'_nbs',st); return ('segment table',z3.And(m>=1,m<2**28,n>=0,n<=m,l>=1,l<st.next,c.ex.blen(l)>=8*m,l!=F(c,'_data',st).b))
class QC(Contract):
    mode='int'; prop=('C10',); bounds=True; names=('at','cur','i','nl','nd','nvl','newSize'); world='queue'; only=r'CQueue<long>'
    flatfn=staticmethod(lambda r:not r.startswith('elem:ptr'))
    def axioms_(s,c): return [WRAP,DBL,ONE]
def elems(q,q0,n,sh=0):
    k=z3.Int('k!e'); return ('elements kept in order',z3.ForAll([k],z3.Implies(z3.And(k>=0,k<n),q.seq(k)==q0.seq(k+sh))))
FLD=('_data','_vlocs','_mxs','_mask','_enter','_exit','_mxSeg','_nbs')
class Resize(QC):
    def requires(s,c): q=Q(c); return q.wf()+[seg(c),('full',q.cnt==q.mxs-1),('room',z3.And(q.mxs>=2,q.mxs<2**26,F(c,'_mxSeg')<2**26))]
    def modifies(s,c): return [('f',c.this,'CQueue.'+f) for f in FLD]+[('next',),('reg','Location._pos'),('row','elem:ptr',F(c,'_vlocs',c.old).b)]
    def ensures(s,c): q=Q(c); q0=Q(c,c.old); return q.wf()+[seg(c),('doubled',z3.And(q.mxs==2*q0.mxs,q.cnt==q0.cnt)),elems(q,q0,q0.cnt)]
    def loopinv(s,n):
        def cells(c,t): st=c.new; return c.ex.sel(st,c.ex.reg(st,'elem:ptr#b',I),t),c.ex.sel(st,c.ex.reg(st,'elem:ptr#o',I),t)
        def rot(c,n):
            q0=Q(c,c.old); B,O=cells(c,c.v('nd','ptr').b); k=z3.Int('k!r'); return z3.ForAll([k],z3.Implies(z3.And(k>=0,k<n),z3.And(z3.Select(B,k)==q0.b(q0.slot(k)),z3.Select(O,k)==q0.o(q0.slot(k)))),patterns=[z3.Select(B,k)])
        def mv(c):
            q0=Q(c,c.old); at,cur=c.v('at','i32'),c.v('cur','i32'); return [('position',z3.And(at>=0,at<=q0.cnt,cur==q0.slot(at),z3.Implies(at<1,at==0))),('moved',rot(c,at)),('not done',at<q0.cnt)]
        def fill(c):
            q0=Q(c,c.old); at=c.v('at','i32'); nl=c.v('nl','ptr'); B,O=cells(c,c.v('nd','ptr').b); k=z3.Int('k!r')
            return [('position',z3.And(at>=q0.mxs,at<=2*q0.mxs)),('moved',rot(c,q0.mxs)),('new',z3.ForAll([k],z3.Implies(z3.And(k>=q0.mxs,k<at),z3.And(z3.Select(B,k)==nl.b,z3.Select(O,k)==k-q0.mxs)),patterns=[z3.Select(B,k)]))]
        def lseg(c): i=c.v('i','i32'); return [('index',z3.And(i>=0,i<=F(c,'_mxSeg',c.old)))]
        return [mv,fill,lseg][n] if n<3 else None
K.append(Resize(r'CQueue::resize\(\)$'))
class Enq(QC):
    def requires(s,c): q=Q(c); return q.wf()+[seg(c),('readable argument',True if c.a[1].k!='h' else z3.And(c.ex.off(c.a[1].o)>=0,8*c.ex.off(c.a[1].o)+8<=c.ex.blen(c.a[1].b))),('room',z3.And(q.mxs>=2,q.mxs<2**26,F(c,'_mxSeg')<2**26))]
    def modifies(s,c): return Resize('x').modifies(c)+[('f',c.this,'CQueue._cnt'),('reg','Location._val')]
    def ensures(s,c):
        q=Q(c); q0=Q(c,c.old); x=c.ex.rget(c.old,'elem:i64',I,c.a[1].b,c.ex.off(c.a[1].o)) if c.a[1].k=='h' else c.ex.load_local(c.old,c.a[1],'i64')
        return q.wf()+[seg(c),('one more element',q.cnt==q0.cnt+1),elems(q,q0,q0.cnt),('entered last',q.seq(q0.cnt)==x),('its location',z3.And(c.ret.b==q.b(q.slot(q0.cnt)),c.ex.off(c.ret.o)==q.o(q.slot(q0.cnt))))]
K.append(Enq(r'CQueue::enQueue\(long const&\)$'))
class Deq(QC):
    def requires(s,c): return Q(c).wf()
    def modifies(s,c): return [('f',c.this,'CQueue._exit'),('f',c.this,'CQueue._cnt')]
    def ensures(s,c):
        q=Q(c); q0=Q(c,c.old)
        return q.wf()+[('first element',z3.If(q0.cnt>0,c.ret==q0.seq(z3.IntVal(0)),c.ret==0)),('one element less',q.cnt==z3.If(q0.cnt>0,q0.cnt-1,0)),elems(q,q0,q.cnt,1)]
K.append(Deq(r'CQueue::deQueue\(\)$'))
def simple(pat,post,w=()):
    class X(QC):
        def requires(s,c): return Q(c).wf()
        def modifies(s,c): return [('f',c.this,'CQueue.'+f) for f in w]
        def ensures(s,c): return post(c)
    K.append(X(pat))
simple(r'CQueue::peek\(\)$',lambda c:[('first element',z3.If(Q(c).cnt>0,c.ret==Q(c).seq(z3.IntVal(0)),c.ret==0))])
simple(r'CQueue::clear\(\)$',lambda c:Q(c).wf()+[('empty',Q(c).cnt==0)],('_enter','_exit','_cnt'))
simple(r'CQueue::size\(\) const$',lambda c:[('number of elements',c.ret==Q(c).cnt)])
simple(r'CQueue::empty\(\) const$',lambda c:[('no element',(c.ret if z3.is_bool(c.ret) else c.ret!=0)==(Q(c).cnt==0))])
class Ctor(QC):
    def requires(s,c): return [('size',z3.And(c.a[1]>=0,c.a[1]<2**25))]
    def modifies(s,c): return [('f',c.this,'CQueue.'+f) for f in FLD+('_cnt','_locs')]+[('next',)]
    def ensures(s,c): q=Q(c); return q.wf()+[seg(c),('empty',q.cnt==0),('room',z3.And(q.mxs>=1,q.mxs>c.a[1]))]
    def loopinv(s,n):
        def grow(c): m=F(c,'_mxs'); return [('power of two',z3.And(pow2(m),m>=1,z3.Or(m==1,m<=2*c.a[1])))]
        def fill(c):
            q=Q(c); i=c.v('i','i32'); l=F(c,'_locs').b; k=z3.Int('k!r'); return [('slots',z3.And(i>=0,i<=q.mxs,z3.ForAll([k],z3.Implies(z3.And(k>=0,k<i),z3.And(q.b(k)==l,q.o(k)==k)),patterns=[q.b(k)])))]
        return [grow,fill][n]
K.append(Ctor(r'CQueue::CQueue\(int\)$'))
# traversal: the callback sees the locations of elements 0,1,2.. in order, each once (visits recorded in ghost arrays)
import base
AR=z3.ArraySort(I,I)
@base.bi(r'QV::operator\(\)\(Location\*\) const$')
def _qv(ex,st,ins,a,sh):
    ex.trusted.add('a visitor given to CQueue::doOnAll does not change the queue'); n=st.ghost['nv']; p=a[1]
    ex.setghost(st,'vb',z3.Store(st.ghost['vb'],n,p.b)); ex.setghost(st,'vo',z3.Store(st.ghost['vo'],n,ex.off(p.o))); ex.setghost(st,'nv',n+1); return None
@base.bi(r'QF::operator\(\)\(long, long\) const$')
def _qf(ex,st,ins,a,sh):
    ex.trusted.add('a function given to CQueue::foldl does not change the queue'); n=st.ghost['nv']; r=ex.fresh_const(I,'fold')
    ex.setghost(st,'va',z3.Store(st.ghost['va'],n,a[1])); ex.setghost(st,'vv',z3.Store(st.ghost['vv'],n,a[2])); ex.setghost(st,'vr',z3.Store(st.ghost['vr'],n,r)); ex.setghost(st,'nv',n+1); return r
class Visit(QC):
    names=('k','n')
    def ghosts(s,c): return dict(nv=z3.IntVal(0),vb=z3.Const('vb!0',AR),vo=z3.Const('vo!0',AR))
    def requires(s,c): return Q(c).wf()
    def seen(s,c,n):
        q=Q(c,c.old); k=z3.Int('k!v'); return [('visited in order',z3.ForAll([k],z3.Implies(z3.And(k>=0,k<n),z3.And(z3.Select(c.g('vb'),k)==q.b(q.slot(k)),z3.Select(c.g('vo'),k)==q.o(q.slot(k))))))]
    def ensures(s,c): return [('every element once',c.g('nv')==Q(c,c.old).cnt)]+s.seen(c,Q(c,c.old).cnt)
    def loopinv(s,j):
        def inv(c):
            q=Q(c,c.old); nv=c.g('nv'); k,n=c.v('k','i32'),c.v('n','i32'); return [('position',z3.And(nv>=0,nv<=q.cnt,n==q.cnt-nv,k==q.slot(nv)))]+s.seen(c,nv)
        return inv if j==0 else None
x=Visit(r'void CQueue::doOnAll\(QV\)$'); K.append(x)
class Fold(Visit):
    names=('k','n','acc')
    def ghosts(s,c): return dict(nv=z3.IntVal(0),va=z3.Const('va!0',AR),vv=z3.Const('vv!0',AR),vr=z3.Const('vr!0',AR))
    def seen(s,c,n):
        q=Q(c,c.old); k=z3.Int('k!v'); A,V,R=[lambda i,g=c.g(x):z3.Select(g,i) for x in ('va','vv','vr')]; b=c.a[2]
        return [('applied in order',z3.ForAll([k],z3.Implies(z3.And(k>=0,k<n),z3.And(V(k)==q.seq(k),A(k)==z3.If(k==0,b,R(k-1)),A(k)==0))))]
    def last(s,c,n): return z3.If(n==0,c.a[2],z3.Select(c.g('vr'),n-1))
    def ensures(s,c):
        n=c.g('nv'); q=Q(c,c.old); return [('stops at the first nonzero result or at the end',z3.And(n>=0,n<=q.cnt,z3.Or(n==q.cnt,c.ret!=0))),('result',c.ret==s.last(c,n))]+s.seen(c,n)
    def loopinv(s,j):
        def inv(c):
            q=Q(c,c.old); nv=c.g('nv'); k,n,acc=c.v('k','i32'),c.v('n','i32'),c.v('acc','i64')
            return [('position',z3.And(nv>=0,nv<=q.cnt,n==q.cnt-nv,k==q.slot(nv),acc==s.last(c,nv)))]+s.seen(c,nv)
        return inv if j==0 else None
K.append(Fold(r'(long )?CQueue::foldl\(QF, long\)$'))
def lemma():
    a,m=z3.BitVecs('a m',32); p2=lambda x:z3.And(x!=0,x&(x-1)==0); lim=z3.And(m>0,m<=2**30)
    yield ('wrap-around by masking is exact for powers of two',[p2(m),lim,a>=0,a<=m],(a&(m-1))==z3.If(a==m,z3.BitVecVal(0,32),a))
    yield ('doubling keeps a power of two',[p2(m),m>0,m<2**29],p2(2*m))
    yield ('one is a power of two',[],p2(z3.BitVecVal(1,32)))
LEMMAS={'C10':[('masking',lemma)]}
