"""Range and its iterators, FArray, FMatrix (C17); hashes of NatSet, FArray and std::vector (C13)."""
import re,z3
from vcg import *
K=[]
def FA_(v,b,pat):
    try: return z3.ForAll(v,b,patterns=pat)
    except z3.Z3Exception: return z3.ForAll(v,b)
I=z3.IntSort()
LIM=2**30
small=lambda *v:z3.And([z3.And(x>-LIM,x<LIM) for x in v])
class RC(Contract): mode='int'; prop=('C17',); bounds=False
def fn(pat,post,pre=lambda c:[],w=(),cls=RC,**kw):
    class X(cls):
        def requires(s,c): return pre(c)
        def modifies(s,c): return [('f',c.this,f) for f in w]
        def ensures(s,c): return post(c)
    K.append(X(pat,**kw))
R=lambda c,f,st=None:c.ex.rd(st or c.new,c.this,'Range.'+f)
G=lambda c,f:c.ex.rd(c.new,c.a[0],'Range.'+f)       # returned through a hidden pointer
pr=lambda c:[('no overflow',small(R(c,'_from',c.old),R(c,'_to',c.old)))]
tb=lambda x:x if z3.is_bool(x) else x!=0
mx=lambda a,b:z3.If(a>=b,a,b); mn=lambda a,b:z3.If(a<=b,a,b)
fn(r'Range::Range\(int, int\)$',lambda c:[('bounds',z3.And(R(c,'_from')==c.a[1],R(c,'_to')==c.a[2]))],w=('Range._from','Range._to'))
fn(r'Range::Range\(Range(&&| const&)\)$',lambda c:[('bounds copied',z3.And([R(c,f)==c.ex.rd(c.old,c.a[1],'Range.'+f) for f in('_from','_to')]))],w=('Range._from','Range._to'),optional=True)
fn(r'Range::size\(\) const$',lambda c:[('number of integers visited',c.ret==mx(R(c,'_from'),R(c,'_to'))-mn(R(c,'_from'),R(c,'_to')))],pr)
fn(r'Range::largest\(\) const$',lambda c:[('largest bound',c.ret==mx(R(c,'_from'),R(c,'_to')))],pr)
ag=lambda v,i:v.vals[i]
def itd(c): return ag_it(c.ret)
def unpack(c,r):
    """an iterator {direction,value} returned by value: packed in one i64 or as a pair"""
    if isinstance(r,Agg): return [sx32(x) for x in r.vals]
    return None
def sx32(x): return x
class IterRet(RC):
    def requires(s,c): return pr(c)
    def modifies(s,c): return []
    def ensures(s,c):
        d,i=itparts(c,c.ret)
        return [('direction',z3.If(R(c,'_from')<=R(c,'_to'),d==0,d==1)),('first value' if s.b else 'past the last value',i==R(c,'_from' if s.b else '_to'))]
def itparts(c,r): return bits_of(r)
def bits_of(r):
    if isinstance(r,Agg): return r.vals
    if type(r).__name__=='Bits': return [p[2] for p in r.parts]
    if type(r).__name__=='Packed': return [x[2] for x in sorted(r.leaves,key=lambda x:x[0])]
    raise Unsupported('iterator value %s'%type(r).__name__)
K.append(IterRet(r'Range::begin\(\) const$',b=True)); K.append(IterRet(r'Range::end\(\) const$',b=False))
IT=lambda c,f,st=None,p=None:c.ex.rd(st or c.new,p or c.this,'Range::iterator.'+f)
dirok=lambda c:[('direction',z3.And(IT(c,'_d',c.old)>=0,IT(c,'_d',c.old)<=1,small(IT(c,'_i',c.old))))]
fn(r'Range::iterator::operator\*\(\) const$',lambda c:[('current value',c.ret==IT(c,'_i'))])
fn(r'Range::iterator::operator\+\+\(\)$',lambda c:[('one step in the direction',z3.And(IT(c,'_i')==IT(c,'_i',c.old)+z3.If(IT(c,'_d',c.old)==0,1,-1),IT(c,'_d')==IT(c,'_d',c.old)))],dirok,w=('Range::iterator._i',))
fn(r'Range::iterator::operator!=\(Range::iterator const&\) const$',lambda c:[('different values',tb(c.ret)==(IT(c,'_i')!=IT(c,'_i',None,c.a[1])))])
fn(r'Range::iterator::operator==\(Range::iterator const&\) const$',lambda c:[('same value',tb(c.ret)==(IT(c,'_i')==IT(c,'_i',None,c.a[1])))],optional=True)
class Mk(RC):
    def requires(s,c): return [('no overflow',small(c.a[1],c.a[2]))]
    def modifies(s,c): return [('f',c.a[0],'Range._from'),('f',c.a[0],'Range._to')]
    def ensures(s,c):
        f,t=c.a[1],c.a[2]; F,T=G(c,'_from'),G(c,'_to'); return [('integers visited',s.f(f,t,F,T))]
K.append(Mk(r'Range::open\(int, int\)$',f=lambda f,t,F,T:z3.And(F==f,T==t)))
K.append(Mk(r'Range::close\(int, int\)$',f=lambda f,t,F,T:z3.And(F==f,T==z3.If(f<=t,t+1,t-1))))
K.append(Mk(r'Range::openInc\(int, int\)$',f=lambda f,t,F,T:z3.If(f<t,z3.And(F==f,T==t),F==T)))
K.append(Mk(r'Range::closeInc\(int, int\)$',f=lambda f,t,F,T:z3.If(f<=t,z3.And(F==f,T==t+1),F==T)))
class Flip(RC):
    def requires(s,c): f,t=[c.ex.rd(c.old,c.a[1],'Range.'+x) for x in('_from','_to')]; return [('increasing range',z3.And(small(f,t),f<=t))]
    def modifies(s,c): return [('f',c.a[0],'Range._from'),('f',c.a[0],'Range._to')]
    def ensures(s,c): f,t=[c.ex.rd(c.old,c.a[1],'Range.'+x) for x in('_from','_to')]; return [('same integers backwards',z3.And(G(c,'_from')==t-1,G(c,'_to')==f-1))]
K.append(Flip(r'Range::flip\(\) const$'))
def lemma_range():
    f,t,k=z3.Ints('f t k'); d=z3.If(f<=t,1,-1); n=mx(f,t)-mn(f,t); v=f+k*d
    yield ('the iterator meets the end exactly after size() steps',[k>=0],(v==t)==(k==n) if False else z3.Implies(k<=n,(v==t)==(k==n)))
    yield ('the values visited are those from the first bound up to (excluding) the second',[k>=0,k<n],z3.And(z3.Implies(f<=t,z3.And(f<=v,v<t)),z3.Implies(f>t,z3.And(t<v,v<=f))))
    x=z3.Int('x'); yield ('every such value is visited once',[z3.If(f<=t,z3.And(f<=x,x<t),z3.And(t<x,x<=f))],z3.And(f+((x-f)*d)*d==x,(x-f)*d>=0,(x-f)*d<n))
# ---------------------------------------------------------------- FArray
A=lambda c,f,st=None,p=None:c.ex.rd(st or c.new,p or c.this,'FArray.'+f)
def row(c,p,st=None): st=st or c.new; return c.ex.sel(st,c.ex.reg(st,'elem:i64',I),A(c,'_tab',st,p).b)
def wf(c,p,st=None):
    st=st or c.new; t=A(c,'_tab',st,p).b; m=A(c,'_mx',st,p); return z3.And(m>=0,m<2**31,t>=0,t<st.next,z3.Implies(m>0,z3.And(t>=1,c.ex.blen(t)>=8*m)))
def same(c,p,q,st=None,n=None):
    k=z3.Int('k!a'); r=row(c,p); r0=row(c,q,st or c.old); m=n if n is not None else A(c,'_mx',st or c.old,q); return FA_([k],z3.Implies(z3.And(k>=0,k<m),z3.Select(r,k)==z3.Select(r0,k)),[z3.Select(r,k)])
class FA(Contract):
    mode='int'; prop=('C17',); bounds=True; names=('i','c','a','b'); world='farray'; only=r'FArray<long>'
FT=('FArray._tab','FArray._mx')
fn(r'FArray::FArray\(\)$',lambda c:[('empty',z3.And(A(c,'_mx')==0,A(c,'_tab').b==0)),('wf',wf(c,c.this))],w=FT,cls=FA)
class Sized(FA):
    def requires(s,c): return [('size',z3.And(c.a[1]>=0,c.a[1]<2**31))]
    def modifies(s,c): return [('f',c.this,f) for f in FT]+[('next',)]
    def ensures(s,c): return [('wf',wf(c,c.this)),('size',A(c,'_mx')==c.a[1]),('own cells',z3.Implies(c.a[1]>0,A(c,'_tab').b>=c.old.next))]
K.append(Sized(r'FArray::FArray\(unsigned long\)$'))
class Filled(Sized):
    def val(s,c): return c.el0('i64',c.a[2],z3.IntVal(0))
    def filled(s,c,n): k=z3.Int('k!f'); r=row(c,c.this); return FA_([k],z3.Implies(z3.And(k>=0,k<n),z3.Select(r,k)==s.val(c)),[z3.Select(r,k)])
    def requires(s,c): return Sized.requires(s,c)+[('readable',c.ex.blen(c.a[2].b)>=8*(c.ex.off(c.a[2].o)+1))]
    def ensures(s,c): return Sized.ensures(s,c)+[('every cell has the value',s.filled(c,c.a[1]))]
    def loopinv(s,n):
        def inv(c): i=c.v('i','i32'); return [('index',z3.And(i>=0,i<=A(c,'_mx'))),('filled',s.filled(c,i))]
        return inv
K.append(Filled(r'FArray::FArray\(unsigned long, long const&\)$'))
class Copy(FA):
    def requires(s,c): return [('wf source',wf(c,c.a[1])),('another array',c.this.b!=c.a[1].b if c.this.k==c.a[1].k=='h' else True)]
    def modifies(s,c): return [('f',c.this,f) for f in FT]+[('next',)]
    def ensures(s,c): return [('wf',wf(c,c.this)),('size',A(c,'_mx')==A(c,'_mx',c.old,c.a[1])),('own cells',z3.Implies(A(c,'_mx')>0,A(c,'_tab').b>=c.old.next)),('cells equal',same(c,c.this,c.a[1]))]
    def loopinv(s,n):
        def inv(c): i=c.v('i','i32'); return [('index',z3.And(i>=0,i<=A(c,'_mx'))),('source unchanged',z3.Implies(c.a[1].b<c.old.next,same(c,c.a[1],c.a[1])) if c.a[1].k=='h' else same(c,c.a[1],c.a[1])),('copied',same(c,c.this,c.a[1],None,i))]
        return inv
K.append(Copy(r'FArray::FArray\(FArray const&\)$'))
class Assign(Copy):
    returns=0
    def requires(s,c): t,u=A(c,'_tab').b,A(c,'_tab',None,c.a[1]).b; return [('wf source',wf(c,c.a[1])),('wf',wf(c,c.this)),('own cells',z3.Or(c.this.b==c.a[1].b,t!=u,A(c,'_mx')==0))]
    def modifies(s,c): return Copy.modifies(s,c)+[('row','elem:i64',A(c,'_tab',c.old).b)]
    def ensures(s,c):
        t,t0,u0=A(c,'_tab').b,A(c,'_tab',c.old).b,A(c,'_tab',c.old,c.a[1]).b
        return [('wf',wf(c,c.this)),('size',A(c,'_mx')==A(c,'_mx',c.old,c.a[1])),('cells equal',same(c,c.this,c.a[1])),('own cells',z3.Or(t==t0,t>=c.old.next))]
K.append(Assign(r'FArray::operator=\(FArray const&\)$'))
class Move(FA):
    def requires(s,c): return [('wf source',wf(c,c.a[1])),('another array',c.this.b!=c.a[1].b if c.this.k==c.a[1].k=='h' else True)]
    def modifies(s,c): return [('f',p,f) for f in FT for p in (c.this,c.a[1])]
    def ensures(s,c): return [('cells taken over',z3.And(A(c,'_tab').b==A(c,'_tab',c.old,c.a[1]).b,A(c,'_mx')==A(c,'_mx',c.old,c.a[1]))),('source empty',A(c,'_mx',None,c.a[1])==0),('source disowned',A(c,'_tab',None,c.a[1]).b==0)]
K.append(Move(r'FArray::FArray\(FArray&&\)$'))
class MoveA(Move): returns=0
K.append(MoveA(r'FArray::operator=\(FArray&&\)$'))
fn(r'FArray::size\(\) const$',lambda c:[('size',c.ret==A(c,'_mx'))],cls=FA)
fn(r'FArray::operator\[\]\(unsigned long\)( const)?$',lambda c:[('the cell of that index',z3.And(c.ret.b==A(c,'_tab').b,c.ex.off(c.ret.o)==c.a[1]))],lambda c:[('index in range',z3.And(wf(c,c.this),c.a[1]>=0,c.a[1]<A(c,'_mx')))],cls=FA)
class Eq(FA):
    def requires(s,c): return [('wf',z3.And(wf(c,c.a[0]),wf(c,c.a[1])))]
    def ensures(s,c):
        m=A(c,'_mx',None,c.a[0]); n=A(c,'_mx',None,c.a[1]); k=z3.Int('k!q'); p,q=row(c,c.a[0]),row(c,c.a[1]); r=tb(c.ret)
        return [('equal sizes and cells',z3.If(r,z3.And(m==n,z3.ForAll([k],z3.Implies(z3.And(k>=0,k<m),z3.Select(p,k)==z3.Select(q,k)))),z3.Or(m!=n,z3.Exists([k],z3.And(k>=0,k<m,z3.Select(p,k)!=z3.Select(q,k))))))]
    def loopinv(s,n):
        def inv(c):
            m=A(c,'_mx',None,c.a[0]); cc=c.v('c','i32'); a,b=c.v('a','ptr'),c.v('b','ptr'); k=z3.Int('k!q'); p,q=row(c,c.a[0]),row(c,c.a[1]); ta,tb_=A(c,'_tab',None,c.a[0]),A(c,'_tab',None,c.a[1])
            return [('position',z3.And(cc>=0,cc<=m,a.b==ta.b,b.b==tb_.b,c.ex.off(a.o)==m-cc,c.ex.off(b.o)==m-cc)),('equal so far',FA_([k],z3.Implies(z3.And(k>=0,k<m-cc),z3.Select(p,k)==z3.Select(q,k)),[z3.Select(p,k)]))]
        return inv
K.append(Eq(r'operator==\(FArray const&, FArray const&\)$'))
# ---------------------------------------------------------------- FMatrix
M_=lambda c,k,p=None,st=None:c.ex.rd(st or c.new,p or c.this,'FMatrix._dims',z3.IntVal(k))
def flat(c,p=None,st=None):
    st=st or c.new; p=p or c.this; return c.ex.rd(st,p,'FMatrix._flat._tab').b,c.ex.rd(st,p,'FMatrix._flat._mx')
def ar(c): return int(re.search(r'FMatrix<FArray<long>, (\d)>',c.ex.F['dem']).group(1))
def prod(v):
    r=v[0]
    for x in v[1:]: r=r*x
    return r
def mty(c): return '%class.FMatrix' 
class FM(Contract): mode='int'; prop=('C17',); bounds=False; names=('k','i','fsz'); world='farray'; unroll=8
def minv(c,p,n,st=None):
    st=st or c.new; d=[c.ex.rd(st,p,'FMatrix._dims',z3.IntVal(k)) for k in range(n)]; t,m=flat(c,p,st)
    return z3.And([m==prod(d),t>=0,t<st.next,z3.Implies(m>0,z3.And(t>=1,c.ex.blen(t)>=8*m)),m<2**31]+[z3.And(x>=1,x<2**20) for x in d]+([d[0]*d[1]<2**31] if n>2 else []))
class Get(FM):
    def dims(s,c): n=len(c.a)-1; return [c.ex.rd(c.old,c.a[0],'FMatrix._dims',z3.IntVal(k)) for k in range(n)]
    def requires(s,c):
        d=s.dims(c); ix=c.a[1:]; h=[('indices in range',z3.And([z3.And(i>=0,i<x) for i,x in zip(ix,d)])),('cells for every index',minv(c,c.a[0],len(d)))]
        # valid instances of the addressing lemma (proved as lemma units)
        o=ix[0]; D=d[0]
        for i,x in zip(ix[1:],d[1:]): h.append(('addressing lemma',z3.Implies(z3.And(0<=o,o<D,0<=i,i<x),z3.And(o*x+i>=0,o*x+i<D*x)))); o=o*x+i; D=D*x
        return h
    def ensures(s,c):
        d=s.dims(c); ix=c.a[1:]; o=ix[0]
        for i,x in zip(ix[1:],d[1:]): o=o*x+i
        t=c.ex.rd(c.old,c.a[0],'FMatrix._flat._tab').b
        return [('row-major cell',c.ret==z3.Select(c.ex.sel(c.new,c.ex.reg(c.new,'elem:i64',I),t),o))]
K.append(Get(r'fm2_get\(')); K.append(Get(r'fm3_get\('))
class MCtor(FM):
    def dim(s,c,k): return c.el0('i32',c.a[1],z3.IntVal(k))
    def requires(s,c):
        n=ar(c); d=[s.dim(c,k) for k in range(n)]; return [('dimensions',z3.And([z3.And(x>=1,x<2**20) for x in d]+[prod(d)<2**31,d[0]*d[1]<2**31])),('readable',z3.And(c.ex.off(c.a[1].o)==0,c.ex.blen(c.a[1].b)>=4*n))]
    def modifies(s,c): return [('f',c.this,'FMatrix._flat._tab'),('f',c.this,'FMatrix._flat._mx'),('f',c.this,'FMatrix._dims'),('next',)]
    def ensures(s,c): n=ar(c); return [('dimensions',z3.And([M_(c,k)==s.dim(c,k) for k in range(n)])),('one cell per index tuple',minv(c,c.this,n))]
K.append(MCtor(r'FMatrix::FMatrix\(int const\*\)$'))
class MCopy(FM):
    def requires(s,c): n=ar(c); return [('source',minv(c,c.a[1],n)),('another matrix',c.this.b!=c.a[1].b)]
    def modifies(s,c): return MCtor.modifies(s,c)
    def ensures(s,c):
        n=ar(c); k=z3.Int('k!m'); t,m=flat(c); u,_=flat(c,c.a[1],c.old); r=c.ex.sel(c.new,c.ex.reg(c.new,'elem:i64',I),t); r0=c.ex.sel(c.old,c.ex.reg(c.old,'elem:i64',I),u)
        return [('dimensions',z3.And([M_(c,k)==M_(c,k,c.a[1],c.old) for k in range(n)])),('one cell per index tuple',minv(c,c.this,n)),('cells equal',FA_([k],z3.Implies(z3.And(k>=0,k<m),z3.Select(r,k)==z3.Select(r0,k)),[z3.Select(r,k)])),('independent cells',t!=u)]
K.append(MCopy(r'FMatrix::FMatrix\(FMatrix const&\)$'))
class MAssign(MCopy):
    returns=0
    def requires(s,c): n=ar(c); t,m=flat(c); u,_=flat(c,c.a[1]); return MCopy.requires(s,c)+[('wf',z3.And(m>=0,m<2**31,t>=0,t<c.new.next,z3.Implies(m>0,z3.And(t>=1,c.ex.blen(t)>=8*m)))),('own cells',t!=u)]
    def modifies(s,c): return MCtor.modifies(s,c)+[('row','elem:i64',flat(c,None,c.old)[0])]
K.append(MAssign(r'FMatrix::operator=\(FMatrix const&\)$'))
fn(r'FMatrix::getDim\(int\) const$',lambda c:[('dimension',c.ret==c.ex.rd(c.new,c.this,'FMatrix._dims',c.a[1]))],lambda c:[('dimension in range',z3.And(c.a[1]>=0,c.a[1]<ar(c)))],cls=FM)
def lemma_mat():
    i,j,k,a,b,c,d0,d1,d2=z3.Ints('i j k a b c d0 d1 d2')
    yield ('row-major index within the cells (2 dimensions)',[0<=i,i<d0,0<=j,j<d1,(d0-1-i)*d1>=0],z3.And(i*d1+j>=0,i*d1+j<d0*d1))
    yield ('monotone rows',[0<=i,i<d0,d1>0],(d0-1-i)*d1>=0)
    yield ('distinct index pairs address distinct cells',[0<=j,j<d1,0<=b,b<d1,i*d1+j==a*d1+b,z3.Implies(i>a,(i-a-1)*d1>=0),z3.Implies(a>i,(a-i-1)*d1>=0)],z3.And(i==a,j==b))
LEMMAS={'C17':[('Range iteration',lemma_range),('FMatrix addressing',lemma_mat)]}
# ---------------------------------------------------------------- hashes (C13)
W64=z3.BitVecSort(64)
class NHash(Contract):
    """two runs: the result is unchanged when the receiver is replaced by any set with the same words"""
    mode='bv'; prop=('C13',); unroll=8; names=('i',)
    def requires(s,c): return []
    def ensures(s,c):
        n=int(re.search(r'\(unsigned short\)(\d+)',c.ex.F['dem']).group(1)); o=z3.Int('other_set'); c2=P('h',o,c.this.o,c.this.path)
        other=z3.substitute(c.ret,(c.this.b,o)); eq=z3.And([c.ex.rd(c.old,c.this,'NatSet._t',z3.BitVecVal(k,64))==c.ex.rd(c.old,c2,'NatSet._t',z3.BitVecVal(k,64)) for k in range(n)])
        return [('equal words give equal hashes',z3.Implies(eq,c.ret==other))]
K.append(NHash(r'NatSet::hash\(\) const$'))
HF=z3.Function('hprefix',z3.ArraySort(W64,W64),W64,W64)        # hash of the first i cells of a row
rotl=z3.RotateLeft
def hf_def(r,i): return z3.And(HF(r,z3.BitVecVal(0,64))==0,HF(r,i+1)==rotl(HF(r,i),3)^z3.Select(r,i))
class FHash(Contract):
    mode='bv'; prop=('C13',); names=('i','ttl'); bounds=False
    def row(s,c): return c.ex.sel(c.new,c.ex.reg(c.new,'elem:i64',W64),c.ex.rd(c.new,c.a[1],'FArray._tab').b)
    def requires(s,c): return [('size',z3.ULT(c.ex.rd(c.old,c.a[1],'FArray._mx'),z3.BitVecVal(2**31,64)))]
    def ensures(s,c): return [('fold over the cells',c.ret==HF(s.row(c),c.ex.rd(c.old,c.a[1],'FArray._mx')))]
    def loopinv(s,n):
        def inv(c):
            i=z3.ZeroExt(32,c.v('i','i32')); r=s.row(c); return [('prefix',z3.And(z3.ULE(i,c.ex.rd(c.old,c.a[1],'FArray._mx')),c.v('ttl','i64')==HF(r,i)))]+([('definition of the fold (assumed)',hf_def(r,i))] if c.assuming else [])
        return inv
    def axioms_(s,c): return [HF(s.row(c),z3.BitVecVal(0,64))==0]
K.append(FHash(r'std::hash::operator\(\)\(FArray const&\) const$'))
def lemma_fh():
    r1,r2=z3.Const('r1',z3.ArraySort(W64,W64)),z3.Const('r2',z3.ArraySort(W64,W64)); i=z3.BitVec('i',64); z=z3.BitVecVal(0,64)
    return [('equal arrays have equal hashes: base',[hf_def(r1,i),hf_def(r2,i)],HF(r1,z)==HF(r2,z)),('equal arrays have equal hashes: step',[hf_def(r1,i),hf_def(r2,i),z3.Select(r1,i)==z3.Select(r2,i),HF(r1,i)==HF(r2,i)],HF(r1,i+1)==HF(r2,i+1))]
LEMMAS['C13']=[('hash of arrays and vectors (induction on the length)',lemma_fh)]
class VHash(FHash):
    names=('ttl','__begin0')
    flatfn=staticmethod(lambda r:'_M_finish' not in r)
    S='std::_Vector_base._M_impl.'
    def ends(s,c): f=lambda n:c.ex.rd(c.old,c.a[1],s.S+n,ty='%class.std::vector' if False else None); return f('_M_start'),f('_M_finish')
    def row(s,c): return c.ex.sel(c.new,c.ex.reg(c.new,'elem:i64',W64),s.ends(c)[0].b)
    def n(s,c): return s.ends(c)[1].o
    def requires(s,c): a,b=s.ends(c); return [('one block',a.b==b.b),('size',z3.ULT(s.n(c),z3.BitVecVal(2**60,64)))]
    def ensures(s,c): return [('fold over the elements',c.ret==HF(s.row(c),s.n(c)))]
    def loopinv(s,n):
        def inv(c):
            it=c.ex.load_local(c.new,c.vp([l[0] for l in c.new.lnames.values() if l[0].startswith('__begin')][0]),'ptr'); r=s.row(c); o=c.ex.off(it.o)
            return [('position',z3.And(it.b==s.ends(c)[0].b,z3.ULE(o,s.n(c)))),('prefix',c.v('ttl','i64')==HF(r,o))]+([('definition of the fold (assumed)',hf_def(r,o))] if c.assuming else [])
        return inv
K.append(VHash(r'std::hash::operator\(\)\(std::vector const&\) const$'))
