"""GNSet: growable bit set.  View: word(k) = k<_mxw ? _t[k] : 0 for every word index k."""
import re,z3
from vcg import *
K=[]
W64=z3.BitVecSort(64)
bv=lambda v,w=64:z3.BitVecVal(v,w)
ze=lambda x:z3.ZeroExt(64-x.size(),x) if x.size()<64 else x
se=lambda x:z3.SignExt(64-x.size(),x) if x.size()<64 else x
CLS='GNSet'
def ne(c,p,q): return z3.Not(c.ex.peq(p,q)) if isz(c.ex.peq(p,q)) else not c.ex.peq(p,q)
def mxw(c,p,st=None): return ze(c.ex.rd(st or c.new,p,'GNSet._mxw'))
def tab(c,p,st=None): return c.ex.rd(st or c.new,p,'GNSet._t')
def row(c,p,st=None):
    st=st or c.new; t=tab(c,p,st); return c.ex.sel(st,c.ex.reg(st,'elem:i64',W64),t.b)
def word(c,p,k,st=None): return z3.If(z3.ULT(k,mxw(c,p,st)),z3.Select(row(c,p,st),k),bv(0))
def wf(c,p,st=None):
    st=st or c.new; t=tab(c,p,st); n=mxw(c,p,st)
    return z3.And(z3.ULE(n,bv(2048)),z3.Implies(n!=0,t.b!=0),z3.Implies(t.b!=0,c.ex.blen(t.b)==8*n),t.b<st.next)
def sep(c,p,q,st=None): return tab(c,p,st).b!=tab(c,q,st).b
def all_words(c,p,f,st=None):
    k=z3.Const('k!w',W64); r=row(c,p,st); b=z3.ULT(k,mxw(c,p,st))
    sel=z3.Select(r,k)
    if z3.is_const(r): return z3.ForAll([k],z3.If(b,sel,bv(0))==f(k),patterns=[sel])
    return z3.ForAll([k],z3.If(b,sel,bv(0))==f(k))
def same(c,p,q,stp=None,stq=None): return all_words(c,p,lambda k:word(c,q,k,stq),stp)
def lowmask(x): return z3.If(x<=0,bv(0),z3.If(x>=64,bv(-1),(bv(1)<<x)-1))
def rangeword(lo,hi): # values lo..hi-1 (64-bit signed terms)
    return lambda k: z3.If(z3.ULT(k,bv(4096)),lowmask(hi-64*k)&~lowmask(lo-64*k),bv(0))
def bitof(p): p=se(p); return lambda k:z3.If(k==(p>>6),bv(1)<<(p&63),bv(0))
class G(Contract):
    mode='bv'; prop=('C12',); bounds=True; names=('i',); writes=(); feas=1500; args_sep=()
    def pre(s,c): return []
    def requires(s,c):
        r=[]
        for i in s.sets: r.append(('wf %d'%i,wf(c,c.a[i])))
        return r+s.pre(c)
    def modifies(s,c):
        r=[]
        if s.writes=='cells': return [('row','elem:i64',tab(c,c.this,c.old).b)]
        if s.writes:
            p=c.this; r=[('f',p,'GNSet._mxw'),('f',p,'GNSet._nbp'),('f',p,'GNSet._t'),('next',)]
            if not re.match(r'GNSet::GNSet|natset_gn',s.pat.pattern): r.append(('row','elem:i64',tab(c,p,c.old).b))
        return r
    sets=(0,)
def idx(c,nm='i'):
    v=c.v(nm); return v
def mapinv(f,lo=lambda c:bv(0),hi=None,dst=None,var='i'):
    """cells lo..i-1 of the destination hold f, the others are as at loop entry"""
    def inv(c):
        i=se(c.v(var)); l=lo(c); h=hi(c); d=dst(c)
        k=z3.Const('k!m',W64); r=c.ex.sel(c.new,c.ex.reg(c.new,'elem:i64',W64),d); r0=c.ex.sel(c.entry,c.ex.reg(c.entry,'elem:i64',W64),d)
        body=z3.Select(r,k)==z3.If(z3.And(z3.ULE(l,k),z3.ULT(k,i)),f(c,k),z3.Select(r0,k))
        return [('index',z3.And(z3.ULE(l,i),z3.Or(z3.ULE(i,h),i==l),z3.ULE(h,bv(4096)))),('cells',z3.ForAll([k],body,patterns=[z3.Select(r,k)] if z3.is_const(r) else []))]
    return inv
def g(pat,post,pre=None,sets=(0,),writes=False,loops={},prop=('C12',),**kw):
    class X(G):
        def pre(s,c): return [('domain',x) for x in pre(c)] if pre else []
        def ensures(s,c): return post(c)
        def loopinv(s,k): return loops.get(k)
    x=X(pat); x.sets=sets; x.writes=writes; x.prop=prop
    for k,v in kw.items(): setattr(x,k,v)
    K.append(x); return x
this=lambda c:c.this
tb=lambda c:tab(c,c.this).b
retthis=lambda c:('returns this',c.ex.peq(c.ret,c.this))
W=lambda c,k:word(c,c.this,k)
W0=lambda c,k:word(c,c.this,k,c.old)
def arow(c,p,k,st=None): return z3.Select(row(c,p,st or c.new),k)
n_=lambda c:mxw(c,c.this)
# --- constructors
g(r'GNSet::GNSet\(unsigned short\)$',lambda c:[('wf',wf(c,c.this)),('empty',all_words(c,c.this,lambda k:bv(0))),('room',z3.UGE(64*n_(c),ze(c.a[1])))],sets=(),writes=True,
  loops={0:mapinv(lambda c,k:bv(0),hi=n_,dst=tb)})
g(r'GNSet::GNSet\(GNSet const&\)$',lambda c:[('wf',wf(c,c.this)),('copy',same(c,c.this,c.a[1],None,c.old)),('fresh storage',tb(c)>=c.old.next)],sets=(1,),pre=lambda c:[ne(c,c.this,c.a[1])],writes=True,
  loops={0:mapinv(lambda c,k:arow(c,c.a[1],k,c.old),hi=n_,dst=tb)})
class GMove(G):
    sets=(1,); writes=True
    def pre(s,c): return [('distinct',ne(c,c.this,c.a[1]))]
    def modifies(s,c): return super().modifies(c)+[('f',c.a[1],'GNSet._t'),('f',c.a[1],'GNSet._mxw')]
    def ensures(s,c): return [('wf',wf(c,c.this)),('content moved',same(c,c.this,c.a[1],None,c.old)),('source released',z3.And(tab(c,c.a[1]).b==0,mxw(c,c.a[1])==0)),('source is a valid empty set',wf(c,c.a[1])),('storage moved',tb(c)==tab(c,c.a[1],c.old).b)]
K.append(GMove(r'GNSet::GNSet\(GNSet&&\)$'))
class GMoveA(GMove):
    def requires(s,c): return [('wf',wf(c,c.a[1])),('distinct',ne(c,c.this,c.a[1]))]
    def ensures(s,c): return super().ensures(c)+[retthis(c)]
K.append(GMoveA(r'GNSet::operator=\(GNSet&&\)$'))
g(r'GNSet::GNSet\(int, int\)$',lambda c:[('wf',wf(c,c.this)),('exactly lb..ub',all_words(c,c.this,lambda k:z3.If(c.a[1]>c.a[2],bv(0),rangeword(se(c.a[1]),se(c.a[2])+1)(k))))],sets=(),writes=True,
  pre=lambda c:[z3.Or(c.a[1]>c.a[2],z3.And(c.a[1]>=0,c.a[2]<65535))],
  loops={0:mapinv(lambda c,k:bv(0),hi=n_,dst=tb),1:lambda c:[('prefix',all_words(c,c.this,rangeword(se(c.v('lb')),se(c.v('i'))))),('range',z3.And(c.v('lb')<=c.v('i'),c.v('i')<=c.v('ub')))]})
def rfrom(c,st=None): return c.ex.rd(st or c.old,c.a[1],'Range._from')
def rto(c,st=None): return c.ex.rd(st or c.old,c.a[1],'Range._to')
def rlo(c): f,t=se(rfrom(c)),se(rto(c)); return z3.If(f<=t,f,t+1)
def rhi(c): f,t=se(rfrom(c)),se(rto(c)); return z3.If(f<=t,t,f+1)
def rinv(c):
    i=se(c.ex.load_local(c.new,P('l',c.find('__begin2') if False else c.find('__begin'),4),'i32')); f,t=se(rfrom(c)),se(rto(c))
    e=se(c.ex.load_local(c.new,P('l',c.find('__end'),4),'i32')); d=c.ex.load_local(c.new,P('l',c.find('__begin'),0),'i32')
    return [('wf',wf(c,c.this)),('direction',d==z3.If(f<=t,bv(0,32),bv(1,32))),('end',e==t),('position',z3.If(f<=t,z3.And(f<=i,i<=t),z3.And(t<=i,i<=f))),
      ('prefix',all_words(c,c.this,lambda k:z3.If(f<=t,rangeword(f,i)(k),rangeword(i+1,f+1)(k)))),('storage is new',tb(c)>=c.old.next)]
g(r'GNSet::GNSet\(Range const&\)$',lambda c:[('wf',wf(c,c.this)),('exactly the range',all_words(c,c.this,lambda k:z3.If(rfrom(c)==rto(c),bv(0),rangeword(rlo(c),rhi(c))(k))))],sets=(),writes=True,
  pre=lambda c:[rfrom(c)>=0,z3.Or(rto(c)>=0,z3.And(rto(c)>=-1,rfrom(c)>rto(c))),rfrom(c)<65535,rto(c)<65535,c.a[1].b!=c.this.b],names=('__begin','__end','i'),
  loops={0:mapinv(lambda c,k:bv(0),hi=n_,dst=tb),1:rinv})
for i in '1234':
    def npost(c,n=int(i)):
        p=c.a[0]; ws=[c.ex.rd(c.old,c.a[1],'NatSet._t',bv(j)) for j in range(n)]
        def f(k):
            r=bv(0)
            for j in range(n): r=z3.If(k==j,ws[j],r)
            return r
        return [('same members',all_words(c,p,f)),('wf',wf(c,p))]
    g(r'natset_gn%s\('%i,npost,sets=(),writes=True,unroll=8)
# --- construction from a list: LW(row,k,w) is word w of the set of the first k list elements (defined by recursion on k)
B32=z3.BitVecSort(32); LW=z3.Function('listword',z3.ArraySort(W64,B32),W64,W64,W64)
class GList(G):
    sets=(); writes=True; names=('it','i','nb')
    def lrow(s,c): return c.ex.sel(c.old,c.ex.reg(c.old,'elem:i32',B32),c.a[1].b)
    def pre(s,c):
        k=z3.Const('k!li',W64); r=s.lrow(c); n=c.a[2]; v=z3.Select(r,k)
        return [('list',z3.And(z3.ULT(n,bv(65536)),c.a[1].o==0,z3.Implies(n!=0,c.a[1].b!=0),c.ex.blen(c.a[1].b)==4*n,c.a[1].b!=c.this.b)),('values',z3.ForAll([k],z3.Implies(z3.ULT(k,n),z3.And(v>=0,v<65536)),patterns=[v]))]
    def axioms_(s,c):
        w=z3.Const('w!l',W64); x=LW(s.lrow(c),bv(0),w); return [z3.ForAll([w],x==0,patterns=[x])]
    def ensures(s,c): return [('wf',wf(c,c.this)),('exactly the listed values',all_words(c,c.this,lambda w:LW(s.lrow(c),c.a[2],w)))]
    def loopinv(s,k):
        def grow(c):
            m=mxw(c,c.this); nb=c.v('nb'); return [('room',z3.And(m!=0,z3.ULE(m,bv(2048)),nb>=0,nb<=1024))]
        def inv(c):
            r=s.lrow(c); p=c.v('it'); w=z3.Const('w!l',W64); x=LW(r,p.o+1,w)
            q=[('cursor',z3.And(p.b==c.a[1].b,z3.ULE(p.o,c.a[2]))),('wf',wf(c,c.this)),('storage is new',tb(c)>=c.old.next),('members so far',all_words(c,c.this,lambda w:LW(r,p.o,w)))]
            return q+([('definition of the set of a list (assumed)',z3.ForAll([w],x==LW(r,p.o,w)|bitof(z3.Select(r,p.o))(w),patterns=[x]))] if c.assuming else [])
        return {0:grow,1:mapinv(lambda c,k:bv(0),hi=n_,dst=tb),2:inv}.get(k)
K.append(GList(r'GNSet::GNSet\(std::initializer_list\)$'))
# --- updates
g(r'GNSet::operator=\(GNSet const&\)$',lambda c:[('wf',wf(c,c.this)),('copy',same(c,c.this,c.a[1],None,c.old)),retthis(c),('storage',z3.Or(tb(c)==tab(c,c.this,c.old).b,tb(c)>=c.old.next))],sets=(0,1),
  pre=lambda c:[ne(c,c.this,c.a[1]),z3.Or(sep(c,c.this,c.a[1]),z3.And(tb(c)==0,tab(c,c.a[1]).b==0))],writes=True,
  loops={0:mapinv(lambda c,k:arow(c,c.a[1],k,c.old),hi=n_,dst=tb)})
g(r'GNSet::clear\(\)$',lambda c:[('wf',wf(c,c.this)),('empty',all_words(c,c.this,lambda k:bv(0)))],writes='cells',loops={0:mapinv(lambda c,k:bv(0),hi=n_,dst=tb)})
def ins_grow(c):
    m=mxw(c,c.this); o=mxw(c,c.this,c.old); i=se(c.a[1])>>6
    return [('grows',z3.And(z3.UGE(m,o),z3.Or(m==o,z3.ULT(m,2*i+2)),z3.ULE(m,bv(2048)))),('old',ze(c.v('old'))==o)]
g(r'GNSet::insert\(int\)$',lambda c:[('wf',wf(c,c.this)),('plus p',all_words(c,c.this,lambda k:W0(c,k)|bitof(c.a[1])(k))),retthis(c),('storage',z3.Or(tb(c)==tab(c,c.this,c.old).b,tb(c)>=c.old.next))],
  pre=lambda c:[c.a[1]>=0,c.a[1]<65536],writes=True,
  loops={0:ins_grow,1:mapinv(lambda c,k:arow(c,c.this,k,c.old),hi=lambda c:mxw(c,c.this,c.old),dst=lambda c:c.v('np').b),
         2:mapinv(lambda c,k:bv(0),lo=lambda c:mxw(c,c.this,c.old),hi=n_,dst=lambda c:c.v('np').b)})
g(r'GNSet::remove\(int\)$',lambda c:[('wf',wf(c,c.this)),('minus p',all_words(c,c.this,lambda k:W0(c,k)&~bitof(c.a[1])(k))),retthis(c),('storage',tb(c)==tab(c,c.this,c.old).b)],pre=lambda c:[c.a[1]>=-1000000],writes='cells')
g(r'GNSet::complement\(\)$',lambda c:[('wf',wf(c,c.this)),('complement within capacity',all_words(c,c.this,lambda k:z3.If(z3.ULT(k,mxw(c,c.this,c.old)),~W0(c,k),bv(0)))),retthis(c)],writes='cells',
  loops={0:mapinv(lambda c,k:~arow(c,c.this,k,c.old),hi=n_,dst=tb)})
g(r'GNSet::contains\(int\) const$',lambda c:[('membership',c.ret==((W(c,se(c.a[1])>>6)&(bv(1)<<(se(c.a[1])&63)))!=0))],pre=lambda c:[c.a[1]>=0])
mn=lambda c:z3.If(z3.ULT(n_(c),mxw(c,c.a[1],c.old)),n_(c),mxw(c,c.a[1],c.old))
sepp=lambda c:[z3.Or(sep(c,c.this,c.a[1]),c.ex.peq(c.this,c.a[1]),z3.And(tb(c)==0,tab(c,c.a[1]).b==0))]
A0=lambda c,k:arow(c,c.this,k,c.old)
B0=lambda c,k:arow(c,c.a[1],k,c.old)
g(r'GNSet::unionWith\(GNSet const&\)$',lambda c:[('wf',wf(c,c.this)),('union',all_words(c,c.this,lambda k:W0(c,k)|word(c,c.a[1],k,c.old))),retthis(c),('storage',z3.Or(tb(c)==tab(c,c.this,c.old).b,tb(c)>=c.old.next))],sets=(0,1),pre=sepp,writes=True,
  loops={0:mapinv(lambda c,k:A0(c,k)|B0(c,k),hi=mn,dst=tb),1:mapinv(lambda c,k:c.ele('i64',tab(c,c.this,c.entry),k),hi=n_,dst=lambda c:c.v('nt').b),2:mapinv(lambda c,k:B0(c,k),lo=n_,hi=lambda c:mxw(c,c.a[1],c.old),dst=lambda c:c.v('nt').b)})
g(r'GNSet::interWith\(GNSet const&\)$',lambda c:[('wf',wf(c,c.this)),('intersection',all_words(c,c.this,lambda k:W0(c,k)&word(c,c.a[1],k,c.old))),retthis(c),('storage',tb(c)==tab(c,c.this,c.old).b)],sets=(0,1),pre=sepp,writes='cells',
  loops={0:mapinv(lambda c,k:A0(c,k)&B0(c,k),hi=mn,dst=tb),1:mapinv(lambda c,k:bv(0),lo=mn,hi=n_,dst=tb)})
g(r'GNSet::diffWith\(GNSet const&\)$',lambda c:[('wf',wf(c,c.this)),('difference',all_words(c,c.this,lambda k:W0(c,k)&~word(c,c.a[1],k,c.old))),retthis(c),('storage',tb(c)==tab(c,c.this,c.old).b)],sets=(0,1),pre=sepp,writes='cells',
  loops={0:mapinv(lambda c,k:A0(c,k)&~B0(c,k),hi=mn,dst=tb)})
g(r'GNSet::removeAbove\(int\)$',lambda c:[('wf',wf(c,c.this)),('keeps values <= p',all_words(c,c.this,lambda k:W0(c,k)&lowmask(se(c.a[1])+1-64*k))),('storage',tb(c)==tab(c,c.this,c.old).b)],pre=lambda c:[c.a[1]>=-1,c.a[1]<1000000],writes='cells',names=('w',),
  loops={0:mapinv(lambda c,k:bv(0),lo=lambda c:(se(c.a[1])+1>>6)+1,hi=n_,dst=tb,var='w')})
g(r'GNSet::removeBelow\(int\)$',lambda c:[('wf',wf(c,c.this)),('keeps values >= p',all_words(c,c.this,lambda k:W0(c,k)&~lowmask(se(c.a[1])-64*k))),('storage',tb(c)==tab(c,c.this,c.old).b)],pre=lambda c:[c.a[1]<1000000],writes='cells',
  loops={0:lambda c:[('index',z3.And(c.v('i')>=0,z3.Or(c.v('i')<=c.a[1],c.v('i')==0))),('wf',wf(c,c.this)),('storage',z3.And(tb(c)==tab(c,c.this,c.old).b,n_(c)==mxw(c,c.this,c.old))),('prefix',all_words(c,c.this,lambda k:W0(c,k)&~lowmask(se(c.v('i'))-64*k)))]})
# --- queries
def nz(c,k): return arow(c,c.this,k)==0
def zinv(c):
    i=se(c.v('i')); k=z3.Const('k!z',W64); t=c.v('ttl')
    return [('index',z3.And(i>=0,z3.ULE(i,n_(c)))),('zero prefix',z3.If(t==0,z3.ForAll([k],z3.Implies(z3.ULT(k,i),arow(c,c.this,k)==0),patterns=[arow(c,c.this,k)]),z3.And(z3.ULT(bv(0),i),t==1,arow(c,c.this,i-1)!=0)))]
g(r'GNSet::empty\(\) const$',lambda c:[('empty',c.ret==all_words(c,c.this,lambda k:bv(0)))],loops={0:zinv},names=('i','ttl'))
card=z3.Function('card',z3.ArraySort(W64,W64),W64,z3.BitVecSort(32))
def pop(a):
    r=z3.BitVecVal(0,32)
    for i in range(64): r=r+z3.ZeroExt(31,z3.Extract(i,i,a))
    return r
def card_ax(c,r,i): return z3.And(card(r,bv(0))==0,card(r,i+1)==card(r,i)+pop(z3.Select(r,i)))
g(r'GNSet::size\(\) const$',lambda c:[('cardinality',c.ret==card(row(c,c.this),n_(c)))],names=('i','ttl'),
  loops={0:lambda c:[('index',z3.And(se(c.v('i'))>=0,z3.ULE(se(c.v('i')),n_(c)))),('definition of cardinality (assumed)',card_ax(c,row(c,c.this),se(c.v('i')))) if c.assuming else ('base',True),
    ('sum',c.v('ttl')==card(row(c,c.this),se(c.v('i')))) if True else None]},axioms_=lambda c:[card(row(c,c.this),bv(0))==0])
g(r'GNSet::nbWords\(\) const$',lambda c:[('words',ze(c.ret)==n_(c))])
# --- iteration: an iterator denotes the set of values still to come; it starts as the whole set, yields the least and drops it
I='GNSet::iterator'
def itf(c,p,f,st=None): return c.ex.rd(st or c.new,p,I+'.'+f)
def itrow(c,p,st=None):
    st=st or c.new; t=itf(c,p,'_t',st); return c.ex.sel(st,c.ex.reg(st,'elem:i64',W64),t.b)
def rem(c,p,k,st=None):
    cwi=ze(itf(c,p,'_cwi',st)); n=ze(itf(c,p,'_nbw',st))
    return z3.If(z3.Or(z3.ULT(k,cwi),z3.UGE(k,n)),bv(0),z3.If(k==cwi,itf(c,p,'_cw',st),z3.Select(itrow(c,p,st),k)))
def itwf(c,p,st=None):
    cwi=ze(itf(c,p,'_cwi',st)); n=ze(itf(c,p,'_nbw',st)); cw=itf(c,p,'_cw',st); t=itf(c,p,'_t',st)
    return z3.And(z3.ULE(n,bv(2048)),z3.Implies(n!=0,z3.And(t.b!=0,c.ex.blen(t.b)==8*n)),z3.If(z3.ULT(cwi,n),z3.And(cw!=0,cw&~z3.Select(itrow(c,p,st),cwi)==0),z3.And(cwi==n,cw==0)))
def allrem(c,p,f,st=None):
    k=z3.Const('k!r',W64); return z3.ForAll([k],rem(c,p,k,st)==f(k))
class It(Contract):
    mode='bv'; prop=('C12',); bounds=True; feas=1500
def it(pat,post,pre=None,mods=(),loops={},**kw):
    class X(It):
        def requires(s,c): return pre(c) if pre else []
        def ensures(s,c): return post(c)
        def modifies(s,c): return [('f',c.this,I+'.'+f) for f in mods]
        def loopinv(s,k): return loops.get(k)
    x=X(pat)
    for k,v in kw.items(): setattr(x,k,v)
    K.append(x); return x
def least(c,p,st):  # the iterator's current word without its lowest bit
    cw=itf(c,p,'_cw',st); return cw&(cw-1)
def skipinv(c):
    """the words between the old and the new position are exhausted"""
    p=c.this; cwi=ze(itf(c,p,'_cwi')); n=ze(itf(c,p,'_nbw')); o=ze(itf(c,p,'_cwi',c.entry)); k=z3.Const('k!s',W64); r=itrow(c,p)
    return [('position',z3.And(z3.UGE(cwi,o),z3.ULE(cwi,n),z3.Implies(z3.UGT(cwi,o),z3.And(z3.ULT(cwi,n),itf(c,p,'_cw')==z3.Select(r,cwi))),z3.Implies(cwi==o,itf(c,p,'_cw')==itf(c,p,'_cw',c.entry)))),
      ('start',z3.Implies(z3.UGT(cwi,o),itf(c,p,'_cw',c.entry)==0)),
      ('skipped words are empty',z3.ForAll([k],z3.Implies(z3.And(z3.UGT(k,o),z3.ULT(k,cwi)),z3.Select(r,k)==0),patterns=[z3.Select(r,k)]))]
it(r'GNSet::iterator::operator\+\+\(\)$',lambda c:[('wf',itwf(c,c.this)),('drops the least value',allrem(c,c.this,lambda k:z3.If(k==ze(itf(c,c.this,'_cwi',c.old)),least(c,c.this,c.old),rem(c,c.this,k,c.old)))),('this',c.ex.peq(c.ret,c.this))],
   pre=lambda c:[('wf',itwf(c,c.this)),('not at end',z3.ULT(ze(itf(c,c.this,'_cwi')),ze(itf(c,c.this,'_nbw'))))],mods=('_cwi','_cw'),loops={0:skipinv})
def deref(c):
    cw=itf(c,c.this,'_cw'); return [('least remaining value',se(c.ret)==se(z3.Extract(15,0,64*ze(itf(c,c.this,'_cwi'))+ctz(cw))))]
it(r'GNSet::iterator::operator\*\(\) const$',deref,pre=lambda c:[('wf',itwf(c,c.this)),('not at end',itf(c,c.this,'_cw')!=0)])
class ItEq(It):
    def requires(s,c): return [('wf',itwf(c,c.a[0])),('wf2',itwf(c,c.a[1])),('same set',z3.And(itf(c,c.a[0],'_t').b==itf(c,c.a[1],'_t').b,itf(c,c.a[0],'_nbw')==itf(c,c.a[1],'_nbw')))]
    neg=False
    def ensures(s,c):
        k=z3.Const('k!r',W64); e=z3.And(itf(c,c.a[0],'_cwi')==itf(c,c.a[1],'_cwi'),itf(c,c.a[0],'_cw')==itf(c,c.a[1],'_cw'))
        return [('same position',c.ret==(z3.Not(e) if s.neg else e))]
K.append(ItEq(r'GNSet::iterator::operator==\(GNSet::iterator\) const$'))
x=ItEq(r'GNSet::iterator::operator!=\(GNSet::iterator\) const$'); x.neg=True; K.append(x)
class ItCtor(It):
    full=True
    def requires(s,c):
        n=ze(c.a[2]); t=c.a[1]; r=[('array',z3.And(z3.ULE(n,bv(2048)),z3.Implies(n!=0,z3.And(t.b!=0,c.ex.blen(t.b)==8*n))))]
        return r+([('start',z3.Or(z3.ULT(ze(c.a[3]),n),z3.And(n==0,c.a[3]==0)))] if s.full else [])
    def modifies(s,c): return [('f',c.this,I+'.'+f) for f in ('_t','_nbw','_cwi','_cw')]
    def ensures(s,c):
        n=ze(c.a[2]); at=ze(c.a[3]) if s.full else None; r=c.ex.sel(c.new,c.ex.reg(c.new,'elem:i64',W64),c.a[1].b)
        q=[('fields',z3.And(itf(c,c.this,'_t').b==c.a[1].b,itf(c,c.this,'_nbw')==c.a[2])),('wf',itwf(c,c.this))]
        if s.full: return q+[('all values from word `at` on',allrem(c,c.this,lambda k:z3.If(z3.And(z3.UGE(k,at),z3.ULT(k,n)),z3.Select(r,k),bv(0))))]
        return q+[('exhausted',itf(c,c.this,'_cwi')==c.a[2])]
    def loopinv(s,k): return skipinv if k==0 else None
K.append(ItCtor(r'GNSet::iterator::iterator\(unsigned long long\*, unsigned short, unsigned short\)$'))
x=ItCtor(r'GNSet::iterator::iterator\(unsigned long long\*, unsigned short\)$'); x.full=False; K.append(x)
def wfn(c,p,st=None): return wf(c,p,st)
class Begin(It):
    end=False
    def requires(s,c): return [('wf',wfn(c,c.a[1]))]
    def ensures(s,c):
        p=c.ret; q=[('iterates over this set',z3.And(itf(c,p,'_t').b==tab(c,c.a[1]).b,ze(itf(c,p,'_nbw'))==mxw(c,c.a[1]))),('wf',itwf(c,p))]
        return q+([('nothing remains',ze(itf(c,p,'_cwi'))==mxw(c,c.a[1]))] if s.end else [('everything remains',allrem(c,p,lambda k:word(c,c.a[1],k)))])
K.append(Begin(r'GNSet::begin\(\) const$')); x=Begin(r'GNSet::end\(\) const$'); x.end=True; K.append(x)
class RBegin(It):
    names=('lw','c','found','last'); prop=('C12',)
    def nonempty(s,c):
        w=z3.Const('wit_nonempty',W64); return w
    def requires(s,c):
        w=s.nonempty(c); return [('wf',wfn(c,c.a[1])),('non-empty (witness word)',z3.And(z3.ULT(w,mxw(c,c.a[1])),arow(c,c.a[1],w)!=0))]
    def ensures(s,c):
        p=c.ret; cwi=ze(itf(c,p,'_cwi')); cw=itf(c,p,'_cw'); k=z3.Const('k!rb',W64)
        return [('single value left, the largest',z3.And(cw!=0,cw&(cw-1)==0,z3.ULT(cwi,mxw(c,c.a[1])),cw&arow(c,c.a[1],cwi)==cw,z3.ULT(arow(c,c.a[1],cwi)&~(cw-1)&~cw,bv(1)),
           z3.ForAll([k],z3.Implies(z3.And(z3.UGT(k,cwi),z3.ULT(k,mxw(c,c.a[1]))),arow(c,c.a[1],k)==0))))]
    def loopinv(s,k):
        def i0(c):
            lw=se(c.v('lw')); w=s.nonempty(c); kk=z3.Const('k!l',W64); n=mxw(c,c.a[1])
            return [('index',z3.And(lw>=w,lw<n)),('zero above',z3.ForAll([kk],z3.Implies(z3.And(z3.UGT(kk,lw),z3.ULT(kk,n)),arow(c,c.a[1],kk)==0),patterns=[arow(c,c.a[1],kk)]))]
        def i1(c):
            p=c.vp('c'); f=c.result('found'); l=c.vp('last'); lw=se(c.v('lw')); r=arow(c,c.a[1],lw); cw=itf(c,p,'_cw'); cwi=ze(itf(c,p,'_cwi')); fw=itf(c,f,'_cw'); n=mxw(c,c.a[1]); t=tab(c,c.a[1])
            return [('wf',z3.And(itwf(c,p),itf(c,p,'_t').b==t.b,ze(itf(c,p,'_nbw'))==n,itf(c,f,'_t').b==t.b,ze(itf(c,f,'_nbw'))==n,ze(itf(c,l,'_cwi'))==lw)),
               ('current',z3.Or(z3.And(cwi==lw,cw!=0,cw&r==cw,z3.ULT(r&~cw,cw&-cw)),cwi==n)),('found',z3.And(ze(itf(c,f,'_cwi'))==lw,fw!=0,fw&r==fw)),('found is last',z3.Implies(cwi==n,z3.And(fw&(fw-1)==0,z3.ULT(r&~(fw-1)&~fw,bv(1)))))]
        return {0:i0,1:i1}.get(k)
K.append(RBegin(r'GNSet::rbegin\(\) const$'))
# --- comparison: equality is equality of the member sets, whatever the capacities
def eqspec(c): return all_words(c,c.a[0],lambda k:word(c,c.a[1],k))
def rowp(c,k,a): return z3.Select(row(c,c.a[a]),k)
def pref(c,hi):
    k=z3.Const('k!e',W64); return z3.ForAll([k],z3.Implies(z3.ULT(k,hi),rowp(c,k,0)==rowp(c,k,1)))
def zer(c,a,lo,hi):
    k=z3.Const('k!e2',W64); return z3.ForAll([k],z3.Implies(z3.And(z3.UGE(k,lo),z3.ULT(k,hi)),rowp(c,k,a)==0))
m0=lambda c:mxw(c,c.a[0]); m1=lambda c:mxw(c,c.a[1])
umin=lambda a,b:z3.If(z3.ULT(a,b),a,b)
def eqw(c):
    n=m0(c); cc=se(c.v('c')); a=c.v('a'); b=c.v('b'); k=n-cc
    return [('cursor',z3.And(cc>=0,cc<=n,a.b==tab(c,c.a[0]).b,b.b==tab(c,c.a[1]).b,a.o==k,b.o==k)),('equal so far',pref(c,k))]
def eqf(c): i=se(c.v('i')); return [('index',z3.And(i>=0,i<=umin(m0(c),m1(c)))),('equal so far',pref(c,i))]
def both(f): return lambda c:[('s1 has fewer words: '+n,z3.Implies(z3.ULT(m0(c),m1(c)),x)) for n,x in f(1)(c)]+[('s2 has fewer words: '+n,z3.Implies(z3.Not(z3.ULT(m0(c),m1(c))),x)) for n,x in f(0)(c)]
eqz=both(lambda a:lambda c:[('index',z3.And(se(c.v('i'))>=m0(c) if a else se(c.v('i'))>=m1(c),se(c.v('i'))<=(m1(c) if a else m0(c)))),('zero so far',zer(c,a,(m0(c) if a else m1(c)),se(c.v('i'))))])
class Eq(G):
    sets=(0,1); names=('i','c','a','b','diff')
    def ensures(s,c): return [('same members',c.ret==eqspec(c))]
    def loopinv(s,k): return {0:eqw,1:eqf,2:eqz,3:eqz}.get(k)
K.append(Eq(r'operator==\(GNSet const&, GNSet const&\)$'))
def ndz_(a):
    def f(c):
        lo=m0(c) if a else m1(c); hi=m1(c) if a else m0(c); i=se(c.v('i')); d=c.v('diff'); d=(d!=0) if z3.is_bv(d) else d
        return [('index',z3.And(i>=lo,i<=hi)),('diff',d==z3.Not(zer(c,a,lo,i))),('bool',z3.ULE(c.v('diff'),1))]
    return f
ndz=both(ndz_)
class Ne(Eq):
    def ensures(s,c): return [('different members',c.ret==z3.Not(eqspec(c)))]
    def loopinv(s,k): return {0:eqf,1:eqf,2:ndz,3:ndz}.get(k)
K.append(Ne(r'operator!=\(GNSet const&, GNSet const&\)$'))
# --- derived operations
def bin_(nm,f):
    class X(G):
        sets=(1,2); prop=('C12',)
        def pre(s,c): return [('distinct storage',z3.Or(c.a[1].b==c.a[2].b,sep(c,c.a[1],c.a[2]),z3.And(tab(c,c.a[1]).b==0,tab(c,c.a[2]).b==0)))]
        def modifies(s,c): return [('next',)]
        def ensures(s,c): return [('members',all_words(c,c.ret,lambda k:f(word(c,c.a[1],k,c.old),word(c,c.a[2],k,c.old)))),('wf',wf(c,c.ret))]
    K.append(X(r'gnset_%s\('%nm))
bin_('or',lambda a,b:a|b); bin_('and',lambda a,b:a&b); bin_('sub',lambda a,b:a&~b)
# --- hash: a function of the member set only (C13)
HS=z3.Function('hsuffix',z3.ArraySort(W64,W64),W64,W64,W64)     # hash of words i..n-1 of a row
def rotl(x,r): return z3.RotateLeft(x,r)
def hs_def(r,i,n): return z3.And(HS(r,n,n)==0,z3.Implies(z3.ULT(i,n),HS(r,i,n)==rotl(HS(r,i+1,n),2)^z3.Select(r,i)))
class Hash(G):
    prop=('C13',); names=('i','hv')
    def ensures(s,c): return [('fold over the words',c.ret==HS(row(c,c.this),bv(0),n_(c)))]
    def loopinv(s,k):
        def inv(c):
            i=se(c.v('i')); n=n_(c); r=row(c,c.this)
            q=[('index',z3.And(i>=-1,i<n)),('suffix',c.v('hv')==HS(r,i+1,n))]
            return q+([('definition of the fold (assumed)',hs_def(r,i,n))] if c.assuming else [])
        return inv if k==0 else None
    def axioms_(s,c): return [HS(row(c,c.this),n_(c),n_(c))==0]
K.append(Hash(r'GNSet::hash\(\) const$'))
def lemma_hash():
    r1,r2=z3.Const('r1',z3.ArraySort(W64,W64)),z3.Const('r2',z3.ArraySort(W64,W64)); n1,n2,i=z3.BitVecs('n1 n2 i',64)
    w=lambda r,n,k:z3.If(z3.ULT(k,n),z3.Select(r,k),bv(0)); H=lambda r,n,k:z3.If(z3.ULT(k,n),HS(r,k,n),bv(0)) # hash suffix extended by 0 past the end
    df=lambda r,n:z3.And(HS(r,n,n)==0,z3.Implies(z3.ULT(i,n),HS(r,i,n)==rotl(HS(r,i+1,n),2)^z3.Select(r,i)))
    lim=z3.And(z3.ULE(n1,bv(2048)),z3.ULE(n2,bv(2048)),z3.ULE(i,bv(2048)))
    return [('equal sets have equal hashes: base',[z3.UGE(i,n1),z3.UGE(i,n2)],H(r1,n1,i)==H(r2,n2,i)),
            ('equal sets have equal hashes: step',[lim,df(r1,n1),df(r2,n2),w(r1,n1,i)==w(r2,n2,i),H(r1,n1,i+1)==H(r2,n2,i+1)],H(r1,n1,i)==H(r2,n2,i))]
LEMMAS={'C13':[('GNSet hash lemma (induction from the top word down)',lemma_hash)]}

for k in K:
    if re.search(r'insert|remove\\\(|complement|With|operator=\\\(|iterator::operator.\+',k.pat.pattern): k.returns=0
