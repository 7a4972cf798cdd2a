"""NatSet<N>: fixed-capacity bit set.  View: a 64N-bit vector, bit v <=> v in the set."""
import re,z3
from vcg import *
K=[]
def N(c):
    m=re.search(r'NatSet<\(unsigned short\)(\d)>',c.ex.F['dem']) or re.search(r'^natset_\w+?(\d)\(',c.ex.F['dem'])
    return int(m.group(1))
def view(c,p,st=None,n=None):
    n=n or N(c); ws=[c.ex.rd(st or c.new,p,'NatSet._t',z3.BitVecVal(k,64)) for k in range(n)]
    return z3.Concat(*reversed(ws)) if n>1 else ws[0]
def view0(c,p): return view(c,p,c.old)
def one(c,p):
    M=64*N(c); return z3.BitVecVal(1,M)<<ext(p,M)
def ext(p,M): return z3.SignExt(M-p.size(),p) if M>p.size() else z3.Extract(M-1,0,p)
def inr(c,p): return z3.And(p>=0,p<64*N(c))
def rev(b): return z3.Concat(*[z3.Extract(i,i,b) for i in range(b.size())])
def pop(b,w=32):
    r=z3.BitVecVal(0,w)
    for i in range(b.size()): r=r+z3.ZeroExt(w-1,z3.Extract(i,i,b))
    return r
class NS(Contract):
    mode='bv'; prop=('C11',); unroll=12; writes=False; feas=2000
    def modifies(s,c): return [('f',c.this,'NatSet._t')] if s.writes else []
def ns(pat,post,pre=None,writes=False,prop=('C11',),res=None,**kw):
    class X(NS):
        def requires(s,c): return [('domain',pre(c))] if pre else []
        def ensures(s,c): return [(nm,f) for nm,f in post(c)]
    x=X(pat); x.writes=writes; x.prop=prop
    for k,v in kw.items(): setattr(x,k,v)
    K.append(x); return x
T=lambda c:view(c,c.this)
T0=lambda c:view0(c,c.this)
retthis=lambda c:c.ex.peq(c.ret,c.this)
ns(r'NatSet::NatSet\(\)$',lambda c:[('empty',T(c)==0)],writes=True)
ns(r'NatSet::NatSet\(NatSet( const)?&&?\)$',lambda c:[('copy',T(c)==view0(c,c.a[1])),('source kept',view(c,c.a[1])==z3.If(c.ex.peq(c.a[1],c.this),T(c),view0(c,c.a[1])))],writes=True)
def rng(c,lo,hi):   # bits lo..hi-1 ; 0<=lo<=hi<=M
    M=64*N(c); full=z3.BitVecVal((1<<M)-1,M); lo=ext(lo,M); hi=ext(hi,M)
    a=full<<lo; b=z3.If(hi==M,full,~(full<<hi)); return a&b
class Rng(NS):
    writes=True; names=('i','lb','ub')
    def requires(s,c): lb,ub=c.a[1],c.a[2]; return [('domain',z3.Or(lb>ub,z3.And(lb>=0,ub>=0,ub<64*N(c))))]
    def ensures(s,c):
        lb,ub=c.a[1],c.a[2]; return [('exactly lb..ub',T(c)==z3.If(lb>ub,z3.BitVecVal(0,64*N(c)),rng(c,lb,ub+1)))]
    def unrolled(s,d): return False
    def loopinv(s,k):
        return None
class Rng2(Rng):
    # loop over the values: cut, the others unroll completely
    def loopinv(s,k):
        def inv(c):
            i=c.v('i','i32'); lb=c.v('lb'); ub=c.v('ub')
            return [('prefix',T(c)==rng(c,lb,i)),('range',z3.And(lb<=i,i<=ub,lb>=0,ub<=64*N(c)))]
        return inv if k==2 else None
K.append(Rng2(r'NatSet::NatSet\(int, int\)$'))
def sub_pre(c,o,s):   # every ofs-v lies in [0,64N)
    M=64*N(c); B=view0(c,s); full=z3.BitVecVal((1<<M)-1,M); oe=ext(o,M)
    hi=z3.If(o>=M-1,z3.BitVecVal(0,M),full<<(oe+1)); lo=z3.If(o<=M-1,z3.BitVecVal(0,M),~(full<<(oe-(M-1))))
    return z3.And(o>=0,o<=2*M-2,(B&hi)==0,(B&lo)==0)
def subspec(c,o,B):
    M=64*N(c); R=rev(B); oe=ext(o,M)
    return z3.If(o<=M-1,z3.LShR(R,z3.BitVecVal(M-1,M)-oe),z3.If(o-(M-1)>=M,z3.BitVecVal(0,M),R<<(oe-z3.BitVecVal(M-1,M))))
ns(r'NatSet::NatSet\(int, NatSet const&\)$',lambda c:[('{ofs-v}',T(c)==subspec(c,c.a[1],view0(c,c.a[2])))],pre=lambda c:z3.And(z3.Not(c.ex.peq(c.a[2],c.this)),sub_pre(c,c.a[1],c.a[2])),writes=True,budget=600,parts=lambda d:{'1':1,'2':3,'3':8,'4':14}[re.search(r'short\)(\d)',d).group(1)])
ns(r'NatSet::operator=\(NatSet const&\)$',lambda c:[('copy',T(c)==view0(c,c.a[1])),('this',retthis(c))],writes=True)
ns(r'NatSet::clear\(\)$',lambda c:[('empty',T(c)==0)],writes=True)
ns(r'NatSet::size\(\) const$',lambda c:[('cardinality',c.ret==pop(T(c)))])
ns(r'NatSet::empty\(\) const$',lambda c:[('empty',c.ret==(T(c)==0))])
ns(r'NatSet::nbWords\(\) const$',lambda c:[('words',c.ret==N(c))])
ns(r'NatSet::largestPossible\(\) const$',lambda c:[('capacity',c.ret==64*N(c))])
def largest(c):
    B=T(c); M=B.size(); r=z3.BitVecVal(-1,32)
    for i in range(M): r=z3.If(z3.Extract(i,i,B)==1,z3.BitVecVal(i,32),r)
    return [('maximum',c.ret==r)]
ns(r'NatSet::largest\(\) const$',largest)
ns(r'NatSet::insert\(int\)$',lambda c:[('plus p',T(c)==T0(c)|one(c,c.a[1]))],pre=lambda c:inr(c,c.a[1]),writes=True)
ns(r'NatSet::contains\(int\) const$',lambda c:[('membership',c.ret==((T(c)&one(c,c.a[1]))!=0))],pre=lambda c:inr(c,c.a[1]))
ns(r'NatSet::complement\(\)$',lambda c:[('complement',T(c)==~T0(c)),('this',retthis(c))],writes=True)
ns(r'NatSet::unionWith\(NatSet const&\)$',lambda c:[('union',T(c)==T0(c)|view0(c,c.a[1])),('this',retthis(c))],writes=True)
ns(r'NatSet::interWith\(NatSet const&\)$',lambda c:[('intersection',T(c)==T0(c)&view0(c,c.a[1])),('this',retthis(c))],writes=True)
for i in '1234':
    ns(r'natset_or%s\('%i,lambda c:[('union',view(c,c.ret)==view0(c,c.a[1])|view0(c,c.a[2]))])
    ns(r'natset_and%s\('%i,lambda c:[('intersection',view(c,c.ret)==view0(c,c.a[1])&view0(c,c.a[2]))])
    ns(r'natset_eq%s\('%i,lambda c:[('equality',c.ret==(view(c,c.a[0])==view(c,c.a[1])))])
    ns(r'natset_sub%s\('%i,lambda c:[('{ofs-v}',view(c,c.ret)==subspec(c,c.a[1],view0(c,c.a[2])))],pre=lambda c:sub_pre(c,c.a[1],c.a[2]))
class RevL(Contract):
    mode='bv'; prop=('C11',)
    def ensures(s,c): return [('bit reversal',c.ret==rev(c.a[0]))]
K.append(RevL(r'std::revBitsOfLong\('))

for k in K:
    if re.search(r'complement|With|operator=\\\(',k.pat.pattern): k.returns=0
# --- iteration: an iterator denotes the set of values still to come; begin() denotes the whole set, ++ drops the least one
def itn(c): return int(re.search(r'NatSet<\(unsigned short\)(\d)>',c.ex.F['dem']).group(1))
def itf(c,p,f,st=None):
    cls='NatSet::citerator' if 'citerator' in short(c.ex.F['dem']) or re.search(r'NatSet::c(begin|end)',short(c.ex.F['dem'])) else 'NatSet::iterator'
    return c.ex.rd(st or c.new,p,cls+'.'+f)
def itw(c,p,k,st=None):      # word k of the array the iterator runs over
    st=st or c.new; t=itf(c,p,'_t',st); return z3.Select(c.ex.sel(st,c.ex.reg(st,'elem:i64',z3.BitVecSort(64)),t.b),z3.BitVecVal(k,64))
def rem(c,p,st=None,words=None):
    n=itn(c); cwi=z3.ZeroExt(48,itf(c,p,'_cwi',st)); cw=itf(c,p,'_cw',st)
    ws=[z3.If(z3.ULT(z3.BitVecVal(k,64),cwi),z3.BitVecVal(0,64),z3.If(cwi==k,cw,words(k) if words else itw(c,p,k,st))) for k in range(n)]
    return z3.Concat(*reversed(ws)) if n>1 else ws[0]
def itwf(c,p,st=None,words=None):
    n=itn(c); cwi=z3.ZeroExt(48,itf(c,p,'_cwi',st)); cw=itf(c,p,'_cw',st)
    return z3.And([z3.ULE(cwi,n),z3.Implies(cwi==n,cw==0)]+[z3.Implies(cwi==k,z3.And(cw!=0,cw&~(words(k) if words else itw(c,p,k,st))==0)) for k in range(n)])
class NIt(Contract):
    mode='bv'; prop=('C11',); unroll=12; feas=2000
class NInc(NIt):
    returns=0
    def requires(s,c):
        t=itf(c,c.this,'_t'); return [('wf',itwf(c,c.this)),('array',z3.And(t.b!=0,t.b!=c.this.b,t.o==0,c.ex.blen(t.b)==8*itn(c))),('not at end',rem(c,c.this)!=0)]
    def modifies(s,c):
        cls='NatSet::citerator' if 'citerator' in short(c.ex.F['dem']) else 'NatSet::iterator'
        return [('f',c.this,cls+'._cwi'),('f',c.this,cls+'._cw')]
    def ensures(s,c):
        r=rem(c,c.this,c.old); return [('wf',itwf(c,c.this)),('drops the least value',rem(c,c.this)==r&(r-1)),('this',c.ex.peq(c.ret,c.this))]
class NDeref(NIt):
    def requires(s,c): return [('wf',itwf(c,c.this)),('not at end',rem(c,c.this)!=0)]
    def ensures(s,c):
        r=rem(c,c.this); v=z3.SignExt(16,c.ret) if c.ret.size()==16 else c.ret
        M=r.size(); return [('least remaining value',z3.And(v>=0,v<M,z3.BitVecVal(1,M)<<ext(v,M)==r&-r))]
class NCmp(NIt):
    neg=False
    def requires(s,c): return [('wf',itwf(c,c.a[0])),('wf2',itwf(c,c.a[1])),('same set',z3.And(itf(c,c.a[0],'_t').b==itf(c,c.a[1],'_t').b,itf(c,c.a[0],'_t').o==itf(c,c.a[1],'_t').o))]
    def ensures(s,c):
        e=rem(c,c.a[0])==rem(c,c.a[1])
        return [('equal positions have the same values to come',z3.Implies(c.ret if not s.neg else z3.Not(c.ret),e)),('no value to come: at end',z3.Implies(z3.And(rem(c,c.a[0])==0,rem(c,c.a[1])==0),c.ret if not s.neg else z3.Not(c.ret)))]
class NBegin(NIt):
    end=False
    def requires(s,c): return [('set',z3.And(c.a[1].b!=0))]
    def ensures(s,c):
        w=lambda k:c.ex.rd(c.old,c.a[1],'NatSet._t',z3.BitVecVal(k,64)); p=c.ret
        return [('wf',itwf(c,p,words=w)),('set kept',view(c,c.a[1])==view0(c,c.a[1])),('nothing remains' if s.end else 'everything remains',rem(c,p,words=w)==(0 if s.end else view0(c,c.a[1])))]
for t in ('iterator','citerator'):
    K.append(NInc(r'NatSet::%s::operator\+\+\(\)$'%t)); K.append(NDeref(r'NatSet::%s::operator\*\(\) const$'%t))
    K.append(NCmp(r'NatSet::%s::operator==\('%t)); x=NCmp(r'NatSet::%s::operator!=\('%t); x.neg=True; K.append(x)
    b='c' if t[0]=='c' else ''
    K.append(NBegin(r'NatSet::%sbegin\(\) const$'%b)); x=NBegin(r'NatSet::%send\(\) const$'%b); x.end=True; K.append(x)
# --- construction from a list: LSET(row,k) is the set of the first k list elements (defined by recursion on k)
B32=z3.BitVecSort(32); ROW32=z3.ArraySort(z3.BitVecSort(64),B32)
def LSET(n): return z3.Function('listset%d'%n,ROW32,z3.BitVecSort(64),z3.BitVecSort(64*n))
class NList(NS):
    writes=True; names=('it','i')
    def row(s,c): return c.ex.sel(c.old,c.ex.reg(c.old,'elem:i32',B32),c.a[1].b)
    def requires(s,c):
        k=z3.Const('k!li',z3.BitVecSort(64)); r=s.row(c); n=c.a[2]
        return [('list',z3.And(z3.ULT(n,1<<32),c.a[1].o==0,z3.Implies(n!=0,c.a[1].b!=0),c.ex.blen(c.a[1].b)==4*n,c.a[1].b!=c.this.b)),('values',z3.ForAll([k],z3.Implies(z3.ULT(k,n),inr(c,z3.Select(r,k))),patterns=[z3.Select(r,k)]))]
    def axioms_(s,c): return [LSET(N(c))(s.row(c),z3.BitVecVal(0,64))==0]
    def ensures(s,c): return [('exactly the listed values',T(c)==LSET(N(c))(s.row(c),c.a[2]))]
    def loopinv(s,k):
        def inv(c):
            L=LSET(N(c)); r=s.row(c); p=c.v('it')
            if p is None or getattr(p,'k',None)!='h': return None
            q=[('cursor',z3.And(p.b==c.a[1].b,z3.ULE(p.o,c.a[2]))),('members so far',T(c)==L(r,p.o))]
            return q+([('definition of the set of a list (assumed)',L(r,p.o+1)==L(r,p.o)|one(c,z3.Select(r,p.o)))] if c.assuming else [])
        return inv if k==1 else None
K.append(NList(r'NatSet::NatSet\(std::initializer_list\)$'))
