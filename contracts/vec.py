"""Vec<T,SZT>: pool-backed vector.  View: the sequence _data[0.._sz).  Proved for T=long, int (opaque scalars) and
handle_ptr<Edge> (the instantiation used by nodes)."""
import re,z3
from vcg import *
K=[]
I=z3.IntSort()
def ereg(c):
    m=re.search(r'Vec<(long|int|handle_ptr<Edge>)',c.dem) or re.search(r'Vec<(long|int|handle_ptr<Edge>)',c.ex.F['dem'])
    t=m.group(1)
    return {'long':('elem:i64',8),'int':('elem:i32',4)}.get(t,('handle_ptr._ptr#b',8))
def sz(c,p,st=None): return c.ex.rd(st or c.new,p,'Vec._sz')
def msz(c,p,st=None): return c.ex.rd(st or c.new,p,'Vec._msz')
def dat(c,p,st=None): return c.ex.rd(st or c.new,p,'Vec._data').b
def row(c,b,st=None): st=st or c.new; return c.ex.sel(st,c.ex.reg(st,ereg(c)[0],I),b)
def at(c,p,i,st=None): return z3.Select(row(c,dat(c,p,st),st),i)
def wf(c,p,st=None):
    st=st or c.new; n,m,d=sz(c,p,st),msz(c,p,st),dat(c,p,st)
    return z3.And(n>=0,n<=m,m<2**31,z3.Implies(m>0,z3.And(d>=1,c.ex.blen(d)>=m*ereg(c)[1])),d<st.next,d>=0)
def alls(f,lo,hi,pat=None):
    k=z3.Int('k!v'); b=z3.Implies(z3.And(k>=lo,k<hi),f(k))
    return z3.ForAll([k],b,patterns=pat(k)) if pat else z3.ForAll([k],b)
def same(c,p,q,stp,stq,n): return alls(lambda k:at(c,p,k,stp)==at(c,q,k,stq),0,n)
def val(c,p,st=None):
    r=ereg(c)[0]; st=st or c.new
    if p.k=='l': 
        v=c.ex.load_local(st,p,{'elem:i64':'i64','elem:i32':'i32'}.get(r,'ptr')); return v.b if isinstance(v,P) else v
    if p.path is not None and r!='handle_ptr._ptr#b': return c.ex.load(st,p,{'elem:i64':'i64','elem:i32':'i32'}[r])
    return z3.Select(c.ex.sel(st,c.ex.reg(st,r,I),p.b),c.ex.off(p.o))
def ne(c,p,q): e=c.ex.peq(p,q); return z3.Not(e) if isz(e) else not e
def okref(c,p): return z3.BoolVal(True) if p.k=='l' or p.path is not None else z3.And(c.ex.off(p.o)>=0,(c.ex.off(p.o)+1)*ereg(c)[1]<=c.ex.blen(p.b))
class V(Contract):
    mode='int'; prop=('C15',); bounds=True; names=('i','newSize','nd'); writes=''; vecs=(0,)
    def pre(s,c): return []
    def requires(s,c): return [('wf %d'%i,wf(c,c.a[i])) for i in s.vecs]+[('domain',x) for x in s.pre(c)]
    def modifies(s,c):
        r=[]; p=c.this
        if 's' in s.writes: r.append(('f',p,'Vec._sz'))
        if 'g' in s.writes: r+=[('f',p,'Vec._msz'),('f',p,'Vec._data'),('next',)]
        if 'm' in s.writes: r+=[('f',p,'Vec._mem')]
        if 'c' in s.writes: r.append(('row',ereg(c)[0],dat(c,p,c.old)))
        return r
def v(pat,post,pre=None,loops={},**kw):
    class X(V):
        def pre(s,c): return pre(c) if pre else []
        def ensures(s,c): return post(c)
        def loopinv(s,k):
            return loops.get(k)
    x=X(pat)
    for a,b in kw.items(): setattr(x,a,b)
    K.append(x); return x
T=lambda c:c.this
store_ok=lambda c:('storage kept or new',z3.Or(dat(c,c.this)==dat(c,c.this,c.old),dat(c,c.this)>=c.old.next))
kept=lambda c,n:('elements kept',same(c,c.this,c.this,None,c.old,n))
# copy loop: cells below i of the new block equal f
def copyinv(dst,f,hi):
    def inv(c):
        i=c.v('i'); d=dst(c); r=row(c,d); k=z3.Int('k!c')
        return [('index',z3.And(i>=0,z3.Or(i<=hi(c),i==0))),('copied',z3.ForAll([k],z3.Implies(z3.And(k>=0,k<i),z3.Select(r,k)==f(c,k))))]
    return inv
def ctorinv(c): 
    cur=c.phis[0]; return [('array construction position',z3.And(c.ex.off(cur.o)>=0,(c.ex.off(cur.o)+1)*8<=c.ex.blen(cur.b)))]
def grow(c):
    n=c.v('newSize'); p=c.a[1] if len(c.a)>1 and isz(c.a[1]) else sz(c,c.this,c.old); m=msz(c,c.this,c.old)
    return [('size',z3.And(n>=1,n>=m,z3.Or(n==m,n==1,n<=2*p)))]
class MV(V):
    writes='g'
    def pre(s,c): return [c.a[1]>=0,c.a[1]<2**30]
    def ensures(s,c):
        return [('wf',wf(c,c.this)),('room',z3.And(msz(c,c.this)>c.a[1],msz(c,c.this)>=msz(c,c.this,c.old))),kept(c,msz(c,c.this,c.old)),store_ok(c)]
    def loopinv(s,k): return s.L[k] if k<len(s.L) else None
cp=copyinv(lambda c:c.v('nd').b,lambda c,k:at(c,c.this,k,c.old),lambda c:msz(c,c.this,c.old))
x=MV(r'Vec::makeValid\(unsigned int\)$'); x.only=r'Vec<(long|int),'; x.L=[grow,cp]; x.prop=('C15',); K.append(x)
x=MV(r'Vec::makeValid\(unsigned int\)$'); x.only=r'Vec<handle'; x.L=[grow,ctorinv,cp]; x.prop=('C15','C08'); x.no_call=True; K.append(x)
v(r'Vec::Vec\(Pool\*, unsigned int\)$',lambda c:[('wf',wf(c,c.this)),('empty',sz(c,c.this)==0),('room',msz(c,c.this)==c.a[2]),('new storage',z3.Or(dat(c,c.this)==0,dat(c,c.this)>=c.old.next))],pre=lambda c:[c.a[2]>=0,c.a[2]<2**31],vecs=(),writes='sgm',loops={0:ctorinv})
cpy=lambda ix:(lambda c:[('wf',wf(c,c.this)),('size',sz(c,c.this)==sz(c,c.a[ix],c.old)),('copied',same(c,c.this,c.a[ix],None,c.old,sz(c,c.this))),('independent storage',z3.Or(dat(c,c.this)==0,dat(c,c.this)>=c.old.next))])
cpl=lambda ix:{0:copyinv(lambda c:dat(c,c.this),lambda c,k:at(c,c.a[ix],k,c.old),lambda c:sz(c,c.a[ix],c.old))}
v(r'Vec::Vec\(Pool\*, Vec const&\)$',cpy(2),pre=lambda c:[ne(c,c.this,c.a[2])],vecs=(2,),writes='sgm',loops=cpl(2))
v(r'Vec::Vec\(Vec const&\)$',cpy(1),pre=lambda c:[ne(c,c.this,c.a[1])],vecs=(1,),writes='sgm',loops=cpl(1))
v(r'Vec::Vec\(Vec&&\)$',lambda c:[('wf',wf(c,c.this)),('size',sz(c,c.this)==sz(c,c.a[1],c.old)),('content',same(c,c.this,c.a[1],None,c.old,sz(c,c.this)))],pre=lambda c:[ne(c,c.this,c.a[1])],vecs=(1,),writes='sgm')
def acpl(c):
    q=dat(c,c.a[1],c.old); r,r0=row(c,q),row(c,q,c.old); k=z3.Int('k!s')
    return cpl(1)[0](c)+[('source unchanged',z3.ForAll([k],z3.Implies(z3.And(k>=0,k<sz(c,c.a[1],c.old)),z3.Select(r,k)==z3.Select(r0,k))))]
v(r'Vec::operator=\(Vec const&\)$',lambda c:[('wf',wf(c,c.this)),('size',sz(c,c.this)==sz(c,c.a[1],c.old)),('copied',same(c,c.this,c.a[1],None,c.old,sz(c,c.this))),('returns this',c.ex.peq(c.ret,c.this)),store_ok(c)],
  pre=lambda c:[z3.Or(c.ex.peq(c.this,c.a[1]),dat(c,c.this)!=dat(c,c.a[1]),z3.And(msz(c,c.this)==0,msz(c,c.a[1])==0))],vecs=(0,1),writes='sgc',loops={0:acpl},returns=0)
class MoveA(V):
    writes='sgm'; vecs=(1,)
    def pre(s,c): return [ne(c,c.this,c.a[1])]
    def modifies(s,c): return super().modifies(c)+[('f',c.a[1],'Vec._sz'),('f',c.a[1],'Vec._msz'),('f',c.a[1],'Vec._data'),('f',c.a[1],'Vec._mem')]
    def ensures(s,c): return [('wf',wf(c,c.this)),('source wf',wf(c,c.a[1])),('size',sz(c,c.this)==sz(c,c.a[1],c.old)),('content',same(c,c.this,c.a[1],None,c.old,sz(c,c.this))),('source empty',sz(c,c.a[1])==0),('returns this',c.ex.peq(c.ret,c.this)),('source storage',dat(c,c.a[1])==0),('storage moved',dat(c,c.this)==dat(c,c.a[1],c.old))]
x=MoveA(r'Vec::operator=\(Vec&&\)$'); x.returns=0; K.append(x)
v(r'Vec::clear\(\)$',lambda c:[('wf',wf(c,c.this)),('empty',sz(c,c.this)==0)],writes='s')
v(r'Vec::size\(\) const$',lambda c:[('size',c.ret==sz(c,c.this))])
def pushpost(c): n=sz(c,c.this,c.old); return [('wf',wf(c,c.this)),('size',sz(c,c.this)==n+1),('appended',at(c,c.this,n)==val(c,c.a[1],c.old)),kept(c,n),('position',c.ret==n),store_ok(c)]
v(r'Vec::push_back\((int|long|handle_ptr) const&\)$',pushpost,pre=lambda c:[sz(c,c.this)<2**30,okref(c,c.a[1])],writes='sgc',prop=('C15','C08'))
v(r'Vec::pop_back\(\)$',lambda c:[('wf',wf(c,c.this)),('size',sz(c,c.this)==sz(c,c.this,c.old)-1),('returns last',c.ret==at(c,c.this,sz(c,c.this),c.old)),kept(c,sz(c,c.this))],pre=lambda c:[sz(c,c.this)>0],writes='s')
v(r'Vec::at\(unsigned int, (int|long|handle_ptr) const&\)$',lambda c:[('wf',wf(c,c.this)),('written',at(c,c.this,c.a[1])==val(c,c.a[2],c.old)),('others kept',alls(lambda k:z3.Implies(k!=c.a[1],at(c,c.this,k)==at(c,c.this,k,c.old)),0,msz(c,c.this)))],
  pre=lambda c:[c.a[1]>=0,c.a[1]<msz(c,c.this),okref(c,c.a[2])],writes='c',prop=('C15',))
v(r'Vec::(get|operator\[\])\(unsigned int\) const$',lambda c:[('element',c.ret==at(c,c.this,c.a[1]))],pre=lambda c:[c.a[1]>=0,c.a[1]<sz(c,c.this)])
def rmpost(c):
    n=sz(c,c.this,c.old); i=c.a[1]
    r=[('wf',wf(c,c.this)),('size',sz(c,c.this)==n-1),('returns size',c.ret==n-1),('others kept',alls(lambda k:z3.Implies(k!=i,at(c,c.this,k)==at(c,c.this,k,c.old)),0,n-1)),('last takes the place',z3.Implies(i<n-1,at(c,c.this,i)==at(c,c.this,n-1,c.old)))]
    if 'rl' in c.new.ghost: r.append(('callback gets the moved element',c.new.ghost['rl']==z3.If(i<n-1,at(c,c.this,n-1,c.old),at(c,c.this,i,c.old))))
    return r
v(r'unsigned int Vec::remove\(unsigned int, RL\)$',rmpost,pre=lambda c:[c.a[1]>=0,c.a[1]<sz(c,c.this)],writes='sc',no_call=True)
v(r'vec_remove\(Vec&, unsigned int, RL\)$',rmpost,pre=lambda c:[c.a[1]>=0,c.a[1]<sz(c,c.this)],writes='sc')
# indexed write through the setter object: v[i]=x
class Set(V):
    vecs=()
    def vec(s,c,st=None): return c.ex.rd(st or c.new,c.this,'Vec::TVecSetter._v')
    def ix(s,c): return c.ex.rd(c.old,c.this,'Vec::TVecSetter._at')
    def requires(s,c): q=s.vec(c); return [('wf',wf(c,q)),('domain',z3.And(s.ix(c)>=0,s.ix(c)<2**30)),('distinct',q.b!=c.this.b),('value',okref(c,c.a[1]))]
    def modifies(s,c): q=s.vec(c,c.old); return [('f',q,'Vec._sz'),('f',q,'Vec._msz'),('f',q,'Vec._data'),('next',),('row',ereg(c)[0],dat(c,q,c.old))]
    def ensures(s,c):
        q=s.vec(c,c.old); i=s.ix(c); return [('wf',wf(c,q)),('written',at(c,q,i)==val(c,c.a[1],c.old)),('size becomes i+1',sz(c,q)==i+1),('elements kept',alls(lambda k:z3.Implies(k!=i,at(c,q,k)==at(c,q,k,c.old)),0,msz(c,q,c.old)))]
x=Set(r'Vec::TVecSetter::operator=\((int|long)&&\)$'); K.append(x)
# iterators
it=lambda c,p,f,st=None:c.ex.rd(st or c.new,p,'iterator.'+f)
def itpost(endp):
    def f(c):
        a=c.ret; d,n=a.vals[0],a.vals[1]
        return [('points into the vector',z3.And(d.b==dat(c,c.this),c.ex.off(d.o)==0,n==(sz(c,c.this) if endp else 0)))]
    return f
v(r'Vec::(c?begin)\(\) const$',itpost(False)); v(r'Vec::(c?end)\(\) const$',itpost(True))
class It(V):
    vecs=()
    def clsn(s,c): return 'Vec::const_iterator' if 'const_iterator' in s.pat.pattern else 'Vec::iterator'
    def num(s,c,st=None): return c.ex.rd(st or c.new,c.this,s.clsn(c)+'._num')
    def d(s,c,st=None): return c.ex.rd(st or c.new,c.this,s.clsn(c)+'._data')
for cl in ('const_iterator','iterator'):
    class Inc(It):
        no_call=True
        def modifies(s,c): return [('f',c.this,s.clsn(c)+'._num')]
        def ensures(s,c): return [('next position',s.num(c)==s.num(c,c.old)+1),('same sequence',s.d(c).b==s.d(c,c.old).b),('returns this',c.ex.peq(c.ret,c.this))]
    K.append(Inc(r'Vec::%s::operator\+\+\(\)$'%cl))
    class Deref(It):
        no_call=True; bounds=False
        def ensures(s,c):
            e=z3.Select(row(c,s.d(c).b),s.num(c)); 
            if isinstance(c.ret,P): return [('designates the element at the position',z3.And(c.ret.b==s.d(c).b,c.ex.off(c.ret.o)==s.num(c)))]
            return [('yields the element at the position',c.ret==e)]
    K.append(Deref(r'Vec::%s::operator\*\(\) const$'%cl))
    class Cmp(It):
        no_call=True
        def ensures(s,c): e=s.num(c)==c.a[2]; return [('compares positions',c.ret==(z3.Not(e) if '!=' in s.pat.pattern else e))]
    K.append(Cmp(r'Vec::%s::operator==\('%cl)); K.append(Cmp(r'Vec::%s::operator!=\('%cl))
