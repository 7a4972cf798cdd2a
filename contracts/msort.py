"""mergeSort: result sorted for the comparison and a permutation of the input (same number of occurrences of an arbitrary value x)."""
import z3
from vcg import *
import base
K=[]
I=z3.IntSort(); A=z3.ArraySort(I,I)
rank=z3.Function('rank',I,I); X=z3.Int('some_value')
cnt=z3.Function('cnt',A,I,I,I,I)          # cnt(a,o,f,t): occurrences of X in a[o+f..o+t)
D=lambda a,o,f,t:cnt(a,o,f,t)==z3.If(t<=f,0,cnt(a,o,f,t-1)+z3.If(z3.Select(a,o+t-1)==X,1,0))
def eqon(a,o,b,p,f,t,n='k!q'): k=z3.Int(n); return z3.ForAll([k],z3.Implies(z3.And(k>=f,k<t),z3.Select(a,o+k)==z3.Select(b,p+k)))
frame=lambda a,o,b,p,f,t:z3.Implies(eqon(a,o,b,p,f,t),cnt(a,o,f,t)==cnt(b,p,f,t))
split=lambda a,o,f,m,t:z3.Implies(z3.And(f<=m,m<=t),cnt(a,o,f,t)==cnt(a,o,f,m)+cnt(a,o,m,t))
def stax():
    a=z3.Const('a!s',A); o,f,t,p,y=z3.Ints('o!s f!s t!s p!s y!s')
    return z3.ForAll([a,o,f,t,p,y],z3.Implies(z3.Or(p<o+f,p>=o+t),cnt(z3.Store(a,p,y),o,f,t)==cnt(a,o,f,t)),patterns=[cnt(z3.Store(a,p,y),o,f,t)])
ST=stax()
@base.bi(r'MCmp::operator\(\)\(long const&, long const&\) const$')
def _cmp(ex,st,ins,a,sh):
    ex.trusted.add('comparison: an arbitrary total preorder, strict or not (its answer on equivalent elements is arbitrary)')
    x,y=ex.load(st,a[1],'i64'),ex.load(st,a[2],'i64'); r=ex.fresh_const(z3.BoolSort(),'cmp')
    st.assume(z3.And(z3.Implies(rank(x)<rank(y),r),z3.Implies(rank(x)>rank(y),z3.Not(r)))); return r
def row(c,p,st=None): st=st or c.new; return c.ex.sel(st,c.ex.reg(st,'elem:i64',I),p.b)
def o(c,p): return c.ex.off(p.o)
def sorted_(r,of,f,t): i,j=z3.Ints('i!so j!so'); return z3.ForAll([i,j],z3.Implies(z3.And(of+f<=i,i<=j,j<of+t),rank(z3.Select(r,i))<=rank(z3.Select(r,j))),patterns=[z3.MultiPattern(rank(z3.Select(r,i)),rank(z3.Select(r,j)))])
def outside(r,r0,of,f,t): k=z3.Int('k!o'); return z3.ForAll([k],z3.Implies(z3.Or(k<of+f,k>=of+t),z3.Select(r,k)==z3.Select(r0,k)),patterns=[z3.Select(r,k)])
def fr(r,r0,of,f,t): g,h=z3.Ints('g!o h!o'); return z3.ForAll([g,h],z3.Implies(z3.Or(h<=f,g>=t),cnt(r,of,g,h)==cnt(r0,of,g,h)),patterns=[cnt(r,of,g,h)])
class Aux(Contract):
    mode='int'; prop=('C16',); bounds=True; names=('i','j','k','d','v','aux','from','to','cmp')
    def w(s,c): return c.a[0],c.a[4],c.a[1],c.a[2]
    def requires(s,c):
        v,u,f,t=s.w(c)
        return [('range',z3.And(0<=f,0<=t,f<2**59,t<2**59)),('two arrays',z3.And(v.b!=u.b,o(c,v)==0,o(c,u)==0,v.b>=1,u.b>=1,v.b<c.new.next,u.b<c.new.next,o(c,v)>=0,o(c,u)>=0)),
          ('room',z3.Implies(f<t,z3.And((o(c,v)+t)*8<=c.ex.blen(v.b),(o(c,u)+t)*8<=c.ex.blen(u.b)))),('same content',eqon(row(c,v),o(c,v),row(c,u),o(c,u),f,t))]
    def modifies(s,c): v,u,f,t=s.w(c); return [('row','elem:i64',v.b),('row','elem:i64',u.b)]
    def ensures(s,c):
        v,u,f,t=s.w(c); r,r0,q,q0=row(c,v),row(c,v,c.old),row(c,u),row(c,u,c.old)
        e=[('sorted',sorted_(r,o(c,v),f,t)),('permutation',cnt(r,o(c,v),f,t)==cnt(r0,o(c,v),f,t)),('rest of the array untouched',outside(r,r0,o(c,v),f,t)),('rest of the scratch array untouched',outside(q,q0,o(c,u),f,t))]
        if c.ins is not None: e+=[('lemma: counts elsewhere',fr(r,r0,o(c,v),f,t)),('lemma: counts elsewhere (scratch)',fr(q,q0,o(c,u),f,t))]
        return e
    def loopinv(s,n):
        def inv(c):
            v,u,f,t=s.w(c); i,j,d=c.v('i','i64'),c.v('j','i64'),c.v('d','i64'); kp=c.v('k','ptr'); r,q=row(c,v),row(c,u); ov,ou=o(c,v),o(c,u); k=i+j-d; r0,q0=row(c,v,c.old),row(c,u,c.old); p=z3.Int('p!m')
            h=lambda g,*hs:g if c.assuming else z3.Implies(z3.And(*hs),g)
            L=[('positions',z3.And(f<=i,i<=d,d<=j,j<=t,f<d,d<t,kp.b==v.b,o(c,kp)==ov+k)),
               ('halves hold the input',h(cnt(q,ou,f,d)+cnt(q,ou,d,t)==cnt(r0,ov,f,t),split(q0,ou,f,d,t),frame(r0,ov,q0,ou,f,t))),
               ('counts',h(cnt(r,ov,f,k)==cnt(q,ou,f,i)+cnt(q,ou,d,j),D(r,ov,f,k),D(q,ou,f,i),D(q,ou,d,j),ST)),
               ('halves sorted',z3.And(sorted_(q,ou,f,d),sorted_(q,ou,d,t))),('sorted so far',sorted_(r,ov,f,k)),
               ('neighbours',z3.And(z3.Implies(z3.And(f<i,i<d),rank(z3.Select(q,ou+i-1))<=rank(z3.Select(q,ou+i))),z3.Implies(z3.And(d<j,j<t),rank(z3.Select(q,ou+j-1))<=rank(z3.Select(q,ou+j))))),
               ('bound',z3.ForAll([p],z3.Implies(z3.And(ov+f<=p,p<ov+k),z3.And(z3.Implies(i<d,rank(z3.Select(r,p))<=rank(z3.Select(q,ou+i))),z3.Implies(j<t,rank(z3.Select(r,p))<=rank(z3.Select(q,ou+j))))),patterns=[z3.Select(r,p)])),
               ('outside',outside(r,r0,ov,f,t)),('outside scratch',outside(q,q0,ou,f,t))]
            if n>=1: L.append(('a half is exhausted',z3.Or(i==d,j==t)))
            if n==2: L.append(('left half exhausted',i==d))
            return L
        return inv if n<3 else None
K.append(Aux(r'(void )?mergeSortAux\(long\*, unsigned long, unsigned long, MCmp const&, long\*\)$'))
class Sort(Contract):
    mode='int'; prop=('C16',); bounds=True; names=('i',)
    def requires(s,c): v,n=c.a[0],c.a[1]; return [('array',z3.And(o(c,v)==0,v.b>=1,v.b<c.new.next,o(c,v)>=0,n>=0,n<2**32,(o(c,v)+n)*8<=c.ex.blen(v.b)))]
    def modifies(s,c): return [('row','elem:i64',c.a[0].b),('next',)]
    def ensures(s,c):
        v,n=c.a[0],c.a[1]; r,r0=row(c,v),row(c,v,c.old)
        return [('sorted',sorted_(r,o(c,v),z3.IntVal(0),n)),('permutation',cnt(r,o(c,v),0,n)==cnt(r0,o(c,v),0,n)),('nothing else touched',outside(r,r0,o(c,v),z3.IntVal(0),n))]
    def loopinv(s,n):
        def inv(c):
            v=c.a[0]; i=c.v('i','i32'); u=c.v('aux','ptr'); return [('copied',z3.And(i>=0,i<=c.a[1],eqon(row(c,u),o(c,u),row(c,v),o(c,v),z3.IntVal(0),i)))]
        return inv
K.append(Sort(r'(void )?mergeSort\(long\*, unsigned long, MCmp const&\)$'))
def lemma():
    a,b=z3.Consts('a b',A); o1,o2,f,t,m,p,y=z3.Ints('o1 o2 f t m p y')
    # induction on t (downwards to f)
    yield ('equal ranges have equal counts: base',[D(a,o1,f,t),D(b,o2,f,t),t<=f],frame(a,o1,b,o2,f,t))
    yield ('equal ranges have equal counts: step',[D(a,o1,f,t),D(b,o2,f,t),t>f,frame(a,o1,b,o2,f,t-1)],frame(a,o1,b,o2,f,t))
    yield ('count of a split range: base',[D(a,o1,f,t),D(a,o1,f,m),D(a,o1,m,t),t<=m],split(a,o1,f,m,t))
    yield ('count of a split range: step',[D(a,o1,f,t),D(a,o1,m,t),t>m,split(a,o1,f,m,t-1)],split(a,o1,f,m,t))
    g=z3.Implies(z3.Or(p<o1+f,p>=o1+t),cnt(z3.Store(a,p,y),o1,f,t)==cnt(a,o1,f,t))
    yield ('a write outside a range keeps its count',[frame(z3.Store(a,p,y),o1,a,o1,f,t)],g)
    g,h=z3.Ints('g h')
    yield ('counts of ranges elsewhere are kept',[outside(a,b,o1,f,t),frame(a,o1,b,o1,g,h)],z3.Implies(z3.Or(h<=f,g>=t),cnt(a,o1,g,h)==cnt(b,o1,g,h)))
LEMMAS={'C16':[('occurrence counts',lemma)]}
