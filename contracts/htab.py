"""Hashtable<K,T> and LHashtable<ST>: chained hash tables with lazy clearing.
View: bucket a holds the chain nd(a,0..cl(a)-1), counted from its tail.  In a precondition nd, cl and the inverse (bk,ps)
are arbitrary functions; a postcondition states the chains of the new state as a closed form over them."""
import re,z3
from vcg import *
import base
K=[]
I=z3.IntSort(); B=z3.BoolSort()
HK=z3.Function('hash_of',I,I); EQ=z3.Function('keys_equal',I,I,B)
ND=z3.Function('chain',I,I,I); CL=z3.Function('chain_len',I,I); BK=z3.Function('bucket_of',I,I); PS=z3.Function('pos_of',I,I)
x_,y_,w_=z3.Ints('x!e y!e w!e')
EQAX=[z3.ForAll([x_],EQ(x_,x_),patterns=[EQ(x_,x_)]),z3.ForAll([x_,y_],EQ(x_,y_)==EQ(y_,x_),patterns=[EQ(x_,y_)]),
 z3.ForAll([x_,y_,w_],z3.Implies(z3.And(EQ(x_,y_),EQ(y_,w_)),EQ(x_,w_)),patterns=[z3.MultiPattern(EQ(x_,y_),EQ(y_,w_))]),
 z3.ForAll([x_,y_],z3.Implies(EQ(x_,y_),HK(x_)==HK(y_)),patterns=[EQ(x_,y_)])]
@base.bi(r'(kv|vst)_hash\((KV|VST) const&\)$')
def _h(ex,st,ins,a,sh):
    ex.trusted.add('the hash of a key is a function of the key, equal for equal keys (documented requirement; C13 for the library types)')
    h=HK(ex.load(st,a[0],'i64')); st.assume(z3.And(h>=0,h<2**64)); return h
@base.bi(r'(kv|vst)_eq\((KV|VST) const&, (KV|VST) const&\)$')
def _e(ex,st,ins,a,sh):
    ex.trusted.add('equality of keys is an equivalence relation'); return EQ(ex.load(st,a[0],'i64'),ex.load(st,a[1],'i64'))
MOD=z3.Function('urem',I,I,I)
MODAX=[z3.ForAll([x_],z3.And(HK(x_)>=0,HK(x_)<2**64),patterns=[HK(x_)]),z3.ForAll([x_,y_],z3.Implies(z3.And(x_>=0,y_>0),z3.And(MOD(x_,y_)>=0,MOD(x_,y_)<y_)),patterns=[MOD(x_,y_)])]
class T:
    """a table as seen in one state, with chains nd/cl (functions)"""
    def __init__(s,c,st=None,nd=ND,cl=CL,bk=BK,ps=PS):
        s.c=c; s.st=st=st or c.new; s.n=c.ex.C.tab; s.nd,s.cl,s.bk,s.ps=nd,cl,bk,ps; ex=c.ex; F=lambda f:ex.rd(st,c.this,s.n+'.'+f)
        s.tab=F('_tab').b; s.mgb=F('_mgc').b; s.mxs=F('_mxs'); s.magic=F('_magic'); s.nbp=F('_nbp')
        s.TB=ex.sel(st,ex.reg(st,'elem:ptr#b',I),s.tab); s.TO=ex.sel(st,ex.reg(st,'elem:ptr#o',I),s.tab); s.MG=ex.sel(st,ex.reg(st,'elem:i32',I),s.mgb)
        s.NX=ex.reg(st,s.n+'::HTNode._next#b',I)
        s.sz=24 if s.n=='Hashtable' else 16
    def fld(s,f,n):
        ex=s.c.ex; return ex.rget(s.st,f,I,n,z3.IntVal(0))
    def nxt(s,n): return s.fld(s.n+'::HTNode._next#b',n)
    def dat(s,n): return s.fld(s.n+'::HTNode._data'+('' if s.n=='Hashtable' else '#b'),n)
    def key(s,n):
        if s.n=='Hashtable': return s.fld('Hashtable::HTNode._key.id',n)
        return s.fld('Node._val.id',s.dat(n))
    def home(s,k): return MOD(HK(k),s.mxs)
    def wf(s):
        a,k,j=z3.Ints('a!t k!t j!t'); n=s.nd(a,k); ex=s.c.ex; st=s.st; P=[s.nd(a,k)] if s.nd is ND else None
        q=lambda v,f,p:z3.ForAll(v,f,patterns=p) if p else z3.ForAll(v,f)
        dom=z3.And(a>=0,a<s.mxs,k>=0,k<s.cl(a))
        return [x for x in [('sizes',z3.And(s.mxs>=2,s.mxs<2**28,s.magic>=1,s.magic<2**32,s.nbp>=0,s.tab>=1,s.tab<st.next,s.mgb>=1,s.mgb<st.next,ex.blen(s.tab)>=8*s.mxs,ex.blen(s.mgb)>=4*s.mxs,s.tab!=s.mgb)),
          ('no bucket is ahead',z3.ForAll([a],z3.Implies(z3.And(a>=0,a<s.mxs),z3.Select(s.MG,a)<=s.magic),patterns=[z3.Select(s.MG,a)])),
          ('heads',q([a],z3.Implies(z3.And(a>=0,a<s.mxs),z3.And(s.cl(a)>=0,z3.If(z3.Select(s.MG,a)==s.magic,z3.And(s.cl(a)>=1,z3.Select(s.TB,a)==s.nd(a,s.cl(a)-1),z3.Select(s.TO,a)==0),s.cl(a)==0))),[z3.Select(s.MG,a)] if P else None)),
          ('links',q([a,k],z3.Implies(dom,z3.And(n>=1,n<st.next,s.bk(n)==a,s.ps(n)==k,ex.blen(n)>=s.sz,s.nxt(n)==z3.If(k==0,0,s.nd(a,k-1)),n!=s.tab,n!=s.mgb,z3.And(s.dat(n)>=1,s.dat(n)<st.next) if s.n!='Hashtable' else True)),P)),
          ('homes',q([a,k],z3.Implies(dom,s.home(s.key(n))==a),P)),
          ('keys distinct',q([a,k,j],z3.Implies(z3.And(dom,j>=0,j<k),z3.Not(EQ(s.key(n),s.key(s.nd(a,j))))),[z3.MultiPattern(s.nd(a,k),s.nd(a,j))] if P else None))] if s.n=='Hashtable' or x[0]!='keys distinct']
    def nomatch(s,k): j=z3.Int('j!m'); A=s.home(k); return z3.ForAll([j],z3.Implies(z3.And(j>=0,j<s.cl(A)),z3.Not(EQ(s.key(s.nd(A,j)),k))),patterns=[s.nd(A,j)])
    def newer(s,A,j,k): i=z3.Int('i!n'); return z3.ForAll([i],z3.Implies(z3.And(i>j,i<s.cl(A)),z3.Not(EQ(s.key(s.nd(A,i)),k))),patterns=[s.nd(A,i)])
    def kept(s,o,f=None):
        """every association of o is there: same node, same key, same value (or the one f gives)"""
        a,k=z3.Ints('a!k k!k'); n=o.nd(a,k); return z3.ForAll([a,k],z3.Implies(z3.And(a>=0,a<o.mxs,k>=0,k<o.cl(a)),z3.And(s.key(n)==o.key(n),s.dat(n)==(f(n) if f else o.dat(n)))),patterns=[n])
def ext(c,A,on,st=None):
    """view of the new state: chain A extended by its new head when `on`"""
    o=T(c,c.old); nn=z3.Select(T(c).TB,A)
    return T(c,None,lambda a,k:z3.If(z3.And(on,a==A,k==CL(A)),nn,ND(a,k)),lambda a:z3.If(z3.And(on,a==A),CL(a)+1,CL(a)),lambda n:z3.If(z3.And(on,n==nn),A,BK(n)),lambda n:z3.If(z3.And(on,n==nn),CL(A),PS(n)))
class HC(Contract):
    mode='int'; prop=('C07',); bounds=True; names=('at','cur','head','low','up','m','i'); world='htab'; tab='Hashtable'
    flatfn=staticmethod(lambda r:not r.startswith('elem:ptr'))
    def axioms_(s,c): return EQAX+MODAX
    def mkargs(s,c,args):
        out=[]
        for a,v in zip(c.ex.F['args'],args):
            if a[1]=='key': v=P('h',v.b,v.o,('%struct.KV' if s.tab=='Hashtable' else '%struct.VST',0,None))
            out.append(v)
        return out
    def arg(s,c,n): return [v for a,v in zip(c.ex.F['args'],c.a) if a[1]==n][0]
    def argk(s,c): k=s.arg(c,'key'); return c.ex.load(c.old,k,'i64')
    def argv(s,c,st=None): return c.ex.load(st or c.old,s.arg(c,'val'),'i64')
    def argok(s,c): return ('readable arguments',z3.And([c.ex.blen(v.b)>=(16 if a[1]=='loc' else 8) for a,v in zip(c.ex.F['args'],c.a) if a[1] in('key','val','loc') and v.k=='h']+[True]))
    def scan(s,c):
        t=T(c); o=T(c,c.old); k=s.argk(c); A=o.home(k); cp=c.v('cur','ptr'); cur=cp.b; j=z3.Int('j!s')
        return [('position',z3.And(CL(A)>=0,c.ex.off(cp.o)==0,z3.Or(cur==0,z3.And(PS(cur)>=0,PS(cur)<CL(A),cur==ND(A,PS(cur)))))),
                ('no match so far',z3.ForAll([j],z3.Implies(z3.And(j>=0,j<CL(A),z3.Or(cur==0,j>PS(cur))),z3.Not(EQ(o.key(ND(A,j)),k))),patterns=[ND(A,j)]))]
    def loopinv(s,n): return s.scan
CELLS=lambda c:[('row','elem:ptr',T(c,c.old).tab),('row','elem:i32',T(c,c.old).mgb),('next',),('f',c.this,c.ex.C.tab+'._nbp')]+[('reg',c.ex.C.tab+'::HTNode.'+f) for f in ('_key.id','_data','_next')]
class Insert(HC):
    def requires(s,c): t=T(c); return t.wf()+[s.argok(c),('room',t.nbp<2**32-1)]
    def modifies(s,c): return CELLS(c)
    def ensures(s,c):
        o=T(c,c.old); k=s.argk(c); v=s.argv(c); A=o.home(k); t=T(c); on=t.nbp!=o.nbp; e=ext(c,A,on); j=z3.Int('j!x')
        return e.wf()+[('one pair per key',z3.If(on,z3.And(t.nbp==o.nbp+1,o.nomatch(k)),z3.Exists([j],z3.And(j>=0,j<CL(A),EQ(o.key(ND(A,j)),k))))),
            ('other associations kept',t.kept(o,lambda n:z3.If(EQ(o.key(n),k),v,o.dat(n)))),
            ('new association',z3.Implies(on,z3.And(t.key(e.nd(A,CL(A)))==k,t.dat(e.nd(A,CL(A)))==v)))]
K.append(Insert(r'Hashtable::insert\(KV const&, long const&\)$'))
class SafeInsert(HC):
    def requires(s,c): t=T(c); return t.wf()+[s.argok(c),('room',t.nbp<2**32-1),('not there yet',t.nomatch(s.argk(c)))]
    def modifies(s,c): return CELLS(c)
    def post(s,c,k,v):
        o=T(c,c.old); A=o.home(k); t=T(c); e=ext(c,A,z3.BoolVal(True))
        return e.wf()+[('one more pair',t.nbp==o.nbp+1),('other associations kept',t.kept(o)),('new association',z3.And(t.key(e.nd(A,CL(A)))==k,t.dat(e.nd(A,CL(A)))==v))]
    def ensures(s,c): return s.post(c,s.argk(c),s.argv(c))
K.append(SafeInsert(r'Hashtable::safeInsert\(KV const&, long const&\)$'))
class SafeInsertAt(SafeInsert):
    def requires(s,c): t=T(c); return SafeInsert.requires(s,c)+[('location of the key',c.ex.rd(c.old,s.arg(c,'loc'),'Hashtable::HTAt._at')==t.home(s.argk(c)))]
K.append(SafeInsertAt(r'Hashtable::safeInsertAt\(Hashtable::HTAt const&, KV const&, long const&\)$'))
class Get(HC):
    def requires(s,c): return T(c).wf()+[s.argok(c)]
    def modifies(s,c): return [('row','elem:i64',s.arg(c,'val').b)]
    def flag(s,c): return c.ret if z3.is_bool(c.ret) else c.ret!=0
    def ensures(s,c):
        o=T(c,c.old); k=s.argk(c); A=o.home(k); j=z3.Int('j!x'); f=s.flag(c); v=s.argv(c,c.new)
        return [('present exactly when found',z3.If(f,z3.Exists([j],z3.And(j>=0,j<CL(A),EQ(o.key(ND(A,j)),k),v==o.dat(ND(A,j)),o.newer(A,j,k))),o.nomatch(k))),('result untouched when absent',z3.Implies(z3.Not(f),v==s.argv(c)))]
K.append(Get(r'Hashtable::get\(KV const&, long&\) const$'))
class GetLoc(Get):
    def flag(s,c): r=c.ret.vals[1]; return r if z3.is_bool(r) else r!=0
    def ensures(s,c): o=T(c,c.old); return Get.ensures(s,c)+[('location of the key',c.ret.vals[0]==o.home(s.argk(c)))]
K.append(GetLoc(r'Hashtable::getLoc\(KV const&, long&\) const$'))
class Clear(HC):
    def requires(s,c): t=T(c); return t.wf()+[('clears left',t.magic<2**32-1)]
    def modifies(s,c): return [('f',c.this,s.tab+'._magic'),('f',c.this,s.tab+'._nbp')]
    def ensures(s,c): t=T(c,None,ND,lambda a:z3.IntVal(0)); return t.wf()+[('empty',t.nbp==0)]
K.append(Clear(r'Hashtable::clear\(\)$'))
class Size(HC):
    def requires(s,c): return T(c).wf()
    def ensures(s,c): return [('number of pairs',c.ret==T(c).nbp)]
K.append(Size(r'Hashtable::size\(\) const$'))
class Ctor(HC):
    memset_ty=('ptr','i32')
    def requires(s,c): return [('capacity of at least two',z3.And(c.a[2]>=2,c.a[2]<2**63))]
    def modifies(s,c): return [('f',c.this,s.tab+'.'+f) for f in ('_pool','_tab','_mgc','_mxs','_magic','_nbp')]+[('next',)]
    def ensures(s,c): t=T(c,None,ND,lambda a:z3.IntVal(0)); return t.wf()+[('empty',t.nbp==0)]
    def loopinv(s,n):
        def inv(c):
            low,up=c.v('low','i64'),c.v('up','i64'); m=[int(re.match(r'\[(\d+) x',g['ty']).group(1)) for g in c.ex.M.G.values() if '_primes' in g['dem']][0]
            return [('window',z3.And(low>=0,low<=up+1,up>=0,up<m,z3.Implies(low<1,low==0)))]
        return inv
K.append(Ctor(r'Hashtable::Hashtable\(Pool\*, unsigned long\)$'))

# ---- LHashtable: the key of a node is the state of the diagram node it refers to
class LC(HC):
    tab='LHashtable'; only=r'LHashtable<VST'
    flatfn=staticmethod(lambda r:not r.startswith('elem:ptr'))
class LAt(LC):
    def lk(s,c): return T(c,c.old).fld('Node._val.id',s.arg(c,'val').b)
    def requires(s,c): t=T(c); v=s.arg(c,'val'); k=s.lk(c); return t.wf()+[('readable arguments',c.ex.blen(s.arg(c,'loc').b)>=16),('node',z3.And(v.b>=1,v.b<c.old.next,c.ex.off(v.o)==0)),('room',t.nbp<2**32-1),('location of the key',c.ex.rd(c.old,s.arg(c,'loc'),'LHashtable::HTAt._at')==t.home(k))]
    def modifies(s,c): return [m for m in CELLS(c) if '_key' not in str(m[1:])]
    def ensures(s,c): return SafeInsert.post(s,c,s.lk(c),s.arg(c,'val').b)
K.append(LAt(r'LHashtable::(rawInsertAt|safeInsertAt)\(LHashtable::HTAt const&, Node\*\)$'))
class LGet(LC):
    def requires(s,c): return T(c).wf()+[s.argok(c),('result is not a bucket',s.arg(c,'val').b!=T(c).tab)]
    def modifies(s,c): return [('row','elem:ptr',s.arg(c,'val').b)]
    def ensures(s,c):
        o=T(c,c.old); k=s.argk(c); A=o.home(k); j=z3.Int('j!x'); f=GetLoc.flag(s,c); v=c.el('ptr',s.arg(c,'val'),z3.IntVal(0)); v0=c.el0('ptr',s.arg(c,'val'),z3.IntVal(0))
        return [('present exactly when found',z3.If(f,z3.Exists([j],z3.And(j>=0,j<CL(A),EQ(o.key(ND(A,j)),k),v==o.dat(ND(A,j)),o.newer(A,j,k))),o.nomatch(k))),('result untouched when absent',z3.Implies(z3.Not(f),v==v0)),('location of the key',c.ret.vals[0]==o.home(k))]
K.append(LGet(r'LHashtable::getLoc\(VST const&, Node\*&\) const$'))
class LClear(Clear): tab='LHashtable'
K.append(LClear(r'LHashtable::clear\(\)$'))
class LSize(Size): tab='LHashtable'
K.append(LSize(r'LHashtable::size\(\) const$'))
class LCtor(Ctor): tab='LHashtable'
K.append(LCtor(r'LHashtable::LHashtable\(Pool\*, unsigned long\)$'))
def flagconv(pat,t):
    class X(Contract):
        mode='int'; prop=('C07',); bounds=False
        def requires(s,c): f=c.ex.rd(c.new,c.this,t+'::HTAt._inc'); return [('a boolean',True if z3.is_bool(f) else z3.And(f>=0,f<=1))]
        def ensures(s,c): f=c.ex.rd(c.new,c.this,t+'::HTAt._inc'); g=(c.ret if z3.is_bool(c.ret) else c.ret!=0); return [('found flag',g==(f if z3.is_bool(f) else f!=0))]
    K.append(X(pat))
flagconv(r'LHashtable::HTAt::operator bool\(\) const$','LHashtable'); flagconv(r'Hashtable::HTAt::operator bool\(\) const$','Hashtable')
