"""The compilation core: comparison of objective values, best values and label paths of nodes, transitions,
merging, cut sets, incumbent updates (C01-C06).
A diagram minimises (MINI) or maximises.  The model is given by uninterpreted functions: STFD/STF (is there a
transition from a state under a label, and to which state), STC (its cost), LOCV (local bound).  Label
sequences are values built by NIL and SNOC; LB(a,n) is the sequence a[0..n)."""
import re,z3
from vcg import *
from nodes import Gr,NODE,OWN,FAq,HR,hnd,sret,me,newown,MODS,handle_ok,handles,posn,kept_
K=[]
I=z3.IntSort(); Bo=z3.BoolSort(); R=z3.RealSort(); AI=z3.ArraySort(I,I)
MINI=z3.Bool('minimising'); INTMAX=2**31-1
def better(a,b): return z3.If(MINI,a<b,a>b)
def bettereq(a,b): return z3.If(MINI,a<=b,a>=b)
BEST=z3.If(MINI,z3.RealVal(INTMAX),z3.RealVal(-INTMAX)); WORST=z3.If(MINI,z3.RealVal(-INTMAX),z3.RealVal(INTMAX))
LB=z3.Function('labels_of',AI,I,I); NIL=z3.Int('no_labels'); SNOC=z3.Function('append_label',I,I,I); OWNL=z3.Function('owner_of_labels',I,I)
STFD=z3.Function('has_transition',I,I,Bo); STF=z3.Function('transition_to',I,I,I); STC=z3.Function('cost_of',I,I,R); LOCV=z3.Function('local_bound',I,R); HASLOC=z3.Bool('has_local'); SMFD=z3.Function('mergeable',I,I,Bo); SMF=z3.Function('merge_to',I,I,I)
B=lambda v:v if z3.is_bool(v) else v!=0
LB1=z3.Function('labels_of_',AI,I,I)   # the same function as LB, named apart so that unfolding happens once
def seq_axioms():
    a,b=z3.Consts('a!s b!s',AI); n,m,k=z3.Ints('n!s m!s k!s')
    return [z3.ForAll([a,n],z3.And(LB(a,n)==LB1(a,n),z3.Implies(n==0,LB(a,n)==NIL),z3.Implies(n>0,LB(a,n)==SNOC(LB1(a,n-1),z3.Select(a,n-1)))),patterns=[LB(a,n)]),
            z3.ForAll([a,b,n,m],z3.Implies(n==m,z3.Or(LB1(a,n)==LB1(b,m),z3.Exists([k],z3.And(k>=0,k<n,z3.Select(a,k)!=z3.Select(b,k))))),patterns=[z3.MultiPattern(LB1(a,n),LB1(b,m))])]
def seq_lemma():
    a,b=z3.Consts('a b',AI); n,k=z3.Ints('n k'); ax=[LB(a,0)==NIL,LB(b,0)==NIL,LB(a,n+1)==SNOC(LB(a,n),a[n]),LB(b,n+1)==SNOC(LB(b,n),b[n])]
    same=lambda m:z3.ForAll([k],z3.Implies(z3.And(k>=0,k<m),a[k]==b[k]))
    yield ('sequences that agree are equal: base',ax[:2],LB(a,0)==LB(b,0))
    yield ('sequences that agree are equal: step',ax[2:]+[n>=0,z3.Implies(same(n),LB(a,n)==LB(b,n)),same(n+1)],LB(a,n+1)==LB(b,n+1))
class Co(Gr):
    """state of a diagram"""
    def rf(s,r,n): return s.c.ex.rget(s.st,r,R,n,z3.IntVal(0))
    def bound(s,n): return s.rf('ANode._bound',n)
    def bbound(s,n): return s.rf('ANode._bbound',n)
    def lsz(s,n): return s.f('ANode._optLabels._sz',n)
    def lmsz(s,n): return s.f('ANode._optLabels._msz',n)
    def ldat(s,n): return s.f('ANode._optLabels._data#b',n)
    def lrow(s,n): return z3.Select(s.c.ex.reg(s.st,'elem:i32',I),s.ldat(n))
    def lab(s,n): return LB(s.lrow(n),s.lsz(n))
    def val(s,n): return s.f('Node._val.id',n)
    def exact(s,n): return s.f('ANode._exact',n)
    def layer(s,n): return s.f('ANode._layer',n)
    def obj(s,e): return s.rf('Edge._obj',e)
    def lbl(s,e): return s.f('Edge._lbl',e)
    def labels_ok(s,own=OWNL,N=NODE,pt=NODE,short=True):
        n=z3.Int('n!b'); d=s.ldat(n); return ('label paths own their storage',z3.ForAll([n],z3.Implies(N(n),z3.And(n>=1,n<s.st.next,s.lsz(n)>=0,s.lsz(n)<=s.lmsz(n),s.lmsz(n)<2**31,s.lsz(n)<2**28 if short else True,d>=0,d<s.st.next,z3.Implies(s.lmsz(n)>0,z3.And(d>=1,s.c.ex.blen(d)>=4*s.lmsz(n))),z3.Implies(d>=1,own(d)==n))),patterns=[pt(n)]))
    def labs(s,o,but,N=NODE,pt=NODE):
        n=z3.Int('n!m'); return ('label paths of other nodes stay',FAq([n],z3.Implies(z3.And(N(n),z3.Not(but(n))),z3.And(s.lab(n)==o.lab(n),s.lsz(n)==o.lsz(n))),[pt(n)]))
def newownl(c,n):
    if c.ins is not None: return OWNL
    g=Co(c); d=g.ldat(n); return lambda b:z3.If(z3.And(b==d,b>=c.old.next),n,OWNL(b))
class CC(Contract):
    mode='int'; bounds=False; world='core'; prop=(); names=('nd','e','n','cur','ep','i'); hargs=('nd','n','ep','f','s','src','from','p','mNode','donor','receiver','child')
    def mkargs(s,c,args): return [P('h',v.b,v.o,('%class.handle_ptr',0,None)) if a[1] in s.hargs and a[2]=='ptr' else v for a,v in zip(c.ex.F['args'],args)]
    def axioms_(s,c): return seq_axioms()
def sense(c): return [] if c.ins is not None else [('sense of the objective',MINI if 'Minimize<' in c.ex.F['dem'] else z3.Not(MINI))]
def simple(pat,post,prop=('C01','C02','C03','C04','C05','C06'),**kw):
    class X(CC):
        def requires(s,c): return sense(c)
        def ensures(s,c): return post(c)
        def axioms_(s,c): return []
    x=X(pat); x.prop=prop; x.only=r'^(DD|AbstractDD)'
    for a,b in kw.items(): setattr(x,a,b)
    K.append(x); return x
simple(r'DD::isBetter\(double, double\) const$',lambda c:[('strictly better',B(c.ret)==better(c.a[1],c.a[2]))])
simple(r'DD::isBetterEQ\(double, double\) const$',lambda c:[('at least as good',B(c.ret)==bettereq(c.a[1],c.a[2]))])
simple(r'DD::better\(double, double\) const$',lambda c:[('the better value',c.ret==z3.If(better(c.a[1],c.a[2]),c.a[1],c.a[2]))])
simple(r'DD::initialBest\(\) const$',lambda c:[('value no solution beats the other way',c.ret==BEST)])
simple(r'DD::initialWorst\(\) const$',lambda c:[('optimistic extreme',c.ret==WORST)])

def iters(c):
    """positions of the Vec iterators (or the single index) that the loop moves"""
    w={k for (k,o) in c.ex.loopw.get(c.lid,{}).get('locs',{})}; top=c.new.frames[0].cs
    it=[k for k in w if k in c.new.L and re.search(r'Vec<.*iterator',str(c.new.lnames[k][1])) and k[0]==top and not re.match(r'(agg|ref)?\.?tmp|coerce|retval',c.new.lnames[k][0])]
    ix=[k for k in w if k in c.new.L and c.new.lnames[k][1] in('i32','i64') and k[0]==top]
    if not it and not ix: it=[k for k in c.new.L if re.search(r'Vec<.*iterator',str(c.new.lnames[k][1])) and k[0]==top and not re.match(r'(agg|ref)?\.?tmp|coerce|retval|__end',c.new.lnames[k][0])][-1:]
    if len(it)==1: return c.ex.load_local(c.new,P('l',it[0],8),'i64')
    if not it and len(ix)==1: return c.ex.load_local(c.new,P('l',ix[0],0),c.new.lnames[ix[0]][1])
    raise Unsupported('no loop position %s %s'%([(c.new.lnames[k],k[0]) for k in c.new.L if k in c.new.lnames],[c.new.lnames.get(k) for k in w]))
def trg(c,st=None): d=c.ex.rd(st or c.new,c.this,'Strategy._dd').b; return c.ex.rget(st or c.new,'AbstractDD._trg._ptr#b',I,d,z3.IntVal(0))
OKP=z3.Function('ok_path',R,I,Bo)
REACH=z3.Function('reached_with',I,R,I,Bo)
def isn(c,g,d=None):
    """the nodes of the diagram: those that the state table yields for their state"""
    d=c.ex.rd(g.st,c.this,'Strategy._dd').b if d is None else d; m=z3.Select(c.ex.reg(g.st,GM,I),d); return lambda n:z3.And(n>=1,z3.Select(m,g.val(n))==n)
class Tighten(CC):
    """the value of the node becomes the best over its incoming arcs, with the labels of an arc that attains it:
    any property of (value, labels) shared by all incoming arcs holds for the node.  Proved for any set NODE of nodes and any
    property OKP; callers instantiate them with the nodes of the diagram and with `reached at the target`"""
    def nd(s,c): return hnd(c,c.a[1])
    def start(s,c,o): n=s.nd(c); return z3.If(z3.And(o.sz('parents',n)==0,n!=trg(c,c.old)),o.bound(n),BEST)
    def OK(s,c): return OKP if c.ins is None else lambda v,l:REACH(TRGS,v,l)
    def node(s,c): return (NODE,NODE) if c.ins is None else (isn(c,Co(c,c.old)),Co(c,c.old).val)
    def arcs(s,c,o,f,hi=None):
        n=s.nd(c); i=z3.Int('i!a'); e=o.el('parents',n,i); return z3.ForAll([i],z3.Implies(z3.And(i>=0,i<(o.sz('parents',n) if hi is None else hi)),f(o.bound(o.end('children',e))+o.obj(e),SNOC(o.lab(o.end('children',e)),o.lbl(e)))),patterns=[e])
    def own(s,c,o):
        n=s.nd(c); i=z3.Int('i!h'); e=o.el('parents',n,i); f=o.end('children',e); room=[('paths shorter than 2^28',z3.ForAll([i],z3.Implies(z3.And(i>=0,i<o.sz('parents',n)),o.lsz(f)<2**28-1),patterns=[e]))] if c.ins is None else []
        return [('incoming arcs come from other nodes',z3.And(wfv(c,o,'parents',n),z3.ForAll([i],z3.Implies(z3.And(i>=0,i<o.sz('parents',n)),z3.And(e>=1,e<o.st.next,s.node(c)[0](f),f!=n)),patterns=[e])))]+room
    def requires(s,c):
        g=Co(c); N,pt=s.node(c); return [('node',z3.And(N(s.nd(c)),c.this.b>=1)),g.labels_ok(OWNL,N,pt,c.ins is None)]+s.own(c,g)+[('every incoming arc is fine',s.arcs(c,g,s.OK(c)))]
    def modifies(s,c): n=s.nd(c); return [('reg','ANode._bound'),('reg','ANode._optLabels._sz'),('reg','ANode._optLabels._msz'),('reg','ANode._optLabels._data'),('reg','elem:i32'),('next',)]
    def frame(s,c,o,g):
        n=s.nd(c); x=z3.Int('x!f'); N,pt=s.node(c); return [('values of other nodes stay',FAq([x],z3.Implies(x!=n,g.bound(x)==o.bound(x)),[g.bound(x)])),g.labs(o,lambda x:x==n,N,pt),g.labels_ok(newownl(c,n),N,pt,False)]
    def loopinv(s,k):
        def inv(c):
            o=Co(c,c.old); g=Co(c); n=s.nd(c); j=iters(c); cur=c.v('cur','double')
            return [('position',z3.And(j>=0,j<=g.sz('parents',n)))]+s.frame(c,o,g)+[('at least as good as the arcs seen',s.arcs(c,o,lambda v,l:z3.Not(better(v,cur)),j)),('never worse than at the start',z3.Not(better(s.start(c,o),cur))),
                ('start value or the value and labels of an arc',z3.Or(z3.And(cur==s.start(c,o),g.lab(n)==o.lab(n)),z3.And(better(cur,s.start(c,o)),s.OK(c)(cur,g.lab(n)))))]
        return inv if k==0 else None
    def ensures(s,c):
        o=Co(c,c.old); g=Co(c); n=s.nd(c); v=g.bound(n)
        return s.frame(c,o,g)+[('at least as good as every incoming arc',s.arcs(c,o,lambda x,l:z3.Not(better(x,v)))),('start value or the value and labels of an arc',z3.Or(z3.And(v==s.start(c,o),g.lab(n)==o.lab(n)),z3.And(better(v,s.start(c,o)),s.OK(c)(v,g.lab(n)))))]
x=Tighten(r'WidthBounded::tighten\(handle_ptr\)$'); x.prop=('C02','C04','C05'); K.append(x)
LEMMAS={p:[('label sequences',seq_lemma)] for p in ('C02','C03','C04','C05','C06')}

# ------------------------------------------------------------------ the model's functions
import base
SINK=z3.Function('is_sink',I,Bo); DOM=z3.Function('dominates',I,I,Bo); TRGS=z3.Int('target_state')
def state(ex,st,p): return ex.load(st,p,'i64')
def fp(name):
    def d(h): base.LIB.fps.append((re.compile('DD\\.'+name+'$'),h)); return h
    return d
def note(ex): ex.trusted.add("the model's functions (transition, cost, merge, sink test, dominance, local bound) are functions of the states and the label and change nothing")
def opt(ex,ins,d,v): r=ex.fresh(ins['ty'],'opt'); r.vals[0]=v; r.vals[1]=z3.If(d,z3.IntVal(1),z3.IntVal(0)); return r
@fp('_stf')
def _stf(ex,st,ins,a,p): note(ex); s=state(ex,st,a[0]); return opt(ex,ins,STFD(s,a[1]),STF(s,a[1]))
@fp('_smf')
def _smf(ex,st,ins,a,p): note(ex); s,t=state(ex,st,a[0]),state(ex,st,a[1]); return opt(ex,ins,SMFD(s,t),SMF(s,t))
@fp('_stc')
def _stc(ex,st,ins,a,p): note(ex); return STC(state(ex,st,a[0]),a[1])
@fp('_eqs')
def _eqs(ex,st,ins,a,p): note(ex); return SINK(state(ex,st,a[0]))
@fp('_sdom')
def _sdom(ex,st,ins,a,p): note(ex); return DOM(state(ex,st,a[0]),state(ex,st,a[1]))
@fp('_stt')
def _stt(ex,st,ins,a,p): note(ex); return TRGS
@base.bi(r'std::function::operator\(\)\(VST const&, LocalContext\) const$')
def _locv(ex,st,ins,a,sh): note(ex); return LOCV(state(ex,st,a[1]))
@base.bi(r'std::function::operator bool\(\) const$')
def _hasl(ex,st,ins,a,sh): return HASLOC
# the state table of a diagram as a map from states to nodes (0: none); what the table contracts of C07 say, in the client's terms
GM='ghost:state map'
def look(c,k,st=None,p=None): st=st or c.new; return z3.Select(z3.Select(c.ex.reg(st,GM,I),(p or c.this).b),k)
class MapGet(CC):
    trusted=True
    def modifies(s,c): return [('local',c.a[2],'ptr')]
    def ensures(s,c):
        k=state(c.ex,c.old,c.a[1]); m=look(c,k); f=c.ret.vals[1]; v=c.ex.load_local(c.new,c.a[2],'ptr'); v0=c.ex.load_local(c.old,c.a[2],'ptr')
        return [('found',z3.And(B(f)==(m!=0),True if z3.is_bool(f) else z3.And(f>=0,f<=1))),('node',z3.And(m>=0,m<c.new.next,c.ex.off(v.o)==0)),('result',v.b==z3.If(m!=0,m,v0.b)),('state',z3.Implies(m!=0,c.ex.rget(c.new,'Node._val.id',I,m,z3.IntVal(0))==k))]
K.append(MapGet(r'LHashtable::getLoc\(VST const&, Node\*&\) const$'))
class MapPut(CC):
    trusted=True
    def modifies(s,c): return [('row',GM,c.this.b),('next',)]
    def ensures(s,c):
        k0=c.ex.rget(c.old,'Node._val.id',I,c.a[2].b,z3.IntVal(0)); return [('associated',look(c,k0)==c.a[2].b),('others',z3.Select(c.ex.reg(c.new,GM,I),c.this.b)==z3.Store(z3.Select(c.ex.reg(c.old,GM,I),c.this.b),k0,c.a[2].b))]
K.append(MapPut(r'LHashtable::(rawInsertAt|safeInsertAt)\(LHashtable::HTAt const&, Node\*\)$'))
def same_except(g,o,r,fs,but=None):
    x=z3.Int('x!q'); return [('%s of other nodes stays'%f,FAq([x],z3.Implies(z3.And(x>=1,x!=r,x<o.st.next),getattr(g,f)(x)==getattr(o,f)(x)),[getattr(g,f)(x)])) for f in fs]
def ret_handle(c): return c.ex.load(c.new,c.a[0],'ptr').b
ddf=lambda c,f,st:c.ex.rget(st,'AbstractDD.%s._ptr#b'%f,I,me(c).b,z3.IntVal(0))
CREATE=lambda c:[('row',GM,me(c).b),('next',)]+[('reg',r) for r in ('ANode._bound','ANode._bbound','ANode._exact','ANode._next._ptr','ANode._prev._ptr')]+[('f',me(c),'AbstractDD._an._head._ptr'),('f',me(c),'AbstractDD._an._tail._ptr'),('f',me(c),'DD._ndId')]
def made(c,o,g,r,s,pex,bound=True):
    """r is the node for state s: the known one, or a new one"""
    m=look(c,s,c.old,me(c)); back=z3.And(o.sz('parents',m)==0,m!=ddf(c,'_root',c.old),m!=ddf(c,'_trg',c.old)); k=z3.Int('k!m')
    fl=[]
    for j,kk in enumerate(('children','parents')):
        d=g.dat(kk,r); fl+=[wfv(c,g,kk,r),z3.Or(d==0,d>=c.old.next)]+([z3.Implies(d>=1,OWN(d)==2*r+j)] if c.ins is not None else [])
    fl+=[z3.Or(g.dat('children',r)==0,g.dat('children',r)!=g.dat('parents',r))]+([z3.Implies(g.ldat(r)>=1,OWNL(g.ldat(r))==r)] if c.ins is not None else [])   # ghost assignment: the owner of fresh storage
    return [('a new node has lists of its own',z3.Implies(m==0,z3.And(fl))),('node of the state',z3.And(r>=1,r<c.new.next,g.val(r)==s,look(c,s,None,me(c))==r)),('other states keep their nodes',FAq([k],z3.Implies(k!=s,look(c,k,None,me(c))==look(c,k,c.old,me(c))),[look(c,k,None,me(c))])),
       ('a known state keeps its node',z3.Implies(m!=0,z3.And(r==m,g.exact(r)==z3.If(pex,o.exact(r),0),g.sz('parents',r)==o.sz('parents',r),g.sz('children',r)==o.sz('children',r),g.layer(r)==o.layer(r)))),
       ('a new state gets a new node',z3.Implies(m==0,z3.And(r>=c.old.next,g.exact(r)==z3.If(pex,1,0),g.sz('parents',r)==0,g.sz('children',r)==0,g.layer(r)==0,g.lsz(r)==0,g.lmsz(r)==0,g.ldat(r)>=0,z3.Or(g.ldat(r)==0,g.ldat(r)>=c.old.next),g.ldat(r)<c.new.next)))]+([('a new or revived node starts without value',g.bound(r)==z3.If(z3.Or(m==0,back),BEST,o.bound(r)))] if bound else [])
STAY=('bound','exact','val','layer','lsz','ldat')
def wfv(c,g,k,m): return z3.And(g.sz(k,m)>=0,g.sz(k,m)<=g.msz(k,m),g.msz(k,m)<2**31,g.dat(k,m)>=0,g.dat(k,m)<g.st.next,z3.Implies(g.msz(k,m)>0,z3.And(g.dat(k,m)>=1,c.ex.blen(g.dat(k,m))>=8*g.msz(k,m))))
def wfnode(c,g,m): return z3.Implies(m!=0,z3.And(m>=1,m<g.st.next,g.exact(m)>=0,g.exact(m)<=1,wfv(c,g,'parents',m),wfv(c,g,'children',m)))
LABELS=[('reg','ANode._optLabels.'+f) for f in ('_sz','_msz','_data')]+[('reg','elem:i32')]
class MakeNode(CC):
    prop=('C01','C03','C04','C05'); hargs=()
    def mkargs(s,c,args): return [P('h',v.b,v.o,('%struct.VST',0,None)) if a[1]=='state' else v for a,v in zip(c.ex.F['args'],args)]
    def pre(s,c): m=look(c,state(c.ex,c.old,c.a[2]),None,me(c)); return [('known node',wfnode(c,Co(c),m))]
    def requires(s,c): return sense(c)+s.pre(c)
    def modifies(s,c): return CREATE(c)
    def ensures(s,c):
        o,g=Co(c,c.old),Co(c); r=ret_handle(c); st=state(c.ex,c.old,c.a[2]); return made(c,o,g,r,st,B(c.a[3]))+same_except(g,o,r,STAY)
x=MakeNode(r'DD::makeNode\(VST&&, bool\)$'); K.append(x)
def wflab(c,g,m): d=g.ldat(m); return z3.And(g.lsz(m)>=0,g.lsz(m)<=g.lmsz(m),g.lmsz(m)<2**31,d>=0,d<g.st.next,z3.Implies(g.lmsz(m)>0,z3.And(d>=1,c.ex.blen(d)>=4*g.lmsz(m))))
def sep(g,xs): return z3.And([z3.Or(a==b,g.ldat(a)!=g.ldat(b),g.ldat(a)==0) for i,a in enumerate(xs) for b in xs[:i]])
primal=lambda c,p,st=None:c.ex.rd(st or c.new,p,'Bounds._primal')
def quiet(c,o,g): 
    x,k=z3.Ints('x!w k!w'); return [('no node changes',z3.And([FAq([x],z3.Implies(z3.And(x>=1,x<o.st.next),getattr(g,f)(x)==getattr(o,f)(x)),[getattr(g,f)(x)]) for f in STAY]+[FAq([k],look(c,k,None,me(c))==look(c,k,c.old,me(c)),[look(c,k,None,me(c))])]))]
class Transition(CC):
    """a missing child means: no such transition, or the local bound shows that it cannot improve on the primal bound"""
    prop=('C01','C03','C04','C05')
    def parts_(s,c,st): n=hnd(c,c.a[3]); g=Co(c,c.old); v=g.val(n); l=c.a[4]; return n,v,l,STF(v,l)
    def requires(s,c):
        g=Co(c); n,v,l,t=s.parts_(c,c.old); m=look(c,t,None,me(c)); return sense(c)+[('source',z3.And(n>=1,n<c.old.next,g.exact(n)>=0,g.exact(n)<=1)),('known node',wfnode(c,g,m))]
    def modifies(s,c): return CREATE(c)
    def ensures(s,c):
        o,g=Co(c,c.old),Co(c); r=ret_handle(c); n,v,l,t=s.parts_(c,c.old); cut=z3.And(HASLOC,z3.Not(better(o.bound(n)+STC(v,l)+LOCV(t),primal(c,c.a[2],c.old))))
        out=[('no child exactly when infeasible or pruned by a valid bound',(r==0)==z3.Or(z3.Not(STFD(v,l)),cut))]+[(a,z3.Implies(r==0,f)) for a,f in quiet(c,o,g)]
        return out+[(a,z3.Implies(r!=0,f)) for a,f in made(c,o,g,r,t,o.exact(n)==1)+same_except(g,o,r,STAY)]
K.append(Transition(r'DD::transition\(Bounds&, handle_ptr, int\)$'))
class Merge(CC):
    prop=('C05','C01','C06')
    def requires(s,c):
        g=Co(c); lay=lambda x:z3.And(g.layer(x)>=0,g.layer(x)<2**32); f,t=hnd(c,c.a[2]),hnd(c,c.a[3]); m=look(c,SMF(g.val(f),g.val(t)),None,me(c)); lab=z3.And([wflab(c,g,x) for x in (f,t,m)]+[sep(g,(f,t,m))])
        return sense(c)+[('nodes',z3.And([z3.And(x>=1,x<c.old.next,g.exact(x)>=0,g.exact(x)<=1,g.sz('parents',x)>0,wfnode(c,g,x),lay(x),g.lsz(x)<2**28) for x in (f,t)])),('known node',z3.And(wfnode(c,g,m),z3.Implies(m!=0,lay(m)))),('label paths own their storage',lab)]
    def modifies(s,c): return CREATE(c)+LABELS
    def ensures(s,c):
        o,g=Co(c,c.old),Co(c); r=ret_handle(c); f,t=hnd(c,c.a[2]),hnd(c,c.a[3]); u=SMF(o.val(f),o.val(t)); m=look(c,u,c.old,me(c)); mx=z3.If(o.layer(f)<o.layer(t),o.layer(t),o.layer(f))
        back=z3.And(o.sz('parents',m)==0,m!=ddf(c,'_root',c.old),m!=ddf(c,'_trg',c.old)); b0=z3.If(z3.Or(m==0,back),BEST,o.bound(m)); v=g.bound(r)
        x=z3.Int('x!y'); keep=[(a,p) for a,p in same_except(g,o,r,('bound','val','layer','lsz','ldat'))]
        mk=[p for p in made(c,o,g,r,u,z3.BoolVal(True),False) if 'keeps its node' in p[0] or 'state' in p[0]]
        return [('no merged node exactly when refused or known in an earlier layer',(r==0)==z3.Or(z3.Not(SMFD(o.val(f),o.val(t))),z3.And(m!=0,o.layer(m)<mx)))]+[(a,z3.Implies(r!=0,p)) for a,p in
            [('node of the merged state',z3.And(r>=1,g.val(r)==u,z3.Implies(m!=0,r==m),z3.Implies(m==0,r>=c.old.next),look(c,u,None,me(c))==r)),
             ('value at least as good as both',z3.And(z3.Not(better(o.bound(f),v)),z3.Not(better(o.bound(t),v)))),
             ('value of one of the nodes, with its labels',z3.Or(v==b0,z3.And(v==o.bound(f),g.lab(r)==o.lab(f),g.lsz(r)==o.lsz(f)),z3.And(v==o.bound(t),g.lab(r)==o.lab(t),g.lsz(r)==o.lsz(t)))),
             ('arcs stay',z3.Implies(m!=0,z3.And(g.sz('parents',r)==o.sz('parents',r),g.sz('children',r)==o.sz('children',r))))]+keep]+[(a,z3.Implies(r==0,p)) for a,p in quiet(c,o,g)]
K.append(Merge(r'DD::merge\(handle_ptr, handle_ptr\)$'))
def stfun(pat,post,prop,hpos,**kw):
    class X(CC):
        def requires(s,c): return sense(c)+[('node',z3.And(hnd(c,c.a[i])>=1,hnd(c,c.a[i])<c.old.next)) for i in hpos]
        def ensures(s,c): return post(c)
    x=X(pat); x.prop=prop; K.append(x)
    for a,b in kw.items(): setattr(x,a,b)
sv=lambda c,i:Co(c,c.old).val(hnd(c,c.a[i]))
stfun(r'DD::cost\(handle_ptr, int\)$',lambda c:[('cost of the transition',c.ret==STC(sv(c,1),c.a[2]))],('C02','C03','C04','C05'),(1,))
stfun(r'DD::local\(handle_ptr, LocalContext\)$',lambda c:[('local bound of the state',c.ret==z3.If(HASLOC,LOCV(sv(c,1)),WORST))],('C01',),(1,))
stfun(r'DD::eqSink\(handle_ptr\) const$',lambda c:[('sink test of the state',B(c.ret)==SINK(sv(c,1)))],('C03','C04','C05'),(1,))
stfun(r'DD::dominates\(handle_ptr, handle_ptr\)$',lambda c:[('dominance of the states',B(c.ret)==DOM(sv(c,1),sv(c,2)))],('C01','C03','C04','C05'),(1,2))
class Target(CC):
    prop=('C03','C04','C05')
    def requires(s,c): m=look(c,TRGS,None,me(c)); return sense(c)+[('known node',wfnode(c,Co(c),m))]
    def modifies(s,c): return CREATE(c)+[('f',me(c),'AbstractDD._trg._ptr')]
    def ensures(s,c): o,g=Co(c,c.old),Co(c); r=ret_handle(c); return made(c,o,g,r,TRGS,z3.BoolVal(True),False)+same_except(g,o,r,STAY)+[('recorded as the target',ddf(c,'_trg',c.new)==r)]
K.append(Target(r'DD::target\(\)$'))

# ------------------------------------------------------------------ reported solutions
# A std::vector<int> is its elements (a row of its own) and its size.
VS='ghost:vector size'
def vid(ex,p):
    if p.k=='h': return -2*p.b-3
    l=ex.__dict__.setdefault('_vidl',{}); return z3.IntVal(-4-2*l.setdefault(str(p.b),len(l)))
LOCROWS=lambda:[('row',r,z3.IntVal(-4-2*k)) for k in range(3) for r in ('elem:i32',VS)]     # vectors local to the function
def vnote(ex): ex.trusted.add('std::vector<int> (construction, clear, push_back, iteration) behaves as specified by the standard')
def vec_b(pat):
    def d(h): base.bi(pat)(h); return h
    return d
@vec_b(r'std::vector::vector\(\)$')
def _v0(ex,st,ins,a,sh): vnote(ex); ex.rset(st,VS,I,vid(ex,a[0]),z3.IntVal(0),z3.IntVal(0))
@vec_b(r'std::vector::clear\(\)$')
def _vc(ex,st,ins,a,sh): _v0(ex,st,ins,a,sh)
@vec_b(r'std::vector::~vector\(\)$')
def _vd(ex,st,ins,a,sh): pass
@vec_b(r'std::vector::push_back\(int( const&|&&)\)$')
def _vp(ex,st,ins,a,sh):
    vnote(ex); v=vid(ex,a[0]); n=ex.rget(st,VS,I,v,z3.IntVal(0)); x=ex.load(st,a[1],'i32'); ex.rset(st,'elem:i32',I,v,n,x); ex.rset(st,VS,I,v,z3.IntVal(0),n+1)
@vec_b(r'std::vector::begin\(\)( const)?$')
def _vb(ex,st,ins,a,sh): vnote(ex); return P('h',vid(ex,a[0]),z3.IntVal(0))
@vec_b(r'std::vector::end\(\)( const)?$')
def _ve(ex,st,ins,a,sh): vnote(ex); v=vid(ex,a[0]); return P('h',v,ex.rget(st,VS,I,v,z3.IntVal(0)))
@base.bi(r'std::(__cxx11::)?list::(begin|end)\(\)( const)?$|std::_List_(const_)?iterator::operator(\+\+|--)\((int)?\)$|std::_List_(const_)?iterator::operator(\*|->)\(\) const$')
def _li(ex,st,ins,a,sh): ex.trusted.add('iterating the list of solution callbacks has no effect'); return OPQ
@base.bi(r'bool std::operator(==|!=)\(std::_List_(const_)?iterator|std::operator(==|!=)\(std::_List_(const_)?iterator')
def _lq(ex,st,ins,a,sh): return ex.fresh(ins['ty'],'more')
@base.bi(r'std::function::operator\(\)\(std::vector const&\) const$')
def _cb(ex,st,ins,a,sh): ex.trusted.add('solution callbacks do not change the bounds or the diagrams'); return None
inc=lambda c,p,st=None:(lambda st,v:LB(z3.Select(c.ex.reg(st,'elem:i32',I),v),c.ex.rget(st,VS,I,v,z3.IntVal(0))))(st or c.new,vid(c.ex,p))
def vecpos(c):
    """position of the iterator over labels that the loop moves"""
    w={k for (k,o) in c.ex.loopw.get(c.lid,{}).get('locs',{})}; top=c.new.frames[0].cs
    ks=[k for k in w if k in c.new.L and k[0]==top and re.search(r'Vec<.*iterator|__normal_iterator',str(c.new.lnames[k][1])) and not re.match(r'(agg|ref)?\.?tmp|coerce|retval',c.new.lnames[k][0])]
    if not ks: return None
    if len(ks)>1: raise Unsupported('several iterators in the loop')
    k=ks[0]; t=str(c.new.lnames[k][1])
    return c.ex.load_local(c.new,P('l',k,8),'i64') if 'Vec<' in t else c.ex.off(c.ex.load_local(c.new,P('l',k,0),'ptr').o)
class SetInc(CC):
    """the incumbent becomes the given sequence of labels, and that sequence is what the callbacks get"""
    prop=('C02',)
    def mkargs(s,c,args): return args if len(args)>4 else args[:2]+[P('h',args[1].b,z3.Int('labels_end'))]
    def src(s,c): b=c.a[1].b; n=c.a[4] if len(c.a)>4 else c.ex.off(c.a[2].o); return b,n
    def requires(s,c):
        b,n=s.src(c); z=z3.And(c.a[2]==0,c.ex.off(c.a[1].o)==0,c.ex.off(c.a[3].o)==0) if len(c.a)>4 else z3.And(c.ex.off(c.a[1].o)==0,c.a[2].b==b)
        return [('range of labels',z3.And(c.this.b>=1,n>=0,n<2**28,z,b!=vid(c.ex,c.this)))]
    def given(s,c): b,n=s.src(c); return LB(z3.Select(c.ex.reg(c.old,'elem:i32',I),b),n)
    def modifies(s,c): return [('row','elem:i32',vid(c.ex,c.this)),('row',VS,vid(c.ex,c.this))]
    def loopinv(s,k):
        def inv(c):
            j=vecpos(c)
            if j is None: return [('the given labels',inc(c,c.this)==s.given(c))]
            b,n=s.src(c); v=vid(c.ex,c.this); i=z3.Int('i!v'); E=c.ex.reg(c.new,'elem:i32',I); E0=c.ex.reg(c.old,'elem:i32',I)
            return [('position',z3.And(j>=0,j<=n,c.ex.rget(c.new,VS,I,v,z3.IntVal(0))==j)),('labels so far',z3.ForAll([i],z3.Implies(z3.And(i>=0,i<j),E[v][i]==E0[b][i]),patterns=[E[v][i]]))]
        return inv
    def ensures(s,c): return [('the given labels',inc(c,c.this)==s.given(c))]
K.append(SetInc(r'void Bounds::setIncumbent\('))

PRIM=z3.Function('strategy_is_primal',I,Bo); DUAL=z3.Function('strategy_is_dual',I,Bo); SOL=z3.Function('solution_with_value',R,I,Bo)
class Abstr(CC):
    """a virtual method, as a function of the object"""
    trusted=True
    def __init__(s,pat,f): super().__init__(pat); s.f=f
    def ensures(s,c): return [('value',B(c.ret)==s.f(c.this.b))]
K.append(Abstr(r'Strategy::primal\(\) const$',PRIM)); K.append(Abstr(r'Strategy::dual\(\) const$',DUAL))
for pat,v in ((r'Restricted::primal\(\) const$',True),(r'Relaxed::dual\(\) const$',True)):
    x=simple(pat,(lambda v:lambda c:[('kind of bound',B(c.ret)==z3.BoolVal(v))])(v),('C02','C01')); x.only='.'; x.requires=lambda c:[]
strat=lambda c,st:c.ex.rget(st,'AbstractDD._strat#b',I,c.this.b,z3.IntVal(0))
def improves(c,b,st0,st1):
    """the bounds stay, or the primal bound strictly improves and the incumbent is a solution of that value"""
    p0,p1=primal(c,b,st0),primal(c,b,st1); return z3.Or(z3.And(p1==p0,inc(c,b,st1)==inc(c,b,st0)),z3.And(better(p1,p0),SOL(p1,inc(c,b,st1))))
def compiled(c,g,d,b,st):
    """what a compiled diagram offers: its target is a solution when it is primal or exact; otherwise its arcs from exact nodes to the target are"""
    ex=c.ex; t=ex.rget(st,'AbstractDD._trg._ptr#b',I,d,z3.IntVal(0)); s_=ex.rget(st,'AbstractDD._strat#b',I,d,z3.IntVal(0)); exact=ex.rget(st,'AbstractDD._exact',I,d,z3.IntVal(0)); i=z3.Int('i!t'); e=g.el('parents',t,i); f=g.end('children',e)
    lb=lambda n:z3.And(n>=1,n<st.next,wflab(c,g,n),g.lsz(n)<2**28-1)
    return [('target',z3.And(t>=1,t<st.next,wfnode(c,g,t),lb(t),g.dat('parents',t)>=1)),
            ('target of a primal or exact diagram',z3.Implies(z3.Or(PRIM(s_),z3.And(DUAL(s_),exact==1)),SOL(g.bound(t),g.lab(t)))),('flag',z3.And(exact>=0,exact<=1)),
            ('exact arcs of an inexact diagram',z3.ForAll([i],z3.Implies(z3.And(i>=0,i<g.sz('parents',t)),z3.And(e>=1,lb(f),g.exact(f)>=0,g.exact(f)<=1,z3.Implies(g.exact(f)==1,SOL(g.bound(f)+g.obj(e),SNOC(g.lab(f),g.lbl(e)))))),patterns=[e]))]
class Update(CC):
    prop=('C02','C01')
    def requires(s,c):
        g=Co(c); d=c.this.b; b=c.a[1]; t=c.ex.rget(c.new,'AbstractDD._trg._ptr#b',I,d,z3.IntVal(0)); s_=strat(c,c.new)
        return sense(c)+[('bounds',z3.And(b.b>=1,d>=1,s_>=1))]+compiled(c,g,d,b,c.new)+[('improvement',better(g.bound(t),primal(c,b)))]
    def modifies(s,c): b=c.a[1]; return [('f',b,'Bounds._primal'),('f',b,'Bounds._primalSet'),('row','elem:i32',vid(c.ex,b)),('row',VS,vid(c.ex,b))]+LOCROWS()
    def loopinv(s,k):
        def inv(c):
            b=c.a[1]; w={c.new.lnames[k_][1] for (k_,o) in c.ex.loopw.get(c.lid,{}).get('locs',{}) if k_ in c.new.lnames}; o=Co(c,c.old)
            E=c.ex.reg(c.new,'elem:i32',I); E0=c.ex.reg(c.old,'elem:i32',I)
            r=[('bounds improve',improves(c,b,c.old,c.new))]
            x=z3.Int('x!r'); r.append(('label paths stay',z3.ForAll([x],z3.Implies(x>=0,E[x]==E0[x]),patterns=[E[x]])))
            arcs=[q for q in w if 'iterator' in str(q) and 'Edge' in str(q)]
            top=c.new.frames[0].cs
            def pos(pat): 
                ks=[q for q in c.new.L if q[0]==top and re.search(pat,str(c.new.lnames[q][1])) and not re.match(r'(agg|ref)?\.?tmp|coerce|retval|__end',c.new.lnames[q][0])]
                if len(ks)!=1: raise Unsupported('loop iterator')
                return c.ex.load_local(c.new,P('l',ks[0],8),'i64')
            t=c.ex.rget(c.new,'AbstractDD._trg._ptr#b',I,c.this.b,z3.IntVal(0)); pi=pos(r'Vec<.*Edge.*iterator')
            if arcs or not any('iterator' in str(q) for q in w): return r+[('position',z3.And(pi>=0,pi<=o.sz('parents',t)))]
            j=pos(r'Vec<int.*iterator'); f=o.end('children',o.el('parents',t,pi)); sv=[q for q in c.new.L if q[0]==top and 'std::vector' in str(c.new.lnames[q][1])]
            if len(sv)!=1: raise Unsupported('solution vector')
            v=vid(c.ex,P('l',sv[0],0)); i=z3.Int('i!v')
            return r+[('position',z3.And(j>=0,j<=o.lsz(f),c.ex.rget(c.new,VS,I,v,z3.IntVal(0))==j)),('labels so far',z3.ForAll([i],z3.Implies(z3.And(i>=0,i<j),E[v][i]==E0[o.ldat(f)][i]),patterns=[E[v][i]]))]
        return inv
    def ensures(s,c): return [('a reported solution is feasible with its value and strictly improves',improves(c,c.a[1],c.old,c.new))]
K.append(Update(r'DD::update\(Bounds&\) const$'))
WORLD=[('reg','ANode.'+f) for f in ('_bound','_bbound','_exact','_layer','_next._ptr','_prev._ptr','_optLabels._sz','_optLabels._msz','_optLabels._data','_parents._sz','_parents._msz','_parents._data','_children._sz','_children._msz','_children._data')]+[('reg',r) for r in ('Node._val.id','Edge._obj','Edge._lbl','Edge._from._ptr','Edge._to._ptr','Edge._fix','Edge._tix','handle_ptr._ptr','elem:i32',GM)]+[('next',)]
class Compile(CC):
    """the call of the strategy: the compiled diagram offers what the compilation properties (C03-C05) say, and the bounds are only read"""
    trusted=True
    def modifies(s,c): return WORLD+[('f',c.this,'AbstractDD._trg._ptr'),('f',c.this,'AbstractDD._root._ptr'),('f',c.this,'AbstractDD._exact'),('f',c.this,'AbstractDD._an._head._ptr'),('f',c.this,'AbstractDD._an._tail._ptr')]
    def ensures(s,c):
        b=c.a[1]; return compiled(c,Co(c),c.this.b,b,c.new)+[('incumbent stays',inc(c,b)==inc(c,b,c.old))]
K.append(Compile(r'AbstractDD::compute\(Bounds&\)$'))
class InitFrom(CC):
    trusted=True
    def modifies(s,c): return WORLD
    def ensures(s,c): x=z3.Int('x!i'); E=c.ex.reg(c.new,'elem:i32',I); E0=c.ex.reg(c.old,'elem:i32',I); return [('vectors stay',z3.ForAll([x],z3.Implies(x<0,E[x]==E0[x]),patterns=[E[x]]))]
K.append(InitFrom(r'(AbstractDD|DD)::makeInitFrom\(handle_ptr\)$'))
class Apply(CC):
    prop=('C02','C01')
    def requires(s,c): return [('diagram and bounds',z3.And(c.this.b>=1,c.a[2].b>=1,strat(c,c.old)>=1))]
    def modifies(s,c):
        b=c.a[2]; return WORLD+[('f',b,'Bounds._primal'),('f',b,'Bounds._primalSet'),('row',VS,vid(c.ex,b)),('f',c.this,'AbstractDD._trg._ptr'),('f',c.this,'AbstractDD._root._ptr'),('f',c.this,'AbstractDD._exact'),('f',c.this,'AbstractDD._an._head._ptr'),('f',c.this,'AbstractDD._an._tail._ptr')]+LOCROWS()
    def ensures(s,c):
        b=c.a[2]; g=Co(c); t=c.ex.rget(c.new,'AbstractDD._trg._ptr#b',I,c.this.b,z3.IntVal(0)); return [('a reported solution is feasible with its value and strictly improves',improves(c,b,c.old,c.new)),('the result tells whether the value of the diagram improves',B(c.ret)==better(g.bound(t),primal(c,b,c.old)))]
K.append(Apply(r'AbstractDD::apply\(handle_ptr, Bounds&\)$'))
class Attach(CC):
    prop=('C02','C01')
    def mkargs(s,c,args): return [args[0],P('h',args[1].b,args[1].o,None)]
    def requires(s,c): return [('bounds',c.this.b>=1)]
    def modifies(s,c): return [('f',c.this,'Bounds._primal'),('f',c.this,'Bounds._primalSet')]
    def ensures(s,c):
        z=lambda st:c.ex.rd(st,c.this,'Bounds._primalSet'); return [('a bound that is set stays',z3.Implies(B(z(c.old)),primal(c,c.this)==primal(c,c.this,c.old))),('otherwise the value that every solution beats',z3.Implies(z3.Not(B(z(c.old))),primal(c,c.this)==BEST)),('set',B(z(c.new)))]
K.append(Attach(r'Bounds::attach\(std::shared_ptr\)$'))
class Incumbent(CC):
    """the label path of the target"""
    prop=('C02','C03','C04')
    def mkargs(s,c,args): return args
    def t(s,c): return c.ex.rget(c.old,'AbstractDD._trg._ptr#b',I,me(c).b,z3.IntVal(0))
    def requires(s,c): g=Co(c); t=s.t(c); return [('target',z3.And(me(c).b>=1,t>=1,t<c.old.next,wflab(c,g,t),g.lsz(t)<2**28))]
    def modifies(s,c): v=vid(c.ex,c.a[0]); return [('row','elem:i32',v),('row',VS,v)]
    def loopinv(s,k):
        def inv(c):
            o=Co(c,c.old); t=s.t(c); j=iters(c); v=vid(c.ex,c.a[0]); i=z3.Int('i!v'); E=c.ex.reg(c.new,'elem:i32',I); E0=c.ex.reg(c.old,'elem:i32',I)
            return [('position',z3.And(j>=0,j<=o.lsz(t),c.ex.rget(c.new,VS,I,v,z3.IntVal(0))==j)),('labels so far',z3.ForAll([i],z3.Implies(z3.And(i>=0,i<j),E[v][i]==E0[o.ldat(t)][i]),patterns=[E[v][i]]))]
        return inv
    def ensures(s,c): return [('the label path of the target',inc(c,c.a[0])==Co(c,c.old).lab(s.t(c)))]
K.append(Incumbent(r'AbstractDD::incumbent\(\)$'))

# ------------------------------------------------------------------ compilation of a restricted diagram: soundness
# Every node with an incoming arc (and the root) is reached with its value and labels; the nodes waiting to be expanded are such nodes and no sinks.
# REACH is any relation that holds for the root and is closed under the model's transitions, hence also the least one.
QG='ghost:queued'
def Qa(c,st=None): return z3.simplify(z3.Select(c.ex.reg(st or c.new,QG,I),z3.IntVal(0)))
class Core1(CC):
    """client views of the containers used by the compilation loops (their own contracts: C08, C10, C12)"""
    trusted=True
    def __init__(s,pat,mods=None,ens=None): super().__init__(pat); s.m=mods or (lambda c:[]); s.e=ens or (lambda c:[])
    def modifies(s,c): return s.m(c)
    def ensures(s,c): return s.e(c)
def t1(pat,mods=None,ens=None): K.append(Core1(pat,mods,ens))
QROW=lambda c:[('row',QG,z3.IntVal(0)),('next',)]
def qempty(c): n=z3.Int('n!q0'); return [('empty',z3.ForAll([n],Qa(c)[n]==0,patterns=[Qa(c)[n]]))]
t1(r'CQueue::CQueue\(int\)$',QROW,qempty)
t1(r'CQueue::enQueue\(handle_ptr const&\)$',QROW,lambda c:[('added',Qa(c)==z3.Store(Qa(c,c.old),hnd(c,c.a[1]),1))])
t1(r'CQueue::(empty\(\) const|~CQueue\(\))$'); t1(r'WidthBounded::pullLayer\(CQueue&\)$',lambda c:[('next',)]); t1(r'WidthBounded::estimate\(CQueue&\)$')
t1(r'NDArray::(begin|end)\(\)$|NDArray::iterator::operator!=\(NDArray::iterator\) const$'); t1(r'NDArray::iterator::operator\+\+\(\)$')
t1(r'NDArray::iterator::operator\*\(\) const$',None,lambda c:[('a node that was queued',Qa(c)[ret_handle(c)]==1)])
t1(r'Strategy::remainingLabels\(handle_ptr\) const$',lambda c:[('next',)]); t1(r'GNSet::(begin|end)\(\) const$|GNSet::iterator::operator(!=\(GNSet::iterator\)|\*\(\)) const$|GNSet::iterator::operator\+\+\(\)$|GNSet::~GNSet\(\)$|DD::hasDominance\(\) const$')
def live(g,root,n): return z3.Or(g.sz('parents',n)>0,n==root)
def sound(c,st=None,tg=None,queue=True):
    ex=c.ex; st=st or c.new; g=Co(c,st); d=ex.rd(st,c.this,'Strategy._dd').b; N=isn(c,g,d); f=lambda x:ex.rget(st,'AbstractDD.%s._ptr#b'%x,I,d,z3.IntVal(0)); root,t=f('_root'),f('_trg'); n,i=z3.Ints('n!d i!d'); P1=[g.val(n)]; e=g.el('parents',t,i); q=g.end('children',e); Q=Qa(c,st)
    fa=lambda b:z3.ForAll([n],z3.Implies(N(n),b),patterns=P1)
    sk,ll=z3.Ints('s!d l!d'); kk=STF(sk,ll); lk=z3.Select(z3.Select(ex.reg(st,GM,I),d),kk)
    return [('diagram',z3.And(d>=1,N(root),N(t),g.val(t)==TRGS,root!=t)),('the table holds the nodes of the states',z3.ForAll([sk,ll],z3.And(lk>=0,z3.Implies(lk!=0,g.val(lk)==kk)),patterns=[STF(sk,ll)])),('nodes are well formed',fa(z3.And(n<st.next,wfnode(c,g,n)))),
        ('lists own their storage',fa(z3.And([z3.Implies(g.dat(k,n)>=1,OWN(g.dat(k,n))==2*n+j) for j,k in enumerate(('children','parents'))]))),g.labels_ok(OWNL,N,g.val,False),
        ('connected nodes are reached with their value and labels',fa(z3.Implies(z3.And(n!=t,live(g,root,n)),REACH(g.val(n),g.bound(n),g.lab(n))))),
        ('arcs into the target are transitions from reached nodes',z3.ForAll([i],z3.Implies(z3.And(i>=0,i<g.sz('parents',t)),z3.And(e>=1,e<st.next,N(q),q!=t,live(g,root,q),STFD(g.val(q),g.lbl(e)),STF(g.val(q),g.lbl(e))==TRGS,g.obj(e)==STC(g.val(q),g.lbl(e)))),patterns=[e]))]+([
        ('queued nodes are reached and no sinks',z3.ForAll([n],z3.Implies(Q[n]==1,z3.And(N(n),live(g,root,n),z3.Not(SINK(g.val(n))))),patterns=[Q[n]]))] if queue else [])
def reach_axioms():
    s,l,p=z3.Ints('s!r l!r p!r'); v=z3.Real('v!r'); return [z3.ForAll([s,v,p,l],z3.Implies(z3.And(REACH(s,v,p),STFD(s,l)),REACH(STF(s,l),v+STC(s,l),SNOC(p,l))),patterns=[z3.MultiPattern(REACH(s,v,p),STF(s,l))]),z3.ForAll([s,v,p],z3.Implies(REACH(s,v,p),better(v,BEST)),patterns=[REACH(s,v,p)]),SINK(TRGS)]
DDF=lambda c,d:[('f',d,'AbstractDD.'+f) for f in ('_trg._ptr','_root._ptr','_exact','_an._head._ptr','_an._tail._ptr')]+[('f',d,'DD._ndId')]
class Init(CC):
    """the diagram holds just its root, reached with its value and labels"""
    trusted=True
    def modifies(s,c): return WORLD+[('f',me(c),'AbstractDD._root._ptr'),('f',me(c),'AbstractDD._trg._ptr'),('f',me(c),'AbstractDD._an._head._ptr'),('f',me(c),'AbstractDD._an._tail._ptr')]
    def ensures(s,c):
        g=Co(c); r=ret_handle(c); k=z3.Int('k!0'); L=lambda k:look(c,k,None,me(c))
        return [('root',z3.And(r>=1,r<c.new.next,wfnode(c,g,r),wflab(c,g,r),ddf(c,'_root',c.new)==r,L(g.val(r))==r,z3.Not(SINK(g.val(r))),REACH(g.val(r),g.bound(r),g.lab(r)))),('no other node',z3.ForAll([k],z3.Implies(k!=g.val(r),L(k)==0),patterns=[L(k)])),
            ('owners',z3.And([z3.Implies(g.dat(q,r)>=1,OWN(g.dat(q,r))==2*r+j) for j,q in enumerate(('children','parents'))]+[z3.Implies(g.ldat(r)>=1,OWNL(g.ldat(r))==r)]))]
K.append(Init(r'DD::init\(\)$'))
class AddArcCore(CC):
    """what AbstractDD::addArc does to the lists, without the invariant of all arcs (see C08)"""
    prop=('C02','C04')
    def fte(s,c,st): g=Co(c,st); e=hnd(c,c.a[1]); return e,g.end('children',e),g.end('parents',e)
    def mkargs(s,c,args): return [P('h',v.b,v.o,('%class.handle_ptr',0,None)) if a[1] in ('e','ep') and a[2]=='ptr' else v for a,v in zip(c.ex.F['args'],args)]
    def requires(s,c):
        g=Co(c); e,f,t=s.fte(c,c.old); r=[('arc',z3.And(e>=1,e<c.old.next,f>=1,f<c.old.next,t>=1,t<c.old.next)),('lists',z3.And(wfv(c,g,'children',f),wfv(c,g,'parents',t),wfv(c,g,'parents',f),wfv(c,g,'children',t),z3.Or(g.dat('children',f)!=g.dat('parents',t),g.dat('parents',t)==0)))]
        if c.ins is None: r+=[('room',z3.And([g.sz(k,x)<2**28 for k in ('children','parents') for x in (f,t)])),('handle outside the lists',z3.And(c.a[1].b!=g.dat('children',f),c.a[1].b!=g.dat('parents',t)))]
        return r
    def modifies(s,c): return MODS(c,('children','parents'))+[('next',)]
    def ensures(s,c):
        o,g=Co(c,c.old),Co(c); e,f,t=s.fte(c,c.old); x,i,b=z3.Ints('x!c i!c b!c'); r=[]; fresh=lambda k,n:z3.Or(g.dat(k,n)==o.dat(k,n),g.dat(k,n)>=c.old.next)
        for j,(k,n,by) in enumerate((('children',f,z3.If(f==t,2,1)),('parents',t,z3.If(f==t,0,1)))):
            r+=[('%s: one more'%k,z3.And(g.sz(k,n)==o.sz(k,n)+by,wfv(c,g,k,n),fresh(k,n),z3.Implies(f!=t,g.el(k,n,o.sz(k,n))==e))),('%s already listed stay'%k,FAq([i],z3.Implies(z3.And(i>=0,i<o.sz(k,n)),g.el(k,n,i)==o.el(k,n,i)),[g.el(k,n,i)])),
                ('%s of other nodes stay'%k,FAq([x],z3.Implies(z3.And(x>=1,x<c.old.next,x!=n),z3.And(g.sz(k,x)==o.sz(k,x),g.msz(k,x)==o.msz(k,x),g.dat(k,x)==o.dat(k,x))),[z3.MultiPattern(g.sz(k,x)),z3.MultiPattern(g.dat(k,x)),z3.MultiPattern(g.msz(k,x))]))]
            if c.ins is not None: r.append(('owner of fresh storage',z3.Implies(g.dat(k,n)>=c.old.next,OWN(g.dat(k,n))==2*n+j)))
        return r+[('fresh storage is not shared',z3.Or(g.dat('children',f)!=g.dat('parents',t),g.dat('parents',t)==0)),('storage of other lists stays',FAq([b],z3.Implies(z3.And(b>=1,b<c.old.next,b!=o.dat('children',f),b!=o.dat('parents',t)),z3.Select(g.E,b)==z3.Select(o.E,b)),[z3.Select(g.E,b)]))]
K.append(AddArcCore(r'AbstractDD::addArc\(handle_ptr\)$'))
class CheckDom(CC):
    trusted=True
    def ensures(s,c): g=Co(c); r=ret_handle(c); return [('none, or a queued node at least as good',z3.Or(r==0,z3.And(Qa(c)[r]==1,bettereq(g.bound(r),c.a[4]))))]
K.append(CheckDom(r'Restricted::checkDominance\(CQueue&, handle_ptr, double\)$'))
class Loop(CC):
    batch=True; slice=True
    def keepq(s,f): return z3.is_quantifier(f) and f.var_name(0)=='n!e'
    def pre_call(s,c,sh):
        if re.match(r'Vec::operator=\(Vec const&\)$',sh) and c.a[1].k=='h' and 'ANode' in str(c.a[1].path) : c.ex.assumed.add('label paths are shorter than 2^28'); c.new.assume(Co(c).lsz(c.a[1].b)<2**28-1)
    def ghost_call(s,c,sh):
        # ghost assignment: the owner of storage allocated by this call
        if re.match(r'Vec::(operator=|push_back)\(',sh) and c.a[0].k=='h' and 'ANode' in str(c.a[0].path): d=Co(c).ldat(c.a[0].b); c.new.assume(z3.Implies(d>=c.old.next,OWNL(d)==c.a[0].b))
class Restricted_(Loop):
    prop=('C04','C02'); parts=8
    def axioms_(s,c): return seq_axioms()+reach_axioms()
    def dd(s,c,st): return c.ex.rd(st,c.this,'Strategy._dd')
    def requires(s,c): return [('diagram',z3.And(c.this.b>=1,s.dd(c,c.old).b>=1,c.a[1].b>=1))]
    def modifies(s,c): return WORLD+DDF(c,s.dd(c,c.old))+[('row',QG,z3.IntVal(0))]
    def loopinv(s,k):
        def inv(c):
            n=z3.Int('n!e'); Q,Q0=Qa(c),Qa(c,c.entry); return sound(c)+[('queued nodes stay recorded',z3.ForAll([n],z3.Implies(Q0[n]==1,Q[n]==1),patterns=[z3.MultiPattern(Q0[n]),z3.MultiPattern(Q[n])] if z3.is_const(Q0) else [Q[n]])),('same diagram',s.dd(c,c.new).b==s.dd(c,c.old).b)]
        return inv
    def ensures(s,c): g=Co(c); t=trg(c); return [('the value of the target is that of a path of the model, with its labels, or there is none',z3.Or(g.bound(t)==BEST,REACH(TRGS,g.bound(t),g.lab(t))))]
K.append(Restricted_(r'Restricted::compute\(Bounds&\)$'))
