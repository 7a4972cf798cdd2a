"""Nodes, arcs and node lists (C08).
Graph view of a state: node n lists its outgoing arcs chd(n,0..csz(n)) and its incoming arcs par(n,0..psz(n)).
OWN gives, for the storage block of a list, the list it belongs to (so that lists do not share storage)."""
import re,z3
from vcg import *
K=[]
I=z3.IntSort(); Bo=z3.BoolSort()
NODE=z3.Function('is_node',I,Bo); OWN=z3.Function('owner_of_storage',I,I)
HR='handle_ptr._ptr#b'
def FAq(v,b,pat):
    try: return z3.ForAll(v,b,patterns=pat)
    except z3.Z3Exception: return z3.ForAll(v,b)
class Gr:
    def __init__(s,c,st=None,own=OWN):
        s.c=c; s.st=st=st or c.new; s.own=own; s.E=c.ex.reg(st,HR,I)
    def f(s,r,n): return s.c.ex.rget(s.st,r,I,n,z3.IntVal(0))
    def sz(s,k,n): return s.f('ANode._%s._sz'%k,n)
    def msz(s,k,n): return s.f('ANode._%s._msz'%k,n)
    def dat(s,k,n): return s.f('ANode._%s._data#b'%k,n)
    def el(s,k,n,i): return z3.Select(z3.Select(s.E,s.dat(k,n)),i)
    def end(s,k,e): return s.f('Edge._%s._ptr#b'%('from' if k=='children' else 'to'),e)
    def ix(s,k,e): return s.f('Edge._%s'%('fix' if k=='children' else 'tix'),e)
    def other(s,k): return 'parents' if k=='children' else 'children'
    def storage(s):
        n=z3.Int('n!g'); r=[]
        for j,k in enumerate(('children','parents')):
            d=s.dat(k,n); r.append(z3.And(s.sz(k,n)>=0,s.sz(k,n)<=s.msz(k,n),s.msz(k,n)<2**31,d>=0,d<s.st.next,z3.Implies(s.msz(k,n)>0,z3.And(d>=1,s.c.ex.blen(d)>=8*s.msz(k,n))),z3.Implies(d>=1,s.own(d)==2*n+j)))
        return ('lists own their storage',z3.ForAll([n],z3.Implies(NODE(n),z3.And([n>=1,n<s.st.next]+r)),patterns=[NODE(n)]))
    def listed(s,k,name=None):
        """every arc in a list ends at that node and records its position"""
        n,i=z3.Ints('n!l i!l'); e=s.el(k,n,i); return (name or k+' lists: arcs record their position',FAq([n,i],z3.Implies(z3.And(NODE(n),i>=0,i<s.sz(k,n)),z3.And(e>=1,e<s.st.next,s.end(k,e)==n,s.ix(k,e)==i,s.end(s.other(k),e)!=n,NODE(s.end(s.other(k),e)))),[z3.MultiPattern(NODE(n),e)]))
    def cross(s,k,but=None,name=None):
        """every arc in a k-list is in the list at its other end"""
        n,i=z3.Ints('n!x i!x'); e=s.el(k,n,i); o=s.other(k); m=s.end(o,e); return (name or 'arcs in %s lists are in the list at the other end'%k,FAq([n,i],z3.Implies(z3.And(NODE(n),i>=0,i<s.sz(k,n),z3.Not(but(n,i,e)) if but else True),z3.And(s.ix(o,e)>=0,s.ix(o,e)<s.sz(o,m),s.el(o,m,s.ix(o,e))==e)),[z3.MultiPattern(NODE(n),e)]))
    def lists(s): return [s.storage(),s.listed('children'),s.listed('parents')]
    def inv(s): return s.lists()+[s.cross('children'),s.cross('parents')]
    def unlisted(s,k,e):
        n,i=z3.Ints('n!u i!u'); x=s.el(k,n,i); return FAq([n,i],z3.Implies(z3.And(NODE(n),i>=0,i<s.sz(k,n)),x!=e),[z3.MultiPattern(NODE(n),x)])
    def same(s,o,k,but=None):
        """k-lists as in o"""
        n,i=z3.Ints('n!s i!s'); return z3.And(FAq([n],z3.Implies(z3.And(NODE(n),z3.Not(but(n)) if but else True),z3.And(s.sz(k,n)==o.sz(k,n),s.dat(k,n)==o.dat(k,n))),[NODE(n)]),
            FAq([n,i],z3.Implies(z3.And(NODE(n),z3.Not(but(n)) if but else True,i>=0,i<o.sz(k,n)),s.el(k,n,i)==o.el(k,n,i)),[z3.MultiPattern(NODE(n),s.el(k,n,i))]))
def newown(c,n,keys=('children','parents')):
    """storage owners after the lists `keys` of n may have moved to fresh storage (a ghost assignment: when the postcondition is
    assumed at a call, the owner of blocks that did not exist before is still unconstrained, so OWN itself is taken to have that value)"""
    if c.ins is not None: return OWN
    g=Gr(c)
    def own(b):
        r=OWN(b)
        for m,k in ([(n,k) for k in keys] if z3.is_expr(n) else n): r=z3.If(z3.And(b==g.dat(k,m),b>=c.old.next),2*m+('children','parents').index(k),r)
        return r
    return own
class NC(Contract):
    mode='int'; prop=('C08',); bounds=False; world='nodes'; names=('e',)
    def mkargs(s,c,args): return [P('h',v.b,v.o,('%class.handle_ptr',0,None)) if a[1] in('ep','e','n') and a[2]=='ptr' else v for a,v in zip(c.ex.F['args'],args)]
def hnd(c,p,st=None): return c.ex.load(st or c.old,p,'ptr').b
MODS=lambda c,ks:[('reg','ANode._%s.%s'%(k,f)) for k in ks for f in ('_sz','_msz','_data')]+[('reg',HR)]+[('reg','Edge._fix' if k=='children' else 'Edge._tix') for k in ks]
# an arc handle lives in no list storage
def handle_ok(c,p): return ('handle outside the lists',z3.And(p.b>=1,OWN(p.b)==-1)) if p.k=='h' else ('handle outside the lists',True)
class AddArc(NC):
    def requires(s,c):
        g=Gr(c); e=hnd(c,c.a[1]); return g.lists()+[handle_ok(c,c.a[1]),('arc',z3.And(e>=1,e<c.old.next,NODE(c.this.b),NODE(g.end('children',e)),NODE(g.end('parents',e)),g.end('children',e)!=g.end('parents',e))),
            ('an end of the arc',z3.Or(g.end('children',e)==c.this.b,g.end('parents',e)==c.this.b)),('not listed yet',z3.And(z3.Implies(g.end('children',e)==c.this.b,g.unlisted('children',e)),z3.Implies(g.end('parents',e)==c.this.b,g.unlisted('parents',e)))),('room',z3.And(g.sz('children',c.this.b)<2**28,g.sz('parents',c.this.b)<2**28))]
    def modifies(s,c): return MODS(c,('children','parents'))+[('next',)]
    def ensures(s,c):
        o=Gr(c,c.old); g=Gr(c,None,newown(c,c.this.b)); e=hnd(c,c.a[1]); n=c.this.b; out=g.lists()+[handles(c)]
        for k in ('children','parents'):
            m=g.end(k,e)==n
            out+=[('appended to the %s exactly when the node is that end'%k,z3.And(g.sz(k,n)==o.sz(k,n)+z3.If(m,1,0),z3.Implies(z3.Not(m),g.dat(k,n)==o.dat(k,n)),z3.Implies(m,z3.And(g.el(k,n,o.sz(k,n))==e,g.ix(k,e)==o.sz(k,n))))),
                  ('%s already listed stay'%k,z3.And(g.same(o,k,lambda x:x==n),kept_(g,o,k,n))),('positions of other arcs (%s)'%k,posn(g,o,k,lambda x:z3.And(m,x==e)))]
        return out
def handles(c):
    b=z3.Int('b!h'); r,r0=c.ex.reg(c.new,HR,I),c.ex.reg(c.old,HR,I); return ('handles outside the lists unchanged',FAq([b],z3.Implies(z3.And(OWN(b)==-1,b>=1,b<c.old.next),z3.Select(r,b)==z3.Select(r0,b)),[z3.Select(r,b)]))
def kept_(g,o,k,n): i=z3.Int('i!k'); return FAq([i],z3.Implies(z3.And(i>=0,i<o.sz(k,n)),g.el(k,n,i)==o.el(k,n,i)),[g.el(k,n,i)])
def posn(g,o,k,but): x=z3.Int('x!p'); return FAq([x],z3.Implies(z3.Not(but(x)),g.ix(k,x)==o.ix(k,x)),[g.ix(k,x)])
x=AddArc(r'ANode::addArc\(handle_ptr\)$'); K.append(x)

class AddArcDD(NC):
    def requires(s,c):
        g=Gr(c); e=hnd(c,c.a[1]); f,t=g.end('children',e),g.end('parents',e)
        return g.inv()+[handle_ok(c,c.a[1]),('arc',z3.And(e>=1,e<c.old.next,NODE(f),NODE(t),f!=t)),('not listed yet',z3.And(g.unlisted('children',e),g.unlisted('parents',e))),('room',z3.And([g.sz(k,x)<2**28 for k in ('children','parents') for x in (f,t)]))]
    def modifies(s,c): return MODS(c,('children','parents'))+[('next',)]
    def ensures(s,c):
        o=Gr(c,c.old); e=hnd(c,c.a[1]); f,t=o.end('children',e),o.end('parents',e); g=Gr(c,None,newown(c,[(f,'children'),(t,'parents')])); out=[]
        for k,n in (('children',f),('parents',t)):
            out+=[('listed last among the %s'%k,z3.And(g.sz(k,n)==o.sz(k,n)+1,g.el(k,n,o.sz(k,n))==e,g.ix(k,e)==o.sz(k,n))),('%s already listed stay'%k,z3.And(g.same(o,k,lambda x:x==n),kept_(g,o,k,n))),('positions of other arcs (%s)'%k,posn(g,o,k,lambda x:x==e))]
        n,i=z3.Ints('n!d i!d')
        for k in ('children','parents'):
            a,b=g.el(k,n,i),o.el(k,n,i); m=g.end(k,e); dom=z3.And(NODE(n),i>=0,i<g.sz(k,n))
            out.append(('entries of %s lists'%k,FAq([n,i],z3.Implies(dom,z3.Or(z3.And(n==m,i==o.sz(k,m),a==e),z3.And(i<o.sz(k,n),a==b,a!=e))),[z3.MultiPattern(NODE(n),a)])))
            out.append(('old entries of %s lists'%k,FAq([n,i],z3.Implies(z3.And(NODE(n),i>=0,i<o.sz(k,n)),z3.And(i<g.sz(k,n),a==b,g.ix('children',b)==o.ix('children',b),g.ix('parents',b)==o.ix('parents',b))),[z3.MultiPattern(NODE(n),b)])))
        return out+g.lists()+[g.cross('children'),g.cross('parents')]
K.append(AddArcDD(r'AbstractDD::addArc\(handle_ptr\)$'))

def pos(c):
    """position of the loop: range-for iterator, or an index variable"""
    try: k=c.find('__begin')
    except Unsupported:
        w={k for (k,o) in c.ex.loopw.get(c.lid,{}).get('locs',{})}; alt=[k for k in w if k in c.new.L and c.new.lnames[k][1] in('i32','i64')]
        if len(alt)!=1: raise
        return c.ex.load_local(c.new,P('l',alt[0],0),c.new.lnames[alt[0]][1])
    return c.ex.load_local(c.new,P('l',k,8),'i64')
class Disconnect(NC):
    """the lists at the other ends lose exactly the arcs of this node"""
    def requires(s,c): return Gr(c).inv()+[('node',NODE(c.this.b))]
    def modifies(s,c): return [m for m in MODS(c,('children','parents')) if not re.search('_msz|_data',m[1])]
    def lists_kept(s,c,g,o,k,gone=None):
        """every k-list holds only arcs it held, and still holds those that do not end at this node; its storage stays"""
        n,i=z3.Ints('n!q i!q'); t=c.this.b; e=o.el(k,n,i); x=g.el(k,n,i); ok=o.other(k)
        return [('storage of %s lists stays'%k,FAq([n],z3.Implies(NODE(n),z3.And(g.sz(k,n)<=o.sz(k,n),g.dat(k,n)==o.dat(k,n))),[NODE(n)])),
          ('%s lists gain no arc'%k,FAq([n,i],z3.Implies(z3.And(NODE(n),i>=0,i<g.sz(k,n)),z3.And(o.ix(k,x)>=0,o.ix(k,x)<o.sz(k,n),o.el(k,n,o.ix(k,x))==x)),[z3.MultiPattern(NODE(n),x)])),
          ('%s not ending here stay listed'%k,FAq([n,i],z3.Implies(z3.And(NODE(n),n!=t,i>=0,i<o.sz(k,n),g.end(ok,e)!=t),z3.And(g.ix(k,e)>=0,g.ix(k,e)<g.sz(k,n),g.el(k,n,g.ix(k,e))==e)),[z3.MultiPattern(NODE(n),e)]))]
    def loopinv(s,k):
        def inv(c):
            g=Gr(c); o=Gr(c,c.entry); t=c.this.b; j=pos(c); L,O=('parents','children') if k==0 else ('children','parents')
            n,i=z3.Ints('n!v i!v'); x=g.el(O,n,i)
            r=[('position',z3.And(j>=0,j<=g.sz(L,t)))]+g.lists()+s.lists_kept(c,g,o,O)+[('%s of this node stay'%O,z3.And(g.sz(O,t)==o.sz(O,t),FAq([i],z3.Implies(z3.And(i>=0,i<o.sz(O,t)),g.el(O,t,i)==o.el(O,t,i)),[g.el(O,t,i)])))]
            r+=[g.same(o,L)] if False else [('%s lists untouched'%L,g.same(o,L))]
            r+=[g.cross(O),g.cross(L,lambda m,q,e:z3.And(m==t,q<j)),('arcs already handled are listed nowhere',FAq([n,i],z3.Implies(z3.And(NODE(n),i>=0,i<g.sz(O,n),g.end(L,x)==t),g.ix(L,x)>=j),[z3.MultiPattern(NODE(n),x)]))]
            return r
        return inv if k<2 else None
    def ensures(s,c):
        g=Gr(c); o=Gr(c,c.old); t=c.this.b; r=[('no arc left here',z3.And(g.sz('children',t)==0,g.sz('parents',t)==0))]+g.inv(); n,i=z3.Ints('n!z i!z')
        for k in ('children','parents'):
            x=g.el(k,n,i); r+=s.lists_kept(c,g,o,k)+[('no %s entry leads here'%k,FAq([n,i],z3.Implies(z3.And(NODE(n),i>=0,i<g.sz(k,n)),g.end(g.other(k),x)!=t),[z3.MultiPattern(NODE(n),x)]))]
        return r
x=Disconnect(r'ANode::disconnect\(\)$'); x.names=('e','__begin','__end','__range'); K.append(x)

# ------------------------------------------------------------------ ANList: for every sequence that the list represents before, which one it represents after
SEQ=z3.Function('list_seq',I,I); POS=z3.Function('list_pos',I,I); LEN=z3.Int('list_len')
sret=lambda c:bool(c.ins.get('sret')) if c.ins is not None else any('sret' in a[3:4] for a in c.ex.F['args'])
def me(c): return c.a[1] if sret(c) else c.a[0]
class NL:
    def __init__(s,c,st=None): s.c=c; s.st=st or c.new
    def h(s,p): return s.c.ex.rd(s.st,p,'ANList._head._ptr').b
    def t(s,p): return s.c.ex.rd(s.st,p,'ANList._tail._ptr').b
    def nx(s,n): return s.c.ex.rget(s.st,'ANode._next._ptr#b',I,n,z3.IntVal(0))
    def pv(s,n): return s.c.ex.rget(s.st,'ANode._prev._ptr#b',I,n,z3.IntVal(0))
    def rep(s,p,q=SEQ,n=LEN,pos=POS,name=''):
        i=z3.Int('i!r'); a=q(i)
        return [('list ends'+name,z3.And(n>=0,s.h(p)==z3.If(n>0,q(z3.IntVal(0)),0),s.t(p)==z3.If(n>0,q(n-1),0))),
                ('list links'+name,FAq([i],z3.Implies(z3.And(i>=0,i<n),z3.And(a>=1,a<s.st.next,pos(a)==i,s.nx(a)==z3.If(i+1<n,q(i+1),0),s.pv(a)==z3.If(i>0,q(i-1),0))),[SEQ(i)]) if q is SEQ else z3.ForAll([i],z3.Implies(z3.And(i>=0,i<n),z3.And(a>=1,a<s.st.next,pos(a)==i,s.nx(a)==z3.If(i+1<n,q(i+1),0),s.pv(a)==z3.If(i>0,q(i-1),0)))))]
    def others(s,o,ok):
        x=z3.Int('x!o'); return ('nodes of no concern keep their links',FAq([x],z3.Implies(z3.And(x>=1,ok(x)),z3.And(s.nx(x)==o.nx(x),s.pv(x)==o.pv(x))),[s.nx(x),s.pv(x)] if False else [z3.MultiPattern(s.nx(x)),z3.MultiPattern(s.pv(x))]))
inl=lambda x:z3.And(POS(x)>=0,POS(x)<LEN,SEQ(POS(x))==x)
class LC(Contract):
    mode='int'; prop=('C08',); bounds=False; names=('n','drop','pv','nx','cur','s'); no_call=True; writes='lr'; pre=staticmethod(lambda c:[])
    def mkargs(s,c,args): return [P('h',v.b,v.o,('%class.handle_ptr',0,None)) if a[1]=='n' and a[2]=='ptr' else v for a,v in zip(c.ex.F['args'],args)]
    def requires(s,c): return NL(c).rep(me(c))+[('domain',x) for x in s.pre(c)]
    def modifies(s,c): return ([('f',me(c),'ANList._head._ptr'),('f',me(c),'ANList._tail._ptr')] if 'l' in s.writes else [])+([('reg','ANode._next._ptr'),('reg','ANode._prev._ptr')] if 'r' in s.writes else [])
    def ensures(s,c): return s.post(c)
    def loopinv(s,k): return s.L.get(k)
    L={}
def lc(pat,post,**kw):
    x=LC(pat); x.post=post
    for a,b in kw.items(): setattr(x,a,b)
    K.append(x); return x
def pbpost(c):
    l=NL(c); o=NL(c,c.old); n=hnd(c,c.a[1]); return l.rep(me(c),lambda i:z3.If(i==LEN,n,SEQ(i)),LEN+1,lambda x:z3.If(x==n,LEN,POS(x)),' with the node last')+[l.others(o,lambda x:z3.And(z3.Not(inl(x)),x!=n))]
lc(r'ANList::push_back\(handle_ptr\)$',pbpost,pre=lambda c:[hnd(c,c.a[1])>=1,hnd(c,c.a[1])<c.old.next,z3.Not(inl(hnd(c,c.a[1]))),me(c).b!=hnd(c,c.a[1])])
def popp(c):
    l=NL(c); o=NL(c,c.old); n=SEQ(LEN-1); return l.rep(me(c),SEQ,LEN-1,POS,' without the last node')+[('links of the dropped node cleared',z3.And(l.nx(n)==0,l.pv(n)==0)),l.others(o,lambda x:z3.Not(inl(x)))]
lc(r'ANList::pop_back\(\)$',popp,pre=lambda c:[LEN>0])
def rmp(c):
    l=NL(c); o=NL(c,c.old); n=hnd(c,c.a[1]); q=POS(n); return l.rep(me(c),lambda i:z3.If(i<q,SEQ(i),SEQ(i+1)),LEN-1,lambda x:z3.If(POS(x)>q,POS(x)-1,POS(x)),' without the node')+[('links of the removed node cleared',z3.And(l.nx(n)==0,l.pv(n)==0)),l.others(o,lambda x:z3.Not(inl(x)))]
lc(r'ANList::remove\(handle_ptr\)$',rmp,pre=lambda c:[inl(hnd(c,c.a[1]))])
lc(r'ANList::clear\(\)$',lambda c:NL(c).rep(me(c),SEQ,z3.IntVal(0),POS,' empty'),writes='l')
lc(r'ANList::ANList\(\)$',lambda c:NL(c).rep(me(c),SEQ,z3.IntVal(0),POS,' empty'),writes='l').requires=lambda c:[]
def szinv(c):
    k=c.v('s','i64'); cur=c.ex.load_local(c.new,c.vp('cur'),'ptr').b; return [('position',z3.And(k>=0,k<=LEN,cur==z3.If(k<LEN,SEQ(k),0)))]
lc(r'ANList::size\(\) const$',lambda c:[('number of nodes',c.ret==LEN)],pre=lambda c:[LEN<2**31],writes='',L={0:szinv})
def rp(c): v=c.ex.load(c.new,c.a[0],'ptr') if sret(c) else c.ret; return v.b if isinstance(v,P) else v
lc(r'ANList::front\(\) const$',lambda c:[('first node',rp(c)==z3.If(LEN>0,SEQ(z3.IntVal(0)),0))],writes='')
lc(r'ANList::back\(\) const$',lambda c:[('last node',rp(c)==z3.If(LEN>0,SEQ(LEN-1),0))],writes='')
lc(r'ANList::begin\(\) const$',lambda c:[('starts at the first node',rp(c)==z3.If(LEN>0,SEQ(z3.IntVal(0)),0))],writes='')
lc(r'ANList::end\(\) const$',lambda c:[('past the last node',rp(c)==0)],writes='')
itd=lambda c,st:c.ex.rd(st,me(c),'ANList::iterator._data._ptr').b
x=lc(r'ANList::iterator::operator\+\+\(\)$',lambda c:[('next node',itd(c,c.new)==NL(c,c.old).nx(itd(c,c.old)))],writes=''); x.requires=lambda c:[('at a node',itd(c,c.old)>=1)]; x.modifies=lambda c:[('f',me(c),'ANList::iterator._data._ptr')]
x=lc(r'ANList::iterator::operator\*\(\) const$',lambda c:[('the node',rp(c)==itd(c,c.old))]); x.requires=lambda c:[]; x.modifies=lambda c:[]
K[-1].no_call=False; K[-2].no_call=False

# ------------------------------------------------------------------ NDArray: the non-null entries of _tab[_st.._sz), _holes of them null
CNT=z3.Function('nulls_below',I,I)
class ND:
    def __init__(s,c,p,st=None):
        s.c=c; s.p=p; s.st=st or c.new; f=lambda n:c.ex.rd(s.st,p,'NDArray.'+n); s.mx,s.sz,s.s0,s.holes=f('_mx'),f('_sz'),f('_st'),f('_holes'); s.tab=f('_tab').b; s.R=c.ex.sel(s.st,c.ex.reg(s.st,HR,I),s.tab)
    def at(s,i): return z3.Select(s.R,i)
    def cnt(s,C=CNT,name='',hi=None):
        i=z3.Int('i!n'); return ('null entries are counted'+name,z3.ForAll([i],z3.Implies(z3.And(i>=0,i<(s.sz if hi is None else hi)),C(i+1)==C(i)+z3.If(s.at(i)==0,1,0)),**({'patterns':[s.at(i)]} if C is CNT and hi is None else {})))
    def wf(s,C=CNT):
        i,j=z3.Ints('i!w j!w'); return [('array bounds',z3.And(s.s0>=0,s.s0<=s.sz,s.sz<=s.mx,s.mx>=1,s.mx<2**28,s.tab>=1,s.tab<s.st.next,s.c.ex.blen(s.tab)>=8*s.mx)),s.cnt(C),('counts grow by at most one per entry',FAq([i,j],z3.Implies(z3.And(i>=0,i<=j,j<=s.sz),z3.And(C(i)<=C(j),C(j)-C(i)<=j-i)),[z3.MultiPattern(CNT(i),CNT(j))])),('holes',s.holes==C(s.sz)-C(s.s0)),
            ('entries',FAq([i],z3.Implies(z3.And(i>=0,i<s.sz),z3.And(s.at(i)>=0,s.at(i)<s.st.next)),[s.at(i)]))]
def ndlemma(nd): return nd
class NDC(Contract):
    mode='int'; prop=('C08',); bounds=False; names=('n','p','i','from','_num'); no_call=True; flds=(); row=False; grow=False; pre=staticmethod(lambda c:[]); L={}
    def mkargs(s,c,args): return [P('h',v.b,v.o,('%class.handle_ptr',0,None)) if a[1]=='n' and a[2]=='ptr' else v for a,v in zip(c.ex.F['args'],args)]
    def arr(s,c): return me(c)
    def requires(s,c): return ND(c,s.arr(c)).wf()+[('domain',x) for x in s.pre(c)]
    def modifies(s,c): return [('f',s.arr(c),'NDArray.'+f) for f in s.flds]+([('row',HR,ND(c,s.arr(c),c.old).tab)] if s.row else [])+([('next',)] if s.grow else [])
    def ensures(s,c): return s.post(c)
    def loopinv(s,k): return s.L.get(k)
def nd(pat,post,**kw):
    x=NDC(pat); x.post=post
    for a,b in kw.items(): setattr(x,a,b)
    K.append(x); return x
def entries(a,o,but,hi,name='other entries stay'): i=z3.Int('i!e'); return (name,FAq([i],z3.Implies(z3.And(i>=0,i<hi,z3.Not(but(i))),a.at(i)==o.at(i)),[a.at(i)]))
def outside(c,p): return z3.And(p.b>=1,p.b!=ND(c,me(c)).tab) if p.k=='h' else z3.BoolVal(True)
def pushb(c,front=False):
    a,o=ND(c,me(c)),ND(c,me(c),c.old); n=hnd(c,c.a[1]); fr=o.s0>0 if front else z3.BoolVal(False); at=z3.If(fr,o.s0-1,o.sz)
    C=lambda i:z3.If(fr,CNT(i)-z3.If(z3.And(i>=o.s0,o.at(o.s0-1)==0),1,0)+z3.If(z3.And(i>=o.s0,n==0),1,0),z3.If(i<=o.sz,CNT(i),CNT(o.sz)+z3.If(n==0,1,0)))
    return [('range',z3.And(a.s0==z3.If(fr,o.s0-1,o.s0),a.sz==z3.If(fr,o.sz,o.sz+1),a.holes==o.holes)),('node added',a.at(at)==n),entries(a,o,lambda i:i==at,o.sz)]+a.wf(C)
def copyinv(c):
    o=ND(c,me(c),c.old); i=c.v('i','i64'); d=c.v('p','ptr').b; r=c.ex.sel(c.new,c.ex.reg(c.new,HR,I),d); k=z3.Int('k!c'); a=ND(c,me(c))
    return [('copied',z3.And(i>=0,i<=o.sz,FAq([k],z3.Implies(z3.And(k>=0,k<i),z3.Select(r,k)==o.at(k)),[z3.Select(r,k)])))]
def ctori(c): cur=c.phis[0]; return [('array construction position',z3.And(c.ex.off(cur.o)>=0,(c.ex.off(cur.o)+1)*8<=c.ex.blen(cur.b)))]
argok=lambda c:[hnd(c,c.a[1])>=1,hnd(c,c.a[1])<c.old.next,outside(c,c.a[1])]
nd(r'NDArray::push_back\(handle_ptr\)$',pushb,pre=lambda c:argok(c)+[ND(c,me(c)).mx<2**27],flds=('_sz','_tab','_mx'),row=True,grow=True,L={0:ctori,1:copyinv},no_call=False)
nd(r'NDArray::push_front\(handle_ptr\)$',lambda c:pushb(c,True),pre=lambda c:argok(c)+[ND(c,me(c)).mx<2**27],flds=('_sz','_tab','_mx','_st'),row=True,grow=True)
nd(r'NDArray::size\(\) const$',lambda c:[('entries in range that are not null',c.ret==ND(c,me(c)).sz-ND(c,me(c)).s0-(CNT(ND(c,me(c)).sz)-CNT(ND(c,me(c)).s0)))])
nd(r'NDArray::operator\[\]\(unsigned long\) const$',lambda c:[('entry',rp(c)==ND(c,me(c)).at(c.a[2]))],pre=lambda c:[c.a[2]>=0,c.a[2]<ND(c,me(c)).mx])
nd(r'NDArray::clear\(\)$',lambda c:ND(c,me(c)).wf()+[('empty',z3.And(ND(c,me(c)).sz==0,ND(c,me(c)).holes==0))],flds=('_sz','_st','_holes'))
def skip(var):
    def inv(c):
        o,a=ND(c,me(c),c.old),ND(c,me(c)); p=c.v(var,'i64'); i=z3.Int('i!f'); return [('skipped entries are null',z3.And(p>=o.s0,p<=o.sz,z3.ForAll([i],z3.Implies(z3.And(i>=o.s0,i<p),o.at(i)==0),patterns=[o.at(i)]))),('skipped holes',z3.And(a.holes==o.holes-(p-o.s0),CNT(p)==CNT(o.s0)+p-o.s0))]
    return inv
some=lambda c:[ND(c,me(c)).holes<ND(c,me(c)).sz-ND(c,me(c)).s0]
def first(c,o,f): i=z3.Int('i!1'); return [('first entry that is not null',z3.And(f>=o.s0,f<=o.sz,z3.Or(f==o.sz,o.at(f)!=0),z3.ForAll([i],z3.Implies(z3.And(i>=o.s0,i<f),o.at(i)==0),patterns=[o.at(i)])))]
def frontp(c): a,o=ND(c,me(c)),ND(c,me(c),c.old); return first(c,o,a.s0)+[('the first node',z3.And(a.s0<a.sz,rp(c)==o.at(a.s0),rp(c)!=0))]+a.wf()
nd(r'NDArray::front\(\)$',frontp,pre=some,flds=('_st','_holes'),L={0:skip('p')})
def popf(c):
    a,o=ND(c,me(c)),ND(c,me(c),c.old); f=a.s0-1; C=lambda i:CNT(i)+z3.If(i>f,1,0); return first(c,o,f)+[('one node less',z3.And(f<o.sz,a.sz==o.sz)),entries(a,o,lambda i:i==f,o.sz)]+a.wf(C)
nd(r'NDArray::pop_front\(\)$',popf,pre=some,flds=('_st','_holes'),row=True,L={0:skip('p')})

# iterators stop at the entries that are not null, in order
IT='NDArray::iterator.'
class NIC(NDC):
    flds=(); ctor=False
    def arr(s,c): return c.a[1] if s.ctor else c.ex.rd(c.old,me(c),IT+'_nd')
    def requires(s,c): 
        r=NDC.requires(s,c)
        if not s.ctor: a=ND(c,s.arr(c)); n,e=c.ex.rd(c.old,me(c),IT+'_num'),c.ex.rd(c.old,me(c),IT+'_end'); r+=[('at an entry',z3.And(n>=0,n<e,e<=a.sz))]
        return r
    def modifies(s,c): return [('f',me(c),IT+f) for f in (('_nd','_num','_end') if s.ctor else ('_num',) if s.moves else ())]+([('f',s.arr(c),'NDArray._holes'),('row',HR,ND(c,s.arr(c),c.old).tab)] if s.er else [])
    moves=True; er=False
    def start(s,c): return c.a[2] if s.ctor else c.ex.rd(c.old,me(c),IT+'_num')+1
    def end(s,c): return ND(c,s.arr(c),c.old).sz if s.ctor else c.ex.rd(c.old,me(c),IT+'_end')
    def loopinv(s,k):
        def inv(c):
            o=ND(c,s.arr(c),c.new); n=c.ex.rd(c.new,me(c),IT+'_num'); i=z3.Int('i!t'); return [('skipped entries are null',z3.And(n>=s.start(c),z3.Or(n<=s.end(c),n==s.start(c)),FAq([i],z3.Implies(z3.And(i>=s.start(c),i<n),o.at(i)==0),[o.at(i)])))]
        return inv if k==0 else None
    def ensures(s,c):
        o,a=ND(c,s.arr(c),c.old),ND(c,s.arr(c)); n=c.ex.rd(c.new,me(c),IT+'_num'); f=s.start(c); i=z3.Int('i!u'); r=[('next entry that is not null',z3.And(n>=f,z3.Or(n<=s.end(c),n==f),z3.Implies(n<s.end(c),o.at(n)!=0),FAq([i],z3.Implies(z3.And(i>=f,i<n,i<s.end(c)),o.at(i)==0),[o.at(i)])))]
        if s.ctor: r.append(('iterator fields',z3.And(c.ex.rd(c.new,me(c),IT+'_nd').b==c.a[1].b,c.ex.rd(c.new,me(c),IT+'_end')==a.sz)))
        if s.er:
            k=f-1; C=lambda i:CNT(i)+z3.If(i>k,1,0); r+=[('entry removed',z3.And(a.at(k)==0,a.holes==o.holes+1)),entries(a,o,lambda i:i==k,o.sz)]+a.wf(C)
        return r
x=NIC(r'NDArray::iterator::iterator\(NDArray\*, unsigned long\)$'); x.ctor=True; x.pre=lambda c:[c.a[2]>=0,c.a[2]<=ND(c,c.a[1]).sz]; K.append(x)
x=NIC(r'NDArray::iterator::operator\+\+\(\)$'); K.append(x)
x=NIC(r'NDArray::iterator::erase\(\)$'); x.er=True; x.optional=True
x.pre=lambda c:[ND(c,c.ex.rd(c.old,me(c),IT+'_nd')).at(c.ex.rd(c.old,me(c),IT+'_num'))!=0,ND(c,c.ex.rd(c.old,me(c),IT+'_nd')).s0<=c.ex.rd(c.old,me(c),IT+'_num')]; K.append(x)
def rit(c,f): return c.ex.load_local(c.new,P('l',c.a[0].b,{'_nd':0,'_num':8,'_end':16}[f]),'ptr' if f=='_nd' else 'i64')
def fld(c,p,f,st): return c.ex.load_local(st,P('l',p.b,p.o+{'_nd':0,'_num':8,'_end':16}[f]),'ptr' if f=='_nd' else 'i64') if p.k=='l' else c.ex.rd(st,p,IT+f)
def beginp(c): a,o=ND(c,me(c)),ND(c,me(c),c.old); return first(c,o,a.s0)+[('iterator at it',z3.And(rit(c,'_num')==a.s0,rit(c,'_end')==a.sz,a.sz==o.sz))]+a.wf()
nd(r'NDArray::begin\(\)$',beginp,flds=('_st','_holes'),L={0:skip('from')})
nd(r'NDArray::end\(\)$',lambda c:[('past the last entry',rit(c,'_num')==ND(c,me(c)).sz)])
class Erase(NDC):
    def it(s,c,st): return fld(c,c.a[2],'_num',st)
    def requires(s,c): a=ND(c,me(c)); n=s.it(c,c.old); return a.wf()+[('at a node of this array',z3.And(n>=a.s0,n<a.sz,a.at(n)!=0,fld(c,c.a[2],'_end',c.old)==a.sz,c.ex.peq(fld(c,c.a[2],'_nd',c.old),me(c))))]
    def modifies(s,c): return [('f',me(c),'NDArray._holes'),('row',HR,ND(c,me(c),c.old).tab)]+([('f',c.a[2],IT+'_num')] if c.a[2].k!='l' else [])
    def loopinv(s,k):
        def inv(c):
            o=ND(c,me(c),c.new); n=s.it(c,c.new); f=s.it(c,c.old)+1; i=z3.Int('i!t'); return [('skipped entries are null',z3.And(n>=f,n<=o.sz,FAq([i],z3.Implies(z3.And(i>=f,i<n),o.at(i)==0),[o.at(i)])))]
        return inv if k==0 else None
    def ensures(s,c):
        a,o=ND(c,me(c)),ND(c,me(c),c.old); k=s.it(c,c.old); n=rit(c,'_num'); i=z3.Int('i!u'); C=lambda i:CNT(i)+z3.If(i>k,1,0)
        return [('entry removed',z3.And(a.at(k)==0,a.holes==o.holes+1,a.sz==o.sz,a.s0==o.s0)),entries(a,o,lambda i:i==k,o.sz),('iterator at the next node',z3.And(n>k,n<=o.sz,z3.Implies(n<o.sz,o.at(n)!=0),FAq([i],z3.Implies(z3.And(i>k,i<n),o.at(i)==0),[o.at(i)])))]+a.wf(C)
K.append(Erase(r'NDArray::erase\(NDArray::iterator\)$'))
