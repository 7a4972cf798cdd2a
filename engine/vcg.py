"""Verification-condition generator over LLVM IR (clang -O0) of /repo's current source.

Symbolic execution, function by function: every path between cut points (function entry, loop heads, calls
to functions under contract) yields obligations that an SMT solver has to discharge.  Loops with an invariant
are cut; loops without one must unroll completely under the path condition (UnrollLimit otherwise).  Calls to
functions with a contract use the contract only; other calls execute the callee's real body.
"""
import json,re,sys,copy,time
import z3

class Unsupported(Exception): pass
class UnrollLimit(Unsupported): pass
class Restart(Exception): pass

# ---------------------------------------------------------------- module
def strip_tpl(n):
    for a,b in (('operator<=>','operator_cmp'),('operator<<','operator_shl'),('operator<=','operator_le'),('operator<','operator_lt'),('operator>>','operator_shr'),('operator>=','operator_ge'),('operator->','operator_arrow'),('operator>','operator_gt'),('->','_arrow_')): n=n.replace(a,b)
    out='';d=0
    for c in n:
        if c=='<': d+=1
        elif c=='>': d-=1
        elif d==0: out+=c
    return out
def norm_name(n):
    n=strip_tpl(n.replace('(anonymous namespace)','')).strip()
    return re.sub(r'\.\d+$','',n)
class Module:
    def __init__(self,jpath,lpath):
        m=json.load(open(jpath)); self.F=m['functions'];self.D=m['decls'];self.G=m['globals'];self.S=m['structs']
        self.bydem={}
        for k,f in self.F.items(): f['name']=k; self.bydem.setdefault(f['dem'],k)
        for f in self.F.values():
            f['hdr']={L['h']:i for i,L in enumerate(f['loops'])}
            for L in f['loops']: L['set']=set(L['blocks'])
        self.lay=self._layouts(lpath); self._leafc={};self._flat={}
    def _layouts(self,lpath):
        lay={};cur=None
        for ln in open(lpath,errors='replace'):
            if '|' not in ln or not ln[:10].strip().replace(':','').replace('-','').isdigit() and cur is None: 
                if ln.startswith('*** Dumping AST'): cur='new'
                elif ln.startswith('*** Dumping IRgen'): cur=None
                continue
            if ln.startswith('*** Dumping'): cur='new' if 'AST' in ln else None; continue
            if cur is None: continue
            pre,post=ln.split('|',1)
            if cur=='new':
                nm=re.sub(r'^\s*(class|struct|union) ','',post.rstrip('\n')).strip()
                nm=re.sub(r' \(empty\)$','',nm); simple=norm_name(nm)
                cur={'name':nm,'fields':[],'size':None}; lay.setdefault(simple,[]).append(cur); continue
            if 'sizeof=' in post: 
                mm=re.search(r'sizeof=(\d+)',post); cur['size']=int(mm.group(1)); continue
            if 'nvsize=' in post: cur=None; continue
            ind=len(post)-len(post.lstrip(' ')); t=post.strip()
            off=pre.strip()
            if not off: continue
            bits=None
            if ':' in off:
                o,b=off.split(':'); off=int(o); lo,hi=b.split('-'); bits=(int(lo),int(hi)-int(lo)+1)
            else: off=int(off)
            cur['fields'].append((ind,off,bits,t))
        return lay
    def sname(self,ty):
        n=ty[1:]; n=re.sub(r'^(class|struct|union)\.','',n); n=re.sub(r'\.\d+$','',n); n=re.sub(r'\.base$','',n)
        return norm_name(n)
    def topfields(self,ty):
        """[(offset,bits,name,isbase)] of the C++ class behind an LLVM struct type"""
        st=self.S[ty]; simple=self.sname(ty)
        best=None
        offs={e[1] for e in st['el']}
        for c in self.lay.get(simple,[]):
            f=[(o,b,t) for (i,o,b,t) in c['fields'] if i==3]
            if not f: continue
            sc=(c['size']==st['size'])*1000+sum(1 for x in f if x[0] in offs)
            if best is None or sc>best[0]: best=(sc,f,c)
        if best is None: return []
        res=[]
        for o,b,t in best[1]:
            isb='(base)' in t or '(primary base)' in t
            if t.startswith('(') and 'vtable' in t: nm='__vptr'
            elif isb: nm=re.sub(r' \((primary )?base\).*','',t)
            else: nm=t.split(' ')[-1] if not t.endswith(')') else re.sub(r' \(empty\)','',t).split(' ')[-1]
            res.append((o,b,nm,isb))
        return res
    def size(self,ty):
        if ty in self.S: return self.S[ty]['size']
        m=re.match(r'^\[(\d+) x (.*)\]$',ty)
        if m: return int(m.group(1))*self.size(m.group(2))
        if ty=='ptr' or ty=='double': return 8
        if ty=='float': return 4
        m=re.match(r'^i(\d+)$',ty)
        if m: return max(1,(int(m.group(1))+7)//8)
        if ty.startswith('{') or ty.startswith('<'):
            e=self.anon(ty); return e[-1][1]+self.size(e[-1][0]) if e else 0
        raise Unsupported('size of '+ty)
    def anon(self,ty):
        s=ty.strip()[1:-1]; parts=[];d=0;cur=''
        for c in s:
            if c in '{[<(': d+=1
            if c in '}]>)': d-=1
            if c==',' and d==0: parts.append(cur.strip());cur=''
            else: cur+=c
        if cur.strip(): parts.append(cur.strip())
        off=0;res=[]
        for p in parts:
            a=min(8,self.align(p)); off=(off+a-1)//a*a; res.append((p,off)); off+=self.size(p)
        return res
    def align(self,ty):
        if ty in self.S: return max([1]+[self.align(e[0]) for e in self.S[ty]['el']])
        m=re.match(r'^\[(\d+) x (.*)\]$',ty)
        if m: return self.align(m.group(2))
        if ty.startswith('{'): return max([1]+[self.align(p) for p,_ in self.anon(ty)])
        return self.size(ty)
    def elems(self,ty):
        if ty in self.S: return [(e[0],e[1]) for e in self.S[ty]['el']]
        m=re.match(r'^\[(\d+) x (.*)\]$',ty)
        if m: n=int(m.group(1)); s=self.size(m.group(2)); return [(m.group(2),k*s) for k in range(n)]
        if ty.startswith('{'): return self.anon(ty)
        return None
    def flat(self,ty):
        """scalar leaves [(offset,type)]"""
        if ty in self._flat: return self._flat[ty]
        e=self.elems(ty)
        if e is None: r=[(0,ty)]
        elif len(e)>300: raise Unsupported('large aggregate '+ty)
        else: r=[(o+o2,t2) for t,o in e if not (ty in self.S and re.match(r'^\[[1-7] x i8\]$',t)) for o2,t2 in self.flat(t)]
        self._flat[ty]=r; return r
    def leaf(self,ty,off):
        """resolve byte offset in struct type -> (region name, root adjust ok, array elem (type,index) or None, bitfields)"""
        k=(ty,off)
        if k in self._leafc: return self._leafc[k]
        r=self._leaf(ty,off); self._leafc[k]=r; return r
    def _leaf(self,ty,off):
        if ty not in self.S: raise Unsupported('leaf in '+ty)
        st=self.S[ty]; tf=self.topfields(ty)
        el=None
        for i,e in enumerate(st['el']):
            if e[1]<=off<e[1]+max(e[2],1): el=(i,e)
        if el is None: raise Unsupported('leaf %s+%d'%(ty,off))
        i,(ety,eoff,esz)=el
        names=[x for x in tf if x[0]==eoff]
        isb=any(x[3] for x in names)
        cls=self.sname(ty)
        if isb and eoff==0 and ety in self.S and self.sname(ety)!=cls: return self._leaf(ety,off)
        bfs=[(x[1],x[2]) for x in tf if x[1] and x[0]//4*4==eoff//4*4 and x[0]>=eoff and x[0]<eoff+esz]
        bfs=[((lo+(x0-eoff)*8,w),nm) for (x0,b,nm,_) in tf if b and eoff<=x0<eoff+esz for (lo,w) in [b]]
        if bfs: return ('bits',[(cls+'.'+nm,lo,w) for (lo,w),nm in bfs])
        nm=names[-1][2] if names else 'f%d'%i
        if cls.startswith('anon'): nm='f%d'%i
        name=cls+'.'+nm
        rel=off-eoff
        while True:
            m=re.match(r'^\[(\d+) x (.*)\]$',ety)
            if m:
                es=self.size(m.group(2)); 
                if m.group(2) in self.S: raise Unsupported('array of struct inside '+name)
                return ('arr',name,m.group(2),rel//es,int(m.group(1)))
            if ety in self.S:
                sub=self._leaf(ety,rel)
                if sub[0]=='f': return ('f',name+'.'+sub[1].split('.',1)[1])
                if sub[0]=='arr': return ('arr',name+'.'+sub[1].split('.',1)[1])+sub[2:]
                if sub[0]=='bits': return ('bits',[(name+'.'+n.split('.',1)[1],lo,w) for n,lo,w in sub[1]])
            return ('f',name)

# ---------------------------------------------------------------- values
class P:
    """pointer. k='h': heap (b base id, o element offset, path=(struct type,byte offset,inline index)|None)
       k='l': local (key,byte off, idx=(term,stride)|None)  k='g': global (name,off,idx)  k='fn': function"""
    __slots__=('k','b','o','path','org')
    def __init__(s,k,b,o=0,path=None,org=None): s.k=k;s.b=b;s.o=o;s.path=path;s.org=org
    def __repr__(s): return 'P(%s,%s,%s,%s)'%(s.k,s.b,s.o,s.path)
class Packed:
    def __init__(s,leaves): s.leaves=leaves      # [(off,ty,val)]
class Bits:
    def __init__(s,f): s.f=f                      # [(lo,w,term)]
class Agg:
    def __init__(s,vals): s.vals=vals             # {index-tuple:val}
class PDiff:
    def __init__(s,a,b): s.a=a;s.b=b
class PInt:
    def __init__(s,p): s.p=p
class Opaque: 
    def __repr__(s): return 'OPQ'
OPQ=Opaque()
def isz(x): return isinstance(x,z3.ExprRef)

class Frame:
    __slots__=('fn','regs','blk','prev','ip','cs','loops','cnt','args','callins')
    def __init__(s,fn,cs): s.fn=fn;s.regs={};s.blk=0;s.prev=None;s.ip=0;s.cs=cs;s.loops=[];s.cnt={};s.args=None;s.callins=None
    def copy(s):
        f=Frame(s.fn,s.cs); f.regs=dict(s.regs);f.blk=s.blk;f.prev=s.prev;f.ip=s.ip;f.loops=list(s.loops);f.cnt=dict(s.cnt);f.args=s.args;f.callins=s.callins;return f

class State:
    def __init__(s,ex): s.ex=ex;s.R={};s.L={};s.pc=[];s.frames=[];s.next=None;s.ghost={};s.trail=[];s.lnames={};s.pend={}
    def copy(s):
        n=State(s.ex); n.R=dict(s.R); n.pend=dict(s.pend); n.L={k:dict(v) for k,v in s.L.items()}; n.pc=list(s.pc); n.frames=[f.copy() for f in s.frames]; n.next=s.next; n.ghost=dict(s.ghost); n.trail=list(s.trail); n.lnames=s.lnames; return n
    def assume(s,f):
        if isinstance(f,bool):
            if f: return
            f=z3.BoolVal(False)
        if z3.is_true(f): return
        if z3.is_and(f):
            for x in f.children(): s.assume(x)
            return
        if z3.is_quantifier(f):
            k=f.get_id()
            if any(x.get_id()==k for x in s.pc if z3.is_quantifier(x)): return
        s.pc.append(f)

class Obl:
    __slots__=('fn','name','hyps','goal','line','file','kind','status','time','backend','model','reason','trail')
    def __init__(s,fn,name,hyps,goal,line,file,kind='assert',trail=()):
        s.fn=fn;s.name=name;s.hyps=hyps;s.goal=goal;s.line=line;s.file=file;s.kind=kind;s.status=None;s.time=0;s.backend='';s.model=None;s.reason='';s.trail=trail

def has_quant(f,_c={}):
    k=f.get_id()
    if k in _c: return _c[k][1]
    r=z3.is_quantifier(f) or any(has_quant(c) for c in f.children())
    _c[k]=(f,r); return r

class Exec:
    """executes one function of the module under its contract and collects obligations"""
    def __init__(self,M,lib,contract,fname,opts=None):
        self.M=M;self.lib=lib;self.C=contract;self.F=M.F[fname];self.fname=fname;self.mode=contract.mode
        self.obls=[];self.n=0;self.loopw={};self.looplid={};self.looporder=[];self.covers=0;self.bounds=getattr(contract,'bounds',False)
        self.unroll=contract.unroll or 40; self.inlined=set();self.used=set();self.trusted=set();self.assumed=set();self.paths=0
        self.t0=time.time(); self.budget=getattr(contract,'budget',120)
        self.flat=getattr(contract,'flatfn',None) or (lambda r: True)
    # ---- sorts
    def osort(self): return z3.IntSort() if self.mode=='int' else z3.BitVecSort(64)
    def oval(self,v): return z3.IntVal(v) if self.mode=='int' else z3.BitVecVal(v,64)
    def isort(self,w):
        if w==1: return z3.BoolSort()
        return z3.IntSort() if self.mode=='int' else z3.BitVecSort(w)
    def ival(self,v,w):
        if w==1: return z3.BoolVal(bool(v&1))
        return z3.IntVal(v) if self.mode=='int' else z3.BitVecVal(v,w)
    def sort(self,ty):
        if ty=='double' or ty=='float': return z3.RealSort()
        m=re.match(r'^i(\d+)$',ty)
        if m: return self.isort(int(m.group(1)))
        raise Unsupported('sort '+ty)
    def width(self,ty): return int(ty[1:])
    def fresh(self,ty,hint='v'):
        self.n+=1; nm='%s!%d'%(hint,self.n)
        if ty=='ptr':
            b=z3.Int(nm+'.b'); return P('h',b,self.oval(0))
        if ty=='void': return None
        if ty in self.M.S or ty[0] in '{[':
            e=self.M.elems(ty); v={}
            for i,(t,o) in enumerate(e): v[i]=self.fresh(t,hint)
            return Agg(v)
        t=z3.Const(nm,self.sort(ty)); return t
    def fresh_const(self,sort,hint='k'):
        self.n+=1; return z3.Const('%s!%d'%(hint,self.n),sort)
    # ---- regions
    def rsort(self,vs,arr=False):
        if arr: vs=z3.ArraySort(self.osort(),vs)
        return z3.ArraySort(z3.IntSort(),z3.ArraySort(self.osort(),vs))
    def reg(self,st,name,vs,arr=False):
        k=name
        if k not in st.R:
            r=z3.Const(name+'!0',self.rsort(vs,arr)); self.regsorts[k]=(vs,arr)
            for kind,b,i in st.pend.get(k,()):      # effects of calls made before this region was first looked at
                if kind=='row': r=z3.Store(r,b,z3.Const('hmp!%s!%d'%(name,i),z3.Select(r,b).sort()))
                else: r=z3.Const('hmp!%s!%d'%(name,i),r.sort())
            st.R[k]=r
        return st.R[k]
    def neq(self,st,a,b):
        na=a.decl().name() if z3.is_const(a) else None; nb=b.decl().name() if z3.is_const(b) else None
        if z3.is_int_value(a) and z3.is_int_value(b): return a.as_long()!=b.as_long()
        for x,y in ((na,nb),(nb,na)):
            if x and x.startswith('new!') and y and (y.startswith('arg_') or (y.startswith('new!') and x!=y)): return True
        k=len(st.pc)
        c=getattr(st,'_neq',None)
        if c is None or c[0]!=k:
            n0,S=(0,set()) if c is None or c[0]>k else (c[0],set(c[1]))
            for f in st.pc[n0:]: self.collect_neq(f,S)
            st._neq=c=(k,S)
        return (a.get_id(),b.get_id()) in c[1]
    def collect_neq(self,f,S):
        if z3.is_and(f):
            for x in f.children(): self.collect_neq(x,S)
        else:
            e=None
            if z3.is_not(f) and z3.is_eq(f.arg(0)): e=f.arg(0)
            elif z3.is_distinct(f) and f.num_args()==2: e=f
            if e is not None: S.add((e.arg(0).get_id(),e.arg(1).get_id())); S.add((e.arg(1).get_id(),e.arg(0).get_id())); self._keep.append(e)
    _keep=[]
    def sel(self,st,r,b):
        while z3.is_app(r) and r.decl().kind()==z3.Z3_OP_STORE:
            k=r.arg(1)
            if k.eq(b): return r.arg(2)
            if not self.neq(st,k,b): break
            r=r.arg(0)
        return z3.Select(r,b)
    def sel1(self,r,o):
        while z3.is_app(r) and r.decl().kind()==z3.Z3_OP_STORE:
            k=r.arg(1)
            if k.eq(o): return r.arg(2)
            if not ((z3.is_int_value(k) and z3.is_int_value(o)) or (z3.is_bv_value(k) and z3.is_bv_value(o))): break
            r=r.arg(0)
        return z3.Select(r,o)
    def rget(self,st,name,vs,b,o):
        return self.sel1(self.sel(st,self.reg(st,name,vs),b),o)
    def rset(self,st,name,vs,b,o,v):
        r=self.reg(st,name,vs); self.logw(st,name,b,o)
        st.R[name]=z3.Store(r,b,z3.Store(self.sel(st,r,b),o,v))
    def aget(self,st,name,vs,b,o,i):
        return self.sel1(self.sel1(self.sel(st,self.reg(st,name,vs,True),b),o),i)
    def aset(self,st,name,vs,b,o,i,v):
        r=self.reg(st,name,vs,True); self.logw(st,name,b,o); row=self.sel(st,r,b); a=self.sel1(row,o)
        st.R[name]=z3.Store(r,b,z3.Store(row,o,z3.Store(a,i,v)))
    def hload(self,st,name,ty,b,o,idx=None):
        if ty=='ptr':
            vs=z3.IntSort()
            pb=self.aget(st,name+'#b',vs,b,o,idx) if idx is not None else self.rget(st,name+'#b',vs,b,o)
            if self.flat(name): po=self.oval(0)
            else: po=self.aget(st,name+'#o',self.osort(),b,o,idx) if idx is not None else self.rget(st,name+'#o',self.osort(),b,o)
            st.assume(z3.And(pb>=0,pb<st.next))
            return P('h',pb,po,org=name)
        vs=self.sort(ty)
        return self.aget(st,name,vs,b,o,idx) if idx is not None else self.rget(st,name,vs,b,o)
    def hstore(self,st,name,ty,b,o,v,idx=None):
        if ty=='ptr':
            if v is OPQ: v=self.fresh('ptr','opq')
            if isinstance(v,P) and v.k=='fn': v=P('h',self.fnid(v.b),self.oval(0))
            if isinstance(v,P) and v.k=='g': v=P('h',self.gid(v.b),self.oval(v.o if isinstance(v.o,int) else 0))
            if not isinstance(v,P) or v.k!='h' or v.path is not None:
                if isinstance(v,P) and v.k=='h' and v.path[1]==0 and v.path[2] is None: pass
                else: raise Unsupported('store of %s pointer into %s'%(v,name))
            if idx is not None: self.aset(st,name+'#b',z3.IntSort(),b,o,idx,v.b)
            else: self.rset(st,name+'#b',z3.IntSort(),b,o,v.b)
            if self.flat(name):
                if not self.iszero(v.o): self.oblig(st,'flat store '+name,v.o==self.oval(0),'memory')
            elif idx is not None: self.aset(st,name+'#o',self.osort(),b,o,idx,self.off(v.o))
            else: self.rset(st,name+'#o',self.osort(),b,o,self.off(v.o))
            return
        vs=self.sort(ty); v=self.coerce(st,v,ty)
        if idx is not None: self.aset(st,name,vs,b,o,idx,v)
        else: self.rset(st,name,vs,b,o,v)
    def fnid(self,nm): return z3.Int('fn:'+nm)
    def gid(self,nm): return z3.Int('g:'+nm)
    def iszero(self,o): 
        o=z3.simplify(self.off(o)); 
        return (z3.is_int_value(o) and o.as_long()==0) or (z3.is_bv_value(o) and o.as_long()==0)
    def off(self,o): return self.oval(o) if isinstance(o,int) else o
    def coerce(self,st,v,ty):
        if v is OPQ or v is None: return z3.Const('opq!%d'%self._inc(),self.sort(ty))
        if isinstance(v,Bits): v=self.bits_term(v)
        if isinstance(v,P): raise Unsupported('pointer as '+ty)
        if isinstance(v,(Packed,Agg)): raise Unsupported('aggregate as '+ty)
        return v
    def _inc(self): self.n+=1; return self.n
    def bits_term(self,v):
        t=None
        for lo,w,x in v.f:
            y=x if lo==0 else x*(1<<lo); t=y if t is None else t+y
        return t if t is not None else z3.IntVal(0)
    # ---- write log (for loops)
    def restart(self):
        # the frame of an enclosing loop was too small: what was executed is discarded (at once, or at the end of the path)
        if not getattr(self.C,'batch',False): raise Restart()
        self.dirty=True
    def logw(self,st,name,b,o=None):
        for L in st.ghost.get('#loops',()):
            w=self.loopw[L[0]]['regs']
            tag='full'
            bs=z3.simplify(b) if isz(b) else b
            if self.is_new(bs,L): tag='new'
            elif self.is_old(bs,L):
                tag=('row',bs.get_id(),bs)
                if o is not None:
                    os=z3.simplify(o)
                    if self.is_old(os,L): tag=('cell',(bs.get_id(),os.get_id()),bs,os)
            cur=w.setdefault(name,{})
            k=tag if isinstance(tag,str) else tag[:2]
            if k not in cur:
                if 'full' in cur: continue
                if k[0]=='cell' and ('row',bs.get_id()) in cur: continue
                cur[k]=tag; self.restart()
    def logl(self,st,key,off,v):
        for L in st.ghost.get('#loops',()):
            if key not in L[2]: continue
            w=self.loopw[L[0]]['locs']; pre=L[4].get((key,off))
            kind='full'
            if isinstance(v,P) and isinstance(pre,P) and v.k==pre.k and (v.b is pre.b or (isz(v.b) and isz(pre.b) and z3.simplify(v.b).eq(z3.simplify(pre.b)))):
                if (v.path is None)==(pre.path is None) and (v.path is None or v.path[:2]==pre.path[:2]): kind='off'
            if w.get((key,off))=='full' or w.get((key,off))==kind: continue
            w[(key,off)]=kind; self.restart()
    def consts(self,t,_c={}):
        k=t.get_id()
        if k in _c: return _c[k][1]
        if z3.is_quantifier(t): r=self.consts(t.body())
        elif z3.is_var(t): r=frozenset()
        elif z3.is_const(t) and t.decl().kind()==z3.Z3_OP_UNINTERPRETED: r=frozenset([t.decl().name()])
        else: r=frozenset().union(*[self.consts(c) for c in t.children()]) if t.num_args() else frozenset()
        _c[k]=(t,r); return r
    def is_old(self,b,L):
        for n in self.consts(b):
            m=re.search(r'!(\d+)(\.b)?$',n)
            if m and int(m.group(1))>L[1] : return False
        return True
    def is_new(self,b,L):
        # base allocated inside the loop: a 'new' constant numbered above loop entry
        if z3.is_const(b) and b.decl().name().startswith('new!'): return int(b.decl().name()[4:])>L[1]
        return False
    # ---- pointers
    def cls_path(self,ty,boff,cls):
        """region prefix of the sub-object of class cls at byte offset boff of struct type ty"""
        if self.M.sname(ty)==cls and boff==0: return cls,ty
        st=self.M.S[ty]
        for i,(ety,eoff,esz) in enumerate(st['el']):
            if eoff<=boff<eoff+max(esz,1) and ety in self.M.S:
                tf=[x for x in self.M.topfields(ty) if x[0]==eoff]
                isb=any(x[3] for x in tf)
                sub=self.cls_path(ety,boff-eoff,cls)
                if sub is None: continue
                if isb and eoff==0: return sub
                nm=self.M.sname(ty)+'.'+(tf[-1][2] if tf else 'f%d'%i)
                s,t=sub
                rest=s.split('.',1)[1] if '.' in s else ''
                return (nm+('.'+rest if rest else ''),t)
        return None
    def clsty(self,cls,field=None):
        r=[t for t in self.M.S if self.M.sname(t)==cls]
        if not r: raise Unsupported('class '+cls+' not found')
        return r[0]
    def fieldloc(self,ty,fields):
        """struct type, ['_a','_b'] -> (byte offset, type)"""
        off=0
        for f in fields:
            found=None
            for (o,b,nm,isb) in self.M.topfields(ty):
                if nm==f and not isb:
                    if b:
                        return off+o//4*4,'bits'
                    found=o
            if found is None:
                for (o,b,nm,isb) in self.M.topfields(ty):
                    if isb:
                        for (ety,eoff,esz) in self.M.S[ty]['el']:
                            if eoff==o and ety in self.M.S and ety!=ty:
                                try: r=self.fieldloc(ety,fields[fields.index(f):]); return off+o+r[0],r[1]
                                except Unsupported: pass
                raise Unsupported('field %s of %s'%(f,ty))
            el=[e for e in self.M.S[ty]['el'] if e[1]==found]
            if not el: raise Unsupported('field %s of %s'%(f,ty))
            off+=found; ty=el[0][0]
        return off,ty
    def rd(self,st,p,name,idx=None,ty=None):
        """spec-level field read: name 'Class.f.g'"""
        cls,*fs=name.split('.')
        if p.k=='l':
            aty=st.lnames[p.b][1]
            cp=self.cls_path(aty,p.o,cls) if aty in self.M.S else None
            sty=cp[1] if cp else (ty or self.clsty(cls))
            off,fty=self.fieldloc(sty,fs)
            if idx is not None:
                m=re.match(r'^\[(\d+) x (.*)\]$',fty); s=self.M.size(m.group(2))
                return self.load_local(st,P('l',p.b,p.o+off,(idx,s,int(m.group(1)))),m.group(2))
            return self.load_local(st,P('l',p.b,p.o+off),fty)
        if p.path is None: pre,sty=cls,(ty or self.clsty(cls))
        else:
            cp=self.cls_path(p.path[0],p.path[1],cls)
            if cp is None: raise Unsupported('no %s at %s'%(cls,p))
            pre,sty=cp
        off,fty=self.fieldloc(sty,fs)
        lf=self.M.leaf(sty,off)
        fname='.'.join([pre]+fs) 
        if lf[0]=='bits':
            return self.rget(st,fname,z3.IntSort(),p.b,self.off(p.o))
        if p.path is None: fname=lf[1]
        elif lf[0]=='f': fname=pre+'.'+lf[1].split('.',1)[1]
        if idx is not None:
            return self.hload(st,fname,lf[2],p.b,self.off(p.o),idx)
        if lf[0]=='arr': return z3.Select(z3.Select(self.reg(st,fname,self.sort(lf[2]),True),p.b),self.off(p.o))
        return self.hload(st,fname,fty,p.b,self.off(p.o))
    def isreal(self,r):
        h=r[-2:] in ('#b','#o'); n=r[:-2] if h else r
        if n.startswith('elem:'): return h==(n=='elem:ptr') and not (r.endswith('#o') and self.flat(n))
        cls,*fs=n.split('.')
        try: fty=self.fieldloc(self.clsty(cls),fs)[1]
        except Exception: return True
        return h==(fty=='ptr') and not (r.endswith('#o') and self.flat(n))
    def locs(self,p,name,ty=None):
        """region names behind a spec-level field"""
        cls,*fs=name.split('.')
        if p.path is None: pre,sty=cls,(ty or self.clsty(cls))
        else: pre,sty=self.cls_path(p.path[0],p.path[1],cls)
        off,fty=self.fieldloc(sty,fs); lf=self.M.leaf(sty,off)
        if lf[0]=='bits': return ['.'.join([pre]+fs)],[(z3.IntSort(),False)]
        nm=lf[1] if p.path is None else pre+'.'+lf[1].split('.',1)[1]
        if lf[0]=='arr': return [nm],[(self.sort(lf[2]),True)]
        if fty=='ptr': return [nm+'#b']+([] if self.flat(nm) else [nm+'#o']),[(z3.IntSort(),False)]+([] if self.flat(nm) else [(self.osort(),False)])
        return [nm],[(self.sort(fty),False)]
    # ---- local memory
    def load_local(self,st,p,ty):
        key,off,idx=p.b,p.o,p.path
        C=st.L.get(key)
        if C is None: raise Unsupported('dead local')
        if idx is not None:
            t,stride,cnt=idx
            t=z3.simplify(t) if isz(t) else t
            if isz(t) and (z3.is_int_value(t) or z3.is_bv_value(t)):
                k=t.as_signed_long() if z3.is_bv_value(t) else t.as_long()
                if not (0<=k<cnt): self.oblig(st,'local array index',z3.BoolVal(False),'memory'); return self.fresh(ty)
                return self.load_local(st,P('l',key,off+k*stride),ty)
            z=self.oval(0); self.oblig(st,'local array index',z3.And(t>=z,t<self.oval(cnt)),'memory')
            v=self.load_local(st,P('l',key,off),ty)
            for k in range(1,cnt): v=self.ite(t==self.oval(k),self.load_local(st,P('l',key,off+k*stride),ty),v)
            return v
        if ty in self.M.S or ty[0] in '{[':
            return Agg({i:self.load_local(st,P('l',key,off+o),t) for i,(t,o) in enumerate(self.M.elems(ty))})
        n=self.M.size(ty)
        c=C.get(off)
        if c is not None and c[0]==n: return self.retype(st,c[2],ty,c[1])
        inside=[(o,x) for o,x in C.items() if off<=o and o+x[0]<=off+n]
        ov=[(o,x) for o,x in C.items() if o<off+n and off<o+x[0]]
        if not ov:
            v=self.fresh(ty,'undef'); C[off]=(n,ty,v); return v
        if len(inside)==len(ov): return Packed([(o-off,x[1],x[2]) for o,x in sorted(inside)])
        if self.mode=='bv' and len(ov)==1:
            o,x=ov[0]
            if isz(x[2]) and z3.is_bv(x[2]): return z3.Extract((off-o+n)*8-1,(off-o)*8,x[2])
        raise Unsupported('overlapping local load')
    def retype(self,st,v,ty,oty):
        if isinstance(v,(P,)) and ty!='ptr': return PInt(v)
        if isinstance(v,PInt) and ty=='ptr': return v.p
        if isz(v) and ty=='ptr': raise Unsupported('int as ptr')
        return v
    def store_local(self,st,p,ty,v):
        key,off,idx=p.b,p.o,p.path
        C=st.L.get(key)
        if C is None: raise Unsupported('dead local')
        if idx is not None:
            t,stride,cnt=idx
            t=z3.simplify(t) if isz(t) else t
            if isz(t) and (z3.is_int_value(t) or z3.is_bv_value(t)):
                k=t.as_signed_long() if z3.is_bv_value(t) else t.as_long()
                if not (0<=k<cnt): self.oblig(st,'local array index',z3.BoolVal(False),'memory'); return
                return self.store_local(st,P('l',key,off+k*stride),ty,v)
            self.oblig(st,'local array index',z3.And(t>=self.oval(0),t<self.oval(cnt)),'memory')
            for k in range(cnt):
                q=P('l',key,off+k*stride); self.store_local(st,q,ty,self.ite(t==self.oval(k),v,self.load_local(st,q,ty)))
            return
        if isinstance(v,Packed):
            for o,t,x in v.leaves: self.store_local(st,P('l',key,off+o),t,x)
            return
        if isinstance(v,Agg):
            for i,(t,o) in enumerate(self.M.elems(ty)):
                if i in v.vals: self.store_local(st,P('l',key,off+o),t,v.vals[i])
            return
        n=self.M.size(ty)
        for o in list(C):
            x=C[o]
            if o<off+n and off<o+x[0] and not (o==off and x[0]==n):
                if off<=o and o+x[0]<=off+n: del C[o]
                else: raise Unsupported('overlapping local store')
        self.logl(st,key,off,v)
        C[off]=(n,ty,v)
    def ite(self,c,a,b):
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if isz(a) and isz(b): return a if a.eq(b) else z3.If(c,a,b)
        if isinstance(a,P) and isinstance(b,P) and a.k=='h' and b.k=='h':
            if a.path is None and b.path is None: return P('h',z3.If(c,a.b,b.b),z3.If(c,self.off(a.o),self.off(b.o)))
            if a.path is not None and b.path is not None and a.path[:2]==b.path[:2]:
                i=None
                if a.path[2] is not None: i=z3.If(c,a.path[2],b.path[2])
                return P('h',z3.If(c,a.b,b.b),z3.If(c,self.off(a.o),self.off(b.o)),(a.path[0],a.path[1],i))
        if a is b: return a
        if isinstance(a,P) and isinstance(b,P) and (a.k,a.b,a.o,a.path)==(b.k,b.b,b.o,b.path): return a
        raise Unsupported('select of %s / %s'%(a,b))
    # ---- obligations
    def oblig(self,st,name,goal,kind='assert',ins=None):
        if isinstance(goal,bool): goal=z3.BoolVal(goal)
        g=z3.simplify(goal)
        fr=st.frames[-1] if st.frames else None
        line,file=self.curline
        o=Obl(self.fname,name,list(st.pc),goal,line,file,kind,tuple(st.trail[-40:]))
        if z3.is_true(g): o.status='proved'; o.backend='simplify'
        self.obls.append(o)
        if kind!='cover' and o.status is None: st.assume(goal)
    def feasible(self,st,extra):
        e=z3.simplify(extra)
        if z3.is_false(e): return False
        if z3.is_true(e): return True
        s=z3.SolverFor('QF_AUFBV') if False else z3.Solver()
        s.set('timeout',self.C.feas if hasattr(self.C,'feas') else 300)
        for f in st.pc:
            if not has_quant(f): s.add(f)
        s.add(e)
        return s.check()!=z3.unsat
    # ---- operand evaluation
    def val(self,st,fr,op):
        k=op[0]
        if k=='l': return fr.regs[op[1]]
        if k=='i': return self.ival(int(op[2]),op[1])
        if k=='f': return self.fval(op[1])
        if k=='null': return P('h',z3.IntVal(0),self.oval(0))
        if k=='undef': 
            if op[1]=='ptr' or op[1][0]=='i' or op[1]=='double': return self.fresh(op[1],'undef')
            return Agg({})
        if k=='zero': return self.zero(op[1])
        if k=='fn': return P('fn',op[1])
        if k=='g': return P('g',op[1],0)
        if k=='ce':
            if op[1]=='getelementptr':
                return self.gep(st,op[3],self.val(st,fr,op[4][0]),[self.val(st,fr,x) for x in op[4][1:]])
            if op[1] in ('ptrtoint',): return PInt(self.val(st,fr,op[3][0]))
            return OPQ
        if k=='arr': return Agg({i:self.val(st,fr,x) for i,x in enumerate(op[2])})
        if k=='md': return op[1]
        return OPQ
    def fval(self,s):
        try: v=float(s)
        except Exception: v=float('nan')
        if v!=v: raise Unsupported('nan constant')
        if abs(v)>1e300:
            big=z3.Real('DBL_BIG'); return big if v>0 else -big
        return z3.RealVal(repr(v) if 'e' not in repr(v) else '%.40f'%v)
    def zero(self,ty):
        if ty=='ptr': return P('h',z3.IntVal(0),self.oval(0))
        if ty=='double': return z3.RealVal(0)
        m=re.match(r'^i(\d+)$',ty)
        if m: return self.ival(0,int(m.group(1)))
        return Agg({i:self.zero(t) for i,(t,o) in enumerate(self.M.elems(ty))})
    def cint(self,v):
        if not isz(v): return None
        v=z3.simplify(v)
        if z3.is_int_value(v): return v.as_long()
        if z3.is_bv_value(v): return v.as_signed_long()
        return None
    def gep(self,st,sty,p,idx):
        if p is OPQ: return OPQ
        if isinstance(p,P) and p.k=='vt':
            c=self.cint(idx[0]); return P('vt',p.b,p.o+c,p.path,p.org)
        if not isinstance(p,P): raise Unsupported('gep on %s'%(p,))
        idx=[i for i in idx]
        i0=idx[0]; c0=self.cint(i0)
        if p.k in ('l','g'):
            off=p.o; ii=p.path
            if c0!=0:
                s=self.M.size(sty)
                if c0 is not None:
                    if ii is None: off=off+c0*s
                    else: ii=(ii[0]+self.oval(c0),)+ii[1:]
                else:
                    if ii is not None: ii=(ii[0]+self.toff(i0),)+ii[1:]
                    else: ii=self.locidx(st,p,off,s,i0); off,ii=ii
            ty=sty
            for j in idx[1:]:
                c=self.cint(j)
                if ty in self.M.S or ty[0]=='{':
                    e=self.M.elems(ty)[c]; off+=e[1]; ty=e[0]
                else:
                    m=re.match(r'^\[(\d+) x (.*)\]$',ty); s=self.M.size(m.group(2))
                    if c is not None: off+=c*s
                    elif ii is None: ii=(self.toff(j),s,int(m.group(1)))
                    else: raise Unsupported('2-dim local index')
                    ty=m.group(2)
            return P(p.k,p.b,off,ii)
        if p.k!='h': raise Unsupported('gep on '+p.k)
        b,o,path=p.b,p.o,p.path
        if path is not None and path[2] is None and path[1]==0 and c0!=0 and len(idx)==1 and sty in self.M.S and self.M.size(sty)==self.M.size(path[0]):
            path=None
        if c0!=0:
            if path is None: o=self.off(o)+self.toff(i0)
            elif path[2] is not None or not (sty in self.M.S): 
                base=path[2] if path[2] is not None else self.oval(0)
                path=(path[0],path[1],base+self.toff(i0))
            else: raise Unsupported('gep %s'%sty)
        ty=sty
        if len(idx)>1:
            if path is None: path=(sty,0,None)
            for j in idx[1:]:
                c=self.cint(j)
                if ty in self.M.S or ty[0]=='{':
                    e=self.M.elems(ty)[c]; path=(path[0],path[1]+e[1],path[2]); ty=e[0]
                else:
                    m=re.match(r'^\[(\d+) x (.*)\]$',ty)
                    base=path[2] if path[2] is not None else self.oval(0)
                    path=(path[0],path[1],base+self.toff(j)); ty=m.group(2)
        return P('h',b,o,path)
    def locidx(self,st,p,off,s,i0):
        aty=st.lnames[p.b][1] if p.k=='l' else self.M.G[p.b]['ty']
        tot=self.M.size(aty); n=(tot-off)//s
        return off,(self.toff(i0),s,n)
    def toff(self,v):
        if self.mode=='int': return v
        w=v.size()
        return v if w==64 else z3.SignExt(64-w,v)
    # ---- memory access
    def load(self,st,p,ty):
        if p is OPQ: return self.opq(ty)
        if not isinstance(p,P): raise Unsupported('load from %s'%(p,))
        if p.k=='l': return self.load_local(st,p,ty)
        if p.k=='g': return self.load_global(st,p,ty)
        if p.k=='vt': return P('vf',p.b,p.o,p.path,p.org)
        if p.k!='h': raise Unsupported('load from '+p.k)
        if ty in self.M.S or ty[0] in '{[':
            return Agg({i:self.load(st,self.sub(p,ty,o),t) for i,(t,o) in enumerate(self.M.elems(ty))})
        if p.path is None:
            if self.cint(p.b)==0: self.oblig(st,'null dereference',z3.BoolVal(False),'memory'); return self.fresh(ty)
            self.bound(st,p,ty); return self.hload(st,'elem:'+ty,ty,p.b,self.off(p.o))
        lf=self.M.leaf(p.path[0],p.path[1])
        if lf[0]=='f':
            v=self.hload(st,lf[1],ty,p.b,self.off(p.o))
            if ty=='ptr' and lf[1].endswith('__vptr'): return P('vt',None,0)
            return v
        if lf[0]=='arr':
            i=self.oval(lf[3]); i=i if p.path[2] is None else i+p.path[2]
            self.abound(st,lf,i)
            if self.cint(i) is None and lf[4]<=8 and lf[2]!='ptr':
                v=self.hload(st,lf[1],lf[2],p.b,self.off(p.o),self.oval(0))
                for k in range(1,lf[4]): v=z3.If(i==self.oval(k),self.hload(st,lf[1],lf[2],p.b,self.off(p.o),self.oval(k)),v)
                return v
            return self.hload(st,lf[1],lf[2],p.b,self.off(p.o),z3.simplify(i))
        return Bits([(lo,w,self.rget(st,nm,z3.IntSort(),p.b,self.off(p.o))) for nm,lo,w in lf[1]])
    def sub(self,p,ty,o):
        path=p.path if p.path is not None else (ty,0,None)
        return P('h',p.b,p.o,(path[0],path[1]+o,path[2]))
    def abound(self,st,lf,i):
        n=lf[4]; c=self.cint(i)
        if c is not None:
            if 0<=c<n: return
            self.oblig(st,'index of '+lf[1],z3.BoolVal(False),'memory'); return
        self.oblig(st,'index of '+lf[1],z3.And(i>=self.oval(0),i<self.oval(n)),'memory')
    def bound(self,st,p,ty):
        if not self.bounds: return
        s=self.M.size(ty); o=self.off(p.o); bl=self.blen(p.b)
        if self.mode=='int': self.oblig(st,'access within block',z3.And(o>=0,(o+1)*s<=bl),'memory')
        else: self.oblig(st,'access within block',z3.And(z3.ULT(o,z3.BitVecVal(1<<48,64)),z3.ULE((o+1)*s,bl)),'memory')
    def blen(self,b):
        return z3.Function('blen',z3.IntSort(),self.osort())(b)
    def opq(self,ty):
        if ty=='ptr': return OPQ
        return self.fresh(ty,'opq')
    def store(self,st,p,ty,v):
        if p is OPQ: return
        if not isinstance(p,P): raise Unsupported('store to %s'%(p,))
        if p.k=='l': return self.store_local(st,p,ty,v)
        if p.k=='g': return
        if p.k!='h': raise Unsupported('store to '+p.k)
        if isinstance(v,Agg):
            for i,(t,o) in enumerate(self.M.elems(ty)):
                if i in v.vals: self.store(st,self.sub(p,ty,o),t,v.vals[i])
            return
        if isinstance(v,Packed):
            for o,t,x in v.leaves: self.store(st,self.sub(p,ty,o),t,x)
            return
        if p.path is None:
            self.bound(st,p,ty); return self.hstore(st,'elem:'+ty,ty,p.b,self.off(p.o),v)
        lf=self.M.leaf(p.path[0],p.path[1])
        if lf[0]=='f':
            if lf[1].endswith('__vptr'): return
            return self.hstore(st,lf[1],ty,p.b,self.off(p.o),v)
        if lf[0]=='arr':
            i=self.oval(lf[3]); i=i if p.path[2] is None else i+p.path[2]
            self.abound(st,lf,i)
            if self.cint(i) is None and lf[4]<=8 and lf[2]!='ptr':
                for k in range(lf[4]):
                    kk=self.oval(k); self.hstore(st,lf[1],lf[2],p.b,self.off(p.o),z3.If(i==kk,v,self.hload(st,lf[1],lf[2],p.b,self.off(p.o),kk)),kk)
                return
            return self.hstore(st,lf[1],lf[2],p.b,self.off(p.o),v,z3.simplify(i))
        if not isinstance(v,Bits):
            c=self.cint(v)
            if c is None: raise Unsupported('bitfield store')
            v=Bits([(lo,w,z3.IntVal((c>>lo)&((1<<w)-1))) for nm,lo,w in lf[1]])
        for nm,lo,w in lf[1]:
            fs=[x for x in v.f if x[0]==lo]
            if not fs: self.rset(st,nm,z3.IntSort(),p.b,self.off(p.o),z3.IntVal(0))
            else: self.rset(st,nm,z3.IntSort(),p.b,self.off(p.o),fs[0][2])
    def load_global(self,st,p,ty):
        g=self.M.G.get(p.b)
        if g is None or not g.get('const') or 'init' not in g: return self.opq(ty)
        v=self.val(st,None,g['init'])
        if p.path is not None:
            t,stride,cnt=p.path
            self.oblig(st,'global array index',z3.And(t>=self.oval(0),t<self.oval(cnt)),'memory')
            r=self.gleaf(v,g['ty'],p.o,ty)
            for k in range(1,cnt): r=self.ite(t==self.oval(k),self.gleaf(v,g['ty'],p.o+k*stride,ty),r)
            return r
        return self.gleaf(v,g['ty'],p.o,ty)
    def gleaf(self,v,vt,off,ty):
        if not isinstance(v,Agg): return v
        for i,(t,o) in enumerate(self.M.elems(vt)):
            if o<=off<o+self.M.size(t): return self.gleaf(v.vals[i],t,off-o,ty)
        raise Unsupported('global access')
    # ---- allocation
    def alloc(self,st,bytes_=None,zero=None):
        self.n+=1; b=z3.Int('new!%d'%self.n)
        st.assume(b==st.next); nn=z3.Int('next!%d'%self.n); st.assume(nn==b+1); st.next=nn
        if bytes_ is not None: st.assume(self.blen(b)==self.toff(bytes_))
        return P('h',b,self.oval(0))
    def memset(self,st,p,v,n):
        c=self.cint(n); z=self.cint(v)
        if p.k=='l':
            if c is None or z!=0: raise Unsupported('memset')
            aty=st.lnames[p.b][1]
            for o,t in self.M.flat(aty):
                if p.o<=o and o+self.M.size(t)<=p.o+c: self.store_local(st,P('l',p.b,o),t,self.zero(t))
            return
        h=self.lib.memset if hasattr(self.lib,'memset') else None
        hint=getattr(self.C,'memset_ty',None)
        if hint is None: raise Unsupported('heap memset')
        if z!=0: raise Unsupported('memset non-zero')
        if self.bounds: o=self.off(p.o); self.oblig(st,'memset within block',(z3.And(o>=0,o*self.M.size(hint if isinstance(hint,str) else hint[0])+n<=self.blen(p.b)) if self.mode=='int' else z3.ULE(o*self.M.size(hint if isinstance(hint,str) else hint[0])+n,self.blen(p.b))),'memory')
        for hint in ([hint] if isinstance(hint,str) else hint): self.memset1(st,p,n,hint)
    def memset1(self,st,p,n,hint):
        s=self.M.size(hint); b=p.b; o=self.off(p.o)
        name='elem:'+hint
        if hint=='ptr': name+='#b'
        vs=z3.IntSort() if hint=='ptr' else self.sort(hint)
        r=self.reg(st,name,vs); row=z3.Select(r,b); nr=self.fresh_const(row.sort(),'ms')
        j=z3.Const('j!ms',self.osort())
        if self.mode=='int': ins=z3.And(j>=o,(j-o)*s<n)
        else: ins=z3.And(z3.UGE(j,o),z3.ULT(j-o,z3.UDiv(n,z3.BitVecVal(s,64))))
        zz=z3.IntVal(0) if hint=='ptr' else self.zero(hint)
        st.assume(z3.ForAll([j],z3.Select(nr,j)==z3.If(ins,zz,z3.Select(row,j)),patterns=[z3.Select(nr,j)]))
        self.logw(st,name,b); st.R[name]=z3.Store(r,b,nr)
    def memcpy(self,st,d,s,n):
        c=self.cint(n)
        if d is OPQ or s is OPQ: return
        def typ(p):
            if p.k=='l': return (st.lnames[p.b][1],p.o)
            if p.k=='g': return (self.M.G[p.b]['ty'],p.o)
            if p.k=='h' and p.path is not None: return (p.path[0],p.path[1])
            return None
        if c is not None and (typ(d) or typ(s)):
            # leaf-wise copy; the leaf types are those of whichever side has a type covering the range
            best=None
            for p in (d,s):
                t=typ(p)
                if t is None: continue
                if self.M.size(t[0])-t[1]>=c:
                    fl=[(o-t[1],x) for o,x in self.M.flat(t[0]) if t[1]<=o<t[1]+c]
                    if best is None or len(fl)>len(best): best=fl
            if best is None: raise Unsupported('memcpy type')
            cells=[]
            for o,x in best:
                cells.append((o,x,self.load(st,self.bytepos(s,o,d),x)))
            for o,x,v in cells: self.store(st,self.bytepos(d,o,s),x,v)
            return
        hint=getattr(self.C,'memcpy_ty',None)
        if hint is None or d.k!='h' or s.k!='h' or d.path is not None or s.path is not None: raise Unsupported('memcpy')
        sz=self.M.size(hint); name='elem:'+hint
        vs=z3.IntSort() if hint=='ptr' else self.sort(hint)
        if hint=='ptr': name+='#b'
        r=self.reg(st,name,vs); row=z3.Select(r,d.b); src=z3.Select(r,s.b); nr=self.fresh_const(row.sort(),'mc')
        j=z3.Const('j!mc',self.osort()); do,so=self.off(d.o),self.off(s.o)
        if self.mode=='int': ins=z3.And(j>=do,(j-do)*sz<n)
        else: ins=z3.And(z3.UGE(j,do),z3.ULT(j-do,z3.UDiv(n,z3.BitVecVal(sz,64))))
        st.assume(z3.ForAll([j],z3.Select(nr,j)==z3.If(ins,z3.Select(src,j-do+so),z3.Select(row,j)),patterns=[z3.Select(nr,j)]))
        if self.bounds:
            for p,o in ((d,do),(s,so)): self.oblig(st,'memcpy within block',(z3.And(o>=0,o*sz+n<=self.blen(p.b)) if self.mode=='int' else z3.ULE(o*sz+n,self.blen(p.b))),'memory')
        self.logw(st,name,d.b); st.R[name]=z3.Store(r,d.b,nr)
    def bytepos(self,p,o,other):
        if p.k in ('l','g'): return P(p.k,p.b,p.o+o,p.path)
        if p.path is not None: return P('h',p.b,p.o,(p.path[0],p.path[1]+o,p.path[2]))
        # untyped heap pointer: take the struct type of the other side
        t=None
        if other.k=='l':
            st_ty=self.curstate.lnames[other.b][1]
            if other.o==0 and st_ty in self.M.S: t=st_ty
            else:
                t=self.subty(st_ty,other.o)
        elif other.k=='h' and other.path is not None: t=self.subty(other.path[0],other.path[1])
        if t is None or t not in self.M.S: raise Unsupported('memcpy of untyped memory')
        return P('h',p.b,p.o,(t,o,None))
    def subty(self,ty,off):
        if off==0: return ty
        for t,o in self.M.elems(ty) or []:
            if o==off: return t
            if o<off<o+self.M.size(t): return self.subty(t,off-o)
        return None
    # ================================================================ execution
    def run(self):
        for attempt in range(200):
            try:
                self.obls=[];self.n=0;self.regsorts=getattr(self,'regsorts',{});self.looporder=[];self.paths=0;self.covers=[]
                self.curline=(0,''); self.dirty=False; self._run(); return self
            except Restart:
                if attempt>150:
                    for w in self.loopw.values():
                        for r in w['regs']: w['regs'][r]={'full':'full'}
        raise Unsupported('loop frame inference did not converge')
    def _run(self):
        st=State(self); st.next=z3.Int('next!0'); st.assume(st.next>=1)
        fr=Frame(self.F,()); st.frames=[fr]; args=[]
        for a in self.F['args']:
            i,nm,ty=a[0],a[1],a[2]
            if len(a)>3 and a[3]=='sret':
                key=('sret',); st.L[key]={}; st.lnames[key]=('sret',a[4]); v=P('l',key,0)
            elif ty=='ptr':
                b=z3.Int('arg_'+nm); v=P('h',b,self.oval(0)); st.assume(z3.And(b>=0,b<st.next))
                if nm=='this': st.assume(b>0)
            elif ty in ('double','float'): v=z3.Real('arg_'+nm)
            elif ty.startswith('i'): v=z3.Const('arg_'+nm,self.isort(self.width(ty)))
            else: raise Unsupported('argument type '+ty)
            args.append(v)
        c0=Ctx(self,st,st,args,None)
        if hasattr(self.C,'mkargs'):
            args=self.C.mkargs(c0,args); c0.a=args
        for i,a in enumerate(self.F['args']): fr.regs[a[0]]=args[i]
        fr.args=args
        if hasattr(self.C,'ghosts'): st.ghost.update(self.C.ghosts(c0))
        for nm,f in self.C.requires(c0): st.assume(f)
        for f in self.C.axioms_(c0): st.assume(f)
        self.init=st.copy(); c0.old=self.init
        self.covers.append(('precondition',list(st.pc)))
        work=[st]
        while work:
            if time.time()-self.t0>self.budget: raise Unsupported('execution budget exhausted (%d paths)'%self.paths)
            st=work.pop()
            try: self.step(st,work)
            except Unsupported:
                if not self.dirty: raise
            if self.dirty: raise Restart()
    def step(self,st,work):
        """run st until it ends; pushes alternatives on work"""
        while True:
            fr=st.frames[-1]
            ins=fr.fn['blocks'][fr.blk]['ins'][fr.ip]
            self.curstate=st
            if 'line' in ins: self.curline=(ins['line'],ins.get('file',''))
            op=ins['op']
            if op=='br':
                d=ins['dst']
                if len(d)==1: 
                    if not self.goto(st,d[0]): return
                    continue
                c=self.val(st,fr,ins['ops'][0])
                if c is OPQ: c=self.fresh('i1','opq')
                c=z3.simplify(c)
                if z3.is_true(c) or z3.is_false(c):
                    if not self.goto(st,d[0] if z3.is_true(c) else d[1]): return
                    continue
                nc=z3.simplify(z3.Not(c)); self.branch(st,work,[(c,d[0]),(nc,d[1])],ins); return
            if op=='switch':
                v=self.val(st,fr,ins['ops'][0]); alts=[];rest=[]
                for cv,blk in ins['cases']:
                    e=z3.simplify(v==self.val(st,fr,cv)); alts.append((e,blk)); rest.append(z3.Not(e))
                alts.append((z3.simplify(z3.And(rest)) if rest else z3.BoolVal(True),ins['dflt'])); self.branch(st,work,alts,ins); return
            if op=='ret':
                v=self.val(st,fr,ins['ops'][0]) if ins['ops'] else None
                while st.ghost.get('#loops') and st.ghost['#loops'][-1][5]==len(st.frames): st.ghost['#loops']=st.ghost['#loops'][:-1]
                if len(st.frames)==1: self.finish(st,v); self.paths+=1; return
                st.frames.pop(); cal=st.frames[-1]; ci=fr.callins
                for k in [k for k in st.L if k[0]==fr.cs]: del st.L[k]
                if ci['ty']!='void': cal.regs[ci['id']]=v
                if ci['op']=='invoke':
                    if not self.goto(st,ci['normal']): return
                else: cal.ip+=1
                continue
            if op=='unreachable': 
                self.paths+=1; return
            if op in ('call','invoke'):
                r=self.call(st,fr,ins,work)
                if isinstance(r,str) and r=='dead': self.paths+=1; return
                if isinstance(r,str) and r=='pushed': return
                if isinstance(r,str) and r=='inlined': continue
                if ins['ty']!='void': fr.regs[ins['id']]=r
                if op=='invoke':
                    if not self.goto(st,ins['normal']): return
                else: fr.ip+=1
                continue
            if op=='phi':
                # evaluate all phis of the block at once
                blk=fr.fn['blocks'][fr.blk]['ins']; vals=[]; k=fr.ip
                while blk[k]['op']=='phi':
                    for pb,o in blk[k]['ops']:
                        if pb==fr.prev: vals.append((blk[k]['id'],self.val(st,fr,o))); break
                    else: raise Unsupported('phi')
                    k+=1
                for i,v in vals: fr.regs[i]=v
                fr.ip=k; continue
            v=self.inst(st,fr,ins)
            if ins['ty']!='void': fr.regs[ins['id']]=v
            fr.ip+=1
    def branch(self,st,work,alts,ins):
        live=[(c,d) for c,d in alts if self.feasible(st,c)]
        if not live: self.paths+=1; return
        for i,(c,d) in enumerate(reversed(live)):
            s=st if i==len(live)-1 else st.copy()
            s.assume(c)
            s.trail.append('%s:%s'%(ins.get('line',0),'T' if d==alts[0][1] else 'F'))
            if self.goto(s,d): work.append(s)
    def goto(self,st,blk):
        fr=st.frames[-1]; fr.prev=fr.blk
        # leave loops
        while fr.loops and blk not in fr.fn['loops'][fr.loops[-1][0]]['set']:
            L=fr.loops.pop()
            if L[1]: st.ghost['#loops']=st.ghost['#loops'][:-1]
            else: fr.cnt.pop(L[2],None)
        fr.blk=blk; fr.ip=0
        h=fr.fn['hdr'].get(blk)
        if h is None: return True
        lid=(fr.cs,fr.fn['name'],blk)
        if fr.loops and fr.loops[-1][0]==h:      # back edge
            L=fr.loops[-1]
            if L[1]:
                pv=self.phis(st,fr)
                for i,v in pv:
                    ref=fr.regs.get(i)
                    if isinstance(ref,P) and not (isinstance(v,P) and v.k==ref.k and v.k=='h' and z3.simplify(v.b).eq(z3.simplify(ref.b)) and (v.path is None)==(ref.path is None)): raise Unsupported('loop-carried pointer changes block')
                self.loopcheck(st,fr,L[1],L[3],'preserved',L[4],pv); self.paths+=1; return False
            fr.cnt[blk]=fr.cnt.get(blk,0)+1
            if fr.cnt[blk]>self.unroll: raise UnrollLimit('loop at %s:%s in %s has no invariant and does not unroll within %d'%(self.curline[1],fr.fn['loops'][h].get('line'),fr.fn['dem'][:80],self.unroll))
            return True
        # entry
        if lid not in self.looporder and not self.unrolls(fr,lid): self.looporder.append(lid)
        pv=self.phis(st,fr)
        k=self.looporder.index(lid) if lid in self.looporder else None
        inv=self.C.loopinv(k) if k is not None else None
        if inv is None:
            fr.loops.append((h,None,blk,None,None)); fr.cnt[blk]=0; return True
        entry=st.copy()
        lid=lid+(hash(tuple(st.trail)),)
        self.looplid[lid]=lid[:3]
        if lid not in self.loopw and getattr(self.C,'batch',False):    # the same loop reached along another path: start from the frame found there
            sib=[x for q,x in self.loopw.items() if q[:3]==lid[:3]]
            if sib: x=sib[-1]; self.loopw[lid]={'regs':{r:({'full':'full'} if 'full' in t else {k:v for k,v in t.items() if v=='new'}) for r,t in x['regs'].items()},'locs':dict(x['locs']),'next':x['next'],'ghost':set(x['ghost'])}
        w=self.loopw.setdefault(lid,{'regs':{},'locs':{},'next':False,'ghost':set()})
        self.loopcheck(st,fr,inv,entry,'initial',lid,pv)
        nentry=self.n
        if getattr(self.C,'slice',False):   # the invariants say all that the loop needs: forget the quantified facts about earlier states
            ax=self.C.axioms_(Ctx(self,self.init,st,st.frames[0].args,None)); kp=getattr(self.C,'keepq',None); st.pc=[f for f in st.pc if not has_quant(f) or (kp and kp(f))]
            for f in ax: st.assume(f)
        # rows of allocations that do not exist on this attempt (numbering moved by a restart) are not havoced, nor remembered as havoced
        known=None
        for r,tags in w['regs'].items():
            for tk,t in list(tags.items()):
                if not isinstance(t,tuple): continue
                ns={n for x in t[2:] for n in self.consts(x) if n.startswith('new!')}
                if not ns: continue
                if known is None: known={n for f in st.pc for n in self.consts(f) if n.startswith('new!')}
                if not ns<=known: del tags[tk]
        # havoc
        for r,tags in list(w['regs'].items()):
            if r not in st.R and r in self.regsorts: self.reg(st,r,*self.regsorts[r])
            if r not in st.R:
                if st.pend.get(r) is None and self.isreal(r): raise Unsupported('loop effect on an unknown region '+r)
                continue
            if 'full' in tags:
                st.R[r]=self.fresh_const(st.R[r].sort(),r+'!h'); b=z3.Int('b!fr'); f=self.rowframe(st,r,b)
                if f is not None: st.assume(z3.ForAll([b],f,patterns=[z3.Select(st.R[r],b)]))
            else:
                for t in tags.values():
                    if not isinstance(t,tuple): continue
                    row=z3.Select(st.R[r],t[2])
                    if t[0]=='row': st.R[r]=z3.Store(st.R[r],t[2],self.fresh_const(row.sort(),r+'!h'))
                    elif ('row',t[1][0]) not in tags: st.R[r]=z3.Store(st.R[r],t[2],z3.Store(row,t[3],self.fresh_const(row.sort().range(),r+'!h')))
        for r in w['regs']:
            if r not in st.R and r in self.regsorts:
                self.reg(st,r,*self.regsorts[r])
        if w['next']:
            nn=self.fresh_const(z3.IntSort(),'next'); st.assume(nn>=st.next); st.next=nn
        for g in w['ghost']: st.ghost[g]=self.fresh_const(st.ghost[g].sort(),'g_'+g)
        pre={}
        for (key,off),kind in w['locs'].items():
            if key not in st.L or off not in st.L[key]: continue
            n,ty,v=st.L[key][off]
            if kind=='off' and isinstance(v,P):
                if v.k=='h':
                    if v.path is not None: nv=P('h',v.b,v.o,(v.path[0],v.path[1],self.fresh_const(self.osort(),'ix')) if v.path[2] is not None else v.path)
                    else: nv=P('h',v.b,self.fresh_const(self.osort(),'off'))
                else: nv=v
            elif isinstance(v,P) or ty=='ptr':
                nv=self.fresh('ptr','hv'); st.assume(z3.And(nv.b>=0,nv.b<st.next))
                if isinstance(v,P) and not self.iszero(v.o) : nv=P('h',nv.b,self.fresh_const(self.osort(),'off'))
            else: nv=self.fresh(ty,'hv')
            st.L[key][off]=(n,ty,nv)
        for key,cells in st.L.items():
            for off,x in cells.items(): pre[(key,off)]=x[2]
        L=(lid,nentry,frozenset(st.L.keys()),st.next,pre,len(st.frames))
        st.ghost['#loops']=st.ghost.get('#loops',())+(L,)
        fr.loops.append((h,inv,blk,entry,lid))
        npv=[]
        for i,v in pv:
            if isinstance(v,P):
                if v.k!='h' or v.path is not None and v.path[1:]!=(0,None): raise Unsupported('loop-carried pointer')
                nv=P('h',v.b,self.fresh_const(self.osort(),'off'))
            elif isz(v): nv=self.fresh_const(v.sort(),'phi')
            else: raise Unsupported('loop-carried %s'%type(v).__name__)
            npv.append((i,nv)); fr.regs[i]=nv
        fr.ip=len(pv)
        c=Ctx(self,self.init,st,st.frames[0].args,None,fr,entry,lid); c.assuming=True; c.phis=[v for _,v in npv]
        for nm,f in inv(c): st.assume(f)
        self.covers.append(('loop %d'%k,list(st.pc)))
        return True
    def phis(self,st,fr):
        blk=fr.fn['blocks'][fr.blk]['ins']; vals=[]; k=0
        while blk[k]['op']=='phi':
            for pb,o in blk[k]['ops']:
                if pb==fr.prev: vals.append((blk[k]['id'],self.val(st,fr,o))); break
            k+=1
        return vals
    def unrolls(self,fr,lid):
        f=getattr(self.C,'unrolled',None)
        return bool(f and f(fr.fn['dem']))
    def loopcheck(self,st,fr,inv,entry,what,lid,pv=()):
        c=Ctx(self,self.init,st,st.frames[0].args,None,fr,entry,lid); c.phis=[v for _,v in pv]
        for nm,f in inv(c): self.oblig(st,'loop %d invariant %s: %s'%(self.looporder.index(lid[:3]),what,nm),f,'inv')
        for r in self.fullregs(lid):
            if r in st.R:
                b=z3.Int('frame_b'); f=self.rowframe(st,r,b)
                if f is not None: self.oblig(st,'loop %d frame %s: %s'%(self.looporder.index(lid[:3]),what,r),f,'frame')
    def fullregs(self,lid): return [r for r,t in self.loopw.get(lid,{'regs':{}})['regs'].items() if 'full' in t]
    def allowed(self,st):
        c=Ctx(self,self.init,st,st.frames[0].args,None,st.frames[0]); allowed={};free=set()
        for m in self.C.modifies(c):
            if m[0]=='f':
                if m[1].k=='l': continue
                for r in self.locs(m[1],m[2])[0]: allowed.setdefault(r,[]).append((m[1].b,m[1].o))
            elif m[0]=='row': 
                for r in self.rowregs(m[1]): allowed.setdefault(r,[]).append((m[2],None))
            elif m[0]=='reg': free|=set(self.rowregs(m[1]))
            elif m[0]=='any': free.add('*')
        return allowed,free
    def rowframe(self,st,r,b):
        allowed,free=self.allowed(st)
        if r in free or '*' in free: return None
        i0=self.init.R.get(r)
        if i0 is None: i0=z3.Const(r+'!0',st.R[r].sort())
        return z3.Implies(z3.And([b>=1,b<self.init.next]+[b!=ab for ab,ao in allowed.get(r,[])]),z3.Select(st.R[r],b)==z3.Select(i0,b))
    def finish(self,st,v):
        c=Ctx(self,self.init,st,st.frames[0].args,v,st.frames[0])
        if any('sret' in a[3:4] for a in self.F['args']): c.ret=c.a[0]
        self.covers.append(('return',list(st.pc)))
        for nm,f in self.C.ensures(c): self.oblig(st,'ensures: '+nm,f,'post')
        # frame
        allowed,free=self.allowed(st)
        if '*' in free: return
        for r,ps in st.pend.items():
            if r in st.R or r in free: continue
            for kind,pb,_ in ps:      # effects of callees on regions nothing here looks at
                ok=[pb>=self.init.next]+[pb==ab for ab,ao in allowed.get(r,[]) if ao is None] if kind=='row' else [z3.BoolVal(False)]
                if self.isreal(r): self.oblig(st,'frame: '+r+' written by a callee',z3.Or(ok),'frame')
        for r in st.R:
            if r in free: continue
            i0=self.init.R.get(r)
            if i0 is None: i0=z3.Const(r+'!0',st.R[r].sort())
            if st.R[r].eq(i0): continue
            b=z3.Int('frame_b'); o=z3.Const('frame_o',self.osort())
            g=[b>=1,b<self.init.next]
            for (ab,ao) in allowed.get(r,[]):
                g.append(b!=ab if ao is None else z3.Or(b!=ab,o!=self.off(ao)))
            self.oblig(st,'frame: '+r+' unchanged elsewhere',z3.Implies(z3.And(g),z3.Select(z3.Select(st.R[r],b),o)==z3.Select(z3.Select(i0,b),o)),'frame')
    def rowregs(self,name):
        if name.endswith('#b') or name.endswith('#o'): return [name]
        if name in ('elem:ptr',): return ['elem:ptr#b','elem:ptr#o']
        if name.startswith('ghost:') or name.startswith('elem:'): return [name]
        return [name,name+'#b',name+'#o']
    # ---- instructions
    def inst(self,st,fr,ins):
        op=ins['op']; V=lambda k: self.val(st,fr,ins['ops'][k])
        if op=='alloca':
            key=(fr.cs,ins['id']); st.L[key]={}; st.lnames[key]=(ins.get('name',''),ins['aty'],fr.fn['name'])
            c=self.cint(V(0))
            if c!=1:
                del st.L[key]; del st.lnames[key]; self.lognext(st); return self.alloc(st,V(0)*self.M.size(ins['aty']))
            return P('l',key,0)
        if op=='load':
            p=V(0)
            if ins.get('name','').startswith('vtable') and ins['ty']=='ptr': return P('vt',p,0)
            return self.load(st,p,ins['ty'])
        if op=='store':
            v,p=V(0),V(1); self.store(st,p,ins['vty'],v); return None
        if op=='getelementptr':
            return self.gep(st,ins['sty'],V(0),[V(k) for k in range(1,len(ins['ops']))])
        if op in ('bitcast','freeze','addrspacecast'): return V(0)
        if op=='select': 
            c=z3.simplify(V(0)); return self.ite(c,V(1),V(2))
        if op=='extractvalue':
            a=V(0)
            for i in ins['idx']:
                if a is OPQ: return OPQ if ins['ty']=='ptr' else self.opq(ins['ty'])
                a=a.vals[i]
            return a
        if op=='insertvalue':
            a,v=V(0),V(1); r=Agg(dict(a.vals) if isinstance(a,Agg) else {})
            if len(ins['idx'])==1: r.vals[ins['idx'][0]]=v
            else:
                cur=r
                for i in ins['idx'][:-1]:
                    n=Agg(dict(cur.vals[i].vals) if i in cur.vals and isinstance(cur.vals[i],Agg) else {}); cur.vals[i]=n; cur=n
                cur.vals[ins['idx'][-1]]=v
            return r
        if op=='ptrtoint': return PInt(V(0))
        if op=='inttoptr':
            a=V(0)
            return a.p if isinstance(a,PInt) else OPQ
        if op in ('icmp','fcmp'): return self.cmp(st,ins,V(0),V(1))
        if op in ('trunc','zext','sext'): return self.cast(st,ins,V(0))
        if op in ('sitofp','uitofp'):
            a=self.num(V(0)); 
            if self.mode=='bv': a=z3.BV2Int(a,op=='sitofp')
            return z3.ToReal(a) if not z3.is_bool(a) else z3.If(a,z3.RealVal(1),z3.RealVal(0))
        if op in ('fptosi','fptoui'):
            self.assumed.add('double to integer conversion is truncation of a value in range')
            a=V(0); t=z3.ToInt(a); return z3.If(a>=0,t,-z3.ToInt(-a)) if self.mode=='int' else z3.Int2BV(t,self.width(ins['ty']))
        if op in ('fpext','fptrunc'): return V(0)
        if op=='fneg': return -V(0)
        if op in ('fadd','fsub','fmul','fdiv'):
            a,b=V(0),V(1); return {'fadd':lambda:a+b,'fsub':lambda:a-b,'fmul':lambda:a*b,'fdiv':lambda:a/b}[op]()
        if op=='landingpad': raise Unsupported('exception path')
        return self.arith(st,ins,V(0),V(1))
    def num(self,v):
        if isinstance(v,Bits): return self.bits_term(v)
        if v is OPQ: return self.fresh('i64','opq')
        if isinstance(v,(P,PInt,Packed,Agg,PDiff)): raise Unsupported('arithmetic on %s'%type(v).__name__)
        return v
    def b2i(self,v): return z3.If(v,z3.IntVal(1),z3.IntVal(0)) if z3.is_bool(v) else v
    def cast(self,st,ins,v):
        op=ins['op']; w1=self.width(ins['oty']); w2=self.width(ins['ty'])
        if isinstance(v,PInt): return v
        if isinstance(v,Packed):
            if op=='zext': return v
            return Packed([x for x in v.leaves if x[0]*8<w2])
        if isinstance(v,Bits):
            if w2==1:
                f=[x for x in v.f if x[0]==0]; return self.tobool(f[0][2]) if f else z3.BoolVal(False)
            v=self.bits_term(v)
        v=self.num(v)
        if self.mode=='bv':
            if w1==1:
                if op=='sext': return z3.If(v,z3.BitVecVal(-1,w2),z3.BitVecVal(0,w2))
                return z3.If(v,z3.BitVecVal(1,w2),z3.BitVecVal(0,w2))
            if op=='trunc': return z3.simplify(z3.Extract(0,0,v))==1 if w2==1 else z3.Extract(w2-1,0,v)
            return z3.ZeroExt(w2-w1,v) if op=='zext' else z3.SignExt(w2-w1,v)
        if w1==1: return z3.If(v,z3.IntVal(-1 if op=='sext' else 1),z3.IntVal(0))
        if op=='trunc':
            if w2==1: return self.tobool(v)
            self.assumed.add('integer truncations lose nothing'); return v
        if op=='zext': return self.tou(v,w1)
        return v
    def tobool(self,v):
        if z3.is_bool(v): return v
        if z3.is_app(v) and v.decl().kind()==z3.Z3_OP_ITE:
            a,b=v.arg(1),v.arg(2)
            if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long()==1 and b.as_long()==0: return v.arg(0)
        return v!=0
    def tou(self,v,w):
        s=z3.simplify(v)
        if z3.is_int_value(s): 
            k=s.as_long(); return z3.IntVal(k if k>=0 else k+(1<<w))
        if self.nonneg(s): return v
        return z3.If(v>=0,v,v+(1<<w))
    def nonneg(self,s):
        if z3.is_int_value(s): return s.as_long()>=0
        if z3.is_app(s):
            k=s.decl().kind()
            if k==z3.Z3_OP_ITE:
                if self.nonneg(s.arg(1)) and self.nonneg(s.arg(2)): return True
                return False
            if k in (z3.Z3_OP_ADD,z3.Z3_OP_MUL): return all(self.nonneg(c) for c in s.children())
            if k==z3.Z3_OP_MOD: return True
        return False
    def cmp(self,st,ins,a,b):
        pr=ins['pred']
        if ins['op']=='fcmp':
            if pr in ('oeq','ueq'): return a==b
            if pr in ('one','une'): return a!=b
            return {'lt':lambda:a<b,'gt':lambda:a>b,'le':lambda:a<=b,'ge':lambda:a>=b}[pr[1:]]()
        if isinstance(a,PInt) and isinstance(b,PInt): a,b=a.p,b.p
        if isinstance(a,P) or isinstance(b,P) or a is OPQ or b is OPQ:
            if a is OPQ or b is OPQ: return self.fresh('i1','opq')
            if not (isinstance(a,P) and isinstance(b,P)): raise Unsupported('pointer/int compare')
            e=self.peq(a,b)
            if pr=='eq': return e
            if pr=='ne': return z3.Not(e)
            if a.k=='h' and b.k=='h' and a.path is None and b.path is None:
                st.assume(a.b==b.b) if False else None
                x,y=self.off(a.o),self.off(b.o)
                return {'ult':lambda:x<y,'ugt':lambda:x>y,'ule':lambda:x<=y,'uge':lambda:x>=y}[pr]()
            raise Unsupported('pointer order')
        if isinstance(a,PDiff) or isinstance(b,PDiff): raise Unsupported('pointer difference compare')
        w=self.width(ins['oty'])
        if isinstance(a,Packed) or isinstance(b,Packed): raise Unsupported('packed compare')
        a,b=self.num(a),self.num(b)
        if z3.is_bool(a) or z3.is_bool(b):
            if pr=='eq': return a==b
            if pr=='ne': return a!=b
            raise Unsupported('bool order')
        if self.mode=='bv':
            return {'eq':lambda:a==b,'ne':lambda:a!=b,'slt':lambda:a<b,'sgt':lambda:a>b,'sle':lambda:a<=b,'sge':lambda:a>=b,'ult':lambda:z3.ULT(a,b),'ugt':lambda:z3.UGT(a,b),'ule':lambda:z3.ULE(a,b),'uge':lambda:z3.UGE(a,b)}[pr]()
        if pr=='eq': return a==b
        if pr=='ne': return a!=b
        if pr[0]=='u': a,b=self.tou(a,w),self.tou(b,w)
        return {'lt':lambda:a<b,'gt':lambda:a>b,'le':lambda:a<=b,'ge':lambda:a>=b}[pr[1:]]()
    def peq(self,a,b):
        if a.k!=b.k: 
            # null against a local/global/function pointer
            for x,y in ((a,b),(b,a)):
                if x.k=='h' and x.path is None and self.cint(x.b)==0: return z3.BoolVal(False)
            if {a.k,b.k}=={'h','fn'}:
                x,y=(a,b) if a.k=='h' else (b,a); return x.b==self.fnid(y.b)
            if 'l' in (a.k,b.k): return z3.BoolVal(False)
            raise Unsupported('compare %s %s'%(a,b))
        if a.k=='h':
            pa,pb=a.path,b.path
            if pa is not None and pa[1]==0 and pa[2] is None: pa=None
            if pb is not None and pb[1]==0 and pb[2] is None: pb=None
            if (pa is None)!=(pb is None):
                p=a if pa is None else b
                if self.cint(p.b)==0: return z3.BoolVal(False)
                raise Unsupported('compare interior pointer')
            if pa is not None:
                if pa[:2]!=pb[:2]: raise Unsupported('compare interior pointers')
                i=pa[2] if pa[2] is not None else self.oval(0); j=pb[2] if pb[2] is not None else self.oval(0)
                return z3.And(a.b==b.b,self.off(a.o)==self.off(b.o),i==j)
            if self.iszero(a.o) and self.iszero(b.o): return a.b==b.b
            return z3.And(a.b==b.b,self.off(a.o)==self.off(b.o))
        if a.k in ('l','g'):
            if a.b!=b.b: return z3.BoolVal(False)
            return z3.BoolVal(a.o==b.o) if a.path is None and b.path is None else (a.path[0]==b.path[0])
        return z3.BoolVal(a.b==b.b)
    def arith(self,st,ins,a,b):
        op=ins['op']; w=self.width(ins['ty']) if ins['ty'].startswith('i') else None
        if isinstance(a,PInt) or isinstance(b,PInt):
            if op=='sub' and isinstance(a,PInt) and isinstance(b,PInt): return PDiff(a.p,b.p)
            raise Unsupported('pointer arithmetic')
        if isinstance(a,PDiff):
            if op in ('sdiv','ashr','udiv','lshr') :
                d=lambda p:(self.off(p.o) if p.path is None else (p.path[2] if p.path[2] is not None else self.oval(0)))
                if a.a.k=='h' and a.b.k=='h': self.oblig(st,'pointer difference within one block',a.a.b==a.b.b,'memory'); return d(a.a)-d(a.b)
            raise Unsupported('pointer difference')
        if isinstance(a,Bits) or isinstance(b,Bits): return self.bitop(st,ins,a,b,w)
        if isinstance(a,Packed) or isinstance(b,Packed): return self.packop(st,ins,a,b,w)
        a,b=self.num(a),self.num(b)
        if w==1:
            if not z3.is_bool(a): a=self.tobool(a)
            if not z3.is_bool(b): b=self.tobool(b)
            r={'and':lambda:z3.And(a,b),'or':lambda:z3.Or(a,b),'xor':lambda:z3.Xor(a,b)}
            if op not in r: raise Unsupported('i1 '+op)
            return r[op]()
        if self.mode=='bv':
            if op in ('udiv','sdiv','urem','srem'): self.oblig(st,'division by zero',b!=0,'memory')
            return {'add':lambda:a+b,'sub':lambda:a-b,'mul':lambda:a*b,'and':lambda:a&b,'or':lambda:a|b,'xor':lambda:a^b,'shl':lambda:self.shl(st,a,b,0),'lshr':lambda:self.shl(st,a,b,1),'ashr':lambda:self.shl(st,a,b,2),
              'udiv':lambda:z3.UDiv(a,b),'urem':lambda:z3.URem(a,b),'sdiv':lambda:a/b,'srem':lambda:z3.SRem(a,b)}[op]()
        ca,cb=self.cint(a),self.cint(b)
        if op=='add':
            if cb is not None and cb<0 and not ins.get('nsw'): return z3.If(a>=-cb,a+cb,a+cb+(1<<w))
            return a+b
        if op=='sub':
            if ins.get('name','').startswith('idx.neg'): return a-b     # negated pointer index
            if not ins.get('nsw') and not ins.get('nuw'): return z3.If(a>=b,a-b,a-b+(1<<w))
            return a-b
        if op=='mul': return a*b
        if op in ('sdiv','udiv','urem','srem'):
            self.oblig(st,'division by zero',b!=0,'memory')
            if cb is not None and cb>0:
                q=z3.If(a>=0,a/b,-((-a)/b)) if op[0]=='s' and not self.nonneg(z3.simplify(a)) else a/b
                if op=='sdiv' and not self.nonneg(z3.simplify(a)):
                    d=self.fresh_const(z3.IntSort(),'quo'); st.assume(d==q); return d
                return q if op.endswith('div') else (a%b if op=='urem' or self.nonneg(z3.simplify(a)) else a-q*b)
            f=z3.Function('u'+op[1:],z3.IntSort(),z3.IntSort(),z3.IntSort())(a,b)
            if op.endswith('rem'): st.assume(z3.Implies(z3.And(a>=0,b>0),z3.And(f>=0,f<b,z3.Implies(a<b,f==a))))
            else: st.assume(z3.Implies(z3.And(a>=0,b>0),z3.And(f>=0,f<=a,f*b<=a,a<f*b+b)))
            return f
        if op=='shl':
            if cb is not None: return a*(1<<cb)
            f=z3.Function('pow2',z3.IntSort(),z3.IntSort())(b); st.assume(f>=1); return a*f
        if op in ('lshr','ashr'):
            if cb is not None: return a/(1<<cb)
        if op in ('and','or') and not ins.get('name','').startswith('bf.') and (z3.is_true(z3.simplify(z3.Or(a==0,a==1))) or self.is01(a)) and self.is01(b):
            x,y=self.tobool(a),self.tobool(b); return z3.If(z3.And(x,y) if op=='and' else z3.Or(x,y),z3.IntVal(1),z3.IntVal(0))
        if op=='and':
            if cb is not None and cb>=0 and (cb&(cb+1))==0:
                if ins.get('name','').startswith('bf.'):
                    self.assumed.add('bit-field stores lose nothing'); return Bits([(0,cb.bit_length(),a)])
                return a%(cb+1)
            f=z3.Function('band',z3.IntSort(),z3.IntSort(),z3.IntSort())(a,b)
            st.assume(z3.Implies(z3.And(a>=0,b>=0),z3.And(f>=0,f<=b,f<=a))); return f
        if op in ('or','xor','lshr','ashr'):
            f=z3.Function('i'+op,z3.IntSort(),z3.IntSort(),z3.IntSort())(a,b); return f
        raise Unsupported('arith '+op)
    def is01(self,v):
        if z3.is_int_value(v): return v.as_long() in (0,1)
        return z3.is_app(v) and v.decl().kind()==z3.Z3_OP_ITE and self.is01(v.arg(1)) and self.is01(v.arg(2))
    def shl(self,st,a,b,k):
        if self.cint(b) is None: self.oblig(st,'shift amount in range',z3.ULT(b,z3.BitVecVal(a.size(),b.size())),'memory')
        return a<<b if k==0 else (z3.LShR(a,b) if k==1 else a>>b)
    def bitop(self,st,ins,a,b,w):
        op=ins['op']; cb=self.cint(b) if isz(b) else None
        if op=='and' and isinstance(a,Bits) and cb is not None:
            m=cb&((1<<w)-1); r=[]
            for lo,fw,t in a.f:
                fm=((1<<fw)-1)<<lo
                if fm&m==fm: r.append((lo,fw,t))
                elif fm&m==0: pass
                else: raise Unsupported('bit-field mask')
            return Bits(r)
        if op in ('lshr','ashr','shl') and isinstance(a,Bits) and cb is not None:
            d=cb if op=='shl' else -cb
            return Bits([(lo+d,fw,t) for lo,fw,t in a.f if lo+d>=0 and lo+d<w])
        if op=='or':
            def bs(x):
                if isinstance(x,Bits): return x.f
                c=self.cint(x)
                if c==0: return []
                if c is not None:
                    return [('c',c&((1<<w)-1))]
                raise Unsupported('bit-field or')
            fa,fb=bs(a),bs(b)
            return Bits(fa+fb)
        a=self.bits_term(a) if isinstance(a,Bits) else a; b=self.bits_term(b) if isinstance(b,Bits) else b
        return self.arith(st,ins,a,b)
    def packop(self,st,ins,a,b,w):
        op=ins['op']; cb=self.cint(b) if isz(b) else None
        if isinstance(a,Packed) and cb is not None and cb%8==0 and op in ('lshr','ashr'):
            r=[(o-cb//8,t,x) for o,t,x in a.leaves if o-cb//8>=0]
            return r[0][2] if len(r)==1 and r[0][0]==0 else Packed(r)
        if isinstance(a,Packed) and cb is not None and cb%8==0 and op=='shl': return Packed([(o+cb//8,t,x) for o,t,x in a.leaves])
        raise Unsupported('packed arithmetic')
    # ---- calls
    def call(self,st,fr,ins,work):
        ce=self.val(st,fr,ins['callee'])
        args=[self.val(st,fr,o) for o in ins['ops']]
        if ce is OPQ: return self.opqret(ins)
        if ce.k=='vf':
            name=self.virtual(ce)
        elif ce.k=='fn': name=ce.b
        elif ce.k=='h':
            return self.fpcall(st,ins,ce,args)
        else: raise Unsupported('call through %s'%(ce,))
        fn=self.M.F.get(name) or self.M.D.get(name)
        dem=fn['dem'] if fn else name
        if name.startswith('llvm.'): return self.intrinsic(st,ins,name,args)
        sh=short(dem)
        C=self.lib.find(sh,self.C)
        if C is not None and not (C is self.C and getattr(self.C,'inline_self',False)):
            return self.apply(st,ins,C,args,sh,fn,work)
        bi=self.lib.builtin(sh,dem,name)
        if bi is not None:
            r=bi(self,st,ins,args,sh)
            return r
        if ce.k=='vf' and not (ce.org or '').startswith('_ZTS2DD'): raise Unsupported('virtual call without a contract: '+sh)
        if name in self.M.F:
            if fn.get('noreturn') : return 'dead'
            if len(st.frames)>25: raise Unsupported('inlining too deep: '+sh)
            self.inlined.add(sh)
            f=Frame(fn,fr.cs+(ins['id'],)); f.callins=ins; f.args=args
            for a,v in zip(fn['args'],args): f.regs[a[0]]=v
            st.frames.append(f)
            if fn['hdr'].get(0) is not None: raise Unsupported('loop at entry')
            return 'inlined'
        if fn and fn.get('noreturn'): return 'dead'
        raise Unsupported('call to undefined function '+dem[:120])
    def virtual(self,p):
        """the method a virtual call names: the contract of that method is used at the call, and every override is proved against it"""
        cls=(p.org or '')[4:]; slot=p.o
        fam={'10AbstractDD':'2DD','21AbstractNodeAllocator':'15DDNodeAllocator'}.get(cls)
        for g in [cls]+[x[4:] for x in sorted(self.M.G) if fam and x.startswith('_ZTV'+fam)]:
            d=self.M.G.get('_ZTV'+g)
            if not d or 'init' not in d: continue
            arr=d['init'][2][0][2]
            if slot+2<len(arr) and arr[slot+2][0]=='fn' and 'pure_virtual' not in arr[slot+2][1]: return arr[slot+2][1]
        raise Unsupported('virtual call %s slot %s'%(cls,slot))
    def opqret(self,ins):
        if ins['ty']=='void': return None
        return self.opq(ins['ty'])
    def fpcall(self,st,ins,p,args):
        h=self.lib.fp(p.org,self.C)
        if h is None: raise Unsupported('call through function pointer %s'%p.org)
        return h(self,st,ins,args,p)
    def havoc_local(self,st,p,ty):
        for o,t in self.M.flat(ty):
            q=P('l',p.b,p.o+o); v=self.fresh(t,'hl'); 
            if t=='ptr': st.assume(z3.And(v.b>=0,v.b<st.next))
            self.store_local(st,q,t,v)
    def apply(self,st,ins,C,args,sh,fn,work):
        (self.trusted if C.trusted else self.used).add(sh)
        old=st.copy()
        c=Ctx(self,old,st,args,None,st.frames[-1]); c.ins=ins; c.C=C; c._dem=fn['dem']
        line=self.curline
        if hasattr(self.C,'pre_call'): self.C.pre_call(c,sh)
        for nm,f in C.requires(c): self.oblig(st,'call %s requires: %s'%(sh.split('(')[0],nm),f,'pre')
        for f in C.axioms_(c): st.assume(f)
        mods=C.modifies(c)
        for m in mods:
            if m[0]=='next':
                self.lognext(st); nn=self.fresh_const(z3.IntSort(),'next'); st.assume(nn>=st.next); st.next=nn
        for m in mods:
            if m[0]=='f':
                if m[1].k=='l':
                    aty=st.lnames[m[1].b][1]; cls,*fs=m[2].split('.'); cp=self.cls_path(aty,m[1].o,cls) if aty in self.M.S else None
                    off,fty=self.fieldloc(cp[1] if cp else self.clsty(cls),fs)
                    if fty[0] in '[{%':
                        self.havoc_local(st,P('l',m[1].b,m[1].o+off),fty)
                    else:
                        v=self.fresh(fty,'hm'); 
                        if fty=='ptr': st.assume(z3.And(v.b>=0,v.b<st.next))
                        self.store_local(st,P('l',m[1].b,m[1].o+off),fty,v)
                else:
                    rs,ss=self.locs(m[1],m[2])
                    for r,(vs,arr) in zip(rs,ss):
                        rr=self.reg(st,r,vs,arr); self.logw(st,r,m[1].b,self.off(m[1].o)); row=z3.Select(rr,m[1].b); cell=z3.Select(row,self.off(m[1].o))
                        v=self.fresh_const(cell.sort(),'hm'); st.R[r]=z3.Store(rr,m[1].b,z3.Store(row,self.off(m[1].o),v))
            elif m[0]=='row':
                for r in self.rowregs(m[1]):
                    if r not in st.R and r in self.regsorts: self.reg(st,r,*self.regsorts[r])
                    if r not in st.R: self.logw(st,r,m[2]); st.pend[r]=st.pend.get(r,())+(('row',m[2],self._inc()),)
                    else:
                        self.logw(st,r,m[2]); st.R[r]=z3.Store(st.R[r],m[2],self.fresh_const(z3.Select(st.R[r],m[2]).sort(),'hm'))
            elif m[0]=='reg':
                for r in self.rowregs(m[1]):
                    if r not in st.R and r in self.regsorts: self.reg(st,r,*self.regsorts[r])
                    if r not in st.R: self.logw(st,r,self.fresh_const(z3.IntSort(),'anyb')); st.pend[r]=st.pend.get(r,())+(('reg',None,self._inc()),)
                    else:
                        self.logw(st,r,self.fresh_const(z3.IntSort(),'anyb')); st.R[r]=self.fresh_const(st.R[r].sort(),'hm')
            elif m[0]=='local': self.havoc_local(st,m[1],m[2])
            elif m[0]=='ghost': self.setghost(st,m[1],self.fresh_const(st.ghost[m[1]].sort(),'g'))
        if ins.get('sret') and args and isinstance(args[0],P):
            if args[0].k=='l': self.havoc_local(st,args[0],ins['sret'])
            c.ret=args[0]
        else:
            c.ret=self.fresh(ins['ty'],'r') if ins['ty']!='void' else None
            if hasattr(C,'mkret'): c.ret=C.mkret(c,c.ret)
            elif getattr(C,'returns',None) is not None: c.ret=args[C.returns]
            self.ptr_ok(st,c.ret)
        for nm,f in C.ensures(c):
            if f is False or (isz(f) and z3.is_false(z3.simplify(f))): raise Unsupported('contract of %s contradictory at this call: %s'%(sh,nm))
            st.assume(f)
        if hasattr(self.C,'ghost_call'): self.C.ghost_call(c,sh)
        if ins.get('sret'): return None
        if hasattr(C,'noreturn') and C.noreturn: return 'dead'
        return c.ret
    def ptr_ok(self,st,v):
        if isinstance(v,P) and v.k=='h': st.assume(z3.And(v.b>=0,v.b<st.next))
        if isinstance(v,Agg):
            for x in v.vals.values(): self.ptr_ok(st,x)
    def lognext(self,st):
        for L in st.ghost.get('#loops',()):
            if not self.loopw[L[0]]['next']: self.loopw[L[0]]['next']=True; self.restart()
    def setghost(self,st,name,v):
        for L in st.ghost.get('#loops',()):
            if name not in self.loopw[L[0]]['ghost']: self.loopw[L[0]]['ghost'].add(name); self.restart()
        st.ghost[name]=v
    def intrinsic(self,st,ins,name,args):
        n=name.split('.')[1]
        if n in ('lifetime','dbg','assume','experimental','donothing','invariant'): return None
        if n=='type':
            if isinstance(args[0],P): args[0].org=args[1]
            return z3.BoolVal(True)
        if n=='memcpy' or n=='memmove': self.memcpy(st,args[0],args[1],args[2]); return None
        if n=='memset': self.memset(st,args[0],args[1],args[2]); return None
        if n=='expect': return args[0]
        if n=='trap': return 'dead'
        if n in ('umin','umax','smin','smax'):
            a,b=args[0],args[1]
            lt=(z3.ULT(a,b) if n[0]=='u' else a<b) if self.mode=='bv' else a<b
            return z3.If(lt,a,b) if n.endswith('min') else z3.If(lt,b,a)
        if n=='abs': return z3.If(args[0]<0,-args[0],args[0])
        if n in ('ctpop','ctlz','cttz'):
            a=args[0]
            if self.mode!='bv':
                f=z3.Function(n,z3.IntSort(),z3.IntSort())(a); st.assume(f>=0); return f
            w=a.size(); bv=lambda k:z3.BitVecVal(k,w)
            if n=='ctpop':
                r=bv(0)
                for i in range(w): r=r+z3.ZeroExt(w-1,z3.Extract(i,i,a))
                return r
            return ctz(a) if n=='cttz' else clz(a)
        if n in ('fshl','fshr'):
            a,b,k=args
            if self.mode!='bv': return z3.Function('i'+n,*[z3.IntSort()]*4)(a,b,k)
            w=a.size(); kk=z3.URem(k,z3.BitVecVal(w,w)); x=z3.Concat(a,b); 
            kx=z3.ZeroExt(w,kk)
            return z3.Extract(2*w-1,w,x<<kx) if n=='fshl' else z3.Extract(w-1,0,z3.LShR(x,kx))
        if n in ('umul','uadd','usub','smul','sadd','ssub') and '.with.overflow' in name:
            self.assumed.add('allocation sizes do not overflow'); a,b=args; r={'mul':lambda:a*b,'add':lambda:a+b,'sub':lambda:a-b}[n[1:]]()
            return Agg({0:r,1:z3.BoolVal(False)})
        if n in ('stacksave','stackrestore'): return OPQ
        if n=='vector' : raise Unsupported('vector')
        raise Unsupported('intrinsic '+name)

def clz(a):
    w=a.size(); r=z3.BitVecVal(w,w)
    for i in range(w): r=z3.If(z3.Extract(i,i,a)==1,z3.BitVecVal(w-1-i,w),r)
    return r
def ctz(a):
    w=a.size(); r=z3.BitVecVal(w,w)
    for i in reversed(range(w)): r=z3.If(z3.Extract(i,i,a)==1,z3.BitVecVal(i,w),r)
    return r

_sh={}
def short(dem):
    if dem not in _sh:
        s=strip_tpl(dem); s=re.sub(r'\[abi:\w+\]','',s); _sh[dem]=s
    return _sh[dem]

class Ctx:
    """what a contract or an invariant sees"""
    def __init__(s,ex,old,new,args,ret=None,frame=None,entry=None,lid=None): s.ex=ex;s.old=old;s.new=new;s.a=args;s.ret=ret;s.frame=frame;s.entry=entry;s.lid=lid;s.assuming=False;s.ins=None
    phis=(); _dem=None
    @property
    def dem(s): return s._dem or s.ex.F['dem']
    @property
    def this(s): return s.a[0]
    def rd(s,p,name,idx=None,ty=None): return s.ex.rd(s.new,p,name,idx,ty)
    def rd0(s,p,name,idx=None,ty=None): return s.ex.rd(s.old,p,name,idx,ty)
    def rde(s,p,name,idx=None,ty=None): return s.ex.rd(s.entry,p,name,idx,ty)
    def el(s,ty,p,i,st=None):
        """element i (counted from the pointer) of a block of ty"""
        ex=s.ex; o=ex.off(p.o); o=i if ex.iszero(o) else o+i
        st=st or s.new
        if ty=='ptr': return ex.rget(st,'elem:ptr#b',z3.IntSort(),p.b,o)
        return ex.rget(st,'elem:'+ty,ex.sort(ty),p.b,o)
    def el0(s,ty,p,i): return s.el(ty,p,i,s.old)
    def ele(s,ty,p,i): return s.el(ty,p,i,s.entry)
    def row(s,name,vs,b,st=None): st=st or s.new; return s.ex.sel(st,s.ex.reg(st,name,vs),b)
    def g(s,name): return s.new.ghost[name]
    def fresh(s,sort,hint='k'): return s.ex.fresh_const(sort,hint)
    def arg(s,name):
        for a,v in zip(s.ex.F['args'],s.a):
            if a[1]==name: return v
    def v(s,name,ty=None,cls=None,field=None):
        """local variable by source name; renamed locals are found by type among those the loop writes"""
        c=s.find(name,ty)
        return s.ex.load_local(s.new,P('l',c,0),s.new.lnames[c][1])
    def vp(s,name,ty=None):
        return P('l',s.find(name,ty),0)
    def result(s,name):
        """local `name`, or the caller's result slot it was elided into"""
        try: return s.vp(name)
        except Unsupported:
            if ('sret',) in s.new.L: return P('l',('sret',),0)
            raise
    def find(s,name,ty=None):
        st=s.new; cand=[]
        depth=[f.cs for f in st.frames]
        written={k for (k,o) in s.ex.loopw.get(s.lid,{}).get('locs',{})} if s.lid else set()
        for key,(nm,aty,*_) in st.lnames.items():
            if key not in st.L or key==('sret',): continue
            base=re.sub(r'(\.addr)?\d*$','',nm)
            if ty and aty!=ty: continue
            if base==name or nm==name: cand.append((key in written, depth.index(key[0]) if key[0] in depth else -1, key[1], key))
        if cand: return max(cand)[3]
        if ty:
            alt=[k for k in written if k in st.L and st.lnames[k][1]==ty and re.sub(r'\d*$','',st.lnames[k][0]) not in s.ex.C.names]
            if len(alt)==1: return alt[0]
        raise Unsupported('no local variable %s'%name)
    def v_entry(s,name): 
        c=s.find(name); return s.ex.load_local(s.entry,P('l',c,0),s.entry.lnames[c][1])

class Contract:
    mode='int'; trusted=False; unroll=None; names=(); prop=(); bounds=False
    def __init__(s,pat,**kw):
        s.pat=re.compile(pat)
        for k,v in kw.items(): setattr(s,k,v)
    def requires(s,c): return []
    def ensures(s,c): return []
    def modifies(s,c): return []
    def axioms_(s,c): return []
    def loopinv(s,k): return None

class Lib:
    def __init__(s): s.contracts=[];s.builtins=[];s.fps=[];s._c={}
    def add(s,c): s.contracts.append(c); return c
    def find(s,sh,cur):
        """contract to use for a call made while verifying `cur`"""
        k=(sh,cur.mode if cur else None,getattr(cur,'world',None))
        if k in s._c: return s._c[k]
        r=None
        for c in s.contracts:
            if c.mode!=cur.mode or getattr(c,'no_call',False): continue
            if getattr(c,'world',None) not in (None,getattr(cur,'world',None)): continue
            if c.pat.match(sh): r=c; break
        s._c[k]=r; return r
    def builtin(s,sh,dem,name):
        for p,h in s.builtins:
            if p.match(sh): return h
        return None
    def fp(s,org,cur):
        for p,h in s.fps:
            if org and p.match(org): return h
        return None

# ---------------------------------------------------------------- solving
def has_int(f,_c={}):
    k=f.get_id()
    if k in _c: return _c[k][1]
    r=(z3.is_expr(f) and (z3.is_int(f) or z3.is_real(f) or z3.is_array(f))) or any(has_int(c) for c in f.children())
    _c[k]=(f,r); return r
def abstract(f,tab):
    """replace maximal array reads by constants (a weakening: congruence is dropped)"""
    cache={}
    def go(e):
        k=e.get_id()
        if k in cache: return cache[k]
        if z3.is_app(e) and e.decl().kind()==z3.Z3_OP_SELECT and z3.is_bv(e):
            if k not in tab: tab[k]=(e,z3.BitVec('sel!%d'%len(tab),e.size()))
            r=tab[k][1]
        elif z3.is_app(e) and e.num_args():
            ch=[go(c) for c in e.children()]
            r=e if all(a.eq(b) for a,b in zip(ch,e.children())) else (z3.And(ch) if z3.is_and(e) else z3.Or(ch) if z3.is_or(e) else z3.Concat(*ch) if e.decl().kind()==z3.Z3_OP_CONCAT else e.decl()(*ch))
        else: r=e
        cache[k]=r; return r
    return go(f)
def solve_bv(o,timeout):
    tab={}; hs=[]
    for h in o.hyps:
        h=abstract(z3.simplify(h),tab)
        if not has_int(h) and not has_quant(h): hs.append(h)
    g=abstract(z3.simplify(o.goal),tab)
    if has_int(g): return False
    s=z3.Then('simplify','propagate-values','solve-eqs','simplify','bit-blast','sat').solver(); s.set('timeout',timeout)
    for h in hs: s.add(h)
    s.add(z3.Not(g)); return s.check()==z3.unsat
def ext_z3(text,cfg,ms):
    import subprocess
    try: r=subprocess.run(['/usr/bin/z3','-in','-T:%d'%max(1,ms//1000)]+cfg.split(),input=text+'\n(get-info :reason-unknown)\n',capture_output=True,text=True,timeout=ms/1000+10)
    except Exception as e: return 'timeout'
    l=r.stdout.split('\n')
    if l[0] in ('sat','unsat'): return l[0]
    return 'incomplete' if 'incomplete' in r.stdout else 'timeout'
def solve(o,timeout=20000,strategies=None):
    if o.status=='proved': return
    t=time.time()
    if not has_quant(o.goal) and any(z3.is_bv(x) for x in [o.goal]) or o.kind in ('post','memory','inv'):
        try:
            if not has_quant(o.goal) and solve_bv(o,timeout): o.status='proved'; o.backend='z3/bit-blast'; o.time=time.time()-t; return
        except z3.Z3Exception as e: pass
    q=any(has_quant(h) for h in o.hyps) or has_quant(o.goal)
    strat=strategies or ([('ematch',dict(auto_config=False,mbqi=False)),('4.8.12 ematch','auto_config=false smt.mbqi=false'),('4.8.12','') ,('default',{}),('seed',dict(auto_config=False,mbqi=False,random_seed=7))] if q else [('default',{}),('4.8.12',''),('seed',dict(random_seed=11))])
    inc=False
    for k,(nm,cfg) in enumerate(strat):
        s=z3.Solver()
        tm=timeout if k or len(strat)<3 else min(timeout,6000)
        if isinstance(cfg,str):
            for h in o.hyps: s.add(h)
            s.add(z3.Not(o.goal)); r=ext_z3(s.to_smt2(),cfg,tm)
            if r=='unsat': o.status='proved'; o.backend='z3/'+nm; break
            if r=='sat': o.status='failed'; o.reason=o.reason or 'counterexample'; o.backend='z3/'+nm; break
            if r=='incomplete': inc=True
            o.status='failed' if inc else 'timeout'; o.reason=r if not inc else 'incomplete quantifiers'; o.backend='z3/'+nm
            continue
        s.set('timeout',tm)
        for a,b in cfg.items():
            try: s.set(a,b)
            except z3.Z3Exception: s.set('smt.'+a,b)
        for h in o.hyps: s.add(h)
        s.add(z3.Not(o.goal))
        r=s.check()
        if r==z3.unsat: o.status='proved'; o.backend='z3/'+nm; break
        if r==z3.sat:
            o.status='failed'; o.reason='counterexample'; o.backend='z3/'+nm; o.model=str(s.model())[:4000]; break
        o.backend='z3/'+nm; o.reason=s.reason_unknown()
        if not re.search('timeout|cancel|resource|interrupt',o.reason):
            inc=True
            try: o.model=o.model or str(s.model())[:4000]
            except z3.Z3Exception: pass
        o.status='failed' if inc else 'timeout'
    o.time=time.time()-t
