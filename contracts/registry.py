"""All contract modules.  K: contracts (each names the properties it serves), LEMMAS: property -> lemma units."""
import base
MODULES=['natset','gnset','vec','pool','msort','heap','cqueue','htab','misc','nodes','core']
def load():
    import importlib
    K=[];L={}
    for m in MODULES:
        mod=importlib.import_module(m); K+=mod.K
        for p,l in getattr(mod,'LEMMAS',{}).items(): L.setdefault(p,[]).extend(l)
        for k in mod.K: k.module=m
    lib=base.LIB; lib.contracts=K
    return lib,K,L
# property -> replay harness (bounded search for failing inputs against the real code)
REPLAY={
 'C01':dict(src='core.cpp',args=['bb'],quick=12000,thorough=400000,chunk=20),
 'C02':dict(src='core.cpp',args=['incumbent'],quick=12000,thorough=400000,chunk=20),
 'C03':dict(src='core.cpp',args=['exact'],quick=60000,thorough=3000000),
 'C04':dict(src='core.cpp',args=['restricted'],quick=60000,thorough=2000000),
 'C05':dict(src='core.cpp',args=['relaxed'],quick=60000,thorough=2000000),
 'C06':dict(src='core.cpp',args=['cutset'],quick=60000,thorough=2000000),
 'C07':dict(src='ds.cpp',args=['htab'],quick=20000,thorough=1000000),
 'C08':dict(src='ds.cpp',args=['nodes'],quick=20000,thorough=1000000),
 'C09':dict(src='ds.cpp',args=['heap'],quick=20000,thorough=1000000),
 'C10':dict(src='ds.cpp',args=['queue'],quick=20000,thorough=1000000),
 'C11':dict(src='sets.cpp',args=['natset'],quick=60000,thorough=2000000),
 'C12':dict(src='sets.cpp',args=['gnset'],quick=60000,thorough=2000000),
 'C13':dict(src='sets.cpp',args=['hash'],quick=60000,thorough=2000000),
 'C14':dict(src='ds.cpp',args=['pool'],quick=20000,thorough=1000000),
 'C15':dict(src='ds.cpp',args=['vec'],quick=20000,thorough=1000000),
 'C16':dict(src='ds.cpp',args=['sort'],quick=20000,thorough=1000000),
 'C17':dict(src='ds.cpp',args=['misc'],quick=20000,thorough=1000000),
}
