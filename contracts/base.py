"""Assumed models of the C++ run-time library functions that verified code calls (all listed in the evidence)."""
import re,z3
from vcg import *
LIB=Lib()
def bi(pat):
    def d(h): LIB.builtins.append((re.compile(pat),h)); return h
    return d
@bi(r'operator new(\[\])?\(unsigned long\)$')
def _new(ex,st,ins,a,sh): ex.trusted.add('operator new (fresh block, never fails)'); ex.lognext(st); return ex.alloc(st,a[0])
@bi(r'operator new(\[\])?\(unsigned long, void\*\)$')
def _pnew(ex,st,ins,a,sh): return a[1]
@bi(r'operator delete(\[\])?\(void\*')
def _del(ex,st,ins,a,sh): ex.trusted.add('operator delete (no effect on live objects)'); return None
@bi(r'(malloc)$')
def _malloc(ex,st,ins,a,sh): ex.trusted.add('malloc (fresh block, never fails)'); ex.lognext(st); return ex.alloc(st,a[0])
@bi(r'(free)$')
def _free(ex,st,ins,a,sh): return None
@bi(r'(abort|std::terminate\(\)|__cxa_throw|exit|std::__throw.*|_Unwind_Resume|__cxa_bad.*)$')
def _abort(ex,st,ins,a,sh): return 'dead'
@bi(r'(std::(basic_)?(ostream|ios)|.*operator_shl\(std::(basic_)?ostream|std::operator_shl|std::cout|std::endl|std::flush|std::basic_string|std::__cxx11::basic_string|std::setprecision|std::__cxx11::basic_(o|i)?stringstream|std::ios_base)')
def _io(ex,st,ins,a,sh):
    ex.trusted.add('stream output has no effect on program state')
    return None if ins['ty']=='void' else (OPQ if ins['ty']=='ptr' else ex.opq(ins['ty']))

@bi(r'operator new(\[\])?\(unsigned long, Pool\*\)$')
def _poolnew(ex,st,ins,a,sh): ex.trusted.add('allocation from a Pool returns a block disjoint from all live ones (property C14)'); ex.lognext(st); return ex.alloc(st,a[0])

@bi(r'RL::operator\(\)\(long\) const$')
def _rl(ex,st,ins,a,sh): ex.trusted.add('the relink callback given to Vec::remove does not touch the vector'); ex.setghost(st,'rl',a[1]); return None
