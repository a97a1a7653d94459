"""Shared contracts: memory manager, logger and other services used by many functions."""
from spec import *
import re

def contract(f): f.is_contract = True; return f

@contract
def k_align(ex, st, args, I, name):
    """Memory::Align(p, n): *p becomes a fresh block of n bytes (or the request throws)"""
    t = st.copy(); t.gh['throw'] = 'memory'
    ex.store(st, args[1], intrin.alloc(ex, st, args[2], "block", raw=True, I=I), PTRTY, I)
    return [(st, 'ret', None), (t, 'throw', None)]
@contract
def k_free(ex, st, args, I, name):
    """Memory::Free(p): releases a block obtained from Align; null and unknown pointers are ignored"""
    intrin.free(ex, st, args[1], I); return None
@contract
def k_copy(ex, st, args, I, name):
    intrin.copy_bytes(ex, st, args[0], args[1], args[2], I); return None
@contract
def k_mem(ex, st, args, I, name):
    if "G:mem" not in st.fams: st.fam(Fam("G:mem", 'struct', size=128))
    return Ptr("G:mem")

k_copy.logged = True; k_mem.logged = True       # allowed in parallel regions: accesses are reported; the singleton exists once anything was allocated

class _T: pass
PTRTY = _T(); PTRTY.kind = 'ptr'; PTRTY.size = 8
DBL = _T(); DBL.kind = 'double'; DBL.size = 8
BOOL = _T(); BOOL.kind = 'int'; BOOL.size = 1; BOOL.bits = 8
INT = _T(); INT.kind = 'int'; INT.size = 4; INT.bits = 32

def mem():
    return {"QDLIB::Memory::Instance()": k_mem, "QDLIB::Memory::Align(void**, unsigned long)": k_align,
            "QDLIB::Memory::Free(void*)": k_free, "QDLIB::Memory::Copy(char*, char*, unsigned long)": k_copy}
def rets(outs): return [o for o in outs if o[1] == 'ret']

# std::vector<number> values created by a specification: ghost length and elements
def stdvec(w, name, kind, n, val, const=True):
    es = 8 if kind == 'd' else 4
    w.st.fam(Fam(name, 'struct', size=24, const=const, fields={'#len': 'i'}, bases={'#len': lambda X: P(n)}))
    w.st.fam(Fam("SV:" + name, 'array', esize=es, count=P(n), fields={0: kind}, bases={0: lambda X: val(X[0])}, const=const)); return Ptr(name)
def _sv(ex, st, p, I):
    f = st.fams.get(p.fam) if isinstance(p, Ptr) else None
    if f is None or '#len' not in f.fields: raise Unsupported(f"std::vector at {p}")
    return f
@contract
def k_svsize(ex, st, args, I, name):
    f = _sv(ex, st, args[0], I); return col_eval(ex.column(st, f, '#len', 'i'), args[0].ix)
@contract
def k_svat(ex, st, args, I, name):
    f = _sv(ex, st, args[0], I); d = st.fams["SV:" + f.name]; return Ptr(d.name, (), P(args[1]) * d.esize)
STDVEC = [(lambda d: bool(re.match(r"std::vector<(int|double|unsigned int|long|unsigned long), .*>::size\(\) const$", d)), k_svsize),
          (lambda d: bool(re.match(r"std::vector<(int|double|unsigned int|long|unsigned long), .*>::operator\[\]\(unsigned long\)( const)?$", d)), k_svat)]
