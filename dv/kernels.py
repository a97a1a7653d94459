"""Contracts of the elementwise vector kernels (math/codelets): one formula each, read element-wise (proved, property V01)
and vector-wise (used at calls by the operator-level proofs).  p0 is the destination."""
from spec import *
import vec
from vec import VecVal

CV = "QDLIB::Vector<QDLIB::dcomplex>*"; DV = "QDLIB::Vector<double>*"; DD = "double"; CC = "QDLIB::dcomplex"
def m(*a): return ('*',) + a
def p(*a): return ('+',) + a
KERNELS = [
 ("AddElements",           "VV",   p('p0', 'p1')),
 ("AddElements",           "VVc",  p('p0', m('p1', 'p2'))),
 ("AddElements",           "VVd",  p('p0', m('p1', 'p2'))),
 ("AddElementsEq",         "VVV",  p('p1', 'p2')),
 ("ExpElements",           "VVc",  ('exp', m('p1', 'p2'))),
 ("ExpElements",           "VDc",  ('exp', m('p1', 'p2'))),
 ("Im",                    "V",    ('im', 'p0')),
 ("Im",                    "VV",   ('im', 'p1')),
 ("Re",                    "V",    ('re', 'p0')),
 ("Re",                    "VV",   ('re', 'p1')),
 ("Abs",                   "DV",   ('abs', 'p1')),
 ("MultElementsAdd",       "VVD",  p('p0', m('p1', 'p2'))),
 ("MultElementsAdd",       "VVDd", p('p0', m('p1', 'p2', 'p3'))),
 ("MultElementsAdd",       "VVc",  p('p0', m('p1', 'p2'))),
 ("MultElementsAdd",       "VVd",  p('p0', m('p1', 'p2'))),
 ("MultElements",          "VV",   m('p0', 'p1')),
 ("MultElements",          "VVD",  m('p1', 'p2')),
 ("MultElements",          "VVDd", m('p1', 'p2', 'p3')),
 ("MultElements",          "VVd",  m('p0', 'p1', 'p2')),
 ("MultElements",          "VD",   m('p0', 'p1')),
 ("MultElements",          "VDc",  m('p0', 'p1', 'p2')),
 ("MultElements",          "VDd",  m('p0', 'p1', 'p2')),
 ("MultElements",          "Vc",   m('p0', 'p1')),
 ("MultElements",          "Vd",   m('p0', 'p1')),
 ("MultElements",          "Dd",   m('p0', 'p1')),
 ("MultElementsComplex",   "VVDd", m('p0', 'p1', 'I', 'p2', 'p3')),
 ("MultElementsComplex",   "VVd",  m('p0', 'I', 'p1', 'p2')),
 ("MultElementsComplex",   "VDd",  m('p0', 'I', 'p1', 'p2')),
 ("MultElementsComplexEq", "VVDd", m('p1', 'p2', 'I', 'p3')),
 ("MultElementsConjugate", "VVVd", m(('conj', 'p1'), 'p2', 'p3')),
 ("MultElementsConjugate", "VVd",  m(('conj', 'p0'), 'p1', 'p2')),
 ("MultElementsCopy",      "VVV",  m('p1', 'p2')),
 ("MultElementsCopy",      "VVVd", m('p1', 'p2', 'p3')),
 ("MultElementsCopy",      "VVD",  m('p1', 'p2')),
 ("MultElementsCopy",      "VVDd", m('p1', 'p2', 'p3')),
 ("MultElementsCopy",      "VVc",  m('p1', 'p2')),
 ("MultElementsCopy",      "VVd",  m('p1', 'p2')),
]
def sig(name, kinds):
    return f"QDLIB::{name}(" + ", ".join({'V': CV, 'D': DV, 'd': DD, 'c': CC}[k] for k in kinds) + ")"

def cexp_(a):
    e = intrin.math1("exp", a[0])
    return (rmul(intrin.math1("cos", a[1]), e), rmul(intrin.math1("sin", a[1]), e))
def ev_elem(e, env):
    """env: name -> complex pair"""
    if isinstance(e, str): return (R(0), R(1)) if e == 'I' else env[e]
    a = [ev_elem(x, env) for x in e[1:]]
    if e[0] == '+': return cadd(a[0], a[1])
    if e[0] == '*':
        r = a[0]
        for x in a[1:]: r = cmul(r, x)
        return r
    if e[0] == 'conj': return cconj(a[0])
    if e[0] == 're': return (a[0][0], R(0))
    if e[0] == 'im': return (a[0][1], R(0))
    if e[0] == 'abs': return (intrin.math1("sqrt", radd(rmul(a[0][0], a[0][0]), rmul(a[0][1], a[0][1]))), R(0))
    if e[0] == 'exp': return cexp_(a[0])
    raise Unsupported("kernel formula")

class D:      # a real diagonal
    def __init__(s, name): s.name = name
def ev_vec(e, env):
    """env: name -> VecVal | D | complex pair"""
    if isinstance(e, str): return (R(0), R(1)) if e == 'I' else env[e]
    a = [ev_vec(x, env) for x in e[1:]]
    if e[0] == '+': return a[0].add(a[1])
    if e[0] == '*':
        vs = [x for x in a if isinstance(x, VecVal)]; ds = [x for x in a if isinstance(x, D)]; cs = [x for x in a if isinstance(x, tuple) and not isinstance(x[0], str)]
        cj = [x for x in a if isinstance(x, tuple) and isinstance(x[0], str) and x[0] == 'conj!']
        if cj: r = vec.had(cj[0][1], vs[0], True)
        elif len(vs) == 1: r = vs[0]
        elif len(vs) == 2: r = vec.had(vs[0], vs[1], False)
        else:
            c = (R(1), R(0))
            for x in cs: c = vec.c_mul(c, x)
            return ('dscaled', ds[0].name, c)
        for d in ds: r = vec.app(d.name, r)
        for c in cs: r = r.scale(c)
        return r
    if e[0] == 'conj': return ('conj!', a[0])
    if e[0] in ('re', 'im'): return vec.nl(e[0], a[0])
    if e[0] == 'exp':
        x = a[0]
        if isinstance(x, tuple) and isinstance(x[0], str) and x[0] == 'dscaled': return vec.nl('expdiag', x[1], vec.Z(z3.simplify(x[2][0])), vec.Z(z3.simplify(x[2][1])))
        return vec.nl('exp', x)
    raise Unsupported("kernel formula " + str(e[0]))
