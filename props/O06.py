"""O06: operator lists keep track of their members."""
from framework import *
import wfc, vec
from wfc import veq
ID = "O06"; TITLE = "operator lists: membership, flags and broadcast"
SOURCES = ["qdlib/OList.cpp", "qdlib/OSum.cpp", "qdlib/WFLevel.cpp"]
SHIMS = {"ops": '#include "qdlib/Operator.h"\n#include "qdlib/OSum.h"\nusing namespace QDLIB;\nint f(OSum*s, WaveFunction *w){ return sizeof(*s)+sizeof(*w)+sizeof(OList)+(*(OList*)s)[0]->isTimeDep(); }\n'}
REPLAY = "O06.cpp"
ASSUMPTIONS = ["std::map<string, unsigned> behaves as a finite map (find/end/operator[]/assignment contracts over string identities)"]
CLS = "QDLIB::OList"; VT = "_ZTVN5QDLIB4OSumE"; WW = "QDLIB::WaveFunction*"; OO = "QDLIB::Operator*"
STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&"
MAX = 128
def b01(nm): return ite(z3.Bool(nm), P(1), P(0))
def fresh(c, extra=None, name="L"):
    w = c.world(wfc.contracts(extra)); wfc.setup(w)
    n = int_sym("n"); wfc.op(w, "op", 1, n)
    L = mk(w, name, n, "op"); return w, n, L
def mk(w, name, n, ops):
    lay = w.prog.layout(CLS)
    L = wfc.olist(w, CLS, VT, n, ops=ops, name=name, vals={m: b01(f"{name}.{m}") for m in ("_isTimedependent", "_hermitian", "_conj", "_recalc")})
    # names: those present refer to existing members
    has, va = z3.Function(name + ".has", z3.IntSort(), z3.IntSort()), z3.Function(name + ".ix", z3.IntSort(), z3.IntSort())
    wfc.named_map(w, name, lay["_NamedEntries"][0], lambda k: from_z(has(P(k).z())), lambda k: from_z(va(P(k).z())))
    k = int_sym("sk"); w.inv = getattr(w, "inv", {}); w.inv[name] = lambda k: b_and(b_or(eq(from_z(has(P(k).z())), 0), eq(from_z(has(P(k).z())), 1)), b_or(eq(from_z(has(P(k).z())), 0), b_and(le(0, from_z(va(P(k).z()))), lt(from_z(va(P(k).z())), n))))
    return L
def O_(w, st, L="L"): return w.prog.layout(CLS)
def fl(w, st, L, m): return w.fld(st, L, CLS, m)
def el(w, st, i, L="L"): return w.rd(st, L, ('A', w.prog.layout(CLS)["_O"][0], 0), (P(i),))
def opf(w, st, fam, m, ix=()): return w.rd(st, fam, w.prog.layout("QDLIB::Operator")[m][0], tuple(P(x) for x in ix))
def MP(w, L="L"): return f"MAP:{L}.{P(w.prog.layout(CLS)['_NamedEntries'][0])}"
def units(prog, tier):
    return [Unit(l, f) for l, f in (("constructor", u_ctor), ("Add", u_add), ("Add named", u_addn), ("Get", u_get), ("Get named", u_getn), ("Set", u_set), ("Set named", u_setn), ("Size", u_size), ("Conj", u_conj), ("Clock", u_clock), ("UpdateTime", u_upd), ("Init", u_init), ("RecalcInternals", u_recalc), ("Valid", u_valid), ("Copy", u_copy))]
def u_ctor(c):
    w = c.world(wfc.contracts()); wfc.setup(w)
    lay = w.prog.layout(CLS); f = w.obj("L", CLS, {}); fam = w.st.fams["L"]; fam.fields['#m'] = 'i'
    for st, k, v in c.run(w, f"{CLS}::{CLS.split('::')[1]}()", [Ptr("L")]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        w.ex.oblige(st, eq(fl(w, st, f, "_size"), 0), "post:empty"); 
        for m, x in (("_isTimedependent", 0), ("_hermitian", 1), ("_conj", 0), ("_recalc", 1)): w.ex.oblige(st, eq(fl(w, st, f, m), x), f"post:{m} initially {x}")
        w.ex.oblige(st, fl(w, st, f, "clock") == NULL, "post:no clock")
def added(c, w, st, L, x, n, tag=""):
    w.ex.oblige(st, eq(fl(w, st, L, "_size"), n + 1), "post:one more member" + tag); w.ex.oblige(st, el(w, st, n) == x, "post:new member stored last" + tag)
    i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n))); w.ex.oblige(s2, el(w, s2, i) == Ptr("op", (i,)), "post:earlier members unchanged" + tag)
    flags(w, st, L, x, tag)
def flags(w, st, L, x, tag=""):
    p = w.pre; one = lambda m, f: eq(opf(w, p, f, m), 1)
    w.ex.oblige(st, b_or(b_not(b_or(eq(fl(w, p, L, "_isTimedependent"), 1), one("_isTimedependent", x.fam))), eq(fl(w, st, L, "_isTimedependent"), 1)), "post:time dependent if it was or the new member is" + tag)
    w.ex.oblige(st, b_or(b_or(eq(fl(w, p, L, "_isTimedependent"), 1), one("_isTimedependent", x.fam)), eq(fl(w, st, L, "_isTimedependent"), 0)), "post:not time dependent otherwise" + tag)
    w.ex.oblige(st, iff(eq(fl(w, st, L, "_hermitian"), 1), b_and(eq(fl(w, p, L, "_hermitian"), 1), one("_hermitian", x.fam))), "post:hermitian exactly if it was and the new member is" + tag)
    w.ex.oblige(st, eq(opf(w, st, x.fam, "_conj"), fl(w, p, L, "_conj")), "post:new member takes the list's adjoint flag" + tag)
def iff(a, b): return b_and(b_or(b_not(a), b), b_or(b_not(b), a))
def u_add(c):
    w, n, L = fresh(c); x = wfc.op(w, "x"); got = 0
    for st, k, v in c.run(w, f"{CLS}::Add({OO})", [L, x]):
        if k == 'ret':
            w.ex.oblige(st, lt(n, MAX), "post:accepted only below the capacity"); added(c, w, st, L, x, n)
            lay = w.prog.layout(CLS); w.frame(st, lambda f, o: f == "x" and o == w.prog.layout("QDLIB::Operator")["_conj"][0] or f == "L" and o in (lay["_size"][0], lay["_isTimedependent"][0], lay["_hermitian"][0], ('A', lay["_O"][0], 0)), "Add")
        else: w.ex.oblige(st, eq(n, MAX), "post:refused only at the capacity"); w.frame(st, lambda f, o: False, "Add refused")
    w, n, L = fresh(c)
    for st, k, v in c.run(w, f"{CLS}::Add({OO})", [L, NULL], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:null refused"); w.frame(st, lambda f, o: False, "Add null")
def u_addn(c):
    w, n, L = fresh(c); x = wfc.op(w, "x"); s = wfc.string(w, "nm"); k0 = int_sym("nm.id"); w.st.assume(w.inv["L"](k0)); m = MP(w); 
    for st, k, v in c.run(w, f"{CLS}::Add({STR}, {OO})", [L, s, x]):
        had = eq(maphas(w, w.pre, m, k0), 1)
        if k == 'ret':
            w.ex.oblige(st, b_not(had), "post:a name is accepted once"); added(c, w, st, L, x, n, " (named)")
            w.ex.oblige(st, b_and(eq(maphas(w, st, m, k0), 1), eq(mapval(w, st, m, k0), n)), "post:the name leads to the new member")
            j = int_sym("otherid"); s2 = st.copy(); s2.assume(b_not(eq(j, k0))); w.ex.oblige(s2, b_and(eq(maphas(w, s2, m, j), maphas(w, w.pre, m, j)), eq(mapval(w, s2, m, j), mapval(w, w.pre, m, j))), "post:other names unchanged")
        else: w.ex.oblige(st, b_or(had, eq(n, MAX)), "post:refused only for a known name or at the capacity"); w.frame(st, lambda f, o: False, "Add refused")
from wfc import maphas, mapval
def u_get(c):
    for fn in ("Get(int)", "operator[](int)"):
        w, n, L = fresh(c); i = int_sym("i")
        for st, k, v in c.run(w, f"{CLS}::{fn}", [L, i]):
            ok = b_and(le(0, i), lt(i, n))
            w.ex.oblige(st, ok if k == 'ret' else b_not(ok), f"post:{fn} accepts exactly the existing indices")
            if k == 'ret': w.ex.oblige(st, v == Ptr("op", (i,)), f"post:{fn} returns the member")
            w.frame(st, lambda f, o: False, fn)
def u_getn(c):
    for fn in ("Get", "operator[]", "GetIndex", "Exists"):
        w, n, L = fresh(c); s = wfc.string(w, "nm"); k0 = int_sym("nm.id"); w.st.assume(w.inv["L"](k0)); m = MP(w)
        for st, k, v in c.run(w, f"{CLS}::{fn}({STR})", [L, s]):
            had = eq(maphas(w, w.pre, m, k0), 1); ix = mapval(w, w.pre, m, k0)
            if fn == "Exists": w.ex.oblige(st, k == 'ret' and iff(asb(v), had), "post:Exists")
            else:
                w.ex.oblige(st, had if k == 'ret' else b_not(had), f"post:{fn} accepts exactly the known names")
                if k == 'ret': w.ex.oblige(st, eq(v, ix) if fn == "GetIndex" else ptreq(v, "op", ix), f"post:{fn} returns the named member")
            w.frame(st, lambda f, o: False, fn)
def ptreq(p, fam, ix): return isinstance(p, Ptr) and p.fam == fam and eq(p.ix[0], ix)
def asb(v):
    if isinstance(v, Poly): return b_not(eq(v, 0))
    return v
def u_set(c):
    w, n, L = fresh(c); x = wfc.op(w, "x"); i = int_sym("i")
    for st, k, v in c.run(w, f"{CLS}::Set(int, {OO})", [L, i, x]):
        ok = b_and(le(0, i), lt(i, n)); w.ex.oblige(st, ok if k == 'ret' else b_not(ok), "post:accepts exactly the existing indices")
        if k == 'ret': setpost(w, st, L, x, i, n)
        else: w.frame(st, lambda f, o: False, "Set refused")
    w, n, L = fresh(c); i = int_sym("i")
    for st, k, v in c.run(w, f"{CLS}::Set(int, {OO})", [L, i, NULL], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:null refused"); w.frame(st, lambda f, o: False, "Set null")
def setpost(w, st, L, x, i, n):
    w.ex.oblige(st, eq(fl(w, st, L, "_size"), n), "post:size unchanged"); w.ex.oblige(st, el(w, st, i) == x, "post:member replaced")
    j = int_sym("j"); s2 = st.copy(); s2.assume(b_and(le(0, j), lt(j, n), b_not(eq(i, j)))); w.ex.oblige(s2, el(w, s2, j) == Ptr("op", (j,)), "post:other members unchanged")
    p = w.pre
    w.ex.oblige(st, b_or(b_not(b_or(eq(fl(w, p, L, "_isTimedependent"), 1), eq(opf(w, p, "x", "_isTimedependent"), 1))), eq(fl(w, st, L, "_isTimedependent"), 1)), "post:time dependence never lost")
    w.ex.oblige(st, b_or(b_and(eq(fl(w, p, L, "_hermitian"), 1), eq(opf(w, p, "x", "_hermitian"), 1)), eq(fl(w, st, L, "_hermitian"), 0)), "post:not hermitian when the new member is not")
    w.ex.oblige(st, eq(opf(w, st, "x", "_conj"), fl(w, p, L, "_conj")), "post:new member takes the list's adjoint flag")
def u_setn(c):
    w, n, L = fresh(c); x = wfc.op(w, "x"); s = wfc.string(w, "nm"); k0 = int_sym("nm.id"); w.st.assume(w.inv["L"](k0)); m = MP(w)
    for st, k, v in c.run(w, f"{CLS}::Set({STR}, {OO})", [L, s, x]):
        had = eq(maphas(w, w.pre, m, k0), 1); w.ex.oblige(st, had if k == 'ret' else b_not(had), "post:accepts exactly the known names")
        if k == 'ret': setpost(w, st, L, x, mapval(w, w.pre, m, k0), n)
def u_size(c):
    w, n, L = fresh(c)
    for st, k, v in c.run(w, f"{CLS}::Size() const", [L]): w.ex.oblige(st, eq(v, n), "post:number of members"); w.frame(st, lambda f, o: False, "Size")
def every(w, st, n, fn, name):
    i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n))); w.ex.oblige(s2, fn(s2, i), name)
def u_conj(c):
    for b in (0, 1):
        w, n, L = fresh(c); oc = w.prog.layout("QDLIB::Operator")["_conj"][0]
        for st, k, v in c.run(w, f"{CLS}::Conj(bool)", [L, P(b)]):
            w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, eq(fl(w, st, L, "_conj"), b), "post:flag of the list"); every(w, st, n, lambda s, i: eq(opf(w, s, "op", "_conj", (i,)), b), "post:flag of every member")
            w.frame(st, lambda f, o: o == oc and f in ("op", "L"), "Conj")
def u_clock(c):
    w, n, L = fresh(c); w.st.fam(Fam("clk", 'struct', size=16)); oc = w.prog.layout("QDLIB::Operator")["clock"][0]
    for st, k, v in c.run(w, f"{CLS}::Clock(QDLIB::QDClock*)", [L, Ptr("clk")]):
        w.ex.oblige(st, fl(w, st, L, "clock") == Ptr("clk"), "post:clock of the list"); every(w, st, n, lambda s, i: opf(w, s, "op", "clock", (i,)) == Ptr("clk"), "post:clock of every member")
        w.frame(st, lambda f, o: o == oc and f in ("op", "L"), "Clock")
def marked(c, sig, args, tag, want, mk=None):
    w, n, L = fresh(c); a = [mk(w)] if mk else args
    for st, k, v in c.run(w, f"{CLS}::{sig}", [L] + a):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        every(w, st, n, lambda s, i: eq(w.rd(s, "op", '#' + tag, (i,)) if '#' + tag in s.fams["op"].bases else P(0), want), f"post:{tag} reaches every member")
        if tag == "RecalcInternals": w.ex.oblige(st, eq(fl(w, st, L, "_recalc"), want), "post:flag of the list")
        w.frame(st, lambda f, o: o == '#' + tag or (tag == "RecalcInternals" and f == "L" and o == w.prog.layout(CLS)["_recalc"][0]), tag)
def u_upd(c): marked(c, "UpdateTime()", [], "UpdateTime", 1)
def u_init(c): marked(c, f"Init({WW})", None, "Init", 1, lambda w: wfc.wf(w, "s", const=True))
def u_recalc(c): marked(c, "RecalcInternals(bool)", [P(1)], "RecalcInternals", 1)
def u_valid(c):
    w, n, L = fresh(c); w.ex.loophist = True; s = wfc.wf(w, "s", const=True); vf = lambda i: wfc.uf_bool("Valid:op", (P(i),))
    for st, k, v in c.run(w, f"{CLS}::Valid({WW})", [L, s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); b = asb(v)
        q = z3.Int("q"); allv = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < P(n).z()), vf(P(q) if False else from_z(q))))
        w.ex.oblige(st, iff(b, allv), "post:valid exactly if every member is"); w.frame(st, lambda f, o: False, "Valid")
    w, n, L = fresh(c)
    for st, k, v in c.run(w, f"{CLS}::Valid({WW})", [L, NULL]): w.ex.oblige(st, b_not(asb(v)), "post:null is not valid")
@wfc.contract
def k_opassign(ex, st, args, I, name):
    """*dest = src: dest becomes a copy of src (recorded as a ghost mark)"""
    d, s = args; f = wfc.isop(ex, st, d, I, "assign"); wfc.isop(ex, st, s, I, "assign")
    if not s.fam.startswith("op"): raise Unsupported("assignment from " + s.fam)
    if '#copyof' not in f.bases: f.bases['#copyof'] = lambda X: P(-1); f.fields['#copyof'] = 'i'
    st.mem[(f.name, '#copyof')] = ex.column(st, f, '#copyof', 'i').write(d.ix, s.ix[0]); return d
def u_copy(c):
    w, n, R = fresh(c, {"virt:OP::operator=(QDLIB::Operator*)": k_opassign}, "R"); m = int_sym("m"); wfc.op(w, "old", 1, m)
    L = mk(w, "L", m, "old"); w.st.fams["R"].dyn = {CLS: True}
    for st, k, v in c.run(w, f"{CLS}::Copy({OO})", [L, R]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k != 'ret': continue
        w.ex.oblige(st, eq(fl(w, st, L, "_size"), n), "post:size copied")
        i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n))); p = el(w, s2, i)
        ok = isinstance(p, Ptr) and p.fam not in w.pre.fams and p.fam is not None
        w.ex.oblige(s2, ok, "post:members are new objects")
        if ok:
            w.ex.oblige(s2, eq(w.rd(s2, p.fam, '#copyof', p.ix), i), "post:member i copies member i of the source")
            j = int_sym("j"); s3 = s2.copy(); s3.assume(b_and(le(0, j), lt(j, n), b_not(eq(i, j)))); q = el(w, s3, j); w.ex.oblige(s3, q.fam != p.fam or b_not(b_and(*[eq(a, b) for a, b in zip(p.ix, q.ix)])), "post:members are distinct objects")
        for mm in ("_isTimedependent", "_hermitian", "_conj"): w.ex.oblige(st, eq(fl(w, st, L, mm), fl(w, w.pre, R, mm)), f"post:{mm} copied")
        kk = int_sym("kk"); w.ex.oblige(st, b_and(eq(maphas(w, st, MP(w), kk), maphas(w, w.pre, MP(w, "R"), kk)), eq(mapval(w, st, MP(w), kk), mapval(w, w.pre, MP(w, "R"), kk))), "post:names copied")
        w.frame(st, lambda f, o: f in ("L", MP(w)), "Copy")
    w, n, R = fresh(c, {"virt:OP::operator=(QDLIB::Operator*)": k_opassign}, "R"); L = mk(w, "L", n, "op"); w.st.fams["R"].dyn = {CLS: False}
    for st, k, v in c.run(w, f"{CLS}::Copy({OO})", [L, R], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:other kinds refused"); w.frame(st, lambda f, o: False, "Copy refused")
