#include "ops.h"
#include "qdlib/OSum.h"
#include "qdlib/OProduct.h"
#include <map>
struct Model { std::vector<TestOp*> o; std::map<std::string, int> nm; bool td, he, cj; };
static void same(const char *w, OList &L, Model &m) {
  if (L.Size() != (int)m.o.size()) { FAIL("%s: size %d instead of %d", w, L.Size(), (int)m.o.size()); return; }
  for (size_t i = 0; i < m.o.size(); i++) if (L.Get(i) != m.o[i] || L[(int)i] != m.o[i]) { FAIL("%s: member %d", w, (int)i); return; }
  for (auto &p : m.nm) { if (!L.Exists(p.first) || L.GetIndex(p.first) != p.second || L.Get(p.first) != m.o[p.second] || L[p.first] != m.o[p.second]) { FAIL("%s: name %s", w, p.first.c_str()); return; } }
  if (L.isTimeDep() != m.td) FAIL("%s: time dependence flag %d of %d members", w, L.isTimeDep(), (int)m.o.size()); if (L.Hermitian() != m.he) FAIL("%s: hermitian flag %d of %d members", w, L.Hermitian(), (int)m.o.size());
  for (auto q : m.o) if (q->conjf() != m.cj) { FAIL("%s: adjoint flag of a member", w); break; }
}
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 300 && g_fail < 5; it++) { int n = 2; OSum L; Model m; m.td = false; m.he = true; m.cj = false; bool poor = it % 3 == 0; QDClock k(9, 0.1); WFLevel *w = newwf(rv(n)); std::vector<TestOp*> all; std::string hist;
    #define NEW() (all.push_back(new TestOp(n, poor ? ri(0, 9) : true, poor ? !ri(0, 9) : false)), all.back())
    if (L.Size() != 0 || L.isTimeDep() || !L.Hermitian()) FAIL("new list");
    for (int s = 0; s < 30 && !g_fail; s++) { int a = ri(0, 11); char b[64]; snprintf(b, sizeof b, "key%d", ri(0, 6)); hist += " " + std::to_string(a); CASE("list history%s", hist.c_str());
      if (a <= 1) { TestOp *o = NEW(); L.Add(o); m.o.push_back(o); m.td |= o->isTimeDep(); m.he &= o->Hermitian(); }
      else if (a <= 3) { TestOp *o = NEW(); if (m.nm.count(b)) THROWS("known name", L.Add(b, o)); else { L.Add(b, o); m.nm[b] = m.o.size(); m.o.push_back(o); m.td |= o->isTimeDep(); m.he &= o->Hermitian(); } }
      else if (a == 4) { int i = ri(-2, m.o.size() + 1); TestOp *o = NEW(); if (i < 0 || i >= (int)m.o.size()) { THROWS("Set outside", L.Set(i, o)); THROWS("Get outside", L.Get(i)); THROWS("[] outside", L[i]); } else { bool t = o->isTimeDep() || m.td, h = o->Hermitian() && m.he; L.Set(i, o); m.o[i] = o; if (t && !L.isTimeDep()) FAIL("time dependence lost by Set"); if (!h && L.Hermitian()) FAIL("hermitian after Set of a member that is not"); m.td = L.isTimeDep(); m.he = L.Hermitian(); } }
      else if (a == 5) { TestOp *o = NEW(); if (!m.nm.count(b)) { THROWS("Set of unknown name", L.Set(b, o)); THROWS("Get of unknown name", L.Get(b)); THROWS("GetIndex of unknown name", L.GetIndex(b)); if (L.Exists(b)) FAIL("Exists"); } else { bool t = o->isTimeDep() || m.td, h = o->Hermitian() && m.he; L.Set(b, o); m.o[m.nm[b]] = o; if (t && !L.isTimeDep()) FAIL("time dependence lost by Set"); if (!h && L.Hermitian()) FAIL("hermitian after Set of a member that is not"); m.td = L.isTimeDep(); m.he = L.Hermitian(); } }
      else if (a == 6) { bool x = ri(0, 1); L.Conj(x); m.cj = x; }
      else if (a == 7) { L.Clock(&k); for (auto q : m.o) if (q->clk() != &k) FAIL("Clock did not reach a member"); if (((Operator&)L).Clock() != &k) FAIL("Clock of the list"); }
      else if (a == 8) { std::vector<int> u; for (auto q : m.o) u.push_back(q->nupd); L.UpdateTime(); for (size_t i = 0; i < u.size(); i++) if (m.o[i]->nupd != u[i] + 1) FAIL("UpdateTime member %d", (int)i); }
      else if (a == 9) { std::vector<int> u; for (auto q : m.o) u.push_back(q->ninit); L.Init(w); for (size_t i = 0; i < u.size(); i++) if (m.o[i]->ninit != u[i] + 1) FAIL("Init member %d", (int)i); bool r = ri(0, 1); L.RecalcInternals(r); for (auto q : m.o) if (q->reclast != r) FAIL("RecalcInternals"); }
      else if (a == 10) { bool all_ = true; for (auto q : m.o) { q->valid = ri(0, 4); all_ &= q->valid; } if (L.Valid(w) != all_) FAIL("Valid of %d members", (int)m.o.size()); if (L.Valid(NULL)) FAIL("Valid(NULL)"); }
      else { THROWS("Add(NULL)", L.Add((Operator*)NULL)); OSum K; ((OList*)&K)->OList::Copy(&L); if (K.Size() != L.Size()) FAIL("Copy size"); else { for (int i = 0; i < K.Size(); i++) { TestOp *t = dynamic_cast<TestOp*>(K.Get(i)); if (!t || t == m.o[i] || t->M != m.o[i]->M) { FAIL("Copy member %d", i); break; } } for (auto &p : m.nm) if (!K.Exists(p.first) || K.GetIndex(p.first) != p.second) FAIL("Copy loses name"); if (K.isTimeDep() != L.isTimeDep() || K.Hermitian() != L.Hermitian()) FAIL("Copy flags"); TestOp x(n); K.Add(&x); if (x.conjf() != m.cj) FAIL("Copy adjoint state"); } TestOp z(n); THROWS("Copy of another kind", ((OList*)&K)->OList::Copy(&z)); }
      same("list", L, m); }
    if (it % 20 == 0) { CASE("capacity"); OSum F; TestOp x(n); for (int i = 0; i < 128; i++) F.Add(&x); THROWS("member 129", F.Add(&x)); THROWS("named member 129", F.Add("q", &x)); if (F.Exists("q") || F.Size() != 128) FAIL("refused Add changed the list"); }
    DELETE_WF(w); for (auto q : all) DELETE_OP(q); }
  return finish(); }
