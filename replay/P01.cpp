#include "ops.h"
#include "qdlib/ORK4.h"
static cd want(bool fw, bool im, double dt) { cd z = im ? cd(dt, 0) : cd(0, -dt); return fw ? z : -z; }
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 600 && g_fail < 5; it++) {
    int n = ri(1, 4), m = ri(0, 4); double dt = rd(); if (dt == 0) dt = 0.5; QDClock clk(ri(1, 9), dt);
    ORK4 U; std::vector<TestOp*> o; for (int i = 0; i < m; i++) { o.push_back(new TestOp(n)); U.OPropagator::Add(o[i]); }
    bool fw = true, im = false, known = false; std::string hist = "new";
    CASE("refusals"); THROWS("Forward without clock", U.Forward()); THROWS("Backward without clock", U.Backward());
    { WFLevel *w = newwf(rv(n)); THROWS("Init without clock", U.OPropagator::Init(w)); DELETE_WF(w); }
    if (ri(0, 3) == 0) { QDClock z(3, 0); U.Clock(&z); WFLevel *w = newwf(rv(n)); THROWS("Init without time step", U.OPropagator::Init(w)); DELETE_WF(w); }
    U.Clock(&clk); hist += " Clock"; 
    if (ri(0, 3) == 0) THROWS("Init(NULL)", U.OPropagator::Init((WaveFunction*)NULL));
    for (int k = 0; k < 8; k++) {
      CASE("dt=%g members=%d history:%s", dt, m, hist.c_str());
      chkc("Exponent", U.Exponent(), want(fw, im, dt));
      switch (ri(0, 7)) {
        case 0: U.Forward(); fw = true; known = true; hist += " Forward"; break;
        case 1: U.Backward(); fw = false; known = true; hist += " Backward"; break;
        case 2: U.ImaginaryTime(); im = true; hist += " ImaginaryTime"; break;
        case 3: U.RealTime(); im = false; hist += " RealTime"; break;
        case 4: U.Conj(true); fw = false; known = true; hist += " Conj(true)"; break;
        case 5: U.Conj(false); fw = true; known = true; hist += " Conj(false)"; break;
        case 6: { dt = rd() + 2; clk.Dt(dt); U.Clock(&clk); hist += " Clock(dt=" + num(dt) + ")"; break; }
        case 7: { cd z = rc(); U.Exponent(D(z)); chkc("Exponent set", U.Exponent(), z); U.Clock(&clk); hist += " Exponent Clock"; }
      }
      CASE("dt=%g members=%d history:%s", dt, m, hist.c_str());
      chkc("Exponent", U.Exponent(), want(fw, im, dt));
      if (known) { if (((Operator*)&U)->Conj() != !fw) FAIL("adjoint flag of the propagator"); for (int i = 0; i < m; i++) if (o[i]->conjf() != !fw) FAIL("adjoint flag of member %d", i); }
    }
    WFLevel *w = newwf(rv(n)); U.OPropagator::Init(w); for (int i = 0; i < m; i++) if (o[i]->ninit != 1) FAIL("member %d initialised %d times", i, o[i]->ninit);
    if (m && !U.Exists("hamiltonian")) { ORK4 W; CASE("copy after%s", hist.c_str()); W.Copy(&U); chkc("Exponent of the copy", W.Exponent(), S(U.Exponent())); if (W.Operator::Clock() != &clk) FAIL("clock of the copy"); if (W.Size() != m) FAIL("size of the copy");
      bool f2 = fw, i2 = im; if (ri(0, 1)) { W.Clock(&clk); } else if (ri(0, 1)) { i2 = true; W.ImaginaryTime(); } else { i2 = false; W.RealTime(); } chkc("Exponent of the copy after a change of mode", W.Exponent(), want(f2, i2, dt)); }
    DELETE_WF(w);
  }
  return finish(); }
