"""C01: every OpenMP parallel loop gives the same result for every team size and split of the iterations."""
from framework import *
import importlib
ID = "C01"; TITLE = "parallel loops are race free and independent of team size and split"
PARTS = ["V01", "V03", "V04", "W03"]; ONLY = {"W03": ("reduce", "inner product", "integral")}
def _mods(): return [importlib.import_module(p) for p in PARTS]
SOURCES = []; SHIMS = {}; LAYOUTS = []
for _m in _mods():
    SOURCES += [s for s in _m.SOURCES if s not in SOURCES]; SHIMS.update(getattr(_m, "SHIMS", {})); LAYOUTS += getattr(_m, "LAYOUTS", [])
REPLAY = "C01.cpp"; REPLAY_THREADS = 7
def REPLAY_TEXT(): return importlib.import_module("V01").REPLAY_TEXT()
KINDS = ("race:", "race-free:", "merge:", "reachable:")
def units(prog, tier):
    us = []
    for m in _mods():
        for u in m.units(prog, tier):
            if u.label not in ONLY.get(m.ID, (u.label,)): continue
            def f(c, u=u):
                c.races = True; u.fn(c)
            n = Unit(f"{m.ID}/{u.label}", f, u.budget); n.keep = lambda o: o.name.startswith(KINDS); us.append(n)
    return us
