"""Runs one property: extraction from /repo, proof units (forked), vacuity guard, replay on failure, evidence."""
import os, sys, json, time, tempfile, shutil, subprocess, importlib, traceback, multiprocessing as mp, signal
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, "props"))
import prog as progmod, exec as execmod
from spec import *

BASE_TRUST = [
 "clang 18 front end + sroa/early-cse/simplifycfg (C++ source, -fopenmp as in the build, to LLVM IR; a parallel region is executed as a team of one, other teams are covered by C01)",
 "dv executor/loop rule (this repository, /verif/dv): memory model of disjoint regions, closed forms checked as inductive invariants",
 "z3 5.3 and cvc5 1.1.2 verdicts 'unsat'",
 "machine integers treated as mathematical integers; doubles treated as mathematical reals (rounding, overflow and NaN are not modelled)",
 "non-MPI configuration (cfg/config.h = the configuration of the baseline build; no SSE/AVX code paths)",
]

class Unit:
    def __init__(s, label, fn, budget=240): s.label = label; s.fn = fn; s.budget = budget

class UCtx:
    """what a proof unit sees"""
    def __init__(s, prog, label, tier):
        s.prog = prog; s.label = label; s.tier = tier
        s.S = new_solver(); s.exs = []; s.deadline = None; s.fns = set()
        s.paths = 0; s.races = False
    def world(s, contracts=None, patterns=None, label=None):
        ex = Exec(s.prog, s.S, contracts); ex.patterns = list(patterns or []); ex.fnname = label or s.label
        ex.deadline = s.deadline; ex.races = s.races
        s.exs.append(ex)
        return World(s.prog, ex)
    def fn(s, sig):
        m = sig if sig.startswith("_Z") and sig in s.prog.where else s.prog.find(sig)
        if m is None: raise ExtractError(f"function {sig} not found in the sources")
        s.fns.add(progmod.demangle(m))
        return m
    def run(s, w, sig, args, expect_ret=True):
        """execute; returns outcomes; vacuity guard: some normal return must be reachable"""
        outs = w.run(s.fn(sig), args)
        rets = [o for o in outs if o[1] == 'ret']
        live = [o for o in rets if w.ex.S.sat(o[0].pc, True) != z3.unsat]
        s.paths += len(outs)
        if expect_ret:
            w.ex._rec(f"reachable:{short(sig)}", "proved" if live else "unknown", "z3", 0.0, "" if live else "no reachable normal return (vacuous contract)")
        return outs

def short(sig):
    i = sig.find("("); h = sig[:i] if i > 0 else sig
    return h.replace("QDLIB::", "")

def run_unit(args):
    prog, u, tier, idx = args
    t0 = time.time()
    c = UCtx(prog, u.label, tier); c.deadline = t0 + u.budget * (3 if tier == "thorough" else 1)
    err = None
    def onalarm(*a): raise Unsupported("unit time budget")
    signal.signal(signal.SIGALRM, onalarm); signal.alarm(int(u.budget * (3 if tier == "thorough" else 1)) + 30)
    try: u.fn(c)
    except (Unsupported, ExtractError) as e: err = ("unsupported", str(e))
    except RecursionError as e: err = ("unsupported", "recursion depth")
    except Exception as e: err = ("internal", traceback.format_exc()[-5000:])
    finally: signal.alarm(0)
    keep = getattr(u, "keep", None)
    obls = [(o.fn, o.name, o.status, o.backend, o.time, o.detail) for ex in c.exs for o in ex.obls if keep is None or keep(o)]
    if err: obls.append((u.label, f"verify:{u.label}", "unknown", "-", 0.0, f"{err[0]}: {err[1]}"))
    return dict(label=u.label, obls=obls, fns=sorted(c.fns), inlined=sorted(set().union(*[ex.inlined for ex in c.exs]) if c.exs else []),
                contracts=sorted(set().union(*[ex.used_contracts for ex in c.exs]) if c.exs else []),
                opaque=sorted(set().union(*[ex.opaque for ex in c.exs]) if c.exs else []),
                trusted=sorted(intrin.TRUSTED), time=time.time()-t0, q=c.S.nq, tq=c.S.tq,
                cov=sorted(execmod.COV) if execmod.COV is not None else [], loops=sum(ex.loopstats["loops"] for ex in c.exs), cf=sum(ex.loopstats["closed_forms"] for ex in c.exs), paths=c.paths)

_G = {}
def _w(i):
    return run_unit((_G["prog"], _G["units"][i], _G["tier"], i))

def prove(mod, tier, work, jobs=8):
    prog = progmod.Prog(work)
    srcs = [s if s.endswith(".cpp") else s for s in mod.SOURCES]
    for name, text in getattr(mod, "SHIMS", {}).items(): srcs.append(prog.shim(name, text))
    prog._want_layout |= set(getattr(mod, "LAYOUTS", []))
    prog.load(srcs)
    units = mod.units(prog, tier)
    _G.update(prog=prog, units=units, tier=tier)
    if jobs <= 1 or len(units) == 1: return [_w(i) for i in range(len(units))]
    ctx = mp.get_context("fork")
    res = []
    with ctx.Pool(min(jobs, len(units)), maxtasksperchild=1) as pool:
        rs = [pool.apply_async(_w, (i,)) for i in range(len(units))]
        for i, r in enumerate(rs):
            try: res.append(r.get(timeout=units[i].budget * (3 if tier == "thorough" else 1) + 420))
            except Exception as e:
                res.append(dict(label=units[i].label, obls=[(units[i].label, f"verify:{units[i].label}", "unknown", "-", 0.0, f"no answer: {type(e).__name__} {e}")],
                                fns=[], inlined=[], contracts=[], opaque=[], trusted=[], time=0, q=0, tq=0, loops=0, cf=0, paths=0))
    return res

def known_findings(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == prop]

def main(argv):
    prop = argv[1]; tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    verbose = "-v" in argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module(prop)
    work = tempfile.mkdtemp(prefix=f"dv_{prop}_")
    old = os.path.join(VERIF, "evidence", "replay", f"{prop}.txt")
    if os.path.exists(old): os.unlink(old)
    try:
        try: res = prove(mod, tier, work)
        except ExtractError as e:
            res = [dict(label="extraction", obls=[("extraction", "extract", "unknown", "-", 0.0, str(e))], fns=[], inlined=[], contracts=[], opaque=[], trusted=[], time=0, q=0, tq=0, loops=0, cf=0, paths=0)]
        except Exception as e:
            res = [dict(label="extraction", obls=[("extraction", "extract", "unknown", "-", 0.0, traceback.format_exc()[-1500:])], fns=[], inlined=[], contracts=[], opaque=[], trusted=[], time=0, q=0, tq=0, loops=0, cf=0, paths=0)]
        if os.environ.get('DV_COV'): json.dump(sorted(set((a.split('/src/')[-1], b) for r in res for a, b in r.get('cov', []) if a)), open(os.environ['DV_COV'], 'w'))
        obls = [o for r in res for o in r["obls"]]
        bad = [o for o in obls if o[2] != "proved"]
        ok = [o for o in obls if o[2] == "proved"]
        kf = known_findings(prop); hit = set()
        viol = []
        for o in bad:
            k = next((k for k in kf if k.get("unit") == o[0] and o[1] in k.get("obligations", [])), None)
            if k: hit.add(k["id"])
            else: viol.append(o)
        if not obls: viol.append(("none", "vacuous", "unknown", "-", 0, "no obligations generated"))
        if verbose:
            for o in obls:
                if o[2] != "proved" or "-vv" in argv: print(f"  [{o[2]}] {o[0]} :: {o[1]} ({o[3]}, {o[4]:.2f}s)\n     " + o[5].replace("\n", "\n     ")[:1800])
            for r in res: print(f"  unit {r['label']}: {len(r['obls'])} obligations, {r['time']:.1f}s, {r['q']} queries, {r['loops']} loops")
        rc = 0; replay = None; failing = None
        xcheck = None
        need_replay = (bool(viol) or tier == "thorough") and not os.environ.get("DV_NOREPLAY")
        if need_replay and getattr(mod, "REPLAY", None):
            import replay as rp
            failing, log = rp.run(mod, work, seed, tier)
            xcheck = {"driver": mod.REPLAY, "failing_input": failing, "log_tail": log[-400:]}
        else: log = "no replay driver run"
        if "[replay link]" in log or "[replay build]" in log: print("note: replay driver incomplete: " + log[:300])
        if viol or failing:
            rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
            replay = os.path.join(rd, f"{prop}.txt")
            with open(replay, "w") as f:
                f.write(f"property {prop}: {mod.TITLE}\n")
                for o in viol: f.write(f"\nFAILED OBLIGATION [{o[2]} by {o[3]}] unit={o[0]} obligation={o[1]}\n{o[5]}\n")
                f.write("\n--- replay of the real code ---\n")
                f.write((f"failing input found:\n{failing}\n" if failing else "no failing input found\n") + "\n" + log[-6000:] + "\n")
            for o in viol[:8]: print(f"failed obligation: {o[0]} :: {o[1]} [{o[2]}]")
            if failing: print("failing input: " + failing.split("\n")[0][:300])
            print(f"VIOLATION property={prop} replay={replay}" + ("" if failing else " no-failing-input-found"))
            rc = 1
        for k in kf:
            if k["id"] in hit: print(f"KNOWN-FINDING: property={prop} {k['what']}")
        fns = sorted(set(f for r in res for f in r["fns"])); inl = sorted(set(f for r in res for f in r["inlined"]))
        bym = {}
        for o in ok: bym[o[3]] = bym.get(o[3], 0) + 1
        bounded = [list(b) for b in getattr(mod, "BOUNDED", [])]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "proof"),
              "coverage": {"obligations": len(obls), "discharged": len(ok), "checker_cmd": f"/verif/check {prop}" + (" --thorough" if tier == "thorough" else ""),
                           "trusted_base": BASE_TRUST + list(getattr(mod, "TRUSTED", [])),
                           "functions_under_contract": fns, "functions_verified_by_inlining": inl,
                           "contracts_used_at_calls": sorted(set(f for r in res for f in r["contracts"])),
                           "opaque_library_calls": sorted(set(f for r in res for f in r["opaque"]))[:60],
                           "trusted_intrinsics": sorted(set(f for r in res for f in r["trusted"])),
                           "backends": bym, "solver_queries": sum(r["q"] for r in res), "solver_s": round(sum(r["tq"] for r in res), 2),
                           "loops_with_checked_closed_forms": sum(r["loops"] for r in res), "closed_forms": sum(r["cf"] for r in res),
                           "paths": sum(r["paths"] for r in res), "units": [[r["label"], len(r["obls"]), round(r["time"], 2)] for r in res],
                           "bounded_stand_ins": bounded},
              "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time()-t0, 2), "violations": len(viol) + (1 if failing and not viol else 0)}
        if xcheck: ev["coverage"]["replay_cross_check"] = xcheck
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f: json.dump(ev, f, indent=1)
        print(f"{prop}: {len(ok)}/{len(obls)} obligations discharged, {len(fns)} functions under contract, {len(inl)} inlined, {time.time()-t0:.1f}s")
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main(sys.argv))
