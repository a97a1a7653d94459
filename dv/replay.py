"""Builds the real library from /repo's working tree and runs a property's concrete driver to exhibit a failing input."""
import os, subprocess, glob, shutil, concurrent.futures as cf
import prog as progmod
REPO = progmod.REPO; VERIF = progmod.VERIF
FLAGS = ["-std=gnu++17", "-O1", "-g1", "-w", "-fopenmp", "-fsanitize=address", "-fno-omit-frame-pointer", "-DHAVE_CONFIG_H", "-I/usr/include/libxml2", '-DQD_SYS_MOD_PATH="/nonexistent"']

def _cc(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.returncode, p.stderr

def run(mod, work, seed, tier):
    """-> (failing input text or None, log)"""
    log = []
    drv = os.path.join(VERIF, "replay", mod.REPLAY)
    if getattr(mod, "REPLAY_TEXT", None):
        drv = os.path.join(work, "replay_" + mod.REPLAY); open(drv, "w").write(mod.REPLAY_TEXT())
    obj = os.path.join(work, "robj"); gen = os.path.join(work, "gen"); os.makedirs(obj, exist_ok=True); os.makedirs(gen, exist_ok=True)
    inc = ["-I", os.path.join(VERIF, "cfg"), "-I", gen, "-I", os.path.join(REPO, "src"), "-I", os.path.join(VERIF, "replay")]
    for d, f in (("qdlib", "GridSystem.proto"), ("tools", "FileSingleHeader.proto")):
        src = os.path.join(REPO, "src", d, f); out = os.path.join(gen, d); os.makedirs(out, exist_ok=True)
        subprocess.run(["protoc", f"--proto_path={os.path.dirname(src)}", f"--cpp_out={out}", src], capture_output=True)
    jobs = []
    header_only = getattr(mod, "REPLAY_HEADER_ONLY", False)
    if not header_only:
        for d in ("math", "tools", "qdlib", "fft", "linalg"):
            for s in sorted(glob.glob(os.path.join(REPO, "src", d, "*.cpp"))):
                b = os.path.basename(s)
                if b in ("m128dc.cpp", "m256dc.cpp", "lapack_rs.cpp"): continue
                jobs.append((s, ["g++"] + FLAGS + inc + ["-I", os.path.dirname(s), "-c", s]))
        for s in glob.glob(os.path.join(gen, "*", "*.cc")): jobs.append((s, ["g++"] + FLAGS + inc + ["-I", os.path.dirname(s), "-c", s]))
        for s in sorted(glob.glob(os.path.join(REPO, "src", "slatec", "*.f"))): jobs.append((s, ["gfortran", "-O1", "-w", "-c", s]))
    else:
        for s in getattr(mod, "REPLAY_SOURCES", []):
            s = os.path.join(REPO, "src", s); jobs.append((s, ["g++"] + FLAGS + inc + ["-I", os.path.dirname(s), "-c", s]))
    objs = []
    def one(j):
        s, cmd = j; o = os.path.join(obj, os.path.basename(s) + ".o")
        rc, err = _cc(cmd + ["-o", o])
        return s, o, rc, err
    exe = os.path.join(work, "driver")
    jobs.append((drv, ["g++"] + FLAGS + inc + ["-c", drv]))
    # biggest first
    with cf.ThreadPoolExecutor(8) as ex:
        for s, o, rc, err in ex.map(one, jobs):
            if rc == 0: objs.append(o)
            else: log.append(f"[replay build] {s}: {err[:800]}")
    lib = os.path.join(work, "libreal.a"); main = os.path.join(obj, os.path.basename(drv) + ".o")
    rest = [o for o in objs if o != main]
    if rest: subprocess.run(["ar", "rcs", lib] + rest)
    libs = [lib] if rest else []
    rc, err = _cc(["g++", "-fopenmp", "-fsanitize=address", main] + libs + libs + ([] if header_only else ["-lfftw3", "-lfftw3_omp", "-llapack", "-lblas", "-lxml2", "-lbz2", "-lz", "-lprotobuf", "-lgfortran", "-lgomp"]) + ["-o", exe])
    if rc:
        log.append("[replay link] " + err[-1500:]); return None, "\n".join(log)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1", OMP_NUM_THREADS=str(getattr(mod, "REPLAY_THREADS", 1)), OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0")
    sc = os.path.join(work, "scratch"); os.makedirs(sc, exist_ok=True)
    try:
        p = subprocess.run([exe, str(seed), tier], capture_output=True, text=True, timeout=240, cwd=sc, env=env, errors="replace")
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b""); out = out.decode(errors="replace") if isinstance(out, bytes) else out
        log.append(out[-2000:] + "\n[replay] driver timed out"); 
        last = [l for l in out.split("\n") if l.startswith("CASE")][-1:]
        return (("does not terminate: " + last[0]) if last else None), "\n".join(log)
    log.append(p.stdout[-2000:]); log.append(p.stderr[:4000])
    fails = [l for l in p.stdout.split("\n") if l.startswith("FAIL")]
    if fails: return "\n".join(fails[:5]), "\n".join(log)
    if p.returncode not in (0,):
        last = [l for l in p.stdout.split("\n") if l.startswith("CASE")][-1:]
        san = [l for l in p.stderr.split("\n") if "ERROR: AddressSanitizer" in l or "terminate called" in l or "what()" in l][:2]
        return f"exit {p.returncode} {' '.join(san)} at {last[0] if last else '(no case)'}", "\n".join(log)
    return None, "\n".join(log)
