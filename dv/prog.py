"""Compiles /repo sources to LLVM bitcode (per run, from the working tree) and indexes functions/vtables/layouts."""
import os, subprocess, re, ctypes, hashlib, shutil, tempfile, concurrent.futures as cf
import llvmc

REPO = os.environ.get("DV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = next((c for c in ("/usr/lib/llvm-18/bin/clang++", "/usr/bin/clang++-18") if os.path.exists(c)), "clang++-18")
OPT = next((c for c in ("/usr/lib/llvm-18/bin/opt", "/usr/bin/opt-18") if os.path.exists(c)), "opt-18")
PASSES = "function(sroa,early-cse,simplifycfg)"

class ExtractError(Exception):
    pass

_cxa = ctypes.CDLL("libstdc++.so.6").__cxa_demangle
_cxa.restype = ctypes.c_void_p; _cxa.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.POINTER(ctypes.c_int)]
_free = ctypes.CDLL(None).free; _free.argtypes = [ctypes.c_void_p]
_dm = {}
def demangle(n):
    r = _dm.get(n)
    if r is None:
        st = ctypes.c_int(); p = _cxa(n.encode(), None, None, ctypes.byref(st))
        if p and st.value == 0:
            r = ctypes.string_at(p).decode(); _free(p)
        else: r = n
        _dm[n] = r
    return r

def base_flags(work):
    return ["-std=gnu++17", "-O1", "-Xclang", "-disable-llvm-passes", "-femit-all-decls", "-fno-strict-aliasing",
            "-fopenmp", "-ffp-contract=off", "-fno-math-errno", "-gline-tables-only", "-w", "-DHAVE_CONFIG_H", "-DQD_SYS_MOD_PATH=\"/usr/lib/qdng/\"",
            "-I", os.path.join(VERIF, "cfg"), "-I", os.path.join(work, "gen"), "-I", os.path.join(REPO, "src")]

class Prog:
    def __init__(self, work):
        self.work = work; os.makedirs(os.path.join(work, "gen"), exist_ok=True)
        self.mods = []; self.where = {}; self._fn = {}; self.sources = []
        self._protos()
        self.layouts = {}; self._want_layout = set()

    def shim(self, name, text, layouts=True):
        """a translation unit that only #includes /repo headers (and takes addresses to force emission)"""
        fn = os.path.join(self.work, name + ".cpp")
        with open(fn, "w") as f: f.write(text)
        if layouts: self._want_layout.add(fn)
        return fn

    def _parse_layouts(self, txt):
        cur = None
        for ln in txt.split("\n"):
            if "| " not in ln: cur = None; continue
            if "*** Dumping" in ln: cur = None; continue
            a, b = ln.split("|", 1)
            if cur is not None and b.strip().startswith("[sizeof="):
                self.layouts[cur[0]]["#size"] = (int(re.search(r"sizeof=(\d+)", b).group(1)), "")
                cur = None; continue
            a = a.strip()
            if not a or not a.split(":")[0].isdigit(): continue
            off = int(a.split(":")[0])
            ind = len(b) - len(b.lstrip()); t = b.strip()
            if ind == 1:
                m = re.match(r"(class|struct) (QDLIB::.*?)( \(empty\))?$", t)
                if m and m.group(2) not in self.layouts:
                    cur = (m.group(2), {1: ""}); self.layouts[m.group(2)] = {}
                else: cur = None
                continue
            if cur is None: continue
            name, scopes = cur
            for k in [k for k in scopes if k >= ind]: del scopes[k]
            par = scopes.get(max(scopes), None) if scopes else None
            if par is None: scopes[ind] = None; continue
            if re.search(r"\((primary |virtual )?base\)", t):
                scopes[ind] = par; continue
            if t.endswith("vtable pointer)"):
                self.layouts[name].setdefault(par + "#vptr", (off, "vptr")); continue
            m = re.match(r"(.*[ *&])(\w+)$", t)
            if not m: scopes[ind] = None; continue
            ty, fn = m.group(1).strip(), m.group(2)
            key = par + fn
            while key in self.layouts[name] and self.layouts[name][key][0] != off: key += "'"      # a derived class may reuse a base member's name
            self.layouts[name].setdefault(key, (off, ty))
            scopes[ind] = None if "std::" in ty or "google" in ty else par + fn + "."

    @staticmethod
    def _nk(c):
        c = c.replace("struct ", "").replace("class ", "")
        i = c.find("<")
        return c if i < 0 else c[:i] + c[i:].replace("QDLIB::", "")
    def layout(self, cls):
        l = self.layouts.get(cls)
        if l is None:
            k = self._nk(cls)
            l = next((v for n, v in self.layouts.items() if self._nk(n) == k), None)
            if l is not None: self.layouts[cls] = l
        if l is None: raise ExtractError("no layout for " + cls)
        return l

    def off(self, cls, field):
        l = self.layout(cls)
        if field not in l: raise ExtractError(f"no member {field} in {cls}")
        return l[field][0]

    def _protos(self):
        gen = os.path.join(self.work, "gen")
        for d, f in (("qdlib", "GridSystem.proto"), ("tools", "FileSingleHeader.proto")):
            src = os.path.join(REPO, "src", d, f)
            if not os.path.exists(src): continue
            out = os.path.join(gen, d); os.makedirs(out, exist_ok=True)
            p = subprocess.run(["protoc", f"--proto_path={os.path.dirname(src)}", f"--cpp_out={out}", src], capture_output=True, text=True)
            if p.returncode: raise ExtractError("protoc: " + p.stderr[:500])

    def _compile(self, src):
        path = src if os.path.isabs(src) else os.path.join(REPO, "src", src)
        tag = re.sub(r"\W", "_", src)
        raw = os.path.join(self.work, tag + ".raw.bc"); bc = os.path.join(self.work, tag + ".bc")
        flags = base_flags(self.work)
        extra = ["-Xclang", "-fdump-record-layouts"] if tag in self._want_layout or src in self._want_layout else []
        if path.startswith(REPO): flags = flags + ["-I", os.path.dirname(path)]
        p = subprocess.run([CLANG] + flags + extra + ["-c", "-emit-llvm", path, "-o", raw], capture_output=True, text=True)
        if p.returncode: raise ExtractError(f"clang failed on {src}:\n" + p.stderr[:2000])
        if extra: self._parse_layouts(p.stdout)
        p = subprocess.run([OPT, "-passes=" + PASSES, raw, "-o", bc], capture_output=True, text=True)
        if p.returncode: raise ExtractError(f"opt failed on {src}:\n" + p.stderr[:2000])
        os.unlink(raw)
        return bc

    def load(self, srcs):
        srcs = [s for s in srcs if s not in self.sources]
        with cf.ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(self._compile, srcs))
        for s, b in zip(srcs, bcs):
            m = llvmc.Module(b); m.src = s
            self.mods.append(m); self.sources.append(s)
            for n in m.fns: self.where.setdefault(n, m)
        self._idx = None

    def fn(self, name):
        m = self.where.get(name)
        if m is None and re.search(r"[CD]1(E|I)", name):   # complete-object constructor/destructor emitted as alias of the base-object one
            alt = re.sub(r"([CD])1(E|I)", r"\g<1>2\2", name); m = self.where.get(alt)
            if m: return m.fn(alt)
        return m.fn(name) if m else None

    def find(self, sig):
        """mangled name(s) of a function by demangled signature"""
        if self._idx is None:
            self._idx = {}
            for n in self.where:
                d = demangle(n)
                if d.endswith("]"): d = re.sub(r"\[abi:\w+\]", "", d)
                old = self._idx.get(d)
                if old is None or ("D0E" in old and "D2E" in n): self._idx[d] = n      # a destructor means the base-object one, not the deleting one
                # prefer complete-object constructors (C1) but C2 is equivalent here
        return self._idx.get(sig)

    def glob(self, name):
        for m in self.mods:
            g = m.globals.get(name)
            if g and not llvmc.isDecl(g): return m, g
        return None, None

    def vslots(self, cls):
        """vtable tables of class symbol _ZTV..."""
        for m in self.mods:
            v = m.vtable(cls)
            if v: return v
        return None
