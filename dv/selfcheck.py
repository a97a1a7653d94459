"""setup: checks that the tools the verifier needs are present (nothing is built here; every check builds from /repo itself)"""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prog, z3
ok = all(shutil.which(c) for c in (prog.CLANG, prog.OPT, "g++", "gfortran", "protoc"))
print("verifier:", prog.CLANG, "z3", z3.get_version_string(), "ok" if ok else "MISSING TOOLS")
sys.exit(0 if ok else 1)
