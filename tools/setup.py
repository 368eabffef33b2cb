"""Sanity of the tools the checks need; the checks build everything else themselves from /repo."""
import glob, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("java", "clang++", "ar", "protoc"):
    if not shutil.which(t):
        sys.exit("missing tool " + t)
sys.path.insert(0, V + "/lib")
import vlib
for d in (vlib.CACHE,):
    os.makedirs(d, exist_ok=True)
r = subprocess.run(["java", "-cp", vlib.TLA_CP, "tla2sany.SANY"] + sorted(glob.glob("*MC.tla", root_dir=vlib.SPECS)), cwd=vlib.SPECS, capture_output=True, text=True)
if r.returncode or "Fatal" in r.stdout or "*** Errors" in r.stdout:
    sys.exit("specifications do not parse:\n" + r.stdout[-2000:])
print("setup ok")
