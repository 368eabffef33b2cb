"""Evaluate planted bugs: python3 tools/plant.py ID... (no ID: all). For each: patch applies, touches original lines,
builds, stable tests pass, demo fails with it / passes without, and which checks catch it. Undoes the patch afterwards.
Not used by any check. --nocheck / --notest skip parts; --all-checks runs every check against it."""
import json, os, re, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded"
def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)
def undo():
    run(["git", "-C", "/repo", "checkout", "--", "."])
def stable_ok():
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base.get("passed") or base.get("stable") or base.get("tests") or [])
    out = tempfile.mktemp(suffix=".json")
    r = run(["bash", "/opt/vp/test.sh", out])
    d = json.load(open(out)); os.remove(out)
    missing = want - set(d["passed"])
    return len(want) > 400 and not missing, sorted(missing)[:5]
def demo(i):
    return run(["bash", os.path.join(S, i, "demo.sh")], cwd="/repo", timeout=300).returncode
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = {a for a in sys.argv[1:] if a.startswith("--")}
ids = args or sorted(os.listdir(S))
assert not run(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip(), "repo dirty"
res = {}
try:
    for i in ids:
        meta = json.load(open(os.path.join(S, i, "meta.json")))
        r = {"property": meta["property"]}
        a = run(["git", "-C", "/repo", "apply", os.path.join(S, i, "patch.diff")])
        if a.returncode:
            r["error"] = a.stderr; res[i] = r; print(i, r, flush=True); continue
        t = time.time()
        if "--notest" not in opts:
            r["tests"] = stable_ok()
        r["demo_with"] = demo(i)
        if "--nocheck" not in opts:
            for c in ([f"C{k:02d}" for k in range(1, 100) if os.path.exists(f"{V}/checks/c{k:02d}.py")] if "--all-checks" in opts else [meta["property"]]):
                k = run(["python3", "check.py", c], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                v = re.findall(r"^VIOLATION property=(\S+)", k.stdout, re.M)
                r["check_" + c] = (k.returncode, v)
                why = [l for l in (k.stdout + k.stderr).splitlines() if "VIOLATION" in l or "violat" in l.lower() or "what" in l][:3]
                r["why_" + c] = why or (k.stdout + k.stderr)[-300:] if k.returncode else ""
        undo()
        r["demo_without"] = demo(i)
        r["wall"] = round(time.time() - t)
        ok = r.get("tests", (True,))[0] and r["demo_with"] not in (0,) and r["demo_without"] == 0
        caught = any(isinstance(x, tuple) and x[0] == 1 for k, x in r.items() if k.startswith("check_"))
        print(i, "VALID" if ok else "INVALID", "CAUGHT" if caught else "missed", json.dumps(r), flush=True)
        res[i] = r
finally:
    undo()
