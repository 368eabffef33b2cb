"""Do the trace specifications reject what did not happen?  python3 tools/selftest.py [--n N] ID...
Runs a check, corrupts its recorded traces (one field of one event changed, an event dropped, repeated or swapped with
its neighbour; one corruption per episode) and counts, per kind of corruption, how many corrupted episodes TLC still
accepts.  A field whose corruption is always accepted is not constrained by the specification.  Not used by any check."""
import json, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
import vlib, importlib

N = 1500
args = sys.argv[1:]
if args and args[0] == "--n":
    N = int(args[1]); args = args[2:]
if args and args[0] == "--trace":     # module, file
    jobs = [(args[1], args[2])]; ids = []
else:
    jobs = []; ids = args or ["C%02d" % k for k in range(1, 20)]

def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if not x: yield path, x
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    else:
        yield path, x
def put(x, path, v):
    for p in path[:-1]: x = x[p]
    x[path[-1]] = v

def corrupt(ep, rnd, pool):
    ep = [json.loads(json.dumps(e)) for e in ep]
    for _ in range(20):
        op = rnd.choice(["field"] * 6 + ["drop", "dup", "swap"])
        i = rnd.randrange(len(ep))
        if op == "field":
            e = ep[i]
            ls = [(p, v) for p, v in leaves(e) if p and p != ("ev",)]
            if not ls: continue
            p, v = rnd.choice(ls)
            key = tuple(str(k) if isinstance(k, str) else "#" for k in p)
            if isinstance(v, bool): w = not v
            elif isinstance(v, int):
                alt = [a for a in pool.get((e["ev"], key), []) if isinstance(a, int) and a != v]
                w = rnd.choice([v + 1, v - 1] + ([rnd.choice(alt)] if alt else []))
                if not -2**31 <= w < 2**31: continue
            elif isinstance(v, str):
                alt = [a for a in pool.get((e["ev"], key), []) if isinstance(a, str) and a != v]
                if not alt: continue
                w = rnd.choice(alt)
            else: continue
            put(e, p, w)
            return ep, "%s.%s" % (e["ev"], ".".join(key)), "%r -> %r" % (v, w)
        if i == 0: continue
        if op == "drop":
            k = ep[i]["ev"]; del ep[i]; return ep, "drop " + k, ""
        if op == "dup":
            ep.insert(i, ep[i]); return ep, "dup " + ep[i]["ev"], ""
        if i + 1 < len(ep) and ep[i] != ep[i + 1]:
            ep[i], ep[i + 1] = ep[i + 1], ep[i]; return ep, "swap %s %s" % (ep[i]["ev"], ep[i + 1]["ev"]), ""
    return None

def job(module, path):
    rnd = random.Random(7)
    eps = []
    for line in open(path):
        e = json.loads(line)
        if e["ev"] == "Begin": eps.append([])
        eps[-1].append(e)
    pool = {}
    for ep in eps:
        for e in ep:
            for p, v in leaves(e):
                key = tuple(str(k) if isinstance(k, str) else "#" for k in p)
                s = pool.setdefault((e["ev"], key), [])
                if len(s) < 400 and not isinstance(v, list): s.append(v)
    todo = []
    cand = [e for e in eps if sum(map(lambda x: len(str(x)), e)) < 60000]
    while len(todo) < N:
        c = corrupt(rnd.choice(cand), rnd, pool)
        if c: todo.append(c)
    stat = {}; ex = {}
    tmp = tempfile.mkdtemp()
    # a wrapper that prints the episodes that reach their end; evaluation errors stop TLC, so bisect around them
    def run(batch):
        f = tmp + "/t.ndjson"; starts = {}; n = 0
        with open(f, "w") as o:
            for k, (ep, _, _) in enumerate(batch):
                for e in ep:
                    n += 1
                    if e["ev"] == "Begin": starts[n] = k
                    o.write(json.dumps(e) + "\n")
        ends = {}
        m = 0
        for k, (ep, _, _) in enumerate(batch):
            m += len(ep); ends[m] = k
        mod = "SelfTest"
        open(tmp + "/SelfTest.tla", "w").write("---- MODULE SelfTest ----\nEXTENDS %s\nAcc == AtEnd => PrintT(<<\"ACC\", l>>)\n====\n" % module)
        cfg = open(vlib.SPECS + "/" + module + ".cfg").read()
        open(tmp + "/s.cfg", "w").write(cfg + "\nCHECK_DEADLOCK FALSE\nINVARIANT Acc\n")
        p = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx4g", "-Xss64m", "-DTLA-Library=" + vlib.SPECS, "-cp", vlib.TLA_CP, "tlc2.TLC", "-continue",
                            "-config", tmp + "/s.cfg", "-workers", "2", "-metadir", tmp + "/meta", "-noGenerateSpecTE", tmp + "/SelfTest.tla"],
                           cwd=tmp, env=dict(os.environ, TRACE=f), capture_output=True, text=True)
        shutil.rmtree(tmp + "/meta", ignore_errors=True)
        acc = {ends[int(x)] for x in re.findall(r'<<"ACC", (\d+)>>', p.stdout) if int(x) in ends}
        ok = "Model checking completed" in p.stdout or "Finished" in p.stdout and p.returncode in (0, 11, 12, 13)
        return acc, ok, p.stdout
    def go(batch):
        acc, ok, out = run(batch)
        if ok or len(batch) == 1:
            for k, (_, what, d) in enumerate(batch):
                s = stat.setdefault(what, [0, 0, 0]); s[0] += 1
                if not ok: s[2] += 1; ex.setdefault("ERR " + what, d + " :: " + " | ".join(l for l in out.splitlines() if l.startswith("Error") or "ttempted" in l)[:300])
                elif k in acc: s[1] += 1; ex.setdefault(what, d)
        else:
            h = max(1, len(batch) // 4)
            for i in range(0, len(batch), h): go(batch[i:i + h])
    go(todo)
    tot = sum(s[0] for s in stat.values()); a = sum(s[1] for s in stat.values()); er = sum(s[2] for s in stat.values())
    print("== %s: %d corrupted episodes, %d still accepted, %d evaluation errors" % (module, tot, a, er))
    for w, s in sorted(stat.items(), key=lambda x: -x[1][1]):
        if s[1] or s[2]: print("   %-40s %4d accepted of %4d, %d errors   e.g. %s" % (w, s[1], s[0], s[2], ex.get(w) or ex.get("ERR " + w, "")))
    sys.stdout.flush()
    shutil.rmtree(tmp)

for i in ids:
    c = vlib.Check(i)
    def val(self, module, trace, **kw): jobs.append((module, trace)); return 1
    vlib.Check.validate = val
    vlib.Check.design = lambda *a, **k: None
    try:
        importlib.import_module(i.lower()).main(c)
    except (vlib.Violation, vlib.CheckError) as e:
        print(i, e)
    for m, t in jobs:
        print(i, end=" ")
        job(m, t)
    jobs = []
for m, t in jobs: job(m, t)
vlib.cleanup()
