#!/usr/bin/env python3
"""Self test of the analyser: every case rewrites source files in an overlay and
states whether a property's rule must fire or stay silent.

usage: run.py [-b BINARY] [-r REPO] [name-or-property substring ...]
"""
import sys, os, json, subprocess, tempfile, importlib.util, glob
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
args = sys.argv[1:]
binary = os.path.join(here, "../analyzer/bin/houndverif")
repo = "/repo"
everything = False
as_prop = None
while args and args[0].startswith("-"):
    if args[0] == "-b": binary = args[1]; args = args[2:]
    elif args[0] == "-all": everything = True; args = args[1:]  # silent cases against every rule
    elif args[0] == "-as": as_prop = args[1]; args = args[2:]  # silent cases against the rules of one property
    elif args[0] == "-r": repo = args[1]; args = args[2:]
    else: sys.exit("bad flag")
cases = []
for f in sorted(glob.glob(os.path.join(here, "cases_*.py"))):
    spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    cases += m.CASES
names = set()
for c in cases:
    if c[0] in names: sys.exit("duplicate case " + c[0])
    names.add(c[0])
    if c[2] not in ("fire", "silent"): sys.exit("bad expectation in " + c[0])
if args:
    cases = [c for c in cases if any(a in c[0] or a == c[1] for a in args)]
if as_prop: cases = [(c[0], as_prop) + tuple(c[2:]) for c in cases if c[2] == "silent"]
if everything: cases = [c for c in cases if c[2] == "silent"]
allprops = sorted({c[1] for c in cases})

def one(c):
    name, prop, want, edits = c[:4]
    ov = {}
    for file, old, new in edits:
        p = os.path.join(repo, file)
        s = ov.get(p)
        if s is None:
            try: s = open(p).read()
            except FileNotFoundError: s = None
        if s is None:
            ov[p] = new; continue
        if s.count(old) < 1: return name, "EDIT DOES NOT APPLY: " + old[:60], ""
        ov[p] = s.replace(old, new, 1) if s.count(old) == 1 or (len(c) > 4 and c[4] == "first") else None
        if ov[p] is None: return name, "EDIT AMBIGUOUS (%d): %s" % (s.count(old), old[:60]), ""
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as t:
        json.dump(ov, t)
    try:
        r = subprocess.run([binary, "-repo", repo] + ([] if everything else ["-prop", prop]) + ["-overlay", t.name, "-known", os.path.join(here, "../known_findings.txt")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return name, "TIMEOUT", ""
    finally:
        os.unlink(t.name)
    fired = r.returncode == 1
    if "does not type-check" in r.stdout: return name, "DOES NOT COMPILE", r.stdout
    und = any(l.startswith("-: ") for l in r.stdout.splitlines())
    if want == "fire" and not fired: return name, "MISSED", r.stdout
    if want == "silent" and fired: return name, "FALSE ALARM", r.stdout
    if want == "fire" and und and "vacuous" not in r.stdout: return name, "ok (undecided)", r.stdout
    return name, "ok", r.stdout
bad = 0
with ThreadPoolExecutor(int(os.environ.get('SELFTEST_JOBS', '4'))) as ex:
    for (n, res, out) in ex.map(one, cases):
        if res.startswith("ok"):
            if len(args): print(n, res, "|", out.splitlines()[0][:170] if out else "")
            continue
        bad += 1
        print("***", n, res, flush=True)
        print("\n".join("      " + l for l in out.splitlines()[:6]))
print(len(cases), "cases,", bad, "bad")
sys.exit(bad > 0)
