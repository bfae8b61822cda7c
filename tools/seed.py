"""Development helper: create and validate planted bugs (not used by any check).

seed.py new ID PROP FILE  (reads a JSON spec from stdin: {"edits": [[file, old, new]...], "demo": "...", "needs": "...",
"breaks": "..."}) writes /verif/seeded/ID.
seed.py test ID...  copies /repo, runs the demo before/after and the test suite after.
seed.py catch [ID...]  applies each to /repo, runs the property's check (or --all), undoes it.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = V + "/seeded"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           XLA_FLAGS="--xla_cpu_multi_thread_eigen=false", PYTHONHASHSEED="0")
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, timeout=None):
  return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                        timeout=timeout)


def new(spec):
  d = tempfile.mkdtemp(prefix="seednew")
  try:
    sh(f"cp -a /repo {d}/r && cd {d}/r && git checkout -q -- .")
    r = d + "/r"
    for f, old, nw in spec["edits"]:
      p = f"{r}/jaxopt/_src/{f}"
      s = open(p).read()
      assert s.count(old) == 1, (spec["id"], f, old, s.count(old))
      open(p, "w").write(s.replace(old, nw))
    diff = sh("git diff", cwd=r).stdout
  finally:
    shutil.rmtree(d)
  o = f"{SEED}/{spec['id']}"
  os.makedirs(o, exist_ok=True)
  open(o + "/patch.diff", "w").write(diff)
  open(o + "/demo.sh", "w").write(DEMO)
  os.chmod(o + "/demo.sh", 0o755)
  open(o + "/demo.py", "w").write(spec["demo"])
  json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
            open(o + "/meta.json", "w"), indent=1)


def test(ids, suite=True):
  base = json.load(open("/opt/vp/BASELINE.json"))
  stable = set(base if isinstance(base, list) else base.get("passed") or base.get("stable") or base.get("tests"))
  for i in ids:
    d = tempfile.mkdtemp(prefix="seedtest")
    try:
      sh(f"cp -a /repo {d}/r && cd {d}/r && git checkout -q -- .")
      r = d + "/r"
      a = sh(f"bash {SEED}/{i}/demo.sh", cwd=r, timeout=300)
      ap = sh(f"git apply {SEED}/{i}/patch.diff", cwd=r)
      b = sh(f"bash {SEED}/{i}/demo.sh", cwd=r, timeout=300)
      ok = a.returncode == 0 and b.returncode != 0 and ap.returncode == 0
      print(i, "clean", a.returncode, "apply", ap.returncode, "patched", b.returncode, "OK" if ok else "BAD", flush=True)
      if not ok:
        print(a.stdout[-1500:], ap.stdout, b.stdout[-1500:])
        continue
      print("   demo:", b.stdout.strip().splitlines()[-1:])
      if suite:
        sh(f"{PY} -m pytest -q --tb=line -n 8 -p no:cacheprovider --timeout=180 --timeout-method=thread "
           f"--continue-on-collection-errors -o junit_family=xunit2 --junitxml={d}/j.xml tests", cwd=r)
        sh(f"python3 /opt/vp/results.py {d}/out.json junit:{d}/j.xml")
        res = json.load(open(d + "/out.json"))
        passed = set(res.get("passed", []))
        lost = sorted(stable - passed)
        print("  ", i, "suite:", len(passed), "passed; lost", len(lost), lost[:5], flush=True)
    finally:
      shutil.rmtree(d)


def catch(ids, allp=False, pids=None):
  props = [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
  for i in ids:
    m = json.load(open(f"{SEED}/{i}/meta.json"))
    todo = pids or (props if allp else [m["property"]])
    hit = []
    d = tempfile.mkdtemp(prefix="seedcatch")
    try:
      sh(f"mkdir {d}/r && git -C /repo archive HEAD | tar -x -C {d}/r && cd {d}/r && git init -q && git apply {SEED}/{i}/patch.diff")
      for p in todo:
        if p not in props:
          hit.append(p + ":unclaimed")
          continue
        x = sh(f"JAXOPT_REPO={d}/r python3 -m sa.check {p} quick", cwd=V)
        if x.returncode == 1:
          hit.append(p)
          ln = [l for l in x.stdout.splitlines() if l.startswith("  rule")]
          hit.append("(" + "; ".join(l.strip()[:110] for l in ln[:1]) + ")")
        elif x.returncode != 0:
          hit.append(f"{p}:rc{x.returncode}")
    finally:
      shutil.rmtree(d)
    print(i, m["property"], "CAUGHT" if any(h == m["property"] for h in hit) else "missed", hit, flush=True)


if __name__ == "__main__":
  cmd, rest = sys.argv[1], sys.argv[2:]
  if cmd == "new":
    exec(compile(open(rest[0]).read(), rest[0], "exec"))
    for b in BUGS:
      new(b)
      print("wrote", b["id"])
  elif cmd == "test":
    test([x for x in rest if x != "--nosuite"] or sorted(os.listdir(SEED)), "--nosuite" not in rest)
  elif cmd == "catch":
    ids = [x for x in rest if not x.startswith("--") and not x.startswith("P")]
    pids = [x for x in rest if x.startswith("P") and x[1:].isdigit()]
    catch(ids or sorted(os.listdir(SEED)), "--all" in rest, pids or None)
