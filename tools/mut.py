"""mut.py PIDS(comma) SPEC.py : SPEC defines M=[(name, [(file, old, new)...], [pids]?)]; applies each on a copy and runs checks."""
import sys, subprocess, os, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
pids = sys.argv[1].split(",")
ns = {}
exec(open(sys.argv[2]).read(), ns)
V = "/tmp/dev"
def one(m):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.run(f"mkdir {d}/r && cp -r {os.environ.get("MUTBASE","/repo")}/jaxopt {d}/r/", shell=True)
        for f, o, n in m[1]:
            p = f"{d}/r/jaxopt/_src/{f}"
            s = open(p).read()
            if s.count(o) < 1: return f"{m[0]}: OLD TEXT x{s.count(o)}: {o!r}"
            s = s.replace(o, n, 1)
            open(p, "w").write(s)
        out = []
        for p in (m[2] if len(m) > 2 else pids):
            x = subprocess.run(f"JAXOPT_REPO={d}/r python3 -m sa.check {p} quick", shell=True, cwd=V, capture_output=True, text=True)
            ln = [l for l in x.stdout.splitlines() if l.startswith("  rule")]
            out.append(f"{p}:rc{x.returncode} {ln[0].strip()[:140] if ln else ''}" + (x.stderr[-120:].replace(chr(10)," ") if x.returncode not in (0,1) else ""))
        return f"{m[0]}: " + " | ".join(out)
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, ns["M"]): print(r, flush=True)
