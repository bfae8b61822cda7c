"""Command line: python3 -m sa.check <property> [tier]."""
import importlib
import os
import sys
import traceback


def main():
  pid = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
  from . import core
  from .loader import AnalysisBroken
  mod = importlib.import_module("sa.rules." + pid.lower())
  c = core.Check(pid, tier)
  try:
    mod.run(c)
  except AnalysisBroken as e:
    print(f"ANALYSIS-BROKEN: property={pid} {e}")
    if c.violations:
      return c.finish()
    return 2
  except Exception:
    traceback.print_exc()
    print(f"ANALYSIS-BROKEN: property={pid} internal error")
    if c.violations:
      return c.finish()
    return 2
  return c.finish(getattr(mod, "FLOOR", 1))


if __name__ == "__main__":
  sys.setrecursionlimit(40000)
  import threading
  threading.stack_size(512 * 1024 * 1024)
  rc = []
  t = threading.Thread(target=lambda: rc.append(main()))
  t.start()
  t.join()
  sys.stdout.flush()
  sys.exit(rc[0] if rc else 2)
