"""Engine self-test: parses every module, checks basic term identities."""
import sys


def main():
  from . import core, terms as tm, equal
  from .loader import Loader
  n = len(Loader().all_src())
  x, y = core.arr("x"), core.arr("y")
  assert tm.add(x, y) is tm.add(y, x)
  assert equal.equal(tm.mul(tm.add(x, y), tm.sub(x, y)), tm.sub(tm.mul(x, x), tm.mul(y, y))) == "eq"
  assert equal.equal(x, y) == "diff"
  assert tm.ite(tm.lt(tm.ZERO, x), x, tm.ZERO) is tm.maximum(x, tm.ZERO)
  print("self-test ok:", n, "modules parsed")


if __name__ == "__main__":
  sys.setrecursionlimit(20000)
  main()
