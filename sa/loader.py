"""Parses /repo's jaxopt package (and this directory's spec modules)."""
import ast
import os

REPO = os.environ.get("JAXOPT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnalysisBroken(Exception):
  """An anchor the analysis needs is gone: no verdict."""


class ModuleSrc:
  def __init__(self, name, path):
    self.name = name
    self.path = path
    with open(path) as f:
      self.text = f.read()
    self.tree = ast.parse(self.text, path)
    self.rel = os.path.relpath(path, REPO) if path.startswith(REPO) else os.path.relpath(path, VERIF)
    for n in ast.walk(self.tree):
      n._mod = self


class Loader:
  def __init__(self):
    self.cache = {}

  def path(self, name):
    if name == "jaxopt" or name.startswith("jaxopt."):
      base = os.path.join(REPO, *name.split("."))
    elif name == "spec" or name.startswith("spec."):
      base = os.path.join(VERIF, *name.split("."))
    else:
      return None
    if os.path.isfile(base + ".py"):
      return base + ".py"
    if os.path.isfile(os.path.join(base, "__init__.py")):
      return os.path.join(base, "__init__.py")
    return None

  def is_package(self, name):
    p = self.path(name)
    return p is not None and p.endswith("__init__.py")

  def get(self, name):
    if name not in self.cache:
      p = self.path(name)
      self.cache[name] = ModuleSrc(name, p) if p else None
    return self.cache[name]

  def all_src(self):
    d = os.path.join(REPO, "jaxopt", "_src")
    if not os.path.isdir(d):
      raise AnalysisBroken("jaxopt/_src is missing")
    out = []
    for f in sorted(os.listdir(d)):
      if f.endswith(".py") and f not in ("__init__.py", "test_util.py"):
        out.append(self.get("jaxopt._src." + f[:-3]))
    return out
