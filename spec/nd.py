"""Host arrays with symbolic entries (interpreted, never run)."""


class ndarray:
  def __init__(self, flat, shape, dtype):
    self.flat = flat
    self.shape = shape
    self.dtype = dtype

  @property
  def size(self):
    return prod(self.shape)

  @property
  def ndim(self):
    return len(self.shape)

  def reshape(self, *shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
      shape = tuple(shape[0])
    n = 1
    for s in shape:
      n = n * (s if s >= 0 else 1)
    shape = tuple([s if s >= 0 else prod(self.shape) // n for s in shape])
    if prod(shape) != prod(self.shape):
      raise ValueError("cannot reshape")
    return ndarray(self.flat, shape, self.dtype)

  def ravel(self):
    return self.reshape(-1)

  def flatten(self):
    return self.reshape(-1)

  @property
  def T(self):
    if len(self.shape) != 2:
      return self
    r, c = self.shape
    return ndarray([self.flat[i * c + j] for j in range(c) for i in range(r)], (c, r), self.dtype)

  def transpose(self):
    return self.T

  def astype(self, dtype):
    return ndarray(self.flat, self.shape, dtype)

  def copy(self):
    return self

  def __len__(self):
    return self.shape[0]

  def __getitem__(self, i):
    if isinstance(i, slice):
      lo = 0 if i.start is None else i.start
      hi = self.shape[0] if i.stop is None else i.stop
      step = prod(self.shape[1:])
      return ndarray(self.flat[lo * step:hi * step], (hi - lo,) + tuple(self.shape[1:]), self.dtype)
    step = prod(self.shape[1:])
    part = self.flat[i * step:(i + 1) * step]
    if len(self.shape) == 1:
      return part[0]
    return ndarray(part, tuple(self.shape[1:]), self.dtype)


def prod(shape):
  n = 1
  for s in shape:
    n = n * s
  return n


def cumsum(xs):
  out = []
  n = 0
  for x in xs:
    n = n + x
    out.append(n)
  return out


def asarray(x, dtype=None):
  return x if dtype is None else ndarray(x.flat, x.shape, dtype)


def joined(xs):
  out = []
  for x in xs:
    for y in x:
      out.append(y)
  return out


def concatenate(xs, axis=0):
  if len(xs[0].shape) == 2:
    return beside(xs) if axis in (1, -1) else above(xs)
  for x in xs:
    if len(x.shape) != 1:
      raise ValueError("concatenate wants vectors")
  n = 0
  for x in xs:
    n = n + x.shape[0]
  return ndarray(joined([x.flat for x in xs]), (n,), xs[0].dtype)


def split(x, indices):
  cuts = [0] + [int(i) for i in indices] + [x.shape[0]]
  return [ndarray(x.flat[a:b], (b - a,), x.dtype) for a, b in zip(cuts[:-1], cuts[1:])]


def beside(blocks):
  rows = blocks[0].shape[0]
  cols = 0
  for b in blocks:
    if b.shape[0] != rows:
      raise ValueError("rows differ")
    cols = cols + b.shape[1]
  flat = joined([joined([b.flat[i * b.shape[1]:(i + 1) * b.shape[1]] for b in blocks]) for i in range(rows)])
  return ndarray(flat, (rows, cols), blocks[0].dtype)


def above(blocks):
  rows = 0
  for b in blocks:
    if b.shape[1] != blocks[0].shape[1]:
      raise ValueError("columns differ")
    rows = rows + b.shape[0]
  return ndarray(joined([b.flat for b in blocks]), (rows, blocks[0].shape[1]), blocks[0].dtype)


def block(rows):
  return above([beside(r) for r in rows])


class OptimizeResult:
  """What a SciPy routine returned."""


class RootResults(OptimizeResult):
  """What a scalar root finder returned."""


class LbfgsInvHessProduct:
  def __init__(self, sk, yk):
    self.sk = sk
    self.yk = yk


def hstack(xs):
  return concatenate(xs, len(xs[0].shape) - 1)


def vstack(xs):
  return concatenate([x.reshape(1, -1) if len(x.shape) == 1 else x for x in xs], 0)
