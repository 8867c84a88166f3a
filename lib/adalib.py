"""Independent float64 Adafactor: a plain 2-D algorithm applied per batch slice."""
import numpy as np

class Ref:
  """shapes: {path: shape}; rules: {path: tuple over 'B','R','C','N'} or None."""

  def __init__(self, params, rules=None, factored=True, min_dim=128, scale=True,
               beta1=None, decay=0.8, offset=0, clip=1.0, wd=None, eps1=1e-30,
               eps2=1e-3, wd_exp=None, gclip=None, max_scale=None, skip_nan=False):
    self.p = {k: np.asarray(v, np.float64) for k, v in params.items()}
    self.__dict__.update(rules=rules, factored=factored, min_dim=min_dim, scale=scale, beta1=beta1,
                         decay=decay, offset=offset, clip=clip, wd=wd, eps1=eps1, eps2=eps2,
                         wd_exp=wd_exp, gclip=gclip, max_scale=max_scale, skip_nan=skip_nan)
    self.step = 0
    self.lay = {k: self.layout(k, v.shape) for k, v in self.p.items()}
    self.st = {}
    for k, v in self.p.items():
      x = self.split(k, v)
      f = self.lay[k][1]
      self.st[k] = dict(r=np.zeros((x.shape[0], x.shape[1])) if f else None,
                        c=np.zeros((x.shape[0], x.shape[2])) if f else None,
                        v=None if f else np.zeros(x.shape), m=np.zeros(x.shape))

  def layout(self, k, shape):
    """(dims of B, R, C in order) and whether factored."""
    n = len(shape)
    allr = ([], list(range(n)), [])
    if not self.factored:
      return allr, False
    rule = self.rules[k] if self.rules is not None else None
    if rule is not None and not (n <= 2 and 'B' not in rule):
      b = [i for i, r in enumerate(rule) if r == 'B']
      rr = [i for i, r in enumerate(rule) if r == 'R']
      cc = [i for i, r in enumerate(rule) if r == 'C']
      if not rr and not cc:
        return (b, [i for i in range(n) if i not in b], []), False
      return (b, rr, cc), True
    if n == 2 and min(shape) >= self.min_dim:
      return ([], [0], [1]), True
    return allr, False

  def split(self, k, x):
    (b, r, c), _ = self.lay[k]
    y = np.transpose(x, b + r + c)
    s = x.shape
    pr = lambda d: int(np.prod([s[i] for i in d])) if d else 1
    return y.reshape(pr(b), pr(r), pr(c))

  def join(self, k, y):
    (b, r, c), _ = self.lay[k]
    s = self.p[k].shape
    perm = b + r + c
    z = y.reshape([s[i] for i in perm])
    return np.transpose(z, np.argsort(perm)) if perm else z

  def apply(self, grads, lr):
    with np.errstate(all='ignore'):
      return self._apply(grads, lr)

  def _apply(self, grads, lr):
    g = {k: np.asarray(v, np.float64) for k, v in grads.items()}
    if self.gclip:
      norm = np.sqrt(sum((v ** 2).sum() for v in g.values()))
      if not norm <= self.gclip:
        g = {k: v * (self.gclip / norm) for k, v in g.items()}
    rho = 1 - float(self.step - self.offset + 1) ** -self.decay
    for k in self.p:
      P, G, st = self.split(k, self.p[k]), self.split(k, g[k]), self.st[k]
      out = np.empty_like(P)
      f = self.lay[k][1]
      wd = self.wd
      if self.wd_exp:
        wd = (wd or 1.0) * lr ** self.wd_exp
      sc = self.scale(k) if callable(self.scale) else self.scale
      for b in range(P.shape[0]):
        p, q = P[b], G[b] ** 2 + self.eps1
        if f:
          r = rho * st['r'][b] + (1 - rho) * q.mean(1)
          c = rho * st['c'][b] + (1 - rho) * q.mean(0)
          V = np.outer(r, c) / r.mean()
          st['r'][b], st['c'][b] = self.keep(r, st['r'][b]), self.keep(c, st['c'][b])
        else:
          V = rho * st['v'][b] + (1 - rho) * q
          st['v'][b] = self.keep(V, st['v'][b])
        y = G[b] / np.sqrt(V)
        if self.clip is not None:
          y = y / np.maximum(1.0, np.sqrt((y ** 2).mean()) / self.clip)
        a = lr
        if sc:
          s = max(np.sqrt((p ** 2).mean()), self.eps2)
          if self.max_scale is not None:
            s = min(s, self.max_scale)
          a = lr * s
        u = a * y
        if self.beta1 is not None:
          u = self.beta1 * st['m'][b] + (1 - self.beta1) * u
          st['m'][b] = self.keep(u, st['m'][b])
        new = (p if wd is None else (1 - wd) * p) - u
        out[b] = self.keep(new, p)
      self.p[k] = self.join(k, out)
    self.step += 1
    return self.p

  def keep(self, new, old):
    return np.where(np.isnan(new), old, new) if self.skip_nan else new
