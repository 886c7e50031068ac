"""Builders of the repository's models for the contract checks."""
import itertools
import types

import numpy as np

from symx import terms as T
from symx.fcheck import Sym


class NS(types.SimpleNamespace):
  """Attribute configuration that also accepts traced values."""

  def get(self, k, d=None):
    return getattr(self, k, d)


def cfg(**kw):
  return NS(model=NS(**kw))


def states(C, shape):
  """All states as one integer batch (C^D, *shape)."""
  D = int(np.prod(shape))
  return np.array(list(itertools.product(range(C), repeat=D)),
                  np.int32).reshape((-1,) + tuple(shape))


def some_states(C, shape, n, seed=5):
  import random
  r = random.Random(seed)
  D = int(np.prod(shape))
  rows = [[0] * D, [C - 1] * D, [i % C for i in range(D)]]
  while len(rows) < n:
    rows.append([r.randrange(C) for _ in range(D)])
  return np.array(rows[:n], np.int32).reshape((-1,) + tuple(shape))


def pick(C, shape, limit=64):
  D = int(np.prod(shape))
  return states(C, shape) if C ** D <= limit else some_states(C, shape, 24)


def onehot(x, C):
  return np.eye(C, dtype=np.float32)[x]


def tsum(xs):
  xs = list(xs)
  if not xs:
    return T.const(0)
  return T.sum_many(xs) if len(xs) > 1 else T.lift(xs[0])


def vec(xs):
  out = np.empty(len(xs), dtype=object)
  for i, v in enumerate(xs):
    out[i] = v
  return out


# ------------------------------------------------------------------ models
def bernoulli(shape):
  from discs.models import bernoulli as m
  mod = m.build_model(cfg(shape=tuple(shape), init_sigma=1.0, num_categories=2))
  return mod, {'params': Sym('theta', shape)}


def categorical(shape, C):
  from discs.models import categorical as m
  mod = m.build_model(cfg(shape=tuple(shape), init_sigma=1.0, num_categories=C))
  return mod, {'params': Sym('theta', tuple(shape) + (C,))}


def ising(shape):
  from discs.models import ising as m
  mod = m.build_model(cfg(shape=tuple(shape), lambdaa=0.5, init_sigma=1.0,
                          mu=0.5, num_categories=2))
  return mod, {'params': Sym('J', (3,) + tuple(shape))}


def potts(shape, C):
  from discs.models import potts as m
  mod = m.build_model(cfg(shape=tuple(shape), lambdaa=0.5, init_sigma=1.0,
                          mu=0.5, num_categories=C))
  return mod, {'params': Sym('J', (3,) + tuple(shape) + (C,))}


def fhmm(shape, C, alpha=0.25, beta=0.75, sigma=2.0):
  from discs.models import fhmm as m
  mod = m.build_model(cfg(shape=tuple(shape), num_categories=C, alpha=alpha,
                          beta=beta, sigma=sigma))
  L, k = shape
  if C == 2:
    return mod, dict(w=Sym('w', (k, 1)), b=Sym('b', (1, 1)), y=Sym('y', (L, 1)))
  return mod, dict(w=Sym('w', (k, C)), b=Sym('b', (1, 1)), y=Sym('y', (1, L)),
                   alpha=Sym('la', (C,)))


def rbm(nv, nh, C=2):
  from discs.models import rbm as m
  mod = m.build_model(cfg(num_visible=nv, num_hidden=nh, num_categories=C,
                          shape=(nv,)))
  if C == 2:
    return mod, dict(b_v=Sym('bv', (nv,)), b_h=Sym('bh', (nh,)),
                     w=Sym('w', (nv, nh)))
  return mod, dict(b_v=Sym('bv', (nv, C)), b_h=Sym('bh', (nh,)),
                   w=Sym('w', (nh, nv, C)))


# ------------------------------------------------------------------ graphs
class _Shim:
  """numpy with float arrays held as exact terms, for graph2edges."""

  def __getattr__(self, k):
    return getattr(np, k)

  @staticmethod
  def _dt(dtype):
    if dtype is None:
      return object
    return object if np.dtype(dtype).kind == 'f' else np.dtype(dtype)

  @staticmethod
  def _terms(a):
    if a.dtype == object:
      for ix in np.ndindex(*a.shape):
        if not isinstance(a[ix], (T.F, int, float, np.number)):
          break
        a[ix] = T.lift(a[ix])
    return a

  def zeros(self, shape, dtype=None):
    return self._terms(np.zeros(shape, self._dt(dtype)))

  def ones(self, shape, dtype=None):
    return self._terms(np.ones(shape, self._dt(dtype)))

  def empty(self, shape, dtype=None):
    return self._terms(np.zeros(shape, self._dt(dtype)))

  def full(self, shape, v, dtype=None):
    return self._terms(np.full(shape, v, self._dt(dtype)))

  def array(self, a, dtype=None):
    a = np.asarray(a, object) if _has_terms(a) else np.asarray(a, dtype)
    return self._terms(a.copy()) if a.dtype == object else a
  asarray = array


def _has_terms(a):
  if isinstance(a, T.F):
    return True
  if isinstance(a, np.ndarray):
    return a.dtype == object
  return isinstance(a, (list, tuple)) and any(_has_terms(v) for v in a)


class Given:
  """Symbolic array with given terms."""

  def __init__(self, terms, dtype=np.float32):
    self.terms = np.asarray(terms, dtype=object)
    self.shape, self.dtype = self.terms.shape, np.dtype(dtype)

  spec = Sym.spec

  def value(self, env):
    import jax.numpy as jnp
    from symx import fcheck
    out = np.zeros(self.shape, np.float64)
    for ix in np.ndindex(*self.shape):
      out[ix] = fcheck._num(self.terms[ix], env)
    return jnp.asarray(out.astype(self.dtype))


def graph_params(gen, g, temp=None):
  """Parameters the real loader makes of g; edge attribute 'sym' names a
  symbolic weight.  Returns (params pytree of arrays/Given, symbolic?)."""
  import jax.numpy as jnp
  from discs.common import utils
  import networkx as nx
  names = [d.get('sym') for _, _, d in g.edges(data=True)]
  out, symbolic = None, False
  if any(names):
    h = nx.Graph()
    h.add_nodes_from(g.nodes())
    for u, v, d in g.edges(data=True):
      h.add_edge(u, v, weight=T.var(d['sym']))
    old = utils.np, utils.jnp
    try:
      utils.np = utils.jnp = _Shim()
      p = gen.graph2edges(h)
      out = {}
      for k, v in p.items():
        if v is None:
          continue
        a = v if isinstance(v, np.ndarray) else np.asarray(v)
        out[k] = Given(a) if a.dtype == object else a
      symbolic = True
    except Exception:  # pylint: disable=broad-except
      out = None
    finally:
      utils.np, utils.jnp = old
  if out is None:
    h = nx.Graph()
    h.add_nodes_from(g.nodes())
    for i, (u, v, d) in enumerate(g.edges(data=True)):
      h.add_edge(u, v, weight=_cw(i))
    out = {k: np.asarray(v) for k, v in gen.graph2edges(h).items()
           if v is not None}
  if temp is not None:
    out['temperature'] = temp
  return out, symbolic


def _cw(i):
  return (-1) ** i * (0.75 + 0.5 * i)


def graph_values(gen, g, env, temp=True):
  """What the real loader makes of g with the weights of a valuation."""
  import jax.numpy as jnp
  import networkx as nx
  h = nx.Graph()
  h.add_nodes_from(g.nodes())
  for u, v, d in g.edges(data=True):
    h.add_edge(u, v, **(dict(weight=env.get(d['sym'], 0.0)) if 'sym' in d else
                        {}))
  out = {k: jnp.asarray(v) for k, v in gen.graph2edges(h).items()
         if v is not None}
  if temp:
    out['temperature'] = jnp.float32(env.get('temp', 1.0))
  return out


def weight(g, u, v, symbolic):
  """Oracle weight of an edge."""
  for i, (a, b, d) in enumerate(g.edges(data=True)):
    if {a, b} == {u, v}:
      if 'sym' not in d:
        return T.const(1)
      return T.var(d['sym']) if symbolic else T.lift_const(_cw(i))
  return T.const(0)


class _Gen:
  pass


def co_gen(kind, max_nodes, max_edges, C=2):
  """The repository's loader of this problem with given padded sizes."""
  from discs.graph_loader import maxclique_loader
  from discs.graph_loader import maxcut_loader
  from discs.graph_loader import mis_loader
  from discs.graph_loader import normcut_loader
  base = dict(maxcut=maxcut_loader.MaxcutGen, mis=mis_loader.MISGen,
              maxclique=maxclique_loader.MaxCliqueGen,
              normcut=normcut_loader.NormCutGen)[kind]

  class Gen(base):
    def __init__(self):
      super().__init__()
      self._max_num_nodes, self._max_num_edges = max_nodes, max_edges
      self._num_instances = 1
      self.num_categories = C

    def sample_gen(self, phase, repeat=False):
      return iter(())
  return Gen()


def co_model(kind, gen, **kw):
  """The repository's model over that loader."""
  import importlib
  from discs.graph_loader import graph_gen
  import ml_collections
  m = importlib.import_module('discs.models.' + kind)
  c = ml_collections.ConfigDict()
  c.model = ml_collections.ConfigDict(dict(
      name=kind, num_models=1, graph_type='x', max_num_nodes=0,
      max_num_edges=0, shape=(0,), num_categories=gen.num_categories, **kw))
  old = graph_gen.get_graphs
  graph_gen.get_graphs = lambda config: gen
  try:
    return m.build_model(c)
  finally:
    graph_gen.get_graphs = old


def graph(n, edges, sym=False):
  import networkx as nx
  g = nx.Graph()
  g.add_nodes_from(range(n))
  for u, v in edges:
    g.add_edge(u, v, **(dict(sym='w%d%d' % (u, v)) if sym else {}))
  return g


# ------------------------------------------------------------------ image EBM
class PolyNet:
  """Stand-in network: a quadratic form with symbolic coefficients."""

  def __init__(self, n):
    self.n = n

  def apply(self, variables, x=None, **kw):
    import jax.numpy as jnp
    q = variables['params']
    return jnp.sum(x * q['lin'], -1) + jnp.sum((x @ q['quad']) * x, -1)


def image(n):
  """BinaryImageEBM with the stand-in network, data mean and temperature."""
  from discs.models import resnet
  m = resnet.build_model(cfg(num_categories=2, shape=(n,), n_channels=4,
                             image_shape=(1, n, 1)))
  m.net = PolyNet(n)
  lo = T.Fraction(1, 20)
  mean = Sym('mu', (n,), lo=lo, hi=1 - lo)
  p = dict(lin=Sym('lin', (n,)), quad=Sym('quad', (n, n)))
  return m, p, mean


# ------------------------------------------------------------ text infilling
TXT_C = 104                      # smallest vocabulary that contains [MASK]
TXT_IN = (0, 1, 2, 103)          # tokens the stand-in network tells apart
TXT_OUT = 2                      # first tokens whose logits vary


class TextNet:
  """Stand-in for BERT: logits affine in the infilled one-hots, per position."""

  def __init__(self, w):
    self.w = w

  @classmethod
  def from_pretrained(cls, name):
    return cls(None)

  def __call__(self, input_ids=None, infill_one_hots=None, infill_pos=None,
               attention_mask=None, token_type_ids=None):
    import types
    import jax.numpy as jnp
    w = self.w
    oh = infill_one_hots[..., list(TXT_IN)]
    seq = input_ids.shape[-1]
    keep = np.ones(seq, np.float32)
    keep[list(infill_pos)] = 0
    ctx = jnp.sum((input_ids * w['id'] + token_type_ids * w['tt'])
                  * attention_mask * keep, axis=-1)
    core = jnp.einsum('bjk,jpkc->bpc', oh, w['v']) + ctx[:, None, None] * w['b']
    full = jnp.zeros(core.shape[:2] + (TXT_C,)).at[..., :TXT_OUT].set(core)
    return types.SimpleNamespace(logits=full)


class TextTok:
  """Stand-in for the tokenizer: words are numbers."""

  @classmethod
  def from_pretrained(cls, name):
    return cls()

  def __call__(self, sentence, return_tensors=None):
    import jax.numpy as jnp
    ids = np.array([[101] + [int(v) for v in sentence.split()] + [102]])
    return dict(input_ids=jnp.asarray(ids), attention_mask=jnp.ones(ids.shape),
                token_type_ids=jnp.asarray(np.arange(ids.shape[1])[None] % 2))

  def decode(self, ids):
    return ids


def text_module():
  """discs.models.text_infilling with its two heavy imports replaced."""
  import importlib
  import sys
  import types
  names = {'transformers': dict(BertTokenizer=TextTok),
           'discs.common.customized_huggingface_flax_bert': dict(
               FlaxBertForMaskedLM_Infilling=TextNet)}
  old = {k: sys.modules.get(k) for k in names}
  try:
    for k, v in names.items():
      sys.modules[k] = types.ModuleType(k)
      sys.modules[k].__dict__.update(v)
    sys.modules.pop('discs.models.text_infilling', None)
    return importlib.import_module('discs.models.text_infilling')
  finally:
    for k, v in old.items():
      if v is None:
        sys.modules.pop(k, None)
      else:
        sys.modules[k] = v


def text_model(data, random_init=True):
  import json
  import os
  import tempfile
  from ml_collections import config_dict
  with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, 'infilling_task.json'), 'w') as f:
      json.dump(data, f)
    cfg = config_dict.ConfigDict(dict(model=dict(
        bert_model='none', data_root=d, num_categories=TXT_C,
        random_init_sample=random_init)))
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
      return text_module().build_model(cfg)
