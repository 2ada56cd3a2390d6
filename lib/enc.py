"""Helpers to drive tensor-encoding stages."""
import numpy as np

DT = {'f32': 'float32', 'f64': 'float64', 'f16': 'float16', 'bf16': 'bfloat16', 'i32': 'int32', 'i64': 'int64', 'i16': 'int16', 'i8': 'int8'}


def roundtrip(stage, x, dtype, mode, num_summands=None):
  """Encodes and decodes with fresh parameters.

  mode: 'eager', 'graph' (static shapes), 'dynamic' (leading dimension unknown),
  'unknown' (every dimension unknown), 'split' (encode and decode in two graphs).
  Returns (encoded dict, decoded, encode_params, decode_params) as numpy.
  """
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.utils import py_utils
  xt = tf.constant(x, getattr(tf, DT[dtype]))
  num = lambda s: tf.nest.map_structure(lambda t: t.numpy() if hasattr(t, 'numpy') else np.asarray(t), s)
  if mode == 'eager':
    ep, dp = stage.get_params()
    e = stage.encode(xt, ep)
    d = stage.decode(e, dp, num_summands=num_summands, shape=py_utils.static_or_dynamic_shape(xt))
    return num(dict(e)), d, num(dict(ep)), num(dict(dp))
  if mode == 'split':
    ep, dp = stage.get_params()
    ep = {k: tf.convert_to_tensor(v) for k, v in ep.items()}
    dp = {k: tf.convert_to_tensor(v) for k, v in dp.items()}
    e = tf.function(lambda a, p: dict(stage.encode(a, p)))(xt, ep)
    d = tf.function(lambda a, p: stage.decode(a, p, num_summands=num_summands, shape=x.shape))(e, dp)
    return num(e), d, num(ep), num(dp)
  spec = {'graph': x.shape, 'dynamic': (None,) + tuple(x.shape[1:]), 'unknown': (None,) * x.ndim}[mode]

  @tf.function(input_signature=[tf.TensorSpec(spec, xt.dtype)])
  def f(a):
    ep, dp = stage.get_params()
    e = stage.encode(a, ep)
    d = stage.decode(e, dp, num_summands=num_summands, shape=py_utils.static_or_dynamic_shape(a))
    return dict(e), d, {k: tf.convert_to_tensor(v) for k, v in ep.items()}, {k: tf.convert_to_tensor(v) for k, v in dp.items()}
  e, d, ep, dp = f(xt)
  return num(e), d, num(ep), num(dp)


def values(rs, shape, dist):
  n = int(np.prod(shape))
  if dist == 'normal': x = rs.randn(n)
  elif dist == 'zeros': x = np.zeros(n)
  elif dist == 'const': x = np.full(n, rs.randn() * 3)
  elif dist == 'huge': x = rs.randn(n) * 1e6
  elif dist == 'tiny': x = rs.randn(n) * 1e-6
  elif dist == 'spike': x = np.zeros(n); x[rs.randint(n)] = rs.choice([-5., 7.])
  elif dist == 'positive': x = np.abs(rs.randn(n)) + 1
  elif dist == 'negative': x = -np.abs(rs.randn(n)) - 1
  elif dist == 'sparse': x = rs.randn(n) * (rs.rand(n) < .3)
  elif dist == 'offset': x = rs.randn(n) * .01 + 100
  elif dist == 'lattice': x = rs.randint(-5, 6, n) / 2.
  return x.reshape(shape)

DISTS = ['normal', 'zeros', 'const', 'huge', 'tiny', 'spike', 'positive', 'negative', 'sparse', 'offset', 'lattice']


# ---------------------------------------------------------------- encoder trees
# node: dict(k=kind, c={compressible key index: node}, ...parameters)
COMMUTES = dict(split=True, signs=False, identity=True, flatten=True, hadamard=True, kashin=True, clipn=True, clipv=True,
                uniform=False, ufix=True, prng=False, pc=False, bitpack=False, mean=True)
ADAPTIVE = ('probe',)
_stages = {}


def commutes(nd):
  return nd['commute'] if nd['k'] == 'probe' else COMMUTES[nd['k']]


def stage_classes():
  """Stages written for the monitors; a Probe's state depends on every aggregation mode."""
  if _stages:
    return _stages
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.core import encoding_stage as E
  M = E.StateAggregationMode

  class Probe(E.AdaptiveEncodingStageInterface):

    def __init__(self, nd):
      self.nd = nd
    name = property(lambda s: 'probe')
    compressible_tensors_keys = property(lambda s: ['pv'])
    commutes_with_sum = property(lambda s: s.nd['commute'])
    decode_needs_input_shape = property(lambda s: s.nd['shp'])
    state_update_aggregation_modes = property(lambda s: {'z_sum': M.SUM, 'a_min': M.MIN, 'm_max': M.MAX, 'k_stack': M.STACK})

    def initial_state(self):
      return {'n': tf.constant(0, tf.int32), 's': tf.constant(float(self.nd['s0'])), 'lo': tf.constant(0.), 'hi': tf.constant(0.), 'cnt': tf.constant(0.)}

    def update_state(self, state, u):
      return {'n': state['n'] + 1, 's': .5 * state['s'] + .25 * tf.tanh(u['z_sum'] + self.nd['s0']), 'lo': tf.reduce_min(u['a_min']),
              'hi': tf.reduce_max(u['m_max']), 'cnt': tf.cast(tf.size(u['k_stack']), tf.float32)}

    def get_params(self, state):
      p = {'scale': 1.25 + .1 * tf.tanh(state['s']) + .01 * tf.cast(state['n'], tf.float32),
           'off': .3 * tf.tanh(state['hi']) - .2 * tf.tanh(state['lo']) + .001 * state['cnt']}
      if self.nd['py']:
        p['k'] = 2.
      return p, dict(p, only_decode=tf.constant(.5))

    def encode(self, x, p):
      c = lambda v: tf.cast(v, x.dtype)
      y = x * c(p['scale']) * c(p.get('k', 1.))
      if not self.nd['commute'] or self.nd['num']:
        y = y + c(p['off'])
      if self.nd['shp']:
        y = tf.reshape(y, [-1])
      m = tf.cast(tf.reduce_sum(x), tf.float32)
      v = tf.cast(tf.reshape(x, [-1]), tf.float32)
      return {'pv': y}, {'z_sum': m, 'a_min': tf.reduce_min(v), 'm_max': tf.reduce_max(v), 'k_stack': v[:2]}

    def decode(self, e, p, num_summands=None, shape=None):
      y = e['pv']
      c = lambda v: tf.cast(v, y.dtype)
      if self.nd['commute'] and self.nd['num']:
        y = y - c(p['off']) * (c(1.) if num_summands is None else c(num_summands))
      elif not self.nd['commute']:
        y = y - c(p['off'])
      y = y / (c(p['scale']) * c(p.get('k', 1.))) * c(p['only_decode']) * c(2.)
      if self.nd['shp']:
        y = tf.reshape(y, shape)
      return y

  class Split(E.EncodingStageInterface):
    """x = 4 * hi + lo: linear decoding from two tensors."""

    def __init__(self):
      pass
    name = property(lambda s: 'split_hi_lo')
    compressible_tensors_keys = property(lambda s: ['hi', 'a_lo'])
    commutes_with_sum = property(lambda s: True)
    decode_needs_input_shape = property(lambda s: False)

    def get_params(self):
      return {}, {'four': 4.}

    def encode(self, x, p):
      hi = tf.floor(x / 4.)
      return {'hi': hi, 'a_lo': x - 4. * hi}

    def decode(self, e, p, num_summands=None, shape=None):
      return e['hi'] * tf.cast(p['four'], e['hi'].dtype) + e['a_lo']

  class Signs(E.EncodingStageInterface):
    """x = sign * magnitude: not linear."""

    def __init__(self):
      pass
    name = property(lambda s: 'sign_mag')
    compressible_tensors_keys = property(lambda s: ['mag', 'sg'])
    commutes_with_sum = property(lambda s: False)
    decode_needs_input_shape = property(lambda s: False)

    def get_params(self):
      return {}, {}

    def encode(self, x, p):
      return {'sg': tf.sign(x), 'mag': tf.abs(x), 'extra': tf.ones([], x.dtype)}

    def decode(self, e, p, num_summands=None, shape=None):
      return e['sg'] * e['mag'] * e['extra']

  class Mean(E.EncodingStageInterface):
    def __init__(self):
      pass
    name = property(lambda s: 'mean_tile')
    compressible_tensors_keys = property(lambda s: ['mv'])
    commutes_with_sum = property(lambda s: True)
    decode_needs_input_shape = property(lambda s: True)

    def get_params(self):
      return {}, {}

    def encode(self, x, p):
      return {'mv': tf.reduce_mean(x, keepdims=True)}

    def decode(self, e, p, num_summands=None, shape=None):
      return tf.tile(e['mv'], shape)

  _stages.update(probe=Probe, probe_tf=E.tf_style_adaptive_encoding_stage(Probe), split=E.tf_style_encoding_stage(Split),
                 signs=E.tf_style_encoding_stage(Signs), mean=E.tf_style_encoding_stage(Mean))
  return _stages


def stage(nd):
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages import stages_impl as S
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages.research import clipping, kashin, quantization as Q
  k = nd['k']
  C = stage_classes()
  if k == 'probe': return C['probe_tf' if nd['deco'] else 'probe'](nd)
  if k in C: return C[k]()
  if k == 'identity': return S.IdentityEncodingStage()
  if k == 'flatten': return S.FlattenEncodingStage()
  if k == 'hadamard': return S.HadamardEncodingStage()
  if k == 'kashin': return kashin.KashinHadamardEncodingStage(num_iters=2, last_iter_clip=False)
  if k == 'clipn': return clipping.ClipByNormEncodingStage(nd['norm'])
  if k == 'clipv': return clipping.ClipByValueEncodingStage(nd['lo'], nd['hi'])
  if k == 'uniform': return S.UniformQuantizationEncodingStage(bits=nd['bits'])
  if k == 'ufix': return S.UniformQuantizationEncodingStage(bits=nd['bits'], min_max=[nd['lo'], nd['hi']])
  if k == 'prng': return Q.PRNGUniformQuantizationEncodingStage(bits=nd['bits'])
  if k == 'pc': return Q.PerChannelUniformQuantizationEncodingStage(bits=nd['bits'])
  if k == 'bitpack': return S.BitpackingEncodingStage(nd['bits'])
  raise KeyError(k)


NKEYS = dict(split=2, signs=2, bitpack=0)  # default 1


def tree(rng, rank, depth=0, ints=0, kinds=None):
  """A random admissible stage tree; ints = bit width if the input holds small integers."""
  pool = kinds or ['probe', 'probe', 'probe', 'split', 'signs', 'identity', 'flatten', 'mean', 'hadamard', 'kashin', 'clipn', 'clipv', 'uniform', 'ufix', 'ufix', 'prng', 'pc']
  pool = [k for k in pool if not (k in ('hadamard', 'kashin') and (rank > 2 or rank < 1)) and not (k in ('pc',) and rank < 2)]
  if ints:
    pool = [k for k in pool if k in ('identity', 'flatten', 'probe')] + (['bitpack'] * 4 if not kinds or 'bitpack' in kinds else [])
    if not pool:
      return None
  k = rng.choice(pool)
  nd = dict(k=k, c={})
  if k == 'probe': nd.update(commute=rng.random() < .6, shp=rng.random() < .4, num=rng.random() < .4, py=rng.random() < .5, deco=rng.random() < .5, s0=rng.choice([0., .5, -1.]))
  if k in ('uniform', 'ufix', 'prng', 'pc'): nd['bits'] = rng.choice([1, 2, 4, 8, 8, 12])
  if k in ('ufix', 'clipv'): nd['lo'] = rng.choice([-3., -1., .25]); nd['hi'] = nd['lo'] + rng.choice([.5, 4.])
  if k == 'clipn': nd['norm'] = rng.choice([.5, 5., 1e3])
  if k == 'bitpack': nd['bits'] = ints
  r2 = 1 if k == 'flatten' or (k == 'probe' and nd['shp']) else rank
  if depth < 4:
    for i in range(NKEYS.get(k, 1)):
      if rng.random() < (.75 if depth < 2 else .45):
        b = nd['bits'] if k in ('uniform', 'ufix', 'prng', 'pc') else (ints if k in ('identity', 'flatten') else 0)
        if k == 'prng': b = 0  # may be negative or wide after dithering
        if k == 'signs' and i == 1 and kinds is None: continue
        ch = tree(rng, r2, depth + 1, b, kinds)
        if ch: nd['c'][str(i)] = ch
  return nd


def size(nd):
  return 1 + sum(size(c) for c in nd['c'].values())


def kinds_of(nd):
  return {nd['k']}.union(*[kinds_of(c) for c in nd['c'].values()]) if nd['c'] else {nd['k']}


def composer(nd):
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.core import core_encoder
  def fill(comp, nd, st):
    for i, c in nd['c'].items():
      s = stage(c)
      fill(comp.add_child(s, st.compressible_tensors_keys[int(i)]), c, s)
  s = stage(nd)
  comp = core_encoder.EncoderComposer(s)
  fill(comp, nd, s)
  return comp


def composer_up(nd):
  """The same tree built from a leaf upwards along its first child chain."""
  from tensorflow_model_optimization.python.core.internal.tensor_encoding.core import core_encoder
  chain = [nd]
  while len(chain[-1]['c']) == 1:
    chain.append(list(chain[-1]['c'].values())[0])
  comp = composer(chain[-1])
  for up in reversed(chain[:-1]):
    s = stage(up)
    comp = comp.add_parent(s, s.compressible_tensors_keys[int(list(up['c'])[0])])
  return comp
