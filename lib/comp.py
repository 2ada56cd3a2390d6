"""Helpers for the weight-compression checks."""
import numpy as np

from lib import zoo

FAMS = ['mlp', 'mlp_mode', 'conv', 'conv', 'residual', 'two_in', 'c_norm', 'c_depth', 'c_3d_dense', 'c_lazy', 'c_shared', 'conv_sep', 'c_tall', 'conv1d', 'nested', 'embed', 'c_group']


def build(sp):
  k = zoo.K(); L = k.layers
  fam, u, b = sp['fam'], sp['u'], sp['b']
  if not fam.startswith('c_'):
    return zoo.build(sp)
  r = np.random.RandomState(sp['seed'] + 3)
  if fam == 'c_norm':
    m = k.Sequential([L.Dense(u[0], use_bias=b[0], input_shape=(u[1],)), L.LayerNormalization(), L.Dense(u[2], use_bias=b[1], activation=sp['act']),
                      L.BatchNormalization(), L.GaussianNoise(.3), L.Dense(u[3])])
    x = r.randn(8, u[1])
  elif fam == 'c_depth':
    m = k.Sequential([L.Conv2D(u[0], 3, padding='same', strides=1 + b[0], use_bias=b[1], input_shape=(6, 6, u[1])), L.DepthwiseConv2D(3, use_bias=b[2]) ,
                      L.BatchNormalization(), L.ReLU(), L.SpatialDropout2D(.4), L.Conv2D(u[2], 1, use_bias=b[3], activation=sp['act']), L.GlobalAveragePooling2D(), L.Dense(u[3], use_bias=b[4])])
    x = r.randn(8, 6, 6, u[1])
  elif fam == 'c_3d_dense':
    i = L.Input((4, u[0]))
    h = L.Dense(u[1], use_bias=b[0], name='td')(i)
    h = L.TimeDistributed(L.Dense(u[2]), name='wrapped')(h) if b[1] else L.Dense(u[2], name='plain')(h)
    m = k.Model(i, L.Dense(u[3], name='last')(L.Flatten()(h)))
    x = r.randn(8, 4, u[0])
  elif fam == 'c_lazy':
    m = k.Sequential([L.Dense(u[0], use_bias=b[0], activation=sp['act']), L.Dropout(.3), L.Dense(u[2], use_bias=b[1])])
    x = r.randn(8, u[1])
    m.build((None, u[1])) if b[2] else m(np.asarray(x, 'f'))
  elif fam == 'c_shared':
    i = L.Input((u[0],)); j = L.Input((u[0],))
    d = L.Dense(u[1], use_bias=b[0], name='tower')
    bn = L.BatchNormalization(name='tbn')
    m = k.Model([i, j], L.Dense(u[2], name='head')(L.Subtract()([bn(d(i)), bn(d(j))])))
    x = [r.randn(8, u[0]), r.randn(8, u[0])]
  elif fam == 'c_tall':
    m = k.Sequential([L.Dense(12, use_bias=b[0], input_shape=(3,)), L.Reshape((2, 3, 2)), L.Conv2D(9, (2, 1), use_bias=b[1]), L.ReLU(), L.Conv2DTranspose(2, 2, use_bias=b[2]), L.Flatten(), L.Dense(2)])
    x = r.randn(8, 3)
  elif fam == 'c_group':
    m = k.Sequential([L.Conv2D(4, 3, groups=2, use_bias=b[0], input_shape=(6, 6, 4)), L.Conv2D(u[0], 2, dilation_rate=2, use_bias=b[1]), L.Flatten(), L.Dense(u[1])])
    x = r.randn(8, 6, 6, 4)
  elif fam == 'c_t_mlp':
    m = k.Sequential([L.Dense(u[0] + 2, use_bias=b[0], input_shape=(u[1] + 2,)), L.BatchNormalization(), L.Activation('tanh'), L.Dense(u[2], use_bias=b[1])])
    x = r.randn(8, u[1] + 2)
  elif fam == 'c_t_conv':
    m = k.Sequential([L.Conv2D(u[0], (2, 3), use_bias=b[0], input_shape=(5, 5, u[1])), L.BatchNormalization(), L.Activation('sigmoid'), L.DepthwiseConv2D(2, use_bias=b[1]),
                      L.Conv2DTranspose(u[2], 2, use_bias=b[2]), L.Flatten(), L.Dense(2)])
    x = r.randn(8, 5, 5, u[1])
  elif fam == 'c_t_drop':
    m = k.Sequential([L.Dense(u[0] + 3, use_bias=b[0], input_shape=(u[1],)), L.Dropout(.5)])
    x = r.randn(8, u[1])
  zoo.randomize(m, sp['seed'])
  return m, ([np.asarray(v, 'f') for v in x] if isinstance(x, list) else np.asarray(x, 'f'))


def trunc(w, r):
  """Best rank-r approximation of every matrix in the last two dimensions."""
  u, s, v = np.linalg.svd(np.asarray(w, np.float64), full_matrices=False)
  return np.matmul(u[..., :r] * s[..., None, :r], v[..., :r, :])


def compressible(layer):
  k = zoo.K()
  return isinstance(layer, (k.layers.Conv2D, k.layers.Dense))
