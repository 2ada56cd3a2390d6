"""Random Keras models built from JSON-able specs."""
import numpy as np


def K():
  from tensorflow_model_optimization.python.core.keras.compat import keras
  return keras


def randomize(model, seed, scale=0.6):
  """Distinct random values for every weight (positive for variances)."""
  r = np.random.RandomState(seed)
  vals = []
  for w in model.weights:
    v = r.randn(*w.shape) * scale
    if 'variance' in w.name or 'gamma' in w.name:
      v = np.abs(v) + 0.4
    vals.append(v.astype(w.dtype.as_numpy_dtype if hasattr(w.dtype, 'as_numpy_dtype') else 'float32'))
  model.set_weights(vals)
  return model


def spec(rng, fams):
  return dict(fam=rng.choice(fams), seed=rng.randrange(10**6), u=[rng.randrange(2, 7) for _ in range(6)],
              b=[bool(rng.random() < .5) for _ in range(6)], act=rng.choice(['relu', 'tanh', 'sigmoid', None, 'softmax']))


def build(sp):
  """Returns (model, x): a built model and a batch of inputs for it."""
  k = K()
  L = k.layers
  u, b, act, fam = sp['u'], sp['b'], sp['act'], sp['fam']
  r = np.random.RandomState(sp['seed'] + 7)
  n = 8
  if fam == 'mlp':
    m = k.Sequential([L.Dense(u[0], activation=act, use_bias=b[0], input_shape=(u[1],)), L.Dense(u[2], use_bias=b[1]),
                      L.ReLU(), L.Dense(u[3])])
    x = r.randn(n, u[1])
  elif fam == 'mlp_mode':
    m = k.Sequential([L.Dense(u[0], use_bias=b[0], input_shape=(u[1],)), L.BatchNormalization(), L.Activation('relu'),
                      L.Dropout(0.4), L.Dense(u[2], activation=act)])
    x = r.randn(n, u[1])
  elif fam == 'conv':
    m = k.Sequential([L.Conv2D(u[0], (3, 2), strides=1 + b[1], padding='same' if b[0] else 'valid', use_bias=b[2],
                               input_shape=(8, 7, u[1])), L.BatchNormalization(), L.ReLU(),
                      L.DepthwiseConv2D(3, padding='same'), L.MaxPooling2D(2) if b[3] else L.Activation('relu'),
                      L.Conv2DTranspose(u[2], 2, use_bias=b[4]), L.Flatten(), L.Dropout(0.3), L.Dense(u[3], activation=act)])
    x = r.randn(n, 8, 7, u[1])
  elif fam == 'conv_sep':
    m = k.Sequential([L.SeparableConv2D(u[0], 3, padding='same', use_bias=b[0], input_shape=(6, 6, u[1])), L.ReLU(6.),
                      L.GlobalAveragePooling2D(), L.Dense(u[2], activation=act)])
    x = r.randn(n, 6, 6, u[1])
  elif fam == 'conv1d':
    m = k.Sequential([L.Conv1D(u[0], 3, padding='same', use_bias=b[0], input_shape=(9, u[1])), L.LayerNormalization(),
                      L.SeparableConv1D(u[2], 2), L.LocallyConnected1D(u[3], 2), L.GlobalMaxPooling1D(), L.Dense(u[4])])
    x = r.randn(n, 9, u[1])
  elif fam == 'conv3d':
    m = k.Sequential([L.Conv3D(u[0], 2, use_bias=b[0], input_shape=(4, 4, 4, 2)), L.Conv3DTranspose(u[1], 2),
                      L.AveragePooling3D(2), L.Flatten(), L.Dense(u[2])])
    x = r.randn(n, 4, 4, 4, 2)
  elif fam == 'residual':
    i = L.Input((u[1],), name='inp')
    a = L.Dense(u[0], activation=act, name='d1')(i)
    c = L.Dense(u[0], use_bias=b[0], name='d2')(i)
    s = L.Add(name='add')([a, c])
    t = L.Concatenate(name='cat')([s, a])
    o1 = L.Dense(u[2], name='d3')(t)
    o2 = L.Dense(u[3], use_bias=b[1], name='d4')(s)
    m = k.Model(i, [o1, o2] if b[2] else o1)
    x = r.randn(n, u[1])
  elif fam == 'two_in':
    i = L.Input((u[1],), name='ia')
    j = L.Input((u[2],), name='ib')
    a = L.Dense(u[0], name='da')(i)
    c = L.Dense(u[0], name='db', use_bias=b[0])(j)
    m = k.Model([i, j], L.Dense(u[3], name='out')(L.Multiply(name='mul')([a, c])))
    x = [r.randn(n, u[1]), r.randn(n, u[2])]
  elif fam == 'nested':
    inner = k.Sequential([L.Dense(u[0], activation='relu', input_shape=(u[1],)), L.Dense(u[2], use_bias=b[0])], name='inner')
    if b[1]:
      ii = L.Input((u[1],))
      inner = k.Model(ii, L.Dense(u[2])(L.Dense(u[0], activation=act)(ii)), name='inner')
    m = k.Sequential([L.Dense(u[1], input_shape=(u[3],)), inner, L.Dense(u[4])])
    if b[2]:
      i = L.Input((u[3],))
      m = k.Model(i, L.Dense(u[4])(inner(L.Dense(u[1])(i))))
    x = r.randn(n, u[3])
  elif fam in ('lstm', 'gru', 'rnn'):
    cls = dict(lstm=L.LSTM, gru=L.GRU, rnn=L.SimpleRNN)[fam]
    m = k.Sequential([cls(u[0], return_sequences=b[0], use_bias=b[1], input_shape=(5, u[1])),
                      L.Flatten() if b[0] else L.ReLU(), L.Dense(u[2])])
    x = r.randn(n, 5, u[1])
  elif fam == 'stacked':
    m = k.Sequential([L.RNN([L.LSTMCell(u[0]), L.GRUCell(u[1]), L.SimpleRNNCell(u[2])], input_shape=(4, u[3])), L.Dense(u[4])])
    x = r.randn(n, 4, u[3])
  elif fam == 'embed':
    m = k.Sequential([L.Embedding(11, u[0], input_length=6), L.GlobalAveragePooling1D() if b[0] else L.Flatten(), L.Dense(u[1])])
    x = r.randint(0, 11, size=(n, 6)).astype(float)
  elif fam == 'mha':
    i = L.Input((4, 6), name='inp')
    a = L.MultiHeadAttention(2, 3, name='mha')(i, i)
    m = k.Model(i, L.Dense(u[0], name='out')(L.Flatten(name='fl')(a)))
    x = r.randn(n, 4, 6)
  else:
    raise ValueError(fam)
  randomize(m, sp['seed'])
  x = [np.asarray(v, 'f') for v in x] if isinstance(x, list) else np.asarray(x, 'f')
  return m, x


def outputs(model, x, training=False):
  y = model(x, training=training)
  y = y if isinstance(y, (list, tuple)) else [y]
  return [np.asarray(v) for v in y]


def close(a, b, tol=1e-5):
  if len(a) != len(b):
    return False
  for p, q in zip(a, b):
    if p.shape != q.shape or not np.all(np.isfinite(p) == np.isfinite(q)):
      return False
    s = max(1.0, float(np.max(np.abs(q))) if q.size else 1.0)
    if p.size and np.max(np.abs(p - q)) > tol * s:
      return False
  return True


def targets(model, n, seed):
  r = np.random.RandomState(seed)
  ys = [r.randn(*([n] + list(o.shape[1:]))).astype('f') for o in model.outputs]
  return ys if len(ys) > 1 else ys[0]


def all_layers(model):
  k = K()
  out = []
  for l in model.layers:
    if isinstance(l, k.Model):
      out += all_layers(l)
    else:
      out.append(l)
  return out


# Every built-in layer the pruning API documents as supported: class, arguments, input shape, number of inputs.
V, S1, S2, S3 = (6,), (6, 4), (6, 6, 4), (4, 4, 4, 2)
BUILTIN = [
    ('ELU', {}, V, 1), ('LeakyReLU', {}, V, 1), ('ReLU', {}, V, 1), ('Softmax', {}, V, 1), ('ThresholdedReLU', {}, V, 1),
    ('Conv1D', dict(filters=3, kernel_size=2), S1, 1), ('Conv2D', dict(filters=3, kernel_size=2), S2, 1), ('Conv2DTranspose', dict(filters=3, kernel_size=2), S2, 1),
    ('Conv3D', dict(filters=3, kernel_size=2), S3, 1), ('Conv3DTranspose', dict(filters=3, kernel_size=2), S3, 1), ('Cropping1D', {}, S1, 1), ('Cropping2D', {}, S2, 1), ('Cropping3D', {}, S3, 1),
    ('DepthwiseConv2D', dict(kernel_size=2), S2, 1), ('SeparableConv1D', dict(filters=3, kernel_size=2), S1, 1), ('SeparableConv2D', dict(filters=3, kernel_size=2), S2, 1),
    ('UpSampling1D', {}, S1, 1), ('UpSampling2D', {}, S2, 1), ('UpSampling3D', {}, S3, 1), ('ZeroPadding1D', {}, S1, 1), ('ZeroPadding2D', {}, S2, 1), ('ZeroPadding3D', {}, S3, 1),
    ('Activation', dict(activation='tanh'), V, 1), ('ActivityRegularization', {}, V, 1), ('Dense', dict(units=3), V, 1), ('Dropout', dict(rate=.5), V, 1), ('Flatten', {}, S2, 1),
    ('Lambda', dict(function=lambda t: t * 2.), V, 1), ('Masking', {}, S1, 1), ('Permute', dict(dims=(2, 1)), S1, 1), ('RepeatVector', dict(n=2), V, 1), ('Reshape', dict(target_shape=(24,)), S1, 1),
    ('SpatialDropout1D', dict(rate=.5), S1, 1), ('SpatialDropout2D', dict(rate=.5), S2, 1), ('SpatialDropout3D', dict(rate=.5), S3, 1), ('Embedding', dict(input_dim=7, output_dim=3), V, 1),
    ('LocallyConnected1D', dict(filters=3, kernel_size=2), S1, 1), ('LocallyConnected2D', dict(filters=3, kernel_size=2), S2, 1),
    ('Add', {}, V, 2), ('Average', {}, V, 2), ('Concatenate', {}, V, 2), ('Dot', dict(axes=1), V, 2), ('Maximum', {}, V, 2), ('Minimum', {}, V, 2), ('Multiply', {}, V, 2), ('Subtract', {}, V, 2),
    ('AlphaDropout', dict(rate=.5), V, 1), ('GaussianDropout', dict(rate=.5), V, 1), ('GaussianNoise', dict(stddev=.5), V, 1), ('BatchNormalization', {}, V, 1), ('LayerNormalization', {}, V, 1),
    ('AveragePooling1D', {}, S1, 1), ('AveragePooling2D', {}, S2, 1), ('AveragePooling3D', {}, S3, 1), ('GlobalAveragePooling1D', {}, S1, 1), ('GlobalAveragePooling2D', {}, S2, 1),
    ('GlobalAveragePooling3D', {}, S3, 1), ('GlobalMaxPooling1D', {}, S1, 1), ('GlobalMaxPooling2D', {}, S2, 1), ('GlobalMaxPooling3D', {}, S3, 1), ('MaxPooling1D', {}, S1, 1),
    ('MaxPooling2D', {}, S2, 1), ('MaxPooling3D', {}, S3, 1), ('MultiHeadAttention', dict(num_heads=2, key_dim=2), S1, 2), ('GRU', dict(units=3), S1, 1), ('LSTM', dict(units=3), S1, 1), ('SimpleRNN', dict(units=3), S1, 1)]


def builtin(seed):
  """Yields (name, layer, call) for every one of them; call(l) gives a model with that layer (or its wrapper) in it, and inputs."""
  k = K()
  r = np.random.RandomState(seed)
  for name, kw, shape, n in BUILTIN:
    def call(l, name=name, shape=shape, n=n):
      ins = [k.Input(shape) for _ in range(n)]
      m = k.Model(ins, l(ins[0], value=ins[1]) if name == 'MultiHeadAttention' else l(ins if n > 1 else ins[0]))
      x = [(r.randint(0, 7, size=(3,) + shape) if name == 'Embedding' else r.randn(3, *shape)).astype('f') for _ in range(n)]
      return m, x if n > 1 else x[0]
    yield name, getattr(k.layers, name)(**kw), call
