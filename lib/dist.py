"""Training on several replicas: two logical CPU devices under a mirrored strategy."""
import contextlib

import numpy as np


def setup():
  import tensorflow as tf
  cpu = tf.config.list_physical_devices('CPU')[0]
  tf.config.set_logical_device_configuration(cpu, [tf.config.LogicalDeviceConfiguration()] * 2)


def strategy():
  import tensorflow as tf
  return tf.distribute.MirroredStrategy(['/cpu:0', '/cpu:1'], cross_device_ops=tf.distribute.ReductionToOneDevice())


@contextlib.contextmanager
def policy(name):
  """The global precision policy of Keras; None leaves it alone."""
  from tensorflow_model_optimization.python.core.keras.compat import keras
  if name:
    keras.mixed_precision.set_global_policy(name)
  try:
    yield
  finally:
    if name:
      keras.mixed_precision.set_global_policy('float32')


def copies(var):
  """The value of a variable on each of the replicas."""
  return [np.asarray(v.numpy()) for v in getattr(var, 'values', [var])]


def agree(var, n=2):
  c = copies(var)
  return len(c) == n and np.array_equal(c[0], c[-1], equal_nan=c[0].dtype.kind == 'f')
