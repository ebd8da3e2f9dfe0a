"""Imports of TensorFlow and the library under test, used inside workers."""
import os, sys, logging
os.environ.setdefault('TF_USE_LEGACY_KERAS', '1')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
import numpy as np
import tensorflow as tf
logging.getLogger('tensorflow').setLevel(logging.ERROR)
logging.disable(logging.WARNING)
tf.config.threading.set_inter_op_parallelism_threads(1)
tf.config.threading.set_intra_op_parallelism_threads(1)
# Tracing is much faster when Keras' own functions are not converted by
# AutoGraph (Keras does not need it); code of the library still is.
from tensorflow.python.autograph.core import config as _agcfg
_agcfg.CONVERSION_RULES = (_agcfg.DoNotConvert('tf_keras'),) + tuple(_agcfg.CONVERSION_RULES)
import tensorflow_model_optimization as tfmot
_root = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
assert os.path.realpath(tfmot.__file__).startswith(_root + '/'), tfmot.__file__
from tensorflow_model_optimization.python.core.keras.compat import keras
f32 = np.float32


def snap(vs):
  """Private copies of variable values (numpy() may alias the buffer)."""
  return [np.array(v.numpy(), copy=True) for v in vs]


def restore(vs, arrs):
  """Assigns copies: TensorFlow may alias a numpy array and update it in place."""
  for v, a in zip(vs, arrs):
    v.assign(np.array(a, copy=True))
