"""Stand-in for the onnx package (not installed): messages, load/save, checker, shape inference, the passes used."""
import os
from .proto import *
from . import proto as onnx_ml_pb2
from . import numpy_helper, checker, shape_inference, optimizer, utils, helper
from .backend import base as _b
from . import backend
__version__ = '1.5.0'

def load_model(f, format=None, load_external_data=True):
    m = ModelProto()
    if hasattr(f, 'read'): m.ParseFromString(f.read())
    else:
        with open(f, 'rb') as h: m.ParseFromString(h.read())
    return m
def save_model(m, f, format=None):
    d = m.SerializeToString()
    if hasattr(f, 'write'): f.write(d)
    else:
        with open(f, 'wb') as h: h.write(d)
load, save = load_model, save_model
def load_model_from_string(s, format=None): m = ModelProto(); m.ParseFromString(s); return m
def load_tensor(f):
    t = TensorProto()
    if hasattr(f, 'read'): t.ParseFromString(f.read())
    else:
        with open(f, 'rb') as h: t.ParseFromString(h.read())
    return t
