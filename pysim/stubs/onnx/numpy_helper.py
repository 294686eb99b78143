import numpy as np
from .proto import TensorProto
_T = {1: np.float32, 6: np.int32, 7: np.int64, 11: np.float64}
_F = {1: 'float_data', 6: 'int32_data', 7: 'int64_data', 11: 'double_data'}
def to_array(t):
    if t.data_type not in _T: raise ValueError('The data type is not supported')
    if t.HasField('raw_data'): return np.frombuffer(t.raw_data, dtype=_T[t.data_type]).reshape(tuple(t.dims))
    return np.asarray(getattr(t, _F[t.data_type]), dtype=_T[t.data_type]).reshape(tuple(t.dims))
def from_array(a, name=None, raw=True):
    t = TensorProto(); t.dims.extend(int(d) for d in a.shape)
    t.data_type = {np.dtype('float32'): 1, np.dtype('int32'): 6, np.dtype('int64'): 7, np.dtype('float64'): 11}[a.dtype]
    if name: t.name = name
    if raw: t.raw_data = np.ascontiguousarray(a).tobytes()
    else: getattr(t, _F[t.data_type]).extend(x.item() for x in a.flatten())
    return t
