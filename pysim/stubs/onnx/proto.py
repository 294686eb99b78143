"""A small protobuf runtime with the ONNX messages the importer uses (wire-compatible with .onnx files)."""
import struct

def _varint(n):
    n &= (1 << 64) - 1; o = bytearray()
    while n > 127: o.append(n & 127 | 128); n >>= 7
    o.append(n); return bytes(o)

def _rdvar(b, i):
    n = s = 0
    while True:
        c = b[i]; i += 1; n |= (c & 127) << s; s += 7
        if c < 128: return n, i

class Rep(list):
    """repeated field"""
    def __init__(self, sub=None, it=()): super().__init__(it); self._sub = sub
    def add(self, **kw):
        m = self._sub(**kw); self.append(m); return m

class Msg:
    F = {}          # name -> (number, kind, repeated); kind: i f s b or a message class
    ONEOF = ()
    def __init__(self, **kw):
        object.__setattr__(self, '_v', {})
        for k, v in kw.items():
            if self.F[k][2]: getattr(self, k).extend(v)
            elif isinstance(v, Msg): self._v[k] = v
            else: setattr(self, k, v)
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        f = type(self).F.get(k)
        if f is None: raise AttributeError(k)
        v = self._v
        if k in v: return v[k]
        if '?' + k in v: return v['?' + k]
        if f[2]: v[k] = Rep(f[1] if isinstance(f[1], type) else None); return v[k]
        if isinstance(f[1], type): v['?' + k] = v.get('?' + k) or f[1](); return v['?' + k]
        return {'i': 0, 'f': 0.0, 's': '', 'b': b''}[f[1]]
    def _settle(self):
        for q in [q for q in self._v if q[0] == '?']:
            if self._v[q]._set(): self._v[q[1:]] = self._v.pop(q)
    def _set(self): self._settle(); return any(not q.startswith('?') and (not self.F[q][2] or len(self._v[q])) for q in self._v)
    def __setattr__(self, k, v):
        f = type(self).F.get(k)
        if f is None: raise AttributeError(k)
        if f[2] or isinstance(f[1], type): raise AttributeError('assignment to composite field ' + k)
        if f[1] == 'f': v = struct.unpack('f', struct.pack('f', v))[0]
        elif f[1] == 'i': v = int(v)
        elif f[1] == 's' and isinstance(v, bytes): v = v.decode()
        elif f[1] == 'b' and not isinstance(v, bytes): raise TypeError('bytes expected')
        if k in self.ONEOF:
            for o in self.ONEOF: self._v.pop(o, None)
        self._v[k] = v
    def HasField(self, k):
        f = self.F[k]
        if f[2]: raise ValueError('not a singular field')
        self._settle(); return k in self._v
    def WhichOneof(self, g): self._settle(); return next((k for k in self.ONEOF if k in self._v), None)
    def IsInitialized(self): return True
    def ClearField(self, k): self._v.pop(k, None); self._v.pop('?' + k, None)
    def CopyFrom(self, o): self._v.clear(); self.ParseFromString(o.SerializeToString())
    def MergeFrom(self, o): self._parse(o.SerializeToString())
    def SerializeToString(self):
        self._settle(); o = bytearray()
        for k, (num, kind, rep) in sorted(self.F.items(), key=lambda x: x[1][0]):
            if k not in self._v: continue
            vals = self._v[k] if rep else [self._v[k]]
            for v in vals:
                if kind == 'i': o += _varint(num << 3) + _varint(v)
                elif kind == 'f': o += _varint(num << 3 | 5) + struct.pack('<f', v)
                elif kind == 'd': o += _varint(num << 3 | 1) + struct.pack('<d', v)
                else:
                    d = v.encode() if kind == 's' else v if kind == 'b' else v.SerializeToString()
                    o += _varint(num << 3 | 2) + _varint(len(d)) + d
        return bytes(o)
    def ParseFromString(self, b): self._v.clear(); self._parse(bytes(b))
    def _parse(self, b):
        by = self.__dict__.get('_by') or {f[0]: (k, f[1], f[2]) for k, f in self.F.items()}
        i = 0; n = len(b)
        while i < n:
            t, i = _rdvar(b, i); num, w = t >> 3, t & 7
            if w == 0: v, i = _rdvar(b, i); v = v - (1 << 64) if v >= 1 << 63 else v
            elif w == 1: v = b[i:i + 8]; i += 8
            elif w == 5: v = b[i:i + 4]; i += 4
            elif w == 2:
                l, i = _rdvar(b, i)
                if i + l > n: raise ValueError('Error parsing message')
                v = b[i:i + l]; i += l
            else: raise ValueError('Error parsing message')
            if num not in by: continue
            k, kind, rep = by[num]
            if isinstance(kind, type): m = kind(); m._parse(v); vals = [m]
            elif kind == 'f': vals = [x[0] for x in struct.iter_unpack('<f', v)]
            elif kind == 'd': vals = [x[0] for x in struct.iter_unpack('<d', v)]
            elif kind == 'i' and w == 2:
                vals = []; j = 0
                while j < len(v): x, j = _rdvar(v, j); vals.append(x - (1 << 64) if x >= 1 << 63 else x)
            elif kind == 's': vals = [v.decode()]
            else: vals = [v]
            if rep: getattr(self, k).extend(vals)
            else:
                for o in self.ONEOF: self._v.pop(o, None) if k in self.ONEOF else None
                self._v.pop('?' + k, None); self._v[k] = vals[-1]
    def __eq__(self, o): return type(self) == type(o) and self.SerializeToString() == o.SerializeToString()
    __hash__ = None

class TensorProto(Msg):
    FLOAT, INT32, INT64, DOUBLE = 1, 6, 7, 11
    F = {'dims': (1, 'i', 1), 'data_type': (2, 'i', 0), 'float_data': (4, 'f', 1), 'int32_data': (5, 'i', 1), 'int64_data': (7, 'i', 1), 'name': (8, 's', 0), 'raw_data': (9, 'b', 0), 'double_data': (10, 'd', 1), 'doc_string': (12, 's', 0)}
class Dimension(Msg):
    F = {'dim_value': (1, 'i', 0), 'dim_param': (2, 's', 0)}; ONEOF = ('dim_value', 'dim_param')
class TensorShapeProto(Msg): F = {'dim': (1, Dimension, 1)}
class TypeTensor(Msg): F = {'elem_type': (1, 'i', 0), 'shape': (2, TensorShapeProto, 0)}
class TypeProto(Msg): F = {'tensor_type': (1, TypeTensor, 0)}
class ValueInfoProto(Msg): F = {'name': (1, 's', 0), 'type': (2, TypeProto, 0), 'doc_string': (3, 's', 0)}
class AttributeProto(Msg):
    FLOAT, INT, STRING, TENSOR, GRAPH, FLOATS, INTS, STRINGS = 1, 2, 3, 4, 5, 6, 7, 8
    F = {'name': (1, 's', 0), 'f': (2, 'f', 0), 'i': (3, 'i', 0), 's': (4, 'b', 0), 't': (5, TensorProto, 0), 'floats': (7, 'f', 1), 'ints': (8, 'i', 1), 'strings': (9, 'b', 1), 'doc_string': (13, 's', 0), 'type': (20, 'i', 0)}
class NodeProto(Msg): F = {'input': (1, 's', 1), 'output': (2, 's', 1), 'name': (3, 's', 0), 'op_type': (4, 's', 0), 'attribute': (5, AttributeProto, 1), 'doc_string': (6, 's', 0), 'domain': (7, 's', 0)}
class GraphProto(Msg): F = {'node': (1, NodeProto, 1), 'name': (2, 's', 0), 'initializer': (5, TensorProto, 1), 'doc_string': (10, 's', 0), 'input': (11, ValueInfoProto, 1), 'output': (12, ValueInfoProto, 1), 'value_info': (13, ValueInfoProto, 1)}
class OperatorSetIdProto(Msg): F = {'domain': (1, 's', 0), 'version': (2, 'i', 0)}
class StringStringEntryProto(Msg): F = {'key': (1, 's', 0), 'value': (2, 's', 0)}
class ModelProto(Msg): F = {'ir_version': (1, 'i', 0), 'producer_name': (2, 's', 0), 'producer_version': (3, 's', 0), 'domain': (4, 's', 0), 'model_version': (5, 'i', 0), 'doc_string': (6, 's', 0), 'graph': (7, GraphProto, 0), 'opset_import': (8, OperatorSetIdProto, 1), 'metadata_props': (14, StringStringEntryProto, 1)}
