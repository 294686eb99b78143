"""Shape inference for the operators the importer supports (opset 9); like the original it does not follow
computed shapes (Shape, Gather, Concat ... into Reshape), only constants stored in the model."""
from .proto import ModelProto, ValueInfoProto
from . import numpy_helper
import math

def attrs(n):
    d = {}
    for a in n.attribute:
        d[a.name] = a.f if a.HasField('f') else a.i if a.HasField('i') else a.s if a.HasField('s') else numpy_helper.to_array(a.t) if a.HasField('t') else list(a.floats) or list(a.ints) or list(a.strings)
    return d

def bcast(a, b):
    n = max(len(a), len(b)); a = (1,) * (n - len(a)) + tuple(a); b = (1,) * (n - len(b)) + tuple(b); o = []
    for x, y in zip(a, b):
        if x != y and x != 1 and y != 1: raise ValueError('Incompatible dimensions')
        o.append(max(x, y))
    return tuple(o)

def prod(s):
    p = 1
    for x in s: p *= int(x)
    return p

def window(n, a, x, w, out=None):
    """kernel, strides, pads and dilations of a convolution or pooling over data of shape x, all spelt out (out: so that exactly that many windows fit)"""
    k = list(a['kernel_shape'] if 'kernel_shape' in a else w[2:]); nd = len(k); st = list(a.get('strides', [1] * nd)); dil = list(a.get('dilations', [1] * nd)); p = list(a.get('pads', [0] * 2 * nd)); auto = a.get('auto_pad', b'NOTSET')
    if len(x) != nd + 2: raise ValueError('Attribute kernel_shape has incorrect size')
    for i in range(nd):
        full = (k[i] - 1) * dil[i] + 1
        if auto in (b'SAME_UPPER', b'SAME_LOWER'): t = max(0, (-(-x[2 + i] // st[i]) - 1) * st[i] + full - x[2 + i]); p[i] = t // 2 if auto == b'SAME_UPPER' else t - t // 2; p[i + nd] = t - p[i]
        elif auto == b'VALID': p[i] = p[i + nd] = 0
        if out is not None and a.get('ceil_mode', 0): p[i + nd] = (out[2 + i] - 1) * st[i] + full - x[2 + i] - p[i]
    return k, st, p, dil

def node_shape(n, sh, const):
    """shape of the first output, None if unknown"""
    a = attrs(n); s = [sh.get(i) for i in n.input]; op = n.op_type
    if op == 'Constant': return tuple(a['value'].shape)
    if not s or s[0] is None: return None
    x = tuple(s[0])
    if op in ('Conv', 'MaxPool', 'AveragePool'):
        k, st, p, dil = window(n, a, x, s[1] if op == 'Conv' else None); c = s[1][0] if op == 'Conv' else x[1]; up = a.get('ceil_mode', 0)
        return (x[0], c) + tuple(((x[2 + i] + p[i] + p[i + len(k)] - ((k[i] - 1) * dil[i] + 1)) + (st[i] - 1 if up else 0)) // st[i] + 1 for i in range(len(k)))
    if op in ('GlobalAveragePool', 'GlobalMaxPool'): return x[:2] + (1,) * (len(x) - 2)
    if op in ('Relu', 'Clip', 'LRN', 'BatchNormalization', 'Softmax', 'Dropout', 'Cast', 'Identity', 'Sigmoid', 'Tanh', 'LeakyRelu', 'Neg', 'Abs', 'Elu', 'Floor', 'Exp'): return x
    if op in ('Add', 'Mul', 'Sub', 'Sum'):
        for q in s[1:]:
            if q is None: return None
            x = bcast(x, q)
        return x
    if op == 'Gemm':
        if s[1] is None: return None
        return (x[1] if a.get('transA', 0) else x[0], s[1][0] if a.get('transB', 0) else s[1][1])
    if op == 'MatMul':
        if s[1] is None: return None
        w = tuple(s[1])
        if x[-1] != w[max(0, len(w) - 2)]: raise ValueError('Incompatible dimensions for matrix multiplication')
        if len(w) > 2: return bcast(x[:-2], w[:-2]) + (x[-2], w[-1])
        return x[:-1] + w[1:]
    if op == 'Concat':
        if any(q is None for q in s): return None
        ax = a['axis']; return x[:ax] + (sum(q[ax] for q in s),) + x[ax + 1:]
    if op == 'Flatten': ax = a.get('axis', 1); return (prod(x[:ax]), prod(x[ax:]))
    if op == 'Transpose': p = a.get('perm', list(range(len(x)))[::-1]); return tuple(x[i] for i in p)
    if op == 'Squeeze': ax = a['axes']; return tuple(d for i, d in enumerate(x) if i not in ax)
    if op == 'Unsqueeze':
        o = list(x)
        for i in sorted(a['axes']): o.insert(i, 1)
        return tuple(o)
    if op == 'Pad': p = a['pads']; return tuple(d + p[i] + p[i + len(x)] for i, d in enumerate(x))
    if op == 'Shape': return (len(x),)
    if op == 'Gather': ax = a.get('axis', 0); return None if s[1] is None else x[:ax] + tuple(s[1]) + x[ax + 1:]
    if op == 'Reshape':
        v = const.get(n.input[1])
        if v is None: return None
        v = [int(q) for q in v]; v = [x[i] if q == 0 else q for i, q in enumerate(v)]
        if -1 in v: i = v.index(-1); v[i] = prod(x) // -prod(v)
        if prod(v) != prod(x): raise ValueError('Reshape: sizes differ')
        return tuple(v)
    return None

def infer(model, follow=False):
    """name -> shape for everything known; follow: also evaluate computed shapes (used by the checks, not by infer_shapes)"""
    import numpy as np
    g = model.graph; sh = {}; const = {}
    for i in g.input:
        sh[i.name] = tuple(d.dim_value for d in i.type.tensor_type.shape.dim)
    for t in g.initializer: const[t.name] = numpy_helper.to_array(t); sh[t.name] = const[t.name].shape
    for n in g.node:
        if n.op_type == 'Constant': const[n.output[0]] = attrs(n)['value']
        if follow and n.op_type == 'Shape' and n.input[0] in sh: const[n.output[0]] = np.array(sh[n.input[0]], dtype=np.int64)
        if follow and all(i in const for i in n.input):
            a = attrs(n); v = [const[i] for i in n.input]
            if n.op_type == 'Gather': const[n.output[0]] = np.take(v[0], v[1], axis=a.get('axis', 0))
            if n.op_type == 'Unsqueeze': const[n.output[0]] = np.expand_dims(v[0], tuple(a['axes']))
            if n.op_type == 'Concat': const[n.output[0]] = np.concatenate(v, axis=a['axis'])
            if n.op_type == 'Cast': const[n.output[0]] = v[0]
        s = node_shape(n, sh, const)
        if s is not None: sh[n.output[0]] = tuple(int(q) for q in s)
    return sh, const

def infer_shapes(model):
    m = ModelProto(); m.ParseFromString(model.SerializeToString()); g = m.graph
    sh, _ = infer(m); outs = {o.name: o for o in g.output}; have = {v.name for v in g.value_info}
    for n in g.node:
        for o in n.output[:1]:
            if o not in sh: continue
            if o in outs:
                for d, v in zip(outs[o].type.tensor_type.shape.dim, sh[o]):
                    if d.HasField('dim_value') and d.dim_value != v: raise ValueError('Inferred shape and existing shape differ for ' + o)
                    d.dim_value = v
            elif o not in have:
                v = ValueInfoProto(); v.name = o; v.type.tensor_type.elem_type = 7 if n.op_type in ('Shape',) else 1
                for d in sh[o]: v.type.tensor_type.shape.dim.add(dim_value=d)
                g.value_info.append(v)
    return m
