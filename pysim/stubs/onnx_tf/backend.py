"""stand-in for onnx-tf: every requested output is drawn from a hash of model, its name and the input; every evaluation is recorded"""
import hashlib, random, struct
import numpy as np
CALLS = []
FAIL = [False]
SHAPES = {}           # tensor name -> (shape, type) of the simulated framework
class Outputs(tuple):
    def __getitem__(self, k): return tuple.__getitem__(self, self._names.index(k)) if isinstance(k, str) and k in self._names else self._missing(k) if isinstance(k, str) else tuple.__getitem__(self, k)
    def _missing(self, k): raise KeyError(k)
    def _asdict(self): return dict(zip(self._names, self))
def value(model, name, x):
    sh, ty = SHAPES[name]; r = random.Random(hashlib.sha256(model.graph.name.encode() + b'/' + name.encode() + repr(x.shape).encode() + x.tobytes()).hexdigest()); n = int(np.prod(sh)); sp = r.random() < .3
    if ty == 'l': return np.array([r.randrange(-1 << 40, 1 << 40) for _ in range(n)], dtype=np.int64).reshape(sh)
    b = [r.choice([0x7f800000, 0xff800000, 0x7fc00000, 1, 0x80000000, 0x7f7fffff]) if sp and r.random() < .2 else struct.unpack('<I', struct.pack('<f', r.uniform(-5, 5) * 10 ** r.choice([0, 0, -30, -6, 6, 30])))[0] for _ in range(n)]
    return np.array(b, dtype='<u4').view('<f4').reshape(sh)
class Rep:
    def __init__(self, model): self.model = model; self.tensor_dict = {k: 'Tensor' for k in SHAPES}; self.inputs = ['x']; self.outputs = [o.name for o in model.graph.output]
    def run(self, inputs, **k):
        if FAIL[0]: raise RuntimeError('Internal: could not run the graph')
        x = np.asarray(list(inputs.values())[0] if isinstance(inputs, dict) else inputs[0] if isinstance(inputs, (list, tuple)) else inputs)
        want = tuple(d.dim_value for d in self.model.graph.input[0].type.tensor_type.shape.dim)
        if tuple(x.shape) != want: raise ValueError('Cannot feed value of shape %s' % (x.shape,))
        for n in self.outputs:
            if n not in SHAPES: raise KeyError(n)
        o = Outputs(value(self.model, n, x) for n in self.outputs); o._names = list(self.outputs); CALLS.append((np.array(x, copy=True), dict(zip(o._names, tuple(o))))); return o
def prepare(model, device='CPU', **kw):
    if not model.graph.node: raise RuntimeError('empty graph')
    return Rep(model)
