"""stand-in for caffe2: outputs are values drawn from a hash of model and input; every call is recorded"""
import hashlib, random, struct
import numpy as np
CALLS = []
FAIL = [False]
STRICT = [False]      # check the number, shape and type of the inputs
DROP = [0]            # outputs that the framework leaves out at the end
def feeds(model): return [v for v in model.graph.input if v.name not in set(t.name for t in model.graph.initializer)]
class Outputs(tuple):
    pass
def run_model(model, inputs, device='CPU', **kw):
    if FAIL[0]: raise RuntimeError('no operator')
    if not model.graph.output or not model.opset_import: raise RuntimeError('no model')
    xs = [np.asarray(x) for x in (inputs if isinstance(inputs, (list, tuple)) else [inputs])]
    if STRICT[0]:
        fs = feeds(model)
        if len(xs) != len(fs): raise RuntimeError('Expected %d values for uninitialized graph inputs, but got %d.' % (len(fs), len(xs)))
        for f, x in zip(fs, xs):
            if tuple(d.dim_value for d in f.type.tensor_type.shape.dim) != tuple(x.shape) or x.dtype != np.float32: raise RuntimeError('unexpected input')
    x = np.asarray(inputs[0] if isinstance(inputs, (list, tuple)) else inputs); r = random.Random(hashlib.sha256(model.graph.name.encode() + repr(x.shape).encode() + x.tobytes() + b''.join(q.tobytes() for q in xs[1:])).hexdigest()); outs = []
    for o in model.graph.output:
        sh = tuple(d.dim_value for d in o.type.tensor_type.shape.dim); n = int(np.prod(sh)); b = []
        sp = r.random() < .2
        for _ in range(n): b.append(r.choice([0x7f800000, 0x7fc00000, 1, 0x80000000, 0x7f7fffff]) if sp and r.random() < .2 else struct.unpack('<I', struct.pack('<f', r.uniform(-5, 5) * 10 ** r.choice([0, 0, -6, 6])))[0])
        outs.append(np.array(b, dtype='<u4').view('<f4').reshape(sh))
    if DROP[0]: del outs[-DROP[0]:]
    CALLS.append((np.array(x, copy=True) if not STRICT[0] else [q.copy() for q in xs], [o.copy() for o in outs])); return Outputs(outs)
def prepare(model, device='CPU', **kw):
    class Rep:
        def run(self, inputs, **k): return run_model(model, inputs, device)
    return Rep()
