"""Seeded ONNX models. A model is a plan {'seed', 'in', 'steps': [[op, seed], ...], 'head', 'style'}; every step picks its
parameters from its own seed and the shape it finds, so any sub-list of steps is a model again (for minimisation)."""
import random
from . import imp                      # puts the stand-ins on the path
import numpy as np, onnx
from onnx import numpy_helper
from onnx.proto import *
from onnx.shape_inference import prod

CONV4 = ['Conv', 'Conv', 'Conv', 'SharedConv', 'MaxPool', 'AveragePool', 'BatchNormalization', 'Relu', 'Clip', 'LRN', 'Pad', 'Mul', 'Add', 'AddConst', 'Concat', 'Transpose', 'Dropout', 'Branch', 'GlobalMaxPool', 'GlobalAveragePool', 'Reshape4', 'Softmax', 'SharedBN', 'SqueezeW', 'ReshapeZeros']
CONV3 = ['Conv', 'Conv', 'Conv', 'SharedConv', 'MaxPool', 'AveragePool', 'BatchNormalization', 'Relu', 'Clip', 'Pad', 'Mul', 'Add', 'AddConst', 'Concat', 'Branch', 'Softmax', 'SharedBN', 'Unsqueeze']
FLAT = ['Flatten', 'Reshape', 'ReshapeConst', 'ReshapeChain', 'Squeeze', 'ReshapeZero']
FC = ['Gemm', 'Gemm', 'MatMul', 'MatMulT', 'Relu', 'Clip', 'Mul', 'Add', 'AddConst1', 'AddConst2', 'Concat', 'Pad', 'Branch', 'Softmax', 'SharedGemm', 'GemmNoBias', 'ReshapeNop', 'Unsqueeze', 'Dropout', 'Reshape1']

def gen_plan(seed, tier=0):
    r = random.Random(seed); nd = r.choice([4, 4, 4, 4, 3, 3, 2, 2])
    d = lambda hi: r.choice([1, 2, 3]) if r.random() < .5 else r.randint(1, hi)
    big = 12 if tier else 9
    shape = [1, d(5), r.randint(1, big), r.randint(1, big)] if nd == 4 else [1, d(5), r.randint(1, 16)] if nd == 3 else [1, r.randint(1, 24)]
    steps = []; s = lambda: r.randrange(1 << 30)
    if nd > 2:
        for _ in range(r.randint(0, 7 if tier else 5)): steps.append([r.choice(CONV4 if nd == 4 else CONV3), s()])
        steps.append([r.choice(FLAT), s()])
    for _ in range(r.randint(0 if nd > 2 else 1, 4)): steps.append([r.choice(FC), s()])
    return {'seed': s(), 'in': shape, 'steps': steps, 'style': r.randrange(1 << 30)}

def wide_plan(seed, tier=0):
    """many short branches from the input (or from an earlier tensor), all of them part of the output: every operator is seen"""
    r = random.Random('wide/%d' % seed); s = lambda: r.randrange(1 << 30); nd = r.choice([4, 4, 4, 3, 2])
    shape = [1, r.choice([1, 2, 3, 4, 6]), r.randint(1, 8), r.randint(1, 8)] if nd == 4 else [1, r.choice([1, 2, 3, 4, 6]), r.randint(1, 12)] if nd == 3 else [1, r.randint(1, 12)]
    ops = list(dict.fromkeys(CONV4 if nd == 4 else CONV3)) + ['AddSelf', 'ConcatSelf']; fc = list(dict.fromkeys(FC)) + ['AddSelf', 'ConcatSelf']; steps = []
    for _ in range(r.randint(6, 14)):
        steps.append(['Root', s()])
        if nd > 2:
            for _ in range(r.choice([1, 1, 2, 2, 3])): steps.append([r.choice(ops), s()])
            if r.random() < .5: steps.append([r.choice([f for f in FLAT if f != 'ReshapeChain']), s()])
        if nd == 2 or r.random() < .3:
            for _ in range(r.choice([1, 1, 2, 3])): steps.append([r.choice(fc), s()])
        steps.append(['Keep', s()])
    return {'seed': s(), 'in': shape, 'steps': steps, 'style': r.randrange(1 << 30)}

def directed():
    """one small model per operator, in the forms in which it occurs"""
    out = []
    for nd, ops in ((4, CONV4), (3, CONV3)):
        for k, op in enumerate(dict.fromkeys(ops)):
            for v in range(2): out.append({'seed': 11 + v, 'in': [1, 3, 6, 5] if nd == 4 else [1, 3, 7], 'steps': [['Conv', 5], [op, 100 * k + v], ['Flatten' if v else 'Reshape', 3], ['Gemm', 7]], 'style': v})
    for k, op in enumerate(FLAT):
        for v in range(2): out.append({'seed': 21, 'in': [1, 2, 4, 3] if v else [1, 2, 1, 1], 'steps': [['Relu', 5], [op, k], ['Gemm', 7]] + ([['Softmax', 1]] if v else []), 'style': v})
    for k, op in enumerate(dict.fromkeys(FC)):
        for v in range(2): out.append({'seed': 31, 'in': [1, 6], 'steps': [['Gemm', 5 + v], [op, k * 10 + v]] + ([['Gemm', 8], ['Relu', 1]] if v else []), 'style': v})
    return out

# ---- models beyond what the importer supports (C23)
ODD4 = ['DilConv', 'AutoConv', 'EvenConv', 'BareConv', 'ConvTW', 'AutoPool', 'CeilPool', 'DilPool', 'BarePool', 'LRNbias', 'LRNeven', 'LRNbare', 'SoftmaxAxis', 'FlattenAxis', 'ConcatAxis', 'TransposeAny', 'PadNeg', 'PadAxis', 'PadMode', 'PadBare',
        'MulTensor', 'MulChannel', 'MulFirst', 'MulAct', 'AddChannel', 'AddScalar', 'AddOne', 'AddAct', 'AddFirst', 'Unary', 'Sub', 'Sum', 'BNbare', 'ClipBare', 'Clip11', 'BatchUp', 'Dropout2', 'GlobalThen', 'TwoInputs', 'TwoOutputs', 'InitFirst', 'SqueezeBare', 'NegAxis', 'Asym', 'BNspatial', 'MatMulND', 'FiveD', 'Rank3', 'Rank2']
ODD3 = ['DilConv', 'AutoConv', 'EvenConv', 'BareConv', 'AutoPool', 'CeilPool', 'DilPool', 'BarePool', 'LRNbias', 'LRNeven', 'SoftmaxAxis', 'FlattenAxis', 'ConcatAxis', 'TransposeAny', 'PadNeg', 'PadAxis', 'PadMode', 'MulTensor', 'MulChannel', 'AddChannel', 'AddScalar', 'AddAct', 'BatchUp', 'GlobalThen', 'Sub', 'Unary', 'BNbare', 'BNspatial', 'MatMulND', 'Rank2', 'Rank4']
ODD2 = ['SoftmaxAxis', 'FlattenAxis', 'ConcatAxis', 'TransposeAny', 'PadNeg', 'PadMode', 'PadBare', 'PadAxis', 'MulTensor', 'MulFirst', 'MulAct', 'AddScalar', 'AddOne', 'AddOuter', 'AddFirst', 'Unary', 'Sub', 'Sum', 'GemmAlpha', 'GemmBeta', 'GemmNoT', 'GemmTA', 'GemmC', 'GemmAct', 'GemmRows', 'MatMulRows', 'MatMulAct', 'Rows', 'BN2', 'LRN2', 'ClipBare', 'Clip11', 'TwoInputs', 'TwoOutputs', 'InitFirst', 'OneD', 'MatMulLeft', 'MatMulVec', 'BNspatial', 'MulChannel', 'Rank4', 'Rank3']

def odd_plan(seed, tier=0):
    r = random.Random('odd/%d' % seed); s = lambda: r.randrange(1 << 30); nd = r.choice([4, 4, 4, 3, 2, 2])
    shape = [1, r.choice([1, 2, 3, 4, 6]), r.randint(1, 8), r.randint(1, 8)] if nd == 4 else [1, r.choice([1, 2, 3, 4, 6]), r.randint(1, 12)] if nd == 3 else [1, r.randint(1, 12)]
    steps = [[r.choice(CONV4 if nd == 4 else CONV3 if nd == 3 else FC), s()] for _ in range(r.choice([0, 1, 1, 2]))]
    if nd > 2 and r.random() < .15: steps.append([r.choice(FLAT), s()])
    steps.append(['Odd', s()])
    for _ in range(r.choice([0, 0, 1])): steps.append([r.choice(FC + CONV4), s()])
    if r.random() < .25: steps.append(['Odd', s()])
    return {'seed': s(), 'in': shape, 'steps': steps, 'style': r.randrange(1 << 30), 'odd': 1 + r.randrange(2)}

def directed_odd():
    out = []
    for nd, ops in ((4, ODD4), (3, ODD3), (2, ODD2)):
        for k, op in enumerate(ops):
            for v in range(10): out.append({'seed': 41 + v, 'in': ([1, 2, 5, 5] if v < 2 else [1, 4, 6, 4]) if nd == 4 else [1, 2, 7] if nd == 3 else [1, 4 + 2 * (v % 2)], 'steps': ([] if v == 0 else [['Relu', 1]] if v == 1 else [['Conv' if nd > 2 else 'Gemm', 5 + v]] if v < 5 else []) + [['Odd:' + op, 131 * k + v]] + ([['Gemm', 3]] if v in (3, 6) else []), 'style': v, 'odd': 1 + v % 2})
    return out

def some_pads(r, hi):
    """begins and ends of the spatial axes: anything, one side only, begins only, ends only, one axis only"""
    n = len(hi); p = [r.randint(0, h) if r.random() < .7 else h for h in hi * 2]; z = r.randrange(6)
    if z == 0: k = r.randrange(2 * n); p = [v if i == k else 0 for i, v in enumerate(p)]
    elif z == 1: p = p[:n] + [0] * n
    elif z == 2: p = [0] * n + p[n:]
    elif z == 3: k = r.randrange(n); p = [v if i % n == k else 0 for i, v in enumerate(p)]
    return p

class B:
    def __init__(s, plan):
        s.p = plan; s.m = ModelProto(); s.m.ir_version = 4; s.m.producer_name = 'gen'; s.m.opset_import.add(domain='', version=9)
        s.g = s.m.graph; s.g.name = 'g'; s.n = 0; s.st = random.Random(plan['style']); s.named = s.st.choice([0, 1, 2, 3]); s.tnames = s.st.choice([0, 1, 2, 3]); s.raw = s.st.random() < .6; s.init_in = s.st.random() < .5
        s.inits = []; s.live = []; s.kern = []; s.kept = []; s.keptn = []; s.tainted = set(); s.w = random.Random(plan['seed']); s.used = {}
        s.more_in = s.more_out = None; s.init_first = False
        s.chain = False          # a computed shape: onnx leaves what follows unknown
    def name(s, kind):
        s.n += 1
        return {0: '%d' % (s.n + 10), 1: '%s_%d' % (kind, s.n), 2: 'model/%s.%d:0' % (kind, s.n), 3: 'scope.%s/%s_%d' % ('x' * (s.n * 37 % 150), kind, s.n)}[s.tnames]
    def const(s, a, kind='w'):
        n = s.name(kind); s.inits.append((n, a)); return n
    def rand(s, shape, lo=-1.0, hi=1.0):
        z = s.w.random()
        if z < .04: return np.full(shape, s.w.choice([1.0, 1.0, .5, lo]), dtype=np.float32)
        if z < .08: f = s.w.choice([1e-3, 8.0]); lo *= f; hi *= f
        return np.array([s.w.uniform(lo, hi) for _ in range(prod(shape))], dtype=np.float32).reshape(shape)
    def node(s, op, ins, at=(), outs=1):
        n = NodeProto(); n.op_type = op; n.input.extend(ins); o = [s.name(op.lower()) for _ in range(outs)]; n.output.extend(o)
        k = len(s.g.node); n.name = {0: '', 1: '%s_%d' % (op, k), 2: 'net/%s.%d:x' % (op, k), 3: '' if k % 2 else 'n%s%d%s' % (op.lower(), k, 'y' * (k * 61 % 140))}[s.named]
        at = list(at)
        if s.st.random() < .3: s.st.shuffle(at)
        for k, v in at:
            a = n.attribute.add(name=k)
            if isinstance(v, float): a.f = v; a.type = 1
            elif isinstance(v, int): a.i = v; a.type = 2
            elif isinstance(v, bytes): a.s = v; a.type = 3
            elif isinstance(v, np.ndarray): a.t.CopyFrom(numpy_helper.from_array(v)); a.type = 4
            elif v and isinstance(v[0], float): a.floats.extend(v); a.type = 6
            else: a.ints.extend(v); a.type = 7
        s.g.node.append(n); return o[0]
    def push(s, name, shape):
        if s.chain: s.tainted.add(name)
        s.live.append((name, tuple(int(x) for x in shape))); return True
    def shape_input(s, r, v, const=None):
        v = np.array(v, dtype=np.int64)
        if const is None: const = r.random() < .4
        return s.node('Constant', [], [('value', v)]) if const else s.const(v, 'shape')

    def odd(s, op, seed):
        """one step that uses an operator, an attribute or a shape in a way the importer may not know"""
        r = random.Random(seed); x, sh = s.live[-1]; nd = len(sh); sp = nd - 2
        if op is None: op = r.choice({4: ODD4, 3: ODD3}.get(nd, ODD2))
        if s.chain or nd < 2: return
        N = prod(sh); push = s.push; C = sh[1]
        def window(op, k, st, at, **kw):
            """a convolution or pooling with these attributes, if a window fits"""
            at = dict(at); at.update(kw); ins = [x]; oc = C
            if k is not None: at['kernel_shape'] = k
            if st is not None: at['strides'] = st
            if op == 'Conv':
                kk = k or s_k; oc = r.randint(1, 4); ins.append(s.const(s.rand((oc, C) + tuple(kk)))); 
                if r.random() < .6: ins.append(s.const(s.rand((oc,)), 'b'))
                if r.random() < .5: at['group'] = 1
            n = NodeProto(); n.op_type = op; n.input.extend(ins); m = s.node(op, ins, sorted(at.items())); shapes = {x: sh}; shapes.update({q: v.shape for q, v in s.inits if q in ins}); o = onnx.shape_inference.node_shape(s.g.node[-1], shapes, {})
            if min(o) < 1: s.g.node.pop(); return
            return push(m, o)
        spatial = sh[2:]
        if op in ('DilConv', 'AutoConv', 'EvenConv', 'BareConv', 'AutoPool', 'CeilPool', 'DilPool', 'BarePool', 'Asym'):
            if nd < 3: return
            kind = 'Conv' if op.endswith('Conv') else r.choice(['MaxPool', 'AveragePool']); st = [r.choice([1, 1, 2, 3]) for _ in range(sp)]; odd = [1, 3, 3, 5]; k = [r.choice(odd if kind == 'Conv' else [1, 2, 3]) for _ in range(sp)]; at = {}; p = [r.randint(0, (q - 1) // 2 if kind != 'Conv' else 2) for q in k] * 2
            if op in ('DilConv', 'DilPool'):
                if op == 'DilPool': kind = 'MaxPool'; s.m.opset_import[0].version = 10; k = [max(2, q) for q in k]
                else: k = [max(3, q) for q in k]
                at['dilations'] = [r.choice([1, 2, 2, 3]) for _ in range(sp)]
                if max(at['dilations']) == 1: at['dilations'][r.randrange(sp)] = 2
                if r.random() < .7: at['pads'] = p
            elif op in ('AutoConv', 'AutoPool'): at['auto_pad'] = r.choice([b'SAME_UPPER', b'SAME_LOWER', b'SAME_UPPER', b'SAME_LOWER', b'VALID', b'NOTSET'])
            elif op == 'EvenConv': k[r.randrange(sp)] = r.choice([2, 4]); at['pads'] = p
            elif op == 'CeilPool': at['ceil_mode'] = 1; s.m.opset_import[0].version = 10; st = [max(2, q) for q in st]; at['pads'] = [0] * 2 * sp if r.random() < .5 else p
            elif op == 'BareConv':
                s_k = k
                if r.random() < .5: return window(kind, None, st, at)
                return window(kind, k, None, at)
            elif op == 'BarePool': return window(kind, k, None, at)
            elif op == 'Asym': at['pads'] = [r.randint(0, max(0, q - 1)) for q in k * 2]; at['count_include_pad'] = 1 if kind == 'AveragePool' else 0; at = {q: v for q, v in at.items() if q == 'pads' or v}
            if op in ('AutoPool', 'CeilPool', 'DilPool') and kind == 'AveragePool' and r.random() < .5: at['count_include_pad'] = 1
            if op == 'CeilPool' and kind == 'AveragePool' and at.get('count_include_pad'): del at['count_include_pad']
            return window(kind, k, st, at)
        if op == 'ConvTW':
            if nd != 4 or C < 1: return
            o = r.randint(1, 3); w = s.node('Transpose', [s.const(s.rand((C, o, 3, 1)))], [('perm', [1, 0, 2, 3])])
            if sh[2] < 3: return
            return push(s.node('Conv', [x, w], [('kernel_shape', [3, 1]), ('strides', [1, 1])]), [1, o, sh[2] - 2, sh[3]])
        if op in ('LRNbias', 'LRNeven', 'LRNbare', 'LRN2'):
            at = [('alpha', r.choice([.05, .5, 2.0])), ('beta', r.choice([.75, .5])), ('size', r.choice([1, 3, 5]) if op != 'LRNeven' else r.choice([2, 4]))]
            if op == 'LRNbias': at.append(('bias', r.choice([2.0, .5, 1.5])))
            if op == 'LRNbare': at = at[-1:] + ([('alpha', .1)] if r.random() < .5 else [])
            return push(s.node('LRN', [x], at), sh)
        if op == 'SoftmaxAxis': return push(s.node('Softmax', [x], [('axis', r.choice([a for a in range(nd) if a != 1]))]), sh)
        if op == 'NegAxis': s.m.opset_import[0].version = 11; return push(s.node('Softmax', [x], [('axis', -r.randint(1, nd - 1))]), sh)
        if op == 'FlattenAxis': a = r.choice([q for q in range(nd + 1) if q != 1]); return push(s.node('Flatten', [x], [('axis', a)]), [prod(sh[:a]), prod(sh[a:])])
        if op == 'ConcatAxis':
            a = r.choice([q for q in range(nd) if q != 1]); c = [t[0] for t in s.live if t[1] == sh]; o = list(sh); o[a] *= 2; return push(s.node('Concat', [x, r.choice(c)], [('axis', a)]), o)
        if op == 'TransposeAny':
            q = list(range(nd))
            while q == sorted(q): r.shuffle(q)
            return push(s.node('Transpose', [x], [('perm', q)] if r.random() < .8 or q != q[::-1] else []), [sh[i] for i in q])
        if op in ('PadNeg', 'PadAxis', 'PadMode', 'PadBare'):
            q = [0] * 2 * nd
            for i in range(0 if op == 'PadAxis' else min(2, nd - 1), nd): q[i] = r.randint(0, 1); q[nd + i] = r.randint(0, 1)
            if op == 'PadNeg':
                for i in range(1, nd):
                    if sh[i] > 2 and (i >= 2 or nd == 2): q[r.choice([i, nd + i])] = -1
                if min(q) >= 0: return
            if op == 'PadMode' and min(sh[2:] or sh[1:]) < 2: return
            if not any(q): q[-1] = 1
            at = [('mode', r.choice([b'reflect', b'edge']) if op == 'PadMode' else b'constant'), ('pads', q), ('value', r.choice([0.0, 1.5]))]
            if op == 'PadBare': at = [('pads', q)]
            return push(s.node('Pad', [x], at), [d + q[i] + q[i + nd] for i, d in enumerate(sh)])
        c1 = (1, C) + (1,) * sp
        if op in ('MulTensor', 'MulChannel', 'AddChannel'):
            d = r.choice([sh, sh, sh[1:], sh[-1:], (1,) * (nd - 1) + tuple(sh[-1:])]) if op == 'MulTensor' else r.choice([c1, c1[1:], (C,) + (1,) * sp] if nd > 2 else [sh, sh[1:]]); w = s.const(s.rand(d), 'f'); return push(s.node(op[:3], [x, w] if r.random() < .7 else [w, x]), sh)
        if op in ('MulFirst', 'AddScalar', 'AddOne'):
            f = np.array(np.float32(r.choice([2.0, -.5, .125]))); f = f if r.random() < .5 else f.reshape(1 if op != 'AddOne' else (1,) * nd); w = s.const(f, 'factor'); return push(s.node(op[:3], [w, x] if op == 'MulFirst' or r.random() < .3 else [x, w]), sh)
        if op == 'AddFirst': w = s.const(s.rand(sh), 'add'); return push(s.node('Add', [w, x]), sh)
        if op in ('MulAct', 'AddAct'):
            c = [t[0] for t in s.live if t[1] == sh]; y = r.choice(c)
            if op == 'AddAct' and nd == 4: y = s.node('GlobalAveragePool', [x])
            elif op == 'AddAct': return
            if r.random() < .4 and nd == 4 and op == 'MulAct': y = s.node('GlobalMaxPool', [x])
            return push(s.node(op[:3], [x, y] if r.random() < .7 else [y, x]), sh)
        if op == 'AddOuter':
            y = s.node('Reshape', [x, s.const(np.array([C, 1], dtype=np.int64), 'shape')]) if r.random() < .5 else s.const(s.rand((C, 1)), 'add'); return push(s.node(r.choice(['Add', 'Add', 'Sub', 'Mul']), [x, y] if r.random() < .6 else [y, x]), [C, C])
        if op == 'Unary':
            k = r.choice(['Sigmoid', 'Tanh', 'LeakyRelu', 'Neg', 'Abs', 'Elu', 'Floor', 'Exp', 'Identity']); return push(s.node(k, [x], [('alpha', .2)] if k in ('LeakyRelu', 'Elu') and r.random() < .5 else []), sh)
        if op == 'Sub':
            c = [t[0] for t in s.live if t[1] == sh] + [s.const(s.rand(sh), 'sub')]; return push(s.node('Sub', [x, r.choice(c)]), sh)
        if op == 'Sum': c = [t[0] for t in s.live if t[1] == sh]; return push(s.node('Sum', [x] + [r.choice(c) for _ in range(r.randint(0, 2))]), sh)
        if op in ('BNbare', 'BN2'):
            if op == 'BN2' and nd != 2: return
            return push(s.node('BatchNormalization', [x] + [s.const(s.rand((C,)), 'bn') for _ in range(3)] + [s.const(s.rand((C,), .05, 3), 'var')], [] if op == 'BNbare' else [('epsilon', 1e-3)]), sh)
        if op == 'BNspatial': return push(s.node('BatchNormalization', [x] + [s.const(s.rand(sh[1:]), 'bn') for _ in range(3)] + [s.const(s.rand(sh[1:], .05, 3), 'var')], [('epsilon', 1e-3), ('spatial', 0)]), sh)
        if op == 'MatMulND':
            if nd < 3: return
            K, o = sh[-1], r.randint(1, 4); k = r.randrange(3); w = s.const(s.rand((K, o) if k else tuple(sh[:-2]) + (K, o)))
            return push(s.node('MatMul', [x, w]), list(sh[:-1]) + [o])
        if op == 'FiveD':
            t = [1, C, sh[2], 1, sh[3]] if nd == 4 else None
            if not t: return
            y = s.node('Reshape', [x, s.const(np.array(t, dtype=np.int64), 'shape')]); k = r.choice(['Relu', 'Clip', 'Add', 'Mul', 'Concat', 'Softmax', 'BatchNormalization', 'GlobalMaxPool', 'GlobalAveragePool', 'Conv', 'MaxPool', 'Flatten', 'LRN', 'Pad'])
            if k == 'Concat': y = s.node(k, [y, y], [('axis', 1)]); t[1] *= 2
            elif k == 'Add': y = s.node(k, [y, s.const(s.rand(t), 'add')])
            elif k == 'Mul': y = s.node(k, [y, s.const(np.array([np.float32(.5)]), 'factor')])
            elif k == 'BatchNormalization': y = s.node(k, [y] + [s.const(s.rand((C,)), 'bn') for _ in range(3)] + [s.const(s.rand((C,), .05, 3), 'var')], [('epsilon', 1e-3)])
            elif k.startswith('Global'): y = s.node(k, [y]); t = t[:2] + [1, 1, 1]
            elif k == 'Conv': y = s.node(k, [y, s.const(s.rand((2, C, 1, 1, 1)))], [('kernel_shape', [1, 1, 1]), ('strides', [1, 1, 1])]); t[1] = 2
            elif k == 'MaxPool': y = s.node(k, [y], [('kernel_shape', [1, 1, 1]), ('strides', [1, 1, 1])])
            elif k == 'Pad': y = s.node(k, [y], [('mode', b'constant'), ('pads', [0] * 9 + [1]), ('value', 0.0)]); t[4] += 1
            elif k != 'Flatten': y = s.node(k, [y], {'LRN': [('alpha', .5), ('beta', .5), ('size', 3)], 'Clip': [('min', -.2), ('max', .5)]}.get(k, []))
            return push(s.node('Flatten', [y]), [1, prod(t)])
        if op.startswith('Rank'):
            k = int(op[4]); t = {2: [[C, N // C], [N // C, C], [1, N]], 3: [[1, C, N // C], [C, 1, N // C], [C, N // C, 1]], 4: [[1, C, 1, N // C], [1, 1, C, N // C], [C, 1, 1, N // C], [1, C, N // C, 1]]}[k]; t = r.choice(t); y = s.node('Reshape', [x, s.const(np.array(t, dtype=np.int64), 'shape')]); push(y, t)
            q = r.choice(['Relu', 'Clip', 'Mul', 'Concat', 'Softmax', 'Transpose', 'AddConst', 'none', 'none'])
            if q == 'Concat': return push(s.node(q, [y, y], [('axis', 1)]), [t[0], 2 * t[1]] + t[2:])
            if q == 'AddConst': return push(s.node('Add', [y, s.const(s.rand(t), 'add')]), t)
            if q == 'Mul': return push(s.node(q, [y, s.const(np.array([np.float32(.5)]), 'factor')]), t)
            if q == 'Transpose': p = list(range(k)); r.shuffle(p); return push(s.node(q, [y], [('perm', p)]), [t[i] for i in p])
            return push(s.node(q, [y], [('min', -.2), ('max', .5)] if q == 'Clip' else []), t) if q != 'none' else None
        if op == 'ClipBare': return push(s.node('Clip', [x], r.choice([[('min', -.2)], [('max', .4)], []])), sh)
        if op == 'Clip11': s.m.opset_import[0].version = 11; return push(s.node('Clip', [x, s.const(np.array(np.float32(-.3)), 'lo')] + ([s.const(np.array(np.float32(.4)), 'hi')] if r.random() < .7 else [])), sh)
        if op == 'BatchUp':
            if C % 2 or nd < 3: return
            t = [2, C // 2] + list(sh[2:]); y = s.node('Reshape', [x, s.const(np.array(t, dtype=np.int64), 'shape')]); s.live.append((y, tuple(t))); k = r.choice(['Conv', 'MaxPool', 'AveragePool', 'GlobalMaxPool', 'GlobalAveragePool', 'BatchNormalization', 'Relu', 'LRN', 'Softmax', 'Pad', 'Transpose', 'Clip', 'Mul', 'AddConst', 'Concat', 'Flatten', 'Gemm'])
            if k in ('Conv', 'MaxPool', 'AveragePool'):
                C = t[1]; x = y; sh = tuple(t); return window(k, [1] * sp if r.random() < .3 or min(t[2:]) < 3 else [3] * sp, [1] * sp, {})
            if k.startswith('Global'): return push(s.node(k, [y]), t[:2] + [1] * sp)
            if k == 'Flatten': return push(s.node('Flatten', [y]), [2, prod(t[1:])])
            if k == 'Gemm': f = s.node('Flatten', [y]); return push(s.node('Gemm', [f, s.const(s.rand((3, prod(t[1:])))), s.const(s.rand((3,)), 'b')], [('transB', 1)]), [2, 3])
            if k == 'Concat': return push(s.node('Concat', [y, y], [('axis', 1)]), [2, 2 * t[1]] + t[2:])
            if k == 'AddConst': return push(s.node('Add', [y, s.const(s.rand(t), 'add')]), t)
            if k == 'Transpose': q = list(range(nd)); r.shuffle(q); return push(s.node('Transpose', [y], [('perm', q)]), [t[i] for i in q])
            if k == 'BatchNormalization': return push(s.node(k, [y] + [s.const(s.rand((t[1],)), 'bn') for _ in range(3)] + [s.const(s.rand((t[1],), .05, 3), 'var')], [('epsilon', 1e-3)]), t)
            if k == 'Pad': q = [0] * 2 * nd; q[-1] = 1; q[nd - 1] = 1; return push(s.node('Pad', [y], [('mode', b'constant'), ('pads', q), ('value', 1.0)]), t[:-1] + [t[-1] + 2])
            if k == 'Mul': return push(s.node('Mul', [y, s.const(np.array([np.float32(.5)]), 'factor')]), t)
            return push(s.node(k, [y], {'LRN': [('alpha', .5), ('beta', .5), ('size', 3)], 'Softmax': [('axis', 1)], 'Clip': [('min', -.2), ('max', .5)]}.get(k, [])), t)
        if op == 'Dropout2': n = s.node('Dropout', [x], [('ratio', .5)], 2); return push(n, sh)
        if op == 'GlobalThen': return push(s.node(r.choice(['GlobalMaxPool', 'GlobalAveragePool']), [x]), list(sh[:2]) + [1] * sp)
        if op == 'SqueezeBare': return push(s.node('Squeeze', [x], [('axes', [0])]), sh[1:]) if nd > 2 else None
        if op == 'TwoInputs': n = s.name('data'); s.more_in = (n, sh); return push(s.node('Add', [x, n]), sh)
        if op == 'TwoOutputs': s.more_out = (x, sh) if x != s.input else None; return push(s.node('Relu', [x]), sh)
        if op == 'InitFirst': s.init_in = s.init_first = True; return s.step('Relu', 1)
        if op == 'OneD': return push(s.node('Reshape', [x, s.const(np.array([-1], dtype=np.int64), 'shape')]), [C]) if nd == 2 else None
        if nd != 2: return
        o = r.randint(1, 5)
        if op.startswith('Gemm') or op in ('MatMulRows', 'Rows'):
            M, K = sh; w = s.const(s.rand((o, K))); at = {'transB': 1}; ins = [x, w]; b = s.const(s.rand((o,)), 'b')
            if op in ('GemmRows', 'MatMulRows', 'Rows'):
                M = r.choice([q for q in range(1, C + 1) if C % q == 0 and q > 1] or [1]); K = C // M; x = s.node('Reshape', [x, s.const(np.array([M, K], dtype=np.int64), 'shape')]); ins = [x, s.const(s.rand((o, K)))]
                if op == 'Rows':
                    k = r.choice(['Relu', 'Softmax', 'Clip', 'Concat', 'Mul', 'Add', 'Pad', 'Flatten']); q = [0, 1, 0, 1]
                    if k == 'Concat': return push(s.node('Concat', [x, x], [('axis', 1)]), [M, 2 * K])
                    if k == 'Add': return push(s.node('Add', [x, s.const(s.rand(r.choice([(M, K), (K,), (M, 1), (K * 1,)])), 'add')]), [M, K])
                    if k == 'Mul': return push(s.node('Mul', [x, s.const(np.array([np.float32(.5)]), 'factor')]), [M, K])
                    if k == 'Pad': return push(s.node('Pad', [x], [('mode', b'constant'), ('pads', q), ('value', .5)]), [M, K + 2])
                    if k == 'Flatten': return push(s.node('Flatten', [x], [('axis', 1)]), [M, K])
                    return push(s.node(k, [x], [('min', -.2), ('max', .5)] if k == 'Clip' else []), [M, K])
                if op == 'MatMulRows': return push(s.node('MatMul', [x, s.const(s.rand((K, o)))]), [M, o])
            if op == 'GemmAlpha': at['alpha'] = r.choice([.5, 2.0, 0.0, -1.0])
            if op == 'GemmBeta': at['beta'] = r.choice([.5, 2.0, 0.0])
            if op == 'GemmNoT': ins[1] = s.const(s.rand((K, o) if r.random() < .5 else (K, K))); o = s.inits[-1][1].shape[1]; b = s.const(s.rand((o,)), 'b'); at = {'transB': 0} if r.random() < .5 else {}
            if op == 'GemmTA':
                if M == 1: ins[0] = s.node('Reshape', [x, s.const(np.array([K, 1], dtype=np.int64), 'shape')])
                else: ins[1] = s.const(s.rand((o, M)))
                at['transA'] = 1; M = 1 if M == 1 else K
            if op == 'GemmAct':
                if M != 1: return
                ins[1] = x; o = 1; b = s.const(s.rand((1,)), 'b')
            if op == 'GemmC': b = s.const(s.rand(r.choice([(1, o), (), (1, 1), (1,), (M, 1), (M, o)])), 'c')
            return push(s.node('Gemm', ins + [b], sorted(at.items())), [M, o])
        if op == 'MatMulLeft':
            y = s.node('Reshape', [x, s.const(np.array([C, 1], dtype=np.int64), 'shape')]) if sh[0] == 1 else x; M = C if sh[0] == 1 else sh[0]; L = r.choice([1, o]); return push(s.node('MatMul', [s.const(s.rand((L, M))), y]), [L, 1 if sh[0] == 1 else C])
        if op == 'MatMulVec': return push(s.node('MatMul', [x, s.const(s.rand((C,)))]), [sh[0]])
        if op == 'MatMulAct':
            M, K = sh
            if M != 1: return
            y = s.node('Reshape', [x, s.const(np.array([K, 1], dtype=np.int64), 'shape')]); return push(s.node('MatMul', [x, y]), [1, 1]) if r.random() < .5 else push(s.node('MatMul', [y, x]), [K, K])

    def step(s, op, seed):
        if op.startswith('Odd'):
            n = len(s.g.node)
            for k in range(6):       # until something fits
                s.odd(op[4:] or None, seed + 1009 * k)
                if len(s.g.node) > n: break
            return
        r = random.Random(seed); x, sh = s.live[-1]; nd = len(sh)
        if s.p.get('odd') and (sh[0] != 1 or nd < 2):      # only after an odd step
            return s.push(s.node('Flatten', [x]), [sh[0], prod(sh[1:])]) if op == 'Flatten' and nd > 2 else s.push(s.node('Relu', [x]), sh) if op == 'Relu' else None
        if op == 'Root':             # a new branch, mostly from the input
            s.chain = False; c = [t for t in s.live if t[0] not in s.tainted]; s.live.append(s.live[0] if r.random() < .7 else r.choice(c)); return
        if op == 'Keep':             # part of the output
            if x == s.live[0][0]: s.step('Relu', 1)
            if nd > 2: s.step(r.choice(['Flatten', 'Reshape']), seed)
            if s.live[-1][0] not in s.kept: s.kept.append(s.live[-1][0]); s.keptn.append(s.live[-1][1][1])
            return
        if op in ('AddSelf', 'ConcatSelf'):
            return s.push(s.node('Add', [x, x]), sh) if op == 'AddSelf' else s.push(s.node('Concat', [x, x], [('axis', 1)]), [1, 2 * sh[1]] + list(sh[2:]))
        if op == 'Branch':           # continue from an earlier tensor
            c = [t for t in s.live if len(t[1]) == nd]; s.live.append(r.choice(c)); return
        if op in ('Conv', 'SharedConv'):
            if nd < 3 or s.chain: return
            C = sh[1]; sp = nd - 2; k = [r.choice([1, 3, 3, 5]) for _ in range(sp)]; st = [r.choice([1, 1, 2, 3]) for _ in range(sp)]; mode = r.randrange(4)
            pads = [0] * 2 * sp if mode == 0 else [q // 2 for q in k] * 2 if mode == 1 else some_pads(r, [2] * sp)
            for i in range(sp):
                while k[i] > sh[2 + i] + pads[i] + pads[i + sp] and k[i] > 1: k[i] -= 2
            g = r.choice([q for q in range(1, C + 1) if C % q == 0] + [1, 1, C]); oc = g * r.randint(1, max(1, 6 // g))
            w = None
            if op == 'SharedConv':
                c = [q for q in s.kern if len(q[1]) == nd and C % q[1][1] == 0 and q[1][0] % (C // q[1][1]) == 0 and all(q[1][2 + i] <= sh[2 + i] + pads[i] + pads[i + sp] for i in range(sp))]
                if c: w, ws = r.choice(c); k = list(ws[2:]); g = C // ws[1]; oc = ws[0]
            if w is None: ws = (oc, C // g) + tuple(k); w = s.const(s.rand(ws)); s.kern.append((w, ws))
            ins = [x, w]
            if r.random() < .6:
                b = [q for q in s.kern if q[1] == (oc,)]
                if b and r.random() < .3: ins.append(b[0][0])
                else: ins.append(s.const(s.rand((oc,)), 'b')); s.kern.append((ins[-1], (oc,)))
            at = [('kernel_shape', k), ('strides', st)]
            if any(pads) or r.random() < .6: at.append(('pads', pads))
            if g > 1 or r.random() < .5: at.append(('group', g))
            if r.random() < .3: at.append(('dilations', [1] * sp))
            o = [(sh[2 + i] + pads[i] + pads[i + sp] - k[i]) // st[i] + 1 for i in range(sp)]
            return s.push(s.node('Conv', ins, at), [1, oc] + o)
        if op in ('MaxPool', 'AveragePool'):
            if nd < 3: return
            sp = nd - 2; k = [r.choice([1, 2, 2, 3, 3]) for _ in range(sp)]; st = [r.randint(1, 3) for _ in range(sp)]; pads = [0] * 2 * sp if r.random() < .35 else some_pads(r, [q - 1 for q in k])
            for i in range(sp):
                if k[i] > sh[2 + i] + pads[i] + pads[i + sp]: k[i] = 1; pads[i] = pads[i + sp] = 0
            at = [('kernel_shape', k), ('strides', st)]
            if any(pads) or r.random() < .6: at.append(('pads', pads))
            if op == 'AveragePool' and r.random() < .6: at.append(('count_include_pad', r.randint(0, 1)))
            o = [(sh[2 + i] + pads[i] + pads[i + sp] - k[i]) // st[i] + 1 for i in range(sp)]
            return s.push(s.node(op, [x], at), list(sh[:2]) + o)
        if op in ('GlobalMaxPool', 'GlobalAveragePool'):
            if nd != 4 or s.chain: return
            return s.push(s.node(op, [x]), [1, sh[1], 1, 1])
        if op in ('BatchNormalization', 'SharedBN'):
            if nd < 3: return
            C = sh[1]; a = [s.const(s.rand((C,)), 'bn') for _ in range(3)] + [s.const(s.rand((C,), .05, 3), 'var')]
            if r.random() < .12:         # tiny scale and variance
                a[0] = s.const(s.rand((C,)) * np.float32(1e-6), 'bn'); a[3] = s.const(s.rand((C,), .05, 3) * np.float32(1e-6), 'var')
            if op == 'SharedBN':
                z = r.randrange(3)
                if z == 0: a[0] = a[3]                 # scale == variance (the same initializer twice)
                elif z == 1: a[2] = a[1]
                else:
                    c = [q for q in s.kern if q[1] == (C,)]
                    if c: a[1] = r.choice(c)[0]
            s.inits = [i for i in s.inits if not (i[0].endswith('~'))]
            at = [('epsilon', r.choice([1e-5, 1e-3, 0.1, 1e-7]))]
            if r.random() < .4: at.append(('momentum', .9))
            return s.push(s.node('BatchNormalization', [x] + a, at), sh)
        if op == 'Relu': return s.push(s.node('Relu', [x]), sh)
        if op == 'Clip': lo = r.choice([0.0, -1.0, -0.3]); return s.push(s.node('Clip', [x], [('min', lo), ('max', r.choice([6.0, 1.0, .25, 3.0e38]))]), sh)
        if op == 'LRN':
            if nd != 4 or s.chain: return
            return s.push(s.node('LRN', [x], [('alpha', r.choice([1e-4, .05, .5])), ('beta', r.choice([.75, .5, 1.0])), ('size', r.choice([1, 3, 5]))] + ([('bias', 1.0)] if r.random() < .5 else [])), sh)
        if op == 'Pad':
            if s.chain: return
            p = [0] * 2 * nd
            if nd == 2: p[1] = r.randint(0, 2); p[3] = r.randint(0, 2)
            else:
                for i in range(2, nd): p[i] = r.randint(0, 2); p[nd + i] = r.randint(0, 2)
            if not any(p): p[-1] = 1
            return s.push(s.node('Pad', [x], [('mode', b'constant'), ('pads', p), ('value', r.choice([0.0, 1.5, -2.0]))]), [d + p[i] + p[i + nd] for i, d in enumerate(sh)])
        if op == 'Mul':
            if s.chain: return
            f = np.float32(r.choice([2.0, -.5, .125, 1 / 3])); return s.push(s.node('Mul', [x, s.const(np.array([f]) if r.random() < .5 else np.array(f), 'factor')]), sh)
        if op == 'Dropout': return s.push(s.node('Dropout', [x], [('ratio', .5)]), sh) if r.random() < .7 or True else None
        if op == 'Add':
            c = [t[0] for t in s.live if t[1] == sh]; return s.push(s.node('Add', [r.choice(c), x] if r.random() < .5 else [x, r.choice(c)]), sh)
        if op in ('AddConst', 'AddConst1', 'AddConst2'):
            w = s.const(s.rand((sh[1],)) if op == 'AddConst1' and nd == 2 else s.rand(sh), 'add'); return s.push(s.node('Add', [x, w]), sh)
        if op == 'Concat':
            c = [t for t in s.live if len(t[1]) == nd and t[1][2:] == sh[2:]]; k = [x] + [r.choice(c)[0] for _ in range(r.randint(1, 2)) if c]; t = {x: sh[1]}; t.update({q[0]: q[1][1] for q in c})
            r.shuffle(k); return s.push(s.node('Concat', k, [('axis', 1)]), [1, sum(t[q] for q in k)] + list(sh[2:]))
        if op == 'Transpose':
            if nd != 4: return
            p = r.choice([[0, 1, 3, 2], [0, 2, 1, 3], [0, 2, 3, 1], [0, 3, 1, 2], [0, 3, 2, 1]])
            if s.g.node and s.g.node[-1].op_type == 'Transpose': return
            return s.push(s.node('Transpose', [x], [('perm', p)]), [sh[i] for i in p])
        if op == 'Softmax': return s.push(s.node('Softmax', [x], [('axis', 1)] if r.random() < .7 else []), sh)
        if op == 'Reshape4':
            if nd != 4: return
            n = prod(sh); c = r.choice([q for q in range(1, n + 1) if n % q == 0]); h = r.choice([q for q in range(1, n // c + 1) if n // c % q == 0]); t = [1, c, h, n // c // h]
            return s.push(s.node('Reshape', [x, s.shape_input(r, t if r.random() < .5 else t[:2] + [-1] + t[3:])]), t)
        if op == 'ReshapeZeros':     # several dimensions kept
            if nd != 4: return
            q, t = r.choice([([0, 0, -1], [1, sh[1], sh[2] * sh[3]]), ([0, -1, 0], [1, sh[1] * sh[3], sh[2]]), ([0, 0, 0, -1], sh), ([0, 0, sh[3], -1], [1, sh[1], sh[3], sh[2]]), ([0, 0, 1, -1], [1, sh[1], 1, sh[2] * sh[3]])])
            return s.push(s.node('Reshape', [x, s.shape_input(r, q)]), t)
        if op == 'SqueezeW':         # towards a 1-D network
            if nd != 4 or (sh[2] != 1 and sh[3] != 1): return
            ax = 2 if sh[2] == 1 else 3; return s.push(s.node('Squeeze', [x], [('axes', [ax])]), sh[:ax] + sh[ax + 1:])
        if op == 'Unsqueeze':
            if nd == 2: ax = r.choice([[2], [2, 3], [1], [1, 2]])
            elif nd == 3: ax = [r.choice([2, 3])]
            else: return
            o = list(sh)
            for a in ax: o.insert(a, 1)
            return s.push(s.node('Unsqueeze', [x], [('axes', ax)]), o)
        if op in FLAT:
            if nd == 2 and op != 'ReshapeConst': return
            n = prod(sh)
            if op == 'Squeeze':
                if all(q == 1 for q in sh[2:]): return s.push(s.node('Squeeze', [x], [('axes', list(range(2, nd)))]), sh[:2])
                op = 'Flatten'
            if op == 'Flatten' and s.chain: op = 'Reshape'
            if op == 'Flatten': return s.push(s.node('Flatten', [x], [('axis', 1)] if r.random() < .5 else []), [1, n])
            if op == 'Reshape': return s.push(s.node('Reshape', [x, s.shape_input(r, r.choice([[1, -1], [1, n], [-1, n]]), False)]), [1, n])
            if op == 'ReshapeConst': return s.push(s.node('Reshape', [x, s.shape_input(r, r.choice([[1, -1], [1, n]]), True)]), [1, n])
            if op == 'ReshapeZero': return s.push(s.node('Reshape', [x, s.shape_input(r, [0, -1])]), [1, n])
            a = s.node('Shape', [x]); i = s.shape_input(r, r.choice([0, [0]])) ; sc = None
            for t in s.inits:
                if t[0] == i: sc = t[1].ndim == 0
            if sc is None: sc = onnx.shape_inference.attrs(s.g.node[-1])['value'].ndim == 0
            b = s.node('Gather', [a, i], [('axis', 0)])
            if sc: b = s.node('Unsqueeze', [b], [('axes', [0])])
            c = s.node('Concat', [b, s.shape_input(r, [-1], True)], [('axis', 0)])
            s.chain = True; return s.push(s.node('Reshape', [x, c]), [1, n])
        if nd != 2: return
        if op in ('Gemm', 'SharedGemm', 'GemmNoBias'):
            o = r.randint(1, 8); w = None
            if op == 'SharedGemm':
                c = [q for q in s.kern if len(q[1]) == 2 and q[1][1] == sh[1]]
                if c: w, ws = r.choice(c); o = ws[0]
            if w is None: w = s.const(s.rand((o, sh[1]))); s.kern.append((w, (o, sh[1])))
            b = [] if op == 'GemmNoBias' else [s.const(s.rand((o,)), 'b')]
            if op == 'GemmNoBias': return s.push(s.node('MatMul', [x, s.const(s.rand((sh[1], o)))]), [1, o])   # Gemm without C is not opset 9
            at = [('transB', 1)] + ([('alpha', 1.0)] if r.random() < .5 else []) + ([('beta', 1.0)] if r.random() < .5 else []) + ([('transA', 0)] if r.random() < .3 else [])
            return s.push(s.node('Gemm', [x, w] + b, at), [1, o])
        if op == 'MatMul': o = r.randint(1, 8); return s.push(s.node('MatMul', [x, s.const(s.rand((sh[1], o)))]), [1, o])
        if op == 'MatMulT':
            o = r.randint(1, 8); t = s.node('Transpose', [s.const(s.rand((o, sh[1])))], [('perm', [1, 0])]); return s.push(s.node('MatMul', [x, t]), [1, o])
        if op == 'Reshape1':         # one-dimensional data in between
            n = sh[1]; y = s.node('Reshape', [x, s.shape_input(r, r.choice([[-1], [n]]))])
            for _ in range(r.randint(0, 2)):
                z = r.choice(['Clip', 'AddSelf'])
                y = s.node('Clip', [y], [('min', -.5), ('max', 1.0)]) if z == 'Clip' else s.node('Add', [y, y])
            return s.push(s.node('Reshape', [y, s.shape_input(r, r.choice([[1, -1], [1, n]]))]), [1, n])
        if op == 'ReshapeNop': return s.push(s.node('Reshape', [x, s.shape_input(r, list(sh))]), sh)

def build(plan):
    """-> ModelProto"""
    s = B(plan); s.input = s.name('data'); s.live = [(s.input, tuple(plan['in']))]
    for op, seed in plan['steps']: s.step(op, seed)
    x, sh = s.live[-1]
    if s.kept and s.live[-1][0] not in s.kept and s.live[-1][0] != s.input: s.step('Keep', 5)
    if len(s.kept) > 1: s.push(s.node('Concat', s.kept, [('axis', 1)]), [1, sum(s.keptn)]); x, sh = s.live[-1]
    elif s.kept: s.live.append((s.kept[0], (1, s.keptn[0]))); x, sh = s.live[-1]
    x, sh = s.live[-1]
    if len(sh) > 2: s.step('Reshape' if s.chain else 'Flatten', 1)
    if len(s.live[-1][1]) < 2: s.push(s.node('Reshape', [s.live[-1][0], s.const(np.array([1, -1], dtype=np.int64), 'shape')]), [1, prod(s.live[-1][1])])
    if s.live[-1][0] == s.input or any(n.op_type == 'Dropout' and n.output[0] == s.live[-1][0] for n in s.g.node): s.step('Gemm', 3)
    need = {s.live[-1][0]} | ({s.more_out[0]} if s.more_out else set()); keep = []
    for n in reversed(s.g.node):         # only what the output needs
        if any(o in need for o in n.output): keep.append(n); need.update(n.input)
    s.g.node[:] = keep[::-1]
    out, sh = s.live[-1]
    dims = lambda v, d: [v.type.tensor_type.shape.dim.add(dim_value=q) for q in d]
    v = s.g.input.add(name=s.input); v.type.tensor_type.elem_type = 1; dims(v, plan['in'])
    inits = [i for i in s.inits if i[0] in need]
    if s.st.random() < .3: s.st.shuffle(inits)
    if s.more_in and s.more_in[0] in need: v = s.g.input.add(name=s.more_in[0]); v.type.tensor_type.elem_type = 1; dims(v, s.more_in[1])
    for n, a in inits:
        s.g.initializer.append(numpy_helper.from_array(a, n, s.raw))
        if s.init_in: v = s.g.input.add(name=n); v.type.tensor_type.elem_type = 1 if a.dtype == np.float32 else 7; dims(v, a.shape)
    if s.init_first: s.g.input[:] = list(s.g.input)[1:] + list(s.g.input)[:1]
    v = s.g.output.add(name=out); v.type.tensor_type.elem_type = 1; dims(v, sh)
    if s.more_out and s.more_out[0] != out: v = s.g.output.add(name=s.more_out[0]); v.type.tensor_type.elem_type = 1; dims(v, s.more_out[1])
    return s.m
