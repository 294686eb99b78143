"""C24: util/generate_reference_data.py as a simulated program over stand-ins for caffe2, magic and imageio (scipy is real)."""
import json, os, random, struct
from pysim import imp, vfs
import numpy as np, onnx
from pysim.pyprops import Violated, Skip, is_hard, fault_place, gen_fault, same
EXT = {'pgm': 'pgm', 'jpeg': 'jpg', 'wav': 'wav', 'png': 'png', 'text': 'txt'}

def model_bytes(m):
    ins, outs, seed = m; p = onnx.ModelProto(); p.ir_version = 4; p.opset_import.add(domain='', version=9); g = p.graph; g.name = 'g%d' % seed
    for l, n, sh in ((g.input, 'x', ins), (g.output, 'y', outs)):
        v = l.add(name=n); v.type.tensor_type.elem_type = 1
        for d in sh: v.type.tensor_type.shape.dim.add(dim_value=d)
    n = g.node.add(); n.op_type = 'Relu'; n.input.append('x'); n.output.append('y'); return p.SerializeToString()
def source(f):
    """-> (bytes of the file, values it stands for or None)"""
    kind, dims, seed = f; r = random.Random(seed); n = int(np.prod(dims))
    if kind == 'pgm': v = bytes(r.randrange(256) for _ in range(n)); return b'P5\n%d %d\n255\n' % (dims[1], dims[0]) + v, (np.frombuffer(v, np.uint8).astype(float) / 255.0).astype(np.float32)
    if kind == 'jpeg': v = bytes(r.randrange(256) for _ in range(n)); d = list(dims) + [1] * (3 - len(dims)); return b'\xff\xd8' + struct.pack('<3I', *d) + v, np.frombuffer(v, np.uint8).astype(np.float32)
    if kind == 'wav':
        v = np.array([r.randint(-32768, 32767) for _ in range(n)], dtype='<i2'); v[r.randrange(n)] = r.randint(1, 32767); b = v.tobytes(); fm = struct.pack('<HHIIHH', 1, 1, 16000, 32000, 2, 16)
        x = v.astype(float); return b'RIFF' + struct.pack('<I', 36 + len(b)) + b'WAVEfmt ' + struct.pack('<I', 16) + fm + b'data' + struct.pack('<I', len(b)) + b, (x / max(x)).astype(np.float32)
    return (b'\x89PNG' if kind == 'png' else b'hello ') + bytes(20), None
def representable(plan, st):
    sh, out = st['shape'], plan['models'][st['m']][1]
    if sh[0] != 1 or len(out) != 2 or out[0] != 1: return False
    if st['src'] is None: return len(sh) in (2, 3, 4)
    k, dims, _ = plan['files'][st['src']]; n = int(np.prod(dims))
    if int(np.prod(sh)) != n: return False
    return k in ('pgm', 'jpeg') and len(sh) == 4 and (k == 'jpeg' or sh[1] == 1) or k == 'wav' and len(sh) in (3, 4) and sh[1] == 1
def norm(sh): return tuple(sh) if len(sh) == 4 else (sh[0], sh[1], 1, sh[2]) if len(sh) == 3 else (sh[0], 1, 1, sh[1]) if len(sh) == 2 else None
def run(plan, st, ctx, d, faults, rnd, buf):
    for i, m in enumerate(plan['models']): open('%s/m%d.onnx' % (d, i), 'wb').write(model_bytes(m))
    for i, f in enumerate(plan['files']): open('%s/f%d.%s' % (d, i, EXT[f[0]]), 'wb').write(source(f)[0])
    from caffe2.python.onnx import backend
    del backend.CALLS[:]; backend.FAIL[0] = bool(st.get('nobackend'))
    a = ['--model', '%s/m%d.onnx' % (d, st['m']), '--shape'] + [str(x) for x in st['shape']]
    if st['src'] is not None: a += ['--file', '%s/f%d.%s' % (d, st['src'], EXT[plan['files'][st['src']][0]])]
    if st.get('range'): a += ['--range'] + [str(x) for x in st['range']]
    if st.get('seed') is not None: a += ['--seed', str(st['seed'])]
    w = vfs.World(d, faults, buf, [ctx.repo + '/util/'] if any(x[0] == 'int' for x in faults) or st.get('trace') else (), rnd=rnd)
    with w.installed(), np.errstate(all='ignore'):
        try: s, text = imp.run_main(ctx.repo, 'util', 'generate_reference_data', a, d)
        except vfs.Crash: s = 'killed'
    if w.snap is not None: vfs.put_tree(d, w.snap); s = 'killed'
    for k in w.fired: ctx.count('fault.' + k)
    return s, w, list(backend.CALLS)
def bits(a): return np.ascontiguousarray(a, dtype='<f4').tobytes()
def execute(plan, ctx):
    root = ctx.scratch(); d = root + '/w'; os.makedirs(d); vers = {}; log = []
    import scipy.io.wavfile, magic, imageio, secrets      # loading them takes random numbers too
    plan = json.loads(json.dumps(plan)); np.random.seed(None)
    for m in plan['models']: m[0] = [max(1, x) for x in m[0]]; m[1] = [max(1, x) for x in m[1]]
    for f in plan['files']: f[1] = [max(1, x) for x in f[1]]
    for st in plan['steps']:
        st['m'] %= len(plan['models']); st['shape'] = [max(1, x) for x in st['shape']] or [1]
        if st['src'] is not None: st['src'] = st['src'] % len(plan['files']) if plan['files'] else None
    for i, st in enumerate(plan['steps']):
        # the same run, undisturbed, elsewhere; a given seed decides whatever else is random
        e = '%s/c%d' % (root, i); os.makedirs(e); s0, w0, c0 = run(plan, st, ctx, e, [], st.get('rnd', 0) + (1 if st.get('seed') is not None else 0), 0); ctx.last = w0
        stem = os.path.splitext('random' if st['src'] is None else 'f%d.%s' % (st['src'], EXT[plan['files'][st['src']][0]]))[0]; base = '%s_m%d_' % (stem, st['m']); sh = tuple(st['shape']); ok = representable(plan, st) and not st.get('nobackend')
        what = 'run %d (%s, shape %s)' % (i + 1, 'random values' if st['src'] is None else plan['files'][st['src']][0], list(sh))
        if ok and s0 != 0: raise Violated('c24-failed', '%s: without a fault it ends with %s' % (what, s0))
        if s0 == 0 and len(c0) != 1: raise Violated('c24-no-inference', '%s: the model was evaluated %d times' % (what, len(c0)))
        if c0:
            x, outs = c0[0]
            if x.dtype != np.float32 or tuple(x.shape) != sh: raise Violated('c24-shape', '%s: the model was evaluated on %s values of shape %s' % (what, x.dtype, list(x.shape)))
            v = source(plan['files'][st['src']])[1] if st['src'] is not None else None
            if v is not None and (bits(np.sort(v)) != bits(np.sort(x.ravel())) if plan['files'][st['src']][0] == 'jpeg' else bits(v) != bits(x)): raise Violated('c24-input', '%s: the model was not evaluated on the values of the file' % what)
            if st['src'] is None and not (np.all(x >= np.float32((st.get('range') or [0, 1])[0])) and np.all(x <= np.float32((st.get('range') or [0, 1])[1]))): raise Violated('c24-range', '%s: values outside the range' % what)
            if st['src'] is None and x.size > 3 and (st.get('range') or [0, 1])[0] < (st.get('range') or [0, 1])[1] and np.all(x == x.ravel()[0]): raise Violated('c24-range', '%s: all random values are the same' % what)
            vers.setdefault(base + 'input.data', []).append((norm(sh), x)); o = outs[0]
            if o.ndim == 2: vers.setdefault(base + 'output.data', []).append((tuple(o.shape), o))
        if not c0 and st['src'] is not None:      # shape and picture do not agree: what is stored is at least the picture
            v = source(plan['files'][st['src']])[1]
            if v is not None: vers.setdefault(base + 'input.data', []).append((None, v))
        if st.get('nobackend') and not c0:        # the input may be stored before the evaluation fails
            q = dict(st, nobackend=0); e2 = '%s/n%d' % (root, i); os.makedirs(e2); s1, w1, c1 = run(plan, q, ctx, e2, [], st.get('rnd', 0), 0)
            if c1: vers.setdefault(base + 'input.data', []).append((norm(sh), c1[0][0]))
        f = st.get('faults', []); s, w, c = run(plan, st, ctx, d, f, st.get('rnd', 0), st.get('buf', 0)); hard = is_hard(w); t = vfs.tree(d); log.append((str(s0), w0.log, str(s), w.log, w.fired))
        what += ' (%s)' % ', '.join(hard) if hard else ''
        if hard and s == 0: raise Violated('c24-error-swallowed', '%s: hit %s (%s) but ended with status 0' % (what, hard[0], fault_place(w)))
        if st.get('nobackend') and s == 0: raise Violated('c24-error-swallowed', '%s: the evaluation failed but it ended with status 0' % what)
        if c and c0 and bits(c[0][0]) != bits(c0[0][0]): raise Violated('c24-not-repeatable', '%s: the same seed and arguments gave another input' % what)
        if ok and not hard and s != 0: raise Violated('c24-failed', '%s: without a fault it ends with %s' % (what, s))
        if s == 0 and ok:
            for n, k, q, a in ((base + 'input.data', 'I', sh, c[0][0] if c else None), (base + 'output.data', 'O', tuple(c[0][1][0].shape) if c else None, c[0][1][0] if c else None)):
                if a is None or t.get(n) is None: raise Violated('c24-missing', '%s: ended with status 0 but %s' % (what, 'there is no ' + n if t.get(n) is None else 'did not evaluate the model'))
                z, got = ctx.or_.ask(k, struct.pack('<%dI' % len(q), *q), t[n])
                if z != 1: raise Violated('c24-not-loadable', '%s: the loader does not accept %s for shape %s' % (what, n, list(q)))
                if not same(a, got): raise Violated('c24-wrong-values', '%s: the loader does not read back from %s what the model was evaluated %s' % (what, n, 'on' if k == 'I' else 'to'))
            ctx.count('probe.exact_pair')
        for p, img in t.items():
            if img is None or not p.endswith('.data'): continue
            k = 'I' if p.endswith('input.data') else 'O'; shapes = set(q for q, a in vers.get(p, []) if q) | {(1, 1, 1, 1) if k == 'I' else (1, 1)}
            h = struct.unpack('<4I', img[4:20]) if k == 'I' and len(img) >= 20 else struct.unpack('<2I', img[4:12]) if k == 'O' and len(img) >= 12 else ()
            if h and all(0 < x < 5000 for x in h) and np.prod(h) < 20000: shapes.add(tuple(h))
            for q in shapes:
                z, got = ctx.or_.ask(k, struct.pack('<%dI' % len(q), *q), img)
                if z == 3: raise Violated('c24-loader-died', '%s: the loader neither accepts nor refuses %s' % (what, p))
                if z == 1 and not any((q == b or b is None) and same(a, got) for b, a in vers.get(p, [])): raise Violated('c24-usable-wrong-data', '%s: %s (%d bytes) is accepted by the loader for shape %s but holds no complete %s of a run' % (what, p, len(img), list(q), 'input' if k == 'I' else 'output'))
                ctx.count('probe.left_file_accepted' if z == 1 else 'probe.left_file_refused')
    return log
def gen(r, tier, ctx):
    d = lambda n: r.choice([1, 2, 3, n])
    models = []
    for i in range(r.choice([1, 2])): models.append([[1, 1, 2, 2], [1, r.choice([1, 2, 10, r.randint(1, 30)])] if r.random() < .9 else r.choice([[2, 3], [1, 2, 2, 2], [1, 3, 2], [4]]), r.randrange(1000)])
    files = []
    for _ in range(r.choice([0, 1, 2])):
        k = r.choice(['pgm', 'jpeg', 'wav', 'wav', 'pgm', 'jpeg', 'png', 'text']); files.append([k, [d(6), d(7)] if k == 'pgm' else [d(5), d(5), r.choice([3, 3, 1])] if k == 'jpeg' else [r.randint(1, 40)], r.randrange(1 << 20)])
    steps = []
    for _ in range(r.choice([1, 2, 2, 3])):
        src = r.randrange(len(files)) if files and r.random() < .65 else None; sh = r.choice([[1, d(4), d(6), d(6)], [1, d(4), d(6), d(6)], [1, d(4), d(9)], [1, r.randint(1, 20)], [2, 1, 2, 2], [1, 1, 1, 1, 2], [1]] if r.random() < .3 else [[1, d(4), d(6), d(6)], [1, d(4), d(9)], [1, r.randint(1, 20)]])
        if src is not None and r.random() < .85:
            k, q, _ = files[src]; n = int(np.prod(q)); sh = [1, 1] + q if k == 'pgm' else [1, q[2], q[0], q[1]] if k == 'jpeg' else r.choice([[1, 1, n], [1, 1, n], [1, 1, 1, n], [1, 1, n, 1]]) if k == 'wav' else sh
            if r.random() < .1: sh[-1] += r.choice([-1, 1]) if sh[-1] > 1 else 1
        prev = steps[-1] if steps and r.random() < .4 else None
        st = {'m': r.randrange(len(models)), 'src': src, 'shape': sh, 'seed': r.choice([None, 0, 1, r.randrange(1 << 31)]), 'range': r.choice([None, None, [0, 1], [-1, 1], [-5, 300], [3, 3]]), 'rnd': r.randrange(1 << 20), 'buf': r.choice([0, 0, 16, 100])}
        if prev: st = dict(prev, rnd=r.randrange(1 << 20), **({'seed': r.choice([None, 7])} if r.random() < .5 else {}))
        if r.random() < .06: st['nobackend'] = 1
        else: st.pop('nobackend', None)
        st['faults'] = [gen_fault(r, (0, 0, 26 if r.random() < .6 else 60, 160, list(range(30, 160, 10)), 6, '')) for _ in range(r.choice([0, 1, 1, 1, 2]))]; steps.append(st)
    return {'models': models, 'files': files, 'steps': steps}
def directed(tier, ctx):
    """every file operation and line of one run of each kind, over an empty directory and over an earlier run"""
    out = []; models = [[[1, 1, 2, 2], [1, 5], 1]]; files = [['pgm', [3, 4], 1], ['jpeg', [2, 3, 3], 2], ['wav', [11], 3]]
    for src, sh in ((None, [1, 2, 3, 4]), (None, [1, 3, 5]), (None, [1, 6]), (0, [1, 1, 3, 4]), (1, [1, 3, 2, 3]), (2, [1, 1, 11]), (2, [1, 1, 1, 11])):
        for buf in (0, 24):
            st = {'m': 0, 'src': src, 'shape': sh, 'seed': 5, 'range': None, 'rnd': 3, 'buf': buf, 'faults': [], 'trace': 1}; p = {'models': models, 'files': files, 'steps': [st]}
            try: execute(p, ctx)
            except Violated: return [p]
            n = ctx.last.n if not buf else 24; lines = ctx.last.lines; st = dict(st); st.pop('trace')
            for pre in (0, 1) if src is None else (1,):
                fs = [[k, i, a] for i in range(n) for k, as_ in (('crash', (0, 1, 9, 1 << 20)), ('enospc', (0, 5)), ('full', (0,)), ('short', (3,))) for a in as_]
                if not buf and pre: fs += [['int', i, 0] for i in range(lines)]
                for f in fs: out.append({'models': models, 'files': files, 'steps': ([dict(st, seed=6, rnd=9)] if pre else []) + [dict(st, faults=[f])]})
    return out
