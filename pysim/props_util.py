"""C25, C26, C27: util/check_onnx_model.py, prepare_images.py and save_intermediate_outputs.py as simulated programs over stand-ins for caffe2, Pillow and onnx-tf."""
import json, math, os, random, struct
from pysim import imp, vfs
import numpy as np, onnx
from onnx import numpy_helper
from pysim.pyprops import Violated, Skip, is_hard, fault_place, gen_fault

def program(ctx, name, argv, d, cwd, st):
    """-> (status or 'killed', text, world); d is the durable part of the world"""
    f = st.get('faults', [])
    w = vfs.World(d, f, st.get('buf', 0), [ctx.repo + '/util/'] if any(x[0] == 'int' for x in f) or st.get('trace') else (), rnd=st.get('rnd', 0), order=st.get('order', 0))
    with w.installed(), np.errstate(all='ignore'):
        try: s, text = imp.run_main(ctx.repo, 'util', name, argv, cwd)
        except vfs.Crash: s, text = 'killed', ''
    if w.snap is not None: vfs.put_tree(d, w.snap); s = 'killed'
    for k in w.fired: ctx.count('fault.' + k)
    return s, text, w
def model_bytes(ins, outs, seed, inits=0, nodes=('y',)):
    p = onnx.ModelProto(); p.ir_version = 4; p.opset_import.add(domain='', version=9); g = p.graph; g.name = 'g%d' % seed
    for l, q in ((g.input, ins), (g.output, outs)):
        for n, sh in q:
            v = l.add(name=n); v.type.tensor_type.elem_type = 1
            for d in sh: v.type.tensor_type.shape.dim.add(dim_value=d)
    for i in range(inits):
        t = numpy_helper.from_array(np.arange(3, dtype=np.float32), 'w%d' % i); g.initializer.append(t); v = g.input.add(name='w%d' % i); v.type.tensor_type.elem_type = 1; v.type.tensor_type.shape.dim.add(dim_value=3)
    prev = 'x'
    for o in nodes:
        n = g.node.add(); n.op_type = 'Relu'; n.input.append(prev); n.output.append(o); prev = o
    return p.SerializeToString()

# ------------------------------------------------------------------ C25
CLAIM = 'Reference output matches'
def change(a, c, r):
    """a changed tensor, c = [kind, position, amount]"""
    k, i, x = c; a = np.array(a, copy=True)
    if k == 'off':
        f = a.reshape(-1)
        if f.size:
            i %= f.size; v = f[i]
            if np.isfinite(v): f[i] = np.float32(v + x) if abs(x) > 1e-3 or abs(v) < 100 else v
    elif k == 'nan': f = a.reshape(-1); f[i % f.size] = np.nan
    elif k == 'inf': f = a.reshape(-1); f[i % f.size] = np.inf
    elif k == 'sign': a = -a
    elif k == 'perm': a = np.ascontiguousarray(a.reshape(-1)[::-1]).reshape(a.shape)
    elif k == 'shape': a = a.reshape([(-1,), (-1, 1), (1, 1, -1), a.shape[::-1]][i % 4])
    elif k == 'short': a = a.reshape(-1)[:-1].reshape((1, -1)) if a.size > 1 else a
    elif k == 'more': a = np.concatenate([a.reshape(-1), a.reshape(-1)[:1]]).reshape((1, -1))
    elif k == 'double': a = a.astype(np.float64)
    elif k == 'zero': a = np.zeros_like(a)
    return a
def damage(b, c):
    k, i, x = c
    if not b: return b
    if k == 'cut': return b[:i % len(b)]
    if k == 'flip': i %= len(b); return b[:i] + bytes([b[i] ^ (1 << int(x) % 8)]) + b[i + 1:]
    if k == 'empty': return b''
    if k == 'zeros': i %= len(b); return b[:i] + bytes(len(b) - i)
    return b
def decode(b):
    t = onnx.TensorProto(); t.ParseFromString(b); return numpy_helper.to_array(t)
def verdict(ref, out):
    """True: the values agree to four decimals, False: they do not, None: close to the tolerance"""
    if ref.shape != out.shape: return None if () in (ref.shape, out.shape) else False
    a, b = ref.astype(np.float64).ravel(), out.astype(np.float64).ravel(); n = np.isnan(a) | np.isnan(b); f = np.isfinite(a) & np.isfinite(b)
    if np.any(np.isnan(a) != np.isnan(b)) or np.any((a != b) & ~n & ~f): return False
    d = np.abs(a[f] - b[f]); m = d.max() if d.size else 0
    return True if m <= 1e-4 else False if m >= 2e-4 else None
def exec_c25(plan, ctx):
    from caffe2.python.onnx import backend as B
    root = ctx.scratch(); d = root + '/w'; td = d + '/net/test_data_set_0'; os.makedirs(td); log = []; m = json.loads(json.dumps(plan['model'])); r = random.Random(plan['seed'])
    m['ins'] = [[max(1, x) for x in s] or [1] for s in m['ins']]; m['outs'] = [[max(1, x) for x in s] or [1] for s in m['outs']]
    mb = model_bytes([('x%d' % i, s) for i, s in enumerate(m['ins'])], [('y%d' % i, s) for i, s in enumerate(m['outs'])], plan['seed'], m.get('inits', 0))
    B.STRICT[0] = True
    try:
        ins = [np.array([r.uniform(-3, 3) for _ in range(int(np.prod(s)))], dtype=np.float32).reshape(s) for s in m['ins']]; proto = onnx.ModelProto(); proto.ParseFromString(mb)
        del B.CALLS[:]; B.FAIL[0] = False; B.DROP[0] = 0; outs = [np.array(o) for o in B.run_model(proto, ins)]
        files = {'input_%d.pb' % i: a for i, a in enumerate(ins)}; files.update({'output_%d.pb' % i: a for i, a in enumerate(outs)})
        for n in list(files):
            a = files[n]; raw = True
            for c in plan['changes']:
                if c[0] == n and c[1] in ('off', 'nan', 'inf', 'sign', 'perm', 'shape', 'short', 'more', 'double', 'zero'):
                    try: a = change(a, c[1:], r)
                    except ValueError: pass
                if c[0] == n and c[1] == 'list': raw = False
            b = numpy_helper.from_array(np.ascontiguousarray(a), n[:-3], raw and a.dtype != np.float64).SerializeToString()
            for c in plan['changes']:
                if c[0] == n: b = damage(b, c[1:])
            files[n] = b
        for c in plan['changes']:
            if c[1] == 'lost': files.pop(c[0], None)
            elif c[1] == 'swap' and c[0] in files:
                k = sorted(n for n in files if n.split('_')[0] == c[0].split('_')[0]); o = k[c[2] % len(k)]; files[c[0]], files[o] = files[o], files[c[0]]
            elif c[1] == 'extra':
                k = c[0].split('_')[0]; i = 0
                while '%s_%d.pb' % (k, i) in files: i += 1
                src = [n for n in files if n.startswith(k)]
                if src: files['%s_%d.pb' % (k, i)] = files[src[c[2] % len(src)]]
            elif c[1] == 'dir': files = {}
            elif c[1] == 'model': mb = damage(mb, ['cut', c[2], 0])
        for n, b in files.items(): open(td + '/' + n, 'wb').write(b)
        if any(c[1] == 'dir' for c in plan['changes']): os.rmdir(td)
        if any(c[1] == 'other' for c in plan['changes']):          # another set lies beside it
            os.makedirs(d + '/net/test_data_set_1'); [open(d + '/net/test_data_set_1/' + n, 'wb').write(b) for n, b in files.items()]
        open(d + '/net/model.onnx', 'wb').write(mb)
        # what there is to be found
        must = may = True; why = ''; got_in = None
        def no(w):
            nonlocal must, may, why; must = may = False; why = why or w
        ki = [n for n in files if n.startswith('input_')]; ko = [n for n in files if n.startswith('output_')]
        gap = any('%s_%d.pb' % (k[0].split('_')[0], i) not in files for k in (ki, ko) if k for i in range(len(k)))
        def by(n): return int(n.split('_')[1][:-3])
        try:
            proto = onnx.ModelProto(); proto.ParseFromString(mb); got_in = [decode(files[n]) for n in sorted(ki, key=by)]
            del B.CALLS[:]; B.FAIL[0] = bool(plan.get('nobackend')); B.DROP[0] = plan.get('drop', 0); real = [np.array(o) for o in B.run_model(proto, got_in)]
        except Exception as e: no('the model cannot be evaluated on the inputs (%s)' % type(e).__name__); real = []
        if not ko: no('there is no reference output')
        elif len(ko) != len(real): no('%d reference outputs for %d outputs' % (len(ko), len(real)))
        elif not gap:
            for i, n in enumerate(sorted(ko, key=by)):
                try: ref = decode(files[n])
                except Exception: no('%s is damaged' % n); continue
                v = verdict(ref, real[i])
                if v is False: no('%s is not what the model returned' % n)
                elif v is None: must = False
        if gap: must = False
        del B.CALLS[:]; before = vfs.tree(d)
        cwd = d + '/net' if plan.get('rel') else d
        s, text, w = program(ctx, 'check_onnx_model', ['--input', 'model.onnx' if plan.get('rel') else d + '/net/model.onnx'], d, cwd, plan); ctx.last = w; hard = is_hard(w); log.append((str(s), CLAIM in text, w.log, w.fired, why)); calls = list(B.CALLS)
    finally: B.STRICT[0] = False; B.FAIL[0] = False; B.DROP[0] = 0
    for c in plan['changes']: ctx.count('fault.data_' + c[1])
    if plan.get('nobackend'): ctx.count('fault.backend_fails')
    if plan.get('drop'): ctx.count('fault.backend_incomplete')
    if vfs.tree(d) != before: raise Violated('c25-files-changed', 'the check changed files of the model or its data')
    if not may and (s == 0 or CLAIM in text): raise Violated('c25-false-match', '%s, but the check %s' % (why, 'ends with status 0' if s == 0 else 'announces a match'))
    if hard and s == 0: raise Violated('c25-error-swallowed', 'hit %s (%s) but ended with status 0' % (hard[0], fault_place(w)))
    if hard and CLAIM in text and 'int' not in hard: raise Violated('c25-false-match', 'hit %s but announces a match' % hard[0])
    if may and not hard and must and s != 0: raise Violated('c25-false-alarm', 'the reference outputs match but the check ends with %s' % (s,))
    if s == 0 and not gap and (not calls or any(len(c[0]) != len(got_in) or any(a.shape != b.shape or a.tobytes() != b.tobytes() for a, b in zip(c[0], got_in)) for c in calls)): raise Violated('c25-other-input', 'ended with status 0 without evaluating the model on the stored inputs')
    ctx.count('probe.match' if s == 0 else 'probe.no_match'); return log
def gen_c25(r, tier, ctx):
    d = lambda: r.choice([1, 2, 3, r.randint(1, 6)]); nin = r.choice([1, 1, 1, 2, 3, 12]); nout = r.choice([1, 1, 2, 2, 3, 12, 13])
    m = {'ins': [r.choice([[1, d(), d(), d()], [1, d()], [1, d(), d()]]) for _ in range(nin)], 'outs': [r.choice([[1, d()], [1, r.randint(1, 12)], [1, d(), d(), d()], [d()], [2, d()]]) for _ in range(nout)], 'inits': r.choice([0, 0, 2])}
    if r.random() < .3: m['outs'] = [m['outs'][0]] * nout
    if r.random() < .3: m['ins'] = [m['ins'][0]] * nin
    ch = []
    for _ in range(r.choice([0, 0, 1, 1, 1, 1, 2, 3])):
        out = r.random() < .7; n = '%s_%d.pb' % (('output', r.randrange(nout)) if out else ('input', r.randrange(nin)))
        k = r.choice((['off'] * 6 + ['nan', 'inf', 'sign', 'perm', 'shape', 'short', 'more', 'zero'] if out else []) + ['double', 'list', 'cut', 'cut', 'flip', 'empty', 'zeros', 'lost', 'lost', 'swap', 'swap', 'extra', 'extra', 'dir', 'model', 'other', 'other'])
        if k in ('double', 'list') and not out: k = 'list'
        ch.append([n, k, r.randrange(1 << 12), r.choice([5e-5, -5e-5, 3e-4, -3e-4, 1e-3, .01, -.5, 1.0, 2.0, 1e30])])
    p = {'model': m, 'seed': r.randrange(1 << 20), 'changes': ch, 'rel': int(r.random() < .3), 'buf': r.choice([0, 0, 16]), 'order': r.randrange(9), 'faults': []}
    if r.random() < .06: p['nobackend'] = 1
    elif r.random() < .12: p['drop'] = r.randint(1, nout)
    if r.random() < .35: p['faults'] = [['readerr', r.randrange(2 * (nin + nout) + 4), 0] if r.random() < .6 else ['int', r.randrange(120), 0]]
    return p
def directed_c25(tier, ctx):
    """every cut of a file, every kind of change, every read and line failed"""
    out = []; base = {'model': {'ins': [[1, 2, 2]], 'outs': [[1, 3], [1, 2]], 'inits': 1}, 'seed': 4, 'changes': [], 'rel': 0, 'buf': 0, 'order': 0, 'faults': []}
    try: exec_c25(dict(base, trace=1), ctx)
    except Violated: return [base]
    out += [dict(base, rel=1), dict(base, nobackend=1)] + [dict(base, drop=k) for k in (1, 2)]
    for i in range(ctx.last.reads): out.append(dict(base, faults=[['readerr', i, 0]]))
    for i in range(ctx.last.lines): out.append(dict(base, faults=[['int', i, 0]]))
    for n in ('input_0.pb', 'output_0.pb', 'output_1.pb'):
        for k in range(60): out.append(dict(base, changes=[[n, 'cut', k, 0]]))
        for k in ('off', 'nan', 'inf', 'sign', 'perm', 'shape', 'short', 'more', 'zero', 'lost', 'swap', 'extra', 'empty', 'list', 'double', 'dir', 'other'):
            if n[0] == 'o' or k in ('lost', 'extra', 'empty', 'list', 'dir'): out += [dict(base, changes=[[n, k, i, x]]) for i in range(4) for x in ((5e-5, 3e-4, 1e-3, 1.0) if k == 'off' else (0,))]
    out.append(dict(base, changes=[['output_0.pb', 'lost', 0, 0], ['output_1.pb', 'lost', 0, 0]]))
    many = dict(base, model={'ins': [[1, 2]] * 12, 'outs': [[1, 2]] * 12, 'inits': 0})
    out += [many] + [dict(many, changes=[[n, 'swap', k, 0]]) for n in ('input_2.pb', 'output_2.pb', 'output_11.pb') for k in range(12)] + [dict(many, changes=[['output_%d.pb' % k, 'off', 1, .5]]) for k in range(12)]
    return out

# ------------------------------------------------------------------ C26
FOLDER = {'scale': 'scaled', 'center_crop': 'center_cropped', 'crop': 'cropped'}
def picture(f):
    name, kind, h, w, c, seed = f; r = random.Random(seed); a = np.array([r.randrange(256) for _ in range(h * w * c)], dtype=np.uint8).reshape((h, w, c) if c > 1 else (h, w))
    if kind == 'flat': a[:] = 7
    return a
def content(f):
    from PIL import Image
    if f[1] == 'text': return b'no picture at all'
    if f[1] == 'none': return b''
    b = Image.encode(picture(f)); return b[:14 + (f[5] % max(1, len(b) - 14))] if f[1] == 'cut' else b[:f[5] % 14] if f[1] == 'head' else b
def wanted(f, mode, size, pos):
    """-> ('ok', picture) | ('bad', reason) | ('open', picture or None)"""
    from PIL import Image
    if f[1] not in ('ok', 'flat'): return 'bad', '%s cannot be read' % f[0]
    a = picture(f); H, W = a.shape[:2]; w, h = size
    if min(w, h) < 1: return 'bad', 'size %dx%d' % (w, h)
    if mode == 'scale': return 'ok', a if (w, h) == (W, H) else Image.lanczos(a, (w, h))
    x, y = ((W - w) // 2, (H - h) // 2) if mode == 'center_crop' else pos
    if mode == 'crop' and (x + w > W or y + h > H): return 'bad', '%s is too small' % f[0]
    if x < 0 or y < 0 or x + w > W or y + h > H: return 'open', Image.fromarray(a).crop((x, y, x + w, y + h))._a
    return ('open' if mode == 'crop' and (x + w == W or y + h == H) else 'ok'), a[y:y + h, x:x + w]
def exec_c26(plan, ctx):
    from PIL import Image
    root = ctx.scratch(); d = root + '/w'; p = d + '/pictures'; os.makedirs(p); log = []; good = {}; ends = {}
    files = json.loads(json.dumps(plan['files']))
    for f in files: f[2] = max(1, f[2]); f[3] = max(1, f[3]); f[4] = 3 if f[4] > 1 else 1
    files = list({f[0]: f for f in files}.values()); orig = {f[0]: content(f) for f in files}
    for n, b in orig.items(): open(p + '/' + n, 'wb').write(b)
    if plan.get('sub'): os.makedirs(p + '/more'); open(p + '/more/x.JPEG', 'wb').write(b'deeper'); orig['more/x.JPEG'] = b'deeper'
    for i, st in enumerate(plan['steps']):
        size = st['size'] or [1]; pos = st.get('pos'); mode = st['mode']
        a = ['--directory', p if not st.get('rel') else 'pictures', '--size'] + [str(x) for x in size] + ['--mode', mode] + (['--crop_pos'] + [str(x) for x in pos] if pos else [])
        for k in ('order',): st.setdefault(k, 0)
        s, text, w = program(ctx, 'prepare_images', a, d, d, st); ctx.last = w; hard = is_hard(w); t = vfs.tree(p); log.append((str(s), w.log, w.fired)); why = ''; need = {}
        what = 'run %d (%s %s%s)' % (i + 1, mode, 'x'.join(map(str, size)), ', ' + ', '.join(hard) if hard else '')
        sure = True
        if mode not in FOLDER: why = 'unknown mode'
        elif len(size) > 2: why = 'three sizes'
        elif mode == 'crop' and (not pos or len(pos) > 2): why = 'no position'
        else:
            wh = (size[0], size[-1]); xy = (pos[0], pos[-1]) if pos else None; folder = '%s_%dx%d' % ((FOLDER[mode],) + wh)
            for f in files:
                if not f[0].endswith('.JPEG'): continue
                must = mode != 'crop' or f[0].startswith('ILSVRC'); v, x = wanted(f, mode, wh, xy); n = '%s/%dx%d_%s_%s' % ((folder,) + wh + (mode, f[0]))
                if v == 'bad': why = why or (x if must else ''); continue
                if v == 'open': sure = False
                ends.setdefault(n, []).append(Image.encode(x)) if x is not None and x.size else None
                if v == 'ok' and must: need[n] = Image.encode(x)
        if hard and s == 0: raise Violated('c26-error-swallowed', '%s: hit %s (%s) but ended with status 0' % (what, hard[0], fault_place(w)))
        if why and s == 0: raise Violated('c26-error-swallowed', '%s: %s, but it ended with status 0' % (what, why))
        if not why and not hard and sure and s != 0: raise Violated('c26-failed', '%s: without a fault it ends with %s' % (what, s))
        if s == 0:
            for n, b in need.items():
                if t.get(n) is None: raise Violated('c26-missing', '%s: ended with status 0 but %s is missing' % (what, n))
                if t[n] != b: raise Violated('c26-wrong-picture', '%s: %s is not the %s of the picture' % (what, n, {'scale': 'scaled version', 'crop': 'part', 'center_crop': 'centre'}[mode]))
            ctx.count('probe.pictures', len(need))
        for n, b in orig.items():
            if t.get(n) != b: raise Violated('c26-original-changed', '%s: the original %s was changed' % (what, n))
        known = set(b for l in ends.values() for b in l)
        for n, b in t.items():
            if b is None or n in orig or Image.decode(b) is None: continue
            ctx.count('probe.left_picture')
            if not (b in ends[n] if n in ends else b in known): raise Violated('c26-wrong-picture', '%s: %s is a complete picture, but no result of a run' % (what, n))
    return log
def gen_c26(r, tier, ctx):
    names = ['ILSVRC2012_val_00000%d.JPEG' % i for i in range(1, 5)] + ['ILSVRC_a b.JPEG', 'img_1.JPEG', 'x.JPEG', 'notes.txt', 'ILSVRC.jpg', 'photo.jpeg', 'ILSVRC2012.JPEG.bak']; r.shuffle(names); files = []
    for n in names[:r.choice([0, 1, 2, 3, 5])]: files.append([n, r.choice(['ok'] * 14 + ['flat', 'cut', 'head', 'text', 'none']) if n.endswith('.JPEG') else r.choice(['text', 'ok', 'none']), r.choice([1, 2, 3, r.randint(1, 14), 60 if r.random() < .2 else 9]), r.choice([1, 2, 3, r.randint(1, 14), 70 if r.random() < .2 else 8]), r.choice([3, 3, 1]), r.randrange(1 << 16)])
    steps = []
    for _ in range(r.choice([1, 1, 2, 3])):
        mode = r.choice(['scale'] * 4 + ['crop'] * 4 + ['center_crop'] * 4 + ['centre', 'Scale', '']) if r.random() < .95 else 'crop'
        f = r.choice(files) if files else None; H, W = (f[2], f[3]) if f else (5, 5); sz = lambda n: r.choice([1, 2, n, max(1, n - 1), max(1, n // 2), n + 1 if r.random() < .4 else 1, r.randint(1, 12)])
        size = [sz(W), sz(H)] if r.random() < .65 else [sz(min(W, H))]
        if r.random() < .05: size = r.choice([[2, 3, 4], [0], [0, 3], [3, 0]])
        pos = None
        if mode == 'crop' and r.random() < .93 or r.random() < .1: w, h = size[0], size[-1]; pos = [r.randint(0, max(0, W - w - 1)), r.randint(0, max(0, H - h - 1))]; pos = [pos[0]] if r.random() < .25 else pos + [1] if r.random() < .04 else [pos[0] + r.choice([0, 1, 2]), pos[1]] if r.random() < .2 else pos
        st = {'mode': mode, 'size': size, 'rel': int(r.random() < .3), 'order': r.randrange(50), 'buf': r.choice([0, 0, 16, 100]), 'faults': []}
        if pos: st['pos'] = pos
        if steps and r.random() < .4: st = dict(steps[-1], order=r.randrange(50), faults=[])
        st['faults'] = [gen_fault(r, (0, 0, 14 if r.random() < .6 else 40, 200, list(range(40, 200, 12)), 14, '')) for _ in range(r.choice([0, 0, 1, 1, 2]))]; steps.append(st)
    return {'files': files, 'steps': steps, 'sub': int(r.random() < .2)}
def directed_c26(tier, ctx):
    """every operation, read and line of one run of each kind killed or failed, over an empty folder and over an earlier run"""
    out = []; files = [['ILSVRC1.JPEG', 'ok', 9, 7, 3, 1], ['ILSVRC2.JPEG', 'ok', 8, 8, 1, 2], ['notes.txt', 'text', 1, 1, 1, 3]]
    for mode, size, pos in (('scale', [3, 4], None), ('center_crop', [4, 3], None), ('crop', [3, 5], [2, 1]), ('scale', [5], None)):
        st = {'mode': mode, 'size': size, 'order': 0, 'buf': 0, 'faults': []}
        if pos: st['pos'] = pos
        for buf in (0, 32):
            st['buf'] = buf; p = {'files': files, 'steps': [st], 'sub': 0}
            try: exec_c26({'files': files, 'steps': [dict(st, trace=1)]}, ctx)
            except Violated: return [p]
            n, lines, reads = ctx.last.n, ctx.last.lines, ctx.last.reads
            for pre in ([], [dict(st)]):
                fs = [[k, i, a] for i in range(n if not buf else min(n, 20)) for k, as_ in (('crash', (0, 1, 9, 1 << 20)), ('enospc', (0, 5)), ('full', (0,)), ('short', (3,))) for a in as_] + [['readerr', i, 0] for i in range(reads)]
                if not buf: fs += [['int', i, 0] for i in range(lines)]
                out += [{'files': files, 'steps': pre + [dict(st, faults=[f])], 'sub': 0} for f in fs]
    for k in range(16):
        for mode, size, pos in (('scale', [3, 4], None), ('center_crop', [4, 3], None), ('crop', [3, 5], [2, 1])):
            out.append({'files': files[:1] + [['ILSVRC3.JPEG', 'head', 4, 4, 3, k]], 'steps': [dict({'mode': mode, 'size': size, 'order': k, 'buf': 0, 'faults': []}, **({'pos': pos} if pos else {}))], 'sub': 0})
            out.append({'files': files[:1] + [['ILSVRC3.JPEG', 'cut', 9, 9, 3, k * 17]], 'steps': [dict({'mode': mode, 'size': size, 'order': k, 'buf': 0, 'faults': []}, **({'pos': pos} if pos else {}))], 'sub': 0})
    for st in ({'mode': 'rotate', 'size': [3]}, {'mode': 'scale', 'size': [3, 4, 5]}, {'mode': 'crop', 'size': [3, 4, 5], 'pos': [1, 1]}, {'mode': 'center_crop', 'size': [3, 4, 5]}, {'mode': 'crop', 'size': [3]}, {'mode': 'crop', 'size': [3], 'pos': [1, 1, 1]}, {'mode': 'crop', 'size': [3], 'pos': [6, 1]}, {'mode': 'crop', 'size': [3], 'pos': [1, 7]}, {'mode': 'crop', 'size': [3], 'pos': [2]}):
        out.append({'files': files, 'steps': [dict(st, order=0, buf=0, faults=[])], 'sub': 0})
    return out

# ------------------------------------------------------------------ C27
def safe(n): return n.replace('/', '_').replace('.', '_').replace(':', '_')
def exec_c27(plan, ctx):
    from onnx_tf import backend as B
    root = ctx.scratch(); d = root + '/w'; os.makedirs(d); log = []; vers = {}
    for i, st in enumerate(plan['steps']):
        m = plan['models'][st['m'] % len(plan['models'])]; sh = [max(1, x) for x in m['in']] or [1]; B.SHAPES.clear(); B.SHAPES.update({n: ([max(1, x) for x in s], ty) for n, s, ty in m['tensors']}); del B.CALLS[:]; B.FAIL[0] = bool(st.get('nobackend'))
        open(d + '/' + m['file'], 'wb').write(model_bytes([('x', sh)], [(m['tensors'][0][0], B.SHAPES[m['tensors'][0][0]][0])], m['seed'], nodes=[q[0] for q in m['tensors']])); before = vfs.tree(d)
        given = st.get('shape') or sh; ask = st['ask']
        a = ['--input', d + '/' + m['file'], '--input_shape'] + [str(x) for x in given] + (['--out_to_check'] + [','.join([n] + [str(x) for x in B.SHAPES.get(n, ([1],))[0]]) for n in ask] if ask else [])
        try: s, text, w = program(ctx, 'save_intermediate_outputs', a, d, d, st)
        finally: B.FAIL[0] = False
        ctx.last = w; hard = is_hard(w); t = vfs.tree(d); log.append((str(s), w.log, w.fired)); calls = list(B.CALLS)
        what = 'run %d (%s%s)' % (i + 1, ' '.join(ask), ', ' + ', '.join(hard) if hard else '')
        files = ['%s_%s.tf' % (m['file'].split('.')[0], safe(n)) for n in ask]; why = ''; x = np.ones(sh, dtype=np.float32); model = onnx.ModelProto(); model.ParseFromString(open(d + '/' + m['file'], 'rb').read()) if t.get(m['file']) else None
        if list(given) != list(sh): why = 'the input shape is not that of the model'
        elif st.get('nobackend'): why = 'the evaluation failed'
        elif any(n not in B.SHAPES for n in ask): why = 'a requested output does not exist'
        elif not ask: why = 'nothing was requested'
        clash = len(set(files)) < len(set(ask))
        if clash: why = why or 'two requested outputs go to one file'
        if hard and s == 0: raise Violated('c27-error-swallowed', '%s: hit %s (%s) but ended with status 0' % (what, hard[0], fault_place(w)))
        if why and s == 0 and ask: raise Violated('c27-error-swallowed' if not clash else 'c27-lost-output', '%s: %s, but it ended with status 0' % (what, why))
        if not why and not hard and s != 0: raise Violated('c27-failed', '%s: without a fault it ends with %s' % (what, s))
        if t.get(m['file']) != before[m['file']]: raise Violated('c27-model-changed', '%s: the model file was changed' % what)
        if s == 0:
            if not calls or any(c[0].dtype != np.float32 or c[0].tobytes() != x.tobytes() for c in calls): raise Violated('c27-other-input', '%s: the model was not evaluated on ones of the given shape' % what)
            for n, f in zip(ask, files):
                if n not in B.SHAPES: continue
                if t.get(f) is None: raise Violated('c27-missing', '%s: there is no file for %s' % (what, n))
                v = B.value(model, n, x).ravel()
                try: got = np.array([float(q) for q in t[f].split()], dtype=np.float64)
                except ValueError: raise Violated('c27-wrong-values', '%s: the file of %s holds no numbers' % (what, n))
                if got.size != v.size or not np.all((got.astype(v.dtype) == v) | (np.isnan(got) & np.isnan(v.astype(np.float64)))): raise Violated('c27-wrong-values', '%s: the file of %s does not hold the values the model returned' % (what, n))
            ctx.count('probe.saved_outputs', len(ask))
    return log
def gen_c27(r, tier, ctx):
    models = []; pool = ['y', 'conv1_1', 'pool5/out', 'pool5.out', 'pool5_out', 'model/conv.1:0', '127', 'fc8_1', 'a:b', 'a_b', 'c/d/e']
    for i in range(r.choice([1, 2])):
        names = r.sample(pool, r.randint(1, 6)); models.append({'file': r.choice(['net%d.onnx' % i, 'net%d.v1.onnx' % i, 'plain%d' % i]), 'in': r.choice([[1, 1, 2, 2], [1, 3], [1, 2, 4]]), 'seed': r.randrange(1000), 'tensors': [[n, r.choice([[1, r.randint(1, 20)], [1, 2, 3, 2], [1, 1], [r.randint(1, 300)]]), r.choice('fffffl')] for n in names]})
    steps = []
    for _ in range(r.choice([1, 1, 2])):
        k = r.randrange(len(models)); names = [t[0] for t in models[k]['tensors']]; ask = r.sample(names, r.randint(1, len(names)))
        if r.random() < .12: ask.insert(r.randrange(len(ask) + 1), 'missing')
        if r.random() < .03: ask = []
        st = {'m': k, 'ask': ask, 'buf': r.choice([0, 0, 16, 100]), 'order': 0, 'faults': [gen_fault(r, (0, 0, 12 if r.random() < .6 else 40, 90, list(range(20, 90, 6)), 4, '')) for _ in range(r.choice([0, 1, 1, 2]))]}
        if r.random() < .06: st['nobackend'] = 1
        if r.random() < .06: st['shape'] = r.choice([[1, 2, 2], [1], [1, 1, 2, 3]])
        steps.append(st)
    return {'models': models, 'steps': steps}
def directed_c27(tier, ctx):
    out = []; m = {'file': 'net.onnx', 'in': [1, 3], 'seed': 2, 'tensors': [['y', [1, 4], 'f'], ['a/b', [1, 2, 3, 2], 'f'], ['a.b', [1, 5], 'f'], ['k', [30], 'l']]}
    for ask in (['y'], ['y', 'a/b', 'k'], ['k', 'a.b']):
        for buf in (0, 24):
            st = {'m': 0, 'ask': ask, 'buf': buf, 'order': 0, 'faults': []}
            try: exec_c27({'models': [m], 'steps': [dict(st, trace=1)]}, ctx)
            except Violated: return [{'models': [m], 'steps': [st]}]
            n, lines, reads = ctx.last.n, ctx.last.lines, ctx.last.reads
            fs = [[k, i, a] for i in range(n) for k, as_ in (('crash', (0, 9)), ('enospc', (0, 5)), ('eio', (0,)), ('full', (0,)), ('short', (3,))) for a in as_] + [['readerr', i, 0] for i in range(reads)] + ([['int', i, 0] for i in range(lines)] if not buf else [])
            out += [{'models': [m], 'steps': [dict(st, faults=[f])]} for f in fs] + [{'models': [m], 'steps': [st, dict(st, faults=[f])]} for f in fs[::5]]
    for st in ({'ask': ['a/b', 'a.b']}, {'ask': ['y', 'a.b', 'a/b']}, {'ask': ['missing']}, {'ask': ['y', 'missing']}, {'ask': []}, {'ask': ['y'], 'nobackend': 1}, {'ask': ['y'], 'shape': [1, 4]}, {'ask': ['y', 'y']}): out.append({'models': [m], 'steps': [dict({'m': 0, 'buf': 0, 'order': 0, 'faults': []}, **st)]})
    return out
