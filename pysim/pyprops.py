"""C15, C17, C21: the importer and the reference-data converter as simulated programs. A run is a JSON plan; exec(plan, ctx) draws on nothing else."""
import hashlib, json, os, random, shutil, struct, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from pysim import gen, imp, vfs, nets
import numpy as np, onnx
from onnx import numpy_helper
NAME = 'net'; WEIGHTS = 'generated_code/net/network.weights.bin'

class Violated(Exception):
    def __init__(s, cls, msg): s.cls = cls; s.msg = msg

class Oracle:
    """the real readers (simulator binary), one request at a time"""
    def __init__(s, exe): s.exe = exe; s.p = None; s.c = {}
    def ask(s, kind, a, b):
        k = (kind, hashlib.sha256(a).digest(), hashlib.sha256(b).digest())
        if k in s.c: return s.c[k]
        if s.p is None or s.p.poll() is not None: s.p = subprocess.Popen([s.exe, '--oracle', '1'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            s.p.stdin.write(kind.encode() + struct.pack('<I', len(a)) + a + struct.pack('<I', len(b)) + b); s.p.stdin.flush()
            h = s.p.stdout.read(8)
            if len(h) < 8: raise OSError
            v, n = struct.unpack('<II', h); r = (v, s.p.stdout.read(4 * n))
        except OSError: s.p.kill(); s.p.wait(); s.p = None; r = (3, b'')
        if len(s.c) > 20000: s.c.clear()
        s.c[k] = r; return r

class Ctx:
    """repository, oracle, counters and caches of a worker"""
    def __init__(s, repo, exe):
        s.repo = repo; s.or_ = Oracle(exe) if exe else None; s.counts = {}; s.base = {}; s.models = {}; s.dir = None
    def count(s, k, n=1): s.counts[k] = s.counts.get(k, 0) + n
    def scratch(s):
        if s.dir is None: s.dir = tempfile.mkdtemp(prefix='pysim', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        d = s.dir + '/r'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); return d
    def close(s):
        if s.dir: shutil.rmtree(s.dir, ignore_errors=True)
        if s.or_ and s.or_.p: s.or_.p.kill()
    def model(s, plan):
        k = json.dumps(plan)
        if k not in s.models:
            if 'real' in plan: s.models[k] = open(os.path.join(s.repo, nets.REAL[plan['real']][0]), 'rb').read()
            else: s.models[k] = gen.build(plan).SerializeToString()
        return s.models[k]

# ------------------------------------------------------------------ one import as a simulated process
def run_import(ctx, root, model, st, world_kw=None):
    """-> (status or 'killed', world). root/in/net.onnx is the model, root/w the working directory"""
    os.makedirs(root + '/in', exist_ok=True); os.makedirs(root + '/w', exist_ok=True); open(root + '/in/net.onnx', 'wb').write(model)
    w = vfs.World(root + '/w', st.get('faults', ()), st.get('buf', 0), [ctx.repo + '/onnx_import/'] if any(f[0] == 'int' for f in st.get('faults', ())) or st.get('trace') else (), **(world_kw or {}))
    with w.installed():
        try: s, text = imp.convert(ctx.repo, root + '/in/net.onnx', root + '/w', st.get('reuse', 0))
        except vfs.Crash: s, text = 'killed', ''
    if w.snap is not None: vfs.put_tree(root + '/w', w.snap); s = 'killed'     # what happened after the end of the process did not happen
    for k in w.fired: ctx.count('fault.' + k)
    w.text = text; return s, w

def baseline(ctx, plan):
    """files of an undisturbed import of this model into an empty directory"""
    k = json.dumps(plan)
    if k not in ctx.base:
        r = ctx.scratch() + '/b'; s, w = run_import(ctx, r, ctx.model(plan), {'trace': 1})
        t = {p: b for p, b in vfs.tree(r + '/w').items() if b is not None}
        ctx.base[k] = (s, t, w.n, w.lines, w.marks, w.reads, w.text)
    return ctx.base[k]

def is_hard(w): return [k for k in w.fired if k in vfs.HARD]

def exec_c15(plan, ctx):
    ms = plan['models']; bases = []; log = []
    for p in ms:
        b = baseline(ctx, p); bases.append(b)
        if b[0] != 0 or WEIGHTS not in b[1]: raise Skip('the model is not imported at all: %s' % (b[0],))     # C16's business
    root = ctx.scratch(); seen = []
    for i, st in enumerate(plan['steps'] + [dict(plan['steps'][-1], faults=[])] if plan['steps'] else []):
        m = st['m'] % len(ms); seen.append(m) if m not in seen else None
        s, w = run_import(ctx, root, ctx.model(ms[m]), st); hard = is_hard(w); log.append((str(s), w.log, w.fired)); t = vfs.tree(root + '/w'); img = t.get(WEIGHTS)
        what = 'import %d (version %d%s)' % (i + 1, m, ', ' + ', '.join(hard) if hard else '')
        if hard and s == 0: raise Violated('c15-error-swallowed', '%s: the import hit %s (%s) but ended with status 0' % (what, hard[0], fault_place(w)))
        if not hard:
            if s != 0: raise Violated('c15-repeat-failed', '%s: without a fault the import ends with %s' % (what, s))
            for f, b in bases[m][1].items():
                if f not in t: raise Violated('c15-repeat-differs', '%s: %s is missing, an undisturbed import writes it' % (what, f))
                if t[f] != b: raise Violated('c15-repeat-differs', '%s: %s differs from what an undisturbed import writes (%d bytes instead of %d)' % (what, f, len(t[f]), len(b)))
        elif img is not None:
            ctx.count('probe.weights_file_left'); whole = any(img == bases[v][1][WEIGHTS] for v in seen)
            if whole: ctx.count('probe.complete_file_left')
            for v in range(len(ms)):
                r = ctx.or_.ask('W', bases[v][1][WEIGHTS], img)[0]
                if r == 4: raise Violated('c15-not-a-weights-file', 'an undisturbed import of version %d writes a weights file that has not the documented structure' % v)
                if r == 3: raise Violated('c15-loader-died', '%s: the loader neither accepts nor refuses the weights file left behind' % what)
                if r == 0: ctx.count('probe.left_file_refused')
                if r in (1, 2) and not whole and not complete(ctx, img, bases, seen): raise Violated('c15-usable-wrong-weights', '%s: the weights file left behind (%d bytes) is accepted by the network of version %d although it is not complete for any imported version' % (what, len(img), v))
        elif s == 'killed' or hard: ctx.count('probe.no_weights_file')
    return log
def complete(ctx, img, bases, seen):
    """reads back as exactly the values of a version that was imported"""
    return any(ctx.or_.ask('W', bases[u][1][WEIGHTS], img)[0] == 1 for u in seen)
def fault_place(w): return '%s %s' % w.log[-1][:2] if w.log else 'before the first write'

class Skip(Exception): pass

def versions(r, tier):
    """a model, the same with other parameter values, another model"""
    z = r.random(); p = gen.gen_plan(r.randrange(1 << 40), tier) if z < .6 else r.choice(gen.directed()) if z < .95 else gen.wide_plan(r.randrange(1 << 40), tier); q = dict(p, seed=r.randrange(1 << 30))
    return [p, q, r.choice([gen.gen_plan(r.randrange(1 << 40), tier), dict(q, style=r.randrange(1 << 30)), dict(p, steps=p['steps'] + [['Gemm', r.randrange(99)]])])]
def gen_fault(r, b):
    n, lines, marks, reads = max(1, b[2]), max(1, b[3]), b[4], max(1, b[5]); k = r.choice(['crash'] * 6 + ['int'] * 2 + ['enospc', 'eio', 'eacces', 'emfile', 'edquot', 'full', 'full', 'short', 'short', 'readerr'])
    if k == 'int':
        if marks and r.random() < .75: i = r.randrange(len(marks)); lo = marks[i]; hi = marks[i + 1] if i + 1 < len(marks) else lines; return ['int', lo + r.randrange(max(1, hi - lo)), 0]
        return ['int', r.randrange(lines), 0]
    if k == 'readerr': return [k, r.randrange(reads), 0]
    return [k, r.randrange(n + (n // 8)), r.choice([0, 1, r.randrange(64), r.randrange(1 << 13), 1 << 20])]
def gen_c15(r, tier, ctx):
    ms = versions(r, tier)[:r.choice([1, 2, 2, 3, 3])]; steps = []
    for _ in range(r.choice([1, 2, 2, 3, 4 if tier else 3])):
        m = r.randrange(len(ms)); b = baseline(ctx, ms[m]); f = [gen_fault(r, b)] if r.random() < .85 else []
        if f and f[0][0] == 'short' and r.random() < .7: f = [gen_fault(r, b) for _ in range(3)]
        steps.append({'m': m, 'reuse': int(r.random() < .5), 'buf': r.choice([0, 0, 0, 16, 200, 4096, 65536]), 'faults': f})
    return {'models': ms, 'steps': steps}
def directed_c15(tier, ctx):
    """every operation of one import killed (before, in the middle, after) or failed, over an empty directory and over an earlier version"""
    out = []; p = {'seed': 11, 'in': [1, 2, 4, 4], 'steps': [['Conv', 5], ['BatchNormalization', 1], ['Flatten', 3], ['Gemm', 7]], 'style': 1}; ms = [p, dict(p, seed=12), dict(p, steps=p['steps'][:1] + p['steps'][2:])]
    for buf in (0, 64):
        b = count_ops(ctx, p, buf)
        for pre in (None, 1, 2):
            for n in range(b):
                for f in ([['crash', n, a] for a in ((0, 1, 1 << 20) if buf else (0, 1, 37, 1 << 20))] + [[k, n, a] for k in ('enospc', 'full') for a in (0, 33)]):
                    out.append({'models': ms, 'steps': ([{'m': pre, 'reuse': 0, 'buf': 0, 'faults': []}] if pre else []) + [{'m': 0, 'reuse': 1, 'buf': buf, 'faults': [f]}]})
    return out
def count_ops(ctx, p, buf):
    r = ctx.scratch() + '/b'; s, w = run_import(ctx, r, ctx.model(p), {'buf': buf}); return w.n

# ------------------------------------------------------------------ C17
def digest(t): return {f: hashlib.sha256(b).hexdigest()[:20] for f, b in t.items() if b is not None}
def clean_import(ctx, plan):
    """in a process of its own with hash seed 0 (see pyrun: ctx.clean is filled from there)"""
    k = json.dumps(plan)
    if k not in ctx.clean:
        p = subprocess.run([sys.executable, V + '/pysim/pyrun.py', 'clean', ctx.repo], input=json.dumps([plan]), env=dict(os.environ, PYTHONHASHSEED='0'), stdout=subprocess.PIPE, text=True)
        ctx.clean[k] = json.loads(p.stdout)[0]
    return ctx.clean[k]
def exec_c17(plan, ctx):
    import gc
    root = ctx.scratch(); ms = plan['models']; e = plan['env']; target = ms[0]; ref = clean_import(ctx, target); log = []
    if ref['status'] != 0: raise Skip('the model is not imported at all')
    for i, st in enumerate(plan['before']):          # other imports in this process
        s, w = run_import(ctx, root + '/o%d' % i, ctx.model(ms[st['m'] % len(ms)]), {'reuse': int(i > 0), 'faults': st.get('faults', [])}, dict(order=e['order'], now=e['now'], rnd=e['rnd'], pid=e['pid'])); log.append((str(s), len(w.log)))
        ctx.count('probe.earlier_imports')
    wd = root + '/' + e['dir']; os.makedirs(wd + '/w')
    for d in plan['dirty']:                          # what is in the directory already
        if d[0] == 'import': run_import(ctx, wd, ctx.model(ms[d[1] % len(ms)]), {'reuse': int(bool(plan['before']))}, dict(order=e['order']))
        else:
            names = sorted(ref['files']); f = names[d[1] % len(names)]; p = wd + '/w/' + f; os.makedirs(os.path.dirname(p), exist_ok=True); r = random.Random(d[2])
            if d[0] == 'stray': p = os.path.dirname(p) + '/' + r.choice(['old.txt', 'network.o', 'network.weights.bin.bak', 'network.weights.bin.tmp', '.lock'])
            open(p, 'wb').write(bytes(r.randrange(256) for _ in range(r.choice([0, 5, 3000]))) if d[2] % 3 else b'FD\n' + b'x' * r.randrange(9000))
        ctx.count('probe.dirty_directory')
    if e.get('junk'): junk = [bytearray(e['junk'] % 977 + i) for i in range(200)]
    old = dict(os.environ); os.environ.update(e.get('vars', {}))
    try: s, w = run_import(ctx, wd, ctx.model(target), {'reuse': int(bool(plan['before'])), 'buf': e['buf']}, dict(order=e['order'], now=e['now'], rnd=e['rnd'], pid=e['pid']))
    finally: os.environ.clear(); os.environ.update(old)
    if s != 0: raise Violated('c17-import-fails', 'the import ends with %s here, in a fresh process it succeeds' % (s,))
    t = digest(vfs.tree(wd + '/w')); log.append(t)
    for f in ref['files']:
        if t.get(f) != ref['files'][f]: raise Violated('c17-differs', '%s %s' % (f, 'is missing' if f not in t else 'is not byte-identical to that of a fresh process with hash seed 0'))
    return log
def gen_c17(r, tier, ctx):
    pool = ctx.pool; ms = [r.choice(pool)] + [r.choice(pool) for _ in range(r.choice([0, 1, 2]))]
    if r.random() < .3 and 'real' not in ms[0]: ms.append(dict(ms[0], seed=r.randrange(99)))
    before = [{'m': r.randrange(len(ms)), 'faults': [['crash', r.randrange(20), 1]] if r.random() < .15 else []} for _ in range(r.choice([0, 0, 1, 2, 4]))]
    dirty = [[r.choice(['import', 'import', 'file', 'stray']), r.randrange(8), r.randrange(1000)] for _ in range(r.choice([0, 0, 1, 2]))]
    e = {'order': r.choice([0, r.randrange(1, 1000)]), 'now': r.choice([0.0, 1e9, 1.7e9 + r.randrange(10 ** 8), 4.1e9]), 'rnd': r.randrange(1 << 30), 'pid': r.randrange(30000), 'dir': r.choice(['w', 'some where', 'd' * 90, 'a/b/c']), 'buf': r.choice([0, 0, 64, 3000]), 'junk': r.randrange(1000)}
    if r.random() < .4: e['vars'] = {'HOME': '/nonexistent', 'USER': 'u%d' % r.randrange(9), 'LC_ALL': r.choice(['C', 'C.UTF-8']), 'TZ': r.choice(['UTC', 'Asia/Tokyo'])}
    return {'models': ms, 'before': before, 'dirty': dirty, 'env': e}
def pool_c17(seed, tier): r = random.Random('c17/%d' % seed); d = gen.directed(); return [{'real': 'perceptron'}, {'real': 'lenet'}] + (d if tier else d[seed % 3::3]) + [gen.gen_plan(r.randrange(1 << 40), tier) for _ in range(130 if tier else 40)] + [gen.wide_plan(r.randrange(1 << 40), tier) for _ in range(40 if tier else 10)]

# ------------------------------------------------------------------ C21
DT = {'f': np.float32, 'd': np.float64, 'l': np.int64}
def tensor(t):
    """t = [shape, seed, type, raw]"""
    sh, seed, ty, raw = t; r = random.Random(seed); n = int(np.prod(sh))
    sp = [0x7f800000, 0xff800000, 0x7fc00000, 1, 0x80000000, 0x00800000, 0x7f7fffff, 0x80000001, 0xffffffff & ~0x00400000 | 0x00400000]
    b = [r.choice(sp) if seed % 3 == 0 and r.random() < .3 else struct.unpack('<I', struct.pack('<f', r.uniform(-3, 3)))[0] for _ in range(n)]
    a = np.array(b, dtype='<u4').view('<f4').reshape(sh)
    if ty == 'l': a = np.array([r.randrange(-1000, 1000) for _ in range(n)], dtype=np.int64).reshape(sh)
    return numpy_helper.from_array(a.astype(DT[ty]), 't', bool(raw)), a.astype(np.float32)
def representable(kind, sh): return (len(sh) == 4 if kind == 'input' else len(sh) == 2) and sh[0] == 1
def same(a, b):
    x = np.frombuffer(b, '<f4'); y = a.astype('<f4').ravel()
    return x.size == y.size and bool(np.all((x.view('<u4') == y.view('<u4')) | (np.isnan(x) & np.isnan(y))))
def exec_c21(plan, ctx):
    root = ctx.scratch(); d = root + '/w'; os.makedirs(d); vers = {}; log = []; steps = plan['steps']
    for i, st in enumerate(steps + ([dict(steps[-1], faults=[])] if steps else [])):
        sets = plan['sets'][st['m'] % len(plan['sets'])]
        for f in os.listdir(d):
            if f.endswith('.pb'): os.unlink(d + '/' + f)
        cur = {}
        for kind in ('input', 'output'):
            for j, t in enumerate(sets[kind]):
                m, a = tensor(t); n = '%s_%d' % (kind, j); open(d + '/' + n + '.pb', 'wb').write(m.SerializeToString()); cur[n] = (kind, tuple(t[0]), a)
                if representable(kind, t[0]): vers.setdefault(n, []).append((tuple(t[0]), a))
        before = vfs.tree(d); f = st.get('faults', [])
        w = vfs.World(d, f, st.get('buf', 0), [ctx.repo + '/util/'] if any(x[0] == 'int' for x in f) or st.get('trace') else (), order=st.get('order', 0))
        with w.installed():
            try: s, text = imp.run_main(ctx.repo, 'util', 'parse_onnx_reference_files', ['--input', d], d)
            except vfs.Crash: s = 'killed'
        if w.snap is not None: vfs.put_tree(d, w.snap); s = 'killed'
        for k in w.fired: ctx.count('fault.' + k)
        hard = is_hard(w); t = vfs.tree(d); log.append((str(s), w.log, w.fired)); ctx.last = w
        what = 'conversion %d%s' % (i + 1, ' (%s)' % ', '.join(hard) if hard else '')
        if hard and s == 0: raise Violated('c21-error-swallowed', '%s: hit %s (%s) but ended with status 0' % (what, hard[0], fault_place(w)))
        bad = [n for n, (k, sh, a) in cur.items() if not representable(k, sh)]
        for n in bad:
            if t.get(n + '.data') != before.get(n + '.data') and not (hard and n + '.data' not in t): raise Violated('c21-unrepresentable', '%s: %s of shape %s cannot be represented but a file was written for it' % (what, n, cur[n][1]))
        if not hard and not bad:
            if s != 0: raise Violated('c21-conversion-failed', '%s: without a fault the conversion ends with %s' % (what, s))
            for n, (k, sh, a) in cur.items():
                img = t.get(n + '.data')
                if img is None: raise Violated('c21-missing', '%s: no file for %s' % (what, n))
                v, got = ctx.or_.ask('I' if k == 'input' else 'O', struct.pack('<%dI' % len(sh), *sh), img)
                if v != 1: raise Violated('c21-not-loadable', '%s: the loader does not accept the file of %s, shape %s' % (what, n, list(sh)))
                if not same(a, got): raise Violated('c21-wrong-values', '%s: the loader does not read back the values of %s, shape %s' % (what, n, list(sh)))
        for p, img in t.items():
            if not p.endswith('.data') or img is None: continue
            n = p[:-5]; k = n.split('_')[0]; ctx.count('probe.data_file')
            shapes = set(sh for sh, a in vers.get(n, [])) | {(1, 1, 1, 1) if k == 'input' else (1, 1)}
            for sh in shapes:
                v, got = ctx.or_.ask('I' if k == 'input' else 'O', struct.pack('<%dI' % len(sh), *sh), img)
                if v == 3: raise Violated('c21-loader-died', '%s: the loader neither accepts nor refuses %s' % (what, p))
                if v == 1 and not any(sh == q and same(a, got) for q, a in vers.get(n, [])): raise Violated('c21-usable-wrong-data', '%s: %s (%d bytes) is accepted by the loader but holds no complete converted tensor' % (what, p, len(img)))
                ctx.count('probe.left_file_accepted' if v == 1 else 'probe.left_file_refused')
    return log
def gen_set(r):
    def sh(kind):
        if r.random() < .06: return r.choice([[2, 1, 2, 2], [1, 2, 3], [3], [1, 1, 1, 1, 2]] if kind == 'input' else [[2, 3], [4], [1, 2, 2], [1, 1, 1, 1]])
        return [1, r.randint(1, 4), r.randint(1, 6), r.randint(1, 6)] if kind == 'input' else [1, r.choice([1, 2, 10, r.randint(1, 40)])]
    one = lambda k: [sh(k), r.randrange(1 << 20), r.choice('fffdl') if r.random() < .4 else 'f', r.randrange(2)]
    return {'input': [one('input') for _ in range(r.choice([1, 1, 2, 3]))], 'output': [one('output') for _ in range(r.choice([1, 1, 2]))]}
def gen_c21(r, tier, ctx):
    sets = [gen_set(r)]; 
    while len(sets) < 3:
        q = json.loads(json.dumps(r.choice(sets)))
        if r.random() < .5:
            for k in q:
                for t in q[k]: t[1] = r.randrange(1 << 20)
        else: q = gen_set(r)
        sets.append(q)
    steps = []
    for _ in range(r.choice([1, 2, 3])): steps.append({'m': r.randrange(3), 'buf': r.choice([0, 0, 16, 100]), 'order': r.choice([0, r.randrange(1, 99)]), 'faults': [gen_fault(r, (0, 0, 16 if r.random() < .6 else 60, 400, list(range(60, 400, 25)), 6, '')) for _ in range(r.choice([0, 1, 1, 1]))]})
    return {'sets': sets, 'steps': steps}
def directed_c21(tier, ctx):
    out = []; sets = [{'input': [[[1, 2, 3, 3], 3, 'f', 1], [[1, 1, 4, 2], 4, 'f', 0]], 'output': [[[1, 7], 5, 'f', 1]]}]; sets.append({k: [[t[0], t[1] + 7, t[2], t[3]] for t in v] for k, v in sets[0].items()})
    for buf in (0, 24):
        p = {'sets': sets, 'steps': [{'m': 0, 'buf': buf, 'faults': [], 'trace': 1}]}
        try: exec_c21(p, ctx)
        except Violated: return [p]
        n = ctx.last.n; lines = ctx.last.lines
        for pre in (0, 1):
            fs = [[k, i, a] for i in range(n) for k, as_ in (('crash', (0, 1, 9, 1 << 20)), ('enospc', (0, 5)), ('full', (0,)), ('short', (3,))) for a in as_]
            if not buf: fs += [['int', i, 0] for i in range(lines)]
            for f in fs: out.append({'sets': sets, 'steps': ([{'m': 1, 'buf': 0, 'faults': []}] if pre else []) + [{'m': 0, 'buf': buf, 'faults': [f]}]})
    return out

REALC = 'onnx_import and its templates, the CPython file objects (buffering, text encoding), pico-cnn/io readers and tensors (verdicts), the C library'
PROPS = {
 'C15': dict(exec=exec_c15, gen=gen_c15, directed=directed_c15, quick=6000, thorough=400000, real=REALC, stubs='onnx and jinja2 packages, system calls below Python file objects, process end',
   rule='histories of 1-4 imports of up to three versions of a model into one directory, with a kill at any operation (also within a write), SIGINT at any line of the importer, errors of any write, open, mkdir, close or read, full disk, short writes and other buffer sizes; plus every operation of one import killed or failed over an empty and over a used directory; non-trivial: a fault fired'),
 'C17': dict(exec=exec_c17, gen=gen_c17, directed=None, quick=2400, thorough=120000, real=REALC, stubs='onnx and jinja2 packages, clock, random sources, process id, directory order',
   rule='an import of one of a pool of models after 0-4 other (also killed) imports in the same process, into a directory with 0-2 leftovers (earlier imports, garbage, stray files), with seeded hash seed, clock, random sources, process id, directory order, buffer size, path and environment; compared with a fresh process; non-trivial: anything differs from the fresh process'),
 'C21': dict(exec=exec_c21, gen=gen_c21, directed=directed_c21, quick=20000, thorough=1000000, real='util/parse_onnx_reference_files.py, the CPython file objects, pico-cnn/io readers and tensors (verdicts), the C library', stubs='onnx package, system calls below Python file objects, process end',
   rule='histories of 1-3 conversions of seeded sets of tensors (shapes, types, special values, unrepresentable shapes) into one directory with kills, SIGINT, errors, full disk and short writes; plus every operation and line of one conversion killed, failed or interrupted; non-trivial: a fault fired'),
}
if __name__ != '__main__':
    from pysim import props_ref as _r
    PROPS['C24'] = dict(exec=_r.execute, gen=_r.gen, directed=_r.directed, quick=20000, thorough=1000000, real='util/generate_reference_data.py, scipy.io.wavfile, numpy random generator, the CPython file objects, pico-cnn/io readers and tensors (verdicts), the C library', stubs='onnx, caffe2, magic and imageio packages, entropy source, system calls below Python file objects, process end',
      rule='histories of 1-3 runs on random values, PGM, JPEG, WAV and unsupported files for up to two models and seeded shapes (also unrepresentable ones), seeds and ranges in one directory with kills, SIGINT, errors, full disk, short writes, failing reads and failing evaluations; plus every operation and line of one run of each kind killed, failed or interrupted; non-trivial: a fault fired')
    from pysim import props_util as _u
    _fs = 'system calls below Python file objects, process end'
    PROPS['C25'] = dict(exec=_u.exec_c25, gen=_u.gen_c25, directed=_u.directed_c25, quick=20000, thorough=1000000, real='util/check_onnx_model.py, numpy.testing, the CPython file objects', stubs='onnx and caffe2 packages, ' + _fs,
      rule='models of 1-12 inputs and 1-13 outputs with stored data that is complete, off by seeded amounts, NaN, of another shape or type, cut, flipped, zeroed, lost, exchanged or surplus, failing or incomplete evaluations, failing reads and SIGINT; plus every cut of every file, every read and every line of one check failed; non-trivial: a fault fired or stored data was changed')
    PROPS['C26'] = dict(exec=_u.exec_c26, gen=_u.gen_c26, directed=_u.directed_c26, quick=20000, thorough=1000000, real='util/prepare_images.py, the CPython file objects', stubs='Pillow (pictures, scaling), ' + _fs,
      rule='histories of 1-3 runs of the three modes over folders of 0-5 files (complete, cut or no pictures, grey and colour, other names) with seeded sizes and positions, directory order, kills, SIGINT, errors, full disk, short writes and failing reads; plus every operation, read and line of one run of each mode killed, failed or interrupted; non-trivial: a fault fired')
    PROPS['C27'] = dict(exec=_u.exec_c27, gen=_u.gen_c27, directed=_u.directed_c27, quick=20000, thorough=1000000, real='util/save_intermediate_outputs.py, numpy.savetxt, the CPython file objects', stubs='onnx and onnx-tf packages, ' + _fs,
      rule='histories of 1-2 runs on up to two models with seeded tensor names, shapes, types and values, requests for missing or colliding names, wrong input shapes, failing evaluations, SIGINT, errors, full disk, short writes and failing reads; plus every operation, read and line of one run failed; non-trivial: a fault fired')
