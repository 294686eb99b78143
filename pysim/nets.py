"""Builds a simulator binary from generated networks: imports models with the repository's importer, compiles what it
generates (one translation unit per network, instrumented like the library) and writes the models' definitions for the evaluator."""
import hashlib, json, multiprocessing, os, re, shutil, signal, struct, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pysim import gen, imp
import numpy as np, onnx
from onnx import numpy_helper
from onnx.shape_inference import infer, attrs, prod

OPS = ['Conv', 'MaxPool', 'AveragePool', 'GlobalMaxPool', 'GlobalAveragePool', 'BatchNormalization', 'Relu', 'Clip', 'LRN', 'Softmax', 'Gemm', 'MatMul', 'Mul', 'Add', 'Concat', 'Pad', 'Transpose', 'Copy', 'Sub', 'Unary']
UNARY = ['Sigmoid', 'Tanh', 'LeakyRelu', 'Neg', 'Abs', 'Elu', 'Floor', 'Exp']
FLAGS = '-std=gnu++17 -O1 -g1 -fno-omit-frame-pointer -fno-optimize-sibling-calls -fsanitize=address -fsanitize-address-use-after-return=never -ftrivial-auto-var-init=pattern -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores -DDEBUG=0 -DINFO=1 -w'.split()

# ------------------------------------------------------------------ definition of a model for the evaluator
class Unsupported(Exception): pass
def spec(model):
    """-> bytes: tensors (shape, constant values) and nodes in order; the ONNX operators, also those the importer does not support"""
    sh, const = infer(model, follow=True); const = dict(const); g = model.graph; ids = {}; tens = []; nodes = []
    def tid(n):
        if n not in ids: ids[n] = len(tens); tens.append((tuple(sh[n]), const.get(n)))
        return ids[n]
    alias = {}
    for n in g.node:
        a = attrs(n); op = n.op_type; o = n.output[0]; x = [alias.get(i, i) for i in n.input]; I = []; F = []
        if op == 'Constant' or o in const: continue
        if op == 'Transpose' and x[0] in const: const[o] = np.ascontiguousarray(np.transpose(const[x[0]], a.get('perm'))); sh[o] = const[o].shape; continue
        if op == 'Shape': continue
        s = sh.get(x[0]); to = sh[o]
        if op in ('Conv', 'MaxPool', 'AveragePool', 'GlobalMaxPool', 'GlobalAveragePool', 'LRN') and len(s) not in (3, 4):
            if op != 'LRN': raise Unsupported('shape')
            if len(s) != 2: raise Unsupported('shape')
        if op == 'Conv' or op in ('MaxPool', 'AveragePool'):
            k, st, p, dil = onnx.shape_inference.window(n, a, s, sh.get(x[1]) if len(x) > 1 else None, sh[o]); nd = len(k)
            if nd == 1: k = [1] + k; st = [1] + st; p = [0, p[0], 0, p[1]]; dil = [1] + dil
            I = k + st + p + [a.get('group', 1) if op == 'Conv' else a.get('count_include_pad', 0)] + dil
        elif op == 'BatchNormalization': F = [a.get('epsilon', 1e-5)]; I = [prod(s[2:]) if a.get('spatial', 1) else 1, s[1] if a.get('spatial', 1) else prod(s[1:])]
        elif op == 'MatMul':
            if len(sh[x[1]]) > 2:
                if prod(sh[x[1]][:-2]) != 1 or x[1] not in const: raise Unsupported('MatMul')
                n2 = x[1] + '/c/' + o; const[n2] = const[x[1]].reshape(sh[x[1]][-2:]); sh[n2] = const[n2].shape; x[1] = n2
            if len(sh[x[1]]) == 1:
                if x[1] not in const: raise Unsupported('MatMul')
                n2 = x[1] + '/c/' + o; const[n2] = const[x[1]].reshape(-1, 1); sh[n2] = const[n2].shape; x[1] = n2
        elif op == 'Clip': F = [float(const[x[1]]) if len(x) > 1 and x[1] else a.get('min', -3.4028234663852886e38), float(const[x[2]]) if len(x) > 2 and x[2] else a.get('max', 3.4028234663852886e38)]; x = x[:1]
        elif op == 'LRN': I = [a['size']]; F = [a.get('alpha', 1e-4), a.get('beta', .75), a.get('bias', 1.0)]
        elif op == 'Gemm':
            w = x[1]
            if a.get('transA', 0): y = o + '/A'; sh[y] = (s[1], s[0]); nodes.append((OPS.index('Transpose'), [tid(x[0])], tid(y), [1, 0], [])); x[0] = y
            if not a.get('transB', 0):
                if w not in const: y = o + '/B'; sh[y] = (sh[w][1], sh[w][0]); nodes.append((OPS.index('Transpose'), [tid(w)], tid(y), [1, 0], [])); x[1] = y
                else: const[w + '/T'] = np.ascontiguousarray(const[w].T); sh[w + '/T'] = const[w + '/T'].shape; x[1] = w + '/T'
            if len(x) > 2 and prod(sh[x[2]]) not in (1, to[1]) or len(x) > 2 and prod(sh[x[2]]) > 1 and sh[x[2]][-1] != to[1]:
                if x[2] not in const: raise Unsupported('Gemm C')
                n2 = x[2] + '/b/' + o; const[n2] = np.ascontiguousarray(np.broadcast_to(const[x[2]], to)); sh[n2] = tuple(to); x[2] = n2
            F = [a.get('alpha', 1.0), a.get('beta', 1.0)]
        elif op == 'Concat': I = [a['axis']]
        elif op == 'Softmax': I = [prod(s[:a.get('axis', 1) % max(1, len(s))])]
        elif op == 'Pad':
            m = a.get('mode', b'constant'); I = list(a['pads']) + [{b'constant': 0, b'edge': 1, b'reflect': 2}[m]]; F = [a.get('value', 0.0)]
        elif op == 'Transpose': I = list(a.get('perm', range(len(s))[::-1]))
        elif op == 'Sum':
            for i in x[1:-1]: y = o + '/' + i; sh[y] = tuple(to); nodes.append((OPS.index('Add'), [tid(x[0]), tid(i)], tid(y), [], [])); x[0] = y
            op = 'Add' if len(x) > 1 else 'Copy'; x = [x[0], x[-1]] if len(x) > 1 else x
        elif op in ('Add', 'Mul', 'Sub'): pass
        elif op in UNARY: I = [UNARY.index(op)]; F = [a.get('alpha', {'LeakyRelu': .01}.get(op, 1.0))]; op = 'Unary'
        elif op in ('Reshape', 'Flatten', 'Squeeze', 'Unsqueeze', 'Dropout', 'Identity'): op = 'Copy'; x = x[:1]
        elif op not in OPS: raise Unsupported(op)
        nodes.append((OPS.index(op), [tid(i) for i in x if i], tid(o), [int(v) for v in I], [float(v) for v in F]))
    init = set(t.name for t in g.initializer); inp = [i.name for i in g.input if i.name not in init][0]; out = alias.get(g.output[0].name, g.output[0].name)
    b = struct.pack('<2i', tid(inp), tid(out)) + struct.pack('<i', len(tens))
    for s, c in tens:
        b += struct.pack('<i', len(s)) + struct.pack('<%di' % len(s), *s) + struct.pack('<i', c is not None)
        if c is not None: b += np.ascontiguousarray(c, dtype='<f4').tobytes()
    b += struct.pack('<i', len(nodes))
    for op, i, o, I, F in nodes: b += struct.pack('<ii', op, len(i)) + struct.pack('<%di' % len(i), *i) + struct.pack('<ii', o, len(I)) + struct.pack('<%di' % len(I), *I) + struct.pack('<i', len(F)) + struct.pack('<%dd' % len(F), *F)
    return b

# ------------------------------------------------------------------ import
REAL = {'lenet': ('data/lenet/lenet.onnx', [('data/lenet/input.data', 'data/lenet/output.data'), ('data/lenet/random_lenet_input.data', 'data/lenet/random_lenet_output.data')]),
        'perceptron': ('data/mnist_simple_perceptron/mnist_simple_perceptron.onnx', [('data/mnist_simple_perceptron/random_mnist_simple_perceptron_input.data', 'data/mnist_simple_perceptron/random_mnist_simple_perceptron_output.data')])}
def load_model(plan, repo): return onnx.load(os.path.join(repo, REAL[plan['real']][0])) if 'real' in plan else gen.build(plan)

class Timeout(BaseException): pass
def _timeout(*a): raise Timeout()
def one_import(t):
    """import plan into directory d -> {'spec'} | {'error'} | {'skip'}"""
    plan, d, repo = t
    os.makedirs(d)
    if plan.get('odd'): return odd_import(plan, d, repo)
    try:
        m = load_model(plan, repo)
        if 'real' in plan: shutil.copy(os.path.join(repo, REAL[plan['real']][0]), d + '/net.onnx')
        else: onnx.save(m, d + '/net.onnx')
        sp = spec(m)
    except Unsupported as e: return {'skip': str(e)}
    signal.signal(signal.SIGALRM, _timeout); signal.alarm(90)
    try: st, text = imp.convert(repo, d + '/net.onnx', d)
    except Timeout: st, text = 'no end within 90 s', ''
    finally: signal.alarm(0)
    g = d + '/generated_code/net/'
    miss = [f for f in ('network.cpp', 'network.h', 'network.weights.bin', 'dummy_input.cpp', 'reference_input.cpp', 'Makefile') if not os.path.isfile(g + f)]
    if st != 0 or miss: return {'error': 'import ended with %s%s; %s' % (st, ', no ' + ' '.join(miss) if miss else '', ' | '.join(text.strip().splitlines()[-3:]))}
    return {'spec': sp}

def tree(d):
    o = {}
    for r, ds, fs in os.walk(d):
        for f in fs: o[os.path.relpath(r + '/' + f, d)] = open(r + '/' + f, 'rb').read()
    return o
def odd_import(plan, d, repo):
    """an ordinary model, the odd one under the same name, the ordinary one again"""
    A = gen.directed()[(plan['seed'] + plan['style']) % 20]; os.makedirs(d + '/a'); g = d + '/generated_code'; reuse = plan['odd'] == 2
    onnx.save(gen.build(A), d + '/a/net.onnx'); m = gen.build(plan); onnx.save(m, d + '/net.onnx'); init = set(t.name for t in m.graph.initializer)
    bad = lambda c, t: {'error': t, 'class': c}
    def conv(f, again=False):
        signal.signal(signal.SIGALRM, _timeout); signal.alarm(60)
        try: return imp.convert(repo, f, d, reuse and again)
        except Timeout: return 'no end within 60 s', ''
        finally: signal.alarm(0)
    st, text = conv(d + '/a/net.onnx'); first = tree(g)
    if st != 0 or 'net/network.cpp' not in first: return {'skip': 'the ordinary model is not imported: %s' % st}
    st, text = conv(d + '/net.onnx', True); said = ' | '.join(text.strip().splitlines()[-2:]); now = tree(g)
    if isinstance(st, str) and st.startswith('no end'): return bad('c23-import', 'the import has ' + st)
    if st != 0:
        if now != first: return bad('c23-left', 'the import is refused (%s; %s) but changed %s of the code generated before' % (st, said, ', '.join(sorted(k for k in set(now) | set(first) if now.get(k) != first.get(k)))))
    elif now.get('net/network.cpp') == first['net/network.cpp'] and now == first: return bad('c23-status', 'the import ends with status 0 but generated nothing: ' + said)
    else: os.rename(g, d + '/kept')
    st2, text = conv(d + '/a/net.onnx', True); last = tree(g)
    if st2 != 0 or last != first: return bad('c23-after', 'the ordinary model imported after %s one: status %s, different: %s' % ('a refused' if st else 'an accepted', st2, ', '.join(sorted(k for k in set(last) | set(first) if last.get(k) != first.get(k)))))
    if st != 0: return {'skip': 'refused'}
    shutil.rmtree(g); os.rename(d + '/kept', g)
    n = [i for i in m.graph.input if i.name not in init]
    if len(n) != 1 or len(m.graph.output) != 1: return bad('c23-arity', 'a model with %d inputs and %d outputs is accepted; a network has one of each' % (len(n), len(m.graph.output)))
    miss = [f for f in ('network.cpp', 'network.h', 'network.weights.bin', 'dummy_input.cpp', 'reference_input.cpp', 'Makefile') if not os.path.isfile(g + '/net/' + f)]
    if miss: return bad('c23-status', 'the import ends with status 0 without %s' % ' '.join(miss))
    try: return {'spec': spec(m)}
    except Unsupported as e: return {'skip': 'accepted, not evaluated: %s' % e}

INC = re.compile(r'^[ \t]*#[ \t]*include[ \t]*([<"][^>"]*[>"]).*$', re.M)
def split(path, inc):
    s = open(path, encoding='utf-8', errors='surrogateescape').read()
    def f(m):
        if m.group(1) not in ('"network.h"', '"./network.h"') and m.group(1) not in inc: inc.append(m.group(1))
        return ''
    s = INC.sub(f, s)
    return s.replace('#pragma once', '')

def write_tus(i, d, programs):
    g = d + '/generated_code/net/'; out = []; inc = []
    h = split(g + 'network.h', inc); c = split(g + 'network.cpp', inc)
    def tu(name, body):
        p = d + '/' + name; open(p, 'w', encoding='utf-8', errors='surrogateescape').write(''.join('#include %s\n' % x for x in inc) + '#include "netapi.h"\n' + body); out.append(p)
    net = 'namespace %s {\n' + '#line 1 "network.h"\n' + h + '\n#line 1 "network.cpp"\n' + c + '\n#line 1 "harness"\n'
    tu('net.cpp', net % ('net_%d' % i) + '}\n' + '''typedef net_%d::Network N; namespace { struct R { R() { auto &a = sim::net_api(%d);
 a.create = [] { return (void *) new N(); }; a.destroy = [](void *p) { delete (N *) p; }; a.load = [](void *p, const char *f) { N *n = (N *) p; return (int) read_binary_weights(f, &n->kernels, &n->biases); };
 a.run = [](void *p, Tensor *i, Tensor *o) { ((N *) p)->run(i, o); }; a.kernels = [](void *p) { return ((N *) p)->kernels; }; a.biases = [](void *p) { return ((N *) p)->biases; }; } } r; }\n''' % (i, i))
    if programs:
        for f, k in (('dummy_input.cpp', 'dummy'), ('reference_input.cpp', 'reference')):
            inc2 = list(inc); m = split(g + f, inc2); inc[:] = inc2
            obs = 'struct ObsNetwork : Network { void run(pico_cnn::naive::Tensor *i, pico_cnn::naive::Tensor *o) { sim::on_infer(this, kernels, biases, i, o, false); Network::run(i, o); sim::on_infer(this, kernels, biases, i, o, true); } };\n#define Network ObsNetwork\n#define main sim_main\n#line 1 "%s"\n' % f
            tu(k + '.cpp', net % ('%s_%d' % (k, i)) + obs + m + '\n#undef main\n#undef Network\n}\nnamespace { struct R { R() { sim::net_api(%d).%s = [](int c, char **v) -> int { return (int) %s_%d::sim_main(c, v); }; } } r; }\n' % (i, k, k, i))
    return out

def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def build(plans, repo, base, out, programs, pch_dir=None):
    """base: directory of the library build (objects). -> (binary or None, [per plan: None | {'class','message'} | {'skip'}])"""
    import time
    pch_dir = pch_dir or out; tmp = out + '/nets'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp); inc = ['-I' + repo, '-I' + V + '/sim', '-I' + V + '/net']
    pre = pch_dir + '/pre.h'; fresh = not os.path.exists(pch_dir + '/done')
    if fresh: open(pre, 'w').write('#include <bits/stdc++.h>\n#include "pico-cnn/pico-cnn.h"\n#include "netapi.h"\n')
    jobs = [] if not fresh else [subprocess.Popen(['clang++'] + FLAGS + inc + ['-x', 'c++-header', pre, '-o', pre + '.pch'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True),
            subprocess.Popen(['clang++', '-std=gnu++17', '-O2', '-g1', '-fno-omit-frame-pointer', '-w'] + inc + ['-c', V + '/net/props_net.cpp', '-o', pch_dir + '/props_net.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)]
    imps = [{'skip': 'not used'}] * len(plans); used = [i for i, p in enumerate(plans) if p is not None]
    with multiprocessing.Pool(min(8, max(1, len(used)))) as pool:
        for i, r in zip(used, pool.map(one_import, [(plans[i], '%s/%d' % (tmp, i), repo) for i in used], chunksize=2)): imps[i] = r
    for j in jobs:
        o = j.communicate()[0]
        if j.returncode: raise RuntimeError(o[-3000:])
    open(pch_dir + '/done', 'w').close()
    res = [None] * len(plans); tus = []
    for i, r in enumerate(imps):
        if 'error' in r: res[i] = {'class': r.get('class', 'c16-import'), 'message': r['error'][:900]}
        elif 'skip' in r: res[i] = {'skip': r['skip']}
        else: tus += [(i, t) for t in write_tus(i, '%s/%d' % (tmp, i), programs)]
    procs = []; left = tus[::-1]; objs = []
    def reap(k):
        i, t, p = procs.pop(k); o = p.communicate()[0]
        if p.returncode:
            e = [l for l in o.splitlines() if 'error' in l]
            if res[i] is None or os.path.basename(t) == 'net.cpp': res[i] = {'class': 'c16-compile', 'units': (res[i] or {'units': []})['units'], 'message': 'the generated code does not compile: ' + re.sub(r'\S*/nets/\d+/', '', ' | '.join(e[:2]))[:900]}
            res[i]['units'].append(os.path.basename(t))
        else: objs.append((i, t + '.o'))
    while left or procs:
        while left and len(procs) < 8:
            i, t = left.pop(); procs.append((i, t, subprocess.Popen(['clang++'] + FLAGS + inc + ['-include-pch', pre + '.pch', '-c', t, '-o', t + '.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        done = [k for k, x in enumerate(procs) if x[2].poll() is not None]
        if done: reap(done[0])
        else:
            time.sleep(.005)
    with open(out + '/spec.bin', 'wb') as f:
        f.write(struct.pack('<i', len(plans)))
        for i, p in enumerate(plans):
            ok = res[i] is None; f.write(struct.pack('<i', ok))
            if not ok: continue
            sp = imps[i]['spec']; w = open('%s/%d/generated_code/net/network.weights.bin' % (tmp, i), 'rb').read(); refs = REAL[p['real']][1] if 'real' in p else []
            f.write(struct.pack('<ii', len(sp), len(w)) + sp + w + struct.pack('<i', len(refs)))
            for a, b in refs:
                for q in (a, b): q = open(os.path.join(repo, q), 'rb').read(); f.write(struct.pack('<i', len(q)) + q)
    objs = [o for i, o in objs if res[i] is None]
    if not objs: return None, res
    open(out + '/objs', 'w').write('\n'.join(objs))
    import glob
    wraps = re.search(r'WRAPS="([^"]*)"', open(V + '/sim/build.sh').read()).group(1).split()
    h = [o for o in sorted(glob.glob(base + '/h/*.o')) if not os.path.basename(o).startswith('props_')]
    p = run(['clang++', '-fsanitize=address', '-static-libstdc++', '-static-libgcc'] + sorted(glob.glob(base + '/repo/*.o')) + h + [pch_dir + '/props_net.o', '@' + out + '/objs'] + ['-Wl,--wrap=' + w for w in wraps] + ['-l:libjpeg.a', '-lpthread', '-lm', '-o', out + '/netrun'])
    if p.returncode: raise RuntimeError(p.stdout[-3000:])
    return out + '/netrun', res

if __name__ == '__main__':     # nets.py OUT BASE REPO PLANS.json PROGRAMS
    o, b, r, pl, pr = sys.argv[1:6]
    exe, res = build(json.load(open(pl)), r, b, o, pr == '1')
    json.dump({'exe': exe, 'res': res}, open(o + '/result.json', 'w'))
