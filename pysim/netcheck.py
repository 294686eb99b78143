"""C16, C18, C19, C20, C23: batches of generated networks, driven by the simulator.
netcheck.py check PROP TIER SEED REPO BASE CACHE REPLAYS MAXSEC OUT | netcheck.py replay FILE REPO BASE"""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from pysim import gen, nets, imp

REALS = [{'real': 'lenet'}, {'real': 'perceptron'}]
PROGRAMS = {'C23': False, 'C16': False, 'C18': True, 'C19': True, 'C20': False}

def plans_for(prop, tier, seed, batch):
    r = random.Random('%s/%d/%d' % (prop if prop != 'C19' else 'C18', seed, batch)); t = tier == 'thorough'; d = gen.directed()
    rnd = lambda n: [gen.gen_plan(r.randrange(1 << 40), int(t)) for _ in range(n)]
    wide = lambda n: [gen.wide_plan(r.randrange(1 << 40), int(t)) for _ in range(n)]
    if prop == 'C23': return (gen.directed_odd() if batch == 0 else []) + [gen.odd_plan(r.randrange(1 << 40), int(t)) for _ in range(300 if batch == 0 and not t else 600)]
    if prop == 'C16': return (d if batch == 0 else d[(seed + batch) % 2::2]) + REALS + wide(120 if t else 90) + rnd(150 if t else 80)
    if prop == 'C20': return REALS + d[batch % 4::4] + wide(15 if t else 10) + rnd(50 if t else 30)
    return d[batch % 9::12] + REALS + wide(4 if t else 2) + rnd(30 if t else 11)

def simulate(exe, spec, prop, args, tmp):
    e = dict(os.environ, NETSPEC=spec)
    return subprocess.run([exe, '--tmp', tmp] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')

def result(exe, out, plan_text, prop, tmp, verbose=False):
    f = tmp + '/one.plan'; open(f, 'w').write(plan_text)
    p = simulate(exe, out + '/spec.bin', prop, ['--replay', f] + (['--verbose', '1'] if verbose else []), tmp)
    m = re.search(r'^RESULT class=(\S+) hash=(\S+) events=(\d+) msg=(.*)$', p.stdout, re.M | re.S)
    return (m.group(1), m.group(2), m.group(4).strip()) if m else ('no-result', '', (p.stdout + p.stderr)[-500:]), p.stdout

def candidates(plan):
    """smaller models"""
    st = plan['steps']; n = len(st); k = max(1, n // 2); seen = set()
    while True:
        for i in range(0, n, k):
            c = st[:i] + st[i + k:]; key = json.dumps(c)
            if key not in seen: seen.add(key); yield dict(plan, steps=c)
        if k == 1: break
        k //= 2
    for i, d in enumerate(plan['in']):
        if i and d > 1:
            for v in {1, d // 2, d - 1}: yield dict(plan, **{'in': plan['in'][:i] + [v] + plan['in'][i + 1:]})
    if plan['style'] > 1: yield dict(plan, style=0); yield dict(plan, style=1)

def shrink(plan, ok, until):
    if 'real' in plan: return plan
    again = True
    while again and time.time() < until:
        again = False
        for c in candidates(plan):
            if time.time() > until: break
            if ok(c): plan = c; again = True; break
    return plan

def build_problem(prop, r):
    if not r or 'class' not in r: return False
    u = r.get('units', [])
    if prop == 'C23': return r['class'].startswith('c23') or r['class'] == 'c16-compile'
    return prop == 'C16' or ('net.cpp' not in u and {'C18': 'dummy.cpp', 'C19': 'reference.cpp'}.get(prop) in u)

def write_replay(replays, prop, cls, msg, n, models, text, seed, note):
    o = {'property': prop, 'class': cls, 'message': msg, 'positions': n, 'models': {str(k): v for k, v in models.items()}, 'plan': text, 'seed': seed, 'note': note, 'replay': './check --replay <this file>'}
    s = json.dumps(o, indent=1); f = '%s/%s-%s.json' % (replays, prop, hashlib.sha256(s.encode()).hexdigest()[:16]); open(f, 'w').write(s); return f

def replay(o, repo, base, tmp, pch=None):
    """-> (class, message)"""
    prop = o['property']; plans = [o['models'].get(str(i)) for i in range(o['positions'])]
    if not o['plan'] and o['models'] == {'0': {'make': 1}}: m = make_check(repo, tmp); return ('c16-makefile', m) if m else ('none', '')
    exe, res = nets.build(plans, repo, base, tmp, PROGRAMS[prop], pch)
    for r in res:
        if build_problem(prop, r): return r['class'], r['message']
    if not o['plan']: return 'none', ''
    if not exe: return 'no-result', json.dumps([r for r in res if r and r != {'skip': 'not used'}])[:600]
    (c, h, m), _ = result(exe, tmp, o['plan'], prop, tmp); return c, m

def make_check(repo, tmp):
    """the generated Makefile and code with the repository's own build, outside the simulator (lenet) -> None or what failed"""
    d = tmp + '/make'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/onnx_import')
    try:
        shutil.copytree(repo + '/pico-cnn', d + '/pico-cnn', ignore=shutil.ignore_patterns('*.o', '*.a'))
        r = nets.one_import(({'real': 'lenet'}, d + '/w', repo))
        if 'spec' not in r: return r.get('error')
        shutil.copytree(d + '/w/generated_code', d + '/onnx_import/generated_code')
        g = d + '/onnx_import/generated_code/net'; mk = open(g + '/Makefile').read()
        if 'march=native' in mk: open(g + '/Makefile', 'w').write(mk.replace('-O2', '-O0'))     # speed
        p = nets.run(['make', '-j8', '-C', g], env=dict(os.environ, MAKEFLAGS=''), timeout=300)
        if p.returncode: return 'the generated Makefile does not build: ' + ' | '.join(p.stdout.strip().splitlines()[-4:])[:700]
    finally: shutil.rmtree(d, ignore_errors=True)

def used_nets(exe, out, text, prop, tmp):
    (c, h, m), so = result(exe, out, text, prop, tmp, True)
    return sorted(set(int(x) for x in re.findall(r'^NET (\d+)$', so, re.M)))

def check(prop, tier, seed, repo, base, cache, replays, maxsec, outf):
    t0 = time.time(); tmp = tempfile.mkdtemp(prefix='net'); tot = {}; viol = []; batch = 0; models = 0; ops = {}; skipped = []
    try:
        while True:
            plans = plans_for(prop, tier, seed, batch); d = cache if batch == 0 else tmp + '/b'
            os.makedirs(d, exist_ok=True)
            if not os.path.exists(d + '/res.json'):
                exe, res = nets.build(plans, repo, base, d, PROGRAMS[prop], None if batch == 0 else cache); json.dump([exe, res], open(d + '/res.json', 'w')); shutil.rmtree(d + '/nets', ignore_errors=True)
            exe, res = json.load(open(d + '/res.json')); exe = exe and d + '/netrun'
            built = [i for i, r in enumerate(res) if r is None]; models += len(built); skipped += [r.get('skip') or r['class'] for r in res if r]
            for i in built:
                for q in [s[0] for s in plans[i].get('steps', [])] or ['real model']: ops[q] = ops.get(q, 0) + 1
            bad = [i for i, r in enumerate(res) if build_problem(prop, r)]
            if bad: viol.append(found_build(prop, plans[bad[0]], res[bad[0]], repo, base, cache, tmp, replays, seed)); break
            if not exe: raise RuntimeError('no model could be imported and compiled: %s' % [r for r in res if r][:2])
            if prop == 'C16' and batch == 0:
                m = make_check(repo, tmp)
                if m: viol.append({'class': 'c16-makefile', 'message': m, 'replay': write_replay(replays, prop, 'c16-makefile', m, 1, {0: {'make': 1}}, '', seed, '')}); break
            left = maxsec - (time.time() - t0)
            if batch and left < 60: break
            runs = ['--runs', str({'C23': 15000, 'C16': 40000, 'C20': 60000, 'C18': 30000, 'C19': 30000}[prop])] if batch or tier == 'quick' else []
            if tier == 'thorough': runs = ['--runs', '120000']
            p = simulate(exe, d + '/spec.bin', prop, ['--prop', prop, '--tier', tier, '--seed', str(seed + 1000003 * batch), '--workers', '8', '--out', tmp + '/o.json', '--replay-dir', tmp, '--max-sec', str(int(max(30, min(left, 120 if tier == 'quick' else 300))))] + runs, tmp)
            if p.returncode not in (0, 1): raise RuntimeError(p.stdout[-2000:] + p.stderr[-4000:])
            o = json.load(open(tmp + '/o.json'))
            for k in ('evaluations', 'distinct_nontrivial', 'distinct_executions', 'events', 'determinism_rechecked_runs', 'simulated_seconds', 'wall_s'): tot[k] = tot.get(k, 0) + o[k]
            c = tot.setdefault('counters', {})
            for k, v in o['counters'].items(): c[k] = c.get(k, 0) + v
            for k in ('rule', 'samples', 'real_components', 'stubbed_components', 'code_edges_reached', 'code_edges_total'): tot.setdefault(k, o[k])
            if p.returncode == 1: viol.append(found(prop, o, plans, exe, d, repo, base, cache, tmp, replays, seed)); break
            batch += 1
            if batch > 1: shutil.rmtree(tmp + '/b', ignore_errors=True)
            if tier == 'quick' or time.time() - t0 > maxsec - 150: break
    finally: shutil.rmtree(tmp, ignore_errors=True)
    tot.setdefault('evaluations', models); tot.setdefault('distinct_nontrivial', models); tot.setdefault('rule', 'models imported and compiled'); tot.setdefault('samples', [json.dumps(plans[0])])
    tot['models'] = models; tot['batches'] = batch; tot['models_not_used'] = len(skipped); tot['model_steps'] = ops; tot['sample_models'] = [json.dumps(p) for p in plans[-2:]]
    json.dump({'coverage': tot, 'violations': viol}, open(outf, 'w'))

def found_build(prop, plan, r, repo, base, cache, tmp, replays, seed):
    d = tmp + '/m'; os.makedirs(d, exist_ok=True)
    def ok(p):
        e, q = nets.build([p], repo, base, d, PROGRAMS[prop], cache); return build_problem(prop, q[0]) and q[0]['class'] == r['class']
    if not ok(plan): raise RuntimeError('import or compilation failure did not repeat: %s' % r)
    m = shrink(plan, ok, time.time() + 60); e, q = nets.build([m], repo, base, d, PROGRAMS[prop], cache); r = q[0]
    if prop in ('C18', 'C19'): r = dict(r, message='the generated program does not compile: ' + r['message'])
    return {'class': r['class'], 'message': r['message'], 'replay': write_replay(replays, prop, r['class'], r['message'], 1, {0: m}, '', seed, '')}

def found(prop, o, plans, exe, d, repo, base, cache, tmp, replays, seed):
    text = ''.join(l for l in open(o['violation']).read().splitlines(True) if not l.startswith('#')); cls = o['violation_class']; m = tmp + '/m'; os.makedirs(m, exist_ok=True)
    used = used_nets(exe, d, text, prop, tmp) or list(range(len(plans))); cur = {i: plans[i] for i in used}; until = time.time() + 60; n0 = sum(len(p.get('steps', [])) for p in cur.values())
    def run(models):
        q, res = nets.build([models.get(i) for i in range(len(plans))], repo, base, m, PROGRAMS[prop], cache)
        if not q or any(res[i] for i in models): return ('no-result', '', str([r for r in res if r][:1]))
        return result(q, m, text, prop, tmp)[0]
    first = run(cur)
    if first[0] != cls: raise RuntimeError('violation %s (%s) was not reproduced by a fresh import and build: %s' % (cls, o['violation_msg'], first))
    for i in used:
        if len(used) <= 6: cur[i] = shrink(cur[i], lambda c: run(dict(cur, **{}) | {i: c})[0] == cls, until)
    a = run(cur); b = run(cur)
    if a != b or a[0] != cls: raise RuntimeError('fresh replays differ: %s %s' % (a, b))
    note = 'model steps %d minimised to %d; %d events of the plan' % (n0, sum(len(p.get('steps', [])) for p in cur.values()), text.count('\n'))
    return {'class': cls, 'message': a[2], 'replay': write_replay(replays, prop, cls, a[2], len(plans), cur, text, seed, note)}

if __name__ == '__main__':
    if sys.argv[1] == 'check': p, t, s, r, b, c, rd, ms, o = sys.argv[2:]; check(p, t, int(s), r, b, c, rd, float(ms), o)
    else:
        tmp = tempfile.mkdtemp(prefix='net')
        try: print('RESULT class=%s msg=%s' % replay(json.load(open(sys.argv[2])), sys.argv[3], sys.argv[4], tmp))
        finally: shutil.rmtree(tmp, ignore_errors=True)
