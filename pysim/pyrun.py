"""Runner of the Python simulator: seeded batches over worker processes, repetition of a sample, minimisation, replay files.
pyrun.py check PROP TIER SEED REPO EXE REPLAYS MAXSEC OUT | worker ... | one REPO EXE <plan >result | clean REPO | replay FILE REPO EXE"""
import hashlib, json, os, random, subprocess, sys, tempfile, time, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from pysim import pyprops as P, vfs, gen
ME = os.path.abspath(__file__)

def make_plan(prop, tier, seed, idx, ctx, directed):
    if idx < len(directed): return directed[idx]
    r = random.Random('%s/%d/%d' % (prop, seed, idx)); p = P.PROPS[prop]['gen'](r, int(tier == 'thorough'), ctx); return p
def run(prop, plan, ctx):
    """-> (class, message, hash, nontrivial)"""
    n0 = dict(ctx.counts)
    try: log = P.PROPS[prop]['exec'](plan, ctx); cls = msg = ''
    except P.Violated as v: cls, msg, log = v.cls, v.msg, []
    except P.Skip as e: cls = msg = ''; log = [('skip', str(e))]; ctx.count('skipped')
    nt = any(k.startswith('fault.') and v > n0.get(k, 0) for k, v in ctx.counts.items()) or prop == 'C17'
    return cls, msg, hashlib.sha256(json.dumps(log, default=str).encode()).hexdigest()[:16], nt

def worker(prop, tier, seed, repo, exe, w, W, N, until, out, stop, extra):
    ctx = P.Ctx(repo, exe); x = json.load(open(extra)); ctx.clean = x.get('clean', {}); ctx.pool = x.get('pool'); d = x['directed']; o = {'runs': 0, 'nontrivial': [], 'hashes': [], 'rechecked': 0, 'violation': None, 'samples': [], 'error': None, 'ops': 0}
    try:
        for idx in range(int(x.get('from', 0)) + w, N, W):
            if time.time() > until or os.path.exists(stop): break
            plan = make_plan(prop, tier, seed, idx, ctx, d); cls, msg, h, nt = run(prop, plan, ctx); o['runs'] += 1; o['hashes'].append(h)
            if nt: o['nontrivial'].append(h)
            if len(o['samples']) < 1 and idx >= len(d): o['samples'].append(json.dumps(plan))
            if cls:
                c2 = run(prop, plan, ctx)
                if (c2[0], c2[1]) != (cls, msg): o['error'] = 'run %d did not repeat: %s %s' % (idx, (cls, msg), c2); break
                o['violation'] = [idx, cls, msg, plan]; open(stop, 'w').close(); break
            if o['runs'] % 40 == 7:
                o['rechecked'] += 1
                if run(prop, plan, ctx)[2] != h: o['error'] = 'run %d is not deterministic' % idx; open(stop, 'w').close(); break
    except BaseException: o['error'] = traceback.format_exc(); open(stop, 'w').close()
    finally: ctx.close()
    o['counts'] = ctx.counts; json.dump(o, open(out, 'w'))

def one(prop, plan, repo, exe, timeout=300):
    e = dict(os.environ, PYTHONHASHSEED=str(plan.get('hashseed', 0)))
    p = subprocess.run([sys.executable, ME, 'one', prop, repo, exe], input=json.dumps(plan), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if p.returncode: raise RuntimeError(p.stderr[-3000:])
    return json.loads(p.stdout)

def smaller(plan):
    """candidates for a smaller plan: drop or simplify parts, wherever they are"""
    def at(path, v):
        q = json.loads(json.dumps(plan)); t = q
        for k in path[:-1]: t = t[k]
        if v is None: del t[path[-1]]
        else: t[path[-1]] = v
        return q
    def walk(x, path):
        if isinstance(x, list):
            if path and path[-1] in ('steps', 'before', 'dirty', 'faults', 'models', 'input', 'output', 'sets', 'changes', 'files', 'ask', 'tensors', 'ins', 'outs'):
                for i in range(len(x)):
                    if len(x) > (path[-1] in ('models', 'input', 'output', 'sets', 'tensors', 'ins', 'outs') or (path[-1] == 'steps' and len(path) == 1)): yield at(path + [i], None)
            for i, y in enumerate(x): yield from walk(y, path + [i])
        elif isinstance(x, dict):
            for k in x: yield from walk(x[k], path + [k])
        elif isinstance(x, bool): pass
        elif isinstance(x, (int, float)) and path[-1] not in ('hashseed',):
            for v in (0, 1, int(x) // 2, int(x) - 1):
                if 0 <= v < x and not ('in' in path and v == 0): yield at(path, v)
    yield from walk(plan, [])

def minimise(prop, plan, cls, repo, exe, sec):
    ctx = None; tries = 0; until = time.time() + sec; fresh = prop == 'C17'
    if not fresh: ctx = P.Ctx(repo, exe); ctx.clean = {}
    def ok(p):
        try: return (one(prop, p, repo, exe)['class'] if fresh else run(prop, p, ctx)[0]) == cls
        except Exception: return False
    again = True
    while again and time.time() < until:
        again = False
        for c in smaller(plan):
            if time.time() > until: break
            tries += 1
            if ok(c): plan = c; again = True; break
    if ctx: ctx.close()
    return plan, tries

def check(prop, tier, seed, repo, exe, replays, maxsec, outf):
    t0 = time.time(); pr = P.PROPS[prop]; N = pr['thorough' if tier == 'thorough' else 'quick']; tmp = tempfile.mkdtemp(prefix='pyrun'); W = 8; ctx = P.Ctx(repo, exe); ctx.clean = {}
    x = {'directed': [], 'clean': {}, 'pool': None}
    try:
        try:
            if pr['directed']: x['directed'] = pr['directed'](int(tier == 'thorough'), ctx)
        except (P.Violated, P.Skip): pass        # the seeded runs meet it too
        if prop == 'C17':
            x['pool'] = P.pool_c17(seed, int(tier == 'thorough')); chunks = [x['pool'][i::W] for i in range(W)]
            ps = [subprocess.Popen([sys.executable, ME, 'clean', repo], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED='0'), text=True) for c in chunks]
            import threading
            rs = [None] * W
            def go(i): rs[i] = ps[i].communicate(json.dumps(chunks[i]))[0]
            ts = [threading.Thread(target=go, args=(i,)) for i in range(W)]; [t.start() for t in ts]; [t.join() for t in ts]
            for c, r in zip(chunks, rs):
                for p, o in zip(c, json.loads(r)): x['clean'][json.dumps(p)] = o
        N = max(N, len(x['directed'])) if prop != 'C17' else N; until = t0 + maxsec; stop = tmp + '/stop'; outs = []; rounds = 0
        groups = [(0, N, None)] if prop != 'C17' else [(i * (N // (12 if tier == 'quick' else 120)), (i + 1) * (N // (12 if tier == 'quick' else 120)), i) for i in range(12 if tier == 'quick' else 120)]
        for lo, hi, g in groups:
            if os.path.exists(stop) or time.time() > until: break
            x['from'] = lo; json.dump(x, open(tmp + '/x.json', 'w')); ps = []
            for w in range(W):
                hs = 0 if g is None else [0, 1, 4294967295][g * W + w] if g * W + w < 3 else (random.Random('%d/%d/%d' % (seed, g, w)).randrange(1 << 32)); o = '%s/o%d.json' % (tmp, rounds); rounds += 1; outs.append((o, hs))
                ps.append(subprocess.Popen([sys.executable, ME, 'worker', prop, tier, str(seed), repo, exe, str(w), str(W), str(hi), str(until), o, stop, tmp + '/x.json'], env=dict(os.environ, PYTHONHASHSEED=str(hs)), stdout=subprocess.DEVNULL))
            for p in ps: p.wait()
        tot = {'evaluations': 0, 'determinism_rechecked_runs': 0, 'counters': {}, 'samples': []}; hs = set(); nt = set(); viol = []; err = None; hseeds = set()
        for o, h in outs:
            if not os.path.exists(o): raise RuntimeError('a worker ended without a result')
            r = json.load(open(o)); tot['evaluations'] += r['runs']; tot['determinism_rechecked_runs'] += r['rechecked']; hs |= set(r['hashes']); nt |= set(r['nontrivial']) if prop != 'C17' else set('%s/%d' % (q, h) for q in r['nontrivial']); hseeds.add(h)
            for k, v in r['counts'].items(): tot['counters'][k] = tot['counters'].get(k, 0) + v
            if len(tot['samples']) < 3: tot['samples'] += r['samples']
            err = err or r['error']
            if r['violation']: viol.append(r['violation'] + [h])
        if err and not viol: raise RuntimeError(err)
        tot['wall_s'] = time.time() - t0; vs = []
        if viol:
            v = min(viol, key=lambda v: v[0]); idx, cls, msg, plan, h = v
            plan = dict(plan); n0 = len(json.dumps(plan))
            if h: plan['hashseed'] = h
            a = one(prop, plan, repo, exe)
            if a['class'] != cls: raise RuntimeError('run %d was not reproduced in a fresh process: %s %s, then %s' % (idx, cls, msg, a))
            plan, tries = minimise(prop, plan, cls, repo, exe, 60); a = one(prop, plan, repo, exe); b = one(prop, plan, repo, exe)
            if a != b or a['class'] != cls: raise RuntimeError('fresh replays differ: %s %s' % (a, b))
            s = json.dumps({'property': prop, 'class': a['class'], 'message': a['message'], 'seed': seed, 'run': idx, 'note': 'plan of %d characters minimised to %d in %d tries' % (n0, len(json.dumps(plan)), tries), 'replay': './check --replay <this file>', 'pyplan': plan}, indent=1)
            f = '%s/%s-%s.json' % (replays, prop, hashlib.sha256(s.encode()).hexdigest()[:16]); open(f, 'w').write(s); vs = [{'class': a['class'], 'message': a['message'], 'replay': f}]
        tot.update(distinct_nontrivial=len(nt), distinct_executions=len(hs), rule=pr['rule'], real_components=pr['real'], stubbed_components=pr['stubs'], directed_plans=len(x['directed']))
        if prop == 'C17': tot['hash_seeds'] = len(hseeds); tot['models'] = len(x['pool'])
        json.dump({'coverage': tot, 'violations': vs}, open(outf, 'w'))
    finally:
        ctx.close(); import shutil; shutil.rmtree(tmp, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if a[0] == 'check': check(a[1], a[2], int(a[3]), a[4], a[5], a[6], float(a[7]), a[8])
    elif a[0] == 'worker': worker(a[1], a[2], int(a[3]), a[4], a[5], int(a[6]), int(a[7]), int(a[8]), float(a[9]), a[10], a[11], a[12])
    elif a[0] == 'clean':
        o = []
        for plan in json.loads(sys.stdin.read()):
            ctx = P.Ctx(a[1], None); r = ctx.scratch(); s, w = P.run_import(ctx, r, ctx.model(plan), {}); o.append({'status': s, 'files': P.digest(vfs.tree(r + '/w'))}); ctx.close()
        print(json.dumps(o))
    else:
        f = json.loads(sys.stdin.read()) if a[0] == 'one' else json.load(open(a[1])); prop, plan = (a[1], f) if a[0] == 'one' else (f['property'], f['pyplan'])
        if a[0] == 'replay' and os.environ.get('PYTHONHASHSEED') != str(plan.get('hashseed', 0)): os.execve(sys.executable, [sys.executable, ME] + a, dict(os.environ, PYTHONHASHSEED=str(plan.get('hashseed', 0))))
        ctx = P.Ctx(a[2], a[3]); ctx.clean = {}
        try: cls, msg, h, nt = run(prop, plan, ctx)
        finally: ctx.close()
        if a[0] == 'one': print(json.dumps({'class': cls, 'message': msg, 'hash': h}))
        else: print('RESULT class=%s hash=%s msg=%s' % (cls or 'none', h, msg)); sys.exit(1 if cls else 0)
main()
