"""Properties whose checks are driven from Python. Standard library only (the work happens under python3-vt)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time
PY = 'python3-vt'

def _files(*roots):
    out = []
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('__pycache__', '.git', 'generated_code', 'polished_models'))
            out += [os.path.join(d, f) for f in sorted(fs) if not f.endswith(('.o', '.a', '.pyc'))]
    return out

def finish(cov):
    w = max(cov.get('wall_s') or 0, 1e-3); cov['runs_per_hour'] = cov['seeds_per_hour'] = int(cov['evaluations'] / w * 3600); cov.pop('wall_s', None)
    cov['injected_faults'] = {k[6:]: v for k, v in cov.get('counters', {}).items() if k.startswith('fault.')}
    return cov

def nets(prop, tier, seed, R, V, opt, build):
    base = os.path.dirname(build()); h = hashlib.sha256(('%s/%s/%d' % (prop, tier, seed)).encode())
    for f in _files(R + '/pico-cnn', R + '/onnx_import', R + '/data', V + '/sim', V + '/net', V + '/pysim'): h.update(f.encode()); h.update(open(f, 'rb').read())
    cache = '%s/build/n-%s-%s' % (V, prop, h.hexdigest()[:16]); tmp = tempfile.mkdtemp(prefix='netc'); out = tmp + '/out.json'
    with open('%s/build/lock-%s' % (V, prop), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        for d in os.listdir(V + '/build'):
            if d.startswith('n-%s-' % prop) and d != os.path.basename(cache): shutil.rmtree(V + '/build/' + d, ignore_errors=True)
        try:
            ms = opt.get('--max-sec', '200' if tier == 'quick' else '1800')
            p = subprocess.run([PY, V + '/pysim/netcheck.py', 'check', prop, tier, str(seed), R, base, cache, V + '/replays', ms, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONHASHSEED='0'))
            if p.returncode: sys.stderr.write(p.stdout[-5000:]); return None
            o = json.load(open(out))
        finally: shutil.rmtree(tmp, ignore_errors=True)
    o['coverage'] = finish(o['coverage'])
    o['coverage']['interleaving_measure'] = 'distinct_executions = distinct hashes over every event of a run (system calls, faults, scheduling switches, results); model_steps = how often each kind of layer occurred in the imported models'
    return o

def replay_nets(f, R, V, build):
    base = os.path.dirname(build())
    return subprocess.run([PY, V + '/pysim/netcheck.py', 'replay', f, R, base], env=dict(os.environ, PYTHONHASHSEED='0')).returncode

def pyrun(prop, tier, seed, R, V, opt, build):
    exe = build(); tmp = tempfile.mkdtemp(prefix='pyc'); out = tmp + '/out.json'; ms = opt.get('--max-sec', '75' if tier == 'quick' else '1500')
    try:
        p = subprocess.run([PY, V + '/pysim/pyrun.py', 'check', prop, tier, str(seed), R, exe, V + '/replays', ms, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONHASHSEED='0'))
        if p.returncode: sys.stderr.write(p.stdout[-5000:]); return None
        o = json.load(open(out))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    o['coverage'] = finish(o['coverage']); o['coverage']['interleaving_measure'] = 'distinct_executions = distinct hashes over the file operations, faults and results of a run'
    o['coverage']['simulated_time'] = 'the simulated programs do not wait; their clock only differs between runs'
    return o

def replay_py(f, R, V, build): return subprocess.run([PY, V + '/pysim/pyrun.py', 'replay', f, R, build()]).returncode

PROPS = {'C16': nets, 'C23': nets, 'C18': nets, 'C19': nets, 'C20': nets, 'C15': pyrun, 'C17': pyrun, 'C21': pyrun, 'C24': pyrun, 'C25': pyrun, 'C26': pyrun, 'C27': pyrun}
REPLAY = {'C16': replay_nets, 'C23': replay_nets, 'C18': replay_nets, 'C19': replay_nets, 'C20': replay_nets, 'C15': replay_py, 'C17': replay_py, 'C21': replay_py, 'C24': replay_py, 'C25': replay_py, 'C26': replay_py, 'C27': replay_py}
