"""Runs /repo/onnx_import's main program in this process: stand-ins for onnx and jinja2, fresh modules per run."""
import contextlib, io, os, sys, types
HERE = os.path.dirname(os.path.abspath(__file__)); STUBS = os.path.join(HERE, 'stubs')
if STUBS not in sys.path: sys.path.insert(0, STUBS)
import numpy as np
if 'float' not in np.__dict__: np.float = float
if 'int' not in np.__dict__: np.int = int
import onnx, jinja2

def fresh(repo, sub='onnx_import'):
    """forget the repository's modules so that the next import executes them again"""
    root = os.path.join(repo, sub) + os.sep
    for k, m in list(sys.modules.items()):
        f = getattr(m, '__file__', None)
        if f and os.path.abspath(f).startswith(root): del sys.modules[k]

def run_script(repo, sub, name, reuse=False):
    """execute the script as the main program"""
    d = os.path.join(repo, sub); f = os.path.join(d, name + '.py')
    if not reuse: fresh(repo, sub)
    if d not in sys.path: sys.path.insert(1, d)
    with io.open_code(f) as h: code = compile(h.read(), f, 'exec')
    m = types.ModuleType('__main__'); m.__file__ = f; m.__builtins__ = __builtins__; old = sys.modules.get('__main__'); sys.modules['__main__'] = m
    try: exec(code, m.__dict__)
    finally: sys.modules['__main__'] = old

def run_main(repo, sub, name, argv, cwd=None, reuse=False):
    """-> (status, text): status 0 = it came to its end (or exit(0)), n = exit(n), str = exception"""
    sys.dont_write_bytecode = True
    o = io.StringIO(); old = sys.argv, os.getcwd() if cwd else None
    sys.argv = [os.path.join(repo, sub, name + '.py')] + argv
    try:
        if cwd: os.chdir(cwd)
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
            try: run_script(repo, sub, name, reuse); st = 0
            except SystemExit as e: st = 0 if e.code is None else int(e.code) & 255 if isinstance(e.code, int) else 1
            except KeyboardInterrupt: st = 'KeyboardInterrupt'
            except Exception as e: st = '%s: %s' % (type(e).__name__, e)
    finally:
        sys.argv = old[0]
        if cwd: os.chdir(old[1])
    return st, o.getvalue()

def convert(repo, onnx_path, cwd, reuse=False): return run_main(repo, 'onnx_import', 'onnx_to_pico_cnn', ['--input', onnx_path], cwd, reuse)
