"""Stand-in for the Jinja2 package (not installed): the template language the code templates use and a bit more."""
import os, re

class TemplateError(Exception): pass
class TemplateNotFound(TemplateError): pass
class TemplateSyntaxError(TemplateError): pass
class UndefinedError(TemplateError): pass

class Undefined(object):
    def __str__(self): return ''
    def __bool__(self): return False
    def __iter__(self): return iter(())
    def __len__(self): return 0
    def __eq__(self, o): return isinstance(o, Undefined)
    def __ne__(self, o): return not self == o
    __hash__ = None
    def _bad(self, *a): raise UndefinedError('value is undefined')
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        self._bad()
    __getitem__ = __call__ = __add__ = __radd__ = __sub__ = __mul__ = __lt__ = __gt__ = __le__ = __ge__ = __int__ = __float__ = _bad
class StrictUndefined(Undefined): pass

class BaseLoader(object): pass
class FileSystemLoader(BaseLoader):
    def __init__(self, path, encoding='utf-8', **k): self.paths = [path] if isinstance(path, (str, os.PathLike)) else list(path); self.encoding = encoding
    def source(self, name):
        for p in self.paths:
            f = os.path.join(str(p), *name.split('/'))
            if os.path.isfile(f):
                with open(f, encoding=self.encoding) as h: return h.read()
        raise TemplateNotFound(name)
class DictLoader(BaseLoader):
    def __init__(self, m): self.m = m
    def source(self, name):
        if name not in self.m: raise TemplateNotFound(name)
        return self.m[name]

def _default(v, d='', boolean=False): return d if isinstance(v, Undefined) or (boolean and not v) else v
FILTERS = {'default': _default, 'd': _default, 'join': lambda v, s='': s.join(str(x) for x in v), 'length': len, 'count': len, 'upper': lambda s: str(s).upper(), 'lower': lambda s: str(s).lower(), 'trim': lambda s: str(s).strip(),
           'replace': lambda s, a, b: str(s).replace(a, b), 'int': lambda v, d=0: int(v), 'float': lambda v, d=0.0: float(v), 'string': str, 'list': list, 'abs': abs, 'round': lambda v, p=0: round(v, p), 'first': lambda v: next(iter(v)), 'last': lambda v: list(v)[-1], 'sum': sum, 'max': max, 'min': min, 'sort': sorted, 'reverse': lambda v: list(v)[::-1], 'safe': lambda v: v, 'format': lambda f, *a: f % a, 'map': lambda v, f=None, *a, **k: [(_get(x, k['attribute']) if 'attribute' in k else FILTERS[f](x, *a)) for x in v], 'select': lambda v, t=None, *a: [x for x in v if (TESTS[t](x, *a) if t else x)], 'reject': lambda v, t=None, *a: [x for x in v if not (TESTS[t](x, *a) if t else x)], 'indent': lambda s, w=4, first=False: ('\n' + ' ' * w).join(str(s).split('\n')) if not first else ' ' * w + ('\n' + ' ' * w).join(str(s).split('\n')), 'unique': lambda v: list(dict.fromkeys(v)), 'items': lambda d: list(d.items()), 'tojson': lambda v: __import__('json').dumps(v), 'capitalize': lambda s: str(s).capitalize(), 'title': lambda s: str(s).title()}

class _Namespace(object):
    def __init__(self, **k): self.__dict__.update(k)
_GLOBALS = {'range': range, 'dict': dict, 'namespace': _Namespace}
class _Scope(dict):
    def __missing__(self, k):
        if k in ('true', 'false', 'none', 'True', 'False', 'None'): return {'t': True, 'f': False, 'n': None}[k[0].lower()]
        if k in _GLOBALS: return _GLOBALS[k]
        return Undefined()

def _get(o, k):
    if isinstance(o, Undefined): o._bad()
    try: return getattr(o, k)
    except AttributeError:
        try: return o[k]
        except (KeyError, TypeError, IndexError): return Undefined()

TESTS = {'defined': lambda v: not isinstance(v, Undefined), 'undefined': lambda v: isinstance(v, Undefined), 'none': lambda v: v is None, 'string': lambda v: isinstance(v, str), 'number': lambda v: isinstance(v, (int, float)), 'integer': lambda v: isinstance(v, int) and not isinstance(v, bool), 'float': lambda v: isinstance(v, float),
         'boolean': lambda v: isinstance(v, bool), 'true': lambda v: v is True, 'false': lambda v: v is False, 'mapping': lambda v: isinstance(v, dict), 'sequence': lambda v: hasattr(v, '__len__') and hasattr(v, '__getitem__'), 'iterable': lambda v: hasattr(v, '__iter__'), 'odd': lambda v: v % 2 == 1, 'even': lambda v: v % 2 == 0, 'divisibleby': lambda v, n: v % n == 0,
         'equalto': lambda a, b: a == b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b, 'in': lambda a, b: a in b, 'sameas': lambda a, b: a is b, 'callable': callable, 'lower': lambda v: str(v).islower(), 'upper': lambda v: str(v).isupper()}

# expressions, with Jinja's precedence
_TOK = re.compile(r'\s*(?:(\d+\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+|\d+)|([A-Za-z_]\w*)|("(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\')|(//|\*\*|==|!=|<=|>=|[-+*/%~|.,:()\[\]{}<>=]))')
def _lex(e):
    out = []; i = 0; e = e.rstrip()
    while i < len(e):
        m = _TOK.match(e, i)
        if not m: raise TemplateSyntaxError('unexpected char in %r' % e)
        if m.group(1):
            t = m.group(1)
            if out and out[-1] == ('o', '.') and '.' in t: t = t.split('.')[0]; out.append(('n', t)); i = m.start(1) + len(t); continue
            out.append(('n', t))
        elif m.group(2): out.append(('i', m.group(2)))
        elif m.group(3): out.append(('s', m.group(3)))
        else: out.append(('o', m.group(4)))
        i = m.end()
    return out

class _P(object):
    """parser to closures of the scope"""
    def __init__(self, e): self.e = e; self.t = _lex(e); self.i = 0
    def peek(self, *vals): return self.i < len(self.t) and self.t[self.i][0] in 'oi' and self.t[self.i][1] in vals
    def take(self, *vals):
        if self.peek(*vals): self.i += 1; return self.t[self.i - 1][1]
    def need(self, v):
        if not self.take(v): raise TemplateSyntaxError('expected %r in %r' % (v, self.e))
    def whole(self, tuple_ok=True):
        r = self.tup() if tuple_ok else self.cond()
        if self.i != len(self.t): raise TemplateSyntaxError('unexpected %r in %r' % (self.t[self.i][1], self.e))
        return r
    def tup(self):
        a = [self.cond()]
        if not self.peek(','): return a[0]
        while self.take(','):
            if self.i < len(self.t) and not self.peek(')', ']'): a.append(self.cond())
        return lambda sc: tuple(x(sc) for x in a)
    def cond(self):
        a = self.or_()
        while self.take('if'):
            c = self.or_(); b = self.cond() if self.take('else') else None
            a = (lambda a, c, b: lambda sc: a(sc) if c(sc) else b(sc) if b else Undefined())(a, c, b)
        return a
    def or_(self):
        a = self.and_()
        while self.take('or'): a = (lambda a, b: lambda sc: a(sc) or b(sc))(a, self.and_())
        return a
    def and_(self):
        a = self.not_()
        while self.take('and'): a = (lambda a, b: lambda sc: a(sc) and b(sc))(a, self.not_())
        return a
    def not_(self):
        if self.take('not'): a = self.not_(); return lambda sc: not a(sc)
        return self.cmp()
    def cmp(self):
        a = self.add(); ops = []
        while True:
            o = self.take('==', '!=', '<', '<=', '>', '>=', 'in')
            if not o and self.peek('not') and self.i + 1 < len(self.t) and self.t[self.i + 1][1] == 'in': self.i += 2; o = 'not in'
            if not o: break
            ops.append((o, self.add()))
        if not ops: return a
        F = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y, 'in': lambda x, y: x in y, 'not in': lambda x, y: x not in y}
        def f(sc):
            x = a(sc)
            for o, b in ops:
                y = b(sc)
                if not F[o](x, y): return False
                x = y
            return True
        return f
    def _bin(self, sub, F):
        a = sub(); 
        while True:
            o = self.take(*F)
            if not o: return a
            a = (lambda a, b, g: lambda sc: g(a(sc), b(sc)))(a, sub(), F[o])
    def add(self): return self._bin(self.cat, {'+': lambda x, y: x + y, '-': lambda x, y: x - y})
    def cat(self): return self._bin(self.mul, {'~': lambda x, y: str(x) + str(y)})
    def mul(self): return self._bin(self.un, {'*': lambda x, y: x * y, '/': lambda x, y: x / y, '//': lambda x, y: x // y, '%': lambda x, y: x % y})
    def un(self, filt=True):
        if self.take('-'): a = self.un(False); r = lambda sc: -a(sc)
        elif self.take('+'): a = self.un(False); r = lambda sc: +a(sc)
        else: r = self.prim()
        r = self.post(r)
        if self.take('**'): b = self.un(); r = (lambda a, b: lambda sc: a(sc) ** b(sc))(r, b)
        return self.filt(r) if filt else r
    def args(self):
        a = []; k = {}
        while not self.take(')'):
            if self.i + 1 < len(self.t) and self.t[self.i][0] == 'i' and self.t[self.i + 1] == ('o', '='): n = self.t[self.i][1]; self.i += 2; k[n] = self.cond()
            else: a.append(self.cond())
            if not self.peek(')'): self.need(',')
        return a, k
    def post(self, r):
        while True:
            if self.take('.'):
                k, n = self.t[self.i]; self.i += 1
                if k == 'n': r = (lambda r, n: lambda sc: _item(r(sc), n))(r, int(n))
                else: r = (lambda r, n: lambda sc: _get(r(sc), n))(r, n)
            elif self.take('['):
                if self.take(':'): lo = None
                else:
                    lo = self.cond()
                    if self.take(']'): r = (lambda r, lo: lambda sc: _item(r(sc), lo(sc)))(r, lo); continue
                    self.need(':')
                hi = None if self.peek(']', ':') else self.cond(); st = None
                if self.take(':'): st = None if self.peek(']') else self.cond()
                self.need(']'); r = (lambda r, p: lambda sc: r(sc)[slice(*(x and x(sc) for x in p))])(r, (lo, hi, st))
            elif self.take('('): a, k = self.args(); r = (lambda r, a, k: lambda sc: r(sc)(*[x(sc) for x in a], **{n: x(sc) for n, x in k.items()}))(r, a, k)
            else: return r
    def filt(self, r):
        while True:
            if self.take('|'):
                n = self.t[self.i][1]; self.i += 1
                if n not in FILTERS: raise TemplateSyntaxError('no filter named %r' % n)
                a, k = self.args() if self.take('(') else ([], {})
                r = self.post((lambda r, n, a, k: lambda sc: FILTERS[n](r(sc), *[x(sc) for x in a], **{q: x(sc) for q, x in k.items()}))(r, n, a, k))
            elif self.take('is'):
                neg = self.take('not'); n = self.t[self.i][1]; self.i += 1
                if n not in TESTS: raise TemplateSyntaxError('no test named %r' % n)
                if self.take('('): a, k = self.args()
                elif self.i < len(self.t) and (self.t[self.i][0] in 'ns' or (self.t[self.i][0] == 'i' and self.t[self.i][1] not in ('and', 'or', 'else', 'if', 'is', 'in', 'not'))) : a = [self.post(self.prim())]
                else: a = []
                r = (lambda r, n, a, neg: lambda sc: bool(TESTS[n](r(sc), *[x(sc) for x in a])) != bool(neg))(r, n, a, neg)
            else: return r
    def prim(self):
        if self.i >= len(self.t): raise TemplateSyntaxError('unexpected end of %r' % self.e)
        k, v = self.t[self.i]; self.i += 1
        if k == 'n': c = float(v) if re.search('[.eE]', v) else int(v); return lambda sc: c
        if k == 's':
            c = eval(v, {'__builtins__': {}}); 
            while self.i < len(self.t) and self.t[self.i][0] == 's': c += eval(self.t[self.i][1], {'__builtins__': {}}); self.i += 1
            return lambda sc: c
        if k == 'i': return lambda sc: sc[v]
        if v == '(':
            if self.take(')'): return lambda sc: ()
            r = self.tup(); self.need(')'); return r
        if v == '[':
            a = []
            while not self.take(']'):
                a.append(self.cond())
                if not self.peek(']'): self.need(',')
            return lambda sc: [x(sc) for x in a]
        if v == '{':
            a = []
            while not self.take('}'):
                q = self.cond(); self.need(':'); a.append((q, self.cond()))
                if not self.peek('}'): self.need(',')
            return lambda sc: {x(sc): y(sc) for x, y in a}
        raise TemplateSyntaxError('unexpected %r in %r' % (v, self.e))

def _item(o, k):
    if isinstance(o, Undefined): o._bad()
    try: return o[k]
    except (KeyError, IndexError, TypeError):
        if isinstance(k, str):
            try: return getattr(o, k)
            except AttributeError: pass
        return Undefined()

_C = {}
def _eval(e, sc):
    if e not in _C: _C[e] = _P(e).whole()
    return _C[e](sc)

def _args(s):
    out = []; d = 0; b = ''
    for ch in s:
        if ch in '([{': d += 1
        elif ch in ')]}': d -= 1
        if ch == ',' and d == 0: out.append(b); b = ''
        else: b += ch
    return [x for x in out + [b] if x.strip()]

def _parse(src, env):
    if not env.keep_trailing_newline and src.endswith('\n'): src = src[:-1]
    tok = re.split(r'(\{%.*?%\}|\{\{.*?\}\}|\{#.*?#\})', src, flags=re.S); out = []
    strip_next = False; trim_nl = False
    for i, t in enumerate(tok):
        if i % 2 == 0:
            if strip_next: t = t.lstrip()
            elif trim_nl and t.startswith('\n'): t = t[1:]
            n = tok[i + 1] if i + 1 < len(tok) else ''
            if n[2:3] == '-': t = t.rstrip()
            elif env.lstrip_blocks and n[:2] in ('{%', '{#') and n[2:3] != '+': t = re.sub(r'(^|\n)[ \t]+$', r'\1', t) if (t.rstrip(' \t').endswith('\n') or not t.strip()) else t
            strip_next = trim_nl = False
            if t: out.append(('t', t))
        else:
            strip_next = t[-3:-2] == '-'; trim_nl = env.trim_blocks and t[:2] in ('{%', '{#')
            b = t[2:-2].strip('-+').strip() if t[2:3] in '-+' or t[-3:-2] in '-+' else t[2:-2].strip()
            if t[:2] == '{{': out.append(('e', b))
            elif t[:2] == '{%': out.append(('s', b))
    pos = [0]
    def block(ends):
        body = []
        while pos[0] < len(out):
            k, v = out[pos[0]]; pos[0] += 1
            if k != 's': body.append((k, v)); continue
            w = v.split(None, 1)[0]
            if w in ends: return body, v
            if w == 'if':
                br = []; cond = v[2:].strip()
                while True:
                    b, e = block(('elif', 'else', 'endif')); br.append((cond, b))
                    if e.startswith('elif'): cond = e[4:].strip()
                    elif e.startswith('else'): cond = None
                    else: break
                body.append(('if', br))
            elif w == 'for':
                m = re.fullmatch(r'for\s+(.+?)\s+in\s+(.+)', v, re.S)
                if not m: raise TemplateSyntaxError(v)
                b, e = block(('else', 'endfor')); el = []
                if e == 'else': el, e = block(('endfor',))
                body.append(('for', [x.strip() for x in m.group(1).split(',')], m.group(2), b, el))
            elif w == 'set':
                m = re.fullmatch(r'set\s+([\w., ]+?)\s*=\s*(.+)', v, re.S)
                if m: body.append(('set', [x.strip() for x in m.group(1).split(',')], m.group(2)))
                else: b, e = block(('endset',)); body.append(('setb', v[3:].strip(), b))
            elif w == 'include': body.append(('include', v[7:].strip()))
            elif w == 'macro':
                m = re.fullmatch(r'macro\s+(\w+)\s*\((.*)\)', v, re.S); b, e = block(('endmacro',)); ps = []
                for q in _args(m.group(2)): n, _, d = q.partition('='); ps.append((n.strip(), d.strip() or None))
                body.append(('macro', m.group(1), ps, b))
            elif w == 'with':
                b, e = block(('endwith',)); body.append(('with', [q.partition('=')[::2] for q in _args(v[4:])], b))
            elif w in ('filter', 'call', 'block', 'extends', 'import', 'from', 'raw', 'autoescape', 'do'): raise TemplateSyntaxError('%s is not supported by the stand-in' % w)
            else: raise TemplateSyntaxError('Encountered unknown tag %r' % w)
        if ends: raise TemplateSyntaxError('Unexpected end of template')
        return body, None
    return block(())[0]

class _Loop(object): pass

class Template(object):
    def __init__(self, src, env=None): self.env = env or Environment(); self.body = _parse(src, self.env)
    def render(self, *a, **kw):
        d = dict(*a, **kw); sc = _Scope(self.env.globals); sc.update(d); o = []; self._run(self.body, sc, o); return ''.join(o)
    def _macro(self, ps, body, sc):
        def f(*a, **k):
            q = _Scope(sc); r = []
            for i, (n, d) in enumerate(ps): q[n] = a[i] if i < len(a) else k[n] if n in k else _eval(d, sc) if d else Undefined()
            self._run(body, q, r); return ''.join(r)
        return f
    def _run(self, body, sc, o):
        for s in body:
            if s[0] == 't': o.append(s[1])
            elif s[0] == 'e':
                v = _eval(s[1], sc); o.append('' if isinstance(v, Undefined) else str(v))
            elif s[0] == 'if':
                for c, b in s[1]:
                    if c is None or _eval(c, sc): self._run(b, sc, o); break
            elif s[0] == 'for':
                m = re.match(r'(.*\S)\s+if\s+((?:(?!\selse\s).)*)$', s[2], re.S); it = list(_eval(m.group(1) if m else s[2], sc))
                if m:
                    t = []
                    for x in it:
                        q = _Scope(sc); q.update(zip(s[1], [x] if len(s[1]) == 1 else x))
                        if _eval(m.group(2), q): t.append(x)
                    it = t
                for n, x in enumerate(it):
                    q = _Scope(sc); l = _Loop(); l.index = n + 1; l.index0 = n; l.first = n == 0; l.last = n == len(it) - 1; l.length = len(it); l.revindex = len(it) - n; l.revindex0 = len(it) - n - 1; l.previtem = it[n - 1] if n else Undefined(); l.nextitem = it[n + 1] if n + 1 < len(it) else Undefined(); l.cycle = (lambda n: lambda *a: a[n % len(a)])(n); q['loop'] = l
                    if len(s[1]) == 1: q[s[1][0]] = x
                    else:
                        for k, y in zip(s[1], x): q[k] = y
                    self._run(s[3], q, o)
                if not it: self._run(s[4], sc, o)
            elif s[0] == 'set':
                v = _eval(s[2], sc)
                for n, x in zip(s[1], [v] if len(s[1]) == 1 else v):
                    if '.' in n: setattr(sc[n.split('.')[0]], n.split('.')[1], x)
                    else: sc[n] = x
            elif s[0] == 'setb': q = []; self._run(s[2], sc, q); sc[s[1]] = ''.join(q)
            elif s[0] == 'with':
                q = _Scope(sc)
                for n, x in s[1]: q[n.strip()] = _eval(x, sc)
                self._run(s[2], q, o)
            elif s[0] == 'macro': sc[s[1]] = self._macro(s[2], s[3], sc)
            elif s[0] == 'include': self._run(self.env.get_template(_eval(s[1], sc)).body, sc, o)

class Environment(object):
    def __init__(self, loader=None, trim_blocks=False, lstrip_blocks=False, keep_trailing_newline=False, undefined=Undefined, **k):
        self.loader = loader; self.trim_blocks = trim_blocks; self.lstrip_blocks = lstrip_blocks; self.keep_trailing_newline = keep_trailing_newline; self.globals = {}; self.filters = FILTERS; self._c = {}
    def get_template(self, name, *a, **k):
        if name not in self._c: self._c[name] = Template(self.loader.source(name), self)
        return self._c[name]
    def from_string(self, s, *a, **k): return Template(s, self)
def select_autoescape(*a, **k): return False
