"""Reflection server: resolves global names of the code under verification by
importing the real modules of /repo in the repository's own interpreter.

The verifier (other interpreter, never imports /repo) asks over a pipe; answers
are JSON descriptors of the real objects."""
import json, os, subprocess, sys

REPO = os.environ.get('PYDV_REPO', '/repo')
PY = os.environ.get('PYDV_PY', '/opt/venv/bin/python')

SERVER = r'''
import sys, json, importlib, types, enum, os
REPO = %r
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
out = os.fdopen(os.dup(1), 'w'); sys.stdout = sys.stderr
import typing, builtins
def canon(o):
    if o is None: return 'None'
    if o is Ellipsis: return 'Ellipsis'
    m = getattr(o, '__module__', None)
    if isinstance(o, types.ModuleType): return o.__name__
    q = getattr(o, '__qualname__', None) or getattr(o, '__name__', None)
    if isinstance(o, type(typing.Union)) or type(o).__module__ == 'typing':
        n = getattr(o, '_name', None) or getattr(o, '__name__', None)
        if n: return 'typing.' + n
    if m is None and getattr(o, '__objclass__', None) is not None:
        return canon(o.__objclass__) + '.' + o.__name__
    return (m or 'builtins') + '.' + (q or type(o).__name__)
def desc(o, depth=0):
    if o is None or isinstance(o, (bool, int, str)) and not isinstance(o, enum.Enum) and type(o) in (bool, int, str):
        return {'k': 'const', 'v': o}
    if type(o) is float: return {'k': 'const', 'v': o}
    if type(o) is tuple or type(o).__name__ == 'version_info':
        return {'k': 'tuple', 'v': [desc(x, depth+1) for x in o]}
    if isinstance(o, types.ModuleType): return {'k': 'module', 'v': o.__name__}
    if isinstance(o, types.FunctionType):
        f = getattr(o, '__wrapped__', None)
        c = o.__code__
        return {'k': 'func', 'id': canon(o), 'file': c.co_filename, 'line': c.co_firstlineno,
                'name': o.__name__, 'qual': o.__qualname__, 'module': o.__module__, 'wrapped': bool(f)}
    if isinstance(o, type):
        src = None
        m = sys.modules.get(o.__module__)
        return {'k': 'class', 'id': canon(o), 'module': o.__module__, 'qual': o.__qualname__,
                'file': getattr(m, '__file__', None), 'mro': [canon(c) for c in o.__mro__]}
    if type(o) in (dict, set, frozenset, list):
        if depth < 4 and len(o) < 400:
            if type(o) is dict:
                return {'k': 'dict', 'id': hex(id(o)), 'v': [[desc(a, depth+1), desc(b, depth+1)] for a, b in o.items()]}
            xs = list(o)
            if type(o) is not list:
                xs = sorted(xs, key=repr)
            return {'k': type(o).__name__, 'id': hex(id(o)), 'v': [desc(a, depth+1) for a in xs]}
    return {'k': 'ext', 'id': canon(o), 'type': canon(type(o)), 'repr': repr(o)[:200]}
missing = object()
def handle(q):
    mod = importlib.import_module(q['module']) if q['module'] else builtins
    o = mod
    for part in q['path']:
        nxt = getattr(o, part, missing)
        if nxt is missing:
            if o is mod:
                nxt = getattr(builtins, part, missing)
            if nxt is missing: return {'k': 'missing'}
        o = nxt
    if q.get('static') and len(q['path']) > 1:
        pass
    return desc(o)
def handle_eval(q):
    mod = importlib.import_module(q['module']) if q['module'] else builtins
    return {'k': 'const', 'v': eval(q['eval'], dict(vars(mod)))}
for line in sys.stdin:
    q = json.loads(line)
    try:
        r = handle_eval(q) if 'eval' in q else handle(q)
    except Exception as e:
        r = {'k': 'error', 'v': repr(e)}
    out.write(json.dumps(r) + '\n'); out.flush()
'''


class Reflect:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.p = None
        self.cache = {}

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        self.p = subprocess.Popen([PY, '-c', SERVER % self.repo], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env,
                                  cwd='/')

    def ask(self, q):
        key = json.dumps(q, sort_keys=True)
        if key not in self.cache:
            if self.p is None:
                self.start()
            self.p.stdin.write(key + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError('reflection server died on ' + key)
            self.cache[key] = json.loads(line)
        return self.cache[key]

    def resolve(self, module, path):
        return self.ask({'module': module, 'path': list(path)})

    def eval(self, module, expr):
        return self.ask({'module': module, 'eval': expr})

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None
