"""Loading of functions: code under verification and executable specifications."""
import ast, os
from .engine import *
from .interp import Exec


class Spec:
    """A specification module: Python functions that are interpreted symbolically by the
    verifier and executed by CPython in the search for failing inputs."""
    def __init__(self, I, path, env):
        self.I, self.env = I, env
        self.module = 'spec:' + os.path.basename(path)
        self.tree = load_ast(path)
        self.fns = {}
        for nd in self.tree.body:
            if isinstance(nd, ast.FunctionDef):
                f = Fn(nd, self.module, None, nd.name, spec=True)
                f.static_defaults = True
                self.fns[nd.name] = f
            elif isinstance(nd, ast.Assign) and isinstance(nd.targets[0], ast.Name) and isinstance(nd.value, ast.Constant):
                self.env.setdefault(nd.targets[0].id, nd.value.value)
        I.global_hooks.append(self.hook)

    def hook(self, I, module, name):
        if module != self.module: return NotImplemented
        if name in self.env: return self.env[name]
        if name in self.fns: return self.fns[name]
        d = I.reflect.resolve(None, [name])
        if d['k'] == 'missing': raise Unsupported('name in specification: ' + name)
        return I.from_desc(d, name)

    def call(self, name, *args): return self.I.call_fn(self.fns[name], list(args), {})


def model(f):
    """Wraps a python function (I, *args) as a callable value."""
    return Model(lambda I, args, kwargs: f(I, *args, **kwargs), getattr(f, '__name__', ''))


def repo_fn(I, module, path):
    """Function object of the code under verification, or None."""
    d = I.reflect.resolve(module, path)
    if d['k'] != 'func': return None
    f = I.func_from_desc(d)
    return f if isinstance(f, Fn) else None


def params_of(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args]
