"""Contracts of ts2python/singledispatch_shim.py (D01, D02).

The state of an overloaded function is what its closure holds: registry (class -> implementation,
plus the list of postponed implementations), dispatch cache and ABC cache token.  Invariant:
  I1  the cache token is None only if no registered class is abstract; a cached choice for class k is
      best(registry, k) in the state of abstract base classes the token stands for
  I2  while implementations are postponed, only classes with an implementation of their own are cached
  I3  the list of postponed implementations, if there is one, is not empty
singledispatch() establishes it; every operation is verified from an arbitrary state satisfying it."""
import z3
from pydv.engine import *
from pydv.interp import Exec, StarSeq
from pydv.spec import model, repo_fn

MOD = 'ts2python.singledispatch_shim'
TE, NE = 'builtins.TypeError', 'builtins.NameError'
EXC_BASES.setdefault(NE, ['builtins.Exception', 'builtins.BaseException', 'builtins.object'])
F = z3.Function
# classes and unions of classes
isclass, isunion, nargs, targ, abc = F('isclass', Obj, BoolS), F('isunion', Obj, IntS), F('nargs', Obj, IntS), F('targ', Obj, IntS, Obj), F('abstract', Obj, BoolS)
# implementations
res, hint, rethint = F('resolvable', Obj, BoolS), F('hint', Obj, Obj), F('rethint', Obj, Obj)
# state before the operation
r_has, r_get, c_has, c_get = F('reg_has', Obj, BoolS), F('reg_get', Obj, Obj), F('cache_has', Obj, BoolS), F('cache_get', Obj, Obj)
p_n, p_at = z3.Int('postponed_n'), F('postponed', IntS, Obj)
TOK, EPOCH = z3.Consts('token epoch', Obj)
FIND = F('find_impl', IntS, Obj, Obj, Obj)      # best match among the entries of a version of the registry
g_has, g_get = F('regj_has', IntS, Obj, BoolS), F('regj_get', IntS, Obj, Obj)     # registry after j postponed ones
DEFAULT, ARG0, RET = z3.Consts('default_impl arg0 impl_result', Obj)
NARG = z3.Int('n_args')


def covers(t, k, tag='jc'):
    j = z3.Int(tag)
    return z3.If(isclass(t), t == k, z3.Exists([j], z3.And(0 <= j, j < nargs(t), targ(t, j) == k)))


def valid_type(t):
    return z3.Or(isclass(t), isunion(t) > 0)


def axioms(I):
    t, k, e, d = z3.Consts('xt xk xe xd', Obj)
    j = z3.Int('xj')
    fa = lambda vs, body, *p: I.fact(z3.ForAll(vs, body, patterns=list(p)))
    fa([t], z3.And(isunion(t) >= 0, isunion(t) <= 2, z3.Implies(isclass(t), isunion(t) == 0)), isunion(t))
    fa([t], z3.And(nargs(t) >= 0, (isunion(t) > 0) == (nargs(t) > 0)), nargs(t))
    fa([t, j], z3.Implies(z3.And(0 <= j, j < nargs(t)), isclass(targ(t, j))), targ(t, j))
    fa([t], z3.Implies(abc(t), isclass(t)), abc(t))
    fa([k], z3.Implies(r_has(k), isclass(k)), r_has(k))
    fa([k], valid_type(hint(k)), hint(k))
    I.fact(p_n >= 0)
    # registry after j of the postponed implementations
    fa([k], z3.And(g_has(0, k) == r_has(k), g_get(0, k) == r_get(k)), g_has(0, k))


def version(I, v):
    """(has, get) of version v of the registry: 0 = before the operation, 1 = postponed ones resolved, 2 = after registration"""
    if v == 0: return r_has, r_get
    if v == 1: return (lambda k: g_has(p_n, k)), (lambda k: g_get(p_n, k))
    t, f = I.G.new
    return (lambda k: z3.Or(r_has(k), covers(t, k))), (lambda k: z3.If(covers(t, k), f, r_get(k)))


def best(I, v, k, epoch):
    has, get = version(I, v)
    return z3.If(has(k), get(k), FIND(v, k, epoch))


def noabc(I, v):
    k = z3.Const('nk', Obj)
    return z3.ForAll([k], z3.Implies(version(I, v)[0](k), z3.Not(abc(k))))


def invariant(I, v, tok, pending, chas, cget):
    """Quantified invariant of a state: registry version v, token (None or term), cache."""
    k = z3.Const('ik', Obj)
    cond = [z3.ForAll([k], z3.Implies(chas(k), cget(k) == best(I, v, k, EPOCH if tok is None else tok)))]
    if tok is None: cond.append(noabc(I, v))
    if pending: cond.append(z3.ForAll([k], z3.Implies(chas(k), version(I, v)[0](k))))
    return z3.And(cond)


class State: pass


def new_interp(reflect, deadline=None):
    I = Exec(reflect, deadline=deadline)
    axioms(I)
    I.attr_hooks.append(attr); I.isinst_hooks.append(isinst); I.is_hooks.append(is_); I.eq_hooks.append(eq)
    I.call_hooks.append(call); I.truth_hooks.append(truth); I.item_hooks.append(item)
    I.hasattr_hooks = [hasattr_]
    I.callable_hooks = [lambda I, v: True if isinstance(v, Sym) and v.k == 'func' else NotImplemented]
    I.loop_hooks = [loop_rule]
    I.loop_memo = {}
    M = I.models
    for n in ('typing.get_origin', MOD + '.get_origin'): M[n] = lambda I, a, k: Sym(a[0].t, 'origin') if a[0].k == 'ty' else None
    for n in ('typing.get_args', MOD + '.get_args'): M[n] = lambda I, a, k: get_args(I, a[0]) if a[0].k == 'ty' else ()
    M['typing.get_type_hints'] = get_type_hints
    M['weakref.WeakKeyDictionary'] = new_cache
    M['builtins.mappingproxy'] = M['types.MappingProxyType'] = proxy
    M['functools.update_wrapper'] = lambda I, a, k: a[0]
    for n in ('_abc.get_cache_token', 'abc.get_cache_token'): M[n] = lambda I, a, k: Sym(EPOCH, 'token')
    M['functools._find_impl'] = find_impl
    return I


# ------------------------------------------------------------ environment

def get_args(I, t):
    return ASeq(nargs(t.t), lambda j: Sym(targ(t.t, zint(j)), 'ty'))


def get_type_hints(I, a, k):
    f = a[0]
    if not (isinstance(f, Sym) and f.k == 'func') or k or len(a) > 1: raise Unsupported('type hints of ' + repr(f))
    if not I.decide(res(f.t)): raise PyRaise(Exc([NE]))
    return I.new_dict([('param', Sym(hint(f.t), 'ty')), ('return', Sym(rethint(f.t), 'ty'))])


def attr(I, o, name):
    if not isinstance(o, Sym): return NotImplemented
    if o.k == 'func':
        if name == '__annotations__': return Sym(o.t, 'annotations')
        if name in ('__name__', '__qualname__', '__module__', '__doc__'): return F('func' + name, Obj, StrS)(o.t)
        if name == '__get__': return BM(o, lambda I, s, a, k: bound_method(I, s, a), name)
        if name == '__isabstractmethod__': return F('isabstractmethod', Obj, BoolS)(o.t)
    if o.k == 'data' and name == '__class__': return Sym(F('class_of', Obj, Obj)(o.t), 'ty')
    return NotImplemented


def bound_method(I, f, a):
    if len(a) < 1 or a[0] is not I.G.obj or (len(a) > 1 and a[1] is not I.G.owner): raise Unsupported('__get__ with other arguments')
    return Sym(f.t, 'bound')


def hasattr_(I, o, name):
    if isinstance(o, Sym):
        if o.k == 'ty' and name == '__abstractmethods__': return abc(o.t)
        if o.k == 'ty' and name == '__annotations__': return False
        if o.k == 'func': return name in ('__name__', '__get__', '__annotations__')
    return NotImplemented


def isinst(I, v, cls):
    if isinstance(v, Sym) and isinstance(cls, Ext):
        if v.k == 'ty':
            if cls.id == 'builtins.type': return isclass(v.t)
            if cls.id == 'types.UnionType': return isunion(v.t) == 2
            if cls.id == 'typing.ForwardRef': return False
        if v.k == 'func' and cls.id in ('builtins.type', 'types.UnionType', 'typing.ForwardRef', 'builtins.str'): return False
    return NotImplemented


def is_(I, a, b):
    if a.k in ('ty', 'func', 'token', 'data', 'bound') and b is None: return False
    if a.k == 'origin' and isinstance(b, Ext): return eq(I, a, b)
    return NotImplemented


def eq(I, a, b):
    if a.k == 'origin':
        if isinstance(b, Ext): return {'typing.Union': isunion(a.t) == 1, 'types.UnionType': isunion(a.t) == 2}.get(b.id, False)
        if b is None: return isunion(a.t) == 0
    if isinstance(b, str) and a.k in ('ty', 'func', 'token'): return False
    if isinstance(b, Sym) and {a.k, b.k} == {'ty', 'func'}: return False
    if b is None and a.k in ('ty', 'func', 'token'): return False
    return NotImplemented


def truth(I, v):
    if v.k == 'annotations': return True
    if v.k == 'argtuple': return NARG > 0
    return NotImplemented


def item(I, v, k):
    if v.k == 'argtuple' and k == 0:
        if not I.decide(NARG > 0): raise PyRaise(Exc(['builtins.IndexError']))
        return Sym(ARG0, 'data')
    return NotImplemented


def call(I, f, args, kwargs):
    if isinstance(f, Sym) and f.k in ('func', 'bound'):
        same = len(args) == 1 and isinstance(args[0], StarSeq) and isinstance(args[0].v, Sym) and args[0].v.k == 'argtuple' \
            and set(kwargs) == {'**'} and isinstance(kwargs['**'], Sym) and kwargs['**'].k == 'kwdict'
        I.G.calls.append((f.k, f.t, same))
        return Sym(RET, 'data')
    return NotImplemented


def new_cache(I, a, k):
    r = I.new_dict()
    I.G.cache = r
    return r


def proxy(I, a, k):
    I.G.registry = a[0]
    return a[0]


def dict_terms(I, ref, k):
    """(has, get) of a dictionary for class k as terms; other keys are ignored."""
    has, get = z3.BoolVal(False), DEFAULT
    for l in I.cell(ref).layers:
        if l[0] == 'amap':
            h, g = zbool(l[1].has(Sym(k, 'ty'))), l[1].get(Sym(k, 'ty')).t
            has, get = z3.Or(h, has), z3.If(h, g, get)
        elif l[0] in ('set', 'del'):
            if isinstance(l[1], str): continue
            h = zbool(I.eq_term(l[1], Sym(k, 'ty')))
            if l[0] == 'set': has, get = z3.Or(h, has), z3.If(h, I.to_obj(l[2]), get)
            else: has = z3.And(z3.Not(h), has)
        else: raise Unsupported('layer')
    return has, get


def same_content(I, ref, v, what):
    """Obligation: the dictionary holds exactly the entries of registry version v."""
    whas, wget = version(I, v)
    k = z3.Const('sk', Obj)
    K = Sym(k, 'ty')
    I.assume(isclass(k))
    has = zbool(I.dict_has_term(ref, K))
    I.prove(has == whas(k), what + ': the registered classes are those of the registrations in force')
    if I.decide(whas(k)):
        yn, val = I.dict_find(ref, K)
        if yn == 'yes':
            I.prove(val.t == wget(k) if isinstance(val, Sym) else False, what + ': every class has the implementation registered last')
    return None


def find_impl(I, a, k):
    cls, reg = a
    v = I.G.version
    whas, wget = version(I, v)
    x = z3.Const('fk', Obj)
    has, get = dict_terms(I, reg, x)
    I.prove(z3.ForAll([x], z3.Implies(isclass(x), z3.And(has == whas(x), z3.Implies(whas(x), get == wget(x))))), 'search: among all registrations in force')
    return Sym(FIND(z3.IntVal(v), cls.t, EPOCH), 'func')


# ------------------------------------------------------------ states

def setup(I):
    """Builds the overloaded function by running singledispatch() and checks that it establishes the invariant."""
    f = repo_fn(I, MOD, ['singledispatch'])
    if f is None: raise Unsupported('singledispatch not found')
    G = I.G = State()
    G.calls, G.registry, G.cache, G.P, G.version, G.active = [], None, None, None, 0, False
    G.obj, G.owner = Sym(z3.Const('instance', Obj), 'data'), Sym(z3.Const('owner', Obj), 'obj')
    G.object = Ext('builtins.object', {'k': 'class', 'id': 'builtins.object', 'mro': []})
    G.fn = f
    I.fact(isclass(I.to_obj(G.object))); I.fact(z3.Not(abc(I.to_obj(G.object))))
    I.fact(r_has(I.to_obj(G.object)))
    return f


def token_var(I, w):
    """Location of the ABC token: the nonlocal variable of the closure that starts as None."""
    import ast
    names = {n for x in ast.walk(I.G.fn.node) if isinstance(x, ast.Nonlocal) for n in x.names}
    env = w.env
    fc = I.heap[env]
    c = [n for n in names if n in fc.vars and fc.vars[n] is None]
    if len(c) != 1: raise Unsupported('cache token of singledispatch')
    return env, c[0]


def make(I):
    w = I.inline(I.G.fn, [Sym(DEFAULT, 'func')], {})
    if not isinstance(w, Fn) or I.G.registry is None or I.G.cache is None: raise Unsupported('singledispatch does not build the expected closure')
    I.G.w, I.G.tok = w, token_var(I, w)
    I.G.before = I.next_addr
    return w


def set_token(I, v):
    a, n = I.G.tok
    fc = I.heap[a]
    vs = dict(fc.vars); vs[n] = v
    I.heap[a] = FrameCell(vs, fc.parent)


def get_token(I):
    a, n = I.G.tok
    return I.heap[a].vars[n]


def regmap(has, get):
    return ('amap', AMap(lambda k: has(I_obj(k)), lambda k: Sym(get(I_obj(k)), 'func')))


def I_obj(k):
    if isinstance(k, Sym): return k.t
    raise KeyClash()


class KeyClash(Exception): pass


def class_map(I, has, get, kind='func'):
    def h(k):
        if isinstance(k, str): return False      # the key of the postponed ones is no class
        return has(I.to_obj(k))
    return ('amap', AMap(h, lambda k: Sym(get(I.to_obj(k)), kind)))


def havoc(I):
    """An arbitrary state satisfying the invariant."""
    G = I.G
    reg = [class_map(I, r_has, r_get)]
    G.pending = I.choose(2) == 1
    if G.pending:
        I.assume(p_n >= 1)
        j = z3.Int('i0')
        G.P = I.alloc(ListCell([('comp', Comp(p_n, j, [(z3.BoolVal(True), [Sym(p_at(j), 'func')])]))]))
        reg.append(('set', 'postponed', G.P))
    I.heap[G.registry.a] = DictCell(reg)
    I.heap[G.cache.a] = DictCell([class_map(I, c_has, c_get)])
    tok = None if I.choose(2) == 0 else TOK
    set_token(I, None if tok is None else Sym(TOK, 'token'))
    G.tok0 = tok
    I.assume(invariant(I, 0, tok, G.pending, c_has, c_get))
    assume_find(I, 0)
    G.active = True


def assume_find(I, v):
    """Without abstract classes the best match does not depend on registrations with abstract classes."""
    k, e, d = z3.Consts('mk me md', Obj)
    I.assume(z3.Implies(noabc(I, v), z3.ForAll([k, e, d], FIND(v, k, e) == FIND(v, k, d))))


def check_state(I, v, what, pending=None):
    """The invariant holds after the operation, the registry has the content of version v."""
    G = I.G
    k = z3.Const('ck', Obj)
    K = Sym(k, 'ty')
    tok = get_token(I)
    tokt = None if tok is None else tok.t
    assume_find(I, v)
    if v == 0 and I.cell(G.registry).layers[0] is G.layer0 and len(I.cell(G.registry).layers) == len(G.layers0): pass
    if tok is None: I.prove(noabc(I, v), what + ': I1 (no abstract class is registered while there is no cache token)')
    if I.decide(zbool(I.dict_has_term(G.cache, K))):
        yn, val = I.dict_find(G.cache, K)
        I.prove(isinstance(val, Sym), what + ': cached values are implementations')
        if isinstance(val, Sym):
            I.prove(val.t == best(I, v, k, EPOCH if tok is None else tokt), what + ': I1 (a cached choice is the best match among the registrations in force)')
        yp, _ = I.dict_find(G.registry, 'postponed')
        if yp == 'yes': I.prove(version(I, v)[0](k), what + ': I2 (only exact matches are cached while implementations are postponed)')


# ------------------------------------------------------------ loop over the postponed implementations

def unresolved(j, tag):
    i = z3.Int(tag)
    return z3.Exists([i], z3.And(0 <= i, i < j, z3.Not(res(p_at(i)))))


def filtered(j):
    i = z3.Int('if0')
    return ('comp', Comp(j, i, [(z3.Not(res(p_at(i))), [Sym(p_at(i), 'func')]), (res(p_at(i)), [])]))


def put_state(I, j, first):
    """State after j of the postponed implementations were registered again."""
    G = I.G
    layers = [class_map(I, lambda k: g_has(j, k), lambda k: g_get(j, k))]
    ref = None
    if not first and I.decide(unresolved(j, 'iu')):
        ref = I.alloc(ListCell([filtered(j)]))
        layers.append(('set', 'postponed', ref))
    I.heap[G.registry.a] = DictCell(layers)
    if not first: I.heap[G.cache.a] = DictCell(())
    if first: pass
    elif G.tok1 is None and I.choose(2) == 0:
        k = z3.Const('nj', Obj)
        I.assume(z3.ForAll([k], z3.Implies(g_has(j, k), z3.Not(abc(k)))))
        set_token(I, None)
    elif G.tok1 is None: set_token(I, Sym(EPOCH, 'token'))
    else: set_token(I, G.tok1)
    return ref


def loop_rule(I, key, it, body):
    G = getattr(I, 'G', None)
    if not G or not G.active or G.P is None or not isinstance(it, Ref) or it.a != G.P.a: return NotImplemented
    what = 'loop over postponed implementations'
    yn, _ = I.dict_find(G.registry, 'postponed')
    I.prove(yn == 'no', what + ': the list is taken out of the registry first')
    if yn == 'yes': raise Unsupported('loop over the list of postponed implementations while it may grow')
    G.tok1 = get_token(I)
    same_reg(I, G.registry, lambda k: g_has(0, k), lambda k: g_get(0, k), what + ': registry unchanged before the loop')
    base = I.next_addr

    def step():
        I.fresh_no += 1
        j = z3.Int(f'jp!{I.fresh_no}')
        I.assume(z3.And(0 <= j, j < p_n))
        first = I.choose(2) == 0
        I.assume(j == 0 if first else j > 0)
        ref = put_state(I, j, first)
        # meaning of the ghost registry at j + 1
        k = z3.Const('gk', Obj)
        new = z3.And(res(p_at(j)), covers(hint(p_at(j)), k))
        log = []
        I.log_stack = I.log_stack + [log]
        try: body(Sym(p_at(j), 'func'))
        except ContinueEx: pass
        I.log_stack = I.log_stack[:-1]
        for a, w in log:
            if a < base and (a, w) != G.tok and a not in (G.registry.a, G.cache.a) and a != I.frame_addr: raise Unsupported(f'loop changes {w}')
        r = I.decide(res(p_at(j)))
        I.assume(z3.ForAll([k], z3.And(g_has(j + 1, k) == z3.Or(g_has(j, k), new), g_get(j + 1, k) == z3.If(new, p_at(j), g_get(j, k))), patterns=[g_has(j + 1, k)]))
        same_reg(I, G.registry, lambda k: g_has(j + 1, k), lambda k: g_get(j + 1, k), what + ': registered if its name is defined', any_layers=True)
        yn, lst = I.dict_find(G.registry, 'postponed')
        segs = list(I.segs(lst)) if yn == 'yes' else []
        old = [filtered(j)] if ref is not None else []
        tail = segs[len(old):]
        same_old = not old or (segs[:1] and segs[0][0] == 'comp' and z3.eq(zint(segs[0][1].n), j) and segs[0][1].alts[0][1][0].t.decl().name() == 'postponed')
        I.prove(bool(same_old), what + ': implementations postponed before are kept')
        I.prove((tail == [] or tail == ()) if r else (len(tail) == 1 and tail[0][0] == 'item' and isinstance(tail[0][1], Sym) and z3.eq(tail[0][1].t, p_at(j))),
                what + ': postponed again exactly if its name is not defined')
        I.prove(not I.cell(G.cache).layers, what + ': the cache is cleared')
        tok = get_token(I)
        if tok is None:
            I.prove(G.tok1 is None, what + ': a cache token is kept')
            I.prove(z3.ForAll([k], z3.Implies(g_has(j + 1, k), z3.Not(abc(k)))), what + ': a cache token is taken if an abstract class is registered')
        elif G.tok1 is not None: I.prove(z3.eq(tok.t, G.tok1.t), what + ': a cache token is kept')
        else: I.prove(z3.eq(tok.t, EPOCH), what + ': the cache token is the current one')
        return 'step'
    G.active = False
    memo = tuple(c.get_id() for c in I.pc), len(I.facts), I.fresh_no
    if memo not in I.loop_memo:      # the same path prefix has been verified before
        for c in I.pc: I.keep_alive(c)
        rs = I.explore(step, id=('postponed', I.stats['paths']))
        I.prove(all(r[0] == 'normal' for r in rs), what + ': no registration raises an exception or leaves the loop')
        I.loop_memo[memo] = max(I.fresh_no, I.max_fresh)
    I.fresh_no = I.loop_memo[memo]
    G.active = True
    put_state(I, p_n, False)
    G.version = 1
    assume_find(I, 1)
    G.P = None
    return False


def same_reg(I, ref, has, get, what, any_layers=False):
    k = z3.Const(I.fresh_name('sk'), Obj)
    K = Sym(k, 'ty')
    I.assume(isclass(k))
    I.prove(zbool(I.dict_has_term(ref, K)) == has(k), what + ' (classes)')
    if I.decide(has(k)):
        yn, val = I.dict_find(ref, K)
        if yn == 'yes': I.prove(val.t == get(k) if isinstance(val, Sym) else False, what + ' (implementations)')


# ------------------------------------------------------------ obligations

def prove_init(I):
    f = setup(I)

    def thunk():
        G = I.G
        G.calls, G.registry, G.cache, G.P, G.version, G.active = [], None, None, None, 0, False
        w = make(I)
        I.prove(w.props.get('register') is not None and w.props.get('dispatch') is not None, 'singledispatch: offers register and dispatch')
        I.prove(not I.cell(G.cache).layers, 'singledispatch: nothing is cached at first')
        it = I.dict_concrete(G.registry)
        ok = it is not None and len(it) == 1 and isinstance(it[0][0], Ext) and it[0][0].id == 'builtins.object' and isinstance(it[0][1], Sym) and z3.eq(it[0][1].t, DEFAULT)
        I.prove(ok, 'singledispatch: the default implementation is registered for `object`, nothing else')
        return 'created'
    return f, I.explore(thunk)


def start(I):
    G = I.G
    G.calls, G.registry, G.cache, G.P, G.version, G.active = [], None, None, None, 0, False
    w = make(I)
    havoc(I)
    return w


def prove_dispatch(I, via=None):
    """dispatch(cls), alone or within a call of the overloaded function or method."""
    f = setup(I)

    def thunk():
        G = I.G
        w = start(I)
        G.layers0 = I.cell(G.registry).layers; G.layer0 = G.layers0[0]
        c = F('class_of', Obj, Obj)(ARG0)
        I.assume(isclass(c))
        N = 'dispatch: '
        kind, val = 'return', None
        args = [StarSeq(Sym(z3.Const('args', Obj), 'argtuple'))]
        kw = {'**': Sym(z3.Const('kwargs', Obj), 'kwdict')}
        try:
            if via == 'call': val = I.call(w, args, kw)
            elif via == 'method': val = method_call(I, w, args, kw)
            else: val = I.call(w.props['dispatch'], [Sym(c, 'ty')], {})
        except PyRaise as e: kind, val = 'raise', e.exc
        G.active = False
        if via == 'call' and not I.decide(NARG > 0):
            I.prove(kind == 'raise' and val.classes == {TE} and not G.calls, 'call: without positional argument raises a TypeError')
            return 'no-argument'
        if via == 'method' and not I.decide(NARG > 0):
            I.prove(kind == 'raise' and not G.calls, 'method call: without positional argument is refused')
            return 'no-argument'
        # which choice is due
        if I.decide(r_has(c)): v, want = 0, r_get(c)
        elif not G.pending: v, want = 0, FIND(0, c, EPOCH)
        elif I.decide(unresolved(p_n, 'iv')):
            I.prove(kind == 'raise' and val.classes == {NE}, N + 'a choice that depends on an undefined name raises a NameError')
            I.prove(not G.calls, N + 'nothing is called then')
            yn, lst = I.dict_find(G.registry, 'postponed')
            segs = I.segs(lst) if yn == 'yes' else ()
            I.prove(len(segs) == 1 and segs[0][0] == 'comp' and z3.eq(zint(segs[0][1].n), p_n) and len(segs[0][1].alts) == 2,
                    N + 'implementations whose name is undefined stay postponed')
            check_state(I, 1, N)
            same_content(I, G.registry, 1, N)
            return 'undefined'
        else: v, want = 1, z3.If(g_has(p_n, c), g_get(p_n, c), FIND(1, c, EPOCH))
        if via is None:
            I.prove(kind == 'return' and isinstance(val, Sym), N + 'yields an implementation')
            if kind == 'return' and isinstance(val, Sym): I.prove(val.t == want, N + 'the most specific implementation among the registrations in force')
        else:
            k = 'bound' if via == 'method' else 'func'
            I.prove(kind == 'return' and len(G.calls) == 1 and isinstance(val, Sym) and z3.eq(val.t, RET), via + ': calls one implementation and returns its result')
            if len(G.calls) == 1:
                I.prove(G.calls[0][0] == k and G.calls[0][2], via + ': the implementation gets exactly the arguments of the call')
                I.prove(G.calls[0][1] == want, via + ': calls the most specific implementation among the registrations in force')
        if via is None:
            yn, lst = I.dict_find(G.registry, 'postponed')
            if G.version == 0:
                I.prove((yn == 'yes' and lst == G.P) if G.pending else yn == 'no', N + 'postponed implementations are kept')
            else: I.prove(yn == 'no', N + 'nothing is postponed any more')
            if I.choose(2): check_state(I, G.version, N)
            else: same_content(I, G.registry, G.version, N)
        return 'chosen'
    return f, I.explore(thunk)


def prove_call(I): return prove_dispatch(I, 'call')
def prove_method(I): return prove_dispatch(I, 'method')


def method_call(I, w, args, kw):
    """A call of an overloaded method: the descriptor's function is called with the arguments."""
    G = I.G
    cls = MOD + ':singledispatchmethod'
    o = I.alloc(ObjCell(cls, {}))
    G.active = False
    init = I.class_method(cls, '__init__')
    if init is None: raise Unsupported('singledispatchmethod.__init__')
    reg, cache = G.registry, G.cache
    I.inline(init, [o, Sym(DEFAULT, 'func')], {})
    # the method's own overloaded function is in the state under consideration
    at = dict(I.cell(o).attrs)
    names = [n for n, v in at.items() if isinstance(v, Fn)]
    if len(names) != 1 or not z3.eq(at.get('func', w).t if isinstance(at.get('func'), Sym) else DEFAULT, DEFAULT): raise Unsupported('attributes of singledispatchmethod')
    at[names[0]] = w
    I.heap[o.a] = ObjCell(cls, at)
    G.registry, G.cache, G.active = reg, cache, True
    get = I.class_method(cls, '__get__')
    m = I.inline(get, [o, G.obj, G.owner], {})
    return I.call(m, args, kw)


def prove_register(I):
    f = setup(I)

    def thunk():
        G = I.G
        w = start(I)
        impl = Sym(z3.Const('new_impl', Obj), 'func')
        t = z3.Const('new_type', Obj)
        I.assume(valid_type(t))
        N = 'register: '
        how = I.choose(4)
        pend0, P0, segs0 = G.pending, G.P, (I.segs(G.P) if G.pending else ())
        defined = True
        G.new = (t, impl.t)
        if how == 0: r = I.call(w.props['register'], [Sym(t, 'ty'), impl], {})                                      # register(cls, f)
        elif how == 1: r = I.call(I.call(w.props['register'], [Sym(t, 'ty')], {}), [impl], {})                     # @register(cls)
        else:                                                                                                      # @register
            defined = I.decide(res(impl.t))
            if defined: I.assume(hint(impl.t) == t)
            if how == 3: r = via_method(I, w, impl)
            else: r = I.call(w.props['register'], [impl], {})
        G.active = False
        I.prove(isinstance(r, Sym) and z3.eq(r.t, impl.t), N + 'returns the implementation')
        I.prove(not G.calls, N + 'calls nothing')
        v = 2 if defined else 0
        yn, lst = I.dict_find(G.registry, 'postponed')
        segs = tuple(I.segs(lst)) if yn == 'yes' else ()
        if defined: I.prove(yn == ('yes' if pend0 else 'no') and segs == tuple(segs0), N + 'postponed implementations are kept')
        else:
            I.prove(yn == 'yes' and segs[:-1] == tuple(segs0) and segs[-1][0] == 'item' and isinstance(segs[-1][1], Sym) and z3.eq(segs[-1][1].t, impl.t),
                    N + 'an implementation for an undefined name is postponed')
        G.layers0 = (); G.layer0 = None
        if I.choose(2): check_state(I, v, N)
        else: same_content(I, G.registry, v, N)
        return 'registered' if defined else 'postponed'
    return f, I.explore(thunk)


def via_method(I, w, impl):
    G = I.G
    cls = MOD + ':singledispatchmethod'
    reg, cache = G.registry, G.cache
    o = I.alloc(ObjCell(cls, {}))
    I.inline(I.class_method(cls, '__init__'), [o, Sym(DEFAULT, 'func')], {})
    at = dict(I.cell(o).attrs)
    for n, v in list(at.items()):
        if isinstance(v, Fn): at[n] = w
    I.heap[o.a] = ObjCell(cls, at)
    G.registry, G.cache = reg, cache
    return I.inline(I.class_method(cls, 'register'), [o, impl], {})
