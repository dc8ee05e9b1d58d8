"""Contract of the decorator type_check (V03)."""
import os
import z3
from pydv.engine import *
from pydv.spec import model, repo_fn
from . import world_types as W
from . import validation as V

F = z3.Function
p_has, p_n, p_key, p_idx = F('param_has', Obj, Obj, BoolS), F('param_n', Obj, IntS), F('param_key', Obj, IntS, Obj), F('param_idx', Obj, Obj, IntS)
p_kind = F('param_kind', Obj, Obj, IntS)
b_has, b_get = F('bound_has', Obj, Obj, BoolS), F('bound_get', Obj, Obj, Obj)
KINDS = dict(POSITIONAL_ONLY=0, POSITIONAL_OR_KEYWORD=1, VAR_POSITIONAL=2, KEYWORD_ONLY=3, VAR_KEYWORD=4)
FUNC, ARGS, KW, RET = (z3.Const(n, Obj) for n in ('func', 'call_args', 'call_kwargs', 'func_result'))
EXC_BASES['user.Error'] = ['builtins.Exception', 'builtins.BaseException', 'builtins.object']


def new_interp(reflect, deadline=None):
    I = V.new_interp(reflect, deadline)
    f, k = z3.Consts('pf pk', Obj)
    j = z3.Int('pj')
    for ax in (z3.ForAll([f, j], z3.Implies(z3.And(0 <= j, j < p_n(f)), z3.And(p_has(f, p_key(f, j)), p_idx(f, p_key(f, j)) == j, W.dclass(p_key(f, j)) == 4)), patterns=[p_key(f, j)]),
               z3.ForAll([f, k], z3.Implies(p_has(f, k), z3.And(0 <= p_idx(f, k), p_idx(f, k) < p_n(f), p_key(f, p_idx(f, k)) == k)), patterns=[p_has(f, k)]),
               z3.ForAll([f], p_n(f) >= 0, patterns=[p_n(f)])):
        I.fact(ax)
    I.fact(z3.Not(p_has(FUNC, I.to_obj('return'))))           # `return` is a keyword
    I.fact(z3.ForAll([k], z3.Implies(b_has(ARGS, k), p_has(FUNC, k)), patterns=[b_has(ARGS, k)]))
    # hints of a function: parameters and 'return'
    I.fact(z3.ForAll([k], z3.Implies(W.hint_has(FUNC, k), z3.Or(p_has(FUNC, k), k == I.to_obj('return'))), patterns=[W.hint_has(FUNC, k)]))
    I.inverse['param_key'] = p_idx
    I.attr_hooks.insert(0, attr)
    I.call_hooks.append(call)
    I.models['inspect.signature'] = lambda I, a, k: Sym(a[0].t, 'signature') if is_func(a[0]) else bad('signature')
    old = I.models['typing.get_type_hints']
    I.models['typing.get_type_hints'] = lambda I, a, k: I.alloc(DictCell((('amap', I.W.hints_map(a[0])),))) if is_func(a[0]) and not k and len(a) == 1 else old(I, a, k)
    I.spec.env.update(
        is_var_positional=model(lambda I, name: p_kind(FUNC, I.to_obj(name)) == 2),
        is_var_keyword=model(lambda I, name: p_kind(FUNC, I.to_obj(name)) == 4),
        tuple_of=model(lambda I, t: I.W.mk_alias(Ext('typing.Tuple'), (t, Ext('Ellipsis')))),
        dict_of=model(lambda I, t: I.W.mk_alias(Ext('typing.Dict'), (Ext('builtins.str', {'k': 'class', 'mro': []}), t))),
        hints_of=model(lambda I, t: I.W.hints_map(t)))
    return I


def bad(what): raise Unsupported(what)
def is_func(v): return isinstance(v, Sym) and v.k == 'func'


def attr(I, o, name):
    if not isinstance(o, Sym): return NotImplemented
    if o.k == 'func':
        if name in ('__name__', '__qualname__', '__module__'): return F('func' + name, Obj, StrS)(o.t)
        if name == '__annotations__':
            return I.alloc(DictCell((('amap', AMap(lambda k: F('rawann_has', Obj, Obj, BoolS)(o.t, I.to_obj(k)), lambda k: Sym(F('rawann', Obj, Obj, Obj)(o.t, I.to_obj(k)), 'obj'))),)))
        raise Unsupported(f'attribute {name} of the function')
    if o.k == 'signature':
        if name == 'parameters':
            seq = ASeq(p_n(o.t), lambda j: Sym(p_key(o.t, zint(j)), 'name'))
            seq.has = lambda x: p_has(o.t, I.to_obj(x))
            return I.alloc(DictCell((('amap', AMap(lambda k: p_has(o.t, I.to_obj(k)), lambda k: Sym(I.to_obj(k), ('param', o.t)), seq)),)))
        if name in ('bind', 'bind_partial'): return BM(o, lambda I, s, a, k, name=name: bind(I, name, a, k), name)
        if name == 'return_annotation': return Sym(F('ret_annotation', Obj, Obj)(o.t), 'obj')
    if isinstance(o.k, tuple) and o.k[0] == 'param':
        if name == 'kind':
            t = p_kind(o.k[1], o.t)
            I.fact(z3.And(t >= 0, t <= 4))
            return t
        if name in KINDS: return KINDS[name]
        if name == 'name': return Sym(o.t, 'name')
    if o.k == 'bound':
        if name == 'arguments':
            return I.alloc(DictCell((('amap', AMap(lambda k: b_has(ARGS, I.to_obj(k)), lambda k: Sym(b_get(ARGS, I.to_obj(k)), 'data'))),)))
        if name in ('args', 'kwargs'): return Sym(F('bound_' + name, Obj, Obj)(o.t), 'bound_' + name)
    return NotImplemented


def is_call_args(a, k):
    return len(a) == 1 and type(a[0]).__name__ == 'StarSeq' and isinstance(a[0].v, Sym) and z3.eq(a[0].v.t, ARGS) \
        and set(k) == {'**'} and isinstance(k['**'], Sym) and z3.eq(k['**'].t, KW)


def bind(I, name, a, k):
    if name != 'bind' or not is_call_args(a, k): raise Unsupported('binding of other arguments')
    if I.decide(z3.Const('binds', BoolS)): return Sym(ARGS, 'bound')
    raise PyRaise(Exc([V.TE], (), {'origin': 'bind'}))


def call(I, f, args, kwargs):
    if not is_func(f): return NotImplemented
    I.list_append(I.ghost, 'call' if is_call_args(args, kwargs) else 'call with other arguments')
    if not is_call_args(args, kwargs): return Sym(I.fresh(Obj, 'other'), 'data')
    # the arguments fit the signature, or else Python refuses the call
    if not I.decide(z3.Const('binds', BoolS)): raise PyRaise(Exc([V.TE], (), {'origin': 'bind'}))
    if I.decide(z3.Const('func_raises', BoolS)): raise PyRaise(Exc([V.TE, V.VE, 'user.Error'], (), {'origin': 'func'}))
    return Sym(RET, 'data')


def prove_type_check(I):
    f = repo_fn(I, V.MOD, ['type_check'])
    if f is None: raise Unsupported('type_check not found')

    def thunk():
        func = Sym(FUNC, 'func')
        ret_key = Sym(I.to_obj('return'), 'data')
        check_ret = z3.Const('check_return_type', BoolS)
        I.assume(W.hint_n(FUNC) > 0)      # precondition: the function has annotations
        I.ghost = I.new_list()
        explicit = I.choose(2) == 0
        I.checks_return = check_ret if explicit else True      # documented default: checked
        guard = I.inline(f, [func], {'check_return_type': check_ret} if explicit else {})
        I.prove(I.length(I.ghost) == 0, 'type_check: decorating does not call the function')
        base = I.next_addr
        log = []
        I.log_stack = I.log_stack + [log]
        outcome = 'return', None
        try: outcome = 'return', I.call(guard, [star(Sym(ARGS, 'argtuple'))], {'**': Sym(KW, 'kwdict')})
        except PyRaise as e: outcome = 'raise', e.exc
        I.log_stack = I.log_stack[:-1]
        writes = sorted({str(w) for a, w in log if a < base and a != I.ghost.a})
        I.prove(not writes, 'frame: a call changes nothing that outlives it' + (f' ({", ".join(writes)})' if writes else ''))
        events = [s[1] for s in I.segs(I.ghost)]
        return check_outcome(I, func, outcome, events, check_ret)
    return f, I.explore(thunk)


def star(v):
    from pydv.interp import StarSeq
    return StarSeq(v)


def check_outcome(I, func, outcome, events, check_ret):
    kind, val = outcome
    N = 'type_check: '
    I.prove('call with other arguments' not in events and len(events) <= 1, N + 'the function is called at most once, with the arguments of the call')
    called = events == ['call']
    if not I.decide(z3.Const('binds', BoolS)):
        I.prove(kind == 'raise' and V.TE in val.classes and len(val.classes) == 1, N + 'arguments that do not fit the signature raise a TypeError')
        return 'bind-error'
    bound = AMap(lambda k: b_has(ARGS, I.to_obj(k)), lambda k: Sym(b_get(ARGS, I.to_obj(k)), 'data'))
    accepts = I.truth(I.spec.call('spec_accepts_call', I.alloc(DictCell((('amap', bound),))), I.alloc(DictCell((('amap', I.W.hints_map(func)),)))))
    if not accepts:
        I.prove(not called, N + 'not called if an argument does not conform')
        I.prove(kind == 'raise' and val.classes <= {V.TE, V.VE}, N + 'a non-conforming argument raises a TypeError')
        return 'reject-argument'
    I.prove(called, N + 'called if all arguments conform')
    if I.decide(z3.Const('func_raises', BoolS)):
        I.prove(kind == 'raise' and val.attrs.get('origin') == 'func' and val.classes <= {V.TE, V.VE, 'user.Error'}, N + 'exceptions of the function are passed on')
        return 'func-raises'
    rk = I.to_obj('return')
    must_fit = z3.And(W.hint_has(FUNC, rk), I.checks_return, z3.Not(W.conforms(RET, W.hint_of(FUNC, rk)))) if is_z3(I.checks_return) else \
        (z3.And(W.hint_has(FUNC, rk), z3.Not(W.conforms(RET, W.hint_of(FUNC, rk)))) if I.checks_return else False)
    if I.decide(must_fit):
        I.prove(kind == 'raise' and val.classes <= {V.TE, V.VE}, N + 'a non-conforming result raises a TypeError')
        return 'reject-result'
    I.prove(kind == 'return' and isinstance(val, Sym) and z3.eq(val.t, RET), N + 'the result is handed through unchanged')
    return 'return'
