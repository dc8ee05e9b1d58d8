"""Contracts of ts2python/typeddict_shim.py (T01, T02)."""
import os
import z3
from pydv.engine import *
from pydv.interp import Exec
from pydv.spec import Spec, model, repo_fn

HERE = os.path.dirname(os.path.abspath(__file__))
MOD = 'ts2python.typeddict_shim'
META = MOD + '._TypedDictMeta'
TE = 'builtins.TypeError'
F = z3.Function
# annotations
(A_NONE, A_STR, A_FWD, A_ALIAS, A_BALIAS, A_UTYPE, A_CLASS, A_TYPEVAR, A_ANY) = range(9)
akind = F('akind', Obj, IntS)
a_origin = F('a_origin', Obj, Obj)
a_text = F('a_text', Obj, StrS)
a_hasnone = F('a_hasnone', Obj, BoolS)
mk_fwd = F('mk_fwd', Obj, Obj)
# bases
(B_TD, B_ROOT, B_GENERIC, B_DICT, B_STD, B_OTHER) = range(6)
bkind = F('bkind', Obj, IntS)
bann_has, bann = F('bann_has', Obj, Obj, BoolS), F('bann', Obj, Obj, Obj)
breq, bopt = F('breq', Obj, Obj, BoolS), F('bopt', Obj, Obj, BoolS)
nbases, base_at = z3.Int('nbases'), F('base_at', IntS, Obj)
# own annotations of the class body
own_n, own_key, own_idx, own_has, own_ann = z3.Int('own_n'), F('own_key', IntS, Obj), F('own_idx', Obj, IntS), F('own_has', Obj, BoolS), F('own_ann', Obj, Obj)


def axioms(I):
    t, b, k = z3.Consts('at ab ak', Obj)
    j = z3.Int('aj')
    A = []
    fa = lambda vs, body, *p: A.append(z3.ForAll(vs, body, patterns=list(p)))
    c = lambda id: I.ext_const(id)
    fa([t], z3.And(akind(t) >= 0, akind(t) <= 8), akind(t))
    fa([t], z3.And(z3.Implies(akind(t) == A_UTYPE, a_origin(t) == c('types.UnionType')),
                   z3.Implies(z3.Not(z3.Or([akind(t) == x for x in (A_ALIAS, A_BALIAS, A_UTYPE)])), a_origin(t) == c('None')),
                   z3.Implies(akind(t) == A_BALIAS, z3.And(a_origin(t) != c('typing.Union'), a_origin(t) != c('types.UnionType'), a_origin(t) != c('typing.NotRequired'), a_origin(t) != c('None'))),
                   z3.Implies(akind(t) == A_ALIAS, z3.And(a_origin(t) != c('types.UnionType'), a_origin(t) != c('None')))), a_origin(t))
    fa([t], z3.And(akind(mk_fwd(t)) == A_FWD, a_text(mk_fwd(t)) == a_text(t)), mk_fwd(t))
    fa([b], z3.And(bkind(b) >= 0, bkind(b) <= 5), bkind(b))
    # invariant of structure types: every member is in exactly one of the two sets
    fa([b, k], z3.Implies(bkind(b) == B_TD, z3.And(bann_has(b, k) == z3.Or(breq(b, k), bopt(b, k)), z3.Not(z3.And(breq(b, k), bopt(b, k))))), bann_has(b, k))
    fa([b, k], z3.Implies(bkind(b) == B_TD, z3.And(bann_has(b, k) == z3.Or(breq(b, k), bopt(b, k)), z3.Not(z3.And(breq(b, k), bopt(b, k))))), breq(b, k))
    fa([b, k], z3.Implies(bkind(b) == B_TD, z3.And(bann_has(b, k) == z3.Or(breq(b, k), bopt(b, k)), z3.Not(z3.And(breq(b, k), bopt(b, k))))), bopt(b, k))
    A.append(own_n >= 0); A.append(nbases >= 0)
    fa([j], z3.Implies(z3.And(0 <= j, j < own_n), z3.And(own_has(own_key(j)), own_idx(own_key(j)) == j)), own_key(j))
    fa([k], z3.Implies(own_has(k), z3.And(0 <= own_idx(k), own_idx(k) < own_n, own_key(own_idx(k)) == k)), own_has(k))
    return A


ORIG = {'typing.NotRequired': 'typing.NotRequired', 'typing.Union': 'typing.Union', 'types.UnionType': 'types.UnionType', 'typing.Generic': 'typing.Generic'}


def new_interp(reflect, deadline=None):
    I = Exec(reflect, deadline=deadline)
    for ax in axioms(I): I.fact(ax)
    I.inverse['own_key'] = lambda k: own_idx(k)
    I.attr_hooks.append(attr)
    I.setattr_hooks.append(setattr_)
    I.isinst_hooks.append(isinst)
    I.is_hooks.append(is_)
    I.eq_hooks.append(eq)
    I.contains_hooks.append(contains)
    I.type_hooks = [type_]
    I.callable_hooks = [lambda I, v: True if isinstance(v, Sym) and v.k == 'ann' else NotImplemented]
    I.hasattr_hooks = [hasattr_]
    for n in ('typing.get_origin', MOD + '.get_origin'): I.models[n] = get_origin
    I.models['typing.ForwardRef'] = forward_ref
    I.models['builtins.type.__new__'] = type_new
    I.models['sys._getframe'] = lambda I, a, k: Sym(I.fresh(Obj, 'pyframe'), 'pyframe')
    env = dict(
        is_notrequired=model(lambda I, t: a_origin(t.t) == I.ext_const('typing.NotRequired')),
        is_union=model(lambda I, t: z3.Or(a_origin(t.t) == I.ext_const('typing.Union'), a_origin(t.t) == I.ext_const('types.UnionType'))),
        has_none=model(lambda I, t: a_hasnone(t.t)),
        is_forward=model(lambda I, t: z3.Or(akind(t.t) == A_STR, akind(t.t) == A_FWD)),
        forward_text=model(lambda I, t: a_text(t.t)))
    I.spec = Spec(I, os.path.join(HERE, 'spec_typeddict.py'), env)
    I.stats['paths'] = 0
    return I


def attr(I, o, name):
    if isinstance(o, Sym):
        if o.k == 'ann':
            if name == '__origin__': return Sym(a_origin(o.t), 'origin')
            if name == '__args__': return Sym(o.t, 'annargs')
            if name == '__forward_arg__':
                if not I.truth(akind(o.t) == A_FWD): raise PyRaise(Exc(['builtins.AttributeError']))
                return a_text(o.t)
            if name == '__forward_module__': return None
        if o.k == 'base' and name == '__dict__': return Sym(o.t, 'basedict')
        if o.k == 'basedict': return BM(o, lambda I, s, a, k, name=name: basedict(I, s, name, a, k), name)
        if o.k == 'base' and name in ('__annotations__', '__required_keys__', '__optional_keys__'):
            if not I.truth(bkind(o.t) == B_TD): raise PyRaise(Exc(['builtins.AttributeError']))
            return entry(I, o, name)
        if o.k == 'base' and name == '__total__':
            if not I.truth(bkind(o.t) == B_TD): raise PyRaise(Exc(['builtins.AttributeError']))
            return F('btotal', Obj, BoolS)(o.t)
        if o.k == 'base' and name in ('__name__', '__module__', '__qualname__'): return F('base' + name, Obj, StrS)(o.t)
        if o.k == 'pyframe': return Sym(F('fr_' + name, Obj, Obj)(o.t), 'pyframe') if name in ('f_globals', 'f_back') else \
            BM(o, lambda I, s, a, k: F('module_name', Obj, StrS)(s.t), name)
    if isinstance(o, Ext) and o.id == 'builtins.type' and name == '__new__': return Ext('builtins.type.__new__', {})
    return NotImplemented


def entry(I, b, name):
    if name == '__annotations__':
        return AMap(lambda k: bann_has(b.t, I.to_obj(k)), lambda k: Sym(bann(b.t, I.to_obj(k)), 'ann'))
    f = breq if name == '__required_keys__' else bopt
    return ASet(lambda k: f(b.t, I.to_obj(k)))


def basedict(I, b, name, a, k):
    if name == 'get' and a and a[0] in ('__annotations__', '__required_keys__', '__optional_keys__'):
        if I.truth(bkind(b.t) == B_TD): return entry(I, b, a[0])
        return a[1] if len(a) > 1 else None
    raise Unsupported(f'__dict__.{name} of a base class')


def setattr_(I, o, name, v):
    if isinstance(o, Sym) and o.k == 'ann' and z3.is_app(o.t) and o.t.decl().name() == 'mk_fwd': return None
    return NotImplemented


def isinst(I, v, cls):
    if isinstance(v, Sym) and v.k == 'ann' and isinstance(cls, Ext):
        k = {'builtins.str': (A_STR,), 'typing.ForwardRef': (A_FWD,), 'typing._GenericAlias': (A_ALIAS,), 'types.GenericAlias': (A_BALIAS,),
             'types.UnionType': (A_UTYPE,), 'builtins.type': (A_CLASS,), 'typing.TypeVar': (A_TYPEVAR,)}.get(cls.id)
        if k: return z3.Or([akind(v.t) == x for x in k])
        if cls.id == 'typing._SpecialForm':     # valid annotations: no special form but Any and NoReturn
            return z3.And(akind(v.t) == A_ANY, z3.Or([F('is:typing.' + n, Obj, BoolS)(v.t) for n in ('Any', 'NoReturn')]))
    if isinstance(v, Sym) and v.k == 'anytype' and isinstance(cls, Ext):
        if cls.id == 'typing._TypedDictMeta': return bkind(v.t) == B_STD
        if cls.id == META: return z3.Or(bkind(v.t) == B_TD, bkind(v.t) == B_ROOT)
        if cls.id == 'builtins.type': return F('is_class', Obj, BoolS)(v.t)
        raise Unsupported(f'isinstance(typ, {cls.id})')
    if isinstance(v, Ext) and isinstance(cls, Ext) and v.d.get('k') == 'class':
        if cls.id in ('typing.ForwardRef', 'typing._GenericAlias', 'builtins.str', 'typing._SpecialForm', 'types.UnionType', 'typing.TypeVar'): return False
        if cls.id == 'builtins.type': return True
    return NotImplemented


def origin_of(I, v): return a_origin(v.t) if v.k != 'base' else None


def is_(I, a, b):
    if a.k == 'origin' and (isinstance(b, Ext) or b is None): return a.t == I.to_obj(b)
    if a.k == 'base' and isinstance(b, Ext):
        if b.id == 'builtins.dict': return bkind(a.t) == B_DICT
        if b.id == 'typing.Generic': return bkind(a.t) == B_GENERIC
    if a.k == 'baseorigin' and isinstance(b, Ext) and b.id == 'typing.Generic': return bkind(a.t) == B_GENERIC
    if a.k == 'basetype' and isinstance(b, Ext):
        if b.id == META: return z3.Or(bkind(a.t) == B_TD, bkind(a.t) == B_ROOT)
        if b.id == 'typing._TypedDictMeta': return bkind(a.t) == B_STD
    if a.k == 'ann':
        if b is None: return akind(a.t) == A_NONE
        if isinstance(b, Ext):
            e = I.ext_const(b.id)
            return z3.And(akind(a.t) == (A_ANY if b.id in ('typing.Any', 'typing.NoReturn') else A_CLASS), a.t == e)
    return NotImplemented


NOT_TYPES = tuple(m + n for m in ('typing.', 'typing_extensions.') for n in ('Generic', 'Protocol', 'ClassVar', 'Final'))


def eq(I, a, b):
    if a.k in ('ann', 'origin', 'base', 'basetype', 'baseorigin') and (isinstance(b, Ext) or b is None):
        if isinstance(b, Ext) and a.k == 'ann' and b.id in NOT_TYPES: return False    # valid annotations
        if isinstance(b, Ext) and a.k == 'ann' and b.id in ('typing.Any', 'typing.NoReturn'):
            return z3.And(akind(a.t) == A_ANY, F('is:' + b.id, Obj, BoolS)(a.t))
        if isinstance(b, Ext) and a.k == 'origin' and b.id in NOT_TYPES: return False
        return is_(I, a, b)
    return NotImplemented


def contains(I, c, x):
    if c.k == 'annargs' and isinstance(x, Ext) and x.id == 'builtins.NoneType': return a_hasnone(c.t)
    return NotImplemented


def type_(I, v):
    if isinstance(v, Sym) and v.k == 'base': return Sym(v.t, 'basetype')
    return NotImplemented


def get_origin(I, a, k):
    v = a[0]
    if isinstance(v, Sym): return Sym(v.t, 'baseorigin') if v.k == 'base' else Sym(a_origin(v.t), 'origin')
    return None


def forward_ref(I, a, k):
    v = a[0]
    if isinstance(v, Sym) and v.k == 'ann': return Sym(mk_fwd(v.t), 'ann')
    raise Unsupported('ForwardRef')


def hasattr_(I, o, name):
    if isinstance(o, Sym) and o.k == 'ann' and name == '__forward_module__': return True
    if isinstance(o, Ref) and isinstance(I.cell(o), ObjCell) and name == '__total__': return name in I.cell(o).attrs
    return NotImplemented


def type_new(I, a, k):
    """type.__new__(meta, name, bases, ns): a new class with the entries of ns as attributes."""
    meta, name, bases, ns = a
    cls = {'%meta': meta, '%name': name, '%bases': bases, '__module__': F('ns_module', StrS)() if False else z3.Const('ns_module', StrS)}
    return I.alloc(ObjCell('tdclass', cls))


def own_namespace(I):
    """Name space of a class body: own annotations (or none at all)."""
    if I.choose(2) == 1:
        I.assume(own_n == 0)
        k = z3.Const('nk', Obj)
        I.fact(z3.Implies(own_n == 0, z3.ForAll([k], z3.Not(own_has(k)), patterns=[own_has(k)])))
        return I.new_dict([('__module__', z3.Const('ns_module', StrS))])
    return I.new_dict([('__module__', z3.Const('ns_module', StrS)), ('__annotations__', own_map(I))])


def own_map(I):
    seq = ASeq(own_n, lambda j: Sym(own_key(zint(j)), 'name'))
    return I.alloc(DictCell((('amap', AMap(lambda k: own_has(I.to_obj(k)), lambda k: Sym(own_ann(I.to_obj(k)), 'ann'), seq)),)))


def prove_new(I):
    """_TypedDictMeta.__new__: members, required and optional keys of the new type; refusal of other bases."""
    f = repo_fn(I, MOD, ['_TypedDictMeta', '__new__'])
    if f is None: raise Unsupported('_TypedDictMeta.__new__ not found')

    def thunk():
        meta = I.load_global(MOD, '_TypedDictMeta')
        kw = {'total': z3.Const('total', BoolS)} if I.choose(2) else {}
        bases = ASeq(nbases, lambda j: Sym(base_at(zint(j)), 'base'))
        ns = own_namespace(I)
        name = z3.Const('typename', StrS)
        try: r = I.inline(f, [meta, name, bases, ns], kw)
        except PyRaise as e:
            j = z3.Int('jb')
            ok = z3.Or([bkind(base_at(j)) == b for b in (B_TD, B_ROOT, B_GENERIC, B_DICT)])
            I.prove(e.exc.classes == {TE}, '_TypedDictMeta.__new__: raises only TypeError')
            I.prove(z3.Exists([j], z3.And(0 <= j, j < nbases, z3.Not(ok))), '_TypedDictMeta.__new__: refuses only foreign base classes')
            return 'refused'
        jb = z3.Int('jb0')
        I.prove(z3.Implies(z3.And(0 <= jb, jb < nbases), z3.Or([bkind(base_at(jb)) == b for b in (B_TD, B_ROOT, B_GENERIC, B_DICT)])),
                '_TypedDictMeta.__new__: refuses every foreign base class')
        check_members(I, r)
        return 'created'
    return f, I.explore(thunk)


def check_members(I, r):
    N = '_TypedDictMeta.__new__: '
    if not isinstance(r, Ref) or not isinstance(I.cell(r), ObjCell): return I.prove(False, N + 'returns the new type')
    at = I.cell(r).attrs
    for n in ('__annotations__', '__required_keys__', '__optional_keys__'):
        if n not in at: return I.prove(False, N + f'sets {n}')
    I.prove(isinstance(at['%meta'], Ext) and at['%meta'].id == META, N + 'the type is a TypedDict')
    I.prove(at['%bases'] == (Ext('builtins.dict'),), N + 'instances are plain dictionaries')
    k = z3.Const('mk', Obj)
    K = Sym(k, 'name')
    req, opt = I.as_aset(at['__required_keys__']), I.as_aset(at['__optional_keys__'])
    ann = at['__annotations__']
    in_req, in_opt, member = zbool(req.has(K)), zbool(opt.has(K)), zbool(I.dict_has_term(ann, K))
    # the last declaration of member k
    if I.decide(own_has(k)):
        o = I.truth(I.spec.call('spec_is_optional', Sym(own_ann(k), 'ann')))
        want_opt, want_req = z3.BoolVal(o), z3.BoolVal(not o)
    else:
        j, i = z3.Ints('jlast ilast')
        decl = lambda x: z3.And(bkind(base_at(x)) == B_TD, bann_has(base_at(x), k))
        jl = z3.Int('jdecl')
        I.assume(z3.Or(z3.And(0 <= jl, jl < nbases, decl(jl), z3.ForAll([i], z3.Implies(z3.And(jl < i, i < nbases), z3.Not(decl(i))))),
                       z3.And(jl == -1, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nbases), z3.Not(decl(i)))))))
        want_opt, want_req = z3.And(jl >= 0, bopt(base_at(jl), k)), z3.And(jl >= 0, breq(base_at(jl), k))
    I.prove(in_opt == want_opt, N + 'optional iff the last declaration is optional')
    I.prove(in_req == want_req, N + 'required iff the last declaration is not optional')
    I.prove(member == z3.Or(want_opt, want_req), N + 'the members are exactly the declared ones')
    I.prove(z3.Not(z3.And(in_req, in_opt)), N + 'no member is both required and optional')


# ------------------------------------------------------------------ T02

def prove_functional(I):
    """TypedDict(name, {..}) and TypedDict(name, **kw) make the same type as the class syntax without bases."""
    f = repo_fn(I, MOD, ['TypedDict'])
    if f is None: raise Unsupported('TypedDict not found')
    result = Sym(z3.Const('new_type', Obj), 'obj')

    def meta_call(I, args, kwargs):
        I.captured = (args, kwargs)
        return result
    I.models[META] = meta_call

    def thunk():
        I.captured = None
        name = z3.Const('typename', StrS)
        mode = I.choose(4)
        total = {'total': z3.Const('total', BoolS)} if I.choose(2) else {}
        fields = own_map(I)
        empty = I.new_dict()
        try:
            if mode == 0: r = I.inline(f, [name, fields], total)                      # dictionary
            elif mode == 1: r = inline_kw(I, f, name, fields, total)                  # keywords
            elif mode == 2: r = inline_kw(I, f, name, fields, total, [empty])         # both
            else: r = I.inline(f, [name], total)                                      # no members
        except PyRaise as e:
            I.prove(e.exc.classes == {TE}, 'TypedDict: raises only TypeError')
            if mode == 2: I.prove(own_n > 0, 'TypedDict: refused only if keywords are given')
            else: I.prove(False, 'TypedDict: refuses only a dictionary together with keywords')
            return 'refused'
        if mode == 2: I.prove(own_n == 0, 'TypedDict: a dictionary together with keywords is refused')
        I.prove(r is result and I.captured is not None, 'TypedDict: yields the type made by the meta-class')
        if I.captured is None: return 'created'
        args, kwargs = I.captured
        I.prove(len(args) == 3 and args[0] is name, 'TypedDict: the type has the name given')
        I.prove(len(args) == 3 and args[1] == (), 'TypedDict: no bases')
        ns = args[2]
        an = I.dict_get(ns, '__annotations__')
        k = z3.Const('fk', Obj)
        K = Sym(k, 'name')
        want = own_has(k) if mode in (0, 1) else z3.BoolVal(False)
        I.prove(zbool(I.dict_has_term(an, K)) == want, 'TypedDict: the members are exactly the fields given')
        if mode in (0, 1) and I.decide(own_has(k)):
            v = I.dict_get(an, K)
            I.prove(v.t == own_ann(k) if isinstance(v, Sym) else False, 'TypedDict: the members have the types given')
        return 'created'
    return f, I.explore(thunk)


def inline_kw(I, f, name, fields, total, pos=()):
    """Call with an unknown set of keyword arguments (not named like a parameter)."""
    a = f.node.args
    if a.kwarg is None: raise Unsupported('TypedDict without **kwargs')
    marker = '%kw'
    old = I.bind

    def bind(fn, args, kwargs):
        if marker in kwargs and fn is f:
            kwargs = dict(kwargs); d = kwargs.pop(marker)
            vars = old(fn, args, kwargs)
            vars[fn.node.args.kwarg.arg] = d
            return vars
        return old(fn, args, kwargs)
    I.bind = bind
    try: return I.inline(f, [name] + list(pos), dict(total, **{marker: fields}))
    finally: del I.bind


def prove_is_typeddict(I):
    f = repo_fn(I, MOD, ['is_typeddict'])
    if f is None: raise Unsupported('is_typeddict not found')

    def thunk():
        t = Sym(z3.Const('T', Obj), 'anytype')
        r = I.truth(I.inline(f, [t], {}))
        want = z3.Or([bkind(t.t) == b for b in (B_TD, B_ROOT, B_STD)])
        I.prove(want if r else z3.Not(want), 'is_typeddict: true exactly for TypedDict types (replacement or standard library)')
        return 'yes' if r else 'no'
    return f, I.explore(thunk)


def prove_class_syntax(I):
    """Closed facts about the module, evaluated on the real objects (proof by computation)."""
    R = I.reflect

    def fact(name, expr):
        d = R.eval(MOD, expr)
        I.prove(d.get('v') is True, name + ('' if d.get('v') is True else f' ({d})'))
    fact('class syntax: TypedDict as base is replaced by a class of the meta-class', 'all(type(b) is _TypedDictMeta for b in TypedDict.__mro_entries__((TypedDict,)))')
    fact('class syntax: that base class has no members', "all(not (set(vars(b)) & {'__annotations__', '__required_keys__', '__optional_keys__', '__total__'}) for b in TypedDict.__mro_entries__((TypedDict,)))")
    fact('calling a type made by the meta-class makes a plain dictionary', "vars(_TypedDictMeta)['__call__'] is dict")
    fact('the meta-class does not change types after their creation', "not ({'__init__', '__setattr__', '__getattribute__', '__getattr__', '__prepare__', '__init_subclass__'} & set(vars(_TypedDictMeta)))")
    fact('the generic replacement is the same', 'GenericTypedDict is TypedDict')
    return None, [('normal', 'closed', [], None, [])]
