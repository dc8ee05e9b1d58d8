"""Models of built-in functions and methods (trusted: the semantics of CPython's
built-ins as used by the code under verification)."""
import z3
from .engine import *
from .interp import StarSeq, contains_inner_ref

BUILTINS = {}
NI = NotImplemented


def builtin(*names):
    def deco(f):
        for n in names: BUILTINS['builtins.' + n if '.' not in n else n] = f
        return f
    return deco


PYTYPES = {bool: 'builtins.bool', int: 'builtins.int', str: 'builtins.str', float: 'builtins.float',
           tuple: 'builtins.tuple', type(None): 'builtins.NoneType'}
MRO = {'builtins.bool': ['builtins.bool', 'builtins.int', 'builtins.object']}


def no_kw(kwargs, *allowed):
    for k in kwargs:
        if k not in allowed: raise Unsupported(f'keyword argument {k}')


def type_id(I, v):
    """Class-id of a value if it is known statically, else None."""
    if isinstance(v, (bool, int, str, float, tuple)) or v is None: return PYTYPES[type(v)]
    if is_bool(v): return 'builtins.bool'
    if is_int(v): return 'builtins.int'
    if is_str(v): return 'builtins.str'
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ListCell): return 'builtins.list' if c.kind == 'list' else c.kind
        if isinstance(c, DictCell): return 'builtins.dict'
        if isinstance(c, SetCell): return 'builtins.set'
        if isinstance(c, ObjCell): return c.cls.replace(':', '.') if isinstance(c.cls, str) else None
    if isinstance(v, ConstContainer): return 'builtins.' + v.k
    if isinstance(v, (Fn, Model)): return 'builtins.function'
    if isinstance(v, BM): return 'builtins.method'
    if isinstance(v, Ext) and v.d.get('k') == 'class': return 'builtins.type'
    if isinstance(v, Ext) and v.d.get('k') == 'ext': return v.d.get('type')
    return None


def isinstance_(I, v, cls):
    if isinstance(cls, tuple):
        rs = [isinstance_(I, v, c) for c in cls]
        if any(r is True for r in rs): return True
        rs = [zbool(r) for r in rs if r is not False]
        return z3.Or(rs) if rs else False
    for h in I.isinst_hooks:
        r = h(I, v, cls)
        if r is not NI: return r
    if isinstance(cls, Sym) or isinstance(v, Sym):
        if cls is None: raise PyRaise(Exc(['builtins.TypeError']))
        return I.isinst_f(I.to_obj(v), I.to_obj(cls))
    if not isinstance(cls, Ext):
        if isinstance(cls, Fn) or cls is None: raise PyRaise(Exc(['builtins.TypeError']))
        raise Unsupported(f'isinstance with {cls!r}')
    cid = ALIASES.get(cls.id, cls.id)
    if cid == 'builtins.object': return True
    if isinstance(v, Exc):
        yes = {c for c in v.classes if c == cid or cid in I.exc_bases(c)}
        if yes == v.classes: return True
        if not yes: return False
        raise Unsupported('isinstance of exception')
    tid = type_id(I, v)
    if tid is None: raise Unsupported(f'isinstance({v!r}, {cls!r})')
    if cid in ('collections.abc.Callable', 'typing.Callable'):
        return isinstance(v, (Fn, BM, Model, Ext))
    if cid in ('collections.abc.Sequence', 'typing.Sequence'):
        return tid in ('builtins.str', 'builtins.list', 'builtins.tuple')
    if cid in ('collections.abc.Iterable', 'typing.Iterable'):
        return tid in ('builtins.str', 'builtins.list', 'builtins.tuple', 'builtins.dict', 'builtins.set')
    return cid == tid or cid in MRO.get(tid, ())


@builtin('isinstance')
def b_isinstance(I, args, kwargs): return isinstance_(I, args[0], args[1])


@builtin('issubclass')
def b_issubclass(I, args, kwargs):
    c, d = args
    for h in getattr(I, 'issub_hooks', ()):
        r = h(I, c, d)
        if r is not NI: return r
    if isinstance(c, Ext) and isinstance(d, Ext) and 'mro' in c.d:
        return ALIASES.get(d.id, d.id) in c.d['mro']
    raise Unsupported(f'issubclass({c!r}, {d!r})')


@builtin('len')
def b_len(I, args, kwargs): return I.length(args[0])


@builtin('hasattr')
def b_hasattr(I, args, kwargs):
    o, name = args
    if not isinstance(name, str): raise Unsupported('hasattr with symbolic name')
    for h in getattr(I, 'hasattr_hooks', ()):
        r = h(I, o, name)
        if r is not NI: return r
    try:
        I.getattr(o, name)
        return True
    except PyRaise as e:
        if e.exc.classes == {'builtins.AttributeError'}: return False
        raise


@builtin('getattr')
def b_getattr(I, args, kwargs):
    o, name = args[:2]
    if not isinstance(name, str): raise Unsupported('getattr with symbolic name')
    if len(args) == 2: return I.getattr(o, name)
    for h in getattr(I, 'hasattr_hooks', ()):
        r = h(I, o, name)
        if r is not NI:
            if I.truth(r): return I.getattr(o, name)
            return args[2]
    try: return I.getattr(o, name)
    except PyRaise as e:
        if e.exc.classes == {'builtins.AttributeError'}: return args[2]
        raise


@builtin('setattr')
def b_setattr(I, args, kwargs):
    if not isinstance(args[1], str): raise Unsupported('setattr with symbolic name')
    I.setattr(args[0], args[1], args[2])


@builtin('callable')
def b_callable(I, args, kwargs):
    if isinstance(args[0], (Fn, BM, Model)): return True
    if isinstance(args[0], (str, int, tuple, Ref)) or args[0] is None: return False
    for h in getattr(I, 'callable_hooks', ()):
        r = h(I, args[0])
        if r is not NI: return r
    raise Unsupported('callable')


@builtin('id')
def b_id(I, args, kwargs): return z3.Function('py_id', Obj, IntS)(I.to_obj(args[0]))


@builtin('repr')
def b_repr(I, args, kwargs): return I.to_str(args[0], rep=True)


@builtin('print')
def b_print(I, args, kwargs): return None


@builtin('str')
def b_str(I, args, kwargs):
    if not args: return ''
    return I.to_str(args[0])


@builtin('bool')
def b_bool(I, args, kwargs): return I.truth(args[0]) if args else False


@builtin('int')
def b_int(I, args, kwargs):
    if not args: return 0
    v = args[0]
    if isinstance(v, bool): return int(v)
    if is_int(v): return v
    if is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, str):
        try: return int(v)
        except ValueError: raise PyRaise(Exc(['builtins.ValueError']))
    raise Unsupported('int()')


@builtin('abs')
def b_abs(I, args, kwargs):
    v = args[0]
    return abs(v) if isinstance(v, int) else z3.If(v >= 0, v, -v)


@builtin('min', 'max')
def b_minmax(I, args, kwargs): raise Unsupported('min/max')


def _min(I, args, kwargs, f=min):
    no_kw(kwargs)
    xs = args if len(args) > 1 else [s[1] for s in I.iter_segs(args[0]) if s[0] == 'item' or _unsup('min/max')]
    if all(isinstance(x, (int, str, float)) for x in xs): return f(xs)
    if all(is_int(x) for x in xs):
        r = zint(xs[0])
        for x in xs[1:]: r = z3.If(zint(x) < r, zint(x), r) if f is min else z3.If(zint(x) > r, zint(x), r)
        return z3.simplify(r)
    raise Unsupported('min/max')


def _unsup(what): raise Unsupported(what)


BUILTINS['builtins.min'] = lambda I, a, k: _min(I, a, k, min)
BUILTINS['builtins.max'] = lambda I, a, k: _min(I, a, k, max)


@builtin('type')
def b_type(I, args, kwargs):
    if len(args) != 1: raise Unsupported('type() with three arguments')
    v = args[0]
    for h in getattr(I, 'type_hooks', ()):
        r = h(I, v)
        if r is not NI: return r
    if isinstance(v, Sym): return Sym(z3.Function('py_type', Obj, Obj)(v.t), 'class')
    tid = type_id(I, v)
    if tid is None: raise Unsupported(f'type({v!r})')
    return Ext(tid, {'k': 'class', 'id': tid, 'mro': MRO.get(tid, [tid, 'builtins.object'])})


@builtin('list')
def b_list(I, args, kwargs):
    if not args: return I.new_list()
    return I.alloc(ListCell(I.iter_segs(args[0])))


@builtin('tuple')
def b_tuple(I, args, kwargs):
    if not args: return ()
    v = args[0]
    if isinstance(v, tuple): return v
    segs = I.iter_segs(v)
    if all(s[0] == 'item' for s in segs): return tuple(s[1] for s in segs)
    return I.alloc(ListCell(segs, kind='builtins.tuple'))


@builtin('set', 'frozenset')
def b_set(I, args, kwargs):
    if not args: return I.alloc(SetCell())
    v = args[0]
    if isinstance(v, Ref) and isinstance(I.cell(v), SetCell): return I.alloc(I.cell(v))
    s = I.as_aset(v)
    if s.seq is not None and isinstance(s.seq.n, int):
        xs = [s.seq.at(i) for i in range(s.seq.n)]
        for x in xs: I.require_hashable(x)
        return I.alloc(SetCell([('add', x) for x in xs]))
    return I.alloc(SetCell([('union', s)]))


@builtin('dict')
def b_dict(I, args, kwargs):
    r = I.new_dict()
    if args: I.dict_update(r, args[0])
    for k, v in kwargs.items():
        if k == '**': I.dict_update(r, v)
        else: I.dict_set(r, k, v)
    return r


@builtin('range')
def b_range(I, args, kwargs):
    lo, hi, st = 0, None, 1
    if len(args) == 1: hi = args[0]
    elif len(args) == 2: lo, hi = args
    else: lo, hi, st = args
    if all(isinstance(x, int) for x in (lo, hi, st)):
        r = range(lo, hi, st)
        return ASeq(len(r), lambda j: r[j])
    if st == 1:
        n = zint(hi) - zint(lo)
        n = z3.simplify(z3.If(n > 0, n, z3.IntVal(0)))
        return ASeq(n, lambda j: z3.simplify(zint(lo) + j))
    raise Unsupported('range')


@builtin('enumerate')
def b_enumerate(I, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get('start', 0)
    segs = I.iter_segs(args[0])
    out, k = [], start
    for s in segs:
        if s[0] == 'item':
            out.append(('item', (k, s[1])))
            k = k + 1
        else:
            c = s[1]
            if {len(v) for _, v in c.alts} != {1}: raise Unsupported('enumerate over filtered sequence')
            k0 = k
            out.append(('comp', Comp(c.n, c.j0, [(cond, [(z3.simplify(zint(k0) + c.j0), v[0])]) for cond, v in c.alts])))
            k = z3.simplify(zint(k) + zint(c.n))
    return Gen(out)


@builtin('zip')
def b_zip(I, args, kwargs):
    no_kw(kwargs)
    ss = [I.iter_segs(a) for a in args]
    if all(s[0] == 'item' for x in ss for s in x):
        return Gen([('item', t) for t in zip(*[[s[1] for s in x] for x in ss])])
    if len(ss) == 2 and all(len(x) == 1 and x[0][0] == 'comp' for x in ss):
        c, d = ss[0][0][1], ss[1][0][1]
        if {len(v) for _, v in c.alts} != {1} or {len(v) for _, v in d.alts} != {1}:
            raise Unsupported('zip over filtered sequences')
        n = z3.If(zint(c.n) < zint(d.n), zint(c.n), zint(d.n))
        j = z3.Int(I.fresh_name('jz'))
        alts = [(z3.And(z3.substitute(c1, (c.j0, j)), z3.substitute(d1, (d.j0, j))),
                 [(I.subst(v[0], [(c.j0, j)]), I.subst(w[0], [(d.j0, j)]))])
                for c1, v in c.alts for d1, w in d.alts]
        alts = [(z3.simplify(c1), v) for c1, v in alts]
        return Gen([('comp', Comp(z3.simplify(n), j, alts))])
    # one concrete, one abstract: length of the shorter
    if len(ss) == 2:
        a, b = ss
        conc, absn = (a, b) if all(s[0] == 'item' for s in a) else (b, a)
        if len(absn) == 1 and all(s[0] == 'item' for s in conc):
            c = absn[0][1]
            if {len(v) for _, v in c.alts} != {1}: raise Unsupported('zip over filtered sequences')
            out = []
            for i, s in enumerate(conc):
                if not I.decide(zint(c.n) > i): break
                v = I.comp_at(c, i)[0]
                out.append(('item', (s[1], v) if conc is a else (v, s[1])))
            return Gen(out)
    raise Unsupported('zip')


@builtin('reversed')
def b_reversed(I, args, kwargs):
    segs = I.iter_segs(args[0])
    out = []
    for s in reversed(segs):
        if s[0] == 'item': out.append(s)
        else:
            c = s[1]
            if {len(v) for _, v in c.alts} != {1}: raise Unsupported('reversed filtered sequence')
            j = z3.Int(I.fresh_name('jr'))
            idx = zint(c.n) - 1 - j
            out.append(('comp', Comp(c.n, j, [(z3.substitute(cond, (c.j0, idx)), [I.subst(v[0], [(c.j0, idx)])]) for cond, v in c.alts])))
    return Gen(out)


@builtin('any', 'all')
def b_any(I, args, kwargs): raise Unsupported('any/all over a non-generator')


def _anyall(is_any):
    def f(I, args, kwargs):
        segs = I.iter_segs(args[0])
        from .interp import ReturnEx

        def body(v):
            if I.truth(v) == is_any: raise ReturnEx(is_any)
        try: I.run_loop(('anyall', id(args[0]), I.fresh_no), Gen(segs), body)
        except ReturnEx as e: return e.value
        return not is_any
    return f


BUILTINS['builtins.any'] = _anyall(True)
BUILTINS['builtins.all'] = _anyall(False)


def sorted_set(I, v, key):
    """The elements of a set in the order given by a key that tells all elements from each other:
    a sequence that depends on the set and the key only."""
    if isinstance(v, Ref) and isinstance(I.cell(v), ListCell):
        c, s = I.set_lists.get(id(I.cell(v)), (None, None))
        if c is not I.cell(v): return None
    elif isinstance(v, Ref) and isinstance(I.cell(v), SetCell): s = I.as_aset(v)
    else: s = v
    if not isinstance(s, ASet) or s.seq is not None: return None
    x, y = (z3.Const(n, I.set_element_sort) for n in ('element', 'some_element'))
    ks = [x]
    if key is not None:
        old, I.pure = I.pure, True
        try: ks = I.call(key, [x], {})
        finally: I.pure = old
        ks = list(ks) if isinstance(ks, tuple) else [ks]
    if not all(is_z3(k) for k in ks): raise Unsupported('key of sorted')
    name = None
    if any(z3.eq(k, x) for k in ks):
        sig = [k.sexpr() for k in ks]
        for sig2, s2, n2 in I.sorted_sets:
            if sig == sig2 and I.valid(zbool(s.has(y)) == zbool(s2.has(y))): name = n2
    if name is None:
        name = I.fresh_name('sorted')
        if any(z3.eq(k, x) for k in ks): I.sorted_sets.append((sig, s, name))
    n, at = z3.Int('number_' + name), z3.Function('at_' + name, IntS, I.set_element_sort)
    I.fact(n >= 0)
    return I.alloc(ListCell([('comp', I.comp_of_seq(ASeq(n, lambda j: at(zint(j)))))]))


@builtin('sorted')
def b_sorted(I, args, kwargs):
    segs = None
    try: segs = I.iter_segs(args[0])
    except Unsupported: pass
    if segs is not None and all(s[0] == 'item' and isinstance(s[1], (str, int)) for s in segs) and not kwargs:
        return I.new_list(sorted(s[1] for s in segs))
    if segs == []: return I.new_list()
    r = sorted_set(I, args[0], kwargs.get('key')) if set(kwargs) <= {'key'} else None
    if r is not None: return r
    # a sequence that depends on the set of elements only
    for h in getattr(I, 'sorted_hooks', ()):
        r = h(I, args[0], kwargs)
        if r is not NI: return r
    raise Unsupported('sorted')


@builtin('iter')
def b_iter(I, args, kwargs):
    if len(args) != 1: raise Unsupported('iter with sentinel')
    return Gen(I.iter_segs(args[0]))


@builtin('next')
def b_next(I, args, kwargs):
    v = args[0]
    if isinstance(v, Gen) and v.segs and v.segs[0][0] == 'item':
        return v.segs.pop(0)[1]
    if isinstance(v, Gen) and not v.segs:
        if len(args) > 1: return args[1]
        raise PyRaise(Exc(['builtins.StopIteration']))
    raise Unsupported('next')


@builtin('map')
def b_map(I, args, kwargs):
    f = args[0]
    acc = I.new_list()
    I.run_loop(('map', id(f), I.fresh_no), args[1], lambda v: I.list_append(acc, I.call(f, [v], {})))
    return Gen(I.segs(acc))


@builtin('filter')
def b_filter(I, args, kwargs):
    f = args[0]
    acc = I.new_list()

    def body(v):
        if I.truth(v if f is None else I.call(f, [v], {})): I.list_append(acc, v)
    I.run_loop(('filter', id(f), I.fresh_no), args[1], body)
    return Gen(I.segs(acc))


@builtin('sum')
def b_sum(I, args, kwargs):
    segs = I.iter_segs(args[0])
    if all(s[0] == 'item' and is_int(s[1]) for s in segs):
        r = 0
        for s in segs: r = r + s[1]
        return r
    raise Unsupported('sum')


@builtin('typing.cast')
def b_cast(I, args, kwargs): return args[1]


@builtin('functools.wraps')
def b_wraps(I, args, kwargs): return Model(lambda I, a, k: a[0], 'wraps')


@builtin('functools.lru_cache')
def b_lru(I, args, kwargs): raise Unsupported('lru_cache')


@builtin('functools.partial')
def b_partial(I, args, kwargs):
    f, rest = args[0], list(args[1:])
    return Model(lambda I, a, k: I.call(f, rest + list(a), {**kwargs, **k}), 'partial')


# ------------------------------------------------------------------ methods
def method(I, o, kind, name, args, kwargs):
    f = globals().get(f'm_{kind}_{name}')
    if f is None:
        f = globals().get(f'm_{kind}')
        if f is None: raise Unsupported(f'method {kind}.{name}')
        return f(I, o, name, args, kwargs)
    return f(I, o, args, kwargs)


STR_BOOL = {'isidentifier', 'isupper', 'islower', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isnumeric', 'istitle', 'isdecimal'}
STR_STR = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'capitalize', 'title', 'replace', 'removeprefix', 'removesuffix',
           'expandtabs', 'ljust', 'rjust', 'zfill', 'casefold', 'swapcase', 'center', 'translate', 'format'}


def m_str(I, o, name, args, kwargs):
    conc = isinstance(o, str) and all(isinstance(a, (str, int, bool)) or a is None or
                                      (isinstance(a, tuple) and all(isinstance(x, str) for x in a)) for a in args) and not kwargs
    if conc:
        try: r = getattr(o, name)(*args)
        except (ValueError, IndexError): raise PyRaise(Exc(['builtins.ValueError']))
        except AttributeError: raise PyRaise(Exc(['builtins.AttributeError']))
        if isinstance(r, list): return I.new_list(r)
        return r
    s = zstr(o)
    if name in ('startswith', 'endswith') and len(args) == 1:
        P = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
        if isinstance(args[0], tuple): return z3.Or([P(zstr(a), s) for a in args[0]])
        return z3.simplify(P(zstr(args[0]), s))
    if name in ('find', 'index') and len(args) in (1, 2):
        r = z3.IndexOf(s, zstr(args[0]), zint(args[1]) if len(args) > 1 else z3.IntVal(0))
        if len(args) == 1: I.fact((r >= 0) == z3.Contains(s, zstr(args[0])))
        if name == 'index':
            if not I.decide(r >= 0): raise PyRaise(Exc(['builtins.ValueError']))
        return r
    if name == 'join': return join(I, o, args[0])
    if name == 'replace' and len(args) == 2 and isinstance(args[0], str): pass
    if name in ('strip', 'lstrip', 'rstrip') and not args:
        r = z3.Function(f'str_{name}', StrS, StrS)(s)
        return r
    if name in ('removeprefix', 'removesuffix') and len(args) == 1:
        p = zstr(args[0])
        n, k = z3.Length(s), z3.Length(p)
        if name == 'removeprefix': return z3.simplify(z3.If(z3.PrefixOf(p, s), z3.SubString(s, k, n - k), s))
        return z3.simplify(z3.If(z3.And(z3.SuffixOf(p, s), k > 0), z3.SubString(s, 0, n - k), s))
    if kwargs: raise Unsupported(f'str.{name} with keywords')
    zs = []
    for a in args:
        if is_str(a): zs.append(zstr(a))
        elif is_int(a): zs.append(zint(a))
        else: raise Unsupported(f'str.{name}({a!r})')
    if name == 'rfind' and len(zs) == 1 and z3.is_string_value(zs[0]) and z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT and z3.is_string_value(s.arg(s.num_args() - 1)):
        # the last occurrence in a constant tail, if there is one, else it begins in front of the tail
        from .interp import zstr_value
        tail, pat = zstr_value(s.arg(s.num_args() - 1)), zstr_value(zs[0])
        front = z3.simplify(z3.Sum([z3.Length(s.arg(i)) for i in range(s.num_args() - 1)]))
        if pat and tail.rfind(pat) >= 0: return z3.simplify(front + tail.rfind(pat))
        if pat: I.fact(z3.Function('str_rfind', StrS, StrS, IntS)(s, zs[0]) < front)
    if name == 'rpartition' and len(zs) == 1:
        r = m_str(I, s, 'rfind', [args[0]], {})
        pre, post = rfind_parts(s, zs[0])
        return (pre, zs[0], post) if I.decide(r >= 0) else ('', '', s)
    if name in ('partition', 'rpartition'):
        fs = [z3.Function(f'str_{name}_{i}', StrS, *[x.sort() for x in zs], StrS)(s, *zs) for i in range(3)]
        return tuple(fs)
    if name in ('split', 'rsplit', 'splitlines'):
        nf = z3.Function(f'str_{name}_n', StrS, *[x.sort() for x in zs], IntS)(s, *zs)
        at = z3.Function(f'str_{name}_at', StrS, *[x.sort() for x in zs], IntS, StrS)
        I.fact(nf >= (1 if zs and name != 'splitlines' else 0))
        lst = ListCell([('comp', I.comp_of_seq(ASeq(nf, lambda j: at(s, *zs, zint(j)))))])
        if name == 'split' and len(zs) == 1: lst.origin = (s, args[0])
        return I.alloc(lst)
    if name in STR_BOOL: rs = BoolS
    elif name in STR_STR: rs = StrS
    elif name in ('rfind', 'count', 'rindex'): rs = IntS
    elif name == 'encode': return Sym(z3.Function('str_encode', StrS, Obj)(s), 'bytes')
    else: raise Unsupported(f'str.{name}')
    r = z3.Function(f'str_{name}', StrS, *[x.sort() for x in zs], rs)(s, *zs)
    if name == 'rfind':
        p = zs[0]
        if len(zs) == 1:
            pre, post = rfind_parts(s, p)
            I.fact(r >= -1)
            I.fact((r >= 0) == z3.Contains(s, p))
            I.fact(z3.Implies(r >= 0, z3.And(s == z3.Concat(pre, p, post), z3.Length(pre) == r)))
            if z3.is_string_value(p) and len(p.as_string()) == 1: I.fact(z3.Implies(r >= 0, z3.Not(z3.Contains(post, p))))
    if name == 'count': I.fact(r >= 0)
    return r


def rfind_parts(s, p):
    """What is before and behind the last occurrence of p in s."""
    return tuple(z3.Function('str_rfind_' + x, StrS, StrS, StrS)(s, p) for x in ('pre', 'post'))


def rfind_slice(I, s, lo, hi):
    """s[:r], s[r + len(p):] for r = s.rfind(p) >= 0; None if the slice has another form."""
    t = hi if lo is None else lo if hi is None else None
    if not is_z3(t): return None
    rs = [x for x in [t] + (list(t.children()) if z3.is_add(t) else []) if z3.is_app(x) and x.decl().name() == 'str_rfind' and x.num_args() == 2]
    if len(rs) != 1 or not z3.eq(rs[0].arg(0), s): return None
    r, p = rs[0], rs[0].arg(1)
    off = z3.simplify(t - r)
    if hi is None and z3.is_string_value(p) and len(p.as_string()) == 1 and z3.eq(off, z3.IntVal(1)):
        if not I.decide(r >= 0): return s          # from the beginning on
    elif not I.valid(r >= 0): return None
    pre, post = rfind_parts(s, p)
    if hi is not None: return pre if z3.eq(off, z3.IntVal(0)) else None
    return post if I.valid(off == z3.Length(p)) else None


def flat(s):
    """The parts of a concatenation."""
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT: return [y for x in s.children() for y in flat(x)]
    return [s]


def splice_text(I, v, sep):
    """Text of an element in a join: pieces of a split text rejoin to the text with another separator."""
    if isinstance(v, Sym):
        if isinstance(v.k, tuple) and v.k[0] == 'splice': return m_str(I, v.k[1], 'replace', [v.k[2], sep], {})
        for h in getattr(I, 'text_hooks', ()):
            r = h(I, v)
            if r is not NotImplemented: return r
    return v


def join(I, sep, seq):
    segs = I.iter_segs(seq)
    if any(isinstance(v, Sym) for s in segs for v in ([s[1]] if s[0] == 'item' else [x for _, vs in s[1].alts for x in vs])):
        segs = [('item', splice_text(I, s[1], sep)) if s[0] == 'item' else
                ('comp', Comp(s[1].n, s[1].j0, [(c, [splice_text(I, x, sep) for x in vs]) for c, vs in s[1].alts])) for s in segs]
    k = max([i for i, s in enumerate(segs) if s[0] == 'comp'], default=-1)
    if 0 <= k < len(segs) - 1 and {len(v) for _, v in segs[k][1].alts} == {1} and all(is_str(s[1]) for s in segs[k + 1:]) and I.valid(zint(segs[k][1].n) > 0):
        # a constant tail
        parts = [join(I, sep, Gen(segs[:k + 1]))]
        for s in segs[k + 1:]: parts += [sep, s[1]]
        return I.concat(parts)
    for s in segs:
        if s[0] == 'item' and not is_str(s[1]): raise Unsupported(f'join of {s[1]!r}')
    if all(s[0] == 'item' for s in segs):
        parts = []
        for i, s in enumerate(segs):
            if i: parts.append(sep)
            parts.append(s[1])
        return I.concat(parts)
    J = I.fresh(StrS, 'join')
    if len(segs) == 1:
        c = segs[0][1]
        I.assume(z3.Implies(zint(c.n) == 0, J == z3.StringVal('')))
        if {len(v) for _, v in c.alts} == {1} and len(c.alts) == 1:
            I.assume(z3.Implies(zint(c.n) == 1, J == zstr(I.subst(c.alts[0][1][0], [(c.j0, z3.IntVal(0))]))))
    for (sep2, segs2, J2) in list(I.join_terms):
        if sep2 == '%truth': continue
        try:
            e = I.eq_term(sep, sep2)
            if e is False: continue
            q = I.seq_same(segs, segs2)
        except Unsupported: continue
        if q is False: continue
        I.assume(z3.Implies(z3.And(zbool(e), zbool(q)), J == J2))
    I.join_terms.append((sep, segs, J))
    return J


# lists
def m_list_append(I, o, a, k): I.list_append(o, a[0])
def m_list_extend(I, o, a, k): I.list_extend(o, a[0])


def m_list_pop(I, o, a, k):
    c = I.cell(o)
    segs = list(I.segs(o))
    i = a[0] if a else -1
    if not segs: raise PyRaise(Exc(['builtins.IndexError']))
    if i == -1 and segs[-1][0] == 'item':
        v = segs.pop()[1]
    elif i == 0 and segs[0][0] == 'item': v = segs.pop(0)[1]
    elif isinstance(i, int) and all(s[0] == 'item' for s in segs):
        try: v = segs.pop(i)[1]
        except IndexError: raise PyRaise(Exc(['builtins.IndexError']))
    elif i == -1 and segs[-1][0] == 'comp' and {len(v) for _, v in segs[-1][1].alts} == {1}:
        cc = segs[-1][1]
        if I.decide(zint(cc.n) > 0):
            v = I.comp_at(cc, z3.simplify(zint(cc.n) - 1))[0]
            segs[-1] = ('comp', Comp(z3.simplify(zint(cc.n) - 1), cc.j0, cc.alts))
        elif len(segs) == 1: raise PyRaise(Exc(['builtins.IndexError']))
        else: raise Unsupported('pop behind abstract segment')
    else: raise Unsupported('list.pop')
    I.write(o, ListCell(segs, c.acc, c.kind), 'list')
    return v


def m_list_insert(I, o, a, k):
    c = I.cell(o)
    segs = list(I.segs(o))
    if isinstance(a[0], int) and 0 <= a[0] <= len(segs) and all(s[0] == 'item' and not (isinstance(s[1], Sym) and isinstance(s[1].k, tuple) and s[1].k[0] == 'splice') for s in segs[:a[0]]):
        segs.insert(a[0], ('item', a[1]))
    elif isinstance(a[0], int) and all(s[0] == 'item' for s in segs): segs.insert(a[0], ('item', a[1]))
    else: raise Unsupported('list.insert')
    I.write(o, ListCell(segs, c.acc, c.kind), 'list')


def m_list_remove(I, o, a, k):
    c = I.cell(o)
    segs = list(I.segs(o))
    for i, s in enumerate(segs):
        if s[0] != 'item': raise Unsupported('list.remove')
        if I.truth(I.eq_term(s[1], a[0])):
            del segs[i]
            I.write(o, ListCell(segs, c.acc, c.kind), 'list')
            return
    raise PyRaise(Exc(['builtins.ValueError']))


def m_list_copy(I, o, a, k): return I.alloc(I.cell(o) if not I.cell(o).acc else _unsup('copy'))


def m_list_clear(I, o, a, k):
    c = I.cell(o)
    if c.acc: raise Unsupported('clear in loop')
    I.write(o, ListCell((), c.acc, c.kind), 'list')


def m_list_reverse(I, o, a, k):
    c = I.cell(o)
    I.write(o, ListCell(b_reversed(I, [o], {}).segs, False, c.kind), 'list')


def m_list_index(I, o, a, k):
    segs = I.segs(o)
    for i, s in enumerate(segs):
        if s[0] != 'item': raise Unsupported('list.index')
        if I.truth(I.eq_term(s[1], a[0])): return i
    raise PyRaise(Exc(['builtins.ValueError']))


def m_list_sort(I, o, a, k):
    r = b_sorted(I, [o], k)
    I.write(o, I.cell(r), 'list')


def m_list___contains__(I, o, a, k): return I.contains(o, a[0])


def m_tuple_index(I, o, a, k):
    for i, x in enumerate(o):
        if I.truth(I.eq_term(x, a[0])): return i
    raise PyRaise(Exc(['builtins.ValueError']))


def m_tuple_count(I, o, a, k): raise Unsupported('tuple.count')


# dicts
def m_dict_get(I, o, a, k):
    I.require_hashable(a[0])
    yn, v = I.dict_find(o, a[0])
    return v if yn == 'yes' else (a[1] if len(a) > 1 else None)


def m_dict_keys(I, o, a, k):
    r = I.dict_keys(o)
    if isinstance(r, tuple):
        has = lambda x: I.dict_has_term(o, x)
        xs = r
        s = ASeq(len(xs), lambda i: xs[i])
        s.has = has
        return s
    return r


def m_dict_values(I, o, a, k):
    it = I.dict_items(o)
    if isinstance(it, tuple): return tuple(v for _, v in it)
    if isinstance(it, LazySeq): return LazySeq(it.base, lambda k: [v for _, v in it.f(k)])
    return ASeq(it.n, lambda j: it.at(j)[1])


def m_dict_items(I, o, a, k): return I.dict_items(o)
def m_dict_update(I, o, a, k):
    if a: I.dict_update(o, a[0])
    for n, v in k.items(): I.dict_set(o, n, v)


def m_dict_setdefault(I, o, a, k):
    yn, v = I.dict_find(o, a[0])
    if yn == 'yes': return v
    d = a[1] if len(a) > 1 else None
    I.dict_set(o, a[0], d)
    return d


def m_dict_pop(I, o, a, k):
    yn, v = I.dict_find(o, a[0])
    if yn == 'yes':
        I.delitem(o, a[0])
        return v
    if len(a) > 1: return a[1]
    raise PyRaise(Exc(['builtins.KeyError']))


def m_dict_copy(I, o, a, k):
    if I.cell(o).acc: raise Unsupported('copy in loop')
    return I.alloc(I.cell(o))


def m_dict_clear(I, o, a, k): I.write(o, DictCell((), I.cell(o).acc and _unsup('clear in loop')), 'dict')


# sets
def m_set_add(I, o, a, k):
    I.require_hashable(a[0])
    I.set_layer(o, ('add', a[0]))


def m_set_discard(I, o, a, k): I.set_layer(o, ('discard', a[0]))


def m_set_remove(I, o, a, k):
    if not I.truth(I.contains(o, a[0])): raise PyRaise(Exc(['builtins.KeyError']))
    I.set_layer(o, ('discard', a[0]))


def m_set_update(I, o, a, k):
    for x in a: I.set_layer(o, ('union', I.as_aset(x)))


def m_set_difference_update(I, o, a, k):
    for x in a: I.set_layer(o, ('minus', I.as_aset(x)))


def m_set_copy(I, o, a, k): return I.alloc(I.cell(o))


def _setop(op):
    def f(I, o, a, k):
        import ast
        r = o
        for x in a:
            r = I.binop(op, I.as_aset(r), I.as_aset(x))
        return r
    return f


import ast as _ast
for _k in ('set', 'aset', 'aseq', 'const'):
    globals()[f'm_{_k}_union'] = _setop(_ast.BitOr())
    globals()[f'm_{_k}_difference'] = _setop(_ast.Sub())
    globals()[f'm_{_k}_intersection'] = _setop(_ast.BitAnd())


def m_set_issubset(I, o, a, k): return I.compare(_ast.LtE(), I.as_aset(o), I.as_aset(a[0]))
def m_set_issuperset(I, o, a, k): return I.compare(_ast.GtE(), I.as_aset(o), I.as_aset(a[0]))
m_aset_issubset, m_aset_issuperset = m_set_issubset, m_set_issuperset


def m_set_isdisjoint(I, o, a, k):
    return not I.truth(I.binop(_ast.BitAnd(), I.as_aset(o), I.as_aset(a[0])))


m_aset_isdisjoint = m_set_isdisjoint


def m_aset(I, o, name, a, k): raise Unsupported(f'set.{name}')
def m_aseq(I, o, name, a, k):
    if name == 'copy': return I.alloc(ListCell(I.iter_segs(o)))
    raise Unsupported(f'sequence.{name}')


# constant containers (module level)
def m_const_get(I, o, a, k):
    if is_z3(a[0]) and is_str(a[0]) and len(a) > 1 and is_str(a[1]) and o.texts(): return o.lookup(a[0], a[1])
    for kk, v in o.items:
        if I.truth(I.eq_term(kk, a[0])): return v
    return a[1] if len(a) > 1 else None


def m_const_keys(I, o, a, k): return tuple(x[0] for x in o.items)
def m_const_values(I, o, a, k): return tuple(x[1] for x in o.items)
def m_const_items(I, o, a, k): return tuple(o.items)
def m_const_copy(I, o, a, k):
    if o.k == 'dict': return I.new_dict(o.items)
    if o.k == 'list': return I.new_list(o.items)
    return I.alloc(SetCell([('add', x) for x in o.items]))


def m_const(I, o, name, a, k):
    if name in ('append', 'extend', 'add', 'update', 'pop', 'clear', 'setdefault', 'remove', 'discard', 'insert', 'popitem', 'sort'):
        return I.external_write(f'module-level {o.k} {o.what}')
    raise Unsupported(f'{o.k}.{name} of constant')


def m_amap_get(I, o, a, k):
    if I.truth(o.has(a[0])): return o.get(a[0])
    return a[1] if len(a) > 1 else None


def m_amap_keys(I, o, a, k):
    if o.seq is not None: return o.seq
    return ASet(o.has)


def m_amap_values(I, o, a, k): return ASeq(o.seq.n, lambda j: o.get(o.seq.at(j)))
def m_amap_items(I, o, a, k): return ASeq(o.seq.n, lambda j: (lambda x: (x, o.get(x)))(o.seq.at(j)))
