"""Theory of type annotations and JSON data (assumed; cross-checked against the real
`typing` module on concrete annotations by witness/theory_types.py)."""
import z3
from pydv.engine import *
from pydv import lib
from pydv.spec import model

(NONE, ANY, TYPEVAR, TD, ENUM, CLASS, LIST, DICT, TUPFIX, TUPVAR, LITERAL, UNION, TDALIAS) = range(13)
COMPOUND = (LIST, DICT, TUPFIX, TUPVAR, LITERAL, UNION, TDALIAS)
NAMES = dict(NONE=0, ANY=1, TYPEVAR=2, TD=3, ENUM=4, CLASS=5, LIST=6, DICT=7, TUPFIX=8, TUPVAR=9, LITERAL=10, UNION=11, TDALIAS=12)
F = z3.Function
kindof = F('kindof', Obj, IntS)
targ = F('targ', Obj, IntS, Obj)
tnargs = F('tnargs', Obj, IntS)
torigin = F('torigin', Obj, Obj)
std_td = F('std_td', Obj, BoolS)
pep604 = F('is_pep604', Obj, BoolS)
seq_len, seq_at = F('seq_len', Obj, IntS), F('seq_at', Obj, IntS, Obj)
dict_len, dict_key = F('dict_len', Obj, IntS), F('dict_key', Obj, IntS, Obj)
dict_has, dict_get, dict_idx = F('dict_has', Obj, Obj, BoolS), F('dict_get', Obj, Obj, Obj), F('dict_idx', Obj, Obj, IntS)
enum_n, enum_val, enum_member = F('enum_n', Obj, IntS), F('enum_val', Obj, IntS, Obj), F('enum_member', Obj, IntS, Obj)
enum_name = F('enum_name', Obj, IntS, Obj)
hint_n, hint_key, hint_of = F('hint_n', Obj, IntS), F('hint_key', Obj, IntS, Obj), F('hint_of', Obj, Obj, Obj)
hint_has, hint_idx = F('hint_has', Obj, Obj, BoolS), F('hint_idx', Obj, Obj, IntS)
req_has, opt_has = F('req_has', Obj, Obj, BoolS), F('opt_has', Obj, Obj, BoolS)
dclass = F('dclass', Obj, IntS)
hashable = F('hashable', Obj, BoolS)
size, tsize = F('size', Obj, IntS), F('tsize', Obj, IntS)
conforms = F('conforms', Obj, Obj, BoolS)
DCLASS = dict(NoneType=0, bool=1, int=2, float=3, str=4, list=5, dict=6, tuple=7)
EXTKIND = {'typing.Any': ANY, 'None': NONE}


def axioms():
    T, v, k, a, b = z3.Consts('aT av ak aa ab', Obj)
    j, i = z3.Ints('aj ai')
    A = []
    fa = lambda vs, body, *pats: A.append(z3.ForAll(vs, body, patterns=list(pats)))
    for f in (targ,): fa([T, j], z3.And(kindof(f(T, j)) >= 1, kindof(f(T, j)) <= 12), f(T, j))
    fa([T, k], z3.And(kindof(hint_of(T, k)) >= 1, kindof(hint_of(T, k)) <= 12), hint_of(T, k))
    fa([T], kindof(torigin(T)) == TD, torigin(T))
    fa([T], z3.And(tnargs(T) >= 0, z3.Implies(kindof(T) == UNION, tnargs(T) >= 1),
                   z3.Implies(kindof(T) == LITERAL, tnargs(T) >= 1)), tnargs(T))
    fa([v], seq_len(v) >= 0, seq_len(v))
    fa([v, j], size(seq_at(v, j)) < size(v), seq_at(v, j))
    fa([v, k], size(dict_get(v, k)) < size(v), dict_get(v, k))
    fa([v, j], size(dict_key(v, j)) < size(v), dict_key(v, j))
    fa([T, j], tsize(targ(T, j)) < tsize(T), targ(T, j))
    fa([T], tsize(torigin(T)) < tsize(T), torigin(T))
    fa([v], dict_len(v) >= 0, dict_len(v))
    fa([v, j], z3.Implies(z3.And(0 <= j, j < dict_len(v)), z3.And(dict_has(v, dict_key(v, j)), dict_idx(v, dict_key(v, j)) == j)), dict_key(v, j))
    fa([v, k], z3.Implies(dict_has(v, k), z3.And(0 <= dict_idx(v, k), dict_idx(v, k) < dict_len(v), dict_key(v, dict_idx(v, k)) == k)), dict_has(v, k))
    fa([T], enum_n(T) >= 0, enum_n(T))
    fa([T, j], hashable(enum_val(T, j)), enum_val(T, j))
    fa([T], hint_n(T) >= 0, hint_n(T))
    fa([T, j], z3.And(dclass(hint_key(T, j)) == 4, hashable(hint_key(T, j))), hint_key(T, j))
    fa([v, j], hashable(dict_key(v, j)), dict_key(v, j))
    fa([T, j], z3.Implies(z3.And(0 <= j, j < hint_n(T)), z3.And(hint_has(T, hint_key(T, j)), hint_idx(T, hint_key(T, j)) == j)), hint_key(T, j))
    fa([T, k], z3.Implies(hint_has(T, k), z3.And(0 <= hint_idx(T, k), hint_idx(T, k) < hint_n(T), hint_key(T, hint_idx(T, k)) == k)), hint_has(T, k))
    eq = F('py_eq', Obj, Obj, BoolS)
    fa([a, b], eq(a, b) == eq(b, a), eq(a, b))
    fa([a, b], z3.Implies(z3.And(eq(a, b), hashable(b)), hashable(a)), eq(a, b))
    fa([a], z3.And(dclass(a) >= 0, dclass(a) <= 8), dclass(a))
    fa([a], z3.And(z3.Implies(z3.Or(dclass(a) == 5, dclass(a) == 6), z3.Not(hashable(a))),
                   z3.Implies(z3.And(dclass(a) >= 0, dclass(a) <= 4), hashable(a))), hashable(a))
    return A


class World:
    """Installs the theory into an interpreter."""
    def __init__(self, I, spec_path=None):
        self.I = I
        I.attr_hooks.append(self.attr)
        I.isinst_hooks.append(self.isinst)
        I.issub_hooks = [self.issub]
        I.hasattr_hooks = [self.hasattr]
        I.iter_hooks.append(self.iter)
        I.len_hooks.append(self.len)
        I.contains_hooks.append(self.contains)
        I.item_hooks.append(self.item)
        I.eq_hooks.append(self.eq)
        I.truth_hooks.append(self.truth)
        I.is_hooks.append(lambda I, a, b: a.t == self.known_kind(b) if a.k == 'type' and isinstance(b, Ext) else NotImplemented)
        I.require_hashable = self.require_hashable
        I.type_hooks = [self.type]
        for n in ('typing.is_typeddict', 'typing_extensions.is_typeddict', 'ts2python.typeddict_shim.is_typeddict'):
            I.models[n] = lambda I, a, k: self.is_td(a[0])
        for n in ('typing.get_origin', 'ts2python.typeddict_shim.get_origin'): I.models[n] = lambda I, a, k: self.get_origin(a[0])
        for n in ('typing.get_args', 'ts2python.typeddict_shim.get_args'): I.models[n] = lambda I, a, k: self.get_args(a[0])
        I.models['typing.get_type_hints'] = lambda I, a, k: self.get_type_hints(a[0])
        I.inverse.update(dict_key=dict_idx, hint_key=hint_idx)
        I.axioms = axioms()
        for ax in I.axioms: I.solver.add(ax)
        I.facts.extend(I.axioms)

    # facts
    def type_facts(self, t):
        I = self.I
        I.fact(z3.And(kindof(t) >= 0, kindof(t) <= 12))

    def kind_is(self, v, *ks):
        """Formula: v is an annotation of one of the kinds ks."""
        I = self.I
        if isinstance(v, Sym):
            n = I.ext_const('None')
            I.fact(kindof(n) == NONE)
            I.fact((kindof(v.t) == NONE) == (v.t == n))
            a = I.ext_const('typing.Any')
            I.fact(kindof(a) == ANY)
            I.fact((kindof(v.t) == ANY) == (v.t == a))
            return z3.Or([kindof(v.t) == k for k in ks])
        return self.static_kind(v) in ks

    def static_kind(self, v):
        if v is None: return NONE
        if isinstance(v, Ext):
            if v.id in EXTKIND: return EXTKIND[v.id]
            if v.d.get('k') == 'class':
                return ENUM if 'enum.Enum' in v.d.get('mro', ()) else CLASS
            if v.id in ALIASES: return CLASS
        return -1

    def known_kind(self, ext):
        I = self.I
        c = I.to_obj(ext)
        I.fact(kindof(c) == self.static_kind(ext))
        return c

    # hooks
    def attr(self, I, o, name):
        if not isinstance(o, Sym): return NotImplemented
        if o.k == 'type':
            if name in ('__args__',):
                if not I.truth(self.kind_is(o, *COMPOUND)): raise PyRaise(Exc(['builtins.AttributeError']))
                return self.args(o)
            if name == '__origin__':
                if not I.truth(self.kind_is(o, *COMPOUND)): raise PyRaise(Exc(['builtins.AttributeError']))
                return self.get_origin(o)
            if name in ('__required_keys__', '__optional_keys__'):
                if not I.truth(self.kind_is(o, TD)): raise PyRaise(Exc(['builtins.AttributeError']))
                f = req_has if name == '__required_keys__' else opt_has
                return ASet(lambda k, o=o: f(o.t, I.to_obj(k)))
            if name == '__members__':
                if not I.truth(self.kind_is(o, ENUM)): raise PyRaise(Exc(['builtins.AttributeError']))
                seq = ASeq(enum_n(o.t), lambda j: Sym(enum_name(o.t, zint(j)), 'data'))
                mem = ASeq(enum_n(o.t), lambda j: Sym(enum_member(o.t, zint(j)), ('member', o.t, zint(j))))
                return EnumMembers(o, seq, mem)
            if name in ('__name__', '__qualname__', '__module__'):
                if name == '__name__' and I.truth(self.kind_is(o, NONE)): raise PyRaise(Exc(['builtins.AttributeError']))
                return F('str_' + name, Obj, StrS)(o.t)
            if name in ('__annotations__', '__dict__'):
                return Sym(F('attr_' + name, Obj, Obj)(o.t), 'extdict')
            if name == '__total__': return F('attr_total', Obj, BoolS)(o.t)
            return NotImplemented
        if o.k == 'extdict':
            return BM(o, lambda I, s, a, k: self.extdict(I, s, name, a, k), name)
        if isinstance(o.k, tuple) and o.k[0] == 'member':
            if name == 'value': return Sym(enum_val(o.k[1], o.k[2]), 'data')
            return NotImplemented
        if o.k == 'data':
            if name in ('keys', 'values', 'items', 'get', 'copy'):
                if not I.truth(self.is_cls(o, 'dict')):
                    if name == 'copy': raise Unsupported('copy of data')
                    raise PyRaise(Exc(['builtins.AttributeError']))
                return BM(o, lambda I, s, a, k: self.data_method(I, s, name, a, k), name)
            if name in ('append', 'extend', 'pop', 'update', 'clear', 'setdefault', 'insert', 'remove', 'sort', 'reverse', 'popitem', '__setitem__', '__delitem__'):
                return BM(o, lambda I, s, a, k: I.external_write(f'the validated data (method {name})'), name)
            return NotImplemented
        return NotImplemented

    def extdict(self, I, s, name, a, k):
        if name in ('get', 'keys', 'values', 'items', 'copy'):
            return Sym(I.fresh(Obj, 'ext'), 'obj')
        I.external_write(f'attributes of the type ({name})')

    def data_method(self, I, s, name, a, k):
        n = dict_len(s.t)
        keys = ASeq(n, lambda j: Sym(dict_key(s.t, zint(j)), 'data'))
        keys.has = lambda x: dict_has(s.t, I.to_obj(x))
        keys.src = s.t
        if name == 'keys': return keys
        if name == 'values': return srcseq(s.t, n, lambda j: Sym(dict_get(s.t, dict_key(s.t, zint(j))), 'data'))
        if name == 'items': return ASeq(n, lambda j: (Sym(dict_key(s.t, zint(j)), 'data'), Sym(dict_get(s.t, dict_key(s.t, zint(j))), 'data')))
        if name == 'get':
            key = I.to_obj(a[0])
            if I.truth(dict_has(s.t, key)): return Sym(dict_get(s.t, key), 'data')
            return a[1] if len(a) > 1 else None
        if name == 'copy': return s

    def cls_facts(self, v):
        """Relates dclass(v) and isinstance for the built-in classes."""
        self.I.memo_facts('cls', v.t, lambda: self.cls_facts_(v))

    def cls_facts_(self, v):
        I = self.I
        for name, code in DCLASS.items():
            c = self.known_kind(Ext('builtins.' + name, {'k': 'class', 'id': 'builtins.' + name, 'mro': []}))
            is_ = I.isinst_f(v.t, c)
            tab = [(cd, cd == code or (name == 'int' and nm == 'bool')) for nm, cd in DCLASS.items()]
            I.fact(z3.And([z3.Implies(dclass(v.t) == cd, is_ == z3.BoolVal(val)) for cd, val in tab]
                          + [dclass(v.t) >= 0, dclass(v.t) <= 8]
                          + ([z3.Implies(dclass(v.t) == 8, z3.Not(is_))] if name in ('NoneType', 'bool', 'list', 'dict', 'tuple', 'float') else [])))
        o = self.known_kind(Ext('builtins.object', {'k': 'class', 'id': 'builtins.object', 'mro': []}))
        I.fact(I.isinst_f(v.t, o))
        n = I.ext_const('None')
        I.fact((dclass(v.t) == 0) == (v.t == n))
        I.fact(dclass(n) == 0)

    def is_cls(self, v, name):
        self.cls_facts(v)
        return self.I.isinst_f(v.t, self.I.ext_const('builtins.' + name))

    def isinst(self, I, v, cls):
        if isinstance(v, Sym) and v.k == 'data':
            if isinstance(cls, Ext):
                if cls.id in ('typing.Sequence', 'collections.abc.Sequence'):
                    return z3.Or(self.is_cls(v, 'list'), self.is_cls(v, 'tuple'), self.is_cls(v, 'str'))
                if cls.id in ('typing.Mapping', 'collections.abc.Mapping', 'typing.MutableMapping', 'collections.abc.MutableMapping'):
                    return self.is_cls(v, 'dict')
                cid = ALIASES.get(cls.id, cls.id)
                if cid.startswith('builtins.') and cid[9:] in DCLASS: return self.is_cls(v, cid[9:])
                if cid == 'builtins.object': return True
                if self.static_kind(cls) in (CLASS, ENUM):
                    self.cls_facts(v)
                    return I.isinst_f(v.t, self.known_kind(cls))
                if cls.id in ('typing.Any',): raise PyRaise(Exc(['builtins.TypeError']))
                raise Unsupported(f'isinstance of data with {cls!r}')
            if cls is None: raise PyRaise(Exc(['builtins.TypeError']))
            if isinstance(cls, Sym) and cls.k == 'type':
                self.cls_facts(v)
                if I.truth(self.kind_is(cls, CLASS, ENUM)): return I.isinst_f(v.t, cls.t)
                if I.truth(self.kind_is(cls, UNION)):
                    raise Unsupported('isinstance with a union')
                raise PyRaise(Exc(['builtins.TypeError']))
        if isinstance(v, Sym) and v.k == 'type':
            if isinstance(cls, Ext):
                if cls.id == 'typing.TypeVar': return self.kind_is(v, TYPEVAR)
                if cls.id == 'typing.ForwardRef': return False
                if cls.id in ('builtins.type',): return self.kind_is(v, TD, ENUM, CLASS)
                if cls.id == 'builtins.str': return False
                if cls.id == 'typing._TypedDictMeta': return z3.And(self.kind_is(v, TD), std_td(v.t))
                if cls.id.endswith('._TypedDictMeta'): return z3.And(self.kind_is(v, TD), z3.Not(std_td(v.t)))
                if cls.id in ('types.UnionType',): return z3.And(self.kind_is(v, UNION), pep604(v.t))
                if cls.id in ('enum.EnumMeta', 'enum.EnumType'): return self.kind_is(v, ENUM)
                if cls.id in ('typing._GenericAlias',):
                    raise Unsupported('isinstance(_, _GenericAlias)')
            raise Unsupported(f'isinstance of a type with {cls!r}')
        if isinstance(cls, Ext) and isinstance(v, Ext) and \
                (cls.id in ('typing.TypeVar', 'typing.ForwardRef') or cls.id.endswith('._TypedDictMeta')): return False
        return NotImplemented

    def issub(self, I, c, d):
        if isinstance(c, Sym) and c.k == 'type' and isinstance(d, Ext):
            if not I.truth(self.kind_is(c, TD, CLASS, ENUM)): raise PyRaise(Exc(['builtins.TypeError']))
            if d.id == 'enum.Enum': return self.kind_is(c, ENUM)
            if d.id == 'builtins.dict' and I.truth(self.kind_is(c, TD)): return True
            return F('issubclass_' + d.id, Obj, BoolS)(c.t)
        if isinstance(c, Ext) and isinstance(d, Ext) and d.id == 'enum.Enum':
            if c.id == 'typing.Any' or (c.d.get('k') != 'class'): raise PyRaise(Exc(['builtins.TypeError']))
            return 'enum.Enum' in c.d.get('mro', ())
        if c is None: raise PyRaise(Exc(['builtins.TypeError']))
        return NotImplemented

    def hasattr(self, I, o, name):
        if isinstance(o, Sym) and o.k == 'type':
            if name in ('__args__', '__origin__'): return self.kind_is(o, *COMPOUND)
            if name == '__members__': return self.kind_is(o, ENUM)
            if name in ('__required_keys__', '__optional_keys__', '__total__'): return self.kind_is(o, TD)
            raise Unsupported(f'hasattr(type, {name})')
        if isinstance(o, Ext) and name in ('__args__',): return False
        if o is None: return False
        if isinstance(o, Sym) and o.k == 'data':
            if name in ('keys', 'items', 'values'): return self.is_cls(o, 'dict')
            if name == '__iter__': return z3.Or([self.is_cls(o, c) for c in ('dict', 'list', 'tuple', 'str')])
        return NotImplemented

    def iter(self, I, v):
        if v.k == 'data':
            if I.truth(self.is_cls(v, 'dict')): return self.data_method(I, v, 'keys', [], {})
            if I.truth(z3.Or(self.is_cls(v, 'list'), self.is_cls(v, 'tuple'))):
                return ASeq(seq_len(v.t), lambda j: Sym(seq_at(v.t, zint(j)), 'data'))
            raise Unsupported('iteration over a scalar')
        return NotImplemented

    def len(self, I, v):
        if v.k == 'data':
            if I.truth(self.is_cls(v, 'dict')): return dict_len(v.t)
            if I.truth(z3.Or(self.is_cls(v, 'list'), self.is_cls(v, 'tuple'))): return seq_len(v.t)
            if I.truth(self.is_cls(v, 'str')): return F('data_strlen', Obj, IntS)(v.t)
            raise PyRaise(Exc(['builtins.TypeError']))
        return NotImplemented

    def contains(self, I, c, x):
        if c.k == 'data':
            if I.truth(self.is_cls(c, 'dict')):
                self.require_hashable(x)
                return dict_has(c.t, I.to_obj(x))
            return I.contains(self.iter(I, c), x)
        return NotImplemented

    def item(self, I, o, k):
        if isinstance(o, Sym) and o.k == 'data':
            if I.truth(self.is_cls(o, 'dict')):
                self.require_hashable(k)
                kk = I.to_obj(k)
                if not I.truth(dict_has(o.t, kk)): raise PyRaise(Exc(['builtins.KeyError']))
                return Sym(dict_get(o.t, kk), 'data')
            if I.truth(z3.Or(self.is_cls(o, 'list'), self.is_cls(o, 'tuple'))) and is_int(k):
                return I.nth(I.iter_segs(o), k)
            raise PyRaise(Exc(['builtins.TypeError']))
        if isinstance(o, Ext) and o.id in ('typing.Tuple', 'builtins.tuple', 'typing.Dict', 'builtins.dict', 'typing.List', 'builtins.list'):
            return self.mk_alias(o, k)
        return NotImplemented

    def mk_alias(self, o, k):
        I = self.I
        ks = k if isinstance(k, tuple) else (k,)
        name = ALIASES.get(o.id, o.id)
        if name == 'builtins.tuple' and len(ks) == 2 and isinstance(ks[1], Ext) and ks[1].id == 'Ellipsis':
            t = F('mk_tupvar', Obj, Obj)(I.to_obj(ks[0]))
            I.fact(z3.And(kindof(t) == TUPVAR, targ(t, 0) == I.to_obj(ks[0])))
            return Sym(t, 'type')
        if name == 'builtins.dict' and len(ks) == 2:
            for x in ks:
                if isinstance(x, Ext): self.known_kind(x)
            t = F('mk_dict', Obj, Obj, Obj)(I.to_obj(ks[0]), I.to_obj(ks[1]))
            I.fact(z3.And(kindof(t) == DICT, targ(t, 0) == I.to_obj(ks[0]), targ(t, 1) == I.to_obj(ks[1])))
            return Sym(t, 'type')
        if name == 'builtins.list' and len(ks) == 1:
            t = F('mk_list', Obj, Obj)(I.to_obj(ks[0]))
            I.fact(z3.And(kindof(t) == LIST, targ(t, 0) == I.to_obj(ks[0])))
            return Sym(t, 'type')
        if name == 'builtins.tuple':
            t = F(f'mk_tupfix{len(ks)}', *([Obj] * (len(ks) + 1)))(*[I.to_obj(x) for x in ks])
            for x in ks:
                if isinstance(x, Ext): self.known_kind(x)
            I.fact(z3.And([kindof(t) == TUPFIX, tnargs(t) == len(ks)] + [targ(t, i) == I.to_obj(x) for i, x in enumerate(ks)]))
            return Sym(t, 'type')
        raise Unsupported('construction of a type')

    def eq(self, I, a, b):
        if isinstance(b, Sym) and a.k == 'data' and b.k == 'data':
            I.fact(z3.Implies(a.t == b.t, I.eqv(a.t, b.t)))
            return z3.Or(a.t == b.t, I.eqv(a.t, b.t))
        if a.k == 'data' and isinstance(b, (str, int, float)) and not isinstance(b, bool):
            o = I.to_obj(b)
            return z3.Or(a.t == o, I.eqv(a.t, o))
        if a.k == 'type' and isinstance(b, Ext):
            return a.t == self.known_kind(b)
        return NotImplemented

    def truth(self, I, v):
        if v.k == 'type': return z3.Not(self.kind_is(v, NONE))
        if v.k == 'data': return z3.And(I.truthy_f(v.t), z3.Not(v.t == I.ext_const('None')))
        return NotImplemented

    def type(self, I, v):
        if isinstance(v, Sym) and v.k == 'data': return Sym(F('py_type', Obj, Obj)(v.t), 'class')
        return NotImplemented

    def require_hashable(self, x):
        I = self.I
        if isinstance(x, Sym) and x.k == 'data':
            self.cls_facts(x)
            if not I.truth(hashable(x.t)): raise PyRaise(Exc(['builtins.TypeError']))

    # annotations
    def is_td(self, t): return self.kind_is(t, TD)

    def args(self, o):
        I = self.I
        A = lambda j: Sym(targ(o.t, zint(j)), 'type')
        if I.truth(self.kind_is(o, LIST)): return (A(0),)
        if I.truth(self.kind_is(o, DICT)): return (A(0), A(1))
        if I.truth(self.kind_is(o, TUPVAR)): return (A(0), Ext('Ellipsis'))
        if I.truth(self.kind_is(o, LITERAL)): return ASeq(tnargs(o.t), lambda j: Sym(targ_data(o.t, zint(j)), 'data'))
        e = I.ext_const('Ellipsis')
        I.fact(kindof(e) == -1)
        return ASeq(tnargs(o.t), A)

    def get_args(self, t):
        if not isinstance(t, Sym): return ()
        if not self.I.truth(self.kind_is(t, *COMPOUND)): return ()
        return self.args(t)

    ORIGINS = [(LIST, 'builtins.list'), (DICT, 'builtins.dict'), (TUPFIX, 'builtins.tuple'), (TUPVAR, 'builtins.tuple')]

    def get_origin(self, t):
        I = self.I
        if not isinstance(t, Sym): return None
        if not I.truth(self.kind_is(t, *COMPOUND)): return None
        for k, id in self.ORIGINS:
            if I.truth(self.kind_is(t, k)): return I.from_desc(I.reflect.resolve('builtins', [id[9:]]))
        if I.truth(self.kind_is(t, LITERAL)): return Ext('typing.Literal', {'k': 'ext'})
        if I.truth(self.kind_is(t, UNION)):
            if I.truth(pep604(t.t)): return Ext('types.UnionType', {'k': 'class', 'mro': []})
            return Ext('typing.Union', {'k': 'ext'})
        return Sym(torigin(t.t), 'type')

    def get_type_hints(self, t):
        I = self.I
        if isinstance(t, Sym) and t.k == 'type' and not I.truth(self.kind_is(t, TD, CLASS, ENUM)):
            raise PyRaise(Exc(['builtins.TypeError']))
        return I.alloc(DictCell((('amap', self.hints_map(t)),)))

    def hints_map(self, t):
        I = self.I
        seq = ASeq(hint_n(t.t), lambda j: Sym(hint_key(t.t, zint(j)), 'name' if t.k == 'func' else 'data'))
        seq.has = lambda x: hint_has(t.t, I.to_obj(x))
        return AMap(lambda k: hint_has(t.t, I.to_obj(k)), lambda k: Sym(hint_of(t.t, I.to_obj(k)), 'type'), seq)


targ_data = F('targ_data', Obj, IntS, Obj)


def srcseq(src, n, at):
    r = ASeq(n, at)
    r.src = src
    return r


class EnumMembers(AMap):
    def __init__(self, t, names, members):
        super().__init__(None, None, names)
        self.t, self.members = t, members


def m_amap_values(I, o, a, k):
    if isinstance(o, EnumMembers): return o.members
    return ASeq(o.seq.n, lambda j: o.get(o.seq.at(j)))


lib.m_amap_values = m_amap_values
