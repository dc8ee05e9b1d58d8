"""Failing inputs for V01 / V02: textual type universes, types and values; the oracle is the
executable specification (contracts/spec_validation.py) over the real annotations."""
import copy, enum, typing, types
import common

PRELUDE = """
import enum, typing
from typing import *
from typing import Any as _Any
T = TypeVar('T')
from ts2python.typeddict_shim import TypedDict as STD, NotRequired
from typing import TypedDict as TD, NotRequired as NR
class Color(enum.Enum):
    red = 'red'
    green = 'gr'
class Level(enum.IntEnum):
    low = 1
    high = 3
class Mixed(enum.Enum):
    a = 1
    b = 'x'
    c = 2.5
class A(STD):
    x: int
    y: NotRequired[str]
class B(A):
    a: A
    l: List[A]
    d: NotRequired[Dict[str, A]]
class C(TD):
    c: Optional[int]
    u: Union[A, int, None]
class D(TD, total=False):
    t: Tuple[int, str]
    tv: Tuple[float, ...]
    col: Color
    lv: Level
class E(STD, total=False):
    lit: Literal['p', 'q', 3]
    n: None
    o: Optional[A]
class G(STD, Generic[T]):
    g: T
    h: List[int]
class R(STD):
    v: int
    next: 'Optional[R]'
class Empty(STD):
    pass
Fn = STD('Fn', {'class': int, 'x-y': NotRequired[List[str]]})
"""
LEAVES = ['int', 'str', 'bool', 'float', 'None', 'type(None)', 'Any', 'T', 'list', 'dict', 'tuple', 'Color', 'Level', 'Mixed', 'A', 'B', 'C', 'D', 'E',
          'G[int]', 'G[A]', 'G', 'R', 'Empty', 'Fn', "Literal['p', 'q', 3]", "Literal['gr']", 'Literal[True]', 'List', 'Dict', 'Tuple']


def gen_type(r, depth):
    k = r.random()
    if depth <= 0 or k < .3: return r.choice(LEAVES)
    sub = lambda: gen_type(r, depth - 1)
    c = r.choice(['List', 'list', 'Dict', 'dict', 'Tuple', 'tuple', 'TupleV', 'Union', 'Union', 'Optional', 'pep604', 'TupleE'])
    if c in ('List', 'list'): return f'{c}[{sub()}]'
    if c in ('Dict', 'dict'): return f'{c}[{r.choice(["str", "int", "Union[int, str]", "Any", "float", "Color"])}, {sub()}]'
    if c in ('Tuple', 'tuple'): return f'{c}[{", ".join(sub() for _ in range(r.randint(1, 3)))}]'
    if c == 'TupleV': return f'Tuple[{sub()}, ...]'
    if c == 'TupleE': return 'Tuple[()]'
    if c == 'Union': return f'Union[{", ".join(sub() for _ in range(r.randint(2, 3)))}]'
    if c == 'Optional': return f'Optional[{sub()}]'
    a, b = r.choice(['int', 'str', 'A', 'list[int]', 'dict[str, A]', 'None', 'Color']), r.choice(['float', 'B', 'None', 'tuple[int, str]', 'Level'])
    return f'({a} | {b})' if a != b else a


SCALARS = [None, True, False, 0, 1, 3, 7, 1.5, 2.0, '', 'p', 'q', 'x', 'red', 'gr', 'green', 'low', 'zz', 2.5]


def gen_any(r, depth=2):
    k = r.random()
    if depth <= 0 or k < .6: return r.choice(SCALARS)
    if k < .75: return [gen_any(r, depth - 1) for _ in range(r.randint(0, 3))]
    return {r.choice(['x', 'y', 'a', 'v', 'g', 'k', 'lit', 'c', 'u']): gen_any(r, depth - 1) for _ in range(r.randint(0, 3))}


class Obs:
    """Primitive observations of real annotations used by the executable specification."""
    def __init__(self, env): self.env = env

    def kind(self, t):
        if t is None: return 0
        if t is typing.Any: return 1
        if isinstance(t, typing.TypeVar): return 2
        if isinstance(t, type) and issubclass(t, dict) and hasattr(t, '__required_keys__') or type(t).__name__ == '_TypedDictMeta': return 3
        if isinstance(t, enum.EnumMeta): return 4
        if t in (typing.List, typing.Dict, typing.Tuple): return 5
        o = typing.get_origin(t)
        if o is None: return 5 if isinstance(t, type) else -1
        if o is list: return 6
        if o is dict: return 7
        a = typing.get_args(t)
        if o is tuple: return 9 if len(a) == 2 and a[1] is Ellipsis else 8
        if o is typing.Literal: return 10
        if o is typing.Union or o is types.UnionType: return 11
        if self.kind(o) == 3: return 12
        return -1

    def names(self):
        sp = []
        env = dict(zip('NONE ANY TYPEVAR TD ENUM CLASS LIST DICT TUPFIX TUPVAR LITERAL UNION TDALIAS'.split(), range(13)))
        cls = lambda t: {typing.List: list, typing.Dict: dict, typing.Tuple: tuple}.get(t, t) if self.kind(t) == 5 else t
        conforms = lambda v, t: bool(sp[0]['spec_conforms'](v, cls(t)))
        env.update(kind=self.kind, conforms=conforms, origin_of=typing.get_origin,
                   enum_values=lambda t: [m.value for m in t.__members__.values()],
                   literal_values=typing.get_args, args_of=typing.get_args, arg_of=lambda t, j: typing.get_args(t)[j],
                   required_keys=lambda t: set(t.__required_keys__), optional_keys=lambda t: set(t.__optional_keys__),
                   hints_of=typing.get_type_hints)
        sp.append(common.load_spec('spec_validation.py', env))
        return sp[0], conforms


def gen_value(r, ob, t, depth=4):
    """A value that (usually) conforms to t."""
    k = ob.kind(t)
    sub = lambda u: gen_value(r, ob, u, depth - 1)
    n = r.choice([0, 1, 2, 2, 3]) if depth > 0 else 0
    if k in (1, 2): return gen_any(r, 1)
    if k == 0: return None
    if k == 3:
        h = typing.get_type_hints(t)
        return {f: sub(h[f]) for f in h if f in t.__required_keys__ or (depth > 0 and r.random() < .6)}
    if k == 4:
        m = r.choice(list(t.__members__.values()))
        return m if r.random() < .3 else m.value
    if k == 5:
        return {int: r.choice([0, 1, 3, 7, True]), str: r.choice(['p', 'x', 'gr', '']), bool: r.choice([True, False]), float: r.choice([1.5, 2]), type(None): None,
                list: [1, 'a'], dict: {'z': 1}, tuple: (1, 2), typing.List: [1], typing.Dict: {'q': 2}, typing.Tuple: ()}.get(t)
    a = typing.get_args(t)
    if k == 6: return [sub(a[0]) for _ in range(n)]
    if k == 7: return {hash_ok(sub(a[0])): sub(a[1]) for _ in range(n)}
    if k == 8: return r.choice([list, tuple])([sub(x) for x in a])
    if k == 9: return r.choice([list, tuple])([sub(a[0]) for _ in range(n)])
    if k == 10: return r.choice(a)
    if k == 11: return sub(r.choice(a))
    if k == 12: return sub(typing.get_origin(t))
    return gen_any(r, 1)


def hash_ok(v):
    try: hash(v); return v
    except TypeError: return 'k'


def mutate(r, v):
    """Changes one place of a value."""
    if isinstance(v, dict) and r.random() < .8:
        v = dict(v)
        op = r.random()
        if v and op < .25: del v[r.choice(list(v))]
        elif op < .4: v[r.choice(['extra', 'x', 'y', 'a', 'lit', 'class', 3])] = gen_any(r, 1)
        elif v:
            k = r.choice(list(v)); v[k] = mutate(r, v[k])
        else: v['x'] = 1
        return v
    if isinstance(v, (list, tuple)) and r.random() < .8:
        l = list(v)
        op = r.random()
        if l and op < .2: del l[r.randrange(len(l))]
        elif op < .35: l.append(gen_any(r, 1))
        elif l:
            i = r.randrange(len(l)); l[i] = mutate(r, l[i])
        return type(v)(l)
    return gen_any(r, 1)


def src(v):
    if isinstance(v, enum.Enum): return f'{type(v).__name__}.{v.name}'
    if isinstance(v, dict): return '{' + ', '.join(f'{src(a)}: {src(b)}' for a, b in v.items()) + '}'
    if isinstance(v, list): return '[' + ', '.join(map(src, v)) + ']'
    if isinstance(v, tuple): return '(' + ''.join(src(x) + ', ' for x in v) + ')'
    return repr(v)


def universe():
    env = {'__name__': 'universe'}
    import sys
    m = types.ModuleType('universe'); sys.modules['universe'] = m
    m.__dict__.update(env)
    exec(PRELUDE, m.__dict__)
    return m.__dict__


def run_real(f, v, t):
    try:
        r = f(v, t)
        return 'accepts' if r is None else f'accepts, returning {r!r}'
    except (TypeError, ValueError) as e: return 'rejects'
    except BaseException as e: return f'raises {type(e).__name__}: {e}'


def snapshot(env):
    import ts2python.json_validation as jv
    out = {}
    for n, c in list(env.items()):
        if isinstance(c, type) and c.__module__ == 'universe':
            out[n] = {k: repr(v) for k, v in vars(c).items()}
            for k in ('__annotations__', '__required_keys__', '__optional_keys__'):
                if hasattr(c, k): out[n][k] = repr(sorted(getattr(c, k), key=str)) if k != '__annotations__' else repr(c.__annotations__)
    out['%module'] = {k: repr(v) for k, v in vars(jv).items() if not callable(v) and not k.startswith('__')}
    out['%functions'] = {k: sorted(vars(v)) + [repr(v.__defaults__)] for k, v in vars(jv).items() if isinstance(v, types.FunctionType)}
    return out


def one(prop, s, env, ob, conforms, vt, vdt, te, ve, history=None):
    try: t, v = eval(te, env), eval(ve, env)
    except Exception: return
    try: want = 'accepts' if conforms(v, t) else 'rejects'
    except TypeError: return     # outside of the specification's domain (unhashable key types etc.)
    s.case((te, ve), f'validate_type({ve}, {te})  # {want}')
    before = src(v)
    got = run_real(vt, v, t)
    if prop == 'V01' and got != want:
        s.fail('verdict', dict(type=te, value=ve), want, got)
    if prop == 'V02':
        if got != want: s.fail('verdict-history', dict(history=history + [[te, ve]] if history is not None else [[te, ve]]), want, got)
        if src(v) != before: s.fail('value-changed', dict(history=[[te, ve]]), before, src(v))
    if prop == 'V01' and ob.kind(t) == 3 and isinstance(v, dict) and vdt is not None:
        got = run_real(vdt, v, t)
        if got != want: s.fail('verdict-typeddict', dict(type=te, value=ve, function='validate_TypedDict'), want, got)


def search(prop, s):
    import ts2python.json_validation as jv
    vt, vdt = jv.validate_type, getattr(jv, 'validate_TypedDict', None)
    s.rule = ('random annotations of depth <= 3 over a universe of 14 structure types, enums and built-in types, conforming values and values '
              'changed in 1-3 places; distinct (annotation, value) pairs')
    r = s.rnd
    env = universe()
    ob = Obs(env)
    sp, conforms = ob.names()
    snap = snapshot(env) if prop == 'V02' else None
    history = []
    n = 0
    limit = 60000 if s.tier == 'quick' else 400000
    while s.more() and s.cases < limit:
        n += 1
        te = gen_type(r, r.choice([0, 1, 1, 2, 2, 3]))
        try: t = eval(te, env)
        except Exception: continue
        for _ in range(6):
            try: v = gen_value(r, ob, t) if r.random() < .85 else gen_any(r)
            except Exception: v = gen_any(r)
            for _ in range(r.choice([0, 0, 1, 1, 2, 3])): v = mutate(r, v)
            ve = src(v)
            one(prop, s, env, ob, conforms, vt, vdt, te, ve, list(history))
            history.append([te, ve]); del history[:-40]
        if prop == 'V02' and n % 40 == 0:
            now = snapshot(env)
            if now != snap:
                diff = {k: {a: (snap.get(k, {}).get(a), now[k].get(a)) for a in set(now[k]) | set(snap.get(k, {})) if snap.get(k, {}).get(a) != now[k].get(a)}
                        for k in now if now[k] != snap.get(k)}
                s.fail('type-changed', dict(history=list(history)), 'types unchanged', diff)
                break


def replay(prop, inp, s):
    import ts2python.json_validation as jv
    env = universe()
    ob = Obs(env)
    sp, conforms = ob.names()
    snap = snapshot(env)
    for te, ve in inp.get('history', [[inp.get('type'), inp.get('value')]]):
        one(prop, s, env, ob, conforms, jv.validate_type, getattr(jv, 'validate_TypedDict', None), te, ve, [])
    if prop == 'V02' and snapshot(env) != snap: s.fail('type-changed', inp, 'types unchanged', 'types changed')
