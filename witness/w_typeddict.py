"""Failing inputs for T01/T02: random TypedDict declarations against contracts/spec_typeddict.py."""
import sys, types, typing
import common

NAMES = ['a', 'b', 'c', 'd']
TYPES = ['int', 'str', 'None', 'Any', 'List[int]', 'Optional[int]', 'Optional[List[str]]', 'Union[int, None]', 'Union[None, str]', 'Union[int, str]',
         'Union[int, str, None]', 'int | None', 'None | str', 'int | str', 'NotRequired[int]', 'NotRequired[Optional[str]]', 'Dict[str, None]', 'Tuple[None, int]',
         'List[Optional[int]]', 'Literal["x", None]', 'list[None]', 'Generic_T', 'Inner',
         "'int'", "'Optional[int]'", "'NotRequired[List[int]]'", "'int | None'", "'Union[int, None]'", "'Union[int, str]'", "'List[Optional[int]]'", "'Inner'", "'int | str'",
         "ForwardRef('Optional[Inner]')", "ForwardRef('Inner')", "ForwardRef('NotRequired[Inner]')", "ForwardRef('Inner | None')"]


def environment():
    import ts2python.typeddict_shim as ts
    ns = dict(vars(typing))
    ns.update(TypedDict=ts.TypedDict, GenericTypedDict=ts.GenericTypedDict, NotRequired=ts.NotRequired, Generic_T=typing.TypeVar('T'), StdTD=typing.TypedDict)
    exec("class Inner(TypedDict):\n    z: int\nclass Plain: pass\n", ns)
    env = dict(
        is_notrequired=lambda t: typing.get_origin(t) is ts.NotRequired or typing.get_origin(t) is typing.NotRequired,
        is_union=lambda t: typing.get_origin(t) in (typing.Union, types.UnionType),
        has_none=lambda t: type(None) in typing.get_args(t),
        is_forward=lambda t: isinstance(t, (str, typing.ForwardRef)),
        forward_text=lambda t: t if isinstance(t, str) else t.__forward_arg__)
    return ts, ns, common.load_spec('spec_typeddict.py', env)


def gen_members(r): return {k: r.choice(TYPES) for k in r.sample(NAMES, r.randint(0, 4))}


def gen(r):
    """A history of class declarations: [(name, bases, total, members)]"""
    out = []
    for i in range(r.randint(1, 5)):
        bases = r.sample([c[0] for c in out], min(len(out), r.choice([0, 0, 1, 1, 2, 3])))
        out.append([f'C{i}', bases, r.choice([None, None, True, False]), gen_members(r), r.choice(['class', 'class', 'dict', 'kw', 'meta']) if not bases else 'class'])
    return out


def declare(ns, c, form):
    name, bases, total, members, _ = c
    kw = '' if total is None else f', total={total}'
    if form == 'class':
        body = ''.join(f'    {k}: {t}\n' for k, t in members.items()) or '    pass\n'
        exec(f'class {name}({", ".join(bases) or "TypedDict"}{kw}):\n{body}', ns)
    elif form == 'dict': exec(f'{name} = TypedDict("{name}", {{{", ".join(f"{k!r}: {t}" for k, t in members.items())}}}{kw})', ns)
    elif form == 'kw': exec(f'{name} = TypedDict("{name}"{kw}{"".join(f", {k}={t}" for k, t in members.items())})', ns)
    else: exec(f'class {name}(GenericTypedDict{kw}):\n' + (''.join(f'    {k}: {t}\n' for k, t in members.items()) or '    pass\n'), ns)
    return ns[name]


def expected(env, spec, decls):
    """name -> {member: optional?}"""
    res = {}
    for name, bases, total, members, _ in decls:
        d = {}
        for b in bases: d.update(res[b])
        for k, t in members.items(): d[k] = spec['spec_is_optional'](eval(t, env))
        res[name] = d
    return res


def facts(cls):
    return (sorted(cls.__annotations__), sorted(cls.__required_keys__), sorted(cls.__optional_keys__))


def search(prop, s):
    s.rule = 'distinct (declarations) generated'
    ts, ns, spec = environment()
    if prop == 'T02': static_T02(s, ts, ns)
    n = {'quick': 6000, 'thorough': 80000}[s.tier]
    while s.more() and s.cases < n:
        decls = gen(s.rnd)
        s.case(repr(decls), decls)
        one(prop, s, ts, ns, spec, decls)


def replay(prop, inp, s):
    ts, ns, spec = environment()
    if isinstance(inp, str): static_T02(s, ts, ns)
    else: one(prop, s, ts, ns, spec, inp)


def one(prop, s, ts, ns, spec, decls):
    env = dict(ns)
    env['__name__'] = __name__
    want = expected(env, spec, decls)
    for c in decls:
        try: cls = declare(env, c, c[4])
        except TypeError as e:
            # python itself may refuse an inconsistent base order
            if 'MRO' in str(e) or 'method resolution' in str(e): return
            return s.fail('declaration refused', decls, 'structure type is created', f'{c[0]}: {type(e).__name__}: {e}')
        except Exception as e:
            return s.fail('declaration refused', decls, 'structure type is created', f'{c[0]}: {type(e).__name__}: {e}')
        w = want[c[0]]
        exp = (sorted(w), sorted(k for k in w if not w[k]), sorted(k for k in w if w[k]))
        try: got = facts(cls)
        except Exception as e: got = f'{type(e).__name__}: {e}'
        if got != exp: return s.fail(f'{prop}:keys', decls, f'{c[0]}: members, required, optional = {exp}', got)
    if prop == 'T02':
        for c in decls:
            if c[1]: continue
            forms = [f for f in ('class', 'dict', 'kw', 'meta')]
            res = []
            for f in forms:
                try: cls = declare(dict(env), c, f)
                except Exception as e: return s.fail('form refused', decls, f'{f}-syntax accepts {c}', f'{type(e).__name__}: {e}')
                if not (ts.is_typeddict(cls)): return s.fail('recognition', decls, f'{f}-syntax: recognized as TypedDict', False)
                inst = cls(**{k: 1 for k in c[3]})
                if type(inst) is not dict or inst != {k: 1 for k in c[3]}: return s.fail('instances', decls, 'plain dictionary', repr(inst))
                res.append((facts(cls), {k: str(v) for k, v in cls.__annotations__.items()}, cls.__name__))
            if any(x != res[0] for x in res): return s.fail('forms differ', decls, 'same members for class, dict and keyword syntax', res)
            if c[3]:
                try: ts.TypedDict('X', {'a': int}, **{k: eval(t, env) for k, t in c[3].items()})
                except TypeError: pass
                else: return s.fail('dict and keywords', decls, 'TypeError', 'accepted')


def static_T02(s, ts, ns):
    env = dict(ns)
    exec("class E0(TypedDict): pass\nclass S0(StdTD): pass\nclass G0(TypedDict, Generic[Generic_T]):\n    x: Generic_T\n", env)
    table = [(t, True) for t in ('Inner', 'E0', 'G0', 'S0', 'TypedDict("N", {"a": int})', 'StdTD("N", {"a": int})')] + \
            [(t, False) for t in ('dict', 'Plain', 'int', 'None', 'List[int]', 'list', 'Dict[str, int]', 'Any', '{}', '{"__required_keys__": 1}', '"Inner"', 'Optional[Inner]', 'type',
                                  'Generic_T', 'type("D", (dict,), {"__total__": True, "__required_keys__": frozenset(), "__optional_keys__": frozenset()})')]
    for t, want in table:
        s.case('rec ' + t)
        try: got = ts.is_typeddict(eval(t, env))
        except Exception as e: got = f'{type(e).__name__}: {e}'
        if got is not want: s.fail('recognition of ' + t, t, want, got)
    for src in ('class X(Inner, Plain):\n    y: int\n', 'class X(Plain, TypedDict):\n    y: int\n', 'class X(TypedDict, Plain): pass\n', 'class X(Inner, str): pass\n', 'class X(Plain, Inner): pass\n'):
        s.case('mix ' + src)
        try: exec(src, dict(env))
        except TypeError: continue
        except Exception as e:
            s.fail('mix ' + src, src, 'TypeError', f'{type(e).__name__}: {e}'); continue
        s.fail('mix ' + src, src, 'TypeError', 'accepted')
