"""Failing inputs for V03: functions with random annotated signatures and random calls."""
import inspect, typing
import common
import w_validation as wv

PARAMS = ['a', 'b', 'c']


def gen_sig(r):
    """Text of a parameter list and of the return annotation."""
    ann = lambda: (': ' + wv.gen_type(r, r.choice([0, 0, 1, 1, 2]))) if r.random() < .8 else ''
    ps = []
    n = r.randint(0, 3)
    dflt = False
    for p in PARAMS[:n]:
        a = ann()
        if dflt or r.random() < .3:
            dflt = True
            ps.append(f'{p}{a} = {r.choice(["None", "0", chr(39) * 2])}')
        else: ps.append(p + a)
    if n and r.random() < .2: ps.insert(r.randint(1, n), '/')
    if r.random() < .35: ps.append('*args' + ann())
    elif r.random() < .2: ps.append('*'); ps.append('k' + ann())
    if ps and ps[-1] != '*' and not ps[-1].startswith('k') and r.random() < .2: 
        if any(p.startswith('*') for p in ps): ps.append('k' + ann() + (' = 1' if r.random() < .5 else ''))
    if r.random() < .35: ps.append('**kw' + ann())
    ret = (' -> ' + wv.gen_type(r, r.choice([0, 1, 2]))) if r.random() < .7 else ''
    return ', '.join(ps), ret


def build(env, sig, ret, check, ret_value):
    """(plain, decorated, calls): decorated by type_check; calls records what arrives."""
    calls = []
    ns = dict(env)
    ns['calls'] = calls
    ns['result'] = ret_value
    names = {}
    exec(f'def f({sig}){ret}:\n    calls.append(dict(locals()))\n    if isinstance(result, Exception): raise result\n    return result\n', ns)
    return ns['f'], calls


def one(s, env, ob, conforms, spec, inp):
    import ts2python.json_validation as jv
    sig, ret, check, rv, args, kwargs = (inp[k] for k in ('signature', 'returns', 'check_return_type', 'result', 'args', 'kwargs'))
    try:
        result = eval(rv, env)
        f, calls = build(env, sig, ret, check, result)
        a, kw = eval(args, env), eval(kwargs, env)
        hints = typing.get_type_hints(f)
    except Exception: return
    if not hints: return
    psig = inspect.signature(f)
    try:
        g = jv.type_check(f) if check is None else jv.type_check(f, check)
    except Exception as e:
        s.fail('decorating', inp, 'function is decorated', f'{type(e).__name__}: {e}')
        return
    spec.update(is_var_positional=lambda n: psig.parameters[n].kind == 2, is_var_keyword=lambda n: psig.parameters[n].kind == 4,
                tuple_of=lambda h: typing.Tuple[h, ...], dict_of=lambda h: typing.Dict[str, h])
    for attempt in (1, 2):     # the second call must behave like the first
        calls.clear()
        try: bound, binds = dict(psig.bind(*a, **kw).arguments), True
        except TypeError: bound, binds = {}, False
        try: ok = binds and spec['spec_accepts_call'](bound, hints)
        except TypeError: return
        if not binds: want = 'TypeError', 0
        elif not ok: want = 'TypeError', 0
        elif isinstance(result, Exception): want = 'user', 1
        elif 'return' in hints and check is not False and not conforms(result, hints['return']): want = 'TypeError', 1
        else: want = 'returns', 1
        try:
            r = g(*a, **kw)
            got = ('returns' if r is result else f'returns {r!r} instead of {result!r}'), len(calls)
        except (TypeError, ValueError) as e: got = ('user' if e is result else 'TypeError'), len(calls)
        except BaseException as e: got = ('user' if e is result else type(e).__name__), len(calls)
        s.case((sig, ret, check, rv, args, kwargs), f'f({sig}){ret} called with *{args}, **{kwargs}: {want[0]}')
        if got != want:
            s.fail('behaviour', inp, want, got)
            return
        if calls:
            plain = list(calls[0].items())
            calls.clear()
            try: f(*a, **kw)
            except BaseException: pass
            same = lambda x, y: x is y or (type(x) is type(y) and x == y)
            if [k for k, _ in plain] != list(calls[0]) or any(not same(v, calls[0][k]) for k, v in plain):
                s.fail('arguments', inp, calls[0], dict(plain))
                return


def search(prop, s):
    s.rule = 'random signatures (positional-only, defaults, *args, keyword-only, **kwargs) and random calls, each made twice'
    env = wv.universe()
    ob = wv.Obs(env)
    spec, conforms = ob.names()
    r = s.rnd
    limit = 12000 if s.tier == 'quick' else 150000
    while s.more() and s.cases < limit:
        sig, ret = gen_sig(r)
        try: f, _ = build(env, sig, ret, None, None)
        except Exception: continue
        try: hints = typing.get_type_hints(f)
        except Exception: continue
        for _ in range(4):
            args, kwargs = [], {}
            val = lambda n: wv.mutate(r, v) if r.random() < .15 else v
            for n, p in inspect.signature(f).parameters.items():
                mk = lambda: (lambda v: wv.mutate(r, v) if r.random() < .12 else v)(wv.gen_value(r, ob, hints.get(n, typing.Any), 3))
                try:
                    if p.kind == 2: args += [mk() for _ in range(r.choice([0, 1, 2]))]
                    elif p.kind == 4: kwargs.update({k: mk() for k in r.sample(['z1', 'z2', 'x'], r.choice([0, 1, 2]))})
                    elif p.default is not p.empty and r.random() < .5: continue
                    elif p.kind == 3 or (p.kind == 1 and r.random() < .3): kwargs[n] = mk()
                    elif not kwargs: args.append(mk())
                    else: kwargs[n] = mk()
                except Exception: pass
            if r.random() < .03: args.append(1)
            try: rv = wv.src(wv.gen_value(r, ob, hints.get('return', typing.Any), 3)) if r.random() < .8 else wv.src(wv.gen_any(r))
            except Exception: rv = 'None'
            if r.random() < .05: rv = r.choice(["TypeError('user')", "KeyError('user')", "ValueError('x')"])
            one(s, env, ob, conforms, spec, dict(signature=sig, returns=ret, check_return_type=r.choice([None, None, True, False]), result=rv,
                                                 args=wv.src(args), kwargs=wv.src(kwargs)))


def replay(prop, inp, s):
    env = wv.universe()
    ob = wv.Obs(env)
    spec, conforms = ob.names()
    one(s, env, ob, conforms, spec, inp)
