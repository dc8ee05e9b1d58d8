"""Failing inputs for D01/D02: histories of registrations, definitions and calls of an overloaded function,
compared with functools._find_impl applied to the registrations in force (no cache, no postponing)."""
import abc, functools, types, typing
import common


def gen(r):
    n = r.randint(2, 6)
    classes = []
    for i in range(n):
        bases = sorted(r.sample(range(i), min(i, r.choice([0, 1, 1, 1, 2]))), reverse=True)
        classes.append([bases, r.random() < .4])
    defined, taken, ops = set(), set(), []
    for i in range(n):
        if r.random() < .6: defined.add(i); ops.append(['define', i])
    for _ in range(r.randint(3, 14)):
        x = r.random()
        if x < .45: ops.append(['call', r.randrange(n), r.randrange(3)])
        elif x < .55:
            i = r.randrange(n)
            if i not in defined: defined.add(i); ops.append(['define', i])
        elif x < .65:
            a, b = r.randrange(n), r.randrange(n)
            if r.random() < .7: ops.append(['call', b, 0])
            ops.append(['virtual', a, b])
            if r.random() < .7: ops.append(['call', b, 0])
        else:
            form = r.choice(['explicit', 'decorator', 'annotated', 'string', 'string', 'return'])
            k = r.choice([1, 1, 1, 2, 3])
            pool = [i for i in range(n) if i in defined] if form not in ('string',) else list(range(n))
            late = form == 'string' and any(i not in defined for i in range(n))
            ts = r.sample(pool, min(len(pool), k))
            if not ts: continue
            if any(i not in defined for i in ts): ts = [i for i in ts if i not in taken]
            if not ts: continue
            ops.append(['register', form, ts, r.choice(['Union', '|'])])
            taken.update(ts)
    return dict(method=r.random() < .3, classes=classes, ops=ops)


def build(classes):
    out = []
    for i, (bases, is_abc) in enumerate(classes):
        bs = tuple(out[b] for b in bases)
        try:
            out.append(abc.ABCMeta(f'C{i}', bs, {}) if is_abc or any(isinstance(b, abc.ABCMeta) for b in bs) else type(f'C{i}', bs, {}))
        except TypeError: out.append(type(f'C{i}', (), {}))
    return out


def one(s, h):
    import ts2python.singledispatch_shim as sd
    cls = build(h['classes'])
    ns = {'Union': typing.Union, 'log': [], '__name__': 'history'}
    exec('def f0(*args, **kw):\n    log.append(("default", args, kw)); return "r-default"\n', ns)
    if h['method']:
        ns.update(singledispatchmethod=sd.singledispatchmethod)
        ns['f0'].__name__ = 'f'
        def m0(self, *args, **kw):
            ns['log'].append(('default', args, kw)); return 'r-default'
        desc = sd.singledispatchmethod(m0)
        Holder = type('Holder', (), {'f': desc})
        holder = Holder()
        register, callf = desc.register, lambda *a, **k: holder.f(*a, **k)
    else:
        f = sd.singledispatch(ns['f0'])
        register, callf = f.register, f
    reg, pend, bound = {object: 'default'}, [], set()
    for step, op in enumerate(h['ops']):
        if op[0] == 'define':
            ns[f'C{op[1]}'] = cls[op[1]]; bound.add(op[1])
        elif op[0] == 'virtual':
            a, b = cls[op[1]], cls[op[2]]
            if isinstance(a, abc.ABCMeta) and a is not b:
                try: a.register(b)
                except Exception: pass
        elif op[0] == 'register':
            form, ts, style = op[1:]
            undefined = [i for i in ts if i not in bound]
            if form != 'string' and undefined: continue
            if not undefined and any(i in p[1] for p in pend for i in ts): continue
            name = f'i{step}'
            text = 'C%d' % ts[0] if len(ts) == 1 else ('Union[%s]' % ', '.join(f'C{i}' for i in ts) if style == 'Union' else ' | '.join(f'C{i}' for i in ts))
            ann = {'explicit': '', 'decorator': '', 'annotated': ': ' + text, 'string': ': ' + repr(text), 'return': ': ' + text}[form]
            ret = ' -> str' if form == 'return' else ''
            exec(f'def {name}({"self, " if h["method"] else ""}x{ann}, *args, **kw){ret}:\n    log.append(({name!r}, (x,) + args, kw)); return "r-{name}"\n', ns)
            try:
                if form in ('explicit', 'decorator'):
                    t = eval(text, ns)
                    r = register(t, ns[name]) if form == 'explicit' else register(t)(ns[name])
                else: r = register(ns[name])
            except Exception as e: return s.fail('registration', h, 'implementation is registered', f'step {step}: {type(e).__name__}: {e}')
            if r is not ns[name]: return s.fail('registration result', h, 'register returns the implementation', f'step {step}: {r!r}')
            if undefined: pend.append((name, ts))
            else: reg.update({cls[i]: name for i in ts})
        else:
            c = cls[op[1]]
            try: x = c()
            except TypeError: continue
            args, kw = [((), {}), ((1,), {}), ((2, 3), {'k': 4})][op[2]]
            if c in reg: want = reg[c]
            else:
                rest = []
                for name, ts in pend:
                    if all(i in bound for i in ts): reg.update({cls[i]: name for i in ts})
                    else: rest.append((name, ts))
                pend[:] = rest
                if rest: want = 'NameError'
                elif c in reg: want = reg[c]
                else:
                    try: want = functools._find_impl(c, {k: v for k, v in reg.items()})
                    except RuntimeError: want = 'RuntimeError'
            del ns['log'][:]
            try:
                got = callf(x, *args, **kw)
            except Exception as e: got = type(e).__name__
            if want in ('NameError', 'RuntimeError'):
                if got != want or ns['log']: return s.fail('call', h, f'step {step}: {want}', f'{got} {ns["log"]}')
            else:
                log = ns['log']
                if got != 'r-' + want or len(log) != 1 or log[0][0] != want or log[0][1] != (x,) + args or log[0][2] != kw or log[0][1][0] is not x:
                    return s.fail('call', h, f'step {step}: runs {want} with {args} {kw}', f'{got} {log!r}'[:300])
    try: callf()
    except (TypeError, IndexError): pass
    except Exception as e: s.fail('no argument', h, 'TypeError', type(e).__name__)


def search(prop, s):
    s.rule = 'distinct histories of definitions, registrations and calls'
    n = {'quick': 12000, 'thorough': 300000}[s.tier]
    while s.more() and s.cases < n:
        h = gen(s.rnd)
        s.case(repr(h), h)
        one(s, h)


def replay(prop, inp, s): one(s, inp)
