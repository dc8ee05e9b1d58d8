"""Failing inputs for M01: command lines, each run by the real main() in a forked process whose
conversion function is replaced by one that records the settings in effect (or converts a sample)."""
import json, os, sys, tempfile, shutil
import common

DEFAULTS = {'BaseClassName': 'TypedDict', 'RenderAnonymous': 'local', 'ClassDecorator': '', 'UseEnum': True, 'UseTypeUnion': False,
            'UseTypeParameters': False, 'UseLiteralType': False, 'UseVariadicGenerics': False, 'UseNotRequired': False, 'KeepMultilineComments': False}
PEPS = {'435': 'UseEnum', '584': 'UseLiteralType', '586': 'UseLiteralType', '604': 'UseTypeUnion', '646': 'UseVariadicGenerics', '655': 'UseNotRequired'}
SAMPLE = '''/* a
 comment */
enum E { a = 1, b = 2 }
interface G<T> { x?: T | string; k: "a" | "b"; n: { y: number } }
interface H<T> extends G<T> { m(a: number): void; z?: E }
'''
GENERIC = 'interface A<T> { x: T }\n'


def setup():
    import ts2pythonParser as P
    return P


def in_child(f):
    """f() in a forked process; its result (JSON) or 'died'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try: res = f()
            except SystemExit as e: res = dict(exit=str(e.code))
            except BaseException as e: res = dict(error=f'{type(e).__name__}: {e}')
            with os.fdopen(w, 'w') as fh: fh.write(json.dumps(res))
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r) as fh: data = fh.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else dict(error='died')


class Done(BaseException): pass


def others():
    import DHParser.configuration as C
    return {k: repr(v) for k, v in C.CONFIG_PRESET.items() if not k.startswith('ts2python.') and k not in ('syncfile_path',)}


def effective():
    from DHParser.configuration import get_config_value
    return {k: get_config_value('ts2python.' + k, d) for k, d in DEFAULTS.items()}


def convert(P, text):
    res = P.full_pipeline(text, P.preprocessing.factory, P.parsing.factory, P.junctions, {'py'})['py'][0]
    return '\n'.join(l for l in str(res).split('\n') if not l.startswith(('# on ', '# Generated', '# generated', 'source_hash__')))


def apply_settings(settings):
    from DHParser.configuration import access_presets, finalize_presets, set_preset_value
    access_presets()
    for k, v in settings.items(): set_preset_value('ts2python.' + k, v, allow_new_key=True)
    finalize_presets()


def run(P, h, sample=None):
    def child():
        import DHParser.configuration as C
        out = {}

        def rec(*a, **k):
            if sample: out['text'] = convert(P, sample)
            out['settings'] = effective()
            out['others'] = {k: v for k, v in others().items() if before.get(k) != v}
            raise Done()
        P.process_file = P.batch_process = P.inspect = rec
        P.recompile_grammar = lambda *a, **k: True
        real = C.read_local_config

        def configure(path):
            if h['config'] is None: return ''
            apply_settings(h['config'])
            return path
        C.read_local_config = configure
        if hasattr(P, 'read_local_config'): P.read_local_config = configure
        before = others()
        sys.argv = ['ts2pythonParser.py'] + h['argv']
        try: P.main()
        except Done: pass
        if 'settings' not in out: out['no conversion'] = True
        return out
    return in_child(child)


def expected(h):
    o = h['options']
    want = dict(DEFAULTS, **(h['config'] or {}))
    if 'c' in o:
        try: v = tuple(int(x) for x in o['c'].split('.'))
        except ValueError: return None
        if not v >= (3, 7): return 'refused'
        for w, ks in (((3, 8), ['UseLiteralType']), ((3, 10), ['UseTypeUnion']), ((3, 11), ['UseNotRequired', 'UseVariadicGenerics']), ((3, 12), ['UseTypeParameters'])):
            for k in ks:
                if v >= w: want[k] = True
    for c, k in (('b', 'BaseClassName'), ('a', 'RenderAnonymous'), ('d', 'ClassDecorator')):
        if c in o: want[k] = o[c].strip()
    for p in o.get('p', ()):
        if p.lstrip('~') not in PEPS or p not in (p.lstrip('~'), '~' + p.lstrip('~')): return 'refused'
    for p in o.get('p', ()): want[PEPS[p.lstrip('~')]] = p[0] != '~'
    if o.get('k'): want['KeepMultilineComments'] = True
    return want


LONG = {'c': '--compatibility', 'b': '--base', 'a': '--anonymous', 'd': '--decorator', 'p': '--peps', 'k': '--comments', 'D': '--debug'}


def gen(r):
    o = {}
    if r.random() < .45: o['c'] = r.choice(['3.7', '3.8', '3.9', '3.10', '3.11', '3.12', '3.13', '3.12.1', '3.6', '2.7', '3', '4', '4.0', '3.7.2', '3.10.0'])
    if r.random() < .3: o['b'] = r.choice(['TypedDict', 'BaseModel', 'pydantic.BaseModel', ' BaseModel ', 'a.b.C'])
    if r.random() < .3: o['a'] = r.choice(['local', 'toplevel', 'functional', 'type', ' type '])
    if r.random() < .3: o['d'] = r.choice(['@dataclass', 'final', ' final '])
    if r.random() < .5:
        ps = sorted(PEPS) + ['~' + p for p in sorted(PEPS)]
        o['p'] = [r.choice(ps) for _ in range(r.randint(1, 4))]
        if r.random() < .12: o['p'].insert(r.randrange(len(o['p']) + 1), r.choice(['9999', '5', '~58', '43', '~~435', '']))
    if r.random() < .3: o['k'] = True
    if r.random() < .1: o['D'] = True
    config = None
    if r.random() < .6:
        config = {k: (not d if r.random() < .5 else d) for k, d in DEFAULTS.items() if isinstance(d, bool) and r.random() < .5}
        if r.random() < .3: config['BaseClassName'] = 'Other'
        if r.random() < .3: config['RenderAnonymous'] = 'functional'
        if r.random() < .3: config['ClassDecorator'] = '@configured'
    keys = list(o); r.shuffle(keys)
    argv = ['s.ts']
    for k in keys:
        f = '-' + k if r.random() < .5 else LONG[k]
        v = o[k]
        argv += [f] if v is True else [f, *v] if isinstance(v, list) else [f, v]
    if r.random() < .1: argv = ['s.ts', 't.ts'] + argv[1:]
    elif r.random() < .1: argv[0] = 'dir'
    return dict(options=o, config=config, argv=argv)


def one(P, s, h, sample=None):
    want = expected(h)
    if want is None: return
    got = run(P, h, sample)
    if want == 'refused':
        if 'settings' in got: s.fail('refusal', h, 'unsupported version or PEP is refused', got['settings'])
        elif 'error' in got: s.fail('refusal', h, 'unsupported version or PEP is refused', got['error'])
        return
    if 'settings' not in got: return s.fail('no conversion', h, want, got)
    for k in DEFAULTS:
        if got['settings'][k] != want[k]: return s.fail('setting ' + k, h, f'{k} = {want[k]!r}', repr(got['settings'][k]))
    if got['others'] and not h['options'].get('D'): return s.fail('other settings', h, 'unchanged', got['others'])
    if sample:
        ref = in_child(lambda: (apply_settings(want), dict(text=convert(P, sample)))[1])
        if got.get('text') != ref.get('text'): s.fail('settings read', h, ref, got.get('text'))


def reads(P, s, settings):
    """The converter reads the settings under the names under which the options set them."""
    def child():
        apply_settings(dict(DEFAULTS, **settings))
        c = P.ts2pythonCompiler(); c.reset()
        return {k: v for k, v in vars(c).items() if isinstance(v, (bool, str))}
    got = in_child(child)
    ref = in_child(lambda: (apply_settings(DEFAULTS), (lambda c: (c.reset(), {k: v for k, v in vars(c).items() if isinstance(v, (bool, str))})[1])(P.ts2pythonCompiler()))[1])
    return got, ref


def check_reads(P, s):
    h = lambda st: dict(settings=st)
    for k, d in DEFAULTS.items():
        v = (not d) if isinstance(d, bool) else {'BaseClassName': 'BaseModel', 'RenderAnonymous': 'toplevel', 'ClassDecorator': '@final'}[k]
        got, ref = reads(P, s, {k: v})
        s.case('reads ' + k)
        if got == ref:
            if k == 'UseTypeParameters': s.known.add('UseTypeParameters-misspelt')
            else: s.fail('not read ' + k, h({k: v}), f'setting {k} has an effect on the converter', 'none')
            continue
        if 'error' in got: s.fail('not read ' + k, h({k: v}), f'setting {k} is accepted', got['error']); continue
        diff = {a: got[a] for a in got if got[a] != ref.get(a)}
        if isinstance(d, bool):
            if list(diff.values()) != [v]: s.fail('misread ' + k, h({k: v}), f'exactly {k} differs', diff)
    for bcn, name, imp in (('BaseModel', 'BaseModel', ''), ('pydantic.BaseModel', 'BaseModel', '\nfrom pydantic import BaseModel\n'), ('a.b.C', 'C', '\nfrom a.b import C\n')):
        got, _ = reads(P, s, {'BaseClassName': bcn})
        if got.get('base_class_name', name) != name or got.get('additional_imports', imp) != imp:
            s.fail('base class ' + bcn, h({'BaseClassName': bcn}), [name, imp], [got.get('base_class_name'), got.get('additional_imports')])
    for d, t in (('@final', '@final\n'), ('final', '@final\n'), (' @x(1) ', '@x(1)\n'), ('', ''), ('  ', ''), ('attr.s', '@attr.s\n'), (' a.b.c(1, "x")', '@a.b.c(1, "x")\n')):
        got, _ = reads(P, s, {'ClassDecorator': d})
        if got.get('class_decorator', t) != t: s.fail('decorator', h({'ClassDecorator': d}), t, got.get('class_decorator'))
    for a in ('type', 'functional', 'local', 'toplevel', 'bogus', 'locale', '', 'Local'):
        got, _ = reads(P, s, {'RenderAnonymous': a})
        ok = a in ('type', 'functional', 'local', 'toplevel')
        if ok != ('error' not in got): s.fail('anonymous', h({'RenderAnonymous': a}), 'accepted' if ok else 'ValueError', got.get('error'))


def scratch(f):
    old, d = os.getcwd(), tempfile.mkdtemp(prefix='w_main')
    try:
        os.chdir(d)
        os.mkdir('dir')
        for p in ('s.ts', 't.ts', 'dir/u.ts'):
            with open(p, 'w') as fh: fh.write('interface A { x: number }\n')
        f()
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def search(prop, s):
    P = setup()
    s.rule = 'distinct command lines and configuration files'

    def go():
        check_reads(P, s)
        n = {'quick': 3000, 'thorough': 30000}[s.tier]
        while s.more() and s.cases < n:
            h = gen(s.rnd)
            s.case(repr(h), h)
            one(P, s, h, SAMPLE if s.cases % 7 == 0 else None)
    scratch(go)


def replay(prop, inp, s, P=None):
    P = P or setup()
    scratch(lambda: check_reads(P, s) if 'settings' in inp else one(P, s, inp, SAMPLE))
