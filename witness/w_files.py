"""Failing inputs for F01/F02/F03: histories of conversions in a scratch directory, compared with what
source, settings and program were in force when a result was written."""
import os, re, shutil, tempfile
import common

SOURCES = ['interface A { x: number }\n', 'interface A { x?: string;\n  y: A[] }\n', 'type T = "a" | "b";\n', '', '\n',
           'interface A { a: number }\ninterface A { b: string }\n', 'interface A { \n', '}}}\n', 'bogus', 'interface B { z: any }',
           'interface 99 {}\n', 'namespace N { export const a = 1; }\n', 'enum E { a, b }\nenum E { c }\n']
SETTINGS = [('UseEnum', False), ('UseTypeUnion', True), ('UseLiteralType', True), ('UseVariadicGenerics', True), ('UseNotRequired', True),
            ('KeepMultilineComments', True), ('BaseClassName', 'BaseModel'), ('BaseClassName', 'pydantic.BaseModel'),
            ('RenderAnonymous', 'toplevel'), ('RenderAnonymous', 'functional'), ('ClassDecorator', '@final'), ('ClassDecorator', 'dataclass')]
DEFAULTS = {'UseEnum': True, 'UseTypeUnion': False, 'UseLiteralType': False, 'UseVariadicGenerics': False, 'UseNotRequired': False,
            'KeepMultilineComments': False, 'BaseClassName': 'TypedDict', 'RenderAnonymous': 'local', 'ClassDecorator': ''}
NAMES = ['a.ts', 'b.ts', 'c.d.ts', 'noext', 'sub/d.ts']


def setup():
    import ts2pythonParser as P
    return P


def set_all(P, settings):
    from DHParser.configuration import set_config_value
    for k, v in settings.items():
        try: set_config_value('ts2python.' + k, v, allow_new_key=True)
        except TypeError: set_config_value('ts2python.' + k, v)


def snapshot(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as fh: out[os.path.relpath(p, d)] = fh.read()
    return out


class World:
    def __init__(self, P):
        self.P, self.calls = P, []
        self.real = P.full_pipeline
        self.scratch = tempfile.mkdtemp(prefix='w_files')
        self.old = os.getcwd()
        os.chdir(self.scratch)
        self.script = P.__file__
        with open(self.script, encoding='utf-8') as f: self.text = f.read()
        self.copy = os.path.join(self.scratch, '..', os.path.basename(self.scratch) + '.program.py')
        self.stub = None

        def counted(source, *a, **k):
            self.calls.append(source)
            if self.stub: return {t: self.stub() for t in (a[3] if len(a) > 3 else k['target_stages'])}
            return self.real(source, *a, **k)
        P.full_pipeline = counted

    def program(self, n):
        with open(self.copy, 'w', encoding='utf-8') as f: f.write(self.text + '#' * n)
        self.P.__file__ = self.copy

    def close(self):
        self.P.full_pipeline, self.P.__file__ = self.real, self.script
        os.chdir(self.old)
        shutil.rmtree(self.scratch)
        if os.path.exists(self.copy): os.remove(self.copy)


def gen(r):
    ops = []
    for _ in range(r.randint(2, 7)):
        x = r.random()
        if x < .3: ops.append(['source', r.choice(NAMES), r.randrange(len(SOURCES))])
        elif x < .42: ops.append(['setting', *r.choice(SETTINGS)])
        elif x < .48: ops.append(['program', r.randrange(3)])
        elif x < .55: ops.append(['touch', r.randrange(4)])
        elif x < .92: ops.append(['convert', r.choice(NAMES), r.choice(['', '', 'r.py', 'sub/r.py', 'a.py', 'same', 'same', './same', 'sub/../same', 'abs/same', './r.py', 'odd.name.py', 'plain'])])
        else: ops.append(['text', r.randrange(len(SOURCES)), r.choice(['', 't.py']), r.choice([None, None, 'fatal', 'error', 'warning', 'many'])])
        if r.random() < .35 and ops[-1][0] in ('convert', 'text'): ops.append(list(ops[-1]))
    return dict(files=[[n, r.randrange(len(SOURCES))] for n in NAMES], ops=ops)


def stub_for(P, kind):
    E = P.Error
    codes = {'fatal': [P.FATAL], 'error': [P.ERROR], 'warning': [P.WARNING], 'many': [P.WARNING, P.ERROR, P.WARNING]}[kind]
    return lambda: ('stubbed module\n', [E('stub', 0, c) for c in codes])


def one(P, s, h, prop):
    W = World(P)
    settings = dict(DEFAULTS)
    try:
        os.mkdir('sub')
        text, origin, prog = {}, {}, 0
        for n, i in h['files']:
            with open(n, 'w', encoding='utf-8') as f: f.write(SOURCES[i])
            text[n] = SOURCES[i]
        set_all(P, settings)
        for step, op in enumerate(h['ops']):
            if op[0] == 'source':
                with open(op[1], 'w', encoding='utf-8') as f: f.write(SOURCES[op[2]])
                text[op[1]] = SOURCES[op[2]]
            elif op[0] == 'setting':
                settings[op[1]] = op[2] if settings[op[1]] != op[2] else DEFAULTS[op[1]]
                set_all(P, settings)
            elif op[0] == 'program':
                prog = op[1]; W.program(prog)
            elif op[0] == 'touch':
                made = sorted(origin)
                if made:
                    p = made[op[1] % len(made)]
                    with open(p, 'w') as f: f.write('# nothing\n')
                    del origin[p]
            else:
                kind = op[3] if op[0] == 'text' else None
                source = SOURCES[op[1]] if op[0] == 'text' else op[1]
                is_text = op[0] == 'text'
                if is_text and P.is_filename(source): continue     # would be taken for a file name
                res = op[2]
                if res.endswith('same') and not is_text:
                    res = os.path.abspath(source) if res.startswith('abs') else res[:-4] + source
                elif res.endswith('same'): res = ''
                given = res or ('out.py' if is_text else os.path.splitext(source)[0] + '.py')
                out = os.path.relpath(given) if given else given
                content = source if is_text else text[source]
                W.stub = stub_for(P, kind) if kind else None
                state = (content, prog, tuple(sorted(settings.items())))
                before = snapshot('.')
                up_to_date = out in origin and origin[out] == state and out in before
                del W.calls[:]
                try: ret = P.process_file(source, res) if res or step % 2 else P.process_file(source)
                except Exception as e:
                    s.fail('exception', h, 'returns', f'step {step}: {type(e).__name__}: {e}'); return
                after = snapshot('.')
                calls = list(W.calls)
                if prop == 'F02':
                    if up_to_date != (not calls) or len(calls) > 1:
                        s.fail('skip', h, f'step {step}: {"skipped" if up_to_date else "one conversion"}', f'{len(calls)} conversions'); return
                    if up_to_date and (before != after or ret != ''):
                        s.fail('skip touches files', h, f'step {step}: nothing changes', f'{ret!r} {[k for k in after if after[k] != before.get(k)]}'); return
                if calls:
                    try: result, errors = (W.stub or (lambda: W.real(source, P.preprocessing.factory, P.parsing.factory, P.junctions, {'py'})['py']))()
                    except Exception: return
                    sev = [int(e.code) for e in errors]
                    same = not is_text and os.path.abspath(out) == os.path.abspath(source)
                    fatal = any(c >= 10000 for c in sev)
                    if same and not fatal: sev.append(10000)
                    root = os.path.splitext(given)[0]
                    msg = (root + ('_ERRORS.txt' if any(c >= 1000 for c in sev) else '_WARNINGS.txt')) if sev else ''
                    allowed = ({out} if not fatal and not same else set()) | ({os.path.relpath(msg)} if msg else set())
                    changed = {os.path.normpath(k) for k in after if after[k] != before.get(k)} | {os.path.normpath(k) for k in before if k not in after}
                    if prop == 'F01':
                        if ret != msg: s.fail('message file name', h, f'step {step}: {msg!r}', repr(ret)); return
                        if not changed <= allowed: s.fail('files written', h, f'step {step}: at most {sorted(allowed)}', str(sorted(changed))); return
                        miss = [a for a in allowed if a not in after]
                        if miss: s.fail('files missing', h, f'step {step}: {sorted(allowed)} written', f'{miss} missing'); return
                        if out in allowed and isinstance(result, str):
                            got = after[out].decode('utf-8')
                            strip = lambda t: re.sub(r'on \d{4}-.*', '', t)
                            if strip(got) != strip(result): s.fail('result content', h, f'step {step}: the generated module', got[:300]); return
                        if not is_text and after.get(source) != before.get(source): s.fail('source changed', h, 'unchanged', 'changed'); return
                    if not fatal and not same and not kind and result: origin[out] = state
                    elif out in changed: origin.pop(out, None)
                    for k in changed:
                        if k in text: text.pop(k)
                        if k != out: origin.pop(k, None)
                    if any(n not in text for n in NAMES): return
    finally:
        set_all(P, DEFAULTS)
        W.close()


def batch(P, s, h):
    W = World(P)
    from DHParser.configuration import set_config_value
    try:
        os.mkdir('in'); os.mkdir('in/sub')
        names = []
        for i, (n, k) in enumerate(h['files']):
            p = os.path.join('in', n)
            with open(p, 'w', encoding='utf-8') as f: f.write(SOURCES[k])
            names.append(p)
        os.mkdir('o')
        names = [names[i] for i in h['order']]
        alone = []
        os.mkdir('ref')
        for n in names:
            alone.append(P.process_file(n, os.path.join('ref', os.path.splitext(os.path.basename(n))[0] + P.RESULT_FILE_EXTENSION)))
        del W.calls[:]
        done = []

        class Fut:
            def __init__(self, f, a): self.f, self.a, self.r = f, a, None
            def result(self, timeout=None): return self.r

        def submit(f, *a):
            fu = Fut(f, a); fu.r = f(*a); done.append(fu); return fu
        set_config_value('batch_processing_parallelization', False)
        kw = {'submit_func': submit} if h['submit'] else {}
        if h['log']: kw['log_func'] = lambda m: None
        got = P.batch_process(names, 'o', **kw)
        want = [os.path.join('o', os.path.basename(a)) for a in alone if a]
        if got != want: return s.fail('message files', h, want, got)
        if W.calls != names: return s.fail('conversions', h, names, W.calls)
        exp = sorted(os.path.splitext(os.path.basename(n))[0] + P.RESULT_FILE_EXTENSION for n in names)
        have = sorted(f for f in os.listdir('o') if f.endswith(P.RESULT_FILE_EXTENSION))
        ref = sorted(f for f in os.listdir('ref') if f.endswith(P.RESULT_FILE_EXTENSION))
        if have != ref: s.fail('result files', h, exp, have)
    except Exception as e: s.fail('exception', h, 'returns', f'{type(e).__name__}: {e}')
    finally: W.close()


def gen_batch(r):
    files = [[n, r.randrange(len(SOURCES))] for n in r.sample(NAMES, r.randint(0, len(NAMES)))]
    order = list(range(len(files))); r.shuffle(order)
    return dict(files=files, order=order, submit=r.random() < .6, log=r.random() < .5)


def long_source(P, s, inp):
    """The hash depends on every character of the source, however long it is."""
    if not hasattr(P, 'source_hash'): return
    size, pos = inp['long']
    text = ('interface A { x: number }  ' * (size // 27 + 1))[:size]
    other = text[:pos] + ('#' if text[pos] != '#' else '+') + text[pos + 1:]
    if P.source_hash(text) == P.source_hash(other): s.fail('hash', inp, 'different hashes', 'equal hashes')


def search(prop, s):
    P = setup()
    s.rule = 'distinct histories of conversions, source, setting and program changes'
    n = {'quick': 4000, 'thorough': 60000}[s.tier]
    if prop == 'F02':
        for size in (1, 10, 100, 4000, 70000, 300000, 5000000):
            for pos in sorted({0, 1, size // 3, size // 2, size - 2, size - 1} & set(range(size))):
                s.case(('long', size, pos), [size, pos])
                replay(prop, dict(long=[size, pos]), s, P)
    if prop != 'F03':       # every single change between two conversions, and every change after another change
        changes = [['setting', *x] for x in SETTINGS] + [['program', 1], ['source', 'a.ts', 1]]
        for c in changes:
            for first in [None] + changes:
                h = dict(files=[[n, 0] for n in NAMES], ops=([first] if first else []) + [['convert', 'a.ts', ''], c, ['convert', 'a.ts', '']])
                s.case(repr(h), h)
                replay(prop, h, s, P)
    while s.more() and s.cases < n:
        h = gen_batch(s.rnd) if prop == 'F03' else gen(s.rnd)
        s.case(repr(h), h)
        replay(prop, h, s, P)


def replay(prop, inp, s, P=None):
    P = P or setup()
    if 'long' in inp: return long_source(P, s, inp)
    if prop == 'F03': batch(P, s, inp)
    else: one(P, s, inp, prop)
