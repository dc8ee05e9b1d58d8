"""Contracts of main() (command line options -> settings) and ts2pythonCompiler.reset (M01)."""
import posixpath
import z3
from pydv.engine import *
from pydv.spec import model, repo_fn
from pydv.lib import m_str, rfind_parts
from pydv.merge import ite
from . import files as FI
from .files import F, S, MOD, new_interp as new_files

P = 'ts2python.'
KEYS = ['BaseClassName', 'RenderAnonymous', 'ClassDecorator', 'UseEnum', 'UseTypeUnion', 'UseTypeParameters', 'UseLiteralType',
        'UseVariadicGenerics', 'UseNotRequired', 'KeepMultilineComments']
FLAGS = {'-c': '--compatibility', '-b': '--base', '-a': '--anonymous', '-d': '--decorator', '-p': '--peps', '-k': '--comments'}
PEPS = {'435': 'UseEnum', '584': 'UseLiteralType', '586': 'UseLiteralType', '604': 'UseTypeUnion', '646': 'UseVariadicGenerics', '655': 'UseNotRequired'}
PEP_KEYS = sorted(set(PEPS.values()))
ALL_PEPS = sorted(PEPS) + ['~' + p for p in sorted(PEPS)]
OTHER = {'history_tracking', 'resume_notices', 'log_syntax_trees', 'batch_processing_parallelization'}
N_FILES, N_PEPS = z3.Const('number_of_files', IntS), z3.Const('number_of_peps', IntS)
pep_at, file_at = F('pep', IntS, StrS), F('file', IntS, StrS)


def spec_of(I): return I.inline


def new_interp(reflect, deadline=None):
    I = new_files(reflect, deadline)
    M = I.models
    for n in ('abspath', 'basename', 'dirname', 'splitext', 'join'):
        k = 'posixpath.' + n
        M[k] = (lambda old, fn: lambda I, a, k: fn(*a) if all(isinstance(x, str) for x in a) else old(I, a, k))(M[k], getattr(posixpath, n))
    I.global_hooks.insert(0, lambda I, m, n: '/repo/ts2pythonParser.py' if m == MOD and n == '__file__' else NotImplemented)
    M['genericpath.isdir'] = lambda I, a, k: F('isdir', StrS, BoolS)(zstr(a[0]))
    M['posix.mkdir'] = M['os.mkdir'] = M['os.makedirs'] = lambda I, a, k: None
    M['posix.listdir'] = lambda I, a, k: I.alloc(ListCell([('comp', I.comp_of_seq(ASeq(z3.Const('n_dir', IntS), lambda j: F('dir_entry', IntS, StrS)(zint(j)))))]))
    M['DHParser.dsl.recompile_grammar'] = lambda I, a, k: True
    M['DHParser.configuration.read_local_config'] = read_config
    M['DHParser.configuration.access_presets'] = lambda I, a, k: access(I, True)
    M['DHParser.configuration.finalize_presets'] = lambda I, a, k: access(I, False)
    M['DHParser.configuration.set_preset_value'] = set_preset
    M['DHParser.configuration.set_config_value'] = set_config
    M['DHParser.configuration.get_config_values'] = lambda I, a, k: freeze(I, a[0])
    M['DHParser.configuration.get_config_value'] = get_config
    M['DHParser.configuration.get_preset_value'] = get_preset
    M['DHParser.log.start_logging'] = lambda I, a, k: None
    M['sys.exit'] = M['builtins.exit'] = sys_exit
    M['argparse.ArgumentParser'] = lambda I, a, k: Sym(I.fresh(Obj, 'parser'), 'argparser')
    M['builtins.print'] = lambda I, a, k: None
    M['builtins.int'] = to_int
    M['posix.cpu_count'] = lambda I, a, k: 8
    I.attr_hooks.insert(0, attr)
    I.contracts[MOD + '.process_file'] = lambda I, f, a, k: convert(I, 'process_file')
    I.contracts[MOD + '.batch_process'] = lambda I, f, a, k: convert(I, 'batch_process')
    I.contracts[MOD + '.inspect'] = lambda I, f, a, k: convert(I, 'inspect')
    I.loop_hooks.insert(0, pep_loop)
    j = z3.Int('jpep')
    I.fact(z3.ForAll([j], F('str_strip', StrS, StrS)(pep_at(j)) == pep_at(j), patterns=[pep_at(j)]))
    return I


def event(I, kind, key):
    put(I, **{'changed:' + kind: zbool(True)})
    if key not in OTHER: put(I, **{'changed:unknown': zbool(True)})



def st(I): return I.cell(I.store).attrs
def put(I, **kw):
    at = dict(st(I)); at.update(kw)
    I.write(I.store, ObjCell('store', at), 'store')


def access(I, on):
    if I.truth(zbool(st(I)['accessing']) == zbool(on)): raise PyRaise(Exc(['builtins.AssertionError'], (), {'origin': 'presets'}))
    put(I, accessing=on)


def set_preset(I, a, k):
    names = ['key', 'value', 'allow_new_key']
    kw = dict(zip(names, a)); kw.update(k)
    key = kw['key']
    if not isinstance(key, str): raise Unsupported('key that depends on the input')
    if not I.truth(st(I)['accessing']): raise PyRaise(Exc(['builtins.AssertionError'], (), {'origin': 'presets'}))
    if not I.truth(kw.get('allow_new_key', False)) and key.startswith(P) and not I.decide(z3.Const('known:' + key, BoolS)):
        raise PyRaise(Exc(['builtins.ValueError'], (), {'origin': 'presets'}))
    if not key.startswith(P): return event(I, 'other', key)
    if key[len(P):] not in KEYS: return event(I, 'unknown key', key)
    put(I, **{'v_' + key[len(P):]: kw['value']})


def set_config(I, a, k):
    if isinstance(a[0], str) and not a[0].startswith(P): return event(I, 'config', a[0])
    raise Unsupported('set_config_value of a converter setting')


def get_preset(I, a, k):
    if isinstance(a[0], str) and a[0].startswith(P) and a[0][len(P):] in KEYS:
        v = st(I)['v_' + a[0][len(P):]]
        return v
    raise Unsupported('get_preset_value')


def get_config(I, a, k):
    if isinstance(a[0], str) and not a[0].startswith(P): return I.fresh(BoolS, 'cfg')
    if isinstance(a[0], str) and I.truth(st(I)['accessing']): raise PyRaise(Exc(['builtins.AssertionError'], (), {'origin': 'presets'}))
    raise Unsupported('main reads a converter setting')


def freeze(I, pattern):
    if I.truth(st(I)['accessing']): raise PyRaise(Exc(['builtins.AssertionError'], (), {'origin': 'presets'}))
    if pattern not in ('ts2python.*', '*'): raise Unsupported('get_config_values')
    s, fz = st(I), zbool(st(I)['frozen'])
    put(I, frozen=True, **{'f_' + k: s['v_' + k] if z3.is_false(fz) else ite([fz, z3.BoolVal(True)], [s['f_' + k], s['v_' + k]], True) for k in KEYS})
    return I.new_dict()


def effective(I, s):
    """The settings the converter sees: fixed by the first access to the configuration."""
    fz = zbool(s['frozen'])
    return {k: s['v_' + k] if z3.is_false(fz) else ite([fz, z3.BoolVal(True)], [s['f_' + k], s['v_' + k]], True) for k in KEYS}


def read_config(I, a, k):
    if I.truth(st(I)['accessing']): raise PyRaise(Exc(['builtins.AssertionError'], (), {'origin': 'presets'}))
    put(I, **{'v_' + k: configured(k) for k in KEYS})


def configured(k): return z3.Const('configured:' + k, StrS if k in KEYS[:3] else BoolS)


def convert(I, how):
    """The settings do not change any more once the conversion has started."""
    s = dict(st(I))
    I.prove(z3.Not(zbool(s['accessing'])), 'main: the settings are complete when the conversion starts')
    raise PyRaise(Exc(['%converted'], (how, s)))


def sys_exit(I, a, k): raise PyRaise(Exc(['builtins.SystemExit'], tuple(a)))


def to_int(I, a, k):
    v = a[0]
    if is_z3(v) and v.sort() == StrS: return F('int_of', StrS, IntS)(v)
    from pydv import lib
    return lib.b_int(I, a, k)


# ---------------------------------------------------------------- argparse
def attr(I, o, name):
    if not isinstance(o, Sym): return NotImplemented
    if o.k == 'argparser':
        if name == 'add_argument': return BM(o, add_argument, name)
        if name in ('parse_args', 'parse_known_args'): return BM(o, lambda I, s, a, k: Sym(I.fresh(Obj, 'args'), 'args') if name == 'parse_args' else unsup(), name)
    if o.k == 'args':
        for d in st(I)['options']:
            if d['dest'] == name: return value_of(I, d)
        raise PyRaise(Exc(['builtins.AttributeError']))
    if o.k == 'version':
        if name == 'split': return BM(o, lambda I, s, a, k: I.new_list(list(I.version)) if list(a) == ['.'] else unsup(), name)
    return NotImplemented


def unsup(): raise Unsupported('argparse or version string')


def add_argument(I, s, a, k):
    flags = list(a)
    if not all(isinstance(x, str) for x in flags): raise Unsupported('add_argument')
    long = [f for f in flags if f.startswith('--')]
    dest = k.get('dest') or (long[0][2:] if long else flags[0].lstrip('-')).replace('-', '_')
    put(I, options=st(I)['options'] + (dict(flags=flags, dest=dest, kw=dict(k)),))
    return Sym(I.fresh(Obj, 'action'), 'opaque')


def given(d): return z3.Const('given:' + d['dest'], BoolS)


def value_of(I, d):
    kw, flags = d['kw'], d['flags']
    if not flags[0].startswith('-'):
        if kw.get('nargs') != '+': raise Unsupported('positional argument')
        return I.files
    if not I.decide(given(d)):
        dv = kw.get('default')
        if kw.get('action') == 'store_true': return False
        return dv
    action = kw.get('action', 'store')
    if action == 'store_const': return kw.get('const')
    if action == 'store_true': return True
    # the value of an option is given by the option, whatever its destination is called
    if '-p' in flags or '--peps' in flags:
        if kw.get('nargs') not in ('+', '*'): raise Unsupported('--peps')
        return I.peps
    if '-c' in flags or '--compatibility' in flags: v = Sym(z3.Const('compatibility', Obj), 'version')
    else: v = z3.Const('value:' + (flags[0] if flags[0] in FLAGS else flags[-1]), StrS)
    if kw.get('nargs') == 1: return I.new_list([v])
    if kw.get('nargs') is None: return I.new_list([v]) if action == 'append' else v
    raise Unsupported('number of values of an option')


# ---------------------------------------------------------------- the PEP loop
def key_states(I): return {k: st(I)['v_' + k] for k in KEYS}


def same_value(I, a, b):
    if is_bool(a) != is_bool(b) or is_str(a) != is_str(b): return False
    try: return I.eq_term(a, b)
    except Unsupported: return False


def pep_loop(I, key, iterable, body):
    """Fold over the list of PEPs: the effect of one iteration on arbitrary settings is proved for
    every documented PEP; the settings after the loop are the fold of this effect."""
    try: segs = I.iter_segs(iterable)
    except Unsupported: return NotImplemented
    if len(segs) != 1 or segs[0][0] != 'comp' or not I.valid(zint(segs[0][1].n) == N_PEPS) or not hasattr(I, 'store'): return NotImplemented
    c = segs[0][1]
    if len(c.alts) != 1 or len(c.alts[0][1]) != 1 or not is_str(c.alts[0][1][0]): return NotImplemented
    writes = dict(changed=False)
    base_states = key_states(I)
    j = I.fresh(IntS, 'jp')
    elem = zstr(I.subst(c.alts[0][1][0], [(c.j0, j)]))
    if not I.valid(z3.Implies(z3.And(0 <= j, j < N_PEPS), elem == pep_at(j))): return NotImplemented
    in_set = z3.And([z3.BoolVal(True)])
    jj = z3.Int(I.fresh_name('jall'))
    known = I.valid(z3.Implies(z3.And(0 <= j, j < N_PEPS), z3.Or([pep_at(j) == S(p) for p in ALL_PEPS])))
    if not known: return NotImplemented      # e.g. the check that all PEPs are known
    log = []

    def thunk():
        p = ALL_PEPS[I.choose(len(ALL_PEPS))]
        I.assume(z3.And(0 <= j, j < N_PEPS, pep_at(j) == S(p)))
        before = {k: z3.Const(f'before:{k}', BoolS) if k in PEPS.values() else base_states[k] for k in KEYS}
        put(I, **{'v_' + k: v for k, v in before.items()})
        before_st = dict(st(I))
        base = I.next_addr
        lg = []
        I.log_stack = I.log_stack + [lg]
        try: body(p)
        except ContinueEx: pass
        I.log_stack = I.log_stack[:-1]
        after = key_states(I)
        if any(not (is_z3(after[k]) and is_z3(before[k]) and z3.eq(after[k], before[k])) for k in PEPS.values()): writes['changed'] = True
        bare, on = p.lstrip('~'), p[0] != '~'
        I.pep_effects.append((p, after, before, not same_other(before_st, dict(st(I))), sorted({a for a, w in lg if a < base and a != I.store.a and not isinstance(I.heap.get(a), FrameCell)})))
        want = dict(before, **{PEPS[bare]: on})
        for k in KEYS:
            e = same_value(I, after[k], want[k])
            I.prove(e, f'main: --peps sets {k} as documented') if writes['changed'] or not z3.is_true(zbool(e)) else None
        return 'x'
    # does the loop set anything at all? (first on the effect of one iteration)
    saved, I.pep_effects = getattr(I, 'pep_effects', []), []
    n_ob = len(I.obligations)
    res = I.explore(thunk)
    if not writes['changed']:
        del I.obligations[n_ob:]
        I.pep_effects = saved
        return NotImplemented
    I.prove(all(r[0] == 'normal' for r in res), 'main: no exception for a documented PEP')
    I.prove(all(not e[3] and not e[4] for e in I.pep_effects), 'main: --peps changes nothing but the settings')
    put(I, folded=True, **{'b_' + k: zbool(base_states[k]) for k in PEP_KEYS}, **{'v_' + k: z3.Const('after_peps:' + k, BoolS) for k in PEP_KEYS})
    return False


# ---------------------------------------------------------------- main
def ge(v, w):
    """Version v (list of numbers) is at least w."""
    r = z3.BoolVal(len(v) >= len(w))
    for x, y in reversed(list(zip(v, w))): r = z3.If(x == y, r, x > y)
    return z3.simplify(r)


def prove_main(I, parts=3):
    I.MAX_PATHS = 20000
    f = repo_fn(I, MOD, ['main'])
    if f is None: raise Unsupported('main not found')

    def thunk():
        I.join_ifs = True
        init = {k: z3.Const('preset:' + k, StrS if k in KEYS[:3] else BoolS) for k in KEYS}
        I.store = I.alloc(ObjCell('store', dict(accessing=False, frozen=False, folded=False, options=(), **{'v_' + k: init[k] for k in KEYS},
                                                **{'f_' + k: init[k] for k in KEYS}, **{'b_' + k: z3.BoolVal(False) for k in PEP_KEYS},
                                                **{'changed:' + k: z3.BoolVal(False) for k in ('other', 'config', 'unknown', 'unknown key')})))
        I.pep_effects = []
        I.assume(N_FILES >= 1)
        I.files = I.new_list([file_at(0)] if I.choose(2) == 0 else [file_at(0), file_at(1)])
        I.assume(N_PEPS >= 1)
        I.peps = I.alloc(ListCell([('comp', I.comp_of_seq(ASeq(N_PEPS, lambda j: pep_at(zint(j)))))]))
        I.version = [F('version_part', IntS, StrS)(z3.IntVal(i)) for i in range(parts)]
        v = [F('int_of', StrS, IntS)(p) for p in I.version]
        for x in v: I.assume(x >= 0)
        exc = None
        try: I.inline(f, [], {})
        except PyRaise as e: exc = e.exc
        s = st(I)
        opts = {fl: d for d in s['options'] for fl in d['flags']}
        for a, b in FLAGS.items(): I.prove(a in opts and opts.get(b) is opts.get(a), f'main: option {a}/{b} is accepted')
        if any(a not in opts for a in FLAGS): return 'incomplete'
        on = {a: given(opts[a]) for a in FLAGS}
        ok_version, ok_peps = z3.Implies(on['-c'], ge(v, (3, 7))), z3.Implies(on['-p'], all_known())
        if exc is None or '%converted' not in exc.classes:
            if exc is not None:
                I.prove(exc.classes <= {'builtins.SystemExit', 'builtins.AssertionError'} and exc.attrs.get('origin') != 'presets', 'main: options are processed without exception')
            # whatever else ends the program early is unrelated to the settings
            return 'no conversion' if not I.feasible(z3.Not(ok_version)) else 'refused'
        how, s = exc.args
        got = effective(I, s)
        I.prove(ok_version, 'main: versions before 3.7 are refused')
        I.prove(ok_peps, 'main: unknown PEPs are refused')
        want = {k: configured(k) for k in KEYS}
        for w, ks in (((3, 8), ['UseLiteralType']), ((3, 10), ['UseTypeUnion']), ((3, 11), ['UseNotRequired', 'UseVariadicGenerics']), ((3, 12), ['UseTypeParameters'])):
            for k in ks: want[k] = z3.Or(z3.And(on['-c'], ge(v, w)), want[k])
        for o, k in (('-b', 'BaseClassName'), ('-a', 'RenderAnonymous'), ('-d', 'ClassDecorator')):
            want[k] = z3.If(on[o], F('str_strip', StrS, StrS)(z3.Const('value:' + o, StrS)), want[k])
        I.prove(zbool(s['folded']) == on['-p'], 'main: the listed PEPs are processed')
        for k in PEP_KEYS:
            I.prove(z3.Implies(on['-p'], zbool(s['b_' + k]) == want[k]), f'main: --peps takes precedence over --compatibility ({k})')
            want[k] = z3.If(on['-p'], z3.Const('after_peps:' + k, BoolS), want[k])
        want['KeepMultilineComments'] = z3.Or(on['-k'], want['KeepMultilineComments'])
        for k in KEYS: I.prove(same_value(I, got[k], want[k]), f'main: {P}{k} is set as documented')
        for k in ('unknown', 'unknown key'): I.prove(z3.Not(zbool(s['changed:' + k])), 'main: no other setting is changed')
        I.prove(z3.Implies(zbool(s['changed:other']), given(opts['-D'])) if '-D' in opts else False, 'main: debugging is only switched on by --debug')
        return ('converted', how)
    return f, I.explore(thunk)


def prove_main_1(I): return prove_main(I, 1)
def prove_main_2(I): return prove_main(I, 2)
def prove_main_3(I): return prove_main(I, 3)


def same_other(a, b):
    return all(a[k] is b[k] or is_z3(a[k]) and z3.eq(a[k], b[k]) for k in a if not k.startswith('v_'))


def all_known():
    j = z3.Int('jk')
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N_PEPS), z3.Or([pep_at(j) == S(p) for p in ALL_PEPS])), patterns=[pep_at(j)])


# ---------------------------------------------------------------- ts2pythonCompiler.reset
ATTRS = {'use_enums': 'UseEnum', 'use_type_union': 'UseTypeUnion', 'use_literal_type': 'UseLiteralType', 'use_variadic_generics': 'UseVariadicGenerics',
         'use_not_required': 'UseNotRequired', 'keep_comments': 'KeepMultilineComments'}
MISSPELT = {'ts2Python.UseTypeParameters'}       # known finding, see known-findings.txt


def prove_initial(I): return prove_reset(I, True)


KNOWN = ('Union', 'List', 'Tuple', 'Optional', 'Dict', 'Set', 'Any', 'Generic', 'Coroutine', 'list', 'tuple', 'dict', 'set', 'frozenset', 'int', 'float')


def initial_state(I, at, old):
    """reset() starts with empty scopes and the built-in names, in new objects."""
    new = lambda v: isinstance(v, Ref) and v.a >= old
    seq = lambda f: [x[1] for x in I.segs(at[f])] if f in at and new(at[f]) and isinstance(I.cell(at[f]), ListCell) and all(x[0] == 'item' for x in I.segs(at[f])) else None
    for f, v in (('obj_name', ['TOPLEVEL_']), ('scope_type', [''])): I.prove(seq(f) == v, f'reset: {f} starts as {v}')
    for f in ('local_classes', 'optional_keys'):
        x = seq(f)
        I.prove(x is not None and len(x) == 1 and new(x[0]) and isinstance(I.cell(x[0]), ListCell) and I.segs(x[0]) in ((), []), f'reset: {f} starts with one empty scope')
    x = seq('known_types')
    ok = x is not None and len(x) == 1 and new(x[0]) and isinstance(I.cell(x[0]), DictCell)
    I.prove(ok and [l[1] for l in I.cell(x[0]).layers if l[0] == 'set' and l[1] in KNOWN] and sorted(l[1] for l in I.cell(x[0]).layers) == sorted(KNOWN),
            'reset: exactly the built-in types are known')
    for f, v in (('typed_dicts', ['TypedDict']), ('basic_type_aliases', []), ('overloaded_type_names', [])):
        I.prove(f in at and new(at[f]) and isinstance(I.cell(at[f]), SetCell) and [l for l in I.cell(at[f]).layers] == [('add', x) for x in v], f'reset: {f} starts as {v}')
    I.prove('base_classes' in at and new(at['base_classes']) and isinstance(I.cell(at['base_classes']), DictCell) and not I.cell(at['base_classes']).layers, 'reset: base_classes is empty')
    for f, v in (('func_name', ''), ('strip_type_from_const', False)): I.prove(f in at and at[f] == v, f'reset: {f} starts as {v!r}')


def prove_reset(I, initial=False):
    f = repo_fn(I, MOD, ['ts2pythonCompiler', 'reset'])
    if f is None: raise Unsupported('ts2pythonCompiler.reset not found')
    read = set()
    cfg = {k: z3.Const('config:' + k, StrS if k in KEYS[:3] else BoolS) for k in KEYS}

    def get(I, a, k):
        key = a[0]
        if not isinstance(key, str): raise Unsupported('configuration key that depends on the input')
        read.add(key)
        if key.startswith(P) and key[len(P):] in KEYS: return cfg[key[len(P):]]
        d = a[1] if len(a) > 1 else k.get('default')
        return z3.Const('cfg_bool:' + key, BoolS) if is_bool(d) else d
    I.models['DHParser.configuration.get_config_value'] = get
    I.models['builtins.super'] = lambda I, a, k: Sym(I.fresh(Obj, 'super'), 'super')
    I.attr_hooks.append(lambda I, o, n: BM(o, lambda I, s, a, k: None, n) if isinstance(o, Sym) and o.k == 'super' else NotImplemented)
    bcn, anon = cfg['BaseClassName'], cfg['RenderAnonymous']
    deco = F('str_strip', StrS, StrS)(cfg['ClassDecorator'])

    def thunk():
        obj = I.alloc(ObjCell('ts2pythonParser:ts2pythonCompiler', {}))      # nothing of an earlier state can be read
        legal = z3.Or([anon == S(x) for x in ('type', 'functional', 'local', 'toplevel')])
        read.clear()
        try: I.call_fn(f, [obj], {})
        except PyRaise as e:
            I.prove(z3.And(z3.Not(legal), zbool('builtins.ValueError' in e.exc.classes)), 'reset: only illegal values of RenderAnonymous are refused')
            return 'refused'
        I.prove(legal, 'reset: illegal values of RenderAnonymous are refused')
        at = I.cell(obj).attrs
        if initial:
            initial_state(I, at, obj.a)
            return 'reset'
        for key in sorted(read):
            if key.lower().startswith(P.lower()) and key not in MISSPELT:
                I.prove(key.startswith(P) and key[len(P):] in KEYS, f'reset: {key} is the name of a setting')
        for a, k in ATTRS.items():
            if a in at: I.prove(is_bool(at[a]) and zbool(at[a]) == cfg[k], f'reset: {a} is the setting {k}')
            else: I.prove(any(is_bool(v) and I.valid(zbool(v) == cfg[k]) for v in at.values()), f'reset: the setting {k} is read')
        if 'base_class_name' in at and 'additional_imports' in at:
            # the dotted part of the base class name is imported from, its last part is the name of the class
            name, imp = zstr(at['base_class_name']), zstr(at['additional_imports'])
            dot = z3.Contains(bcn, S('.'))
            if I.decide(dot):
                I.prove(z3.Not(z3.Contains(name, S('.'))), 'reset: the base class name is not dotted')
                m_str(I, bcn, 'rfind', ['.'], {})
                m = rfind_parts(bcn, S('.'))[0]
                I.prove(z3.And(bcn == z3.Concat(m, S('.'), name), imp == z3.Concat(S('\nfrom '), m, S(' import '), name, S('\n'))), 'reset: a dotted base class is imported')
            else: I.prove(z3.And(name == bcn, imp == S('')), 'reset: a plain base class is not imported')
        else: I.prove(any(is_str(v) and I.valid(zstr(v) == bcn) for v in at.values()), 'reset: the setting BaseClassName is read')
        if 'render_anonymous' in at: I.prove(zstr(at['render_anonymous']) == anon, 'reset: render_anonymous is the setting RenderAnonymous')
        else: I.prove(any(is_str(v) and I.valid(zstr(v) == anon) for v in at.values()), 'reset: the setting RenderAnonymous is read')
        d = [zstr(v) for k, v in at.items() if k == 'class_decorator'] or [zstr(v) for v in at.values() if is_str(v)]
        e = z3.If(deco == S(''), S(''), z3.Concat(z3.If(z3.SubString(deco, 0, 1) == S('@'), deco, z3.Concat(S('@'), deco)), S('\n')))
        I.prove(any(I.valid(v == e) for v in d) if len(d) > 1 else d[0] == e, 'reset: the decorator is the setting ClassDecorator as a decorator line')
        return 'reset'
    return f, I.explore(thunk)
