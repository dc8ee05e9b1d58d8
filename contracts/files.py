"""Contracts of process_file, batch_process, source_hash, dump_configuration and
ts2pythonCompiler.finalize (F01, F02, F03)."""
import os, string
import z3
try: from re import _parser as sre_parse
except ImportError: import sre_parse
from pydv.engine import *
from pydv.interp import Exec, zstr_value
from pydv.spec import model, repo_fn
from pydv import lib

MOD = 'ts2pythonParser'
F = z3.Function
isfn, root_, ext_, base_, dir_ = F('is_filename', StrS, BoolS), F('path_root', StrS, StrS), F('path_ext', StrS, StrS), F('path_base', StrS, StrS), F('path_dir', StrS, StrS)
abs_, joinp = F('abspath', StrS, StrS), F('path_join', StrS, StrS, StrS)
isfile_, content = F('isfile', StrS, BoolS), F('file_content', StrS, StrS)      # of absolute paths, before the call
has_hash, hash_in = F('records_hash', StrS, BoolS), F('recorded_hash', StrS, StrS)
H = F('md5', StrS, StrS)
SRC, RES = z3.Const('source', StrS), z3.Const('result_filename', StrS)
ERRORS = {'FATAL': 10000, 'ERROR': 1000, 'WARNING': 100, 'NOTICE': 1}
MARK = 'source_hash__'
HEX = '0123456789abcdef' * 2
FNF = 'builtins.FileNotFoundError'


def S(v): return z3.StringVal(v)


def new_interp(reflect, deadline=None):
    I = Exec(reflect, deadline=deadline)
    I.world = 0
    I.form = None
    M = I.models
    ax = lambda c: I.fact(c)
    M['DHParser.toolkit.is_filename'] = lambda I, a, k: isfn(zstr(a[0]))
    M['posixpath.splitext'] = M['genericpath.splitext'] = lambda I, a, k: (root_(zstr(a[0])), ext_(zstr(a[0])))
    M['posixpath.abspath'] = M['posixpath.realpath'] = lambda I, a, k: abs_(zstr(a[0]))
    M['posixpath.basename'] = lambda I, a, k: base_(zstr(a[0]))
    M['posixpath.dirname'] = lambda I, a, k: dir_(zstr(a[0]))
    M['posixpath.join'] = path_join
    M['genericpath.isfile'] = M['genericpath.exists'] = lambda I, a, k: isfile_(abs_(zstr(a[0])))
    M['_io.open'] = M['builtins.open'] = M['io.open'] = open_
    for n in ('remove', 'unlink', 'rename', 'replace', 'mkdir', 'makedirs', 'rmdir', 'truncate', 'link', 'symlink', 'chmod', 'utime'):
        for m in ('os', 'posix'):
            M[f'{m}.{n}'] = lambda I, a, k, n=n: I.list_append(I.ghost, ('other', n))
    for n in ('copy', 'copyfile', 'move', 'copy2', 'rmtree'):
        M['shutil.' + n] = lambda I, a, k, n=n: I.list_append(I.ghost, ('other', n))
    M['DHParser.pipeline.full_pipeline'] = full_pipeline
    M['DHParser.error.has_errors'] = has_errors
    M['DHParser.error.canonical_error_strings'] = lambda I, a, k: I.alloc(ListCell([('comp', I.comp_of_seq(ASeq(I.length(a[0]), lambda j: F('error_string', IntS, StrS)(zint(j)))))]))
    M['DHParser.error.Error'] = lambda I, a, k: Exc_error(I, a, k)
    M['DHParser.toolkit.md5'] = lambda I, a, k: H(zstr(I.concat([zstr(x) for x in a]) if len(a) > 1 else a[0]))
    M['DHParser.configuration.get_config_value'] = get_config_value
    M['regex._main.search'] = M['re.search'] = re_search
    M['concurrent.futures.process.ProcessPoolExecutor'] = lambda I, a, k: pool(I)
    M['DHParser.toolkit.instantiate_executor'] = lambda I, a, k: pool(I)
    M['builtins.type'] = lambda I, a, k: I.fresh_sym('class')
    M['logging.debug'] = M['logging.info'] = lambda I, a, k: None
    I.attr_hooks.append(attr)
    I.isinst_hooks.append(isinst)
    I.global_hooks.append(global_name)
    I.truth_hooks.append(lambda I, v: True if v.k in ('match', 'file', 'future', 'opaque') else NotImplemented)
    return I


def global_name(I, module, name):
    if module == MOD:
        if name in ERRORS: return ERRORS[name]
        if name in ('preprocessing', 'parsing', 'junctions', 'compiling', 'ASTTransformation', 'targets'): return Sym(I.ext_const(name), 'opaque')
        if name == '__file__': return z3.Const(f'script_path', StrS)
    return NotImplemented


def path_join(I, a, k):
    r = zstr(a[0])
    for x in a[1:]: r = joinp(r, zstr(x))
    return r


def get_config_value(I, a, k):
    key = a[0]
    if not isinstance(key, str): raise Unsupported('configuration key that depends on the input')
    default = a[1] if len(a) > 1 else k.get('default', KeyError)
    I.__dict__.setdefault('config_keys', set()).add(key)
    w = I.world if I.world in (0,) or key in getattr(I, 'varied', ()) else 0
    if default is KeyError: return Sym(z3.Const(f'cfg:{key}', Obj), 'setting')
    if key in getattr(I, 'varied', ()) and not I.decide(z3.Const(f'cfg_set:{key}:{w}', BoolS)): return default
    if is_bool(default): return z3.Const(f'cfg_bool:{key}:{w}', BoolS)
    if is_str(default): return z3.Const(f'cfg_str:{key}:{w}', StrS)
    raise Unsupported(f'default of configuration key {key}')


# ---------------------------------------------------------------- files
def open_(I, a, k):
    path = zstr(a[0]) if is_str(a[0]) else None
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    if path is None or not isinstance(mode, str): raise Unsupported('open')
    if set(mode) - set('rt') == set():
        script = z3.eq(path, z3.Const('script_path', StrS))
        for ev in events(I):
            if ev[0] == 'write' and not script and not I.valid(abs_(ev[1]) != abs_(path)): raise Unsupported('reading a file that has been written')
        if not script and not I.decide(isfile_(abs_(path))): raise PyRaise(Exc([FNF, ]))
        return Sym(I.fresh(Obj, 'file'), ('file', path, 'r'))
    if set(mode) - set('wt') == set():
        I.list_append(I.ghost, ('write', path, None))
        return Sym(I.fresh(Obj, 'file'), ('file', path, 'w'))
    I.list_append(I.ghost, ('other', 'open ' + mode))
    return Sym(I.fresh(Obj, 'file'), ('file', path, 'x'))


def events(I): return [s[1] for s in I.segs(I.ghost)]


def attr(I, o, name):
    k = o.k if isinstance(o, Sym) else None
    if isinstance(k, tuple) and k[0] == 'file':
        path, mode = k[1], k[2]
        if name == '__enter__': return BM(o, lambda I, s, a, kw: s, name)
        if name in ('__exit__', 'close', 'flush'): return BM(o, lambda I, s, a, kw: None, name)
        if name == 'read' and mode == 'r': return BM(o, lambda I, s, a, kw: read(I, path), name)
        if name == 'write': return BM(o, lambda I, s, a, kw: I.list_append(I.ghost, ('data', path, a[0])), name)
        raise Unsupported('file.' + name)
    if k == 'opaque': return Sym(F('attr_' + name, Obj, Obj)(o.t), 'opaque')
    if k == 'error' and name == 'code': return F('error_code', Obj, IntS)(o.t) if str(o.t) not in getattr(I, 'errcode', {}) else I.errcode[str(o.t)]
    if k == 'result':
        if name == 'serialize': return BM(o, lambda I, s, a, kw: F('serialized', Obj, StrS)(s.t), name)
    if k == 'pool':
        if name == '__enter__': return BM(o, lambda I, s, a, kw: s, name)
        if name in ('__exit__', 'shutdown'): return BM(o, lambda I, s, a, kw: None, name)
        if name == 'submit': return BM(o, lambda I, s, a, kw: submit(I, a, kw), name)
    if isinstance(k, tuple) and k[0] == 'future':
        if name == 'result': return BM(o, lambda I, s, a, kw: errname(*s.k[1:]), name)
    if k == 'match':
        if name == 'groups': return BM(o, lambda I, s, a, kw: tuple(I.matches[str(s.t)][1:]), name)
        if name in ('group', '__getitem__'): return BM(o, lambda I, s, a, kw: I.matches[str(s.t)][a[0] if a else 0], name)
        if name == 'lastindex': return len(I.matches[str(o.t)]) - 1
    return NotImplemented


def read(I, path):
    if z3.eq(path, z3.Const('script_path', StrS)): return z3.Const(f'script:{I.world if "script" in getattr(I, "varied", ()) else 0}', StrS)
    return content(abs_(path))


def isinst(I, v, cls):
    if isinstance(v, Sym) and v.k == 'result':
        if isinstance(cls, Ext):
            n = cls.id.rsplit('.', 1)[-1]
            if n in ('str', 'StringView', 'Node', 'RootNode'): return z3.Const('result_is_' + ('Node' if n == 'RootNode' else n), BoolS)
    return NotImplemented


def Exc_error(I, a, k):
    t = I.fresh(Obj, 'err')
    code = a[2] if len(a) > 2 else k.get('code', 1000)
    I.errcode = dict(getattr(I, 'errcode', {}), **{str(t): code})
    return Sym(t, 'error')


def has_errors(I, a, k):
    level = a[1] if len(a) > 1 else k.get('level', 1000)
    r = []
    for s in I.segs(a[0]):
        if s[0] == 'item': r.append(zint(I.getattr(s[1], 'code')) >= zint(level))
        else: r.append(z3.And(N_ERR > 0, MAXCODE >= zint(level)))
    return z3.Or(r) if r else False


N_ERR, MAXCODE = z3.Const('number_of_messages', IntS), z3.Const('highest_code', IntS)


def full_pipeline(I, a, k):
    I.list_append(I.ghost, ('compile', zstr(a[0])))
    names = list(a[1:4]) + [k[x] for x in ('preprocessor_factory', 'parser_factory', 'junctions') if x in k]
    I.prove(len(names) == 3 and [str(x.t) if isinstance(x, Sym) else '' for x in names] == ['attr_factory(ext:preprocessing)', 'attr_factory(ext:parsing)', 'ext:junctions'],
            'compile_src: the full pipeline of preprocessor, parser, AST-transformation and compiler is run')
    I.assume(N_ERR >= 0)
    errs = I.alloc(ListCell([('comp', I.comp_of_seq(ASeq(N_ERR, lambda j: Sym(F('msg', IntS, Obj)(zint(j)), 'error'))))]))
    res = Sym(z3.Const('result', Obj), 'result')
    target = a[4] if len(a) > 4 else k.get('target_stages')
    xs = I.iter_segs(target)
    I.prove(len(xs) == 1 and xs[0][0] == 'item' and I.valid(zstr(xs[0][1]) == S('py')), "compile_src: the requested stage is 'py'")
    return I.alloc(DictCell([('set', 'py', (res, errs))]))


# ---------------------------------------------------------------- regular expressions
def pattern_items(p): return list(sre_parse.parse(p))


def charsets(items, out):
    for op, av in items:
        n = str(op)
        if n == 'LITERAL': out.append(({chr(av)}, False))
        elif n == 'NOT_LITERAL': out.append(({chr(av)}, True))
        elif n == 'ANY': out.append((set('\n'), True))
        elif n == 'IN':
            neg, cs = False, set()
            for o2, a2 in av:
                m = str(o2)
                if m == 'NEGATE': neg = True
                elif m == 'LITERAL': cs.add(chr(a2))
                elif m == 'RANGE': cs |= {chr(c) for c in range(a2[0], min(a2[1], 0x2ff) + 1)}
                elif m == 'CATEGORY' and 'NOT' not in str(a2):
                    cs |= set({'CATEGORY_WORD': string.ascii_letters + string.digits + '_', 'CATEGORY_DIGIT': string.digits, 'CATEGORY_SPACE': string.whitespace}[str(a2)])
                else: raise Unsupported('character class in regular expression')
            out.append((cs, neg))
        elif n in ('MAX_REPEAT', 'MIN_REPEAT'): charsets(av[2], out)
        elif n == 'SUBPATTERN': charsets(av[3], out)
        elif n == 'BRANCH':
            for b in av[1]: charsets(b, out)
        elif n in ('ASSERT', 'ASSERT_NOT'): charsets(av[1], out)
        elif n == 'AT': pass
        else: raise Unsupported(f'{n} in regular expression')


def leading_literals(items):
    s = ''
    for op, av in items:
        if str(op) != 'LITERAL': break
        s += chr(av)
    return s


def re_search(I, a, k):
    """Search in a text that contains no recorded hash, or one in the form in which
    finalize() records it. Matching treats all hexadecimal digits alike, so that one
    representative decides for all hash values."""
    import re
    pat, text = a[0], a[1]
    if not isinstance(pat, str) or len(a) > 2 or k: raise Unsupported('re.search')
    text = zstr(text)
    items = pattern_items(pat)
    if MARK not in leading_literals(items): raise Unsupported('pattern does not begin with ' + MARK)
    cs = []
    charsets(items[len(leading_literals(items)):], cs)
    for c, neg in cs:
        if 0 < len(c & set(string.hexdigits[:16])) < 16: raise Unsupported('pattern distinguishes hexadecimal digits')
    if not I.decide(has_hash(text)): return None
    pre, post = I.form
    m = re.compile(pat).search(pre + HEX + post)
    I.prove(m is not None and HEX in m.groups(), 'process_file: the recorded hash is found in the result')
    if m is None: return None
    gs = []
    for g in (m.group(0),) + m.groups():
        gs.append(hash_in(text) if g == HEX else ('' if g is None else I.fresh(StrS, 'group')))
    t = I.fresh(Obj, 'match')
    I.matches = dict(getattr(I, 'matches', {}), **{str(t): tuple(gs)})
    return Sym(t, 'match')


def conc_string(t):
    """Pieces of a concatenation."""
    if isinstance(t, str): return [t]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in t.children(): out += conc_string(c)
        return out
    if z3.is_string_value(t): return [zstr_value(t)]
    return [t]


# ---------------------------------------------------------------- process_file
def named(): return z3.And(isfn(SRC), SRC != S(''))


def prove_process_file(I, what):
    f = repo_fn(I, MOD, ['process_file'])
    sh = repo_fn(I, MOD, ['source_hash'])
    if f is None or sh is None: raise Unsupported('process_file or source_hash not found')
    I.form = recorded_form(I)
    I.contracts[MOD + '.source_hash'] = lambda I, fn, a, k: F('current_hash', StrS, StrS)(zstr(a[0]))
    I.fact(z3.Not(z3.And(z3.Const('result_is_str', BoolS), z3.Const('result_is_Node', BoolS))))
    I.fact(z3.Not(z3.And(z3.Const('result_is_str', BoolS), z3.Const('result_is_StringView', BoolS))))

    def thunk():
        I.ghost = I.new_list()
        # preconditions: the source is not empty, a file name names an existing file, the result is no directory,
        # the source file is not named like the message file
        is_file = I.choose(2) == 0
        I.assume(SRC != S(''))
        I.assume(named() if is_file else z3.Not(named()))
        given = I.choose(2) == 0
        if given: I.assume(RES != S(''))
        R = RES if given else (z3.Concat(root_(SRC), S('.py')) if is_file else S('out.py'))
        EN, WN = (z3.Concat(root_(R), S(e)) for e in ('_ERRORS.txt', '_WARNINGS.txt'))
        I.assume(abs_(R) != abs_(S('')))
        if is_file:
            I.assume(isfile_(abs_(SRC)))
            I.assume(z3.And(abs_(SRC) != abs_(EN), abs_(SRC) != abs_(WN)))
        text = content(abs_(SRC)) if is_file else SRC
        outcome = 'return', None
        try: outcome = 'return', I.inline(f, [SRC, RES if given else ''] if given or I.choose(2) else [SRC], {})
        except PyRaise as e: outcome = 'raise', e.exc
        evs = events(I)
        I.prove(outcome[0] == 'return', 'process_file: returns normally')
        if outcome[0] != 'return': return 'raise'
        ret = outcome[1]
        comp = [e for e in evs if e[0] == 'compile']
        writes = [e for e in evs if e[0] == 'write']
        if what == 'skip':
            now = I.call_fn(sh, [text], {})
            old = content(abs_(R))
            current = z3.And(isfile_(abs_(R)), has_hash(old), hash_in(old) == now)
            if not comp:
                I.prove(current, 'process_file: skipped only if the hash recorded in the result is that of source, program and settings')
                I.prove(not evs, 'process_file: nothing is written if the conversion is skipped')
                I.prove(zstr(ret) == S(''), 'process_file: no message file is reported if the conversion is skipped')
                return 'skipped'
            I.prove(z3.Not(current), 'process_file: skipped if the hash recorded in the result is that of source, program and settings')
            I.prove(len(comp) == 1, 'process_file: converts once')
            arg = comp[0][1]
            I.prove(z3.If(z3.And(isfn(arg), arg != S('')), content(abs_(arg)), arg) == text, 'process_file: what is converted is the source')
            return 'converted'
        I.prove(not [e for e in evs if e[0] == 'other'], 'process_file: no other change of the file system')
        if not comp:
            I.prove(not writes and z3.is_true(z3.simplify(zstr(ret) == S(''))), 'process_file: nothing is written without a conversion')
            return 'skipped'
        ks = ['converted', 'file' if is_file else 'text', 'named result' if given else 'default result']
        fatal = I.decide(z3.And(N_ERR > 0, MAXCODE >= 10000))
        same = is_file and I.decide(abs_(SRC) == abs_(R))
        own = same and not fatal
        msgs = own or I.decide(N_ERR > 0)
        err = own or (msgs and I.decide(MAXCODE >= 1000))
        want = []
        if not fatal and not same: want.append(('result', R))
        if msgs: want.append(('message', EN if err else WN))
        for w in writes:
            if is_file: I.prove(abs_(w[1]) != abs_(SRC), 'process_file: the source file is not written')
            I.prove(z3.Or([w[1] == p for _, p in want]) if want else False, 'process_file: only the result file and the message file are written, each only in its case')
        for kind, p in want:
            I.prove(z3.Or([w[1] == p for w in writes]) if writes else False, f'process_file: the {kind} file is written')
            ks.append(kind)
        if want and want[0][0] == 'result' and I.decide(z3.Const('result_is_str', BoolS)):
            I.prove(any(e[0] == 'data' and isinstance(e[2], Sym) and e[2].k == 'result' and I.valid(e[1] == R) for e in evs),
                    'process_file: the result file receives the generated module')
        I.prove(zstr(ret) == ((EN if err else WN) if msgs else S('')), 'process_file: the name of the message file is returned if there is one, else an empty string')
        return tuple(ks) + (('fatal',) if fatal else ()) + (() if msgs else ('no-messages',)) + (('same',) if same else ())
    return f, I.explore(thunk)


def prove_writes(I): return prove_process_file(I, 'writes')
def prove_skip(I): return prove_process_file(I, 'skip')


# ---------------------------------------------------------------- source_hash
def settings_read(I):
    """Configuration keys (with defaults) the converter reads: in reset() and in the AST-transformation."""
    rd = {}

    def rec(I, a, k):
        v = get_config_value(I, a, k)
        if isinstance(a[0], str): rd[a[0]] = a[1] if len(a) > 1 else k.get('default', KeyError)
        return v
    I.models['DHParser.configuration.get_config_value'] = rec
    fs = [repo_fn(I, MOD, ['ts2pythonCompiler', 'reset']), repo_fn(I, MOD, ['add_flags'])]
    if fs[0] is None: raise Unsupported('ts2pythonCompiler.reset not found')

    def thunk():
        I.call_fn(fs[0], [I.alloc(ObjCell('ts2pythonParser:ts2pythonCompiler', {}))], {})

    def thunk2():
        node = Sym(I.fresh(Obj, 'node'), 'opaque')
        I.call_fn(fs[1], [I.new_list([node])], {})
    I.setattr_hooks.append(lambda I, o, n, v: None if isinstance(o, Sym) and o.k == 'opaque' else NotImplemented)
    I.models['builtins.super'] = lambda I, a, k: Sym(I.fresh(Obj, 'super'), 'super')
    I.attr_hooks.append(lambda I, o, n: BM(o, lambda I, s, a, k: None, n) if isinstance(o, Sym) and o.k == 'super' else NotImplemented)
    I.explore(thunk)
    if fs[1] is not None:
        I.item_hooks.append(lambda I, o, k: Sym(I.fresh(Obj, 'x'), 'opaque') if isinstance(o, Sym) and o.k == 'opaque' else NotImplemented)
        I.explore(set_attr_ok(I, thunk2))
    I.models['DHParser.configuration.get_config_value'] = get_config_value
    return rd


def set_attr_ok(I, th):
    old = I.setitem

    def setitem(o, k, v):
        if isinstance(o, Sym) and o.k == 'opaque': return None
        return old(o, k, v)
    I.setitem = setitem
    return th


KNOWN_KEYS = {'ts2Python.UseTypeParameters'}      # recorded as a finding under M01


def prove_hash(I):
    f = repo_fn(I, MOD, ['source_hash'])
    if f is None: raise Unsupported('source_hash not found')
    rd = {k: d for k, d in settings_read(I).items() if k.lower().startswith('ts2python.') and k not in KNOWN_KEYS}
    I.prove(len(rd) >= 6, 'source_hash: the converter reads its settings')

    def run(text, world):
        I.world = world
        I.ghost = I.new_list()
        h = I.call_fn(f, [text], {})
        I.world = 0
        if not (z3.is_app(h) and h.decl().name() == 'md5'): raise Unsupported('hash is not an md5 sum')
        return h.arg(0)

    def thunk():
        c = I.choose(2 + len(rd))
        t1, t2 = z3.Const('text1', StrS), z3.Const('text2', StrS)
        if c == 0:
            I.varied = ()
            I.assume(t1 != t2)
            I.prove(run(t1, 0) != run(t2, 1), 'source_hash: depends on the source')
            return 'source'
        if c == 1:
            I.varied = ('script',)
            I.assume(z3.Const('script:0', StrS) != z3.Const('script:1', StrS))
            I.prove(run(t1, 0) != run(t1, 1), 'source_hash: depends on the converter program')
            return 'program'
        key = sorted(rd)[c - 2]
        I.varied = (key,)
        vals = []
        for w in (0, 1):
            I.world = w
            vals.append(get_config_value(I, [key, rd[key]], {}))
        I.world = 0
        I.assume(vals[0] != vals[1])
        I.prove(run(t1, 0) != run(t1, 1), f'source_hash: depends on the setting {key}')
        return 'settings'
    return f, I.explore(thunk)


# ---------------------------------------------------------------- finalize
SPACE = set(' \n\t')


def recorded_form(I):
    """Runs finalize() on a document and returns the text around the hash it records (up to the line break)."""
    fin = repo_fn(I, MOD, ['ts2pythonCompiler', 'finalize'])
    if fin is None: raise Unsupported('ts2pythonCompiler.finalize not found')
    M = I.models
    old = dict(M)
    TREE_SOURCE = z3.Const('tree_source', StrS)
    HASH = H(z3.Const('hashed', StrS))
    src_hash = []

    def sub(I, a, k):
        import re
        pat, repl, text = a[:3]
        if not (isinstance(pat, str) and isinstance(repl, str) and len(a) == 3) or k: raise Unsupported('re.sub')
        cs = []
        charsets(pattern_items(pat), cs)
        t = zstr(text)
        if not I.records(t): raise Unsupported('text without hash: ' + repr(conc_string(t))[-900:])
        line = I.hash_line
        ok = all(not neg and c <= SPACE for c, neg in cs) and set(repl) <= SPACE and line is not None
        ok = ok and re.search(pat, line[0] + HEX + line[1]) is None
        I.prove(bool(ok), 'finalize: tidying up white space leaves the recorded hash alone')
        y = I.fresh(StrS, 'tidied')
        I.tidied.append(y)
        return y
    M['regex._main.sub'] = M['re.sub'] = sub
    for n in ('now', 'today', 'utcnow'): M['datetime.datetime.' + n] = M['builtins.datetime.' + n] = lambda I, a, k: I.fresh_sym('date')
    keep = dict(I.contracts)

    def shash(I, fn, a, k):
        src_hash.append(a[0])
        return HASH
    I.contracts[MOD + '.source_hash'] = shash
    I.tidied, I.hash_line = [], None

    def records(t):
        if any(z3.eq(t, y) for y in I.tidied): return True
        ps = []
        for p in conc_string(t):
            if ps and isinstance(p, str) and isinstance(ps[-1], str): ps[-1] += p
            else: ps.append(p)
        ix = [i for i, p in enumerate(ps) if not isinstance(p, str) and z3.eq(p, HASH)]
        if len(ix) != 1: return False
        i = ix[0]
        pre = ps[i - 1] if i and isinstance(ps[i - 1], str) else ''
        post = ps[i + 1] if i + 1 < len(ps) and isinstance(ps[i + 1], str) else ''
        front = ''.join(p for p in ps[:i] if isinstance(p, str))
        if front.count(MARK) != 1: return False
        l = front.rfind('\n')
        if MARK not in front[l:]: return False
        I.hash_line = (front[l + 1:], post.split('\n')[0])
        return '\n' in post
    I.records = records

    def attr2(I, o, name):
        if isinstance(o, Sym) and o.k == 'tree':
            if name == 'source': return TREE_SOURCE
            if name == 'name': return z3.Const('tree_name', StrS)
        return NotImplemented
    I.attr_hooks.insert(0, attr2)
    I.ref_hooks.append(lambda I, o, c, n: F('compiler_' + n, Obj, BoolS)(I.to_obj(o)) if c.cls == 'ts2pythonParser:ts2pythonCompiler' and n.startswith('use_') and n not in c.attrs else NotImplemented)
    I.reads_now = 0

    def pre_join(I, sep, seq): pass
    forms = []

    def thunk():
        I.tidied, I.hash_line = [], None
        del src_hash[:]
        I.ghost = I.new_list()
        I.assume(z3.Const('tree_name', StrS) == S('root'))
        comp = I.alloc(ObjCell('ts2pythonParser:ts2pythonCompiler', {
            'tree': Sym(z3.Const('tree', Obj), 'tree'), 'additional_imports': z3.Const('additional_imports', StrS)}))
        r = I.inline(fin, [comp, z3.Const('python_code', StrS)], {})
        ok = is_str(r) and not isinstance(r, str) and records(zstr(r))
        I.prove(bool(ok), 'finalize: the module records one hash')
        I.prove(len(src_hash) == 1 and is_str(src_hash[0]) and I.valid(zstr(src_hash[0]) == TREE_SOURCE), 'finalize: the hash recorded is that of the source')
        if ok: forms.append(I.hash_line)
        return 'recorded'
    res = I.explore(thunk)
    I.contracts.clear(); I.contracts.update(keep)
    M.clear(); M.update(old)
    I.attr_hooks.remove(attr2)
    I.final_results = res
    if not forms or len(set(forms)) != 1: raise Unsupported('finalize() records the hash in different forms')
    return forms[0]


def prove_finalize(I):
    fin = repo_fn(I, MOD, ['ts2pythonCompiler', 'finalize'])
    recorded_form(I)
    return fin, I.final_results


# ---------------------------------------------------------------- batch_process
ERRF = F('message_file', StrS, StrS, StrS)


def errname(fn, name, dest): return ERRF(zstr(name), zstr(dest))


def submit(I, a, kw):
    ok = len(a) == 3 and isinstance(a[0], Fn) and a[0].qual == 'process_file'
    if not ok: raise Unsupported('submission of another job')
    I.list_append(I.ghost, (zstr(a[1]), zstr(a[2])))
    return Sym(F('future', StrS, StrS, Obj)(zstr(a[1]), zstr(a[2])), ('future', a[0], zstr(a[1]), zstr(a[2])))


def pool(I): return Sym(I.fresh(Obj, 'pool'), 'pool')


def prove_batch(I):
    f = repo_fn(I, MOD, ['batch_process'])
    if f is None: raise Unsupported('batch_process not found')
    ext = I.reflect.resolve(MOD, ['RESULT_FILE_EXTENSION']).get('v')
    OUT, n = z3.Const('out_dir', StrS), z3.Const('number_of_files', IntS)
    name = F('file_name', IntS, StrS)

    def thunk():
        I.ghost = I.new_list()
        I.assume(n >= 0)
        names = I.alloc(ListCell([('comp', I.comp_of_seq(ASeq(n, lambda j: name(zint(j)))))]))
        mode = I.choose(4)
        kw = {}
        if mode & 1: kw['submit_func'] = Model(lambda I, a, k: submit(I, a, k), 'submit')
        if mode & 2: kw['log_func'] = Model(lambda I, a, k: None, 'log')
        r = I.inline(f, [names, OUT], kw)
        dest = lambda j: joinp(OUT, zstr(I.concat([root_(base_(name(zint(j)))), ext])))
        want = I.comp_of_seq(ASeq(n, lambda j: (name(zint(j)), dest(j))))
        I.prove(I.seq_equal(I.segs(I.ghost), [('comp', want)]), 'batch_process: every file is converted exactly once, into the output directory')
        acc = I.new_list()

        def body(j):
            e = ERRF(name(j), dest(j))
            if I.decide(e != S('')): I.list_append(acc, e)
        I.run_loop(('spec', 'batch'), ASeq(n, lambda j: zint(j)), body)
        I.prove(I.seq_same(I.segs(r), I.segs(acc)), 'batch_process: the message files of all conversions are returned in the order of the files')
        return 'pool' if not mode & 1 else 'submit'
    return f, I.explore(thunk)
