"""Contracts of the methods of ts2pythonCompiler (K01 to K09): for every syntax-tree of the shape
the grammar yields and every state of the scopes, a method renders what spec_compiler.py says and
leaves the scopes as it says. `compile` (the recursion) is under contract for both sides."""
import keyword, os
import z3
from pydv.engine import *
from pydv.interp import Exec
from pydv.spec import Spec, repo_fn
from pydv import lib
from pydv.coupling import Coupling

MOD = 'ts2pythonParser'
CLS = MOD + ':ts2pythonCompiler'
F = z3.Function
HERE = os.path.dirname(os.path.abspath(__file__))

# ---------------------------------------------------------------- shapes of nodes
LITERALS = ('integer', 'number', 'string', 'boolean', 'array', 'object')
TYPES = ('array_of', 'basic_type', 'generic_type', 'indexed_type', 'type_name', 'types', 'mapped_type', 'declarations_block',
         'type_tuple', 'declarations_tuple', 'literal', 'func_type')
TYPE = [('', TYPES)]
MEMBERS = ('interface', 'type_alias', 'enum', 'const', 'declaration', 'function', 'comment__')
DOC = MEMBERS + ('namespace', 'virtual_enum', 'Import', 'module')
LEAF = None
# key -> names;  '?key' optional;  '*' repeated;  '' one of several, not addressed by name
SHAPES = {
    'identifier': LEAF, 'name': LEAF, 'integer': LEAF, 'number': LEAF, 'string': LEAF, 'boolean': LEAF, 'basic_type': LEAF, 'key': LEAF,
    'comment__': LEAF, 'optional': LEAF, 'keyof': LEAF, 'readonly': LEAF, 'static': LEAF, 'qualifiers': LEAF, 'Import': LEAF,
    'variable': ['name'], 'type_name': ['name'], 'array': ['*literal'], 'object': ['*association'], 'association': ['key', 'literal'],
    'literal': [('', LITERALS)], 'array_of': ['array_types'], 'type_tuple': ['+types'], 'mapped_type': ['map_signature'],
    'map_signature': ['index_signature', 'types'], 'index_signature': ['?readonly', 'identifier', '?keyof', 'type', '?optional'],
    'func_type': ['?arg_list', 'types'], 'generic_type': ['type_name', 'type_parameters'], 'type_parameters': ['+parameter_types'],
    'indexed_type': ['type_name', ('', ('type_name', 'literal'))], 'intersection': ['+type'],
    'types': [('+', ('type', 'intersection', 'parameter_type', 'array_type'))],      # and so array_types and parameter_types, too
    'parameter_types': ['+parameter_type'], 'array_types': ['+array_type'],
    'type': TYPE, 'parameter_type': TYPE, 'array_type': TYPE,
    'declarations_block': [('*', ('declaration', 'function', 'comment__', 'map_signature'))], 'declarations_tuple': ['+declaration'],
    'declaration': ['?qualifiers', 'identifier', '?optional', '?types'],
    'function': ['?static', '?identifier', '?optional', '?type_parameters', '?arg_list', '?types'],
    'argument': ['identifier', '?optional', '?types'], 'arg_tail': ['identifier', ('?', ('array_of', 'generic_type'))],
    'arg_list': [('+', ('argument', 'arg_tail'))],
    'interface': ['identifier', '?type_parameters', '?extends', 'declarations_block'], 'extends': [('+', ('type_name', 'generic_type'))],
    'type_alias': ['identifier', '?type_parameters', 'types', '?comment__'], 'enum': ['identifier', ('+', ('item', 'comment__'))],
    'item': ['identifier', '?literal'], 'const': ['declaration', ('?', ('literal', 'identifier'))],
    'namespace': ['identifier', ('+', MEMBERS)], 'virtual_enum': ['identifier', ('*', MEMBERS[:5] + ('comment__',))],
    'assignment': ['variable', ('', ('literal', 'variable'))],
    'module': ['identifier', 'document'], 'document': [('*', DOC)], 'root': [('+', ('document', 'comment__'))],
}
# constructs the rendering of which depends on nothing but the node, and which leave no trace
PURE = {'identifier', 'name', 'integer', 'number', 'string', 'boolean', 'basic_type', 'key', 'variable', 'type_name', 'array', 'object',
        'association', 'literal', 'Import'}
HAS_KEYS = {'declaration', 'declarations_block', 'declarations_tuple', 'const', 'module', 'document'}      # add to the optional keys of the scope
# constructs that add to the known types, so that the order of their compilation matters
ORDERED = {'interface', 'type_alias', 'enum', 'namespace', 'virtual_enum', 'function', 'declarations_block', 'document', 'module'}

nm_, ct_ = F('node_name', Obj, StrS), F('node_content', Obj, StrS)
DEC, PREF = F('decorator_of', Obj, StrS), F('preface_of', Obj, StrS)
is_word = F('is_word', StrS, BoolS)


def elements(name):
    """[(mode, key, names)] of a shape."""
    out = []
    for e in SHAPES[name] or ():
        if isinstance(e, tuple): mode, names = e
        else: mode, names = (e[0], (e[1:],)) if e[0] in '?*+' else ('1', (e,))
        if mode == '': mode = '1'
        out.append((mode, names[0] if len(names) == 1 else '%', names))
    return out


def node(t, names): return Sym(t, ('node',) + tuple(names))
def names_of(o): return o.k[1:]
def is_node(o): return isinstance(o, Sym) and isinstance(o.k, tuple) and o.k[:1] == ('node',)
def has_(key): return F('has_' + key, Obj, BoolS)
def child_(key): return F('child_' + key, Obj, Obj)


def name_of(I, o):
    ns = names_of(o)
    if len(ns) == 1: return ns[0]
    t = nm_(o.t)
    I.fact(z3.Or([t == n for n in ns]))
    return t


def is_named(I, o, n):
    """Bool or z3 Bool: the node has the name n."""
    if n not in names_of(o): return False
    r = name_of(I, o)
    return r == n


def node_attr(I, o, name):
    if not is_node(o): return NotImplemented
    if name == 'name': return name_of(I, o)
    if name == 'content': return content(I, o)
    if name in ('children', 'result'): return children(I, o)
    if name == 'attr': return Sym(o.t, 'nodeattr')
    if name == 'get_attr': return BM(o, get_attr, name)
    if name == 'select': return BM(o, select, name)
    if name == 'select_children': return BM(o, select_children, name)
    if name == 'pos': return F('node_pos', Obj, IntS)(o.t)
    return NotImplemented


BASIC = ('object', 'array', 'string', 'number', 'boolean', 'null', 'integer', 'uinteger', 'decimal', 'unknown', 'any', 'void')


def content(I, o):
    c = ct_(o.t)
    if names_of(o) == ('boolean',): I.fact(z3.Or(c == 'true', c == 'false'))
    if names_of(o) == ('basic_type',): I.fact(z3.Or([c == b for b in BASIC]))
    return c


def get_attr(I, o, a, k):
    if a[0] == 'decorator':
        d = DEC(o.t)
        if names_of(o) == ('function',):
            m = py_name(ct_(child_('identifier')(o.t)))
            I.fact(z3.Or(d == '', d == '@singledispatch', d == '@singledispatchmethod',
                         z3.And(has_('identifier')(o.t), d == z3.Concat(z3.StringVal('@'), m, z3.StringVal('.register')))))
        if a[1] != '': raise Unsupported('default of decorator')
        return d
    if a[0] == 'preface' and a[1] == '':
        if z3.eq(o.t, z3.Const('enclosing_interface', Obj)): return PREF(o.t)
        # nothing is there in a new tree; constructors put something there when their block is compiled
        done = sum(1 for s in I.segs(get(I, I.self_ref, '%log')) if s[0] == 'comp' or s[1][0] == 'compiled')
        return F('preface_after', Obj, IntS, StrS)(o.t, z3.IntVal(done)) if done else ''
    raise Unsupported(f'attribute {a[0]} of a node')


def py_name(s): return z3.If(z3.Or([s == k for k in keyword.kwlist]), z3.Concat(s, z3.StringVal('_')), s)


def repeated(I, o, mode, names):
    n = F('number_of_children', Obj, IntS)(o.t)
    I.fact(n >= (1 if mode == '+' else 0))
    return ASeq(n, lambda j: node(F('child_at', Obj, IntS, Obj)(o.t, zint(j)), names))


def child(I, o, key, names): return node(child_(key)(o.t), names)


def variants(I, o):
    """The name of the node, decided if it can have several ones with different shapes."""
    ns = names_of(o)
    for n in ns[:-1]:
        if I.decide(name_of(I, o) == n): return node(o.t, [n])
    return node(o.t, ns[-1:]) if len(ns) > 1 else o


def child_segs(I, o):
    o = variants(I, o)
    out = []
    for mode, key, names in elements(names_of(o)[0]):
        if mode in '*+':
            s = repeated(I, o, mode, names)
            out += I.iter_segs(s)
        elif mode == '?':
            if I.decide(present(I, o, key, names)): out.append(('item', alt(I, o, key, names)))
        else: out.append(('item', alt(I, o, key, names)))
    return out


def present(I, o, key, names):
    """Bool: an optional element of a node is there."""
    hs = [has_(n)(o.t) for n in names]
    if len(hs) > 1: I.fact(z3.Or([z3.Not(z3.And(x, y)) for i, x in enumerate(hs) for y in hs[:i]]) if len(hs) == 2 else True)
    return z3.Or(hs) if len(hs) > 1 else hs[0]


def alt(I, o, key, names):
    c = child(I, o, key, names) if len(names) == 1 else node(child_('alternative')(o.t), names)
    if len(names) > 1:
        for n in names: I.fact(z3.Implies(has_(n)(o.t), nm_(c.t) == n))
    return c


def children(I, o):
    sg = child_segs(I, o)
    return tuple(s[1] for s in sg) if all(s[0] == 'item' for s in sg) else I.alloc(ListCell(sg, kind='tuple'))


def node_item(I, o, k):
    if isinstance(o, Sym) and o.k == 'nodeattr': return NotImplemented
    if not is_node(o): return NotImplemented
    if isinstance(k, int): return I.nth(child_segs(I, o), k)
    if not isinstance(k, str): raise Unsupported('index of a node')
    if not I.truth(node_contains(I, o, k)): raise PyRaise(Exc(['builtins.KeyError']))
    for n in names_of(o):
        for mode, key, names in elements(n):
            if k not in names: continue
            if mode in '*+': return Sym(F('children_' + k, Obj, Obj)(o.t), 'one or several')
            if len(names) == 1: return node(child_(k)(o.t), [k])
            return node(child_('alternative')(o.t), [k])
    raise PyRaise(Exc(['builtins.KeyError']))


def node_contains(I, o, k):
    """`k in node`"""
    if isinstance(o, Sym) and o.k == 'scope': return F('known_in', Obj, StrS, BoolS)(o.t, zstr(k))
    if not is_node(o) or not isinstance(k, str): return NotImplemented
    r = []
    for n in names_of(o):
        c = is_named(I, o, n)
        for mode, key, names in elements(n):
            if k not in names: continue
            if mode == '1' and len(names) == 1: x = True
            elif mode == '1': x = nm_(alt(I, o, key, names).t) == k
            elif mode == '?': x = present_one(I, o, k, names)
            else: x = F('has_some_' + k, Obj, BoolS)(o.t)
            r.append(z3.And(zbool(c), zbool(x)))
            break
    return z3.simplify(z3.Or(r)) if r else False


def present_one(I, o, k, names):
    present(I, o, k, names)
    if len(names) > 1: alt(I, o, k, names)
    return has_(k)(o.t)


def select(I, o, a, k):
    if a[0] == 'type' or a[0] == 'type_name':
        n = F(f'number_of_{a[0]}', Obj, IntS)(o.t)
        I.fact(n >= 0)
        return ASeq(n, lambda j: node(F('descendant_' + a[0], Obj, IntS, Obj)(o.t, zint(j)), [a[0]]))
    raise Unsupported('select')


def select_children(I, o, a, k):
    n = a[0]
    acc = I.new_list()

    def body(c):
        if I.truth(zbool(is_named(I, c, n))): I.list_append(acc, node(c.t, [n]))
    I.run_loop(('select_children', n, str(o.t)), o, body)
    return acc


def node_iter(I, o):
    if not is_node(o): return NotImplemented
    sg = child_segs(I, o)
    return tuple(s[1] for s in sg) if all(s[0] == 'item' for s in sg) else I.alloc(ListCell(sg))


# ---------------------------------------------------------------- state
FLAGS = ('use_enums', 'use_type_union', 'use_type_parameters', 'use_literal_type', 'use_variadic_generics', 'use_not_required', 'keep_comments',
         'strip_type_from_const')
STACKS = ('obj_name', 'scope_type', 'local_classes', 'optional_keys', 'known_types')
TOP, SCOPE, FUNC = z3.Const('obj_name_top', StrS), z3.Const('scope_type_top', StrS), z3.Const('func_name', StrS)
PY_DEPTH = z3.Const('depth', IntS)


def block(t): return Sym(t, 'block')


def amap(name):
    has, get = F(name + '_has', StrS, BoolS), F(name + '_get', StrS, StrS)

    def key(k): return zstr(k) if is_str(k) else (k.t.arg(0) if isinstance(k, Sym) and z3.is_app(k.t) and k.t.decl().name() == 'box_str' else F('unbox_str', Obj, StrS)(k.t))
    return AMap(lambda k: has(key(k)), lambda k: get(key(k)), name=name)


def new_state(I, cls, level=None):
    """A compiler (or its specification) in an arbitrary state. level: 'document' or 'inner'"""
    at = {f: z3.Const(f, BoolS) for f in FLAGS}
    at['base_class_name'] = z3.Const('base_class_name', StrS)
    at['render_anonymous'] = z3.Const('render_anonymous', StrS)
    at['class_decorator'] = z3.Const('class_decorator', StrS)
    at['func_name'] = FUNC
    prefix = lambda f, elem: [('comp', I.comp_of_seq(ASeq(PY_DEPTH, lambda j: elem(F('outer_' + f, IntS, StrS if f in ('obj_name', 'scope_type') else Obj)(zint(j))))))]
    at['obj_name'] = I.alloc(ListCell(prefix('obj_name', lambda t: t) + [('item', TOP)]))
    at['scope_type'] = I.alloc(ListCell(prefix('scope_type', lambda t: t) + [('item', SCOPE)]))
    for f in ('local_classes', 'optional_keys'):
        inner = I.alloc(ListCell([('item', block(z3.Const(f + '_before', Obj)))]))
        at[f] = I.alloc(ListCell(prefix(f, lambda t: Sym(t, 'scope')) + [('item', inner)]))
    at['known_types'] = I.alloc(ListCell(prefix('known_types', lambda t: Sym(t, 'scope')) + [('item', I.alloc(DictCell((('amap', amap('known')),))))]))
    at['base_classes'] = I.new_dict()
    for f in ('typed_dicts', 'basic_type_aliases', 'overloaded_type_names'):
        at[f] = I.alloc(SetCell((('set', z3_set(f)),)))
    at['path'] = I.path_value
    at['%log'] = I.new_list()
    at['%known'] = I.new_list()
    ref = I.alloc(ObjCell(cls, at))
    at = dict(at)
    at['tree'] = Sym(z3.Const('tree', Obj), ('tree', ref.a))
    I.heap[ref.a] = ObjCell(cls, at)
    return ref


def z3_set(name):
    h = F(name + '_has', Obj, BoolS)
    return ASet(lambda k: h(k.t if isinstance(k, Sym) else I_OBJ[0].to_obj(k)), name=name)


I_OBJ = [None]


def get(I, ref, f): return I.cell(ref).attrs[f]
def put(I, ref, **kw):
    c = I.cell(ref)
    at = dict(c.attrs); at.update(kw)
    for k in kw: I.write(ref, ObjCell(c.cls, at), k)


def log(I, ref, *ev): I.list_append(get(I, ref, '%log'), tuple(ev))


def top(I, ref, f):
    sg = I.segs(get(I, ref, f))
    if not sg or sg[-1][0] != 'item': raise PyRaise(Exc(['builtins.IndexError'], (), {'origin': f}))
    return sg[-1][1]


def depth(I, ref, f):
    r = I.length(get(I, ref, f))
    return zint(r)


def env_of(I, ref):
    return [zstr(top(I, ref, 'obj_name')), zstr(get(I, ref, 'func_name')), zstr(top(I, ref, 'scope_type')), zbool(get(I, ref, 'strip_type_from_const'))] + \
        [depth(I, ref, f) for f in STACKS] + [zint(I.length(get(I, ref, '%known')))]


def term(I, name, nd, env, rs, *more):
    args = [nd.t] + list(more) + env
    return F(name, *[x.sort() for x in args], rs)(*args)


def refined(I, nd):
    """The node with the one name that has been decided on this path, if so."""
    if len(names_of(nd)) > 1:
        t = nm_(nd.t)
        for c in I.pc:
            if z3.is_eq(c):
                x, y = c.arg(0), c.arg(1)
                if z3.is_string_value(x): x, y = y, x
                if z3.is_string_value(y) and z3.eq(x, t) and y.as_string() in names_of(nd): return node(nd.t, [y.as_string()])
    return nd


# ---------------------------------------------------------------- contract of the recursion
def compile_(I, ref, nd):
    if not is_node(nd): raise Unsupported(f'compile({nd!r})')
    nd = refined(I, nd)
    ns = names_of(nd)
    if among(I, nd, PURE): return pure_text(I, nd)
    if 'comment__' in ns and among(I, nd, {'comment__'}): return F('comment', Obj, BoolS, StrS)(nd.t, zbool(get(I, ref, 'keep_comments')))
    env = env_of(I, ref)
    if among(I, nd, ORDERED): log(I, ref, 'compiled', nd, *env)      # in this state; what it defines belongs to the innermost scope
    r = term(I, 'text', nd, env, StrS)
    if 'argument' in ns:
        if I.decide(z3.And(zbool(is_named(I, nd, 'argument')), has_('types')(nd.t))):
            effects(I, ref, nd, env)
            return I.concat([pure_text(I, node(child_('identifier')(nd.t), ['identifier'])), ': ', term(I, 'type_of_argument', nd, env, StrS)])
    effects(I, ref, nd, env)
    return r


def effects(I, ref, nd, env):
    if 'local' not in I.quiet: I.list_append(top(I, ref, 'local_classes'), block(term(I, 'classes', nd, env, Obj)))
    if among(I, nd, HAS_KEYS): I.list_append(top(I, ref, 'optional_keys'), block(term(I, 'keys', nd, env, Obj)))


def among(I, nd, group):
    """Is it one of a group of constructs? (forks, if the name is not known)"""
    hit = [n for n in names_of(nd) if n in group]
    if len(hit) in (0, len(names_of(nd))): return bool(hit)
    t = name_of(I, nd)
    return I.decide(z3.Or([t == n for n in hit]))


def pure_text(I, nd):
    if among(I, nd, {'literal'}): return pure_text(I, alt(I, nd, '%', LITERALS))
    if among(I, nd, {'integer', 'number'}): return ct_(nd.t)
    r = F('text', Obj, StrS)(nd.t)
    if names_of(nd) == ('identifier',): I.fact(is_word(r)); I.fact(z3.Length(r) > 0)
    return r


def quoted(I, ref, nd, type_nd):
    """compile_type_expression(node, type_node)"""
    if not is_node(nd) or not is_node(type_nd): raise Unsupported('compile_type_expression')
    env = env_of(I, ref)
    effects(I, ref, type_nd, env)
    return term(I, 'quoted', nd, env, StrS, type_nd.t)


def classes_text(I, ref):
    """render_local_classes()"""
    put(I, ref, func_name='')
    lst = top(I, ref, 'local_classes')
    return I.concat([lib.join(I, '\n', Gen(I.segs(lst))), '\n']) if I.truth(lst) else ''


def type_parameters(I, ref, nd):
    """process_type_parameters(node)"""
    if not I.truth(node_contains(I, nd, 'type_parameters')): return ('', '')
    env = env_of(I, ref)
    I.list_append(get(I, ref, '%known'), None)
    log(I, ref, 'type parameters', node(nd.t, names_of(nd)))
    t = term(I, 'type_parameters', nd, env, StrS)
    return (I.concat(['[', t, ']']), term(I, 'type_variables', nd, env, StrS))


def add_known(I, ref, nd, name, kind):
    I.list_append(get(I, ref, '%known'), None)
    log(I, ref, 'known', name, kind, depth(I, ref, 'known_types'))
    I.dict_set(top(I, ref, 'known_types'), name, kind)


def is_known(I, ref, name): return F('is_known_type', StrS, IntS, IntS, BoolS)(zstr(name), zint(I.length(get(I, ref, '%known'))), depth(I, ref, 'known_types'))


def version(I, lst):
    """Stands for the content of a list."""
    t = z3.Const('empty_list', Obj)
    for s in I.segs(lst):
        if s[0] == 'item': t = F('list_with', Obj, Obj, Obj)(t, s[1].t if isinstance(s[1], Sym) else I.to_obj(s[1]))
        else: t = F('list_with_all', Obj, IntS, Obj)(t, zint(s[1].n))
    return t


def pick(I, ref, stub, k):
    """pick_name(stub, k)"""
    r = F('picked', StrS, IntS, Obj, IntS, IntS)(zstr(stub), zint(k), version(I, top(I, ref, 'local_classes')), depth(I, ref, 'obj_name'))
    I.fact(r >= zint(k))
    I.setitem(get(I, ref, 'obj_name'), -1, I.concat([stub, '_', F('py_int_str', IntS, StrS)(r)]))
    return r


class Iterated(Exception): pass


def prove_to_typename(I):
    f = repo_fn(I, MOD, ['to_typename'])
    if f is None: raise Unsupported('to_typename not found')
    I.contracts.pop(MOD + '.to_typename')
    x = z3.Const('x', StrS)

    def thunk():
        I.fact(z3.Length(x) > 0)
        r = I.inline(f, [x], {})
        I.prove(I.eq_term(r, I.spec.call('type_name', x)), 'to_typename: the capitalized name with an underscore')
        return 'named'
    return f, I.explore(thunk)


def prove_pick(I):
    """pick_name(stub, k) is the lowest number from k on the name with which is not taken. (It terminates:
    there are finitely many local classes, and the names are different.)"""
    f = repo_fn(I, MOD, ['ts2pythonCompiler', 'pick_name'])
    if f is None: raise Unsupported('pick_name not found')
    I.contracts.pop(MOD + '.ts2pythonCompiler.pick_name')
    stub, k0, q = z3.Const('stub', StrS), z3.Int('k0'), z3.Int('q')
    n, text = z3.Int('number_of_classes'), F('text_of_class', IntS, StrS)

    def thunk():
        import ast
        I.fact(PY_DEPTH >= 0); I.fact(n >= 0); I.fact(k0 >= 0)
        I.path_value = path_of(I, None)
        ref = I.self_ref = new_state(I, CLS)
        lc = get(I, ref, 'local_classes')
        inner = I.alloc(ListCell([('comp', I.comp_of_seq(ASeq(n, lambda j: text(zint(j)))))]))
        I.heap[lc.a] = ListCell(list(I.cell(lc).segs[:-1]) + [('item', inner)])
        names = get(I, ref, 'obj_name')
        numbered = lambda k: I.concat([stub, '_', F('py_int_str', IntS, StrS)(zint(k))])
        d = depth(I, ref, 'obj_name')
        j = z3.Int('j')
        taken = lambda k: z3.Exists([j], z3.And(0 <= j, j < n, class_name(I, text(j)) == F('anonymous_name', StrS, IntS, StrS)(numbered(k), d)))
        all_taken = lambda k: z3.ForAll([q], z3.Implies(z3.And(k0 <= q, q < k), taken(q)))
        N = 'pick_name: '
        before = dict(I.heap)
        rest = I.cell(names).segs[:-1]

        def number_ok(k, when):
            I.prove(zint(k) >= k0, N + f'the number never decreases ({when})')
            I.prove(all_taken(zint(k)), N + f'all names with lower numbers are taken ({when})')

        anonymous_ = lambda k: F('anonymous_name', StrS, IntS, StrS)(numbered(k), d)

        def loop(I, s):
            vs = lambda: I.heap[I.frame_addr].vars
            stored = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            ints = [x for x in stored if is_int(vs().get(x)) and not isinstance(vs().get(x), bool)]
            if len(ints) != 1: raise Unsupported('loop variables')
            i0, k = vs()[ints[0]], z3.Int('k')
            number_ok(i0, 'at first')
            # what holds of the name and of texts at first has to hold after each iteration
            texts = {x: form for x in stored if is_str(vs().get(x)) for form in (numbered, anonymous_) if I.valid(I.eq_term(vs()[x], form(i0)))}
            named = I.valid(I.eq_term(top(I, ref, 'obj_name'), numbered(i0)))
            new = {x: Poison('of an earlier iteration') for x in stored}
            new.update({x: form(k) for x, form in texts.items()})
            I.heap[I.frame_addr] = FrameCell({**vs(), **new, ints[0]: k}, I.heap[I.frame_addr].parent)
            I.setitem(names, -1, numbered(k) if named else z3.Const('any_name', StrS))
            I.assume(k >= k0); I.assume(all_taken(k))
            try:
                if not I.truth(I.ev(s.test)): return
                I.exec_block(s.body)
            except BreakEx: return
            except ContinueEx: pass
            k1 = vs()[ints[0]]
            number_ok(k1, 'after an iteration')
            I.prove(zint(k1) > k, N + 'the number increases')
            for x, form in texts.items(): I.prove(I.eq_term(vs()[x], form(k1)), N + f'{x} belongs to the number (after an iteration)')
            if named: I.prove(I.eq_term(top(I, ref, 'obj_name'), numbered(k1)), N + 'the current object is named after the number (after an iteration)')
            raise Iterated()
        I.while_hooks = [loop]
        try: r = I.inline(f, [ref, stub, k0], {})
        except Iterated: return 'iterates'
        except PyRaise:
            I.prove(False, N + 'raises no exception')
            return 'raises'
        if not is_int(r):
            I.prove(False, N + 'returns a number')
            return 'picked'
        number_ok(r, 'at last')
        I.prove(I.eq_term(top(I, ref, 'obj_name'), numbered(r)), N + 'the current object is named after the number')
        I.prove(z3.Not(taken(zint(r))), N + 'the name with this number is not taken')
        same = [a for a in before if a != names.a and I.heap.get(a) is not before[a]]
        I.prove(not same and I.valid(I.seq_same(rest, I.segs(names)[:-1])), N + 'changes nothing but the name of the current object')
        return 'picked'
    return f, I.explore(thunk)


def mark(I, ref, nd): log(I, ref, 'overloads marked', node(nd.t, names_of(nd)), zstr(top(I, ref, 'scope_type')))


def prove_mark(I):
    """mark_overloaded_functions(scope): of several functions of one name the first one gets the decorator
    that dispatches, the others get the one that registers them; nothing else is changed."""
    f = repo_fn(I, MOD, ['ts2pythonCompiler', 'mark_overloaded_functions'])
    if f is None: raise Unsupported('mark_overloaded_functions not found')
    I.contracts.pop(MOD + '.ts2pythonCompiler.mark_overloaded_functions')
    n, i, j, x = z3.Int('number_of_functions'), z3.Int('i'), z3.Int('j'), z3.Const('x', StrS)
    at = F('function_at', IntS, Obj)
    # the numbers of the first and the second function of a name (n and above, if there is none)
    first, second = F('first', StrS, IntS), F('second', StrS, IntS)
    named = lambda k: has_('identifier')(at(k))
    nm = lambda k: py_name(ct_(child_('identifier')(at(k))))
    N = 'mark_overloaded_functions: '
    M = I.models
    M['DHParser.toolkit.as_list'] = lambda I, a, k: ASeq(n, lambda q: node(at(zint(q)), ['function'])) if isinstance(a[0], Sym) and a[0].k == 'one or several' else NotImplemented

    def definitions(ks, names):
        for y in names:
            a, b = first(y), second(y)
            I.fact(z3.And(0 <= a, a < b))
            for k in (a, b): I.fact(z3.Implies(k < n, z3.And(named(k), nm(k) == y)))
            for k in ks: I.fact(z3.Implies(z3.And(0 <= k, k < b, k != a), z3.Not(z3.And(named(k), nm(k) == y))))

    def thunk():
        I.fact(PY_DEPTH >= 0); I.fact(n >= 1)
        I.path_value = path_of(I, None)
        ref = I.self_ref = new_state(I, CLS)
        scope = node(z3.Const('scope', Obj), ['document'])
        writes, before, old = [], dict(I.heap), F('decorator_before', IntS, StrS)
        dispatching = z3.If(z3.Or(SCOPE == 'interface', SCOPE == 'namespace'), z3.StringVal('@singledispatchmethod'), z3.StringVal('@singledispatch'))
        want = lambda k, upto: z3.If(z3.And(named(k), k < upto, first(nm(k)) < k), z3.Concat(z3.StringVal('@'), nm(k), z3.StringVal('.register')),
                                     z3.If(z3.And(named(k), first(nm(k)) == k, second(nm(k)) < upto), dispatching, old(k)))

        def set_decorator(I, o, k, v):
            if o.k != 'nodeattr': return NotImplemented
            if k != 'decorator' or not is_str(v): raise Unsupported('attribute of a node')
            writes.append((o.t, zstr(v)))
        I.setitem_hooks = [set_decorator]

        def number(t):
            if z3.is_app(t) and t.decl().name() == 'function_at': return t.arg(0)
            raise Unsupported('a node that is no function of the scope')

        def decorator(k):
            r = want(k, j)
            for t, v in writes: r = z3.If(number(t) == k, v, r)
            return r

        def loop(I, key, it, body):
            if not isinstance(it, ASeq) or it.n is not n: return NotImplemented
            vs = I.heap[I.frame_addr].vars
            ds = [v for v in vs.values() if isinstance(v, Ref) and isinstance(I.heap.get(v.a), DictCell)]
            if len(ds) != 1 or I.heap[ds[0].a].layers: raise Unsupported('first uses')
            if writes: I.prove(False, N + 'writes nothing before')
            d = ds[0]
            seen = AMap(lambda y: first(zstr(y)) < j, lambda y: node(at(first(zstr(y))), ['function']), name='first_use')
            I.heap[d.a] = DictCell((('amap', seen),))
            if not I.decide(z3.Const('iterate', BoolS)):
                I.assume(j == n)
                return False
            I.assume(z3.And(0 <= j, j < n, 0 <= i, i < n))
            definitions([i, j], [nm(i), nm(j), x])
            for k in (i, j, first(nm(i)), first(nm(j)), first(x)): I.fact(F('index_of', Obj, IntS)(at(k)) == k)      # different nodes
            now = dict(I.heap)
            try: body(it.at(j))
            except ContinueEx: pass
            except BreakEx: I.prove(False, N + 'visits all functions')
            I.prove(decorator(i) == want(i, j + 1), N + 'sets exactly the decorators of the functions so far')
            I.prove(zbool(I.dict_has_term(d, x)) == (first(x) < j + 1), N + 'remembers exactly the names so far')
            if I.truth(I.dict_has_term(d, x)): I.prove(number(I.dict_get(d, x).t) == first(x), N + 'remembers the first function of a name')
            I.prove(not [a for a in now if a not in (d.a, I.frame_addr) and I.heap.get(a) is not now[a]], N + 'changes nothing else')
            raise Iterated()
        hooks, I.loop_hooks = I.loop_hooks, [loop]
        try: I.inline(f, [ref, scope], {})
        except Iterated: return 'iterates'
        except PyRaise:
            I.prove(False, N + 'raises no exception')
            return 'raises'
        finally: I.loop_hooks = hooks
        if I.truth(node_contains(I, scope, 'function')):
            I.prove(j == n, N + 'visits all functions')
            I.prove(not writes, N + 'sets no decorator behind the loop')
            kind = 'marked'
        else:
            I.prove(not writes, N + 'sets no decorator')
            kind = 'none'
        I.prove(not [a for a in before if I.heap.get(a) is not before[a]], N + 'leaves the state of the compiler as it is')
        return kind
    return f, I.explore(thunk)


def anonymous(I, ref):
    return F('anonymous_name', StrS, IntS, StrS)(zstr(top(I, ref, 'obj_name')), depth(I, ref, 'obj_name'))


def at_toplevel(I, ref):
    return z3.And(depth(I, ref, 'obj_name') == 1, zstr(top(I, ref, 'obj_name')) == 'TOPLEVEL_')


def warn(I, ref, nd): log(I, ref, 'warning', node(nd.t, names_of(nd)))


def preface(I, ref, text): pass      # never read, see set_preface


METHODS = {     # name in the specification: (method of the compiler, contract)
    'compile': ('compile', compile_), 'quoted': ('compile_type_expression', quoted), 'render_local_classes': ('render_local_classes', classes_text),
    'process_type_parameters': ('process_type_parameters', type_parameters), 'add_to_known_types': ('add_to_known_types', add_known),
    'pick_name': ('pick_name', pick), 'mark_overloaded_functions': ('mark_overloaded_functions', mark), 'anonymous_name': ('anonymous_name', anonymous),
    'is_toplevel': ('is_toplevel', at_toplevel), 'is_known_type': ('is_known_type', is_known), 'warning': (None, warn), 'add_to_preface': (None, preface),
    'in_function_type': (None, lambda I, ref: I.in_function_type),
}


def tree_attr(I, o, name):
    if isinstance(o, Sym) and isinstance(o.k, tuple) and o.k[0] == 'tree':
        if name == 'new_error': return BM(o, lambda I, s, a, k: warn(I, Ref(o.k[1]), a[0]), name)
    return NotImplemented


# ---------------------------------------------------------------- interpreter
def new_interp(reflect, deadline=None):
    I = Exec(reflect, deadline=deadline)
    I_OBJ[0] = I
    I.quiet = ()
    I.attr_hooks += [node_attr, tree_attr]
    I.item_hooks.append(node_item)
    I.contains_hooks.append(node_contains)
    I.iter_hooks.append(node_iter)
    I.len_hooks.append(lambda I, o: I.length(children(I, o)) if is_node(o) else NotImplemented)
    I.isinst_hooks.append(lambda I, o, *a: F('is_several', Obj, BoolS)(o.t) if isinstance(o, Sym) and o.k == 'one or several' else NotImplemented)
    I.truth_hooks.append(lambda I, o: True if is_node(o) else NotImplemented)
    I.setitem_hooks = [set_preface]
    I.text_hooks = [lambda I, v: F('block_text', Obj, StrS)(v.t) if v.k == 'block' else NotImplemented]
    I.present_hooks = [lambda I, v: F('block_nonempty', Obj, BoolS)(v.t) if v.k == 'block' else NotImplemented]
    I.decorator_hooks = [lambda I, f, name: name.startswith('lru_cache')]
    for sname, (m, c) in METHODS.items():
        if m: I.contracts[f'{MOD}.ts2pythonCompiler.{m}'] = (lambda c: lambda I, f, a, k: c(I, *bind(f, a, k)))(c)
    M = I.models
    M['builtins.int'] = int_of
    M['builtins.frozenset.__contains__'] = M['keyword.iskeyword'] = lambda I, a, k: z3.Or([zstr(a[0]) == w for w in keyword.kwlist]) if not isinstance(a[0], str) else keyword.iskeyword(a[0])
    I.contracts[MOD + '.defined_class'] = lambda I, f, a, k: class_name(I, *a)
    I.contracts[MOD + '.to_typename'] = lambda I, f, a, k: F('to_typename', StrS, StrS)(zstr(a[0]))
    I.contracts[MOD + '.to_dict'] = lambda I, f, a, k: F('to_dict', StrS, StrS)(zstr(a[0]))
    M['regex._main.sub'] = M['re.sub'] = re_sub
    M['regex._main.escape'] = M['re.escape'] = lambda I, a, k: F('re_escape', StrS, StrS)(zstr(a[0]))
    M['regex._main.compile'] = M['re.compile'] = lambda I, a, k: Sym(F('regex', StrS, Obj)(zstr(a[0])), ('regex', a[0]))
    I.attr_hooks.append(match_attr)
    I.set_element_sort = StrS
    M['DHParser.nodetree.pick_from_path'] = enclosing
    sub = reflect_table(I)
    env = dict(KEYWORDS=ConstContainer('frozenset', keyword.kwlist, 'KEYWORDS'), SUBSTITUTION=ConstContainer('dict', spec_table(), 'SUBSTITUTION'),
               class_name=model_(class_name), quote_names=model_(quote_names), without_quotes=model_(lambda I, s: F('without_quotes', StrS, StrS)(zstr(s))),
               as_dict=model_(lambda I, s: F('to_dict', StrS, StrS)(zstr(s))), type_name_of=model_(lambda I, s: F('to_typename', StrS, StrS)(zstr(s))))
    I.spec = Spec(I, os.path.join(HERE, 'spec_compiler.py'), env)
    return I


def bind(f, a, k):
    names = [x.arg for x in f.node.args.args]
    d = dict(zip(names, a)); d.update(k)
    return [d[n] for n in names if n in d]


def model_(f): return Model(lambda I, a, k: f(I, *a), '')


def spec_table():
    env = {}
    exec(compile(open(os.path.join(HERE, 'spec_compiler.py')).read(), 'spec', 'exec'), env)
    return tuple(env['SUBSTITUTION'].items())


def reflect_table(I): return None


def class_name(I, s): return F('defined_class', StrS, StrS)(zstr(s))


WITHOUT_NAME = r'^\w+\s*:\s*'
QUOTES = r'''Literal\[(?:"[^"]*"|'[^']*'|[^]"'])*]|["']'''


QUOTED_TEXT = '(\'[^\']*\'|"[^"]*")|'
NAMES_BEFORE, NAMES_AFTER = QUOTED_TEXT + r'(?<!\w)(?:', r')(?!\w)'


def regex_sub(I, pattern, rep, s):
    """The effect of re.sub depends on the pattern, the text and what the matches are replaced by:
    those without group 1 by f(match_0, None), those that are their group 1 by f(match_0, match_0)."""
    m = z3.Const('match_0', StrS)
    parts = lib.flat(pattern) if is_z3(pattern) else [z3.StringVal(pattern)]
    if not (z3.is_string_value(parts[0]) and parts[0].as_string().startswith(QUOTED_TEXT)): raise Unsupported('re.sub')
    I.fact(z3.Length(m) > 0)
    old, I.pure = I.pure, True
    try: r = [zstr(I.call(rep, [Sym(z3.Const('match', Obj), ('match', m, g))], {})) for g in (None, m)]
    except NotPure: raise Unsupported('replacement with case distinctions')
    finally: I.pure = old
    return F('regex_sub', StrS, StrS, StrS, StrS, StrS)(zstr(pattern), r[0], r[1], zstr(s))


def match_attr(I, o, name):
    if not (isinstance(o, Sym) and isinstance(o.k, tuple) and o.k[0] in ('match', 'regex')): return NotImplemented
    if o.k[0] == 'regex' and name == 'sub': return BM(o, lambda I, o, a, k: re_sub(I, [o.k[1]] + a, k), name)
    if o.k[0] == 'match' and name in ('group', '__getitem__'): return BM(o, lambda I, o, a, k: match_group(o, a), name)
    return NotImplemented


def match_group(o, a):
    if a in ([], [0]): return o.k[1]
    if a == [1]: return o.k[2]
    raise Unsupported('group of a match')


def quote_names(I, text, names):
    """What the regular expression of compile_type_expression is meant to do (see DESIGN.md, K08)"""
    m = z3.Const('match_0', StrS)
    escaped = I.new_list()
    I.run_loop('quote_names', names, lambda x: I.list_append(escaped, F('re_escape', StrS, StrS)(zstr(x))))
    pattern = I.concat([NAMES_BEFORE, lib.join(I, '|', escaped), NAMES_AFTER])
    return F('regex_sub', StrS, StrS, StrS, StrS, StrS)(pattern, I.concat(["'", m, "'"]), m, zstr(text))


def re_sub(I, a, k):
    pattern, rep, s = a
    if k: raise Unsupported('re.sub')
    if not isinstance(pattern, str): return regex_sub(I, pattern, rep, s)
    if pattern == WITHOUT_NAME and rep == '' and is_z3(s):
        p = lib.flat(s)
        if len(p) > 2 and z3.is_string_value(p[1]) and p[1].as_string() == ': ' and (word_text(p[0]) or I.valid(is_word(p[0]))):
            return p[2] if len(p) == 3 else z3.Concat(*p[2:])
        return F('without_parameter_name', StrS, StrS)(s)
    if pattern == QUOTES and isinstance(rep, Fn):
        import ast
        d = ast.unparse(rep.node.body)
        v = rep.node.args.args[0].arg
        if d == f"""{v}.group(0).replace("'", '"') if {v}.group(0)[1:] else ''""": return F('without_quotes', StrS, StrS)(zstr(s))
    raise Unsupported('re.sub')


def word_text(t):
    """The text of a child that is an identifier"""
    return t.decl().name() == 'text' and t.num_args() == 1 and z3.is_app(t.arg(0)) and t.arg(0).decl().name() == 'child_identifier'


def enclosing(I, a, k):
    if len(a) == 2 and a[1] == 'interface' and k.get('reverse'): return Sym(z3.Const('enclosing_interface', Obj), ('node', 'interface'))
    raise Unsupported('pick_from_path')


# ---------------------------------------------------------------- running both sides
def set_preface(I, o, k, v):
    """node.attr['preface'] = ...: never read again, the preface of an interface is rendered before its members"""
    if o.k != 'nodeattr' or k != 'preface' or not z3.eq(o.t, z3.Const('enclosing_interface', Obj)): return NotImplemented


def int_of(I, a, k):
    """int(text of a literal): the grammar's integers have digits only, its numbers never do"""
    v = a[0]
    if is_z3(v) and is_str(v) and z3.is_app(v) and v.decl().name() in ('text', 'node_content') and v.num_args() == 1:
        n = nm_(v.arg(0))
        if not I.valid(z3.Or(n == 'integer', n == 'number')): raise Unsupported('int() of a text')
        if I.decide(n == 'integer'): return F('int_value', StrS, IntS)(v)
        raise PyRaise(Exc(['builtins.ValueError']))
    return lib.BUILTINS['builtins.int'](I, a, k)


def spec_object(I):
    ref = new_state(I, 'spec')
    c = I.cell(ref)
    at = dict(c.attrs)
    for n, (m, f) in METHODS.items():
        at[n] = BM(ref, (lambda f: lambda I, s, a, k: f(I, s, *a))(f), n)
    I.heap[ref.a] = ObjCell('spec', at)
    return ref


def both(method, spec, names, args=None, sargs=None, pre=None, n_couples=False):
    """prove function: the method of the compiler agrees with the specification."""
    def prove(I):
        f = repo_fn(I, MOD, ['ts2pythonCompiler', method])
        if f is None: raise Unsupported(method + ' not found')
        I.contracts.pop(f'{MOD}.ts2pythonCompiler.{method}', None)
        I.coupling = Coupling(I, method + ': ')

        def thunk():
            I.in_function_type = z3.Const('in_function_type', BoolS)
            t = z3.Const('node', Obj)
            nd = node(t, names) if names else None
            I.path_value = path_of(I, nd)
            I.fact(PY_DEPTH >= 0)
            I.assume(z3.Or([z3.Const('render_anonymous', StrS) == x for x in ('type', 'functional', 'local', 'toplevel')]))
            if pre: pre(I, nd)
            ref, s = new_state(I, CLS), spec_object(I) if I.judge != 'again' else new_state(I, CLS)
            I.self_ref = ref
            I.coupling.reset(dict(real=ref, spec=s) if n_couples else None, None)
            a = [nd] if args is None else args(I, nd)
            before = I.heap[ref.a], {k: I.heap[v.a] for k, v in I.heap[ref.a].attrs.items() if isinstance(v, Ref)}
            N = method + ': '
            try: r = I.inline(f, [ref] + a, {})
            except PyRaise as e:
                if e.exc.attrs.get('origin') != 'spec': I.prove(False, N + 'raises no exception')
                return 'raises'
            sa = a if sargs is None else sargs(I, nd)
            I.self_ref = s
            I.coupling.switch()
            want = I.inline(f, [s] + a, {}) if I.judge == 'again' else I.spec.call(spec, s, *sa) if isinstance(spec, str) else spec(I, s, *sa)
            if I.judge != 'state':
                if isinstance(want, tuple): ok = z3.And([zbool(I.eq_term(x, y)) for x, y in zip(r, want)]) if isinstance(r, tuple) and len(r) == len(want) else False
                else: ok = I.eq_term(r, want) if is_str(r) or not is_str(want) else False
                I.prove(ok, N + ('renders the same again' if I.judge == 'again' else 'renders what the specification says'))
            if I.judge != 'text': same_state(I, ref, s, N)
            return 'rendered'
        return f, I.explore(thunk)
    return prove


def path_of(I, nd):
    """The nodes from the root to nd; the parent of an argument list is a function or a function type."""
    if nd is None or names_of(nd) != ('arg_list',): return Sym(z3.Const('path', Obj), 'path')
    n = z3.Const('path_length', IntS)
    I.fact(n > 0)
    parent = 'func_type' if I.decide(I.in_function_type) else 'function'
    outer = ASeq(n, lambda j: node(F('path_node', IntS, Obj)(zint(j)), ('root', 'document', 'interface', 'declarations_block', 'function', 'func_type', 'types', 'type', 'arg_list', 'argument')))
    return I.alloc(ListCell([('comp', I.comp_of_seq(outer)), ('item', node(z3.Const('parent', Obj), [parent])), ('item', nd)]))


def same_state(I, ref, s, N):
    a, b = I.cell(ref).attrs, I.cell(s).attrs
    for f in STACKS:
        x, y = I.segs(a[f]), I.segs(b[f])
        if f == 'known_types':
            I.prove(len(x) == len(y) and x[-1][0] == y[-1][0] == 'item', N + 'leaves the scopes of known types as specified')
            if len(x) == len(y) and isinstance(x[-1][1], Ref) and isinstance(y[-1][1], Ref):
                k = z3.Const('some_name', StrS)
                hx, hy = I.dict_has_term(x[-1][1], k), I.dict_has_term(y[-1][1], k)
                I.prove(zbool(hx) == zbool(hy), N + 'adds the known types specified')
                if I.truth(hx) and I.truth(hy): I.prove(I.eq_term(I.dict_get(x[-1][1], k), I.dict_get(y[-1][1], k)), N + 'adds the known types specified')
            continue
        try: q = I.seq_same(x, y)
        except Unsupported:
            q = False
        I.prove(q, N + f'leaves {f} as specified')
    for f in ('strip_type_from_const', 'func_name'):
        I.prove(I.eq_term(a[f], b[f]), N + f'leaves {f} as specified')
    try: q = I.seq_same(I.segs(a['%log']), I.segs(b['%log']))
    except Unsupported: q = False
    if os.environ.get('PYDV_DEBUG') and q is not True and not I.valid(zbool(q)): print('LOGS', I.segs(a['%log']), '\n', I.segs(b['%log']))
    I.prove(q, N + 'adds names, warnings, marks and class prefaces as specified')


TABLE = {      # construct: (method, specification, names of the node)
}
for n in ('identifier', 'name', 'variable', 'type_name', 'basic_type', 'integer', 'number', 'string', 'key', 'boolean', 'array', 'object', 'association',
          'literal', 'array_of', 'type_tuple', 'mapped_type', 'map_signature', 'index_signature', 'func_type', 'generic_type', 'type_parameters',
          'indexed_type', 'intersection', 'types', 'type', 'declaration', 'enum', 'item', 'const', 'assignment', 'extends', 'interface',
          'declarations_block', 'type_alias', 'argument', 'arg_tail', 'arg_list', 'function', 'document', 'module', 'Import', 'root', 'namespace', 'virtual_enum'):
    TABLE[n] = ('on_' + n, 'spec_' + n, [n])


COUPLED = ('types',)      # loops with loop-carried state


def union(I, ref, nd):
    """on_types(node), proved for nodes with alternatives of any kind"""
    env = env_of(I, ref)
    effects(I, ref, nd, env)
    log(I, ref, 'union', node(nd.t, names_of(nd)))
    return term(I, 'union', nd, env, StrS)


def with_union(I, nd): I.contracts[MOD + '.ts2pythonCompiler.on_types'] = lambda I, f, a, k: union(I, *bind(f, a, k))
for n in ('array_types', 'parameter_types'): TABLE[n] = ('on_' + n, union, [n])
TABLE['parameter_type'] = ('on_parameter_type', 'spec_type', ['parameter_type'])
TABLE['array_type'] = ('on_array_type', 'spec_type', ['array_type'])
TYPE_NODES = ['types', 'array_types', 'parameter_types', 'type', 'intersection', 'parameter_type', 'array_type']
X, Y = z3.Const('some_text', StrS), z3.Const('another_text', StrS)
NAMED = {      # auxiliary methods: (specification, names of the node or None, arguments)
    'compile_type_expression': ('spec_quoted', ['declaration', 'argument', 'types', 'array_of', 'parameter_types', 'array_types', 'interface', 'function'],
                                lambda I, nd: [nd, node(z3.Const('type_node', Obj), TYPE_NODES)]),
    'is_toplevel': (at_toplevel, None, lambda I, nd: []), 'anonymous_name': ('spec_anonymous_name', None, lambda I, nd: []),
    'render_local_classes': (classes_text, None, lambda I, nd: []), 'is_known_type': ('spec_is_known', None, lambda I, nd: [X]),
    'add_to_known_types': ('spec_add_known', ['function', 'interface', 'type_alias', 'enum', 'namespace', 'virtual_enum'], lambda I, nd: [nd, X, Y]),
    'process_type_parameters': ('spec_process_type_parameters', ['function', 'interface', 'type_alias'], lambda I, nd: [nd]),
    'render_class_header': ('spec_header', None, lambda I, nd: [X, Y, ' ' if I.decide(z3.Const('plain', BoolS)) else '']),
}


def union_case(i):
    """The proof for unions is divided into cases that cover everything."""
    def pre(I, nd):
        from pydv.lib import m_str, rfind_parts
        r = m_str(I, TOP, 'rfind', ['_'], {})
        post = rfind_parts(TOP, z3.StringVal('_'))[1]
        number = F('str_isdecimal', StrS, BoolS)(post)
        I.assume([r < 0, z3.And(r >= 0, post == ''), z3.And(r >= 0, post != '', number), z3.And(r >= 0, post != '', z3.Not(number))][i % 4])
        for flag, on in (('use_type_union', i & 4), ('use_literal_type', i & 8)): I.assume(z3.Const(flag, BoolS) if on else z3.Not(z3.Const(flag, BoolS)))
    return pre


def prover(n, judge):
    if n in TABLE:
        m, s, names = TABLE[n]
        p = both(m, s, names, pre=with_union if s is union else None, n_couples=n in COUPLED)
    elif n.rpartition('_')[0] in COUPLED:
        m, s, names = TABLE[n.rpartition('_')[0]]
        p = both(m, s, names, pre=union_case(int(n.rpartition('_')[2])), n_couples=True)
    else:
        s, names, args = NAMED[n]
        p = both(n, s, names, args, args if n != 'render_class_header' else (lambda I, nd: [X, Y, z3.Const('plain', BoolS)]))

    def prove(I):
        I.judge = judge
        return p(I)
    return prove


for _n in list(TABLE) + list(NAMED) + [f'{n}_{i}' for n in COUPLED for i in range(16)]:
    globals()['text_' + _n] = prover(_n, 'text')
    globals()['state_' + _n] = prover(_n, 'state')
    globals()['both_' + _n] = prover(_n, 'both')
    globals()['again_' + _n] = prover(_n, 'again')       # two runs of the method itself
