"""Search for documents on which the converter deviates from the executable specification
contracts/spec_compiler.py (K01 to K09), or which are converted differently on repetition
(G02). Documents are generated as trees, printed as TypeScript, converted by the real
pipeline and compared with the rendering of the tree by the specification."""
import ast, json, keyword, os, re, subprocess, sys
import common

KEYWORDS = frozenset(keyword.kwlist)
SETTINGS = {'BaseClassName': ['TypedDict', 'TypedDict', 'TypedDict', 'BaseModel', 'pkg.Base', ''],
            'RenderAnonymous': ['local', 'local', 'toplevel'], 'ClassDecorator': ['', '', '@final', 'dec(1)'],
            'UseEnum': [True, True, False], 'UseTypeUnion': [False, True], 'UseLiteralType': [False, True],
            'UseVariadicGenerics': [False, True], 'UseNotRequired': [False, True], 'KeepMultilineComments': [False]}
DEFAULTS = {'BaseClassName': 'TypedDict', 'RenderAnonymous': 'local', 'ClassDecorator': '', 'UseEnum': True, 'UseTypeUnion': False,
            'UseLiteralType': False, 'UseVariadicGenerics': False, 'UseNotRequired': False, 'KeepMultilineComments': False}
BASIC = ['object', 'array', 'string', 'number', 'boolean', 'null', 'integer', 'uinteger', 'decimal', 'unknown', 'any', 'void']


class N:
    """A node of a syntax-tree."""
    def __init__(self, name, *children, content='', **attr):
        self.name, self.children, self.text, self.attr = name, tuple(children), content, dict(attr)

    @property
    def content(self): return self.text if not self.children else ''.join(c.content for c in self.children)

    def __contains__(self, name): return any(c.name == name for c in self.children)

    def __getitem__(self, k):
        if isinstance(k, int): return self.children[k]
        r = [c for c in self.children if c.name == k]
        if not r: raise KeyError(k)
        return r[0]

    def get_attr(self, k, default): return self.attr.get(k, default)

    def select(self, name):
        for c in self.children:
            if c.name == name: yield c
            yield from c.select(name)


def leaf(name, content): return N(name, content=content)


# ---------------------------------------------------------------- reference
class Reference:
    def __init__(self, settings, spec):
        self.spec = spec
        b = settings['BaseClassName']
        self.base_class_name = b[b.rfind('.') + 1:]
        d = settings['ClassDecorator'].strip()
        self.class_decorator = ('' if d[:1] == '@' else '@') + d + '\n' if d else ''
        self.render_anonymous = settings['RenderAnonymous']
        self.use_enums, self.use_type_union, self.use_literal_type = settings['UseEnum'], settings['UseTypeUnion'], settings['UseLiteralType']
        self.use_variadic_generics, self.use_not_required = settings['UseVariadicGenerics'], settings['UseNotRequired']
        self.use_type_parameters = False
        self.known_types = [dict.fromkeys(['Union', 'List', 'Tuple', 'Optional', 'Dict', 'Set', 'Any', 'Generic', 'Coroutine', 'list', 'tuple', 'dict',
                                           'set', 'frozenset', 'int', 'float'], 'builtin')]
        self.local_classes, self.optional_keys = [[]], [[]]
        self.base_classes, self.typed_dicts, self.basic_type_aliases = {}, {'TypedDict'}, set()
        self.overloaded_type_names = set()
        self.obj_name, self.scope_type = ['TOPLEVEL_'], ['']
        self.func_name, self.strip_type_from_const = '', False
        self.path, self.warnings = [], 0

    def render(self, root):
        doc = root['document']
        self.overloaded_type_names = {c['identifier'].content for c in doc.children if c.name == 'type_alias'} & \
            {c['identifier'].content for c in doc.children if c.name == 'namespace'} if False else set()
        return self.compile(root)

    ALIAS = {'parameter_types': 'types', 'array_types': 'types', 'parameter_type': 'type', 'array_type': 'type', 'declarations_tuple': 'declarations_block'}

    def compile(self, nd):
        self.path.append(nd)
        r = self.spec['spec_' + self.ALIAS.get(nd.name, nd.name)](self, nd)
        self.path.pop()
        return r

    def warning(self, nd): self.warnings += 1
    def is_toplevel(self): return self.obj_name == ['TOPLEVEL_']
    def add_to_known_types(self, nd, name, kind): self.known_types[-1][name] = kind
    def is_known_type(self, name): return any(name in k for k in self.known_types)

    def in_function_type(self):
        for nd in reversed(self.path):
            if nd.name in ('func_type', 'function'): return nd.name == 'func_type'

    def add_to_preface(self, text):
        for nd in reversed(self.path):
            if nd.name == 'interface':
                nd.attr['preface'] = nd.attr.get('preface', '') + text
                return

    def anonymous_name(self):
        if self.base_class_name == 'TypedDict' and self.render_anonymous == 'toplevel': return '_'.join(self.obj_name[1:]) or self.obj_name[-1]
        return self.obj_name[-1]

    def pick_name(self, stub, k):
        used = [class_name(c) for c in self.local_classes[-1]]
        while True:
            self.obj_name[-1] = f'{stub}_{k}'
            if self.anonymous_name() not in used: return k
            k += 1

    def render_local_classes(self):
        self.func_name = ''
        return ''.join(c + '\n' for c in self.local_classes[-1])

    def process_type_parameters(self, nd):
        if 'type_parameters' not in nd: return '', ''
        names = [p.replace("'", '') for p in self.compile(nd['type_parameters']).split(', ')]
        preface = ''.join(f"{p} = TypeVar('{p}')\n" for p in names if not self.is_known_type(p))
        for p in names: self.known_types[-1][p] = '?'
        return '[' + ', '.join(names) + ']', preface

    def quoted(self, nd, type_nd): return self.spec['spec_quoted'](self, nd, type_nd)

    def mark_overloaded_functions(self, nd):
        seen = {}
        for c in nd.children:
            if c.name == 'function' and 'identifier' in c:
                name = self.spec['py_name'](c['identifier'].content)
                if name in seen:
                    seen[name].attr['decorator'] = '@singledispatchmethod' if self.scope_type[-1] in ('interface', 'namespace') else '@singledispatch'
                    c.attr['decorator'] = '@' + name + '.register'
                else: seen[name] = c


def class_name(code):
    lines = code.split('\n')
    while lines and lines[0].startswith('@'): del lines[0]
    if not lines or not lines[0].startswith('class '): return ''
    return [re.match(r'class (\w+)', l).group(1) for l in lines if l.startswith('class ')][-1]


def without_quotes(text):
    out, i = '', 0
    while i < len(text):
        if text.startswith('Literal[', i):
            j, q = i + 8, ''
            while q or text[j] != ']':
                if q: q = '' if text[j] == q else q
                elif text[j] in '\'"': q = text[j]
                j += 1
            out += text[i:j].replace("'", '"'); i = j
        elif text[i] in '\'"': i += 1
        else: out += text[i]; i += 1
    return out


def quote_names(text, names):
    """Puts the names in quotes, except within texts that are quoted already."""
    return ''.join("'" + t + "'" if t in names else t for t in re.findall(r"'[^']*'|\"[^\"]*\"|\.\.\.|[\w.]+|[^\w.]", text))


def as_dict(declarations):
    return '{' + ', '.join('"' + d.partition(':')[0] + '":' + d.partition(':')[2] for d in declarations.split('\n')) + '}'


ENV = dict(KEYWORDS=KEYWORDS, class_name=class_name, without_quotes=without_quotes, quote_names=quote_names, as_dict=as_dict,
           type_name_of=lambda n: n[0].upper() + n[1:] + '_')


# ---------------------------------------------------------------- printer
def show(nd, sp):
    """TypeScript text of a tree; sp yields white space between tokens."""
    r = lambda *xs: sp().join(x if isinstance(x, str) else show(x, sp) for x in xs if x is not None)
    opt = lambda name: nd[name] if name in nd else None
    sep = lambda xs, s: (sp() + s + sp()).join(show(x, sp) for x in xs)
    n = nd.name
    if not nd.children and n not in ('declarations_block', 'array', 'object', 'document', 'function'):
        return nd.text
    if n == 'root': return show(nd[0], sp)
    if n in ('identifier', 'name', 'type_name', 'literal', 'mapped_type', 'array_types', 'variable', 'parameter_type', 'type', 'array_type'):
        if nd[0].name == 'types': return r('(', nd[0], ')')
        return r(*nd.children) if n != 'parameter_type' else ' '.join(show(c, sp) for c in nd.children)
    if n == 'equals_type': return r('=', nd[0])
    if n == 'extends_type': return 'extends ' + show(nd[-1], sp)
    if n in ('types', 'parameter_types'): return sep(nd.children, '|')
    if n == 'intersection': return sep(nd.children, '&')
    if n == 'array_of': return r(nd[0], '[]')
    if n == 'type_tuple': return r('[', sep(nd.children, ','), ']')
    if n == 'declarations_tuple': return r('[', sep(nd.children, ','), ']')
    if n == 'generic_type': return r(nd[0], nd[1])
    if n == 'type_parameters': return r('<', sep(nd.children, ','), '>')
    if n == 'indexed_type': return r(nd[0], '[', nd[1], ']')
    if n == 'map_signature': return r('{', nd[0], ':', nd[1], nd.attr.get('end', ''), '}')
    if n == 'index_signature':
        inner = ' '.join([nd['identifier'].content, 'in keyof' if 'keyof' in nd else ':', show(nd['type'], sp)])
        return r('readonly ' if 'readonly' in nd else '', '[', inner, ']', opt('optional'))
    if n == 'func_type': return r('(', opt('arg_list'), ')', '=>', nd['types'])
    if n == 'arg_list': return sep(nd.children, ',')
    if n == 'argument': return r(nd['identifier'], opt('optional'), *([':', nd['types']] if 'types' in nd else []))
    if n == 'arg_tail': return r('...', nd['identifier'], *([':', nd[1]] if len(nd.children) > 1 else []))
    if n == 'array': return r('[', sep(nd.children, ','), ']')
    if n == 'object': return r('{', sep(nd.children, ','), '}')
    if n == 'association': return r(nd[0], ':', nd[1])
    if n == 'key': return '"' + nd[0].content + '"'
    if n == 'declaration': return ' '.join(nd.attr.get('q', [])) + ' ' + r(nd['identifier'], opt('optional'), *([':', nd['types']] if 'types' in nd else []))
    if n == 'function':
        return r(nd.attr.get('pre', ''), opt('identifier'), opt('optional'), opt('type_parameters'), '(', opt('arg_list'), ')', *([':', nd['types']] if 'types' in nd else []))
    if n == 'declarations_block': return r('{', *[x for c in nd.children for x in (show(c, sp), ';')], '}')
    if n == 'extends': return nd.attr.get('kw', 'extends') + ' ' + sep(nd.children, ',')
    if n == 'interface': return r(nd.attr.get('kw', 'interface') + ' ' + nd['identifier'].content, opt('type_parameters'), (' ' + show(nd['extends'], sp)) if 'extends' in nd else None, nd['declarations_block'])
    if n == 'type_alias': return r('type ' + nd['identifier'].content, opt('type_parameters'), '=', nd['types'], ';')
    if n == 'enum': return r('enum ' + nd['identifier'].content, '{', sep(nd.children[1:], ','), '}')
    if n == 'item':
        q = nd.attr.get('q', '')
        return r(q + nd[0].content + q, *(['=', nd[1]] if len(nd.children) > 1 else []))
    if n == 'const': return 'const ' + r(nd[0], *(['=', nd[1]] if len(nd.children) > 1 else []), ';')
    if n in ('namespace', 'virtual_enum'):
        return r('namespace ' + nd['identifier'].content, '{', *['export ' * nd.attr.get('export', 0) + show(c, sp) + (';' if c.name in ('declaration', 'function') else '') for c in nd.children[1:]], '}')
    if n == 'document': return '\n'.join(('export ' if c.attr.get('export') else '') + show(c, sp) + (';' if c.name in ('declaration', 'function') else '') for c in nd.children)
    raise ValueError(n)


# ---------------------------------------------------------------- generator
NAMES = ['a', 'b', 'cc', 'from', 'lambda', 'is', 'in_', 'not', 'letter', 'variable', 'readonlyX', 'staticY', 'exported', 'functional', 'x1', '_y', 'None',
         'True', 'pass', 'Name', 'trueish', 'stringX', 'typeOf', 'class_', 'def', 'with', 'as', 'nullable', 'élan', 'match', 'type', 'union', 'Optional_', 'async', 'str', 'value_2', 'v_']
TYPES = ['A', 'B', 'Cc', 'X_1', 'Dd_', 'classify', 'Unionized', 'from', 'Array1', 'Map', 'Set', 'P.Q', 'A.B', 'P.from.x', 'lambda', 'Error', 'Array', 'RegExp',
         'Uint32Array', 'Thenable', 'undefined', 'List', 'stringify', 'anyThing', 'ReadonlyArray', 'NoneType', 'Literally', 'int', 'Element', 'Nonesuch', 'decimals']
GENERIC = ['Array', 'Map', 'Promise', 'Set', 'A', 'P.Q', 'Thenable', 'ReadonlyArray', 'Record', 'Ee']


class Gen:
    def __init__(self, rnd, weights=None, names=None, types=None, generics=None, parameters=()):
        self.r, self.w = rnd, weights or {}
        self.names, self.types = names or NAMES, types or TYPES
        self.used = []
        self.generics, self.parameters = generics or GENERIC, parameters

    def p(self, x): return self.r.random() < x
    def w_(self, k, d): return self.w.get(k, d)
    def ident(self): return leaf('identifier', self.r.choice(self.names))

    def fresh(self, pool=None):
        for _ in range(50):
            n = self.r.choice(pool or self.types)
            if '.' not in n and n not in self.used and n not in ('undefined', 'None', 'True', 'as', 'def', 'pass', 'with', 'not', 'is', 'async'): break
        else: n = f'{self.parameters[0] if self.parameters else "T"}{len(self.used)}'
        if n in self.used or '.' in n: n = f'{self.parameters[0] if self.parameters else "T"}{len(self.used)}'
        self.used.append(n)
        return leaf('identifier', n)

    def type_name(self): return N('type_name', leaf('name', self.r.choice(self.types + self.used)))
    def basic(self): return leaf('basic_type', self.r.choice(BASIC))

    def generic(self, d):
        ps = [self.parameter_types(d - 1) for _ in range(self.r.choice([1, 1, 2, 3]))]
        if len(ps) == 1 and ps[0].content in ('void', 'null', 'undefined') and len(ps[0].children) == 1: ps = [N('parameter_types', N('parameter_type', leaf('basic_type', 'any')))]
        return N('generic_type', N('type_name', leaf('name', self.r.choice(self.generics))), N('type_parameters', *ps))

    def parameter_types(self, d): return N('parameter_types', *[self.parameter_type(d) for _ in range(self.r.choice([1, 1, 1, 2, 3]))])

    def parameter_type(self, d):
        k = self.choice([('basic', 4), ('name', 4)] + ([('array', 2), ('generic', 2), ('tuple', 1), ('block', self.w_('anon', .4))] if d > 0 else []))
        return N('parameter_type', self.alternative(k, d))

    def choice(self, ws):
        x = self.r.random() * sum(w for _, w in ws)
        for k, w in ws:
            x -= w
            if x < 0: return k
        return ws[-1][0]

    def literal(self, d=1, tuples=True):
        k = self.r.choice(['integer', 'integer', 'number', 'string', 'string', 'boolean'] + (['array', 'object'] if d > 0 and tuples else []))
        if k == 'integer': c = leaf(k, self.r.choice(['0', '1', '-1', '42', '-7', '100', '10']))
        elif k == 'number': c = leaf(k, self.r.choice(['1.5', '-0.25', '1e5', '2.0', '3E-2', '-1.5e+3']))
        elif k == 'string': c = leaf(k, self.r.choice(['"a"', "'b'", '"a b"', '"A"', "'x|y'", '"*"', '""', "'= None'", '"from"', '"Cc"', '"Union["', '"# c"']))
        elif k == 'boolean': c = leaf(k, self.r.choice(['true', 'false']))
        elif k == 'array': c = N('array', *[self.literal(d - 1) for _ in range(self.r.randint(1, 3))])
        else: c = N('object', *[N('association', N('key', self.ident()), self.literal(d - 1)) for _ in range(self.r.randint(1, 3))])
        return N('literal', c)

    def alternative(self, k, d):
        if k == 'basic': return self.basic()
        if k == 'name': return self.type_name()
        if k == 'array':
            return N('array_of', N('array_types', N('array_type', self.alternative(self.choice([('basic', 3), ('name', 3), ('generic', 1), ('types', 2), ('tuple', 1), ('block', self.w_('anon', .4))] if d > 0 else [('basic', 1), ('name', 1)]), d - 1))))
        if k == 'generic': return self.generic(d)
        if k == 'indexed': return N('indexed_type', self.type_name(), self.r.choice([self.type_name(), N('literal', leaf('string', '"k"'))]))
        if k == 'types': return self.types_(d - 1, self.r.choice([2, 2, 3]))
        if k == 'mapped': return N('mapped_type', self.map_signature(d - 1))
        if k == 'block': return self.block(d - 1, anonymous=True)
        if k == 'tuple': return N('type_tuple', *[self.types_(d - 1) for _ in range(self.r.choice([1, 2, 2, 3]))])
        if k == 'dtuple':
            ds = [self.declaration(d - 1, typed=True) for _ in range(self.r.choice([1, 2]))]
            return N('declarations_tuple', *self.distinct(ds))
        if k == 'literal':
            l = self.literal(1, tuples=False)
            return l
        if k == 'func': return self.func_type(d - 1)
        raise ValueError(k)

    def type(self, d):
        ws = [('basic', self.w_('basic', 4)), ('name', self.w_('name', 4)), ('literal', self.w_('literal', 1.5))]
        if d > 0: ws += [('array', 2), ('generic', self.w_('generic', 1.5)), ('types', 1), ('mapped', self.w_('mapped', .7)), ('block', self.w_('anon', .6)), ('tuple', 1),
                         ('dtuple', self.w_('dtuple', .15)), ('func', self.w_('func', 1)), ('indexed', self.w_('indexed', .2))]
        return N('type', self.alternative(self.choice(ws), d))

    def types_(self, d, n=None):
        n = n or self.choice([(1, 6), (2, self.w_('union', 2)), (3, self.w_('union', 2) / 2), (5, self.w_('union', 2) / 6)])
        cs = []
        for _ in range(n):
            if d > 0 and self.p(self.w_('intersection', .03)): cs.append(N('intersection', self.type(0), self.type(0)))
            elif cs and self.p(.15): cs.append(self.r.choice([c for c in cs]))
            else: cs.append(self.type(d))
        if n > 1 and self.p(self.w_('null', .2)): cs[self.r.randrange(n)] = N('type', leaf('basic_type', 'null'))
        if n > 1: cs = [N('type', N('types', c)) if c.name == 'type' and c[0].name == 'func_type' else c for c in cs]
        return N('types', *cs)

    def map_signature(self, d):
        cs = []
        if self.p(.15): cs.append(leaf('readonly', 'readonly'))
        cs.append(self.ident())
        if self.p(.1): cs.append(leaf('keyof', 'keyof'))
        cs.append(N('type', self.r.choice([self.basic(), self.type_name()])))
        if self.p(.15): cs.append(leaf('optional', '?'))
        return N('map_signature', N('index_signature', *cs), self.types_(d), end=self.r.choice(['', ';']))

    def func_type(self, d):
        a = self.arg_list(d)
        return N('func_type', *([a] if a else []), self.types_(d))

    def arg_list(self, d, typed=False):
        n = self.r.choice([0, 1, 1, 2, 3])
        cs = [self.argument(d, typed) for _ in range(n)]
        if n and self.p(.2): cs[-1] = N('argument', cs[-1][0], leaf('optional', '?'), *([cs[-1]['types']] if 'types' in cs[-1] else []))
        if self.p(.12):
            x = self.p(.7)
            tail = N('array_of', N('array_types', N('array_type', self.r.choice([self.basic(), self.type_name()])))) if x else None
            cs.append(N('arg_tail', self.ident(), *([tail] if tail else [])))
        return N('arg_list', *cs) if cs else None

    def argument(self, d, typed=False):
        return N('argument', self.ident(), *([self.types_(d)] if typed or self.p(.9) else []))

    def distinct(self, ds):
        seen, out = set(), []
        for x in ds:
            k = x['identifier'].content if 'identifier' in x else None
            if x.name == 'declaration' and k in seen: continue
            seen.add(k); out.append(x)
        return out

    def declaration(self, d, typed=False):
        cs = [leaf('qualifiers', ''), self.ident()]
        if self.p(self.w_('optional', .35)): cs.append(leaf('optional', '?'))
        if typed or self.p(.93): cs.append(self.types_(d))
        q = [x for x in ('readonly', 'static') if self.p(.08)]
        if self.p(.5): q.reverse()
        return N('declaration', *cs, q=q)

    def function(self, d, toplevel=False):
        cs = []
        if toplevel or self.p(.93):
            cs.append(self.ident())
            if not toplevel and self.p(.06): cs[-1] = leaf('identifier', 'constructor')
            if self.p(.12): cs.append(N('type_parameters', *[N('parameter_types', N('parameter_type', N('type_name', leaf('name', p)))) for p in self.r.sample(self.parameters or ['T', 'U', 'K'], self.r.choice([1, 2]))]))
        a = self.arg_list(d)
        if a: cs.append(a)
        if self.p(.85): cs.append(self.types_(d))
        return N('function', *cs, pre='function ' if toplevel else '')

    def block(self, d, anonymous=False, functions=None):
        f = self.w_('functions', .25) if functions is None else functions
        if anonymous: f = f / 3
        n = self.r.choice([0, 1, 1, 2, 3, 4]) if anonymous else self.r.choice([0, 1, 2, 3, 5])
        cs = [self.function(d) if self.p(f) else self.declaration(d) for _ in range(n)]
        if cs and self.p(.1) and cs[0].name == 'function' and 'identifier' in cs[0]:
            g = self.function(d)
            if 'identifier' in g: cs.append(N('function', cs[0]['identifier'], *[c for c in g.children if c.name not in ('identifier',)], **g.attr))
        return N('declarations_block', *self.distinct(cs))

    def interface(self, d):
        cs = [self.fresh()]
        if self.p(self.w_('params', .15)): cs.append(N('type_parameters', *[N('parameter_types', N('parameter_type', N('type_name', leaf('name', p)))) for p in self.r.sample(self.parameters or ['T', 'U', 'K', 'V'], self.r.choice([1, 2]))]))
        if self.p(self.w_('extends', .3)):
            bs = [N('type_name', leaf('name', self.r.choice(self.used[:-1] or ['Base']))) if self.p(.8) else self.generic(0) for _ in range(self.r.choice([1, 1, 2]))]
            cs.append(N('extends', *bs, kw=self.r.choice(['extends', 'extends', 'implements'])))
        cs.append(self.block(d))
        return N('interface', *cs, kw=self.r.choice(['interface'] * 4 + ['class']), export=self.p(.3))

    def type_alias(self, d):
        return N('type_alias', self.fresh(), *([N('type_parameters', N('parameter_types', N('parameter_type', N('type_name', leaf('name', (self.parameters or ['T'])[0])))))] if self.p(.1) else []), self.types_(d), export=self.p(.3))

    def enum(self):
        n = self.r.choice([1, 2, 3, 4])
        kind = self.r.choice(['none', 'int', 'mixed', 'mixed', 'any'])
        items = []
        names = self.r.sample([x for x in self.names if x not in ('None', 'True', 'name', 'value')], n)
        for i in range(n):
            v = [] if kind == 'none' or kind == 'mixed' and self.p(.4) else [self.literal()] if kind == 'any' else [N('literal', leaf('integer', str(i + 1)))] if kind == 'int' or self.p(.5) else [N('literal', leaf('string', f'"{i}"'))]
            items.append(N('item', leaf('identifier', names[i]), *v, q=self.r.choice(['', '', '"', "'"])))
        return N('enum', self.fresh(), *items, export=self.p(.3))

    def const(self, d, values=None):
        decl = N('declaration', leaf('qualifiers', ''), self.ident(), *([self.types_(d)] if self.p(.6) else []))
        x = self.r.random() if values is None else values
        if x < .6: return N('const', decl, self.literal())
        if x < .7: return N('const', decl, self.ident())
        return N('const', decl)

    def namespace(self, d):
        if self.p(.6):
            ints = self.p(.5)
            cs = [N('const', N('declaration', leaf('qualifiers', ''), leaf('identifier', n), *([self.types_(0)] if self.p(.5) else [])),
                    N('literal', leaf('integer', str(i))) if ints else self.literal()) for i, n in enumerate(self.r.sample([x for x in self.names if x not in ('None', 'True')], self.r.choice([0, 1, 2, 3])))]
            return N('virtual_enum', self.fresh(), *cs, export=self.p(.3))
        outer = self.used
        self.used = list(outer)
        name = self.fresh()
        cs = []
        for _ in range(self.r.choice([1, 2, 3])):
            k = self.choice([('const', 3), ('interface', 1), ('enum', 1), ('type_alias', 1), ('declaration', 1), ('function', 1)])
            cs.append({'const': lambda: self.const(d), 'interface': lambda: self.interface(d), 'enum': self.enum, 'type_alias': lambda: self.type_alias(d),
                       'declaration': lambda: self.declaration(d), 'function': lambda: self.function(d, True)}[k]())
            cs[-1].attr.pop('export', None)
        if self.p(.6): self.types = self.types + [x for x in self.used[len(outer):] if x != name.content]       # names of the inner scope are used outside, too
        self.used = outer + [name.content]
        kind = 'namespace' if any(c.name == 'function' for c in cs) else 'virtual_enum'
        return N(kind, name, *cs, export=False)

    def document(self, n, d):
        kinds = self.w.get('kinds') or [('interface', 5), ('type_alias', 2), ('enum', 1), ('namespace', 1), ('const', 1), ('function', 1)]
        cs = []
        for _ in range(n):
            k = self.choice(kinds)
            cs.append({'interface': lambda: self.interface(d), 'type_alias': lambda: self.type_alias(d), 'enum': self.enum, 'namespace': lambda: self.namespace(d),
                       'const': lambda: self.const(d), 'function': lambda: self.function(d, True)}[k]())
        return N('root', N('document', *cs))


# ---------------------------------------------------------------- running both
class Real:
    def __init__(self):
        import ts2pythonParser as P
        import DHParser.configuration as C
        self.P, self.C = P, C

    def convert(self, text, settings):
        for k, v in settings.items(): self.C.set_config_value('ts2python.' + k, v, allow_new_key=True)
        try:
            r, errors = self.P.full_pipeline(text, self.P.preprocessing.factory, self.P.parsing.factory, self.P.junctions, {'py'})['py']
        finally:
            for k, v in DEFAULTS.items(): self.C.set_config_value('ts2python.' + k, v, allow_new_key=True)
        r = r if isinstance(r, str) else ''
        m = re.search(r'##### BEGIN OF ts2python generated code\n(.*)##### END OF ts2python generated code', r, re.S)
        return (m.group(1) if m else r), [int(e.code) for e in errors], [str(e) for e in errors]


def cooked(text): return re.sub(r'\n\n\n+', '\n\n\n', re.sub(' +(?=\n)', '', '\n\n' + text + '\n\n')).strip('\n')


def spaces(rnd):
    k = rnd.random()
    if k < .6: return lambda: ' '
    if k < .7: return lambda: ''
    pool = [' ', '', '\n', '  ', ' /* c */ ', ' // c\n', '\t', ' /* { a: b; */ ', '\n/* x\n y */\n'] if k > .85 else [' ', '', '\n', '\n  ']
    return lambda: rnd.choice(pool)


# ---------------------------------------------------------------- projections: what of the module belongs to which property
class Unparsable(Exception): pass


def strip_marker(a):
    """(marker, inner type) of an annotation."""
    quoted = isinstance(a, ast.Constant) and isinstance(a.value, str)
    if quoted:
        try: a = ast.parse(a.value, mode='eval').body
        except SyntaxError: raise Unparsable(a.value)
    if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name):
        if a.value.id in ('NotRequired', 'Optional'): return a.value.id, a.slice
        if a.value.id == 'Union':
            es = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            rest = [e for e in es if not (isinstance(e, ast.Constant) and e.value is None)]
            return ('Union with None' if len(rest) < len(es) else ''), rest
    if isinstance(a, ast.BinOp):
        es = []
        def flat(x):
            if isinstance(x, ast.BinOp): flat(x.left); flat(x.right)
            else: es.append(x)
        flat(a)
        rest = [e for e in es if not (isinstance(e, ast.Constant) and e.value is None)]
        return ('Union with None' if len(rest) < len(es) else ''), rest
    return '', a


def dump(a): return [dump(x) for x in a] if isinstance(a, list) else ast.dump(a) if a is not None else None


def unquoted(a):
    class Q(ast.NodeTransformer):
        def visit_Subscript(self, n):
            if isinstance(n.value, ast.Name) and n.value.id == 'Literal': return n
            return self.generic_visit(n)
        def visit_Constant(self, n):
            if isinstance(n.value, str):
                try: return self.visit(ast.parse(n.value, mode='eval').body)
                except SyntaxError: return n
            return n
    import copy
    return [unquoted(x) for x in a] if isinstance(a, list) else Q().visit(copy.deepcopy(a)) if a is not None else None


def walk(body, path=()):
    """(path, statement) of all statements of classes and the module, in order."""
    for s in body:
        yield path, s
        if isinstance(s, ast.ClassDef): yield from walk(s.body, path + (s.name,))


def annotations(path, s):
    if isinstance(s, ast.AnnAssign): yield ('member', path, ast.dump(s.target)), s.annotation
    elif isinstance(s, ast.FunctionDef):
        for a in s.args.posonlyargs + s.args.args + ([s.args.vararg] if s.args.vararg else []):
            yield ('argument', path, s.name, a.arg), a.annotation
        yield ('result', path, s.name), s.returns
    elif isinstance(s, ast.Assign) and not (isinstance(s.value, ast.Call)):
        yield ('alias', path, dump(s.targets[0])), s.value


def names_of(a):
    return [x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(a) if isinstance(x, (ast.Name, ast.Attribute))]


def is_enum(c): return any(isinstance(b, ast.Name) and b.id in ('Enum', 'IntEnum') for b in c.bases)


def project(prop, text):
    try: tree = ast.parse(text)
    except (SyntaxError, ValueError) as e: raise Unparsable(str(e))
    out = []
    for path, s in walk(tree.body):
        if prop == 'K01':
            if isinstance(s, ast.AnnAssign):
                m, inner = strip_marker(s.annotation)
                out.append((path, dump(s.target), bool(m), m == 'NotRequired'))
        elif prop == 'K02':
            for k, a in annotations(path, s):
                if k[0] == 'member' and a is not None: a = strip_marker(a)[1]
                out.append(dump(unquoted(a)))
        elif prop == 'K03':
            if isinstance(s, (ast.ClassDef, ast.FunctionDef)): out.append(s.name)
            if isinstance(s, ast.FunctionDef): out += [a.arg for a in s.args.args] + ([s.args.vararg.arg] if s.args.vararg else [])
            if isinstance(s, ast.ClassDef): out += [n for b in s.bases for n in names_of(b)]
            if isinstance(s, (ast.AnnAssign, ast.Assign)): out.append(dump(s.target if isinstance(s, ast.AnnAssign) else s.targets[0]))
            for k, a in annotations(path, s):
                if a is not None: out.append(sorted(set(names_of(unquoted(a)))))
        elif prop == 'K05':
            if isinstance(s, ast.ClassDef) and all(isinstance(x, (ast.Assign, ast.Pass)) for x in s.body):
                out.append((path, s.name, [ast.dump(b) for b in s.bases], [ast.dump(k) for k in s.keywords], [ast.dump(x) for x in s.body]))
            elif isinstance(s, ast.AnnAssign) and s.value is not None: out.append((path, dump(s.target), dump(s.value)))
        elif prop == 'K06':
            if isinstance(s, ast.ClassDef):
                out.append((path, s.name, [dump(unquoted(b)) for b in s.bases], [ast.dump(k) for k in s.keywords], [ast.dump(d) for d in s.decorator_list]))
            elif isinstance(s, ast.AnnAssign): out.append((path, dump(s.target)))
            elif isinstance(s, ast.FunctionDef): out.append((path, s.name))
        elif prop == 'K07':
            if isinstance(s, ast.ClassDef): out.append((path, 'class', s.name))
            for k, a in annotations(path, s):
                if a is not None: out.append((path, k[0], names_of(a)))
        if prop == 'K04' and isinstance(s, ast.ClassDef): out.append((path, s.name, [ast.dump(k) for k in s.keywords]))
        if prop in ('K04', 'K08'):
            for k, a in annotations(path, s):
                if a is not None: out.append((k, sorted({x.value for x in ast.walk(a) if isinstance(x, ast.Constant) and isinstance(x.value, str)}), sorted(names_of(a))))
        if prop == 'K09':
            if isinstance(s, ast.FunctionDef):
                a = s.args
                out.append((path, s.name, [dump(d) for d in s.decorator_list], [x.arg for x in a.args], [dump(unquoted(x.annotation)) for x in a.args], [dump(d) for d in a.defaults],
                            a.vararg and (a.vararg.arg, dump(unquoted(a.vararg.annotation))), dump(unquoted(s.returns)), [dump(x) for x in s.body]))
    return out


FOCUS = {
    'K01': dict(kinds=[('interface', 6), ('type_alias', 1)], optional=.6, functions=.1, params=.05),
    'K02': dict(kinds=[('interface', 5), ('type_alias', 2)], optional=.15, functions=.2, union=3, literal=2.5, extends=.1),
    'K03': dict(kinds=[('interface', 5), ('enum', 1), ('const', 1), ('type_alias', 1), ('function', 1)], anon=.1),
    'K04': dict(kinds=[('interface', 5), ('type_alias', 2), ('enum', 1), ('namespace', 3), ('const', 1), ('function', 1)], anon=1.2),
    'K05': dict(kinds=[('enum', 5), ('namespace', 4), ('const', 2), ('interface', 1)], anon=.1),
    'K06': dict(kinds=[('interface', 8), ('namespace', 1)], extends=.6, params=.3, functions=.2),
    'K07': dict(anon=4, union=3),
    'K08': dict(kinds=[('interface', 6), ('type_alias', 2), ('enum', 1), ('function', 1), ('namespace', 1)], name=8, anon=.4),
    'K09': dict(kinds=[('interface', 4), ('function', 4), ('namespace', 1)], functions=.8),
    'G02': dict(anon=.8)}


def settings_for(rnd):
    if rnd.random() < .3: return dict(DEFAULTS)
    return {k: rnd.choice(v) for k, v in SETTINGS.items()}


def check_doc(prop, s, real, spec, inp):
    """inp: dict(seed, size, depth, settings)"""
    import random
    rnd = random.Random(inp['seed'])
    g = Gen(rnd, FOCUS[prop])
    tree = g.document(inp['size'], inp['depth'])
    text = show(tree, spaces(rnd)) + '\n\n'        # a single line would be taken for a file name
    ref = Reference(inp['settings'], spec)
    want = cooked(ref.render(tree))
    compare(prop, s, real, dict(inp, source=text), text, inp['settings'], want, ref.warnings)


def compare(prop, s, real, inp, text, settings, want, warnings):
    try: got, codes, msgs = real.convert(text, settings)
    except Exception as e:
        s.fail('exception', inp, want, f'{type(e).__name__}: {e}'); return
    if any(c >= 1000 for c in codes):
        if prop in os.environ.get('PYDV_STRICT', 'K02 K03').split(): s.fail('rejected', inp, want, '; '.join(m for m in msgs)[:600])
        return
    got = cooked(got)
    if os.environ.get('PYDV_EXACT') and got != want: s.fail('exact', inp, want, got); return
    if got == want: verdict = None
    else:
        try: w = project(prop, want)
        except Unparsable: return
        try: verdict = None if w == project(prop, got) else (first_difference(w, project(prop, got)))
        except Unparsable as e: verdict = (want, f'no Python code: {e}\n{got}')
    if verdict: s.fail('text', inp, f'{verdict[0]}', f'{verdict[1]}'); return
    if prop == 'K02' and (sum(c in (310, 320) for c in codes) > 0) != (warnings > 0): s.fail('warning', inp, f'{warnings} warnings', f'{msgs}')


def first_difference(a, b):
    for x, y in zip(a, b):
        if x != y: return x, y
    return a[len(b):len(b) + 1] or 'nothing more', b[len(a):len(a) + 1] or 'nothing more'


CRASHING = ('interface Crash<T> { x: { f(a: { b: number }): string; y?: number } | string }\n\n', dict(DEFAULTS, RenderAnonymous='functional'))


def other_names(rnd):
    """Two generators the documents of which do not refer to each other's definitions."""
    half = [x for x in TYPES if '.' not in x and x not in GENERIC and x not in ('Error', 'Array', 'RegExp', 'Uint32Array', 'Thenable', 'undefined', 'List', 'ReadonlyArray', 'int', 'Set')]
    rnd.shuffle(half)
    k = len(half) // 2
    w = FOCUS['K04']
    return (Gen(rnd, w, types=half[:k] + ['Array', 'Error'], generics=GENERIC + half[:1], parameters=['T', 'U']),
            Gen(rnd, w, types=half[k:] + ['RegExp'], generics=GENERIC + half[k:k + 1], parameters=['K', 'V']))


def lines_of(text): return [l for l in cooked(text).split('\n') if l.strip() and not re.match(r"\s*(\w+) = TypeVar\('\1'\)", l)]


def check_independent(s, real, spec, inp):
    """The rendering of a document that consists of two parts which do not refer to each other
    is the rendering of the first followed by the rendering of the second part; neither
    depends on previous conversions, even if they have been aborted."""
    import random
    rnd = random.Random(inp['seed'])
    g1, g2 = other_names(rnd)
    a, b = g1.document(inp['size'], inp['depth']), g2.document(1, inp['depth'])
    sp = spaces(rnd)
    ta, tb = show(a, sp) + '\n\n', show(b, sp) + '\n\n'
    ins = dict(inp, source=[ta, tb])
    try:
        rb, cb, _ = real.convert(tb, inp['settings'])
        ra, ca, _ = real.convert(ta, inp['settings'])
        if rnd.random() < .2:
            try: real.convert(*CRASHING)
            except Exception: pass
        rab, cab, _ = real.convert(ta + tb, inp['settings'])
        rb2, cb2, _ = real.convert(tb, inp['settings'])
    except Exception as e:
        s.fail('exception', ins, 'returns', f'{type(e).__name__}: {e}'); return
    if max(ca + cb + [0]) >= 1000: return
    strip = lambda t: re.sub(r'# Generated by.*|source_hash__.*', '', t)
    if strip(rb2) != strip(rb): s.fail('history', ins, rb, rb2); return
    w, g = lines_of(ra) + lines_of(rb), lines_of(rab)
    if w != g and len(set(names_defined(ra)) & set(names_defined(rb))) == 0:
        x = first_difference(w, g)
        s.fail('influence', ins, f'{x[0]!r} in: ' + rb[:400], f'{x[1]!r} in: ' + rab[-600:])


def names_defined(text): return re.findall(r'^(?:class |def )?(\w+)(?: =|:|\()', text, re.M)


DIFFERENT_SEEDS = r"""
import sys, json
sys.path.insert(0, sys.argv[1]); import common; common.setup(); import w_compiler
real = w_compiler.Real()
docs = json.load(sys.stdin)
out = []
for text, settings in docs:
    try: r = real.convert(text, settings); out.append([r[0], r[1]])
    except Exception as e: out.append(['', [type(e).__name__]])
sys.stderr = None
print('RESULT' + json.dumps(out))
"""


def check_repeated(s, real, inp):
    """Same documents, same settings, several processes with different hash seeds."""
    import random
    docs = []
    for seed in inp['seeds']:
        rnd = random.Random(seed)
        g = Gen(rnd, FOCUS['G02'])
        t = g.document(rnd.choice([1, 2, 4]), rnd.choice([1, 2, 3]))
        docs.append([show(t, spaces(rnd)) + '\n\n', settings_for(rnd)])
    ps = []
    for h in ['0', '1', '2', '3', '123', '4000000']:
        env = dict(os.environ, PYTHONHASHSEED=h)
        ps.append(subprocess.Popen([sys.executable, '-c', DIFFERENT_SEEDS, os.path.dirname(os.path.abspath(__file__))], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env))
    import threading
    outs = [None] * len(ps)
    def run(i): outs[i] = ps[i].communicate(json.dumps(docs))[0]
    ts = [threading.Thread(target=run, args=(i,)) for i in range(len(ps))]
    for t in ts: t.start()
    for t in ts: t.join()
    outs = [json.loads(o[o.index('RESULT') + 6:]) for o in outs if o and 'RESULT' in o]
    for i, (text, settings) in enumerate(docs):
        s.case(('g', text), [text, settings])
        rs = [o[i] for o in outs]
        for r in rs[1:]:
            if r != rs[0]: s.fail('hash seed', dict(seeds=[inp['seeds'][i]], source=text, settings=settings), rs[0][0], r[0]); break
        if outs:
            for k in range(2):
                try: g = real.convert(text, settings)[:2]
                except Exception as e: g = ('', [type(e).__name__])
                if list(g) != rs[0]: s.fail('repeated', dict(seeds=[inp['seeds'][i]], source=text, settings=settings), rs[0][0], g[0]); break


def search(prop, s):
    spec = common.load_spec('spec_compiler.py', ENV)
    real = Real()
    s.rule = 'distinct generated documents with settings'
    n = {'quick': 6000, 'thorough': 100000}[s.tier]
    i = 0
    while s.more() and s.cases < n:
        i += 1
        if prop == 'G02':
            check_repeated(s, real, dict(seeds=[s.rnd.randrange(1 << 40) for _ in range(60)]))
            if i >= {'quick': 6, 'thorough': 100}[s.tier]: break
            continue
        inp = dict(seed=s.rnd.randrange(1 << 40), size=min(1 + i // 40, s.rnd.choice([1, 1, 2, 3, 5])), depth=s.rnd.choice([0, 1, 1, 2, 2, 3]), settings=settings_for(s.rnd))
        s.case(inp['seed'], inp)
        if prop == 'K04' and i % 2: check_independent(s, real, spec, inp)
        else: check_doc(prop, s, real, spec, inp)


def replay(prop, inp, s):
    spec = common.load_spec('spec_compiler.py', ENV)
    inp_, inp = inp, {k: v for k, v in inp.items() if k != 'source'}
    if prop == 'G02': check_repeated(s, Real(), inp)
    elif prop == 'K04' and isinstance(inp_.get('source'), list): check_independent(s, Real(), spec, inp)
    else: check_doc(prop, s, Real(), spec, inp)
