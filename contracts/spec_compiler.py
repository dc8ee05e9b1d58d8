"""Executable specification of the rendering of TypeScript syntax-trees as Python code
(properties K01 to K08, G02): one function per construct.

Interpreted symbolically by the verifier, where `S.compile(child)` is the contract of
ts2pythonCompiler.compile; executed by CPython as a reference in the search for failing
inputs, where `S.compile` is the recursion over these functions.

S carries the settings and the scopes (see Reference in witness/w_compiler.py)."""

TD = 'TypedDict'


# documented substitutions of type names (docs/Mapping.rst and the LSP base types)
SUBSTITUTION = {'object': 'Dict', 'array': 'List', 'string': 'str', 'number': 'float', 'decimal': 'float',
                'integer': 'int', 'uinteger': 'int', 'boolean': 'bool', 'null': 'None', 'undefined': 'None',
                'unknown': 'Any', 'any': 'Any', 'void': 'None', 'Thenable': 'Coroutine',
                'IterableIterator': 'Iterator', 'Array': 'List', 'ReadonlyArray': 'List',
                'Uint32Array': 'List[int]', 'Error': 'Exception', 'RegExp': 'str'}


# ---------------------------------------------------------------- names (K03)
def py_name(name):
    return name + '_' if name in KEYWORDS else name


def spec_identifier(S, nd):
    return py_name(nd.content)


def spec_name(S, nd):
    return '.'.join(py_name(part) for part in nd.content.split('.'))


def spec_variable(S, nd):
    return S.compile(nd['name'])


def spec_type_name(S, nd):
    name = S.compile(nd['name'])
    return SUBSTITUTION.get(name, name)


def spec_basic_type(S, nd):
    return SUBSTITUTION[nd.content]


def type_name(name):
    return name[0].upper() + name[1:] + '_'


# ---------------------------------------------------------------- scopes
def spec_is_known(S, name):
    return any(name in scope for scope in S.known_types)


def spec_add_known(S, nd, name, kind):
    if kind != '?' and name in S.known_types[-1]:
        S.warning(nd)
    S.known_types[-1][name] = kind


def spec_anonymous_name(S):
    if S.base_class_name == TD and S.render_anonymous == 'toplevel':
        return '_'.join(S.obj_name[1:]) or S.obj_name[-1]
    return S.obj_name[-1]


def spec_process_type_parameters(S, nd):
    """The parameters in brackets, the definitions of those that are not known yet."""
    if 'type_parameters' not in nd:
        return '', ''
    names = [p.strip("'") for p in S.compile(nd['type_parameters']).split(', ')]
    definitions = [p + " = TypeVar('" + p + "')\n" for p in names if not S.is_known_type(p)]
    for p in names:
        S.add_to_known_types(nd, p, '?')
    return '[' + ', '.join(names) + ']', ''.join(definitions)


# ---------------------------------------------------------------- values
def spec_integer(S, nd): return nd.content
def spec_number(S, nd): return nd.content
def spec_string(S, nd): return nd.content
def spec_key(S, nd): return nd.content
def spec_boolean(S, nd): return 'True' if nd.content == 'true' else 'False'


def spec_array(S, nd):
    return '[' + ', '.join(S.compile(c) for c in nd.children) + ']'


def spec_object(S, nd):
    return '{\n    ' + ',\n    '.join(S.compile(c) for c in nd.children) + '\n}'


def spec_association(S, nd):
    return '"' + S.compile(nd['key']) + '": ' + S.compile(nd['literal'])


def spec_literal(S, nd):
    return S.compile(nd[0])


# ---------------------------------------------------------------- types (K02)
def spec_array_of(S, nd):
    return 'List[' + S.quoted(nd, nd[0]) + ']'


def spec_quoted(S, nd, type_nd):
    """The rendering of a type; the names in it that are not known yet are put in quotes (K08),
    in a fixed order (G02). The rendering of a class is left as it is."""
    names = {S.compile(t['name']) for t in nd.select('type_name') if t.content not in SUBSTITUTION}
    unknown = sorted((n for n in names if not S.is_known_type(n)), key=lambda n: (-len(n), n))
    text = S.compile(type_nd)
    if class_name(text):
        return text
    if unknown:
        text = quote_names(text, unknown)
    if text[:1] == "'":
        return "'" + text.replace("'", '') + "'"
    return text


def spec_type_tuple(S, nd):
    return 'Tuple[' + ', '.join(S.compile(c) for c in nd.children) + ']'


def spec_mapped_type(S, nd):
    return S.compile(nd['map_signature'])


def spec_map_signature(S, nd):
    key = S.compile(nd['index_signature'])
    return 'Dict[' + key + ', ' + S.compile(nd['types']) + ']'


def spec_index_signature(S, nd):
    if 'keyof' in nd:
        S.warning(nd)
        key = 'Any'
    else:
        key = S.compile(nd['type'])
    return 'Optional[' + key + ']' if 'optional' in nd else key


def spec_func_type(S, nd):
    args = S.compile(nd['arg_list']) if 'arg_list' in nd else ''
    result = S.compile(nd['types'])
    return 'Callable[' + ('...' if args == '...' else '[' + args + ']') + ', ' + result + ']'


def spec_generic_type(S, nd):
    base = S.compile(nd['type_name'])
    parameters = S.compile(nd['type_parameters'])
    return base if parameters == 'None' else base + '[' + parameters + ']'


def spec_type_parameters(S, nd):
    return ', '.join(S.compile(c) for c in nd.children)


def spec_indexed_type(S, nd):
    S.warning(nd)
    return 'Any'


def spec_intersection(S, nd):
    S.warning(nd)
    return 'Any'


def without_number(name):
    """Cuts a trailing "_" or "_" with a number off."""
    at = name.rfind('_')
    ending = name[at + 1:]
    if at >= 0 and (ending == '' or ending.isdecimal()):
        return name[:at]
    return name


def spec_types(S, nd):
    outer = S.obj_name[-1]
    function = S.func_name
    stub = function[:1].upper() + function[1:] + without_number(outer)
    union = []
    flags = []
    k = 0
    for alternative in nd.children:
        k = S.pick_name(stub, k)
        S.func_name = ''
        text = S.quoted(nd, alternative)
        S.func_name = function
        if class_name(text):
            S.local_classes[-1].append(text)
            text = class_name(text)
        flag = S.use_literal_type and alternative[0].name == 'literal'
        if (text, flag) not in list(zip(union, flags)):
            union.append(text)
            flags.append(flag)
            k = k + 1
    S.obj_name[-1] = outer
    return spec_alternatives(S, union, flags)


def spec_alternatives(S, union, flags):
    """The alternatives of a union; successive literals are put into one Literal[...]."""
    if not any(flags):
        return spec_union(S, union)
    if all(flags):
        return 'Literal[' + ', '.join(union) + ']'
    parts = []
    literals = []
    for text, flag in zip(union, flags):
        if flag:
            literals.append(text)
        else:
            if literals:
                parts.append('Literal[' + ', '.join(literals) + ']')
            literals = []
            parts.append(text)
    if literals:
        parts.append('Literal[' + ', '.join(literals) + ']')
    return spec_union(S, parts)


def spec_union(S, parts):
    if not S.use_type_union and len(parts) > 1:
        return 'Union[' + ', '.join(parts) + ']'
    if any(text[:1] == "'" or text[:1] == '"' for text in parts):
        return "'" + ' | '.join(without_quotes(text) for text in parts) + "'"
    return ' | '.join(parts)


def spec_type(S, nd):
    what = nd[0]
    if what.name == 'declarations_block' or what.name == 'declarations_tuple':
        S.local_classes.append([])
        S.optional_keys.append([])
        S.known_types.append({})
        declarations = S.compile(what)
        text = spec_anonymous_interface(S, declarations)
        S.known_types.pop()
        S.optional_keys.pop()
        S.local_classes.pop()
        return text
    if what.name == 'literal' and not S.use_literal_type:
        kind = what[0].name
        if kind == 'array':
            return 'List'
        if kind == 'object':
            return 'Dict'
        if kind == 'integer':
            return 'int'
        if kind == 'number':
            return 'float'
        if kind == 'boolean':
            return 'bool'
        return 'str'
    return S.compile(what)


def spec_anonymous_interface(S, declarations):
    if S.base_class_name != TD or S.render_anonymous == 'local':
        header = spec_header(S, S.anonymous_name(), '', False)
        return header + '    ' + indented(S.render_local_classes()) + indented(declarations)
    if S.render_anonymous == 'toplevel':
        classes = S.render_local_classes()
        return classes + spec_header(S, S.anonymous_name(), '', False) + '    ' + indented(declarations)
    if S.render_anonymous == 'functional':
        return 'TypedDict("' + S.obj_name[-1] + '", ' + as_dict(declarations) + ')'
    return 'TypedDict[' + as_dict(declarations) + ']'


def indented(text):
    return text.replace('\n', '\n    ')


# ---------------------------------------------------------------- members (K01)
def spec_declaration(S, nd):
    name = S.compile(nd['identifier'])
    S.obj_name.append(type_name_of(name))
    text = S.quoted(nd, nd['types']) if 'types' in nd else 'Any'
    S.obj_name.pop()
    if 'optional' in nd:
        S.optional_keys[-1].append(name)
        if S.use_not_required:
            text = 'NotRequired[' + text + ']'
        else:
            text = spec_optional(text, 'types' in nd and any(is_none(c) for c in nd['types'].children))
    preface = ''
    if S.is_toplevel() and S.local_classes[-1]:
        preface = S.render_local_classes()
        S.local_classes[-1] = []
    return preface + name + ': ' + text


def is_none(nd):
    return SUBSTITUTION.get(nd.content, '') == 'None'


def spec_optional(text, nullable):
    """The type with None as an additional alternative, if it does not have it already."""
    if text.startswith('Union['):
        return text if nullable else text[:-1] + ', None]'
    if '|' in text:
        if nullable:
            return text
        if text[:1] == "'" or text[:1] == '"':
            return text[:-1] + ' | None' + text[:1]
        return text + ' | None'
    return 'Optional[' + text + ']'


# ---------------------------------------------------------------- enums (K05)
def spec_enum(S, nd):
    base = ''
    if S.use_enums:
        ints = all(item['literal'][0].name == 'integer' for item in nd.children[1:]
                   if item.name == 'item' and 'literal' in item)
        base = '(IntEnum)' if ints else '(Enum)'
    name = S.compile(nd['identifier'])
    S.add_to_known_types(nd, name, 'enum')
    lines = ['class ' + name + base + ':'] + [S.compile(item) for item in nd.children[1:] if item.name == 'item']
    return '\n    '.join(lines)


def spec_item(S, nd):
    name = S.compile(nd[0])
    if 'literal' in nd:
        return name + ' = ' + S.compile(nd['literal'])
    return name + ' = ' + ('enum.auto()' if S.use_enums else repr(name))


def spec_const(S, nd):
    target = nd['declaration']['identifier'] if S.strip_type_from_const else nd['declaration']
    if 'literal' in nd:
        text = S.compile(target)
        return text + ' = ' + S.compile(nd['literal'])
    if 'identifier' in nd:
        text = S.compile(target)
        return text + ' = ' + S.compile(nd['identifier'])
    return S.compile(nd['declaration'])


def spec_assignment(S, nd):
    return S.compile(nd['variable']) + ' = ' + S.compile(nd[1])


# ---------------------------------------------------------------- interfaces (K06)
def spec_header(S, name, bases, plain):
    """The header of a class. plain: the configured base class must not be added."""
    base = '' if plain else S.base_class_name.strip()
    if base == TD:
        if bases and 'Generic[' in bases and not S.use_variadic_generics:
            base = 'GenericTypedDict'
        if not S.use_not_required:
            base = base + ', total=' + ('False' if S.optional_keys[-1] else 'True')
    if bases and base:
        bases = bases + ', '
    if bases or base:
        return S.class_decorator + 'class ' + name + '(' + bases + base + '):\n'
    return S.class_decorator + 'class ' + name + ':\n'


def spec_extends(S, nd):
    return ', '.join(spec_base(S, c) for c in nd.children)


def spec_base(S, nd):
    name = S.compile(nd)
    return SUBSTITUTION.get(name, name)


def spec_interface(S, nd):
    name = S.compile(nd['identifier'])
    S.obj_name.append(name)
    S.scope_type.append('interface')
    S.local_classes.append([])
    S.optional_keys.append([])
    parameters, preface = S.process_type_parameters(nd)
    if S.use_type_parameters:
        preface = ''
    preface = preface + '\n' + nd.get_attr('preface', '')
    S.known_types.append({})
    methods = 'function' in nd['declarations_block']
    plain = methods
    base_list = []
    bases = ''
    if 'extends' in nd:
        base_list = [spec_base(S, c) for c in nd['extends'].children]
        bases = ', '.join(base_list)
        if any(b not in S.typed_dicts for b in base_list):
            plain = True
        if S.local_classes[-1]:
            preface = preface + S.render_local_classes() + '\n'
            S.local_classes[-1] = []
        if parameters and not S.use_variadic_generics:
            bases = bases + ', Generic' + parameters
    elif parameters and (methods or not S.use_variadic_generics):
        bases = 'Generic' + parameters
    if not plain:
        S.typed_dicts.add(name)
    members = S.compile(nd['declarations_block'])
    text = spec_header(S, name, bases, plain)
    S.base_classes[name] = base_list
    if S.base_class_name == TD and S.render_anonymous == 'toplevel':
        text = S.render_local_classes() + '\n' + text
    else:
        text = text + ('    ' + indented(S.render_local_classes())).rstrip(' ')
    S.optional_keys.pop()
    S.local_classes.pop()
    S.known_types.pop()
    S.add_to_known_types(nd, name, 'interface')
    S.scope_type.pop()
    S.obj_name.pop()
    return preface + text + '    ' + indented(members)


def spec_declarations_block(S, nd):
    S.mark_overloaded_functions(nd)
    members = [S.compile(c) for c in nd.children if c.name == 'declaration' or c.name == 'function' or c.name == 'comment__']
    text = '\n'.join(m for m in members if m)
    return text if text else 'pass'


def spec_type_alias(S, nd):
    alias = S.compile(nd['identifier'])
    if all(t[0].name == 'basic_type' or t[0].name == 'literal' for t in nd.select('type')):
        S.basic_type_aliases.add(alias)
    S.obj_name.append(alias)
    text = ''
    if alias not in S.overloaded_type_names:
        parameters, preface = S.process_type_parameters(nd)
        hidden = S.known_types[-1].get(alias, '') in ('namespace', 'enum', 'virtual_enum')
        S.local_classes.append([])
        S.optional_keys.append([])
        types = S.compile(nd['types'])
        text = preface + S.render_local_classes() + alias + ' = ' + types
        S.optional_keys.pop()
        S.local_classes.pop()
        if hidden:
            text = '# commented out, because there is already an enumeration with the same name\n# ' + text.replace('\n', '\n# ')
        else:
            S.add_to_known_types(nd, alias, 'type_alias')
    if 'comment__' in nd:
        text = text + '\n\n' + S.compile(nd['comment__'])
    S.obj_name.pop()
    return text


# ---------------------------------------------------------------- functions (K09)
def spec_argument(S, nd):
    name = S.compile(nd['identifier'])
    if 'types' not in nd:
        return name + ' = None' if 'optional' in nd else name
    S.obj_name.append(type_name_of(name))
    text = S.quoted(nd, nd['types'])
    S.obj_name.pop()
    if 'optional' in nd:
        return name + ': Optional[' + text + '] = None'
    return name + ': ' + text


def spec_arg_tail(S, nd):
    name = S.compile(nd['identifier'])
    if 'array_of' in nd:
        S.obj_name.append(type_name_of(name))
        text = S.compile(nd['array_of'])
        S.obj_name.pop()
        return '*' + name + ': ' + text[5:-1]     # List[T] -> T
    return '*' + name


def spec_arg_list(S, nd):
    arguments = [S.compile(c) for c in nd.children]
    if not S.in_function_type():
        return ', '.join(arguments)
    if any(c.name == 'arg_tail' or 'optional' in c for c in nd.children):
        return '...'
    return ', '.join(type_of_argument(S, c, a) for c, a in zip(nd.children, arguments))


def type_of_argument(S, nd, argument):
    return argument[len(S.compile(nd['identifier'])) + 2:] if 'types' in nd else 'Any'


def spec_function(S, nd):
    outer = S.func_name
    method = S.scope_type[-1] == 'interface'
    name = '__call__'
    if 'identifier' in nd:
        name = S.compile(nd['identifier'])
        S.func_name = name
    constructor = method and name == 'constructor'
    if constructor:
        name = S.obj_name[-1] + 'Constructor'
    parameters, preface = S.process_type_parameters(nd)
    if S.use_type_parameters:
        preface = ''
    else:
        parameters = ''
    arguments = ''
    if 'arg_list' in nd:
        arguments = S.compile(nd['arg_list'])
        if method:
            arguments = 'self, ' + arguments
    elif method:
        arguments = 'self'
    result = S.compile(nd['types']) if 'types' in nd else 'Any'
    decorator = nd.get_attr('decorator', '')
    if decorator == '':
        text = preface + 'def ' + name + parameters + '(' + arguments + ') -> ' + result + ':\n    pass'
    else:
        text = ''
        if decorator == '@singledispatch' or decorator == '@singledispatchmethod':
            text = preface + decorator + '\ndef ' + name + parameters + \
                ('(self, arg1)' if decorator == '@singledispatchmethod' else '(arg1)') + ' -> ' + result + \
                ":\n    raise TypeError(f'First argument {arg1} of single-dispatch function/method {name} has illegal type {type(arg1)}')\n\n"
            decorator = '@' + name + '.register'
        else:
            text = preface
        text = text + decorator + '\ndef _' + parameters + '(' + arguments + ') -> ' + result + ':\n    pass'
    if constructor:
        S.add_to_preface('\n' + text + '\n')
        S.func_name = outer
        return ''
    classes = ''
    if S.is_toplevel():
        classes = S.render_local_classes()
        S.local_classes[-1] = []
    S.func_name = outer
    return classes + '\n' + text


# ---------------------------------------------------------------- documents
def spec_root(S, nd):
    return '\n\n'.join(S.compile(c) for c in nd.children)


def spec_document(S, nd):
    S.mark_overloaded_functions(nd)
    return '\n\n'.join(S.compile(c) for c in nd.children if c.name != 'declaration')


def spec_module(S, nd):
    return S.compile(nd['document'])


def spec_Import(S, nd):
    return ''


def spec_namespace(S, nd):
    name = S.compile(nd['identifier'])
    S.add_to_known_types(nd, name, 'namespace')
    S.mark_overloaded_functions(nd)
    S.obj_name.append(name)
    S.scope_type.append('namespace')
    S.local_classes.append([])
    S.optional_keys.append([])
    S.known_types.append({})
    S.mark_overloaded_functions(nd)
    first = S.compile(nd.children[1])
    lines = [indented(first.lstrip('\n'))] + [indented(S.compile(c)) for c in nd.children[2:]]
    classes = indented(S.render_local_classes())
    if classes:
        lines = [classes] + lines
    S.known_types.pop()
    S.local_classes.pop()
    S.optional_keys.pop()
    S.scope_type.pop()
    S.obj_name.pop()
    return '\n    '.join(['class ' + name + ':'] + lines)


def spec_virtual_enum(S, nd):
    name = S.compile(nd['identifier'])
    if S.known_types[-1].get(name, '') == 'type_alias':
        S.known_types[-1][name] = 'virtual_enum'
    else:
        S.add_to_known_types(nd, name, 'virtual_enum')
    outer = S.strip_type_from_const
    constants = all(c.name == 'const' or c.name == 'comment__' for c in nd.children[1:])
    if constants:
        S.strip_type_from_const = True
    S.obj_name.append(name)
    S.local_classes.append([])
    S.optional_keys.append([])
    S.known_types.append({})
    lines = [indented(S.compile(c).lstrip('\n')) for c in nd.children[1:]]
    if constants:
        ints = all(c['literal'][0].name == 'integer' for c in nd.children[1:] if c.name == 'const' and 'literal' in c)
        header = 'class ' + name + ('(IntEnum):' if ints else '(Enum):')
    else:
        header = spec_header(S, name, '', False)[:-1]
    if not lines:
        lines = ['pass']
    classes = S.render_local_classes().rstrip('\n')
    if classes:
        lines = [indented(classes)] + lines
    S.known_types.pop()
    S.optional_keys.pop()
    S.local_classes.pop()
    S.obj_name.pop()
    S.strip_type_from_const = outer
    return '\n    '.join([header] + lines)
