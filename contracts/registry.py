"""Which functions have to be proved for which property."""
from pydv.runner import Job

TRUSTED_COMMON = [
    'pydv (own verification-condition generator, self-tested by pydv/tests/selftest.py) and the SMT solvers z3/cvc5',
    'Python semantics as modelled by pydv: evaluation order, exceptions, str/list/dict/set operations; integers mathematical; no asynchronous exceptions, recursion limit or memory exhaustion',
    'callees outside /repo behave as their models in pydv/lib.py and contracts/ say',
]
VAL_TRUST = [
    'theory of annotations (typing.get_origin/get_args/get_type_hints/is_typeddict, enum members, class kinds) in contracts/world_types.py; cross-checked on concrete annotations by the witness search',
    'validated data is finite JSON-like data (dict/list/tuple/scalars/enum members), enum values and dictionary keys are hashable',
    'isinstance(value, class) has no side effects',
]


def V(label, prove, optional=True): return Job(label, 'contracts.validation', 'new_interp', prove, expect=('return', 'raise'), optional=optional)


VAL = [V('ts2python.json_validation.validate_type', 'prove_validate_type', False), V('ts2python.json_validation.validate_compound_type', 'prove_compound'),
       V('ts2python.json_validation.validate_TypedDict', 'prove_typeddict'), V('ts2python.json_validation.validate_uniform_sequence', 'prove_sequence')]

TC = [Job('ts2python.json_validation.type_check', 'contracts.typecheck', 'new_interp', 'prove_type_check',
          expect=('return', 'reject-argument', 'reject-result', 'func-raises', 'bind-error'))]

def TD(label, prove, expect): return Job('ts2python.typeddict_shim.' + label, 'contracts.typeddict', 'new_interp', prove, expect=expect)


TD_TRUST = ['type.__new__ creates a class with the given name, bases and name space entries; subclasses start without own annotations',
            'annotations are valid types (typing rejects others), forward references carry their text unchanged',
            'every member of a base is in exactly one of its key sets (the invariant proved for every type made by the meta-class)']
TD_NEW = TD('_TypedDictMeta.__new__', 'prove_new', ('created', 'refused'))

def SD(label, prove, expect): return Job('ts2python.singledispatch_shim.' + label, 'contracts.dispatch', 'new_interp', prove, expect=expect)


SD_TRUST = ['functools._find_impl yields the best match among the entries of the mapping it is given; without abstract classes among them the match does not depend on the ABC cache token',
            'abc.get_cache_token identifies the state of all registrations with abstract base classes',
            'typing.get_type_hints raises NameError iff a name of the annotation is undefined, and yields the annotation of the first parameter first',
            'annotations of implementations are classes or unions of classes once their names are defined; classes are hashable and differ from strings',
            'WeakKeyDictionary drops entries of unreferenced classes only', 'single-threaded use']
SD_JOBS = [SD('singledispatch', 'prove_init', ('created',)), SD('singledispatch.dispatch', 'prove_dispatch', ('chosen', 'undefined')),
           SD('singledispatch.wrapper', 'prove_call', ('chosen', 'undefined', 'no-argument')), SD('singledispatchmethod.__get__', 'prove_method', ('chosen', 'undefined', 'no-argument')),
           SD('singledispatch.register', 'prove_register', ('registered', 'postponed'))]

FI = lambda label, prove, expect: Job('ts2pythonParser.' + label, 'contracts.files', 'new_interp', prove, expect=expect)
FI_TRUST = ['DHParser.full_pipeline reads the source it is given (the file of that name, else the text itself), reports messages in a list and writes no file; the tree carries the text parsed',
            'the file system is not changed by others during a conversion; os.path functions depend on the names only; md5 is collision-free',
            'concurrent.futures runs every submitted job exactly once and hands its result over',
            'a source that names a file names an existing one that is not called like the message file; source texts are neither empty nor a possible file name',
            'a file contains source_hash__ only if it was generated by finalize(); base class names do not contain it']

MA = lambda label, prove, expect: Job('ts2pythonParser.' + label, 'contracts.main', 'new_interp', prove, expect=expect)
CONV = ("converted", "process_file", "batch_process", "inspect", "refused", "no conversion")
MA_TRUST = ['argparse delivers the options as declared by add_argument: nargs, action, const and default; -c, -b, -a, -d are given at most once',
            'DHParser presets: set_preset_value/read_local_config change them between access_presets and finalize_presets only, get_config_values fixes them for the converter',
            'the listed PEPs contain no surrounding blanks (they are stripped), version numbers have at most three components',
            'str.strip is an uninterpreted function, str.rfind finds the last occurrence']

def KT(*ns): return [Job('ts2pythonParser.ts2pythonCompiler.' + ('on_' if n in CONSTRUCTS else '') + n, 'contracts.compiler', 'new_interp', 'text_' + n, expect=('rendered',)) for n in ns]
def KS(*ns): return [Job('ts2pythonParser.ts2pythonCompiler.' + ('on_' if n in CONSTRUCTS else '') + n + ' (state)', 'contracts.compiler', 'new_interp', 'state_' + n, expect=('rendered',)) for n in ns]


CONSTRUCTS = ('function', 'virtual_enum', 'interface', 'type', 'types', 'array_types', 'parameter_types', 'array_type', 'parameter_type', 'identifier', 'name',
              'variable', 'type_name', 'basic_type', 'integer', 'number', 'string', 'key', 'boolean', 'array', 'object', 'association', 'literal', 'array_of',
              'type_tuple', 'mapped_type', 'map_signature', 'index_signature', 'func_type', 'generic_type', 'type_parameters', 'indexed_type', 'intersection',
              'declaration', 'enum', 'item', 'const', 'assignment', 'extends', 'declarations_block', 'type_alias', 'argument', 'arg_tail', 'arg_list',
              'document', 'module', 'Import', 'root', 'namespace')
def KA(*ns): return [Job('ts2pythonParser.ts2pythonCompiler.' + ('on_' if n in CONSTRUCTS else '') + n + ' (twice)', 'contracts.compiler', 'new_interp', 'again_' + n, expect=('rendered',)) for n in ns]
def KB(*ns): return [Job('ts2pythonParser.ts2pythonCompiler.' + ('on_' if n in CONSTRUCTS else '') + n + ' (text and state)', 'contracts.compiler', 'new_interp', 'both_' + n, expect=('rendered',)) for n in ns]
def UNION(judge): return [Job(f'ts2pythonParser.ts2pythonCompiler.on_types ({judge}, case {i + 1} of 16)', 'contracts.compiler', 'new_interp', f'{judge}_types_{i}', expect=('rendered',)) for i in (10, 11, 14, 9, 8, 15, 12, 13, 2, 6, 3, 7, 1, 0, 4, 5)]
AUX = ('is_toplevel', 'anonymous_name', 'render_local_classes', 'is_known_type', 'add_to_known_types', 'process_type_parameters', 'render_class_header')
CO_TRUST = ['the syntax tree has the shape the grammar and the tree transformation of /repo yield (table SHAPES in contracts/compiler.py; cross-checked on concrete documents by the witness search)',
            'DHParser.Compiler.compile dispatches on the node name to the method of that name; induction on the tree: in the proof of one method, the methods of its parts are under the contract proved for them',
            'defined_class, to_dict, on_comment__ are used with a contract that is cross-checked by the witness search (bounded), not proved; pick_name and mark_overloaded_functions are used with contracts that are proved under K07 and K09 (under K04 and G02: both)',
            'str.replace, str.strip, str.join are uninterpreted functions with pointwise congruence: code and specification agree whatever they mean']

QUOTE_TRUST = ['matching of regular expressions: what re.sub does depends on the pattern, the text and the replacements only; the pattern of compile_type_expression finds '
               'the names and the texts in quotes (quote_names, cross-checked by the witness search)',
               'sorted() with a key that tells all elements apart yields a sequence that depends on the set only']
RESET = MA('ts2pythonCompiler.reset (initial state)', 'prove_initial', ('reset', 'refused'))
KNOWN_TYPES = ('is_known_type', 'add_to_known_types', 'process_type_parameters', 'interface', 'type_alias', 'namespace', 'enum', 'type', 'declarations_block', 'document')
ANON = ('type', 'declaration', 'argument', 'interface', 'type_alias', 'namespace', 'function', 'virtual_enum', 'declarations_block')
DONE = ('virtual_enum', 'interface', 'function', 'types')

PICK = Job('ts2pythonParser.ts2pythonCompiler.pick_name', 'contracts.compiler', 'new_interp', 'prove_pick', expect=('picked', 'iterates'))
MARK = Job('ts2pythonParser.ts2pythonCompiler.mark_overloaded_functions', 'contracts.compiler', 'new_interp', 'prove_mark', expect=('marked', 'none', 'iterates'))
TYPENAME = Job('ts2pythonParser.to_typename', 'contracts.compiler', 'new_interp', 'prove_to_typename', expect=('named',))
K07_TRUST = ['defined_class yields the name of the (last) class on the outermost level of a sequence of class definitions, and an empty string for the rendering of anything else',
             'pick_name terminates because there are finitely many local classes']

PROPS = {
    'K01': dict(jobs=KT('declaration', 'render_class_header'), trusted=CO_TRUST),
    'K02': dict(jobs=UNION('text') + KT('array_of', 'type_tuple', 'mapped_type', 'map_signature', 'index_signature', 'func_type', 'arg_list', 'generic_type', 'type_parameters',
                        'indexed_type', 'intersection', 'type', 'basic_type', 'literal', 'integer', 'number', 'string', 'boolean', 'array', 'object', 'association',
                        'key', 'array_types', 'array_type', 'parameter_types', 'parameter_type'), trusted=CO_TRUST),
    'K03': dict(jobs=KT('identifier', 'name', 'variable', 'type_name', 'basic_type'), trusted=CO_TRUST),
    'K04': dict(jobs=[RESET, PICK, MARK] + KS('compile_type_expression', 'virtual_enum', 'interface', 'function') + UNION('state') + KS('type', 'declaration', 'namespace', 'type_alias', 'document', 'module', 'declarations_block',
                        'enum', 'item', 'const', 'assignment', 'extends', 'argument', 'arg_tail', 'arg_list', 'root', 'Import', 'array_of', 'type_tuple',
                        'mapped_type', 'map_signature', 'index_signature', 'func_type', 'generic_type', 'type_parameters', 'indexed_type', 'intersection',
                        'identifier', 'name', 'variable', 'type_name', 'basic_type', 'literal', 'array_types', 'array_type',
                        'parameter_types', 'parameter_type') + KS(*AUX), trusted=CO_TRUST),
    'K05': dict(jobs=KT('virtual_enum', 'enum', 'item', 'const', 'assignment', 'namespace', 'literal', 'integer', 'number', 'string', 'boolean'), trusted=CO_TRUST),
    'K06': dict(jobs=KT('interface', 'render_class_header', 'extends', 'declarations_block', 'type_alias', 'document', 'root', 'module', 'render_local_classes',
                        'process_type_parameters', 'is_toplevel'), trusted=CO_TRUST),
    'K09': dict(jobs=[MARK] + KT('function', 'argument', 'arg_tail', 'arg_list', 'process_type_parameters'), trusted=CO_TRUST),
    'K07': dict(jobs=UNION('both') + [PICK, TYPENAME] + KB(*ANON) + KT('render_local_classes', 'anonymous_name', 'render_class_header'),
                trusted=CO_TRUST + K07_TRUST),
    'K08': dict(jobs=KT('compile_type_expression') + UNION('text') + KT('declaration', 'argument', 'array_of', 'process_type_parameters') + KS('compile_type_expression')
                + KS(*KNOWN_TYPES) + [RESET], trusted=CO_TRUST + QUOTE_TRUST),
    'G02': dict(jobs=[PICK, MARK] + KA('virtual_enum', 'interface', 'function') + UNION('again') + KA('compile_type_expression', *[n for n in CONSTRUCTS + AUX if n not in DONE]) + [RESET],
                trusted=CO_TRUST + QUOTE_TRUST + ['the parser and the tree transformation of DHParser are deterministic; the time stamp in the header (finalize) is excluded']),
    'M01': dict(jobs=[MA('main (version of 1 part)', 'prove_main_1', CONV), MA('main (version of 2 parts)', 'prove_main_2', CONV), MA('main (version of 3 parts)', 'prove_main_3', CONV),
                      MA('ts2pythonCompiler.reset', 'prove_reset', ('reset', 'refused'))], trusted=MA_TRUST),
    'F01': dict(jobs=[FI('process_file', 'prove_writes', ('skipped', 'result', 'message', 'no-messages', 'same', 'fatal', 'file', 'text'))], trusted=FI_TRUST),
    'F02': dict(jobs=[FI('process_file', 'prove_skip', ('skipped', 'converted')), FI('source_hash', 'prove_hash', ('source', 'program', 'settings')),
                      FI('ts2pythonCompiler.finalize', 'prove_finalize', ('recorded',))], trusted=FI_TRUST),
    'F03': dict(jobs=[FI('batch_process', 'prove_batch', ('pool', 'submit'))], trusted=FI_TRUST),
    'D01': dict(jobs=SD_JOBS, trusted=SD_TRUST),
    'D02': dict(jobs=SD_JOBS, trusted=SD_TRUST),
    'T01': dict(jobs=[TD_NEW], trusted=TD_TRUST),
    'T02': dict(jobs=[TD('TypedDict', 'prove_functional', ('created', 'refused')), TD('is_typeddict', 'prove_is_typeddict', ('yes', 'no')),
                      TD('TypedDict (class syntax)', 'prove_class_syntax', ('closed',)), TD_NEW], trusted=TD_TRUST),
    'V01': dict(jobs=VAL, trusted=VAL_TRUST),
    'V02': dict(jobs=VAL, trusted=VAL_TRUST),
    'V03': dict(jobs=TC + VAL, trusted=VAL_TRUST + [
        'inspect.signature, Signature.bind and Signature.parameters behave as documented (arguments are bound to parameters iff Python could make the call)',
        'functools.wraps returns the wrapped function unchanged in behaviour']),
}

NOT_APPLICABLE = {
    'G01': 'The parser is generated by DHParser from the grammar and executed by the DHParser library: the only code in /repo is a table of parser '
           'objects. "Every documented construct is accepted" would need a specification of the accepted language independent of the grammar and a '
           'proof about a backtracking packrat parser in an external library; no contract on a function of /repo can express it.',
}
