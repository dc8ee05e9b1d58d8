"""Executable specification of validation (properties V01, V03).

Interpreted symbolically by the verifier and executed by CPython in the witness search.
Primitive observations of annotations and data (`kind`, `args_of`, ...) are provided by
the environment: by the theory of annotations in the verifier, by `typing` in CPython."""


def spec_conforms(v, t):
    """One unfolding of the predicate `conforms`."""
    k = kind(t)
    if k == ANY or k == TYPEVAR:
        return True
    if k == NONE:
        return v is None
    if k == TD:
        return isinstance(v, dict) and spec_typeddict(v, t)
    if k == TDALIAS:
        return conforms(v, origin_of(t))
    if k == CLASS:
        return isinstance(v, t) or (t is float and isinstance(v, int) and not isinstance(v, bool))
    if k == ENUM:
        return isinstance(v, t) or any(v == x for x in enum_values(t))
    if k == LITERAL:
        return any(v == x for x in literal_values(t))
    if k == UNION:
        return any(conforms(v, a) for a in args_of(t))
    if k == LIST:
        return isinstance(v, list) and all(conforms(x, arg_of(t, 0)) for x in v)
    if k == DICT:
        return isinstance(v, dict) and all(conforms(x, arg_of(t, 0)) for x in v.keys()) \
            and all(conforms(x, arg_of(t, 1)) for x in v.values())
    if k == TUPVAR:
        return isinstance(v, (list, tuple)) and all(conforms(x, arg_of(t, 0)) for x in v)
    if k == TUPFIX:
        return isinstance(v, (list, tuple)) and len(v) == len(args_of(t)) \
            and all(conforms(x, a) for x, a in zip(v, args_of(t)))
    return False


def spec_typeddict(v, t):
    required, optional = required_keys(t), optional_keys(t)
    if required - v.keys():
        return False
    if v.keys() - (required | optional):
        return False
    return all(conforms(v[f], ft) for f, ft in hints_of(t).items() if f in v)


def spec_sequence(seq, t):
    return all(conforms(x, t) for x in seq)


def declared_type(name, hint):
    """Type of the value that is bound to a parameter annotated with hint."""
    if is_var_positional(name):
        return tuple_of(hint)
    if is_var_keyword(name):
        return dict_of(hint)
    return hint


def spec_accepts_call(bound, hints):
    """Arguments that were passed for annotated parameters must conform."""
    return all(conforms(bound[name], declared_type(name, hint)) for name, hint in hints.items()
               if name != 'return' and name in bound)
