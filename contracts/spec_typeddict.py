"""Executable specification of the TypedDict replacement (T01)."""


def spec_is_optional(t):
    """Is a member declared with annotation t optional?"""
    if is_notrequired(t):
        return True
    if is_union(t):
        return has_none(t)
    if not is_forward(t):
        return False
    s = forward_text(t)
    return s.startswith('Optional[') or s.startswith('NotRequired[') or s.endswith(' | None') \
        or (s.startswith('Union[') and s.endswith(', None]'))
