From 82b290872a58165b953aa06e902886966d115fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:20 +0000
Subject: [PATCH 01/41] fix: validate element types of compound-typed TypedDict
 fields

resolve_forward_refs() reduced List[int], Dict[str, int] etc. to their bare
origin class, so that the elements of such fields were never validated, and
stored the reduced type in the __annotations__ of the TypedDict.
---
 ts2python/json_validation.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index fe142a2..0ccc760 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -56,13 +56,7 @@ def strdata(data: Any) -> str:
 
 
 def resolve_forward_refs(T: type, Ur_T: type = None,) -> type:
-    """Resolves all forward references found in T."""
-    if isinstance(T, _GenericAlias):
-        O = get_origin(T)
-        if inspect.isclass(O):
-            return O
-        else:
-            T = O[get_args(T)]
+    """Resolves T if T is a forward reference. Returns T unchanged, otherwise."""
     if isinstance(T, ForwardRef):
         if Ur_T is None:  Ur_T = T
         if sys.version_info >= (3, 9, 0):
@@ -70,12 +64,6 @@ def resolve_forward_refs(T: type, Ur_T: type = None,) -> type:
                             recursive_guard=set())
         else:
             T = T._evaluate(globals(), sys.modules[Ur_T.__module__].__dict__)
-        # T = resolve_forward_refs(T, Ur_T)
-        return T
-    elif str(T).find('ForwardRef') >= 0:
-        if Ur_T is None:  Ur_T = T
-        T.__args__ = tuple(resolve_forward_refs(arg, Ur_T)
-                           for arg in get_args(T))
     return T
 
 
@@ -247,10 +235,7 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
     for field, field_type in get_type_hints(T).items():
         if field not in D:
             continue
-        resolved_field_type = resolve_forward_refs(field_type, T)
-        if resolved_field_type != field_type:
-            field_type = resolved_field_type
-            T.__annotations__[field] = field_type
+        field_type = resolve_forward_refs(field_type, T)
         if is_TypedDictClass(field_type):
             value = D[field]
             if isinstance(value, Dict):
-- 
2.43.0


From db0b4d144db721c64829217990891249fb0e098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 02/41] fix: validate unions, enums, Any and type variables at
 every nesting level

Union[...], int | str, Any and TypeVars were only understood when they were
the immediate type of a TypedDict field (int | str and Any not even there);
as the type itself or inside List[...], Dict[...] etc. they raised errors on
valid data. Enum members inside sequences and unions were rejected.
---
 ts2python/json_validation.py | 62 +++++++++++++++---------------------
 1 file changed, 26 insertions(+), 36 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 0ccc760..9dcdcf2 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -43,6 +43,11 @@ except (ImportError, ModuleNotFoundError):
         from .typeddict_shim import TypedDict, _TypedDictMeta, get_origin, \
             get_args, ForwardRef, _GenericAlias, is_typeddict, NotRequired
 
+if sys.version_info >= (3, 10):
+    from types import UnionType
+else:
+    UnionType = Union
+
 if sys.version_info >= (3, 11):
     from typing import _GenericAlias, TypedDict, _TypedDictMeta, get_origin, get_args, ForwardRef
 
@@ -112,7 +117,10 @@ def validate_type(val: Any, typ):
         validate_TypedDict(val, typ)
     elif hasattr(typ, '__args__'):
         validate_compound_type(val, typ)
+    elif typ is Any or isinstance(typ, TypeVar):
+        pass
     else:
+        if typ is None:  typ = type(None)
         if not isinstance(val, typ):
             if issubclass(typ, Enum):  #  and isinstance(val, (int, str)):
                 validate_enum(val, typ)
@@ -136,18 +144,8 @@ def validate_uniform_sequence(sequence: Iterable, item_type):
 
     """
     # assert not isinstance(item_type, str), f'Unresolved type name or forward reference for {item_type}!'
-    if is_TypedDictClass(item_type):
-        for val in sequence:
-            if not isinstance(val, Dict):
-                raise TypeError(f"{val} is not of type {item_type}")
-            validate_TypedDict(val, item_type)
-    elif hasattr(item_type, '__args__'):
-        for val in sequence:
-            validate_compound_type(val, item_type)
-    else:
-        for val in sequence:
-            if not isinstance(val, item_type):
-                raise TypeError(f"{val} is not of type {item_type}")
+    for val in sequence:
+        validate_type(val, item_type)
 
 
 def validate_compound_type(value: Any, T):
@@ -175,6 +173,15 @@ def validate_compound_type(value: Any, T):
     if OT is Literal:
         if value not in get_args(T):
             raise TypeError(f"{value} is not of type {T}")
+    elif OT in (Union, UnionType):
+        for union_typ in get_args(T):
+            try:
+                validate_type(value, union_typ)
+                break
+            except (TypeError, ValueError):
+                pass
+        else:
+            raise TypeError(f"{value} is not of type {T}")
     elif isinstance(value, OT):
         if isinstance(value, Dict):
             assert len(T.__args__) == 2, str(T)
@@ -243,38 +250,21 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
             else:
                 type_errors.append(f"Field {field}: '{strdata(D[field])}' is not of {field_type}, "
                                    f"but of type {type(D[field])}")
-        elif get_origin(field_type) is Union:
-            value = D[field]
-            for union_typ in field_type.__args__:
+        elif get_origin(field_type) in (Union, UnionType):
+            for union_typ in get_args(field_type):
                 union_typ = resolve_forward_refs(union_typ, T)
-                if isinstance(union_typ, ForwardRef):
-                    if sys.version_info >= (3, 9):
-                        union_typ = union_typ._evaluate(globals(), sys.modules[T.__module__].__dict__,
-                                                        recursive_guard=set())
-                    else:
-                        union_typ = union_typ._evaluate(globals(), sys.modules[T.__module__].__dict__)
-                if is_TypedDictClass(union_typ):
-                    if isinstance(value, Dict):
-                        try:
-                            validate_TypedDict(value, union_typ)
-                            break
-                        except TypeError:
-                            pass
-                elif hasattr(union_typ, '__args__'):
-                    try:
-                        validate_compound_type(value, union_typ)
-                        break
-                    except TypeError:
-                        pass
-                elif isinstance(value, union_typ):
+                try:
+                    validate_type(D[field], union_typ)
                     break
+                except (TypeError, ValueError):
+                    pass
             else:
                 # TODO: bugfix?
                 type_errors.append(f"Field {field}: '{strdata(D[field])}' is not any of "
                                    f"{field_type}, but of type {type(D[field])}")
         elif hasattr(field_type, '__args__'):
             validate_compound_type(D[field], field_type)
-        elif isinstance(field_type, TypeVar):
+        elif field_type is Any or isinstance(field_type, TypeVar):
             pass  # for now
         elif not isinstance(D[field], field_type):
             if issubclass(field_type, Enum):
-- 
2.43.0


From 12eb1e079e93c61ddc36ea42d36153ef1f1ff436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 03/41] fix: do not store the value-set of an enum in the
 enum-class

The set was inherited by enums derived from an (empty) enum, so that the
verdict on the derived enum depended on whether its base had been used before.
---
 ts2python/json_validation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 9dcdcf2..4a3e650 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -75,9 +75,7 @@ def resolve_forward_refs(T: type, Ur_T: type = None,) -> type:
 def validate_enum(val: Any, typ: Enum):
     # if not any(member.value == val for member in typ.__members__.values()):
     #     raise ValueError(f"{val} is not contained in enum {typ}")
-    if not hasattr(typ, '__value_set__'):
-        typ.__value_set__ = {member.value for member in typ.__members__.values()}
-    if val not in typ.__value_set__:
+    if val not in {member.value for member in typ.__members__.values()}:
         raise ValueError(f"{val} is not contained in enum {typ}")
 
 
-- 
2.43.0


From 7f5d88f4aafaa1489b865da27ac68cc74abfd644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 04/41] fix: accept integers where the type is float
 (TypeScript: number)

---
 ts2python/json_validation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 4a3e650..0a230e5 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -79,6 +79,13 @@ def validate_enum(val: Any, typ: Enum):
         raise ValueError(f"{val} is not contained in enum {typ}")
 
 
+def is_instance(val: Any, typ) -> bool:
+    """True, if val is an instance of class typ. Since JSON does not distinguish
+    integers and floats, integers are considered as floats, too."""
+    return isinstance(val, typ) \
+        or (typ is float and isinstance(val, int) and not isinstance(val, bool))
+
+
 def is_TypedDictClass(typ) -> bool:
     """True, if typ is an instance of _TypedDictMeta."""
     return is_typeddict(typ)
@@ -119,7 +126,7 @@ def validate_type(val: Any, typ):
         pass
     else:
         if typ is None:  typ = type(None)
-        if not isinstance(val, typ):
+        if not is_instance(val, typ):
             if issubclass(typ, Enum):  #  and isinstance(val, (int, str)):
                 validate_enum(val, typ)
             else:
@@ -264,7 +271,7 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
             validate_compound_type(D[field], field_type)
         elif field_type is Any or isinstance(field_type, TypeVar):
             pass  # for now
-        elif not isinstance(D[field], field_type):
+        elif not is_instance(D[field], field_type):
             if issubclass(field_type, Enum):
                 validate_enum(D[field], field_type)
             else:
-- 
2.43.0


From 530805207d455687c637e83d0fdcbe306154035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:57 +0000
Subject: [PATCH 05/41] fix: accept JSON-arrays for tuples and dictionaries for
 parameterized TypedDicts

---
 ts2python/json_validation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 0a230e5..3d2e524 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -187,13 +187,15 @@ def validate_compound_type(value: Any, T):
                 pass
         else:
             raise TypeError(f"{value} is not of type {T}")
-    elif isinstance(value, OT):
+    elif is_TypedDictClass(OT):  # parameterized generic TypedDict
+        validate_type(value, OT)
+    elif isinstance(value, OT) or (OT is tuple and isinstance(value, list)):
         if isinstance(value, Dict):
             assert len(T.__args__) == 2, str(T)
             key_type, value_type = T.__args__
             validate_uniform_sequence(value.keys(), key_type)
             validate_uniform_sequence(value.values(), value_type)
-        elif isinstance(value, Tuple):
+        elif OT is tuple:  # JSON-arrays are lists, never tuples
             if len(T.__args__) == 2 and T.__args__[-1] is Ellipsis:
                 validate_uniform_sequence(value, T.__args__[0])
             else:
-- 
2.43.0


From b19c53fa27fc05369f6c5d8cc51b06e2191968d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 06/41] fix: type_check must not demand arguments for
 parameters with default values

Omitting an argument with a default value and annotating *args or **kwargs
raised a 'Missing parameter' TypeError.
---
 ts2python/json_validation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 3d2e524..c8a2a6f 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -325,27 +325,31 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
         at least one of the parameter's or the return value does not
         match the annotated types.
     """
-    arg_names = func.__code__.co_varnames[:func.__code__.co_argcount]
+    signature = inspect.signature(func)
     arg_types = get_type_hints(func)
     return_type = arg_types.get('return', None)
     if return_type is not None:  del arg_types['return']
     assert arg_types or return_type, \
         f'type_check-decorated "{func}" has no type annotations'
+    for name, param in signature.parameters.items():
+        if name in arg_types and param.kind == param.VAR_POSITIONAL:
+            arg_types[name] = Tuple[arg_types[name], ...]
+        elif name in arg_types and param.kind == param.VAR_KEYWORD:
+            arg_types[name] = Dict[str, arg_types[name]]
 
     @functools.wraps(func)
     def guard(*args, **kwargs):
-        nonlocal arg_names, arg_types, return_type
-        arg_dict = {**dict(zip(arg_names, args)), **kwargs}
+        nonlocal arg_types, return_type
+        arg_dict = signature.bind(*args, **kwargs).arguments
         for name, typ in arg_types.items():
+            if name not in arg_dict:
+                continue  # default values are not checked
             try:
                 validate_type(arg_dict[name], typ)
             except TypeError as e:
                 raise TypeError(
                     f'Parameter "{name}" of function "{func.__name__}" failed '
                     f'the type-check, because:\n{str(e)}')
-            except KeyError as e:
-                raise TypeError(f'Missing parameter {str(e)} in call of '
-                                f'"{func.__name__}"')
         ret = func(*args, **kwargs)
         if check_return_type and return_type:
             try:
-- 
2.43.0


From 08879546968fb7b7a36a4a066ef31cbfd4e61d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:05 +0000
Subject: [PATCH 07/41] fix: an overriding field is either required or
 optional, not both

---
 ts2python/typeddict_shim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index 761512d..3b7ad48 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -155,8 +155,12 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
 
     for base in bases:
         annotations.update(base.__dict__.get('__annotations__', {}))
-        required_keys.update(base.__dict__.get('__required_keys__', ()))
-        optional_keys.update(base.__dict__.get('__optional_keys__', ()))
+        base_required = base.__dict__.get('__required_keys__', ())
+        base_optional = base.__dict__.get('__optional_keys__', ())
+        required_keys.difference_update(base_optional)
+        optional_keys.difference_update(base_required)
+        required_keys.update(base_required)
+        optional_keys.update(base_optional)
 
     annotations.update(own_annotations)
 
@@ -172,9 +176,11 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
                      or (field_type.__forward_arg__.startswith('Union[')
                          and field_type.__forward_arg__.endswith(', None]'))))):
             optional_keys.add(field)
+            required_keys.discard(field)
             total = False
         else:
             required_keys.add(field)
+            optional_keys.discard(field)
 
     tp_dict.__annotations__ = annotations
     tp_dict.__required_keys__ = frozenset(required_keys)
-- 
2.43.0


From cccd78e4dc82b58d545418e5a1c1378d14be6ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:40 +0000
Subject: [PATCH 08/41] fix: recognize X | None fields of TypedDicts as
 optional

types.UnionType and forward references ending with ' | None' - both are
emitted by ts2python if type unions are turned on - were taken as required,
whereas forward references like 'NotRequiredFoo' were taken as optional.
---
 ts2python/typeddict_shim.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index 3b7ad48..fea4b5f 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -64,6 +64,12 @@ except (ImportError, ModuleNotFoundError):
             return typ.__args__
 
 
+try:
+    from types import UnionType
+except (ImportError, ModuleNotFoundError):
+    UnionType = Union  # Python 3.9 and below
+
+
 try:
     from typing import NotRequired
 except (ImportError, ModuleNotFoundError):
@@ -168,11 +174,12 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
     for field, field_type in own_annotations.items():
         field_type_origin = get_origin(field_type)
         if (field_type_origin is NotRequired
-            or (field_type_origin is Union
+            or (field_type_origin in (Union, UnionType)
                 and type(None) in field_type.__args__)
             or (isinstance(field_type, ForwardRef)
                 and (field_type.__forward_arg__.startswith('Optional[')
-                     or field_type.__forward_arg__.startswith('NotRequired')
+                     or field_type.__forward_arg__.startswith('NotRequired[')
+                     or field_type.__forward_arg__.endswith(' | None')
                      or (field_type.__forward_arg__.startswith('Union[')
                          and field_type.__forward_arg__.endswith(', None]'))))):
             optional_keys.add(field)
-- 
2.43.0


From 6447d941c3bb6439686c9055b0b0033232596704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 09/41] fix: overloads for type unions were lost by
 singledispatch.register

An implementation annotated with a union of classes was postponed for ever and
let every other dispatch fail with an internal error.
---
 ts2python/singledispatch_shim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 877c1a0..cac5344 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -155,7 +155,7 @@ def singledispatch(func):
             # only import typing if annotation parsing is necessary
             try:
                 argname, cls = next(iter(get_type_hints(func).items()))
-                if not isinstance(cls, type) and str(type(cls))[1:6] == "class":
+                if not _is_valid_dispatch_type(cls) and str(type(cls))[1:6] == "class":
                     raise NameError
             except NameError:
                 if cls != func:
-- 
2.43.0


From 8de196c83597ed7de0de6f1077416b6bc2cc42d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 10/41] fix: registering a forward-referenced overload must
 clear the dispatch cache

---
 ts2python/singledispatch_shim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index cac5344..15b870e 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -165,6 +165,7 @@ def singledispatch(func):
                         pass  # TODO: Is this risky?
                         # raise(e)
                 registry.setdefault('postponed', []).append(cls)
+                dispatch_cache.clear()
                 return func
             except StopIteration:
                 func = method
-- 
2.43.0


From 39880710c6eda4855cf21f3ef2fa8b0a90fef50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:56 +0000
Subject: [PATCH 11/41] fix: overloads for unions with abstract base classes
 must notice later registrations of virtual subclasses

---
 ts2python/singledispatch_shim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 15b870e..74d97ee 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -186,7 +186,8 @@ def singledispatch(func):
                 registry[arg] = func
         else:
             registry[cls] = func
-        if cache_token is None and hasattr(cls, '__abstractmethods__'):
+        if cache_token is None and any(hasattr(c, '__abstractmethods__')
+                                       for c in get_args(cls) or (cls,)):
             cache_token = get_cache_token()
         dispatch_cache.clear()
         return func
-- 
2.43.0


From 1d22906903d46ba36a2821b989c1bf73767a7c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 12/41] fix: default name of the result file is the name of the
 source file with the extension .py

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index e0f7c70..7890f6e 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1318,7 +1318,7 @@ def process_file(source: str, result_filename: str = '') -> str:
     source_filename = source if is_filename(source) else ''
     if not result_filename:
         if source_filename:
-            result_filename = source_filename[:result_filename.rfind('.')] + '.py'
+            result_filename = os.path.splitext(source_filename)[0] + '.py'
         else:
             result_filename = "out.py"
     if os.path.isfile(result_filename):
-- 
2.43.0


From 18ac9a8012c461bd6dfdae8736669d1d82ae1912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 13/41] fix: process_file must not mistake the content of a
 single-line file for a file name

---
 ts2pythonParser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7890f6e..1fe10a6 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1324,11 +1324,12 @@ def process_file(source: str, result_filename: str = '') -> str:
     if os.path.isfile(result_filename):
         with open(result_filename, 'r', encoding='utf-8') as f:
             result = f.read()
-        if source_filename == source:
+        source_text = source
+        if source_filename:
             with open(source_filename, 'r', encoding='utf-8') as f:
-                source = f.read()
+                source_text = f.read()
         m = re.search(r'source_hash__ *= *"([\w.!? ]*)"', result)
-        if m and m.groups()[-1] == source_hash(source):
+        if m and m.groups()[-1] == source_hash(source_text):
             return ''  # no re-compilation necessary, because source hasn't changed
     result, errors = compile_src(source)
     if not has_errors(errors, FATAL):
-- 
2.43.0


From 588fe8e628f2afd2cde4ee47c1d86fd648f21b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 14/41] fix: options --peps 604, --peps 646 and all excluded
 PEPs (~NNN) had no effect

---
 ts2pythonParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 1fe10a6..703b1aa 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1539,10 +1539,11 @@ def main():
                 sys.exit(1)
             for pep in args_peps:
                 kwargs= {'value': pep[0] != '~', 'allow_new_key': True}
+                pep = pep.lstrip('~')
                 if pep == '435':  set_preset_value('ts2python.UseEnum', **kwargs)
                 if pep in ('586', '584'):  set_preset_value('ts2python.UseLiteralType', **kwargs)
-                if pep == '604':  set_preset_value('ts2python.TypeUnion', **kwargs)
-                if pep == '646': set_preset_value('tsPython.UseVariadicGenerics', **kwargs)
+                if pep == '604':  set_preset_value('ts2python.UseTypeUnion', **kwargs)
+                if pep == '646': set_preset_value('ts2python.UseVariadicGenerics', **kwargs)
                 if pep == '655':  set_preset_value('ts2python.UseNotRequired', **kwargs)
         if args.comments: set_preset_value('ts2python.KeepMultilineComments', True)
         finalize_presets()
-- 
2.43.0


From 5a3a49e9463a9c76ed19102eb9e0ccbf1516c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 15/41] fix: option --comments had no effect unless combined
 with another option

---
 ts2pythonParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 703b1aa..03ea5c3 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1501,7 +1501,8 @@ def main():
     from DHParser.configuration import read_local_config
     read_local_config(os.path.join(scriptpath, 'ts2python/ts2pythonParser.ini'))
 
-    if args.debug or args.compatibility or args.base or args.decorator or args.peps or args.anonymous:
+    if args.debug or args.compatibility or args.base or args.decorator or args.peps \
+            or args.anonymous or args.comments:
         access_presets()
         if args.debug is not None:
             log_dir = 'LOGS'
-- 
2.43.0


From a19c63686697ed1ada7188a926bd32c9f8e3fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 16/41] fix: options -b, -a, -d and -k raised a ValueError if
 no configuration file was found

---
 ts2pythonParser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 03ea5c3..8a3853d 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1523,9 +1523,12 @@ def main():
                 set_preset_value('ts2python.UseVariadicGenerics', True, allow_new_key=True)
             if version_info >= (3, 12):
                 set_preset_value('ts2python.UseTypeParameters', True, allow_new_key=True)
-        if args.base:  set_preset_value('ts2python.BaseClassName', args.base[0].strip())
-        if args.anonymous:  set_preset_value('ts2python.RenderAnonymous', args.anonymous[0].strip())
-        if args.decorator:  set_preset_value('ts2python.ClassDecorator', args.decorator[0].strip())
+        if args.base:
+            set_preset_value('ts2python.BaseClassName', args.base[0].strip(), allow_new_key=True)
+        if args.anonymous:
+            set_preset_value('ts2python.RenderAnonymous', args.anonymous[0].strip(), allow_new_key=True)
+        if args.decorator:
+            set_preset_value('ts2python.ClassDecorator', args.decorator[0].strip(), allow_new_key=True)
         if args.peps:
             args_peps = [pep.strip() for pep in args.peps]
             all_peps = { '435',  '584',  '586',  '604',  '646',  '655',
@@ -1546,7 +1549,8 @@ def main():
                 if pep == '604':  set_preset_value('ts2python.UseTypeUnion', **kwargs)
                 if pep == '646': set_preset_value('ts2python.UseVariadicGenerics', **kwargs)
                 if pep == '655':  set_preset_value('ts2python.UseNotRequired', **kwargs)
-        if args.comments: set_preset_value('ts2python.KeepMultilineComments', True)
+        if args.comments:
+            set_preset_value('ts2python.KeepMultilineComments', True, allow_new_key=True)
         finalize_presets()
         _ = get_config_values('ts2python.*')  # fill config value cache
 
-- 
2.43.0


From 319497acd4725ec577c71c4a36c7f6bbabf4adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 17/41] fix: documents beginning or ending with a comment could
 not be converted with --comments

---
 ts2pythonParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 8a3853d..180e0f2 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -560,8 +560,8 @@ class ts2pythonCompiler(Compiler):
         return ""
 
     def on_root(self, node) -> str:
-        assert len(node.children) == 1
-        return self.compile(node.children[0])
+        # apart from the document, there can be comments before and after it
+        return '\n\n'.join(self.compile(child) for child in node.children)
 
     def on_document(self, node) -> str:
         if 'module' in node and isinstance(node['module'], Sequence) > 1:
-- 
2.43.0


From d11e116bd7a209306f4bc4f875a9f9062e3b07a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:36 +0000
Subject: [PATCH 18/41] fix: interfaces in a namespace of constants were
 rendered with wrong indentation and leaked their optional keys

---
 ts2pythonParser.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 180e0f2..bedc611 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1052,13 +1052,24 @@ class ts2pythonCompiler(Compiler):
             self.strip_type_from_const = True
         else:
             header = ''
+        self.obj_name.append(name)
+        self.local_classes.append([])
+        self.optional_keys.append([])
+        self.known_types.append(dict())
         namespace = []
         for child in node.children[1:]:
-            namespace.append(self.compile(child))
+            namespace.extend(self.compile(child).lstrip('\n').split('\n'))
         if not header:
             header = self.render_class_header(name, '')[:-1]  # leave out the trailing "\n"
-            # self.optional_keys.pop()?
+        namespace = namespace or ['pass']
         namespace.insert(0, header)
+        local_classes = self.render_local_classes().rstrip('\n')
+        if local_classes:
+            namespace.insert(1, local_classes.replace('\n', '\n    '))
+        self.known_types.pop()
+        self.optional_keys.pop()
+        self.local_classes.pop()
+        self.obj_name.pop()
         self.strip_type_from_const = save
         return '\n    '.join(namespace)
 
-- 
2.43.0


From 3359b80ebf4ec6ec7d54d548dbb5a05340a314aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 19/41] fix: spurious warning about every namespace with
 functions

---
 ts2pythonParser.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index bedc611..8322f26 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1099,7 +1099,6 @@ class ts2pythonCompiler(Compiler):
         if local_classes:
             declarations.insert(1, local_classes)
         self.known_types.pop()
-        self.add_to_known_types(node, name, 'namespace')
         self.local_classes.pop()
         self.optional_keys.pop()
         self.scope_type.pop()
-- 
2.43.0


From 682f7469a699b039c41c38e740ce1783effeb870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 20/41] fix: generated modules that use enum.auto() did not
 import enum

---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 8322f26..daa5595 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -315,6 +315,7 @@ def source_hash(source_text: str) -> str:
 
 GENERAL_IMPORTS = """
 import sys
+import enum
 from enum import Enum, IntEnum
 if sys.version_info >= (3, 9, 0):
     from typing import Union, Optional, Any, Generic, TypeVar, Callable, List, Tuple, Dict
-- 
2.43.0


From 10f6e0feaaa5df95c10a4d4561db5c1cd23e54fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 21/41] fix: types with a name beginning with "class" and
 anonymous interfaces with a class decorator were not rendered properly

---
 ts2pythonParser.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index daa5595..eb004c5 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -405,6 +405,21 @@ def to_dict(declarations: str) -> str:
     return "".join(["{", ", ".join(entries), "}"])
 
 
+def defined_class(code: str) -> str:
+    r"""Returns the name of the (last) class on the outermost level, if the code
+    is a sequence of class-definitions, or the empty string, if it is not.
+    Example::
+
+        >>> defined_class("@dataclass\nclass Point:\n    x: int")
+        'Point'
+        >>> defined_class("classification")
+        ''
+    """
+    if re.match(r'(?:@.*\n)*class ', code):
+        return re.findall(r'^class (\w+)', code, re.MULTILINE)[-1]
+    return ''
+
+
 NOT_YET_IMPLEMENTED_WARNING = ErrorCode(310)
 UNSUPPORTED_WARNING = ErrorCode(320)
 
@@ -762,10 +777,7 @@ class ts2pythonCompiler(Compiler):
         self.obj_name.append(to_typename(identifier))
         T = self.compile_type_expression(node, node['types']) \
             if 'types' in node else 'Any'
-        typename = self.obj_name.pop()
-        if T[0:5] == 'class':
-            self.local_classes[-1].append(T)
-            T = typename  # substitute typename for type
+        self.obj_name.pop()
         if 'optional' in node:
             self.optional_keys[-1].append(identifier)
             if self.use_not_required:
@@ -915,11 +927,8 @@ class ts2pythonCompiler(Compiler):
             self.obj_name[-1] = obj_name_stub
         for i in range(len(union)):
             typ = union[i]
-            if typ[0:5] == 'class':
-                k = typ.rfind('\nclass')
-                m = re.match(r"class\s*(\w+)[\w(){},' =]*\s*:", typ[k + 1:])
-                assert m, typ
-                cname = m.group(1)
+            cname = defined_class(typ)
+            if cname:
                 self.local_classes[-1].append(typ)
                 union[i] = cname
         if self.is_toplevel():
-- 
2.43.0


From d829255f6680292e92f05ce630b591c5bcb9d8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 22/41] fix: the rendering of forward references depended on
 the hash seed and failed for names that are Python keywords, and for members
 named like a type

---
 ts2pythonParser.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index eb004c5..5200629 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1227,16 +1227,20 @@ class ts2pythonCompiler(Compiler):
         return TYPE_NAME_SUBSTITUTION.get(name, name)
 
     def compile_type_expression(self, node, type_node) -> str:
-        unknown_types = set(tn.content for tn in node.select('type_name')
-                            if not self.is_known_type(tn.content))
+        type_names = {self.compile(tn['name']) for tn in node.select('type_name')
+                      if tn.content not in TYPE_NAME_SUBSTITUTION}
+        # longest names first, because "A" must not be replaced within "A.B"
+        unknown_types = sorted((tn for tn in type_names if not self.is_known_type(tn)),
+                               key=lambda tn: (-len(tn), tn))
         type_expression = self.compile(type_node)
-        for typ in unknown_types:
-            rx = re.compile(r"(?:(?<=[^\w'])|^)" + typ + r"(?:(?=[^\w'])|$)")
-            segments = type_expression.split("'")
-            for i in range(0, len(segments), 2):
-                segments[i] = rx.sub(f"'{typ}'", segments[i])
-            type_expression = "'".join(segments)
-            # type_expression = rx.sub(f"'{typ}'", type_expression)
+        if defined_class(type_expression):
+            return type_expression  # forward references have already been quoted
+        if unknown_types:
+            # skip everything that has already been quoted as well as string-literals
+            rx = re.compile(r"""('[^']*'|"[^"]*")|(?<!\w)(?:"""
+                            + '|'.join(re.escape(tn) for tn in unknown_types) + r")(?!\w)")
+            type_expression = rx.sub(lambda m: m.group(0) if m.group(1) else f"'{m.group(0)}'",
+                                     type_expression)
         if type_expression[0:1] == "'":
             type_expression = ''.join(["'", type_expression.replace("'", ""), "'"])
         return type_expression
-- 
2.43.0


From 166f61f4b7eec15573344a8c6e8f2825a6ef6cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 23/41] fix: optional members of union type stayed required if
 None occurred within one of the alternatives

---
 ts2pythonParser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 5200629..57f843a 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -783,11 +783,15 @@ class ts2pythonCompiler(Compiler):
             if self.use_not_required:
                 T = f"NotRequired[{T}]"
             else:
+                # None can also occur inside of an alternative, e.g. Union[Callable[[str], None], int]
+                nullable = 'types' in node and any(
+                    TYPE_NAME_SUBSTITUTION.get(nd.content, '') == 'None'
+                    for nd in node['types'].children)
                 if T.startswith('Union['):
-                    if T.find('None') < 0:
+                    if not nullable:
                         T = T[:-1] + ', None]'
                 elif T.find('|') >= 0:
-                    if T.find('None') < 0:
+                    if not nullable:
                         if T[0:1] not in ("'", '"'):
                             T += ' | None'
                         else:
-- 
2.43.0


From 8552d499df960ebbefca1df3dcbf5aaa1d57be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 24/41] fix: union types changed the name of the enclosing
 object

---
 ts2pythonParser.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 57f843a..7ea4052 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -899,21 +899,22 @@ class ts2pythonCompiler(Compiler):
             typ = self.compile(node['type'])
             return f'Optional[{typ}]' if node[-1].name == 'optional' else typ
 
-    def render_union(self, preface, union) -> str:
+    def render_union(self, union) -> str:
         if self.use_type_union or len(union) <= 1:
             if any(typ[0:1] in ('"', "'") for typ in union):
                 # union = [typ.strip("'").strip('"') for typ in union]
                 union = [typ.replace("'", '').replace('"', '') for typ in union]
-                return f"{preface}'{' | '.join(union)}'"
-            return preface + ' | '.join(union)
+                return f"'{' | '.join(union)}'"
+            return ' | '.join(union)
         else:
-            return preface + f"Union[{', '.join(union)}]"
+            return f"Union[{', '.join(union)}]"
 
     def on_types(self, node) -> str:
         union = []
         i = 0
 
-        obj_name_stub = self.obj_name[-1]
+        obj_name = self.obj_name[-1]
+        obj_name_stub = obj_name
         fname = self.func_name[:1].upper() + self.func_name[1:]
         for nd in node.children:
             n = obj_name_stub.rfind('_')
@@ -929,16 +930,13 @@ class ts2pythonCompiler(Compiler):
                 union.append(typ)
                 i += 1
             self.obj_name[-1] = obj_name_stub
+        self.obj_name[-1] = obj_name
         for i in range(len(union)):
             typ = union[i]
             cname = defined_class(typ)
             if cname:
                 self.local_classes[-1].append(typ)
                 union[i] = cname
-        if self.is_toplevel():
-            preface = self.render_local_classes()
-        else:
-            preface = ''
         if self.use_literal_type and \
                 any(nd[0].name == 'literal' for nd in node.children):
             if all(nd[0].name == 'literal' for nd in node.children):
@@ -956,9 +954,9 @@ class ts2pythonCompiler(Compiler):
                     new_union.append(union[i])
             if literal_package:
                 new_union.append(f"Literal[{', '.join(l for l in literal_package)}]")
-            return self.render_union(preface, new_union)
+            return self.render_union(new_union)
         else:
-            return self.render_union(preface, union)
+            return self.render_union(union)
 
     def render_declarations(self, decls) -> str:
         if self.base_class_name != "TypedDict" or self.render_anonymous == "local":
-- 
2.43.0


From c6ee3e69e6fbd066b2a93c27340f6c261576e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:07 +0000
Subject: [PATCH 25/41] fix: anonymous interfaces in top-level functions and in
 several top-level constants

---
 ts2pythonParser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7ea4052..7dec777 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -800,8 +800,7 @@ class ts2pythonCompiler(Compiler):
                     T = f"Optional[{T}]"
         if self.is_toplevel() and bool(self.local_classes[-1]):
             preface = self.render_local_classes()
-            self.local_classes.pop()
-            self.optional_keys.pop()
+            self.local_classes[-1] = []
             return preface + f"{identifier}: {T}"
         return f"{identifier}: {T}"
 
@@ -852,7 +851,11 @@ class ts2pythonCompiler(Compiler):
                 interface.get_attr('preface', ''), f"\n{preface}{pyfunc}", '\n'])
             return ''
         else:
-            return f"{fallback}\n{preface if not fallback else ''}{pyfunc}"
+            local_classes = ''
+            if self.is_toplevel():
+                local_classes = self.render_local_classes()
+                self.local_classes[-1] = []
+            return f"{local_classes}{fallback}\n{preface if not fallback else ''}{pyfunc}"
 
     def on_arg_list(self, node) -> str:
         breadcrumb = '/'.join(nd.name for nd in self.path)
-- 
2.43.0


From 7ad91d9707ce78f3cd40ab555ec99460f51e0334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 26/41] fix: the name of a function leaked into the names of
 anonymous interfaces in the declarations after it

---
 ts2pythonParser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7dec777..fda620e 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -805,6 +805,13 @@ class ts2pythonCompiler(Compiler):
         return f"{identifier}: {T}"
 
     def on_function(self, node) -> str:
+        save = self.func_name
+        try:
+            return self.render_function(node)
+        finally:
+            self.func_name = save
+
+    def render_function(self, node) -> str:
         is_constructor = False
         if 'identifier' in node:
             name = self.compile(node["identifier"])
-- 
2.43.0


From 556d9413e4376ab1385648b7bc37881611401d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 27/41] fix: different anonymous interfaces in the same scope
 were given the same name

---
 ts2pythonParser.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index fda620e..158b011 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -926,27 +926,24 @@ class ts2pythonCompiler(Compiler):
         obj_name = self.obj_name[-1]
         obj_name_stub = obj_name
         fname = self.func_name[:1].upper() + self.func_name[1:]
+        n = obj_name_stub.rfind('_')
+        ending = obj_name_stub[n + 1:]
+        if n >= 0 and (not ending or ending.isdecimal()):
+            obj_name_stub = obj_name_stub[:n]
         for nd in node.children:
-            n = obj_name_stub.rfind('_')
-            ending = obj_name_stub[n + 1:]
-            if n >= 0 and (not ending or ending.isdecimal()):
-                obj_name_stub = obj_name_stub[:n]
-            self.obj_name[-1] = fname + obj_name_stub + '_' + str(i)
+            i = self.pick_name(fname + obj_name_stub, i)
             save = self.func_name
             self.func_name = ""
             typ = self.compile_type_expression(node, nd)
             self.func_name = save
+            cname = defined_class(typ)
+            if cname:
+                self.local_classes[-1].append(typ)
+                typ = cname
             if typ not in union:
                 union.append(typ)
                 i += 1
-            self.obj_name[-1] = obj_name_stub
         self.obj_name[-1] = obj_name
-        for i in range(len(union)):
-            typ = union[i]
-            cname = defined_class(typ)
-            if cname:
-                self.local_classes[-1].append(typ)
-                union[i] = cname
         if self.use_literal_type and \
                 any(nd[0].name == 'literal' for nd in node.children):
             if all(nd[0].name == 'literal' for nd in node.children):
@@ -968,14 +965,30 @@ class ts2pythonCompiler(Compiler):
         else:
             return self.render_union(union)
 
+    def pick_name(self, stub: str, i: int) -> int:
+        """Names the current object stub_k with the lowest number k >= i for
+        which this is not the name of a class waiting to be rendered in the
+        same scope. Returns k."""
+        used = {defined_class(code) for code in self.local_classes[-1]}
+        self.obj_name[-1] = f"{stub}_{i}"
+        while self.anonymous_name() in used:
+            i += 1
+            self.obj_name[-1] = f"{stub}_{i}"
+        return i
+
+    def anonymous_name(self) -> str:
+        if self.base_class_name == "TypedDict" and self.render_anonymous == "toplevel":
+            return '_'.join(self.obj_name[1:]) or self.obj_name[-1]
+        return self.obj_name[-1]
+
     def render_declarations(self, decls) -> str:
         if self.base_class_name != "TypedDict" or self.render_anonymous == "local":
-            return ''.join([self.render_class_header(self.obj_name[-1], '') + "    ",
+            return ''.join([self.render_class_header(self.anonymous_name(), '') + "    ",
                             self.render_local_classes().replace('\n', '\n    '),
                             decls.replace('\n', '\n    ')])
         elif self.render_anonymous == "toplevel":
             return ''.join([self.render_local_classes(),
-                            self.render_class_header('_'.join(self.obj_name[1:]), '') + "    ",
+                            self.render_class_header(self.anonymous_name(), '') + "    ",
                             decls.replace('\n', '\n    ')])
         elif self.render_anonymous == "functional":
             return f'TypedDict("{self.obj_name[-1]}", {to_dict(decls)})'
-- 
2.43.0


From 734089e0ded0070864e0496300027243bfba146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 28/41] fix: literal types with a floating point number were
 rendered as str

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 158b011..bc7dcf6 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1021,7 +1021,7 @@ class ts2pythonCompiler(Compiler):
                     _ = int(literal)
                     return 'int'
                 except ValueError:
-                    return 'str'
+                    return 'float'
             elif literal_typ == 'boolean':
                 return 'bool'
             else:
-- 
2.43.0


From b252afbbade94fbe9f8707c4d8c4b2f009e7c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 29/41] fix: repeated alternatives in a union with literal
 types raised an IndexError

---
 ts2pythonParser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index bc7dcf6..78e5cba 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -921,6 +921,7 @@ class ts2pythonCompiler(Compiler):
 
     def on_types(self, node) -> str:
         union = []
+        literals = []  # flags that mark those elements of union that are literals
         i = 0
 
         obj_name = self.obj_name[-1]
@@ -942,17 +943,17 @@ class ts2pythonCompiler(Compiler):
                 typ = cname
             if typ not in union:
                 union.append(typ)
+                literals.append(nd[0].name == 'literal')
                 i += 1
         self.obj_name[-1] = obj_name
-        if self.use_literal_type and \
-                any(nd[0].name == 'literal' for nd in node.children):
-            if all(nd[0].name == 'literal' for nd in node.children):
+        if self.use_literal_type and any(literals):
+            if all(literals):
                 return f"Literal[{', '.join(typ for typ in union)}]"
                 # return f"Literal[{', '.join(nd.content for nd in node.children)}]"
             new_union = []
             literal_package = []
-            for i, nd in enumerate(node.children):
-                if nd[0].name == 'literal':
+            for i, is_literal in enumerate(literals):
+                if is_literal:
                     literal_package.append(union[i])
                 else:
                     if literal_package:
-- 
2.43.0


From bdc0f3ddec1f419ae3a440fca3fdf127c99a96f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 30/41] fix: a comment turned a namespace of constants into a
 TypedDict

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 78e5cba..f940cba 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1079,7 +1079,7 @@ class ts2pythonCompiler(Compiler):
         else:
             self.add_to_known_types(node, name, 'virtual_enum')
         save = self.strip_type_from_const
-        if all(child.name == 'const' for child in node.children[1:]):
+        if all(child.name in ('const', 'comment__') for child in node.children[1:]):
             if all(nd['literal'][0].name == 'integer'
                    for nd in node.select_children('const') if 'literal' in nd):
                 header = f'class {name}(IntEnum):'
-- 
2.43.0


From 94b78d61be852472d7cad0c92bee6de8ba163d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 31/41] fix: a string-literal type was taken for the forward
 reference of the same spelling

---
 ts2pythonParser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index f940cba..4c20ffb 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -941,12 +941,13 @@ class ts2pythonCompiler(Compiler):
             if cname:
                 self.local_classes[-1].append(typ)
                 typ = cname
-            if typ not in union:
+            is_literal = self.use_literal_type and nd[0].name == 'literal'
+            if (typ, is_literal) not in zip(union, literals):
                 union.append(typ)
-                literals.append(nd[0].name == 'literal')
+                literals.append(is_literal)
                 i += 1
         self.obj_name[-1] = obj_name
-        if self.use_literal_type and any(literals):
+        if any(literals):
             if all(literals):
                 return f"Literal[{', '.join(typ for typ in union)}]"
                 # return f"Literal[{', '.join(nd.content for nd in node.children)}]"
-- 
2.43.0


From cd263b865b4ff200368c7b469e08a7a2ef11e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 32/41] fix: quoted unions lost the quotes of the
 string-literals inside

---
 ts2pythonParser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 4c20ffb..5035406 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -913,7 +913,10 @@ class ts2pythonCompiler(Compiler):
         if self.use_type_union or len(union) <= 1:
             if any(typ[0:1] in ('"', "'") for typ in union):
                 # union = [typ.strip("'").strip('"') for typ in union]
-                union = [typ.replace("'", '').replace('"', '') for typ in union]
+                # remove the quotes of all forward references, but keep those of string-literals
+                union = [re.sub(r'''Literal\[(?:"[^"]*"|'[^']*'|[^]"'])*]|["']''',
+                                lambda m: m.group(0).replace("'", '"') if m.group(0)[1:] else '', typ)
+                         for typ in union]
                 return f"'{' | '.join(union)}'"
             return ' | '.join(union)
         else:
-- 
2.43.0


From b3ee534864157bb8e04c82092f20fad2e52ac2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 33/41] fix: comments inside of type-expressions, argument
 lists and literals yielded invalid Python code

---
 ts2pythonParser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 5035406..ba17ad3 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -447,6 +447,11 @@ TYPE_NAME_SUBSTITUTION = {
     'RegExp': 'str' }
 
 
+# node-types the rendering of which can contain comments
+COMMENT_CONTAINERS = frozenset({'root', 'document', 'declarations_block', 'type_alias',
+                                'namespace', 'virtual_enum'})
+
+
 class ts2pythonCompiler(Compiler):
     """Compiler for the abstract-syntax-tree of a ts2python source file.
     """
@@ -526,6 +531,9 @@ class ts2pythonCompiler(Compiler):
         type_aliases = {nd['identifier'].content for nd in root.select_children('type_alias')}
         namespaces = {nd['identifier'].content for nd in root.select_children('namespace')}
         self.overloaded_type_names = type_aliases & namespaces
+        for nd in root.select_if(lambda nd: nd.name not in COMMENT_CONTAINERS, include_root=True):
+            if 'comment__' in nd:
+                nd.result = tuple(child for child in nd.children if child.name != 'comment__')
         self.tree.stage = 'py'
         return None
 
-- 
2.43.0


From 4235681f1f60cd6e8b9957be7953b05773efa6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 34/41] fix: the name of a type alias was not quoted within its
 own definition

---
 ts2pythonParser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ba17ad3..d5b2cf3 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -730,12 +730,11 @@ class ts2pythonCompiler(Compiler):
         self.obj_name.append(alias)
         if alias not in self.overloaded_type_names:
             _, preface = self.process_type_parameters(node)
-            if self.known_types[-1].get(alias, '') \
-                    in ('namespace', 'enum', 'virtual_enum'):
+            is_enum = self.known_types[-1].get(alias, '') \
+                    in ('namespace', 'enum', 'virtual_enum')
+            if is_enum:
                 preface = ('# commented out, because there is already an '
                            'enumeration with the same name\n# ' + preface)
-            else:
-                self.add_to_known_types(node, alias, 'type_alias')
             self.local_classes.append([])
             self.optional_keys.append([])
             types = self.compile(node['types'])
@@ -743,6 +742,9 @@ class ts2pythonCompiler(Compiler):
             self.optional_keys.pop()
             self.local_classes.pop()
             code = preface + f"{alias} = {types}"
+            if not is_enum:
+                # not before, because the alias must be quoted within its own definition
+                self.add_to_known_types(node, alias, 'type_alias')
         else:
             code = ''
         if node[-1].name == 'comment__':
-- 
2.43.0


From 2b3371187f51b1f47a469d5526ef122710c2934d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 35/41] fix: type aliases with anonymous interfaces were only
 partly commented out

---
 ts2pythonParser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index d5b2cf3..4fa22a3 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -732,9 +732,6 @@ class ts2pythonCompiler(Compiler):
             _, preface = self.process_type_parameters(node)
             is_enum = self.known_types[-1].get(alias, '') \
                     in ('namespace', 'enum', 'virtual_enum')
-            if is_enum:
-                preface = ('# commented out, because there is already an '
-                           'enumeration with the same name\n# ' + preface)
             self.local_classes.append([])
             self.optional_keys.append([])
             types = self.compile(node['types'])
@@ -742,7 +739,10 @@ class ts2pythonCompiler(Compiler):
             self.optional_keys.pop()
             self.local_classes.pop()
             code = preface + f"{alias} = {types}"
-            if not is_enum:
+            if is_enum:
+                code = ('# commented out, because there is already an '
+                        'enumeration with the same name\n# ' + code.replace('\n', '\n# '))
+            else:
                 # not before, because the alias must be quoted within its own definition
                 self.add_to_known_types(node, alias, 'type_alias')
         else:
-- 
2.43.0


From e0cc35f4ab78e39dd5f9e0b31cd7c4e03e18e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 36/41] fix: type parameters of methods of anonymous interfaces
 leaked into the enclosing scope

---
 ts2pythonParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 4fa22a3..9cd0560 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1017,8 +1017,10 @@ class ts2pythonCompiler(Compiler):
         if typ.name in ('declarations_block', 'declarations_tuple'):
             self.local_classes.append([])
             self.optional_keys.append([])
+            self.known_types.append(dict())
             decls = self.compile(typ)
             result = self.render_declarations(decls)
+            self.known_types.pop()
             self.optional_keys.pop()
             self.local_classes.pop()
             return result
-- 
2.43.0


From 98710679fecf3be103f6b491b4ef18bb7e5ac85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 37/41] fix: names beginning with a keyword or basic type, e.g.
 "letter", "variableName", "stringify", were truncated or rejected

---
 ts2python.ebnf     | 29 ++++++++++++++++-------------
 ts2pythonParser.py | 27 ++++++++++++++-------------
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 6c2985b..e967c78 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -17,7 +17,7 @@
 @ reduction   = merge_treetops  # anonymous nodes are being reduced where possible
 @ disposable  = INT, NEG, FRAC, DOT, EXP, EOF,
                 _array_ellipsis, _top_level_assignment, _top_level_literal,
-                _quoted_identifier, _namespace, _part
+                _quoted_identifier, _namespace, _part, _keyword
 @ drop        = whitespace, no_comments, strings, EOF,
                 _array_ellipsis, _top_level_assignment, _top_level_literal
 
@@ -71,13 +71,13 @@ extends     = ("extends" | "implements")
 
 declarations_block = "{" [(function|declaration) { [";"|","] (function|declaration) }
                           [";" map_signature] [";"|","]] "}"
-declaration = qualifiers ["let"|"var"] identifier [optional] !`(` [":" types]
+declaration = qualifiers [_keyword ("let"|"var")] identifier [optional] !`(` [":" types]
 
 
 # @function_resume = /(?=;)/
 
-function    = [["export"] [static]
-               ["function"] identifier [optional] [type_parameters]]
+function    = [[_keyword "export"] [static]
+               [_keyword "function"] identifier [optional] [type_parameters]]
               "(" §[arg_list] ")" [":" types]
             | special
   arg_list  = (argument { "," argument } ["," arg_tail] | arg_tail) [","]
@@ -87,8 +87,8 @@ special     = "[" name "]" "(" §[arg_list] ")" [":" types]
 
 
 qualifiers  = [readonly] ° [static]
-readonly    = "readonly"
-static      = "static"
+readonly    = _keyword "readonly"
+static      = _keyword "static"
 
 optional    = "?"
 
@@ -102,7 +102,7 @@ type_alias  = ["export"] "type" §identifier [type_parameters] "=" types ";"
 
 types       = ["|"] (intersection | type) { "|" (intersection | type) }
 intersection = type { "&" §type }+
-type        = ["readonly"]
+type        = [_keyword "readonly"]
             ( array_of | basic_type | generic_type | indexed_type
             | type_name !`(` | "(" types ")" | mapped_type
             | declarations_block | type_tuple | declarations_tuple
@@ -111,7 +111,7 @@ type        = ["readonly"]
 generic_type = type_name type_parameters
   type_parameters = "<" §parameter_types { "," parameter_types } ">"
   parameter_types = ["|"] parameter_type  { "|" parameter_type }
-  parameter_type  = [ "readonly" ]
+  parameter_type  = [ _keyword "readonly" ]
                   ( array_of | basic_type | generic_type     # actually, only a subset of array_of
                   | indexed_type | type_name [extends_type] [equals_type]
                   | declarations_block | type_tuple | declarations_tuple )
@@ -132,7 +132,7 @@ map_signature = index_signature ":" types
   index_signature = [readonly]
                     "[" identifier (":" | ["in"] keyof | "in") type "]"
                     [optional]
-  keyof = "keyof"
+  keyof = _keyword "keyof"
 
 indexed_type = type_name "[" (type_name | literal) "]"
 
@@ -186,7 +186,7 @@ _top_level_literal = literal
 literal    = integer | number | boolean | string | array | object
 integer    = INT !/[.Ee]/ ~
 number     = INT FRAC EXP ~
-boolean    = (`true` | `false`) ~
+boolean    = (`true` | `false`) !/\w/ ~
 string     = /"[^"\n]*"/~ | /'[^'\n]*'/~
 array      = "[" [ literal { "," literal } ] "]"
 object     = "{" [ association { "," association } ] [","] "}"
@@ -200,7 +200,7 @@ object     = "{" [ association { "," association } ] [","] "}"
 #######################################################################
 
 basic_type   = (`object` | `array` | `string` | `number` | `boolean` | `null`
-               | `integer` | `uinteger` | `decimal` | `unknown` | `any` | `void`) ~
+               | `integer` | `uinteger` | `decimal` | `unknown` | `any` | `void`) !/\w/ ~
 
 #######################################################################
 #
@@ -210,9 +210,12 @@ basic_type   = (`object` | `array` | `string` | `number` | `boolean` | `null`
 
 variable   = name
 _quoted_identifier = identifier | '"' identifier §'"' | "'" identifier §"'"
-name       = !(`true`|`false`) _part {`.` _part} ~
-identifier = !(`true`|`false`) _part ~
+name       = !/(?:true|false)(?!\w)/ _part {`.` _part} ~
+identifier = !/(?:true|false)(?!\w)/ _part ~
   _part    = /(?!\d)\w+/
+# lookahead: the next word is a keyword, not the beginning of a longer name
+# like "letter" and not the name of a member, itself, e.g. "readonly: boolean;"
+_keyword   = &/(?:export|function|let|var|static|readonly|keyof)(?!\w|\s*[:?,;=)}]|(?<!readonly)(?<!keyof)\s*\()/
 INT         = [NEG] ( /[1-9][0-9]+/ | /[0-9]/ )
 NEG         = `-`
 FRAC        = [ DOT /[0-9]+/ ]
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 9cd0560..b932d7c 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,9 +138,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "7bde6345f03305114d11de968cd6e5df"
+    source_hash__ = "6a2dd3e371b85bfc113ad086e29b95c7"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:_top_level_assignment$|_namespace$|EOF$|_quoted_identifier$|_array_ellipsis$|_top_level_literal$|FRAC$|INT$|DOT$|EXP$|_part$|NEG$)')
+    disposable__ = re.compile('(?:_quoted_identifier$|_top_level_literal$|_keyword$|EOF$|_part$|DOT$|_array_ellipsis$|_namespace$|EXP$|_top_level_assignment$|NEG$|FRAC$|INT$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*)\n?|(?:/\*(?:.|\n)*?\*/) *\n?'
@@ -155,18 +155,19 @@ class ts2pythonGrammar(Grammar):
     FRAC = Option(Series(DOT, RegExp('[0-9]+')))
     NEG = Text("-")
     INT = Series(Option(NEG), SmartRE(f'([1-9][0-9]+|[0-9])', '/[1-9][0-9]+/|/[0-9]/'))
+    _keyword = SmartRE(f'(?=(?:export|function|let|var|static|readonly|keyof)(?!\\w|\\s*[:?,;=)}}]|(?<!readonly)(?<!keyof)\\s*\\())', '&/(?:export|function|let|var|static|readonly|keyof)(?!\\w|\\s*[:?,;=)}]|(?<!readonly)(?<!keyof)\\s*\\()/')
     _part = RegExp('(?!\\d)\\w+')
-    identifier = Series(SmartRE(f'(?!true|false)', '!`true`|`false`'), _part, dwsp__)
-    name = Series(SmartRE(f'(?!true|false)', '!`true`|`false`'), _part, ZeroOrMore(Series(Text("."), _part)), dwsp__)
+    identifier = Series(SmartRE(f'(?!(?:true|false)(?!\\w))', '!/(?:true|false)(?!\\w)/'), _part, dwsp__)
+    name = Series(SmartRE(f'(?!(?:true|false)(?!\\w))', '!/(?:true|false)(?!\\w)/'), _part, ZeroOrMore(Series(Text("."), _part)), dwsp__)
     _quoted_identifier = Alternative(identifier, Series(Series(Drop(Text('"')), dwsp__), identifier, Series(Drop(Text('"')), dwsp__), mandatory=2), Series(Series(Drop(Text("\'")), dwsp__), identifier, Series(Drop(Text("\'")), dwsp__), mandatory=2))
     variable = Synonym(name)
-    basic_type = SmartRE(f'(?P<:Text>object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?P<comment__>{WSP_RE__})', '`object`|`array`|`string`|`number`|`boolean`|`null`|`integer`|`uinteger`|`decimal`|`unknown`|`any`|`void` ~')
+    basic_type = SmartRE(f'(?P<:Text>object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?!\\w)(?P<comment__>{WSP_RE__})', '`object`|`array`|`string`|`number`|`boolean`|`null`|`integer`|`uinteger`|`decimal`|`unknown`|`any`|`void` !/\\w/ ~')
     key = Alternative(identifier, Series(Series(Drop(Text('"')), dwsp__), identifier, Series(Drop(Text('"')), dwsp__)))
     association = Series(key, Series(Drop(Text(":")), dwsp__), literal, mandatory=1)
     object = Series(Series(Drop(Text("{")), dwsp__), Option(Series(association, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), association)))), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__))
     array = Series(Series(Drop(Text("[")), dwsp__), Option(Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal)))), Series(Drop(Text("]")), dwsp__))
     string = SmartRE(f'("[^"\\n]*")(?P<comment__>{WSP_RE__})|(\'[^\'\\n]*\')(?P<comment__>{WSP_RE__})', '/"[^"\\n]*"/ ~|/\'[^\'\\n]*\'/ ~')
-    boolean = SmartRE(f'(?P<:Text>true|false)(?P<comment__>{WSP_RE__})', '`true`|`false` ~')
+    boolean = SmartRE(f'(?P<:Text>true|false)(?!\\w)(?P<comment__>{WSP_RE__})', '`true`|`false` !/\\w/ ~')
     number = Series(INT, FRAC, EXP, dwsp__)
     integer = Series(INT, SmartRE(f'(?![.Ee])', '!/[.Ee]/'), dwsp__)
     type_name = Synonym(name)
@@ -177,8 +178,8 @@ class ts2pythonGrammar(Grammar):
     const = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("const")), dwsp__), declaration, Option(Series(Series(Drop(Text("=")), dwsp__), Alternative(literal, identifier))), Series(Drop(Text(";")), dwsp__), mandatory=2)
     item = Series(_quoted_identifier, Option(Series(Series(Drop(Text("=")), dwsp__), literal)))
     enum = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("enum")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), item, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), item)), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__), mandatory=3)
-    keyof = Series(Text("keyof"), dwsp__)
-    readonly = Series(Text("readonly"), dwsp__)
+    keyof = Series(_keyword, Series(Drop(Text("keyof")), dwsp__))
+    readonly = Series(_keyword, Series(Drop(Text("readonly")), dwsp__))
     optional = Series(Text("?"), dwsp__)
     func_type = Series(Option(Series(Drop(Text("new")), dwsp__)), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Series(Drop(Text("=>")), dwsp__), types)
     extends = Series(SmartRE(f'(?:extends)(?P<comment__>{WSP_RE__})|(?:implements)(?P<comment__>{WSP_RE__})', '"extends"|"implements"'), Alternative(generic_type, type_name), ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), Alternative(generic_type, type_name))))
@@ -193,7 +194,7 @@ class ts2pythonGrammar(Grammar):
     array_types = Synonym(array_type)
     array_of = Series(array_types, Series(Drop(Text("[]")), dwsp__))
     equals_type = Series(Series(Drop(Text("=")), dwsp__), Alternative(basic_type, type_name))
-    parameter_type = Series(Option(Series(Drop(Text("readonly")), dwsp__)), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, Option(extends_type), Option(equals_type)), declarations_block, type_tuple, declarations_tuple))
+    parameter_type = Series(Option(Series(_keyword, Series(Drop(Text("readonly")), dwsp__))), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, Option(extends_type), Option(equals_type)), declarations_block, type_tuple, declarations_tuple))
     parameter_types = Series(Option(Series(Drop(Text("|")), dwsp__)), parameter_type, ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), parameter_type)))
     type_parameters = Series(Series(Drop(Text("<")), dwsp__), parameter_types, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), parameter_types)), Series(Drop(Text(">")), dwsp__), mandatory=1)
     interface = Series(Option(Series(Drop(Text("export")), dwsp__)), Option(Series(Drop(Text("declare")), dwsp__)), SmartRE(f'(?:interface)(?P<comment__>{WSP_RE__})|(?:class)(?P<comment__>{WSP_RE__})', '"interface"|"class"'), identifier, Option(type_parameters), Option(extends), declarations_block, Option(Series(Drop(Text(";")), dwsp__)), mandatory=3)
@@ -203,7 +204,7 @@ class ts2pythonGrammar(Grammar):
     alias = Synonym(identifier)
     namespace = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__), mandatory=2)
     virtual_enum = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(declaration, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__))
-    static = Series(Text("static"), dwsp__)
+    static = Series(_keyword, Series(Drop(Text("static")), dwsp__))
     _namespace = Alternative(virtual_enum, namespace)
     qualifiers = Interleave(readonly, static, repetitions=[(0, 1), (0, 1)])
     special = Series(Series(Drop(Text("[")), dwsp__), name, Series(Drop(Text("]")), dwsp__), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=4)
@@ -215,11 +216,11 @@ class ts2pythonGrammar(Grammar):
     module = Series(Series(Drop(Text("declare")), dwsp__), Series(Drop(Text("module")), dwsp__), _quoted_identifier, Series(Drop(Text("{")), dwsp__), document, Series(Drop(Text("}")), dwsp__))
     literal.set(Alternative(integer, number, boolean, string, array, object))
     generic_type.set(Series(type_name, type_parameters))
-    type.set(Series(Option(Series(Drop(Text("readonly")), dwsp__)), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
+    type.set(Series(Option(Series(_keyword, Series(Drop(Text("readonly")), dwsp__))), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
     types.set(Series(Option(Series(Drop(Text("|")), dwsp__)), Alternative(intersection, type), ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), Alternative(intersection, type)))))
     arg_list.set(Series(Alternative(Series(argument, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), argument)), Option(Series(Series(Drop(Text(",")), dwsp__), arg_tail))), arg_tail), Option(Series(Drop(Text(",")), dwsp__))))
-    function.set(Alternative(Series(Option(Series(Option(Series(Drop(Text("export")), dwsp__)), Option(static), Option(Series(Drop(Text("function")), dwsp__)), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
-    declaration.set(Series(qualifiers, Option(SmartRE(f'(?:let)(?P<comment__>{WSP_RE__})|(?:var)(?P<comment__>{WSP_RE__})', '"let"|"var"')), identifier, Option(optional), NegativeLookahead(Text("(")), Option(Series(Series(Drop(Text(":")), dwsp__), types))))
+    function.set(Alternative(Series(Option(Series(Option(Series(_keyword, Series(Drop(Text("export")), dwsp__))), Option(static), Option(Series(_keyword, Series(Drop(Text("function")), dwsp__))), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
+    declaration.set(Series(qualifiers, Option(Series(_keyword, SmartRE(f'(?:let)(?P<comment__>{WSP_RE__})|(?:var)(?P<comment__>{WSP_RE__})', '"let"|"var"'))), identifier, Option(optional), NegativeLookahead(Text("(")), Option(Series(Series(Drop(Text(":")), dwsp__), types))))
     declarations_block.set(Series(Series(Drop(Text("{")), dwsp__), Option(Series(Alternative(function, declaration), ZeroOrMore(Series(Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')), Alternative(function, declaration))), Option(Series(Series(Drop(Text(";")), dwsp__), map_signature)), Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')))), Series(Drop(Text("}")), dwsp__)))
     document.set(Series(dwsp__, ZeroOrMore(Alternative(interface, type_alias, _namespace, enum, const, module, _top_level_assignment, _array_ellipsis, _top_level_literal, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)), Series(Import, Series(Drop(Text(";")), dwsp__))))))
     root = Series(document, EOF)
-- 
2.43.0


From 3a717010153cd96764c5ce8bdd4a66c2aedd6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 38/41] fix: function types with parameters that have no type,
 or a literal type with an asterisk

---
 ts2pythonParser.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index b932d7c..476631b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -879,9 +879,11 @@ class ts2pythonCompiler(Compiler):
         breadcrumb = '/'.join(nd.name for nd in self.path)
         if breadcrumb.rfind('func_type') > breadcrumb.rfind('function'):
             arg_list = [self.compile(nd) for nd in node.children]
-            if any(arg[0:1] == '*' for arg in arg_list):
+            if any(nd.name == 'arg_tail' or 'optional' in nd for nd in node.children):
+                # See https://docs.python.org/3/library/typing.html#typing.Callable
                 return '...'
-            return ', '.join(re.sub(r'^\w+\s*:\s*', '', arg) for arg in arg_list)
+            return ', '.join(re.sub(r'^\w+\s*:\s*', '', arg) if 'types' in nd else 'Any'
+                             for nd, arg in zip(node.children, arg_list))
         return ', '.join(self.compile(nd) for nd in node.children)
 
     def on_arg_tail(self, node):
@@ -1070,12 +1072,7 @@ class ts2pythonCompiler(Compiler):
     def on_func_type(self, node) -> str:
         if 'arg_list' in node:
             arg_list = self.compile(node["arg_list"])
-            if  arg_list == "..." or arg_list.find('= None') >= 0 \
-                    or arg_list.find('*') >= 0:
-                # See https://docs.python.org/3/library/typing.html#typing.Callable
-                args = '...'
-            else:
-                args = f'[{arg_list}]'
+            args = arg_list if arg_list == "..." else f'[{arg_list}]'
         else:
             args = '[]'
         types = self.compile(node["types"])
-- 
2.43.0


From fb3d4ac0889cf455d48065823fffaf4b86dc8e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 39/41] fix: overloaded methods after a call signature
 overwrote each other

---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 476631b..4b146dc 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -758,6 +758,7 @@ class ts2pythonCompiler(Compiler):
         first_use: Dict[str, Node] = dict()
         try:
             for func_decl in as_list(scope['function']):
+                if 'identifier' not in func_decl:  continue  # call signature
                 name = func_decl['identifier'].content
                 if keyword.iskeyword(name):
                     name += '_'
-- 
2.43.0


From 686fecec260f5d1e23fecd60b8cd7a977004b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 40/41] fix: function types with a single parameter without
 type were not recognized

---
 ts2python.ebnf     | 2 +-
 ts2pythonParser.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index e967c78..ccc20f4 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -104,7 +104,7 @@ types       = ["|"] (intersection | type) { "|" (intersection | type) }
 intersection = type { "&" §type }+
 type        = [_keyword "readonly"]
             ( array_of | basic_type | generic_type | indexed_type
-            | type_name !`(` | "(" types ")" | mapped_type
+            | type_name !`(` | "(" types ")" !`=>` | mapped_type
             | declarations_block | type_tuple | declarations_tuple
             | literal | func_type )
 
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 4b146dc..70ed79f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,9 +138,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "6a2dd3e371b85bfc113ad086e29b95c7"
+    source_hash__ = "8aad17000cfd3e4bdc409c94401730d6"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:_quoted_identifier$|_top_level_literal$|_keyword$|EOF$|_part$|DOT$|_array_ellipsis$|_namespace$|EXP$|_top_level_assignment$|NEG$|FRAC$|INT$)')
+    disposable__ = re.compile('(?:INT$|_array_ellipsis$|_part$|EOF$|FRAC$|NEG$|_keyword$|EXP$|_top_level_literal$|_quoted_identifier$|_namespace$|_top_level_assignment$|DOT$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*)\n?|(?:/\*(?:.|\n)*?\*/) *\n?'
@@ -216,7 +216,7 @@ class ts2pythonGrammar(Grammar):
     module = Series(Series(Drop(Text("declare")), dwsp__), Series(Drop(Text("module")), dwsp__), _quoted_identifier, Series(Drop(Text("{")), dwsp__), document, Series(Drop(Text("}")), dwsp__))
     literal.set(Alternative(integer, number, boolean, string, array, object))
     generic_type.set(Series(type_name, type_parameters))
-    type.set(Series(Option(Series(_keyword, Series(Drop(Text("readonly")), dwsp__))), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
+    type.set(Series(Option(Series(_keyword, Series(Drop(Text("readonly")), dwsp__))), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__), NegativeLookahead(Text("=>"))), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
     types.set(Series(Option(Series(Drop(Text("|")), dwsp__)), Alternative(intersection, type), ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), Alternative(intersection, type)))))
     arg_list.set(Series(Alternative(Series(argument, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), argument)), Option(Series(Series(Drop(Text(",")), dwsp__), arg_tail))), arg_tail), Option(Series(Drop(Text(",")), dwsp__))))
     function.set(Alternative(Series(Option(Series(Option(Series(_keyword, Series(Drop(Text("export")), dwsp__))), Option(static), Option(Series(_keyword, Series(Drop(Text("function")), dwsp__))), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
-- 
2.43.0


From 818fba247c1df11f4563eee44af153b8afa4b7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 41/41] fix: names beginning with "export" were truncated in
 namespaces, too

---
 ts2python.ebnf     | 6 +++---
 ts2pythonParser.py | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index ccc20f4..484f7f7 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -31,7 +31,7 @@
 root        = document EOF
 document    = ~ { interface | type_alias | _namespace | enum | const | module
                 | _top_level_assignment | _array_ellipsis | _top_level_literal
-                | ["export"] declaration ";" | ["export"] function ";"
+                | [_keyword "export"] declaration ";" | [_keyword "export"] function ";"
                 | Import ";" }
 
 @interface_resume = /(?=export|$)/
@@ -152,8 +152,8 @@ virtual_enum = ["export"] "namespace" identifier "{"
 
 namespace    = ["export"] "namespace" §identifier "{"
                { interface | type_alias | enum | const
-               | ["export"] declaration ";"
-               | ["export"] function ";" }  "}"
+               | [_keyword "export"] declaration ";"
+               | [_keyword "export"] function ";" }  "}"
 
 #######################################################################
 #
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 70ed79f..f6a0dda 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,9 +138,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "8aad17000cfd3e4bdc409c94401730d6"
+    source_hash__ = "0c5645a0870e8d3b296d8e26b370d976"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:INT$|_array_ellipsis$|_part$|EOF$|FRAC$|NEG$|_keyword$|EXP$|_top_level_literal$|_quoted_identifier$|_namespace$|_top_level_assignment$|DOT$)')
+    disposable__ = re.compile('(?:NEG$|INT$|_array_ellipsis$|EOF$|_top_level_assignment$|DOT$|_namespace$|_part$|_top_level_literal$|_quoted_identifier$|FRAC$|_keyword$|EXP$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*)\n?|(?:/\*(?:.|\n)*?\*/) *\n?'
@@ -202,7 +202,7 @@ class ts2pythonGrammar(Grammar):
     wildcard = Series(Text("*"), dwsp__)
     intersection = Series(type, OneOrMore(Series(Series(Drop(Text("&")), dwsp__), type, mandatory=1)))
     alias = Synonym(identifier)
-    namespace = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__), mandatory=2)
+    namespace = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(Option(Series(_keyword, Series(Drop(Text("export")), dwsp__))), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(_keyword, Series(Drop(Text("export")), dwsp__))), function, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__), mandatory=2)
     virtual_enum = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(declaration, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__))
     static = Series(_keyword, Series(Drop(Text("static")), dwsp__))
     _namespace = Alternative(virtual_enum, namespace)
@@ -222,7 +222,7 @@ class ts2pythonGrammar(Grammar):
     function.set(Alternative(Series(Option(Series(Option(Series(_keyword, Series(Drop(Text("export")), dwsp__))), Option(static), Option(Series(_keyword, Series(Drop(Text("function")), dwsp__))), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
     declaration.set(Series(qualifiers, Option(Series(_keyword, SmartRE(f'(?:let)(?P<comment__>{WSP_RE__})|(?:var)(?P<comment__>{WSP_RE__})', '"let"|"var"'))), identifier, Option(optional), NegativeLookahead(Text("(")), Option(Series(Series(Drop(Text(":")), dwsp__), types))))
     declarations_block.set(Series(Series(Drop(Text("{")), dwsp__), Option(Series(Alternative(function, declaration), ZeroOrMore(Series(Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')), Alternative(function, declaration))), Option(Series(Series(Drop(Text(";")), dwsp__), map_signature)), Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')))), Series(Drop(Text("}")), dwsp__)))
-    document.set(Series(dwsp__, ZeroOrMore(Alternative(interface, type_alias, _namespace, enum, const, module, _top_level_assignment, _array_ellipsis, _top_level_literal, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)), Series(Import, Series(Drop(Text(";")), dwsp__))))))
+    document.set(Series(dwsp__, ZeroOrMore(Alternative(interface, type_alias, _namespace, enum, const, module, _top_level_assignment, _array_ellipsis, _top_level_literal, Series(Option(Series(_keyword, Series(Drop(Text("export")), dwsp__))), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(_keyword, Series(Drop(Text("export")), dwsp__))), function, Series(Drop(Text(";")), dwsp__)), Series(Import, Series(Drop(Text(";")), dwsp__))))))
     root = Series(document, EOF)
     resume_rules__ = {'interface': [re.compile(r'(?=export|$)')],
                       'type_alias': [re.compile(r'(?=export|$)')],
-- 
2.43.0

