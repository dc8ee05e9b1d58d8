"""Contracts of ts2python/json_validation.py (V01, V02, V03)."""
import os
import z3
from pydv.engine import *
from pydv.interp import Exec
from pydv.spec import Spec, model, repo_fn, params_of
from . import world_types as W

HERE = os.path.dirname(os.path.abspath(__file__))
MOD = 'ts2python.json_validation'
TE, VE = 'builtins.TypeError', 'builtins.ValueError'


def new_interp(reflect, deadline=None):
    I = Exec(reflect, deadline=deadline)
    I.W = W.World(I)
    env = dict(W.NAMES)

    def kind(I, t): return W.kindof(t.t) + (0 if I.W.kind_is(t, W.NONE) is None else 0) if isinstance(t, Sym) else I.W.static_kind(t)
    env.update(
        kind=model(kind),
        conforms=model(lambda I, v, t: conf(I, v, t)),
        origin_of=model(lambda I, t: Sym(W.torigin(t.t), 'type')),
        enum_values=model(lambda I, t: ASeq(W.enum_n(t.t), lambda j: Sym(W.enum_val(t.t, zint(j)), 'data'))),
        literal_values=model(lambda I, t: ASeq(W.tnargs(t.t), lambda j: Sym(W.targ_data(t.t, zint(j)), 'data'))),
        args_of=model(lambda I, t: ASeq(W.tnargs(t.t), lambda j: Sym(W.targ(t.t, zint(j)), 'type'))),
        arg_of=model(lambda I, t, j: Sym(W.targ(t.t, z3.IntVal(j)), 'type')),
        required_keys=model(lambda I, t: ASet(lambda k: W.req_has(t.t, I.to_obj(k)))),
        optional_keys=model(lambda I, t: ASet(lambda k: W.opt_has(t.t, I.to_obj(k)))),
        hints_of=model(lambda I, t: I.W.hints_map(t)))
    I.spec = Spec(I, os.path.join(HERE, 'spec_validation.py'), env)
    install_contracts(I)
    for ax in unfolding_axioms(I): I.fact(ax)
    I.stats['paths'] = 0
    return I


def conf(I, v, t):
    if isinstance(t, Ext): I.W.known_kind(t)
    return W.conforms(I.to_obj(v), I.to_obj(t))


def verdict(I, ok):
    if I.truth(ok): return None
    raise PyRaise(Exc([TE, VE]))


def two(args, kwargs, f):
    """Positional view of the two parameters of a contracted function."""
    ps = params_of(f)
    if len(ps) != 2 or f.node.args.vararg or f.node.args.kwarg or f.node.args.kwonlyargs:
        raise Unsupported(f'changed signature of {f.qual}')
    vals = dict(zip(ps, args)); vals.update(kwargs)
    if len(vals) != 2 or set(vals) != set(ps): raise Unsupported(f'call of {f.qual}')
    return vals[ps[0]], vals[ps[1]]


RANK = {'validate_uniform_sequence': 1, 'validate_TypedDict': 1, 'validate_compound_type': 1, 'validate_type': 2}


def decreases(I, f, v, t):
    """Termination: (size of the data, size of the type, rank of the function) decreases."""
    cur = getattr(I, 'measure', None)
    if cur is None: return
    v0, t0, r0 = cur
    vt = getattr(v, 'src', None)
    if vt is None: vt = I.to_obj(v)
    tt = I.to_obj(t)
    r = RANK[f.node.name]
    a, b, c, d = W.size(vt), W.size(v0), W.tsize(tt), W.tsize(t0)
    I.prove(z3.Or(a < b, z3.And(a == b, z3.Or(c < d, z3.And(c == d, z3.BoolVal(r < r0))))),
            f'termination: recursive call of {f.node.name}')


def c_validate_type(I, f, args, kwargs):
    v, t = two(args, kwargs, f)
    decreases(I, f, v, t)
    return verdict(I, conf(I, v, t))


def c_validate_compound(I, f, args, kwargs):
    v, t = two(args, kwargs, f)
    decreases(I, f, v, t)
    I.prove(I.W.kind_is(t, *W.COMPOUND) if isinstance(t, Sym) else False, 'precondition of validate_compound_type: T has arguments')
    return verdict(I, conf(I, v, t))


def c_validate_typeddict(I, f, args, kwargs):
    v, t = two(args, kwargs, f)
    decreases(I, f, v, t)
    I.prove(I.W.is_td(t), 'precondition of validate_TypedDict: T is a TypedDict-class')
    I.prove(I.W.is_cls(v, 'dict') if isinstance(v, Sym) else False, 'precondition of validate_TypedDict: D is a dictionary')
    return verdict(I, conf(I, v, t))


def c_validate_seq(I, f, args, kwargs):
    s, t = two(args, kwargs, f)
    decreases(I, f, s, t)
    return verdict(I, I.spec.call('spec_sequence', s, t))


CONTRACTS = {'validate_type': c_validate_type, 'validate_compound_type': c_validate_compound,
             'validate_TypedDict': c_validate_typeddict, 'validate_uniform_sequence': c_validate_seq}


def install_contracts(I):
    for n, c in CONTRACTS.items(): I.contracts[f'{MOD}.{n}'] = c


UNFOLD_ALL = (W.CLASS, W.ANY, W.TYPEVAR, W.NONE, W.ENUM, W.LITERAL)    # no recursion: general trigger
UNFOLD_FIELDS = (W.UNION, W.TD, W.TDALIAS)                              # trigger: types of fields


def unfolding_axioms(I):
    """Instances of the definition of `conforms`, read off from the executable specification:
    one implication per path of spec_conforms (paths that need second-order quantification
    are left out, which only weakens the axioms)."""
    v, t = z3.Const('uv', Obj), z3.Const('ut', Obj)
    T, k = z3.Consts('uT uk', Obj)
    out = []
    for kinds, general in ((UNFOLD_ALL, True), (UNFOLD_FIELDS, False)):
        for K in kinds:
            def thunk():
                I.assume(W.kindof(t) == K)
                return I.truth(I.spec.call('spec_conforms', Sym(v, 'data'), Sym(t, 'type')))
            for kind, r, pcs, heap, facts in I.explore(thunk):
                if kind != 'normal': continue
                body = z3.Implies(z3.And(pcs), W.conforms(v, t) == z3.BoolVal(r))
                fresh = fresh_symbols(body)
                if fresh is None: continue
                pat = []
                for x in fresh:
                    q = app_with(body, x)
                    if q is None: break
                    pat.append(q)
                else:
                    bound, p0, sub = ([v, t], W.conforms(v, t), []) if general else ([v, T, k], W.conforms(v, W.hint_of(T, k)), [(t, W.hint_of(T, k))])
                    body, pat = z3.substitute(body, *sub) if sub else body, [z3.substitute(q, *sub) if sub else q for q in pat]
                    out.append(z3.ForAll(bound + fresh, body, patterns=[z3.MultiPattern(p0, *pat) if pat else p0]))
    return out


def fresh_symbols(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name():
            if x.num_args(): return None
            out.append(x)
        st.extend(x.children())
    return out


def app_with(t, x):
    seen, st = set(), [t]
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_quantifier(y): continue
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(z3.eq(c, x) for c in y.children()): return y
        st.extend(y.children())
    return None


def run_fn(I, f, args):
    """Runs the body of the function under proof: ('return', v) or ('raise', exc)."""
    I.measure = (args[0].t, args[1].t, RANK[f.node.name])
    try: return 'return', I.inline(f, args, {})
    except PyRaise as e: return 'raise', e.exc
    finally: I.measure = None


def compare_verdict(I, name, outcome, spec_thunk, want_none=True, define=None):
    """Postcondition: returns (None) iff the specification accepts; raises only TypeError/ValueError."""
    kind, val = outcome
    if kind == 'raise':
        bad = val.classes - {TE, VE}
        I.prove(not bad, f'{name}: raises only TypeError or ValueError ({", ".join(sorted(bad))})' if bad else
                f'{name}: raises only TypeError or ValueError')
    elif want_none: I.prove(val is None, f'{name}: returns None')
    r = I.truth(spec_thunk())
    if define is not None: I.assume(define == z3.BoolVal(r))   # `conforms` is defined by the specification
    if kind == 'return': I.prove(r, f'{name}: accepts only conforming values')
    else: I.prove(not r, f'{name}: rejects only non-conforming values')
    return kind


def data(I): return Sym(z3.Const('val', Obj), 'data')


def typ(I):
    t = Sym(z3.Const('T', Obj), 'type')
    I.W.type_facts(t.t)
    return t


def prove_validate_type(I):
    f = repo_fn(I, MOD, ['validate_type'])
    if f is None: raise Unsupported('validate_type not found')

    def thunk():
        v, t = data(I), typ(I)
        return compare_verdict(I, 'validate_type', run_fn(I, f, [v, t]), lambda: I.spec.call('spec_conforms', v, t), define=conf(I, v, t))
    return f, I.explore(thunk)


def prove_compound(I):
    f = repo_fn(I, MOD, ['validate_compound_type'])
    if f is None: return None

    def thunk():
        v, t = data(I), typ(I)
        I.assume(I.W.kind_is(t, *W.COMPOUND))
        return compare_verdict(I, 'validate_compound_type', run_fn(I, f, [v, t]), lambda: I.spec.call('spec_conforms', v, t), define=conf(I, v, t))
    return f, I.explore(thunk)


def prove_typeddict(I):
    f = repo_fn(I, MOD, ['validate_TypedDict'])
    if f is None: return None

    def thunk():
        v, t = data(I), typ(I)
        I.assume(I.W.is_td(t)); I.assume(I.W.is_cls(v, 'dict'))
        return compare_verdict(I, 'validate_TypedDict', run_fn(I, f, [v, t]), lambda: I.spec.call('spec_conforms', v, t), define=conf(I, v, t))
    return f, I.explore(thunk)


def prove_sequence(I):
    f = repo_fn(I, MOD, ['validate_uniform_sequence'])
    if f is None: return None

    def thunk():
        v, t = data(I), typ(I)
        I.assume(z3.Or([I.W.is_cls(v, n) for n in ('list', 'tuple', 'dict')]))
        return compare_verdict(I, 'validate_uniform_sequence', run_fn(I, f, [v, t]), lambda: I.spec.call('spec_sequence', v, t))
    return f, I.explore(thunk)


V01 = [('validate_type', prove_validate_type), ('validate_compound_type', prove_compound),
       ('validate_TypedDict', prove_typeddict), ('validate_uniform_sequence', prove_sequence)]
