"""Joining of paths after an if-statement: both branches are executed completely, then the
resulting states are merged with if-then-else terms. A path whose state cannot be merged (or that
ends with an exception, return, break...) is continued separately. Sound: the path conditions of
the merged paths have to be pairwise exclusive, together with the separate paths they are
exhaustive, and values that have no if-then-else form cannot be used after the join."""
import z3
from .engine import *


class NoMerge(Exception): pass


def same(a, b):
    if a is b: return True
    if is_z3(a) and is_z3(b): return z3.eq(a, b)
    if type(a) is not type(b): return False
    if isinstance(a, (str, int, bool, float, type(None))): return a == b
    if isinstance(a, Ref): return a.a == b.a
    if isinstance(a, Sym): return a.k == b.k and z3.eq(a.t, b.t)
    if isinstance(a, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def ite(conds, vals, strict):
    if all(same(v, vals[0]) for v in vals): return vals[0]
    for test, conv in ((is_bool, zbool), (is_str, zstr), (is_int, zint)):
        if all(test(v) for v in vals):
            r = conv(vals[-1])
            for c, v in list(zip(conds, vals))[-2::-1]: r = z3.If(c, conv(v), r)
            return z3.simplify(r)
    if strict: raise NoMerge()
    return Poison('differs between the branches of an if-statement')


def merge_states(conds, heaps, next_addr):
    """The merged heap, below next_addr; objects created in the branches are dropped."""
    out = {}
    for a in heaps[0]:
        if a >= next_addr: continue
        cells = [h.get(a) for h in heaps]
        c = cells[0]
        if all(x is c for x in cells): out[a] = c; continue
        if isinstance(c, FrameCell):
            names = []
            for x in cells:
                if not same(tuple(x.vars.get('%nonlocal', ())), tuple(c.vars.get('%nonlocal', ()))): raise NoMerge()
                names += [n for n in x.vars if n not in names]
            vs = {}
            for n in names:
                if all(n in x.vars for x in cells): v = [x.vars[n] for x in cells]
                else: vs[n] = Poison('not bound in all branches of an if-statement'); continue
                if n[0] == '%': vs[n] = v[0]; continue
                w = ite(conds, v, False)
                if any(isinstance(x, Ref) and x.a >= next_addr for x in v): raise NoMerge()
                if not isinstance(w, (Poison, Ref, Sym)) and not (is_z3(w) or isinstance(w, (str, int, bool, float, type(None)))):
                    if not all(x is v[0] for x in v): w = Poison('differs between the branches of an if-statement')
                vs[n] = w
            out[a] = FrameCell(vs, c.parent)
        elif isinstance(c, ObjCell):
            if any(x.cls != c.cls or set(x.attrs) != set(c.attrs) for x in cells): raise NoMerge()
            at = {}
            for n in c.attrs:
                at[n] = ite(conds, [x.attrs[n] for x in cells], True)
                if isinstance(at[n], Ref) and at[n].a >= next_addr: raise NoMerge()
            out[a] = ObjCell(c.cls, at)
        else: raise NoMerge()
    return out


def decided(I, test):
    """The truth value of the test if it does not depend on the path; None otherwise."""
    heap, na, fn, depth, cs, ls = I.heap, I.next_addr, I.fresh_no, I.depth, list(I.call_stack), list(I.log_stack)
    fa, sm = I.frame_addr, I.spec_mode
    I.heap = dict(heap)
    I.log_stack = []
    I.pure = True
    try: return bool(I.truth(I.ev(test)))
    except (NotPure, PyRaise, Unsupported): return None
    finally:
        I.pure = False
        I.frame_addr, I.spec_mode = fa, sm
        I.heap, I.next_addr, I.fresh_no, I.depth, I.call_stack, I.log_stack = heap, na, fn, depth, cs, ls


def exec_if(I, s):
    """Executes if-statement s."""
    t = decided(I, s.test)
    if t is not None: return I.exec_block(s.body if t else s.orelse)
    base, frame = I.next_addr, I.frame_addr
    memo = I.__dict__.setdefault('if_memo', {})
    key = (id(s), I.path_key(), base)
    if key in memo:
        I.levels[-1]['sub'] = I.levels[-1].get('sub', 0) + 1
        return proceed(I, memo[key], base, frame)
    log = []

    def thunk():
        I.log_stack = I.log_stack + [[]]
        try:
            if I.truth(I.ev(s.test)): I.exec_block(s.body)
            else: I.exec_block(s.orelse)
        finally:
            log.append(I.log_stack[-1])
            I.log_stack = I.log_stack[:-1]
    res = I.explore(thunk)
    if not res: raise Infeasible()
    normal = [r for r in res if r[0] == 'normal']
    other = [r for r in res if r[0] != 'normal']
    cond = lambda r: z3.And(r[2]) if r[2] else z3.BoolVal(True)
    conds = [cond(r) for r in res]
    for i in range(len(conds)):
        for j in range(i):
            if not exclusive(conds[i], conds[j]) and not I.valid(z3.Not(z3.And(conds[i], conds[j]))):
                raise Unsupported('join of paths that are not exclusive')
    alts = []
    if len(normal) > 1:
        try:
            cs = [cond(r) for r in normal]
            heap = merge_states(cs, [r[3] for r in normal], base)
            alts.append(('normal', None, z3.Or(cs), heap))
        except NoMerge:
            alts += [('normal', None, cond(r), r[3]) for r in normal]
    else: alts += [('normal', None, cond(r), r[3]) for r in normal]
    alts += [(r[0], r[1], cond(r), r[3]) for r in other]
    memo[key] = (alts, [f for r in res for f in r[4]], [w for l in log for w in l], I.max_fresh)
    proceed(I, memo[key], base, frame)


def proceed(I, summary, base, frame):
    alts, facts, log, max_fresh = summary
    for ws in I.log_stack: ws.extend(log)
    I.fresh_no = max(I.fresh_no, max_fresh)
    for f in facts: I.fact(f)
    k = I.choose(len(alts))
    kind, val, c, heap = alts[k]
    I.heap = dict(heap)
    I.next_addr = max(list(heap) + [base - 1]) + 1
    I.frame_addr = frame
    if len(alts) > 1: I.assume(c)
    if kind == 'raise': raise PyRaise(val)
    if kind == 'return': raise ReturnEx(val)
    if kind == 'break': raise BreakEx()
    if kind == 'continue': raise ContinueEx()


def exclusive(a, b):
    """Syntactic check: a and b contain complementary literals."""
    la = a.children() if z3.is_and(a) else [a]
    lb = b.children() if z3.is_and(b) else [b]
    for x in la:
        for y in lb:
            if z3.is_not(x) and z3.eq(x.arg(0), y) or z3.is_not(y) and z3.eq(y.arg(0), x): return True
    return False
