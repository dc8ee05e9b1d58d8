"""pydv - a small deductive verifier for (a subset of) Python.

Symbolic, path-wise verification-condition generation over the *real* source
text (ast of the files in /repo), modular: functions with a contract are
checked against their contract and callers only use the contract; functions
without contract are inlined.  Loops over sequences of unknown length are
summarized exactly by universally quantified statements about an arbitrary
iteration (no unrolling, no bound).  See DESIGN.md, section "The verifier".
"""
import ast, itertools, os, time
import z3

Obj = z3.DeclareSort('Obj')
IntS, BoolS, StrS = z3.IntSort(), z3.BoolSort(), z3.StringSort()


class Unsupported(Exception):
    """Construct outside the verifier's reach: undecided, never 'holds'."""


class Infeasible(Exception):
    """The current path has been cut off."""


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class BreakEx(Exception): pass
class ContinueEx(Exception): pass


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class Limit(Exception):
    """Resource limit of the verifier."""

# ---------------------------------------------------------------- values


class Sym:
    """Symbolic object of sort Obj; `k` is a static hint that selects hooks."""
    __slots__ = ('t', 'k')

    def __init__(self, t, k='obj'):
        self.t, self.k = t, k

    def __repr__(self): return f'<{self.k} {self.t}>'


class Ext:
    """External named object (class, function, special form) - identity known."""
    __slots__ = ('id', 'd')

    def __init__(self, id, d=None):
        self.id, self.d = id, d or {}

    def __repr__(self): return f'Ext({self.id})'
    def __eq__(self, o): return isinstance(o, Ext) and o.id == self.id
    def __hash__(self): return hash(self.id)


class Mod:
    def __init__(self, name): self.name = name
    def __repr__(self): return f'Mod({self.name})'


class Fn:
    """Function of the code under verification (or of a specification)."""
    def __init__(self, node, module, env, qual, defaults=(), kwdefaults=None, cls=None, spec=False):
        self.node, self.module, self.env, self.qual = node, module, env, qual
        self.defaults, self.kwdefaults, self.cls, self.spec = defaults, kwdefaults or {}, cls, spec
        self.props = {}

    def __repr__(self): return f'Fn({self.qual})'


class BM:
    """Bound method: fn is Fn or a python callable model (I, self, args, kwargs)."""
    def __init__(self, self_, fn, name=''):
        self.self_, self.fn, self.name = self_, fn, name

    def __repr__(self): return f'BM({self.name})'


class Model:
    """Python-side model of an external function."""
    def __init__(self, f, name=''):
        self.f, self.name = f, name

    def __repr__(self): return f'Model({self.name})'


class Ref:
    """Reference to a mutable object in the verifier's heap."""
    __slots__ = ('a',)

    def __init__(self, a): self.a = a
    def __repr__(self): return f'Ref({self.a})'
    def __eq__(self, o): return isinstance(o, Ref) and o.a == self.a
    def __hash__(self): return hash(('ref', self.a))


class Poison:
    """Value not determined by the loop summary; reading it is unsupported."""
    def __init__(self, why): self.why = why
    def __repr__(self): return f'Poison({self.why})'


class ASeq:
    """Immutable abstract sequence: n (int or z3 Int), at(j) -> value."""
    def __init__(self, n, at, kind='seq'):
        self.n, self.at, self.kind = n, at, kind


class LazySeq:
    """Sequence f(x) ++ f(x') ++ ... for x, x', ... in base, evaluated within the loop over it."""
    def __init__(self, base, f): self.base, self.f = base, f


class ASet:
    """Immutable abstract set: has(value) -> z3 Bool / bool (identity on keys).
    gen: optional sequence the set was made from (for iteration)"""
    def __init__(self, has, seq=None, name=''):
        self.has, self.seq, self.name = has, seq, name


class NotPure(Exception):
    """The value of a sequence element depends on a case distinction."""


class Comp:
    """Segment of a list: for j in 0..n-1 the values of the alternative that
    applies; alts: [(condition(j0), [values(j0)])]; exactly one applies"""
    __slots__ = ('n', 'j0', 'alts')

    def __init__(self, n, j0, alts):
        self.n, self.j0, self.alts = n, j0, alts


class Exc:
    """Exception value; classes: frozenset of possible class ids."""
    def __init__(self, classes, args=(), attrs=None):
        self.classes, self.args, self.attrs = frozenset(classes), args, attrs or {}

    def __repr__(self): return f'Exc({sorted(self.classes)})'


# cells (immutable; replaced on write)
class ListCell:
    __slots__ = ('segs', 'acc', 'kind', 'origin')

    def __init__(self, segs=(), acc=False, kind='list', origin=None):
        self.segs, self.acc, self.kind = tuple(segs), acc, kind
        self.origin = origin        # (text, separator) of the pieces of a split text


class DictCell:
    """layers: tuple of ('set', key, value) / ('del', key) / ('amap', AMap), applied in order.
    acc: inside of a loop that changes the dictionary, layers are those of this iteration,
    pre (or None) those before the loop."""
    __slots__ = ('layers', 'acc', 'pre')

    def __init__(self, layers=(), acc=False, pre=None):
        self.layers, self.acc, self.pre = tuple(layers), acc, pre

    def readable(self, I, key):
        """Layers to be searched for key; inside of a loop the summary verifies afterwards
        that no earlier iteration can have written the key."""
        if not self.acc: return self.layers
        if self.pre is None or not I.dict_reads: raise Unsupported('reading a dictionary that is being filled by the loop')
        I.dict_reads[-1].append(I.to_obj(key))
        return tuple(self.pre) + self.layers


class AMap:
    """Abstract mapping as a layer: has(k)->Bool, get(k)->value, seq: ASeq of keys or None"""
    def __init__(self, has, get, seq=None, name=''):
        self.has, self.get, self.seq, self.name = has, get, seq, name


class SetCell:
    """layers: ('add', v) / ('discard', v) / ('union', ASet) / ('minus', ASet)"""
    __slots__ = ('layers', 'acc')

    def __init__(self, layers=(), acc=False):
        self.layers, self.acc = tuple(layers), acc


class ObjCell:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, attrs or {}


class FrameCell:
    __slots__ = ('vars', 'parent')

    def __init__(self, vars, parent):
        self.vars, self.parent = vars, parent


EXC_BASES = {
    'builtins.TypeError': ['builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.ValueError': ['builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.AssertionError': ['builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.AttributeError': ['builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.NameError': ['builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.KeyError': ['builtins.LookupError', 'builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.IndexError': ['builtins.LookupError', 'builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.LookupError': ['builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.StopIteration': ['builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.RuntimeError': ['builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.NotImplementedError': ['builtins.RuntimeError', 'builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.OSError': ['builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.FileNotFoundError': ['builtins.OSError', 'builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.UnicodeDecodeError': ['builtins.ValueError', 'builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.ImportError': ['builtins.Exception', 'builtins.BaseException', 'builtins.object'],
    'builtins.SystemExit': ['builtins.BaseException', 'builtins.object'],
    'builtins.Exception': ['builtins.BaseException', 'builtins.object'],
    'builtins.BaseException': ['builtins.object'],
}
ALIASES = {'typing.Dict': 'builtins.dict', 'typing.List': 'builtins.list', 'typing.Tuple': 'builtins.tuple',
           'typing.Set': 'builtins.set', 'typing.FrozenSet': 'builtins.frozenset', 'builtins.IOError': 'builtins.OSError'}


def is_z3(v): return isinstance(v, z3.ExprRef)
def is_bool(v): return isinstance(v, bool) or (is_z3(v) and v.sort() == BoolS)
def is_int(v): return (isinstance(v, int) and not isinstance(v, bool)) or (is_z3(v) and v.sort() == IntS)
def is_str(v): return isinstance(v, str) or (is_z3(v) and v.sort() == StrS)
def zint(v): return z3.IntVal(v) if isinstance(v, int) else v
def zstr(v): return z3.StringVal(v) if isinstance(v, str) else v
def zbool(v): return z3.BoolVal(v) if isinstance(v, bool) else v


class Obligation:
    __slots__ = ('name', 'status', 'detail', 'time', 'backend')

    def __init__(self, name, status, detail='', t=0.0, backend=''):
        self.name, self.status, self.detail, self.time, self.backend = name, status, detail, t, backend


_file_cache = {}


def load_ast(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _file_cache:
        with open(path, encoding='utf-8') as f:
            _file_cache[key] = ast.parse(f.read(), path)
    return _file_cache[key]


def find_def(tree, qual):
    """Finds the (last) def/class with the qualified name `qual` in a module."""
    body, found = tree.body, None
    parts = qual.replace('.<locals>', '').split('.')
    for i, part in enumerate(parts):
        found = None
        stack = list(body)
        cands = []
        while stack:
            nd = stack.pop(0)
            if isinstance(nd, (ast.FunctionDef, ast.ClassDef)):
                if nd.name == part: cands.append(nd)
            elif isinstance(nd, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    stack = getattr(nd, f, []) + stack
                for h in getattr(nd, 'handlers', []):
                    stack = h.body + stack
        if not cands: return None
        found = cands[-1]
        body = found.body
    return found


def has_slice(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen: return False
    seen.add(t.get_id())
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_INDEX): return True
    return any(has_slice(c, seen) for c in t.children())


def guarded_check(s, cond, timeout):
    """s.check(); goals with substrings are checked in a process of their own, because the string
    solver does not always respect its time limit."""
    if not has_slice(cond): return s.check()
    import os, select, signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try: os.write(w, str(s.check()).encode())
        finally: os._exit(0)
    os.close(w)
    ready = select.select([r], [], [], timeout / 1000 + 2)[0]
    out = os.read(r, 20).decode() if ready else ''
    os.close(r)
    if not ready: os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return {'unsat': z3.unsat, 'sat': z3.sat}.get(out, z3.unknown)


class Interp:
    MAX_PATHS = 30000
    feas_timeout = 400      # ms
    prove_timeout = 8000    # ms

    def __init__(self, reflect, label='', deadline=None):
        self.reflect = reflect
        self.label = label
        self.deadline = deadline
        self.heap = {}
        self.next_addr = 1
        self.fresh_no = 0
        self.pc = []               # path condition
        self.facts = []            # instances of axioms (valid on every path)
        self.proof_cache = {}
        self.memo = {}
        self.solver = z3.Solver()
        # e-matching only: 'unknown' counts as feasible (never cuts off a path)
        self.solver.set('auto_config', False)
        self.solver.set('mbqi', False)
        self.solver.set('timeout', self.feas_timeout)
        self.levels = []           # stack of exploration levels (decision lists)
        self.jstack = []           # loop index constants of generic iterations
        self.obligations = []
        self.models = {}           # ext id -> python model
        self.attr_hooks = []       # f(I, sym, name) -> value | NotImplemented
        self.setattr_hooks = []
        self.call_hooks = []       # f(I, callee, args, kwargs) -> value | NotImplemented
        self.isinst_hooks = []
        self.iter_hooks = []
        self.set_lists, self.sorted_sets = {}, []      # lists made from sets; sets that have been sorted
        self.loop_hooks = []       # f(I, key, iterable, body) -> left by break? | NotImplemented
        self.item_hooks = []       # subscript of Sym
        self.len_hooks = []
        self.contains_hooks = []
        self.truth_hooks = []
        self.eq_hooks = []
        self.is_hooks = []
        self.ref_hooks = []        # attribute of ObjCell refs
        self.global_hooks = []     # f(I, module, name) -> value | NotImplemented
        self.contracts = {}        # qual id -> python callable(I, fn, args, kwargs)
        self.stats = dict(paths=0, feas=0, feas_t=0.0, prove_t=0.0, loops=0, inlined=set(), contracted=set(), ext=set())
        self.ext_ids = {}
        self.isinst_f = z3.Function('isinst', Obj, Obj, BoolS)
        self.box_int = z3.Function('box_int', IntS, Obj)
        self.box_str = z3.Function('box_str', StrS, Obj)
        self.box_bool = z3.Function('box_bool', BoolS, Obj)
        self.unbox_int = z3.Function('unbox_int', Obj, IntS)
        self.unbox_str = z3.Function('unbox_str', Obj, StrS)
        self.unbox_bool = z3.Function('unbox_bool', Obj, BoolS)
        self.tag = z3.Function('tag', Obj, IntS)      # identity class of known objects
        self.truthy_f = z3.Function('truthy', Obj, BoolS)
        self.eqv = z3.Function('py_eq', Obj, Obj, BoolS)
        self.str_of = z3.Function('py_str', Obj, StrS)
        self.facts_seen = [set()]
        self.loop_cache = {}
        self.depth = 0
        self.frame_addr = None
        self.call_stack = []
        self.globals_env = {}      # (module,name)-> value override
        self.log_stack = []
        self.spec_mode = 0
        self.join_terms = []
        self.unpack_cache = {}
        self.summaries_used = 0
        self.write_log = None
        self.tuples = {}
        self.dict_reads = []
        self.inverse = {}          # decl name of an injective key function -> index function

    # ------------------------------------------------------------ solver
    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Limit('time budget exhausted')

    def feasible(self, cond):
        self.check_time()
        t = time.time()
        self.solver.push()
        self.solver.add(cond)
        r = self.solver.check()
        self.solver.pop()
        self.stats['feas'] += 1
        self.stats['feas_t'] += time.time() - t
        return r != z3.unsat

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond: raise Infeasible()
            return
        if z3.is_true(cond): return
        if self.pure: raise NotPure()
        if z3.is_false(cond): raise Infeasible()
        self.pc.append(cond)
        self.solver.add(cond)

    def fact(self, cond):
        """Background fact: an instance of an axiom, valid for all values of its free
        variables (so it may be generalized over loop indices)."""
        if isinstance(cond, bool): return
        key = cond.get_id()
        for s in self.facts_seen:
            if key in s: return
        self.facts_seen[-1].add(key)
        self.facts.append(cond)
        self.keep_alive(cond)
        self.solver.add(cond)

    def memo_facts(self, key, term, make):
        """Adds the facts produced by make(), computed once per (key, term)."""
        k = ('memo', key, term.get_id())
        for s in self.facts_seen:
            if k in s: return
        fs = self.memo.get(k)
        if fs is None:
            old = self.__dict__.get('fact')
            fs = []
            self.fact = lambda c: fs.append(c) if not isinstance(c, bool) else None
            try: make()
            finally:
                if old is None: del self.fact
                else: self.fact = old
            self.memo[k] = fs
            self.keep_alive(term)
        for f in fs: self.fact(f)
        self.facts_seen[-1].add(k)

    kept = {}

    def keep_alive(self, t): Interp.kept[t.get_id()] = t

    pure = False

    def decide(self, cond):
        """Forks the path on cond; returns a python bool."""
        if isinstance(cond, bool): return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pure:
            if not self.feasible(z3.Not(cond)): return True
            if not self.feasible(cond): return False
            raise NotPure()
        lv = self.levels[-1]
        i = lv['pos']
        lv['pos'] += 1
        if i < len(lv['trace']):
            choice = lv['trace'][i][0]
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond)) if t else True
            if t and f:
                lv['trace'].append([True, [False]])
                choice = True
            elif t:
                lv['trace'].append([True, []])
                choice = True
            else:
                lv['trace'].append([False, []])
                choice = False
        self.assume(cond if choice else z3.Not(cond))
        return choice

    def choose(self, k):
        """Nondeterministic choice among k alternatives."""
        if k <= 1: return 0
        if self.pure: raise NotPure()
        lv = self.levels[-1]
        i = lv['pos']
        lv['pos'] += 1
        if i < len(lv['trace']):
            return lv['trace'][i][0]
        lv['trace'].append([0, list(range(1, k))])
        return 0

    def cur_feasible(self):
        self.check_time()
        return self.solver.check() != z3.unsat

    def prefix_key(self):
        return tuple(tuple(t[0] for t in lv['trace'][:lv['pos']]) for lv in self.levels)

    def path_key(self):
        """Identifies a point of the execution: decisions and number of nested explorations."""
        return tuple((tuple(t[0] for t in lv['trace'][:lv['pos']]), lv.get('sub', 0)) for lv in self.levels)

    explore_no = 0

    def explore(self, thunk, id=None):
        """Runs thunk on all feasible paths from the current state. Returns a list of
        (kind, value, pcs, heap) per path; state is restored afterwards."""
        if id is None:
            Interp.explore_no += 1
            id = Interp.explore_no
        saved_heap = self.heap
        saved = (self.next_addr, self.fresh_no, len(self.pc), self.frame_addr, self.depth,
                 list(self.call_stack), list(self.log_stack), self.spec_mode, len(self.join_terms),
                 list(self.jstack), len(self.facts))
        if self.levels: self.levels[-1]['sub'] = self.levels[-1].get('sub', 0) + 1
        lv = {'trace': [], 'pos': 0, 'id': id, 'sub': 0}
        maxf = self.fresh_no
        self.levels.append(lv)
        results = []
        try:
            while True:
                self.check_time()
                lv['pos'] = lv['sub'] = 0
                self.heap = dict(saved_heap)
                (self.next_addr, self.fresh_no, npc, self.frame_addr, self.depth) = saved[:5]
                self.call_stack = list(saved[5])
                self.log_stack = list(saved[6])
                self.spec_mode = saved[7]
                del self.join_terms[saved[8]:]
                self.jstack = list(saved[9])
                del self.pc[npc:]
                del self.facts[saved[10]:]
                self.solver.push()
                self.facts_seen.append(set())
                self.stats['paths'] += 1
                if self.stats['paths'] > self.MAX_PATHS:
                    raise Limit('too many paths')
                try:
                    kind, val = 'normal', None
                    try:
                        val = thunk()
                    except PyRaise as e: kind, val = 'raise', e.exc
                    except ReturnEx as e: kind, val = 'return', e.value
                    except BreakEx: kind = 'break'
                    except ContinueEx: kind = 'continue'
                    except Infeasible: kind = 'infeasible'
                    if kind != 'infeasible':
                        results.append((kind, val, list(self.pc[npc:]), self.heap, list(self.facts[saved[10]:])))
                finally:
                    maxf = max(maxf, self.fresh_no)
                    self.solver.pop()
                    self.facts_seen.pop()
                    del self.pc[npc:]
                    del self.facts[saved[10]:]
                tr = lv['trace']
                while tr and not tr[-1][1]: tr.pop()
                if not tr: break
                tr[-1][0] = tr[-1][1].pop(0)
        finally:
            self.levels.pop()
            self.heap = saved_heap
            (self.next_addr, self.fresh_no, npc, self.frame_addr, self.depth) = saved[:5]
            self.call_stack, self.log_stack, self.spec_mode = saved[5], saved[6], saved[7]
            del self.join_terms[saved[8]:]
            self.jstack = saved[9]
        self.max_fresh = maxf
        return results

    # ------------------------------------------------------------ proving
    def prove(self, cond, name):
        """Emits a proof obligation: the path condition implies cond."""
        if isinstance(cond, bool): cond = z3.BoolVal(cond)
        cond = z3.simplify(cond)
        t0 = time.time()
        if z3.is_true(cond):
            self.record(Obligation(name, 'proved', '', 0.0, 'simplifier'))
            return True
        key = (name, cond.get_id(), tuple(c.get_id() for c in self.pc), len(self.facts))
        if key in self.proof_cache: return self.proof_cache[key]
        for c in [cond] + self.pc: self.keep_alive(c)
        r = self.prove_(cond, name, t0)
        self.proof_cache[key] = r
        return r

    def record(self, ob): self.obligations.append(ob)

    def prove_(self, cond, name, t0):
        bad = sum(1 for o in self.obligations if o.status != 'proved')
        if bad >= 30: raise Limit('further obligations not attempted after 30 failed ones')
        if bad >= 6: self.prove_timeout = min(self.prove_timeout, 500)
        r = z3.unknown
        for mbqi in (False, True):
            s = z3.Solver()
            if not mbqi:
                s.set('auto_config', False); s.set('mbqi', False)
            s.set('timeout', self.prove_timeout)
            for c in self.facts + self.pc: s.add(c)
            s.add(z3.Not(cond))
            r = guarded_check(s, cond, self.prove_timeout)
            if r == z3.unsat: break
        dt = time.time() - t0
        self.stats['prove_t'] += dt
        if r == z3.unsat:
            self.obligations.append(Obligation(name, 'proved', '', dt, 'z3'))
            return True
        if r == z3.unknown:
            from . import backends
            ok, be = backends.prove_smt2(s.to_smt2(), self.prove_timeout) if bad < 6 else (False, '')
            dt = time.time() - t0
            if ok:
                self.obligations.append(Obligation(name, 'proved', '', dt, be))
                return True
            self.obligations.append(Obligation(name, 'unknown', 'timeout\n' + self.path_text(cond), dt, 'z3'))
            return False
        self.obligations.append(Obligation(name, 'refuted', self.path_text(cond) + '\nmodel:\n' + (self.model_text(s.model()) if not has_slice(cond) else ''), dt, 'z3'))
        return False

    def path_text(self, cond=None):
        out = []
        for c in self.pc[-60:]:
            out.append('  ' + str(c).replace('\n', ' ')[:300])
        return ('goal: ' + str(cond)[:600] + '\n' if cond is not None else '') + 'path condition:\n' + '\n'.join(out)

    def model_text(self, m):
        try:
            return '\n'.join(f'  {d.name()} = {str(m[d])[:160]}' for d in list(m.decls())[:60])
        except Exception as e:
            return repr(e)

    # ------------------------------------------------------------ fresh / boxing
    def fresh(self, sort, hint='x'):
        self.fresh_no += 1
        name = f'{hint}!{self.fresh_no}'
        if self.jstack:
            f = z3.Function(name, *([IntS] * len(self.jstack)), sort)
            return f(*self.jstack)
        return z3.Const(name, sort)

    def fresh_sym(self, k='obj', hint='o'):
        return Sym(self.fresh(Obj, hint), k)

    def ext_const(self, id):
        c = z3.Const('ext:' + id, Obj)
        if id not in self.ext_ids: self.ext_ids[id] = len(self.ext_ids) + 1
        self.fact(self.tag(c) == self.ext_ids[id])
        return c

    def to_obj(self, v):
        """Injects a value into sort Obj."""
        if isinstance(v, Sym): return v.t
        if v is None: return self.ext_const('None')
        if isinstance(v, Ext): return self.ext_const(ALIASES.get(v.id, v.id) if False else v.id)
        if isinstance(v, bool): return self.ext_const('True' if v else 'False')
        if is_z3(v) and v.sort() == BoolS:
            return z3.If(v, self.ext_const('True'), self.ext_const('False'))
        if is_int(v):
            b = self.box_int(zint(v))
            self.fact(self.unbox_int(b) == zint(v)); self.fact(self.tag(b) == -1)
            return b
        if is_str(v):
            b = self.box_str(zstr(v))
            self.fact(self.unbox_str(b) == zstr(v)); self.fact(self.tag(b) == -2)
            return b
        if is_z3(v) and v.sort() == Obj: return v
        if isinstance(v, float): return self.ext_const(f'float:{v!r}')
        if isinstance(v, Mod): return self.ext_const('module:' + v.name)
        if isinstance(v, Ref): return self.ext_const(f'heap:{v.a}')
        if isinstance(v, Fn):
            return self.ext_const(f'fn:{v.qual}:{v.env}')
        if isinstance(v, tuple):
            fs = [self.to_obj(x) for x in v]
            f = z3.Function(f'tuple{len(fs)}', *([Obj] * len(fs)), Obj) if fs else None
            t = f(*fs) if fs else self.ext_const('()')
            if fs:
                self.fact(self.tag(t) == -10 - len(fs))
                for i, x in enumerate(fs):
                    self.fact(z3.Function(f'tupsel{len(fs)}_{i}', Obj, Obj)(t) == x)
            return t
        if isinstance(v, Exc): return self.fresh(Obj, 'exc')
        raise Unsupported(f'value {v!r} as object')

    # ------------------------------------------------------------ heap
    def alloc(self, cell):
        a = self.next_addr
        self.next_addr += 1
        self.heap[a] = cell
        return Ref(a)

    def new_list(self, items=()): return self.alloc(ListCell([('item', x) for x in items]))
    def new_dict(self, items=()): return self.alloc(DictCell([('set', k, v) for k, v in items]))
    def cell(self, ref): return self.heap[ref.a]

    def write(self, ref, cell, what=None):
        old = self.heap.get(ref.a)
        self.heap[ref.a] = cell
        for ws in self.log_stack:
            ws.append((ref.a, what))

    # ------------------------------------------------------------ frames
    def new_frame(self, vars, parent):
        a = self.next_addr
        self.next_addr += 1
        self.heap[a] = FrameCell(dict(vars), parent)
        return a

    def lookup_var(self, name, frame):
        a = frame
        while a is not None:
            fc = self.heap[a]
            if name in fc.vars:
                v = fc.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(f'variable {name} after/inside loop: {v.why}')
                return v
            a = fc.parent
        return KeyError

    def set_var(self, name, value, frame=None):
        a = self.frame_addr if frame is None else frame
        fc = self.heap[a]
        nl = fc.vars.get('%nonlocal')
        if nl and name in nl:
            a = fc.parent
            while a is not None and name not in self.heap[a].vars: a = self.heap[a].parent
            if a is None: raise Unsupported('nonlocal ' + name)
            fc = self.heap[a]
        gl = fc.vars.get('%global')
        if gl and name in gl:
            return self.write_global(self.cur_module(), name, value)
        v2 = dict(fc.vars)
        v2[name] = value
        self.heap[a] = FrameCell(v2, fc.parent)
        for ws in self.log_stack: ws.append((a, name))

    def cur_module(self):
        return self.call_stack[-1].module if self.call_stack else None

    def write_global(self, module, name, value):
        self.external_write(f'global variable {module}.{name}')
        self.globals_env[(module, name)] = value

    def external_write(self, what):
        """A write to an object that existed before the call: frame violation unless allowed."""
        self.prove(False, f'frame: {what} is not modified')

    # ------------------------------------------------------------ names
    def load_name(self, name, frame):
        v = self.lookup_var(name, frame)
        if v is not KeyError: return v
        return self.load_global(self.cur_module(), name)

    def load_global(self, module, name):
        if (module, name) in self.globals_env: return self.globals_env[(module, name)]
        for h in self.global_hooks:
            v = h(self, module, name)
            if v is not NotImplemented: return v
        d = self.reflect.resolve(module, [name])
        if d['k'] == 'missing':
            raise PyRaise(Exc(['builtins.NameError'], (f'name {name} is not defined',)))
        return self.from_desc(d, f'{module}.{name}')

    def from_desc(self, d, what=''):
        k = d['k']
        if k == 'const': return d['v']
        if k == 'tuple': return tuple(self.from_desc(x) for x in d['v'])
        if k == 'module': return Mod(d['v'])
        if k == 'func': return self.func_from_desc(d)
        if k == 'class': return Ext(d['id'], d)
        if k == 'ext': return Ext(d['id'], d)
        if k in ('dict', 'set', 'frozenset', 'list'):
            # a module level container: an immutable snapshot unless written to
            return ConstContainer(k, [tuple(self.from_desc(y) for y in x) if k == 'dict' else self.from_desc(x)
                                      for x in d['v']], what)
        raise Unsupported(f'global {what}: {d}')

    def func_from_desc(self, d):
        if not d['file'].startswith(self.reflect.repo + '/') or d['file'].endswith('/typing_extensions.py'):
            return Ext(d['id'], d)
        tree = load_ast(d['file'])
        node = find_def(tree, d['qual'])
        if node is None or not isinstance(node, ast.FunctionDef):
            raise Unsupported(f'cannot locate source of {d["id"]}')
        fn = Fn(node, d['module'], None, d['qual'])
        fn.static_defaults = True
        return fn

    def attr_of_ext(self, module, path):
        d = self.reflect.resolve(module, path)
        if d['k'] == 'missing': return KeyError
        return self.from_desc(d, module + '.' + '.'.join(path))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, Poison): raise Unsupported(v.why)
        if v is None: return False
        if isinstance(v, (bool, int, float, str, tuple, bytes)) : return bool(v)
        if is_z3(v):
            if v.sort() == BoolS: return self.decide(v)
            if v.sort() == IntS: return self.decide(v != 0)
            if v.sort() == StrS: return self.decide(v != z3.StringVal(''))
        if isinstance(v, Sym):
            for h in self.truth_hooks:
                r = h(self, v)
                if r is not NotImplemented: return r if isinstance(r, bool) else self.decide(r)
            return self.decide(self.truthy_f(v.t))
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell): return self.decide_nonempty(self.segs(v))
            if isinstance(c, SetCell): return self.set_nonempty(self.as_aset(v))
            if isinstance(c, DictCell): return self.dict_nonempty(v)
            return True
        if isinstance(v, ASet): return self.set_nonempty(v)
        if isinstance(v, ASeq): return self.decide(zint(v.n) > 0)
        if isinstance(v, ConstContainer): return bool(v.items)
        return True

    def dict_nonempty(self, v):
        c = self.cell(v)
        if c.acc: raise Unsupported('truth value of a dictionary filled in the loop')
        if not c.layers: return False
        if all(l[0] == 'set' for l in c.layers): return True
        if len(c.layers) == 1 and c.layers[0][0] == 'amap' and isinstance(c.layers[0][1].seq, ASeq):
            return self.decide(zint(c.layers[0][1].seq.n) > 0)
        return self.set_nonempty(ASet(lambda k: self.dict_has_term(v, k)))

    def set_nonempty(self, s):
        if isinstance(s.seq, ASeq):
            return self.decide(zint(s.seq.n) > 0)
        if self.choose(2) == 0:
            k = self.fresh(Obj, 'elem')
            self.assume(zbool(s.has(Sym(k))))
            if not self.cur_feasible(): raise Infeasible()
            return True
        k = z3.Const(self.fresh_name('ke'), Obj)
        self.assume(z3.ForAll([k], z3.Not(zbool(s.has(Sym(k))))))
        if not self.cur_feasible(): raise Infeasible()
        return False

    def fresh_name(self, hint):
        self.fresh_no += 1
        return f'{hint}!{self.fresh_no}'

    present_hooks = ()

    def present(self, v):
        """Is an element there? (False or a condition only for those that stand for any number of elements)"""
        if isinstance(v, Sym):
            for h in self.present_hooks:
                r = h(self, v)
                if r is not NotImplemented: return r
        return True

    def decide_nonempty(self, segs):
        """Forks on whether there is any element; a sequence that is known to be equal to one decided
        before on the same path is not decided again."""
        if any(s[0] == 'item' and self.present(s[1]) is True for s in segs): return True
        if self.pure or not any(s[0] == 'comp' for s in segs): return self.decide_nonempty_(segs)
        for kind, segs2, r in self.join_terms:
            if kind == '%truth':
                try: q = self.seq_same(segs, segs2)
                except Unsupported: continue
                if q is True or q is not False and self.valid(q): return r
        r = self.decide_nonempty_(segs)
        self.join_terms.append(('%truth', segs, r))
        return r

    def decide_nonempty_(self, segs):
        there = [self.present(s[1]) for s in segs if s[0] == 'item']
        if any(t is True for t in there): return True
        if there and self.decide(z3.Or([zbool(t) for t in there])): return True
        if self.present_hooks:
            segs = [(s[0], Comp(s[1].n, s[1].j0, [(z3.And(c, z3.Or([zbool(self.present(v)) for v in vs])), vs) for c, vs in s[1].alts if vs] +
                                [(z3.And(c, z3.Not(z3.Or([zbool(self.present(v)) for v in vs] or [z3.BoolVal(False)]))), []) for c, vs in s[1].alts])) if s[0] == 'comp' else s
                    for s in segs if s[0] == 'comp'] if any(self.present(v) is not True for s in segs if s[0] == 'comp' for _, vs in s[1].alts for v in vs) else segs
        for s in segs:
            if s[0] == 'item': continue
            c = s[1]
            ne = [(cond, vals) for cond, vals in c.alts if vals]
            if not ne: continue
            if all(vals for cond, vals in c.alts):
                if self.decide(zint(c.n) > 0): return True
                continue
            if self.choose(2) == 0:
                jx = self.fresh(IntS, 'jx')
                self.assume(z3.And(0 <= jx, jx < zint(c.n)))
                self.assume(z3.Or([z3.substitute(cond, (c.j0, jx)) for cond, _ in ne]))
                if not self.cur_feasible(): raise Infeasible()
                return True
            j = c.j0
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zint(c.n)),
                                                  z3.Or([cond for cond, vals in c.alts if not vals] or [z3.BoolVal(False)]))))
            if not self.cur_feasible(): raise Infeasible()
        return False

    # ------------------------------------------------------------ sequences
    def segs(self, ref):
        c = self.cell(ref)
        if c.acc: raise Unsupported('reading a list that is being filled by the loop')
        return c.segs

    def iter_segs(self, v):
        """Segments of an iterable: list of ('item', v) / ('comp', Comp)."""
        if isinstance(v, tuple): return [('item', x) for x in v]
        if isinstance(v, str): return [('item', x) for x in v]
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell): return list(self.segs(v))
            if isinstance(c, DictCell): return self.iter_segs(self.dict_keys(v))
            if isinstance(c, SetCell): return self.iter_segs(self.as_aset(v))
        if isinstance(v, ASeq):
            if isinstance(v.n, int): return [('item', v.at(i)) for i in range(v.n)]
            try: return [('comp', self.comp_of_seq(v))]
            except NotPure: return self.iter_segs(LazySeq(ASeq(v.n, zint), lambda j: [v.at(j)]))
        if isinstance(v, ASet):
            if v.seq is not None: return self.iter_segs(v.seq)
            raise Unsupported('iteration over an abstract set')
        if isinstance(v, ConstContainer):
            return [('item', x[0] if v.k == 'dict' else x) for x in v.items]
        if isinstance(v, Sym):
            for h in self.iter_hooks:
                r = h(self, v)
                if r is not NotImplemented: return self.iter_segs(r)
        if isinstance(v, Gen): return list(v.segs)
        if isinstance(v, LazySeq):
            acc = self.new_list()
            self.run_loop(v, v, lambda x: self.list_append(acc, x))
            return list(self.segs(acc))
        raise Unsupported(f'iteration over {v!r}')

    def comp_of_seq(self, s):
        j0 = z3.Int(self.fresh_name('j'))
        old, self.pure = self.pure, True     # an element may not restrict j0
        try: val = s.at(j0)
        finally: self.pure = old
        return Comp(zint(s.n), j0, [(z3.BoolVal(True), [val])])

    def seq_at_facts(self, s, j): pass

    def subst(self, v, pairs):
        if is_z3(v): return z3.substitute(v, *pairs)
        if isinstance(v, Sym):
            k = v.k
            if isinstance(k, tuple): k = tuple(z3.substitute(x, *pairs) if is_z3(x) else x for x in k)
            return Sym(z3.substitute(v.t, *pairs), k)
        if isinstance(v, tuple): return tuple(self.subst(x, pairs) for x in v)
        if isinstance(v, (Ext, Mod, Fn, Exc, ConstContainer)) or v is None or isinstance(v, (bool, int, float, str)): return v
        if isinstance(v, Ref):
            return v
        if isinstance(v, BM): return BM(self.subst(v.self_, pairs), v.fn, v.name)
        raise Unsupported(f'instantiating {v!r} at another loop index')

    def length(self, v):
        if isinstance(v, (tuple, str)): return len(v)
        if isinstance(v, LazySeq): return self.length(self.alloc(ListCell(self.iter_segs(v))))
        if is_str(v): return z3.Length(v)
        if isinstance(v, ASeq): return v.n
        if isinstance(v, ConstContainer): return len(v.items)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, ListCell):
                n = 0
                for s in self.segs(v):
                    if s[0] == 'item': n = n + 1
                    else:
                        ls = {len(vals) for _, vals in s[1].alts}
                        if len(ls) == 1: n = n + s[1].n * ls.pop()
                        else: raise Unsupported('length of a filtered sequence')
                return n
            if isinstance(c, DictCell):
                if all(l[0] == 'set' for l in c.layers) and all(isinstance(l[1], (str, int)) for l in c.layers):
                    return len({l[1] for l in c.layers})
                if len(c.layers) == 1 and c.layers[0][0] == 'amap' and isinstance(c.layers[0][1].seq, ASeq):
                    return c.layers[0][1].seq.n
        if isinstance(v, Sym):
            for h in self.len_hooks:
                r = h(self, v)
                if r is not NotImplemented: return r
        if isinstance(v, Gen): raise PyRaise(Exc(['builtins.TypeError']))
        raise Unsupported(f'len of {v!r}')

    def nth(self, segs, i):
        """i-th element of a segment list (i python int or z3)."""
        if isinstance(i, int):
            if i >= 0:
                for k, s in enumerate(segs):
                    if s[0] == 'item':
                        if i == 0: return s[1]
                        i -= 1
                    else:
                        c = s[1]
                        if {len(v) for _, v in c.alts} != {1}: raise Unsupported('index into filtered sequence')
                        if self.decide(zint(c.n) > i):
                            return self.comp_at(c, z3.IntVal(i))[0]
                        rest = segs[k + 1:]
                        if not rest: raise PyRaise(Exc(['builtins.IndexError']))
                        if i == 0: return self.nth(rest, 0)
                        raise Unsupported('index behind abstract segment')
                raise PyRaise(Exc(['builtins.IndexError']))
            i = -i - 1
            for k in range(len(segs) - 1, -1, -1):
                s = segs[k]
                if s[0] == 'item':
                    if i == 0: return s[1]
                    i -= 1
                else:
                    c = s[1]
                    if {len(v) for _, v in c.alts} != {1}: raise Unsupported('index into filtered sequence')
                    if self.decide(zint(c.n) > i):
                        return self.comp_at(c, z3.simplify(zint(c.n) - 1 - i))[0]
                    rest = segs[:k]
                    if not rest: raise PyRaise(Exc(['builtins.IndexError']))
                    if i == 0: return self.nth(rest, -1)
                    raise Unsupported('index behind abstract segment')
            raise PyRaise(Exc(['builtins.IndexError']))
        if len(segs) == 1 and segs[0][0] == 'comp':
            c = segs[0][1]
            if {len(v) for _, v in c.alts} != {1}: raise Unsupported('index into filtered sequence')
            n = zint(c.n)
            if self.decide(z3.And(0 <= i, i < n)): return self.comp_at(c, i)[0]
            if self.decide(z3.And(-n <= i, i < 0)): return self.comp_at(c, n + i)[0]
            raise PyRaise(Exc(['builtins.IndexError']))
        # all items, symbolic index
        if all(s[0] == 'item' for s in segs):
            for k in range(len(segs)):
                if self.decide(z3.Or(i == k, i == k - len(segs))): return segs[k][1]
            raise PyRaise(Exc(['builtins.IndexError']))
        raise Unsupported('symbolic index into mixed sequence')

    def comp_at(self, c, j):
        """Values of comp c at index j (forks over the alternatives)."""
        j = zint(j)
        alts = c.alts
        if len(alts) == 1:
            cond, vals = alts[0]
            self.assume(z3.substitute(cond, (c.j0, j)))
            return [self.subst(v, [(c.j0, j)]) for v in vals]
        k = self.choose(len(alts))
        cond, vals = alts[k]
        self.assume(z3.substitute(cond, (c.j0, j)))
        if not self.cur_feasible(): raise Infeasible()
        return [self.subst(v, [(c.j0, j)]) for v in vals]

    # ------------------------------------------------------------ dicts, sets
    def key_obj(self, k): return self.to_obj(k)

    def dict_find(self, ref, key):
        """('yes', value) or ('no', None); forks where undetermined."""
        c = self.cell(ref)
        for l in reversed(c.readable(self, key)):
            if l[0] in ('set', 'del'):
                e = self.values_equal(l[1], key)
                if self.truth(e):
                    return ('yes', l[2]) if l[0] == 'set' else ('no', None)
            elif l[0] == 'amap':
                m = l[1]
                if self.truth(m.has(key)):
                    return 'yes', m.get(key)
            else: raise Unsupported('dict layer ' + l[0])
        return 'no', None

    def dict_get(self, ref, key):
        yn, v = self.dict_find(ref, key)
        if yn == 'no': raise PyRaise(Exc(['builtins.KeyError'], (key,)))
        return v

    def dict_set(self, ref, key, value):
        c = self.cell(ref)
        layers = list(c.layers)
        if not c.acc and not any(l[0] != 'set' for l in layers) and isinstance(key, (str, int)):
            for i, l in enumerate(layers):
                if isinstance(l[1], (str, int)) and type(l[1]) is type(key):
                    if l[1] == key:
                        layers[i] = ('set', key, value)
                        self.write(ref, DictCell(layers, c.acc, c.pre), 'dict')
                        return
        layers.append(('set', key, value))
        self.write(ref, DictCell(layers, c.acc, c.pre), 'dict')

    def dict_concrete(self, ref):
        """Items if all layers are 'set' with pairwise distinct concrete keys, else None."""
        c = self.cell(ref)
        if c.acc: raise Unsupported('reading a dictionary that is being filled by the loop')
        d = {}
        for l in c.layers:
            if l[0] == 'amap' and getattr(l[1], 'const', None) is not None:
                for k, v in l[1].const: d[k] = v
                continue
            if l[0] != 'set' or not (isinstance(l[1], (str, int, tuple, Ext)) or l[1] is None): return None
            d[l[1]] = l[2]
        return list(d.items())

    def dict_keys(self, ref):
        it = self.dict_concrete(ref)
        if it is not None: return tuple(k for k, _ in it)
        c = self.cell(ref)
        if len(c.layers) == 1 and c.layers[0][0] == 'amap' and c.layers[0][1].seq is not None:
            return c.layers[0][1].seq
        try: base = self.dict_base_keys(ref)
        except Unsupported: return ASet(lambda k: self.dict_has_term(ref, k))
        r = LazySeq(base, lambda k: [k] if self.dict_find(ref, k)[0] == 'yes' else [])
        r.has = lambda k: self.dict_has_term(ref, k)
        return r

    def dict_has_term(self, ref, key):
        """Membership as a formula without forking."""
        c = self.cell(ref)
        r = z3.BoolVal(False)
        for l in c.readable(self, key):
            if l[0] in ('set', 'del'):
                e = zbool(self.eq_term(l[1], key))
                r = z3.If(e, z3.BoolVal(l[0] == 'set'), r)
            else:
                r = z3.Or(zbool(l[1].has(key)), r)
        return z3.simplify(r)

    def dict_items(self, ref):
        it = self.dict_concrete(ref)
        if it is not None: return tuple(it)
        c = self.cell(ref)
        if len(c.layers) == 1 and c.layers[0][0] == 'amap' and isinstance(c.layers[0][1].seq, ASeq):
            m = c.layers[0][1]
            return ASeq(m.seq.n, lambda j: (lambda k: (k, m.get(k)))(m.seq.at(j)))
        base = self.dict_base_keys(ref)

        def pair(k):
            yn, v = self.dict_find(ref, k)
            return [(k, v)] if yn == 'yes' else []
        return LazySeq(base, pair)

    def dict_base_keys(self, ref):
        """Keys (in order) of the mapping at the bottom of a dictionary; all later layers
        only change or delete keys that occur there (verified here)."""
        c = self.cell(ref)
        if c.acc or not c.layers or c.layers[0][0] != 'amap' or c.layers[0][1].seq is None:
            raise Unsupported('iteration over an abstract dictionary')
        m = c.layers[0][1]
        for l in c.layers[1:]:
            if l[0] == 'del': continue
            k = z3.Const(self.fresh_name('kb'), Obj)
            touched = zbool(self.eq_term(l[1], Sym(k))) if l[0] == 'set' else zbool(l[1].has(Sym(k)))
            if not self.valid(z3.Implies(touched, zbool(m.has(Sym(k))))):
                raise Unsupported('iteration over an abstract dictionary with added keys')
        return m.seq

    def valid(self, cond):
        """Does cond follow from the path condition and the facts (side condition of a rule)?"""
        for mbqi in (False, True):
            s = z3.Solver()
            if not mbqi: s.set('auto_config', False); s.set('mbqi', False)
            s.set('timeout', 3000)
            for c in self.facts + self.pc: s.add(c)
            s.add(z3.Not(cond))
            if s.check() == z3.unsat: return True
        return False

    def as_aset(self, v):
        """Converts set-like value to ASet (immutable snapshot)."""
        if isinstance(v, ASet): return v
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, SetCell):
                if c.acc: raise Unsupported('reading a set that is being filled by the loop')
                layers = c.layers

                def has(k, layers=layers):
                    r = z3.BoolVal(False)
                    for l in layers:
                        if l[0] == 'add': r = z3.Or(r, zbool(self.eq_term(l[1], k)))
                        elif l[0] == 'discard': r = z3.And(r, z3.Not(zbool(self.eq_term(l[1], k))))
                        elif l[0] == 'union': r = z3.Or(r, zbool(l[1].has(k)))
                        elif l[0] == 'minus': r = z3.And(r, z3.Not(zbool(l[1].has(k))))
                        elif l[0] == 'fun': r = l[1](k, r)
                    return z3.simplify(r)
                seq = None
                if all(l[0] == 'add' and isinstance(l[1], (str, int, Ext)) for l in layers):
                    xs = []
                    for l in layers:
                        if l[1] not in xs: xs.append(l[1])
                    seq = ASeq(len(xs), lambda i, xs=xs: xs[i])
                elif len(layers) == 1 and layers[0][0] == 'union': seq = layers[0][1].seq
                return ASet(has, seq)
            if isinstance(c, DictCell):
                return ASet(lambda k: self.dict_has_term(v, k))
            if isinstance(c, ListCell):
                return self.set_of_segs(self.segs(v))
        if isinstance(v, tuple): return self.set_of_segs([('item', x) for x in v])
        if isinstance(v, ConstContainer): return self.set_of_segs([('item', x[0] if v.k == 'dict' else x) for x in v.items])
        if isinstance(v, (ASeq, LazySeq)) and getattr(v, 'has', None): return ASet(v.has, v)
        if isinstance(v, (ASeq, Gen)): return self.set_of_segs(self.iter_segs(v))
        if isinstance(v, Sym):
            for h in self.iter_hooks:
                r = h(self, v)
                if r is not NotImplemented: return self.as_aset(r)
        raise Unsupported(f'{v!r} as set')

    def set_of_segs(self, segs):
        segs = list(segs)

        def has(k):
            r = []
            for s in segs:
                if s[0] == 'item': r.append(zbool(self.eq_term(s[1], k)))
                else:
                    c = s[1]
                    j = c.j0
                    alts = []
                    for cond, vals in c.alts:
                        for v in vals:
                            alts.append(z3.And(cond, zbool(self.eq_term(v, k))))
                    r.append(z3.Exists([j], z3.And(0 <= j, j < zint(c.n), z3.Or(alts) if alts else z3.BoolVal(False))))
            return z3.simplify(z3.Or(r)) if r else z3.BoolVal(False)
        seq = None
        if not segs: seq = ASeq(0, None)
        return ASet(has, seq)

    def is_setlike(self, v):
        if isinstance(v, ASet): return True
        if isinstance(v, Ref): return isinstance(self.cell(v), SetCell)
        if isinstance(v, ConstContainer): return v.k in ('set', 'frozenset')
        return False

    # ------------------------------------------------------------ equality
    def eq_term(self, a, b):
        """a == b as python bool or z3 Bool, without forking."""
        if a is b: return True
        if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported('poisoned value')
        prim = (bool, int, float, str, type(None))
        if isinstance(a, prim) and isinstance(b, prim): return a == b
        if is_str(a) and is_str(b): return zstr(a) == zstr(b)
        if is_int(a) and is_int(b): return zint(a) == zint(b)
        if is_bool(a) and is_bool(b): return zbool(a) == zbool(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            r = [self.eq_term(x, y) for x, y in zip(a, b)]
            if any(x is False for x in r): return False
            r = [zbool(x) for x in r if x is not True]
            return z3.And(r) if r else True
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(b, Sym) and not isinstance(a, Sym): a, b = b, a
            for h in self.eq_hooks:
                r = h(self, a, b)
                if r is not NotImplemented: return r
            return a.t == self.to_obj(b)
        if isinstance(a, Ext) and isinstance(b, Ext): return a.id == b.id
        if isinstance(a, Ref) and isinstance(b, Ref) and a.a == b.a: return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.cell(a), self.cell(b)
            if isinstance(ca, ListCell) and isinstance(cb, ListCell):
                return self.seq_equal(self.segs(a), self.segs(b))
            if isinstance(ca, SetCell) and isinstance(cb, SetCell):
                return self.sets_equal(self.as_aset(a), self.as_aset(b))
            if isinstance(ca, ObjCell) and isinstance(cb, ObjCell): return False
            raise Unsupported('comparison of containers')
        if self.is_setlike(a) and self.is_setlike(b): return self.sets_equal(self.as_aset(a), self.as_aset(b))
        if isinstance(a, Ref) and isinstance(self.cell(a), DictCell) and isinstance(b, Ref): raise Unsupported('dict comparison')
        simple = prim + (Ext, Fn, Mod, tuple, Ref)
        if isinstance(a, simple) and isinstance(b, simple): return False
        if (is_z3(a) and isinstance(b, simple)) or (is_z3(b) and isinstance(a, simple)):
            return False
        if isinstance(a, BM) or isinstance(b, BM): raise Unsupported('comparison of bound methods')
        if isinstance(a, (ASeq, ASet)) or isinstance(b, (ASeq, ASet)):
            if isinstance(a, prim) or isinstance(b, prim): return False
        raise Unsupported(f'comparison of {a!r} and {b!r}')

    def sets_equal(self, a, b):
        k = z3.Const(self.fresh_name('ks'), Obj)
        return z3.ForAll([k], zbool(a.has(Sym(k))) == zbool(b.has(Sym(k))))

    def seq_equal(self, s1, s2):
        if len(s1) != len(s2):
            if all(s[0] == 'item' for s in s1) and all(s[0] == 'item' for s in s2): return False
            # [] against single comp
            if not s1 and len(s2) == 1 and all(v for _, v in s2[0][1].alts): return zint(s2[0][1].n) == 0
            if not s2 and len(s1) == 1 and all(v for _, v in s1[0][1].alts): return zint(s1[0][1].n) == 0
            for a, b in ((s1, s2), (s2, s1)):
                # items against a comp followed by as many items: the comp is empty
                if all(s[0] == 'item' for s in a) and b[0][0] == 'comp' and all(s[0] == 'item' for s in b[1:]) and len(a) == len(b) - 1 and all(v for _, v in b[0][1].alts):
                    return z3.And([zint(b[0][1].n) <= 0] + [zbool(self.eq_term(x[1], y[1])) for x, y in zip(a, b[1:])])
            raise Unsupported('comparison of abstract sequences')
        r = []
        for x, y in zip(s1, s2):
            if x[0] == 'item' and y[0] == 'item': r.append(zbool(self.eq_term(x[1], y[1])))
            elif x[0] == 'comp' and y[0] == 'comp': r.append(self.comp_equal(x[1], y[1]))
            else: raise Unsupported('comparison of abstract sequences')
        return z3.And(r) if r else True

    def comp_equal(self, c, d):
        if {len(v) for _, v in c.alts} != {1} or {len(v) for _, v in d.alts} != {1}:
            if not self.sufficient: raise Unsupported('comparison of filtered sequences')
        j = z3.Int(self.fresh_name('jq'))
        conj = []
        for cond1, v1 in c.alts:
            for cond2, v2 in d.alts:
                a = z3.And(z3.substitute(cond1, (c.j0, j)), z3.substitute(cond2, (d.j0, j)))
                e = [zbool(self.eq_term(self.subst(x, [(c.j0, j)]), self.subst(y, [(d.j0, j)]))) for x, y in zip(v1, v2)]
                conj.append(z3.Implies(a, z3.And(e) if len(v1) == len(v2) else z3.BoolVal(False)))
        return z3.And(zint(c.n) == zint(d.n),
                      z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zint(c.n)), z3.And(conj))))

    sufficient = False

    def seq_same(self, s1, s2):
        """A condition that implies equality of the sequences (not necessarily the converse)."""
        old, self.sufficient = self.sufficient, True
        try: return self.seq_equal(s1, s2)
        finally: self.sufficient = old

    def values_equal(self, a, b): return self.eq_term(a, b)

    def identical(self, a, b):
        if a is b: return True
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(b, Sym) and not isinstance(a, Sym): a, b = b, a
            if isinstance(b, Sym): return a.t == b.t
            if isinstance(b, (ASet, ASeq, Gen, BM, Model)): return False
            return a.t == self.to_obj(b)
        if isinstance(a, (Ext, Ref)) and isinstance(b, (Ext, Ref)): return a == b
        if is_bool(a) and is_bool(b): return self.eq_term(a, b)
        if a is None or b is None: return False
        if isinstance(a, (bool, Ext)) or isinstance(b, (bool, Ext)): return False
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.node is b.node and a.env == b.env
        if isinstance(a, Ref) != isinstance(b, Ref): return False
        if isinstance(a, tuple) and isinstance(b, tuple) and a == () == b: return True
        if isinstance(a, Fn) or isinstance(b, Fn): return False
        raise Unsupported(f'identity of {a!r} and {b!r}')


class ConstContainer:
    """Module-level constant container (dict/list/set) read by reflection."""
    def __init__(self, k, items, what):
        self.k, self.items, self.what = k, items, what

    def __repr__(self): return f'Const{self.k}({self.what})'

    def texts(self):
        """The items in canonical order if this maps texts to texts, else None."""
        if self.k != 'dict' or not all(isinstance(x, str) and isinstance(y, str) for x, y in self.items): return None
        return sorted(dict(self.items).items())

    def lookup(self, key, default):
        r = zstr(default)
        for k, v in reversed(self.texts()): r = z3.If(key == k, z3.StringVal(v), r)
        return r


class Gen:
    """Evaluated generator expression / lazy iterator: just its segments."""
    def __init__(self, segs): self.segs = list(segs)
