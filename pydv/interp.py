"""Statements, expressions, calls and loop summaries of the verifier."""
import ast
import z3
from .engine import *
from .engine import _file_cache


class LoopVar:
    """Lazy value of a variable assigned in a summarized loop."""
    def __init__(self, assign, keep, j0, n, old):
        self.assign, self.keep, self.j0, self.n, self.old = assign, keep, j0, n, old


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Mod: '%', ast.BitOr: '|', ast.BitAnd: '&',
          ast.FloorDiv: '//', ast.BitXor: '^', ast.Div: '/', ast.Pow: '**'}


def contains_inner_ref(v, base):
    if isinstance(v, Ref): return v.a >= base
    if isinstance(v, tuple): return any(contains_inner_ref(x, base) for x in v)
    if isinstance(v, BM): return contains_inner_ref(v.self_, base)
    if isinstance(v, (Gen, ASeq, ASet)): return True
    if isinstance(v, Fn): return v.env is not None and v.env >= base
    return False


class Exec(Interp):

    # ================================================= statements
    def exec_block(self, stmts):
        for s in stmts: self.exec(s)

    def exec(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported(f'statement {type(s).__name__} (line {getattr(s, "lineno", "?")})')
        m(s)

    def s_Expr(self, s): self.ev(s.value)
    def s_Pass(self, s): pass
    def s_Import(self, s):
        for al in s.names:
            if al.asname: self.set_var(al.asname, Mod(al.name))
            else: self.set_var(al.name.split('.')[0], Mod(al.name.split('.')[0]))

    def s_ImportFrom(self, s):
        for al in s.names:
            if s.level: raise Unsupported('relative import in function')
            v = self.attr_of_ext(s.module, [al.name])
            if v is KeyError: raise PyRaise(Exc(['builtins.ImportError']))
            self.set_var(al.asname or al.name, v)

    def s_Return(self, s):
        raise ReturnEx(self.ev(s.value) if s.value is not None else None)

    def s_Break(self, s): raise BreakEx()
    def s_Continue(self, s): raise ContinueEx()

    def s_Assign(self, s):
        v = None
        if isinstance(s.value, ast.Name) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
            # a value determined by a loop is looked at when it is used
            v = self.heap[self.frame_addr].vars.get(s.value.id)
            t = s.targets[0]
            if isinstance(t, ast.Attribute) and isinstance(v, LoopVar):
                o = self.ev(t.value)
                if isinstance(o, Ref) and isinstance(self.cell(o), ObjCell): return self.setattr(o, t.attr, v)
            if not (isinstance(v, LoopVar) and isinstance(t, ast.Name)): v = None
        if v is None: v = self.ev(s.value)
        for t in s.targets: self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, self.frame_addr)
            v = self.ev(s.value)
            r = self.inplace(s.op, old, v)
            self.set_var(t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            r = self.inplace(s.op, old, self.ev(s.value))
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value), self.ev_index(t.slice)
            old = self.getitem(o, k)
            r = self.inplace(s.op, old, self.ev(s.value))
            self.setitem(o, k, r)
        else: raise Unsupported('augmented assignment')

    def inplace(self, op, old, v):
        if isinstance(old, Ref):
            c = self.cell(old)
            if isinstance(c, ListCell) and isinstance(op, ast.Add):
                self.list_extend(old, v); return old
            if isinstance(c, SetCell) and isinstance(op, ast.BitOr):
                self.set_layer(old, ('union', self.as_aset(v))); return old
            if isinstance(c, SetCell) and isinstance(op, ast.Sub):
                self.set_layer(old, ('minus', self.as_aset(v))); return old
            if isinstance(c, DictCell) and isinstance(op, ast.BitOr):
                self.dict_update(old, v); return old
        return self.binop(op, old, v)

    join_ifs = False    # join the paths after an if-statement (see merge.py)

    def s_If(self, s):
        if self.join_ifs and not self.pure and not self.spec_mode:
            from .merge import exec_if
            return exec_if(self, s)
        if self.truth(self.ev(s.test)): self.exec_block(s.body)
        else: self.exec_block(s.orelse)

    def s_Assert(self, s):
        if not self.truth(self.ev(s.test)):
            raise PyRaise(Exc(['builtins.AssertionError']))

    def s_Raise(self, s):
        if s.exc is None:
            if self.handling: raise PyRaise(self.handling[-1])
            raise Unsupported('bare raise')
        e = self.ev(s.exc)
        if isinstance(e, Ext): e = Exc([ALIASES.get(e.id, e.id)])
        if not isinstance(e, Exc): raise Unsupported(f'raise {e!r}')
        raise PyRaise(e)

    handling = ()

    def exc_matches(self, exc, typ):
        """True/False; forks if undetermined."""
        if isinstance(typ, tuple): ids = [ALIASES.get(t.id, t.id) for t in typ]
        else: ids = [ALIASES.get(typ.id, typ.id)]
        yes = {c for c in exc.classes if c in ids or any(b in ids for b in self.exc_bases(c))}
        no = exc.classes - yes
        if not no: return True, exc
        if not yes: return False, exc
        if self.choose(2) == 0: return True, Exc(yes, exc.args, exc.attrs)
        return False, Exc(no, exc.args, exc.attrs)

    def exc_bases(self, c):
        if c in EXC_BASES: return EXC_BASES[c]
        raise Unsupported('exception class ' + c)

    def s_Try(self, s):
        def run():
            try:
                self.exec_block(s.body)
            except PyRaise as e:
                exc = e.exc
                for h in s.handlers:
                    if h.type is None: ok = True
                    else:
                        typ = self.ev(h.type)
                        ok, exc = self.exc_matches(exc, typ)
                    if ok:
                        if h.name: self.set_var(h.name, exc)
                        old = self.handling
                        self.handling = tuple(old) + (exc,)
                        try: self.exec_block(h.body)
                        finally: self.handling = old
                        return
                raise PyRaise(exc)
            else:
                self.exec_block(s.orelse)
        if s.finalbody:
            try:
                run()
            except (PyRaise, ReturnEx, BreakEx, ContinueEx) as e:
                self.exec_block(s.finalbody)
                raise e
            self.exec_block(s.finalbody)
        else: run()

    def s_With(self, s):
        exits = []
        for item in s.items:
            cm = self.ev(item.context_expr)
            v = self.enter_cm(cm)
            exits.append(cm)
            if item.optional_vars is not None: self.assign(item.optional_vars, v)
        try:
            self.exec_block(s.body)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            for cm in reversed(exits): self.exit_cm(cm)
            raise
        for cm in reversed(exits): self.exit_cm(cm)

    def enter_cm(self, cm):
        e = self.getattr(cm, '__enter__')
        return self.call(e, [], {})

    def exit_cm(self, cm):
        self.call(self.getattr(cm, '__exit__'), [None, None, None], {})

    def s_FunctionDef(self, s):
        fn = self.make_fn(s)
        v = fn
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.set_var(s.name, v)

    def make_fn(self, s):
        a = s.args
        defaults = tuple(self.ev(d) for d in a.defaults)
        kwd = {x.arg: self.ev(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        cur = self.call_stack[-1] if self.call_stack else None
        name = getattr(s, 'name', '<lambda>')
        qual = (cur.qual + '.' if cur else '') + name
        return Fn(s, self.cur_module(), self.frame_addr, qual, defaults, kwd, spec=bool(cur and cur.spec))

    def s_Nonlocal(self, s):
        fc = self.heap[self.frame_addr]
        v = dict(fc.vars)
        v['%nonlocal'] = tuple(v.get('%nonlocal', ())) + tuple(s.names)
        self.heap[self.frame_addr] = FrameCell(v, fc.parent)

    def s_Global(self, s):
        fc = self.heap[self.frame_addr]
        v = dict(fc.vars)
        v['%global'] = tuple(v.get('%global', ())) + tuple(s.names)
        self.heap[self.frame_addr] = FrameCell(v, fc.parent)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fc = self.heap[self.frame_addr]
                v = dict(fc.vars); v.pop(t.id, None)
                self.heap[self.frame_addr] = FrameCell(v, fc.parent)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value), self.ev_index(t.slice)
                self.delitem(o, k)
            else: raise Unsupported('del')

    def delitem(self, o, k):
        if isinstance(o, Ref) and isinstance(self.cell(o), DictCell):
            yn, _ = self.dict_find(o, k)
            if yn == 'no': raise PyRaise(Exc(['builtins.KeyError']))
            c = self.cell(o)
            if not c.acc and all(l[0] == 'set' and isinstance(l[1], str) for l in c.layers) and isinstance(k, str):
                self.write(o, DictCell([l for l in c.layers if l[1] != k]), 'dict')
            else: self.write(o, DictCell(c.layers + (('del', k),), c.acc, c.pre), 'dict')
            return
        if isinstance(o, Sym): return self.external_write(f'item of {o!r}')
        raise Unsupported('del item')

    def s_For(self, s):
        it = self.ev(s.iter)
        broken = False

        def body(v):
            self.assign(s.target, v)
            self.exec_block(s.body)
        broken = self.run_loop(s, it, body)
        if not broken: self.exec_block(s.orelse)

    while_hooks = ()      # f(I, statement): proves the loop by an invariant

    def s_While(self, s):
        for h in self.while_hooks:
            if h(self, s) is not NotImplemented: return
        for i in range(60):
            if not self.truth(self.ev(s.test)):
                self.exec_block(s.orelse)
                return
            try: self.exec_block(s.body)
            except BreakEx: return
            except ContinueEx: pass
        raise Unsupported(f'while loop without bound (line {s.lineno})')

    # ================================================= loops
    def run_loop(self, key, iterable, body):
        """Executes body(v) for every v of iterable; returns True if left by break."""
        for h in self.loop_hooks:
            r = h(self, key, iterable, body)
            if r is not NotImplemented: return r
        if isinstance(iterable, Ref) and isinstance(self.cell(iterable), DictCell):
            iterable = self.dict_keys(iterable)
        if isinstance(iterable, ASet) and isinstance(iterable.seq, LazySeq): iterable = iterable.seq
        if isinstance(iterable, LazySeq):
            def each(v):
                for x in iterable.f(v): body(x)
            return self.run_loop(key, iterable.base, each)
        if isinstance(iterable, ASeq) and not isinstance(iterable.n, int):
            try: segs = [('comp', self.comp_of_seq(iterable))]
            except NotPure:
                return self.run_loop(key, LazySeq(ASeq(iterable.n, zint), lambda j: [iterable.at(j)]), body)
        else: segs = self.iter_segs(iterable)
        for idx, seg in enumerate(segs):
            if seg[0] == 'item':
                try: body(seg[1])
                except ContinueEx: pass
                except BreakEx: return True
            else:
                if self.loop_comp((id(key), idx), seg[1], body): return True
        return False

    def loop_comp(self, key, comp, body):
        self.stats['loops'] += 1
        n = zint(comp.n)
        if not self.decide(n > 0): return False
        ck = (key, self.prefix_key_id())
        summ = self.loop_cache.get(ck)
        if summ is None:
            summ = self.summarize(key, comp, body)
            self.loop_cache[ck] = summ
        paths, exits, W, j, base, fr, gen = summ
        for f in gen: self.fact(f)
        self.fresh_no = max(self.fresh_no, fr)
        if exits and (not paths or self.choose(2) == 1):
            # leave the loop at iteration jx
            jx = self.fresh(IntS, 'jx')
            self.assume(z3.And(0 <= jx, jx < n))
            if not paths: self.assume(jx == 0)
            elif not self.same_exit(exits, W): self.assume_all(paths, j, z3.IntVal(0), jx)
            # else: any exit has the same effect, the first one need not be singled out
            self.apply_effects(paths, W, j, jx, base)
            if not self.cur_feasible(): raise Infeasible()
            vals = self.comp_at(comp, jx)
            for v in vals:
                try: body(v)
                except ContinueEx: pass
                except BreakEx: return True
            raise Infeasible()     # this alternative covers exits only
        if exits or len(paths) > 1: self.assume_all(paths, j, z3.IntVal(0), n)
        self.apply_effects(paths, W, j, n, base)
        if exits and not self.cur_feasible(): raise Infeasible()
        return False

    def same_exit(self, exits, W):
        k0, v0 = exits[0]
        # local variables are dead after a return; a break must not have changed anything
        if k0 == 'return' and any(a != self.frame_addr for a, _ in W): return False
        if k0 == 'break' and W: return False
        return k0 in ('return', 'break') and (v0 is None or isinstance(v0, bool)) and \
            all(k == k0 and v is v0 for k, v in exits)

    def assume_all(self, paths, j, lo, hi):
        self.assume(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), z3.Or([p[0] for p in paths]))))

    def prefix_key_id(self):
        return tuple((lv.get('id'), tuple(t[0] for t in lv['trace'][:lv['pos']])) for lv in self.levels) + (len(self.jstack), self.fresh_no)

    def summarize(self, key, comp, body):
        n = zint(comp.n)
        base = self.next_addr
        W = {}
        old_ints = {}
        hyp = {}      # closed form hypotheses for counters: loc -> step
        for attempt in range(12):
            logs = []
            state = {}
            self.dict_reads.append([])

            def thunk():
                # a fresh, deterministic index constant
                self.fresh_no += 1
                j = z3.Int(f'j!{self.fresh_no}')
                self.jstack = self.jstack + [j]
                state['j'] = j
                self.assume(z3.And(0 <= j, j < n))
                for loc in W: self.poison(loc, j, hyp)
                log = []
                self.log_stack = self.log_stack + [log]
                vals = self.comp_at(comp, j)
                for v in vals:
                    try: body(v)
                    except ContinueEx: pass
                logs.append(log)
                return self.collect_effects(W, base, j, hyp, old_ints)
            try:
                old_ints.clear()
                for loc in hyp: old_ints[loc] = self.loc_value(loc)
                nob = len(self.obligations)
                cache = dict(self.proof_cache)
                res = self.explore(thunk, id=('loop', key, attempt, len(W), len(hyp)))
                maxf = self.max_fresh
            except Unsupported:
                # reading a written dictionary: effects recorded so far do not matter
                self.dict_reads.pop()
                raise
            except PoisonRead as e:
                self.dict_reads.pop()
                if e.loc not in W or isinstance(self.loc_value(e.loc), LoopPoison): raise
                if e.loc in hyp: raise Unsupported(f'loop-carried variable {e.loc[1]}')
                if not self.int_loc(e.loc): raise Unsupported(f'loop-carried variable {e.loc[1]}')
                hyp[e.loc] = 1
                del self.obligations[nob:]
                self.proof_cache = cache
                continue
            reads = self.dict_reads.pop()
            new = {}
            for log in logs:
                for a, what in log:
                    if a < base and (a, what) not in W: new[(a, what)] = True
            if not new: break
            W.update(new)
            del self.obligations[nob:]       # obligations of a preliminary summary
            self.proof_cache = cache
        else:
            raise Unsupported('loop summary does not stabilize')
        j = state['j']
        if reads: self.check_reads(reads, res, j, n)
        paths, exits = [], []
        facts = {}
        for kind, val, pcs, heap, fs in res:
            for f in fs: facts[f.get_id()] = f
            if kind in ('normal', 'continue'):
                paths.append((z3.And(pcs) if pcs else z3.BoolVal(True), val))
            else: exits.append((kind, val))
        fr = maxf + 1
        # facts are valid for every index
        gen = [z3.ForAll([j], f) if self.mentions(f, j) else f for f in facts.values()]
        return paths, exits, W, j, base, fr, gen

    def check_reads(self, reads, res, j, n):
        """No iteration reads a key of a dictionary that another iteration has written."""
        i = z3.Int(self.fresh_name('ir'))
        writes = []
        for kind, val, pcs, heap, fs in res:
            if kind in ('normal', 'continue'):
                for eff in val.values():
                    if eff and eff[0] == 'layers':
                        for l in eff[1]:
                            if l[0] not in ('set', 'del'): raise Unsupported('reading a dictionary that is updated in the loop')
                            writes.append(self.to_obj(l[1]))
        terms = {}
        for w in writes: terms[w.get_id()] = w
        rs = {}
        for r in reads: rs[r.get_id()] = r
        for w in terms.values():
            for r in rs.values():
                if z3.eq(w, r) and self.invertible([('set', Sym(w), None)], j) is not None: continue
                if not self.valid(z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j), z3.substitute(w, (j, i)) != r)):
                    raise Unsupported('reading a dictionary that is being filled by the loop')

    def distinct_keys(self, keys, j, N):
        """Different iterations store different keys."""
        if self.invertible([('set', k, None) for k in keys], j) is not None: return True
        i = z3.Int(self.fresh_name('id'))
        ts = [self.to_obj(k) for k in keys]
        for t in ts:
            for u in ts:
                if not self.valid(z3.Implies(z3.And(0 <= i, i < N, 0 <= j, j < N, i != j), z3.substitute(t, (j, i)) != u)): return False
        return True

    def mentions(self, t, j):
        return any(z3.eq(x, j) for x in z3util_vars(t))

    def loc_value(self, loc):
        c = self.heap[loc[0]]
        if isinstance(c, FrameCell): return c.vars.get(loc[1])
        if isinstance(c, ObjCell): return c.attrs.get(loc[1])
        return None

    def int_loc(self, loc): return is_int(self.loc_value(loc))

    def poison(self, loc, j, hyp):
        a, what = loc
        c = self.heap[a]
        if isinstance(c, FrameCell):
            v = dict(c.vars)
            if loc in hyp: v[what] = z3.simplify(zint(v[what]) + hyp[loc] * j)
            else: v[what] = LoopPoison(loc, what in c.vars)
            self.heap[a] = FrameCell(v, c.parent)
        elif isinstance(c, ListCell): self.heap[a] = ListCell((), True, c.kind)
        elif isinstance(c, DictCell): self.heap[a] = DictCell((), True, None if c.acc else c.layers)
        elif isinstance(c, SetCell): self.heap[a] = SetCell((), True)
        elif isinstance(c, ObjCell):
            v = dict(c.attrs)
            if loc in hyp: v[what] = z3.simplify(zint(v[what]) + hyp[loc] * j)
            else: v[what] = LoopPoison(loc, what in c.attrs)
            self.heap[a] = ObjCell(c.cls, v)
        else: raise Unsupported(f'loop modifies {c!r}')

    def collect_effects(self, W, base, j, hyp, old_ints):
        eff = {}
        for loc in W:
            a, what = loc
            c = self.heap[a]
            if isinstance(c, (FrameCell, ObjCell)):
                vs = c.vars if isinstance(c, FrameCell) else c.attrs
                v = vs.get(what, LoopPoison(loc, False))
                if loc in hyp:
                    # closed form hypothesis must be inductive
                    eff[loc] = ('count', v, hyp[loc])
                elif isinstance(v, LoopPoison): eff[loc] = None
                else: eff[loc] = ('val', v)
            elif isinstance(c, ListCell):
                eff[loc] = ('segs', c.segs)
            else: eff[loc] = ('layers', c.layers)
        # check hypotheses here, while the path condition is in force
        for loc, step in hyp.items():
            if loc not in W: continue
            v = eff[loc][1]
            cell0 = None
            if isinstance(v, (Poison, LoopPoison)) or not is_int(v):
                raise Unsupported(f'loop-carried variable {loc[1]}')
            old = old_ints[loc]
            if self.feasible(z3.Not(zint(v) == zint(old) + step * (j + 1))):
                raise Unsupported(f'loop-carried variable {loc[1]}')
        return eff


    def apply_effects(self, paths, W, j, N, base):
        for loc in W:
            a, what = loc
            c = self.heap[a]
            effs = [(cond, val.get(loc)) for cond, val in paths]
            if isinstance(c, (FrameCell, ObjCell)):
                vs = dict(c.vars if isinstance(c, FrameCell) else c.attrs)
                old = vs.get(what, LoopPoison(loc, False))
                cnt = [e for _, e in effs if e and e[0] == 'count']
                if cnt: vs[what] = z3.simplify(zint(old) + cnt[0][2] * N)
                else:
                    asg = [(cond, e[1]) for cond, e in effs if e is not None]
                    keep = [cond for cond, e in effs if e is None]
                    if asg:
                        if any(contains_inner_ref(v, base) for _, v in asg):
                            vs[what] = Poison('object created in the loop')
                        else: vs[what] = LoopVar(asg, keep, j, N, old)
                if isinstance(c, FrameCell): self.heap[a] = FrameCell(vs, c.parent)
                else: self.heap[a] = ObjCell(c.cls, vs)
                for ws in self.log_stack: ws.append((a, what))
            elif isinstance(c, ListCell):
                alts, nested = [], False
                for cond, e in effs:
                    segs = e[1] if e else ()
                    if any(s[0] != 'item' for s in segs): nested = True
                    alts.append((cond, [s[1] for s in segs if s[0] == 'item']))
                if nested: raise Unsupported('nested sequence built in a loop')
                if any(contains_inner_ref(v, base) for _, vs in alts for v in vs):
                    raise Unsupported('list of objects created in the loop')
                if any(vs for _, vs in alts):
                    if len(alts) == 1: alts = [(z3.BoolVal(True) if self.valid_all(alts[0][0], j, N) else alts[0][0], alts[0][1])]
                    self.write(Ref(a), ListCell(c.segs + (('comp', Comp(N, j, alts)),), c.acc, c.kind), 'list')
            elif isinstance(c, SetCell):
                f = self.set_effect([(cond, e[1] if e else ()) for cond, e in effs], j, N)
                if f is not None: self.write(Ref(a), SetCell(c.layers + (('fun', f),), c.acc), 'set')
            elif isinstance(c, DictCell):
                ls = self.dict_effect([(cond, e[1] if e else ()) for cond, e in effs], j, N, base)
                if ls: self.write(Ref(a), DictCell(c.layers + ls, c.acc, c.pre), 'dict')
            else: raise Unsupported('loop effect')

    def valid_all(self, cond, j, N): return True   # the single path is exhaustive

    def set_effect(self, paths, j, N):
        if not any(ls for _, ls in paths): return None

        def touch_val(ls, k):
            t, v = z3.BoolVal(False), z3.BoolVal(False)
            for l in ls:
                if l[0] in ('add', 'discard'): tl, vl = zbool(self.eq_term(l[1], k)), z3.BoolVal(l[0] == 'add')
                elif l[0] == 'union': tl, vl = zbool(l[1].has(k)), z3.BoolVal(True)
                elif l[0] == 'minus': tl, vl = zbool(l[1].has(k)), z3.BoolVal(False)
                else: raise Unsupported('nested set loop')
                t, v = z3.Or(t, tl), z3.If(tl, vl, v)
            return z3.simplify(t), z3.simplify(v)
        inv = self.invertible([('set', l[1], None) if l[0] in ('add', 'discard') else ('other',) for _, ls in paths for l in ls], j)
        if inv is not None:
            key, idx = inv

            def g(k, r):
                i = idx(self.to_obj(k))
                mine = z3.And(0 <= i, i < N, zbool(self.eq_term(self.subst(key, [(j, i)]), k)))
                self.exhaustive(paths, j, i, mine)
                add = z3.Or([z3.substitute(c, (j, i)) for c, ls in paths if ls and ls[-1][0] == 'add'] or [z3.BoolVal(False)])
                dis = z3.Or([z3.substitute(c, (j, i)) for c, ls in paths if ls and ls[-1][0] == 'discard'] or [z3.BoolVal(False)])
                return z3.If(z3.And(mine, add), z3.BoolVal(True), z3.If(z3.And(mine, dis), z3.BoolVal(False), r))
            return g
        only_add = all(l[0] in ('add', 'union') for _, ls in paths for l in ls)

        def f(k, r):
            i = z3.Int(self.fresh_name('i'))
            tv = [(cond,) + touch_val(ls, k) for cond, ls in paths]
            hit = z3.Or([z3.And(cond, t, v) for cond, t, v in tv])
            if only_add:
                return z3.Or(r, z3.Exists([j], z3.And(0 <= j, j < N, hit)))
            miss = z3.Or([z3.And(cond, z3.Not(t)) for cond, t, v in tv])
            miss_i = z3.substitute(miss, (j, i))
            return z3.Or(z3.Exists([j], z3.And(0 <= j, j < N, hit,
                                               z3.ForAll([i], z3.Implies(z3.And(j < i, i < N), miss_i)))),
                         z3.And(r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), miss_i))))
        return f

    def exhaustive(self, paths, j, i, mine):
        """Every completed iteration took one of the paths: ground instance at i."""
        if len(paths) > 1:
            self.assume(z3.Implies(mine, z3.substitute(z3.Or([p[0] for p in paths]), (j, i))))

    def dict_effect(self, paths, j, N, base):
        if not any(ls for _, ls in paths): return ()
        if any(l[0] == 'del' for _, ls in paths for l in ls): raise Unsupported('deletion in loop')

        w = self.invertible([l for _, ls in paths for l in ls], j)
        if w is not None: return self.dict_effect_inv(paths, j, N, base, *w)

        def touch(ls, k):
            t = z3.BoolVal(False)
            for l in ls:
                t = z3.Or(t, zbool(self.eq_term(l[1], k)) if l[0] == 'set' else zbool(l[1].has(k)))
            return z3.simplify(t)

        def has(k):
            return z3.Exists([j], z3.And(0 <= j, j < N, z3.Or([z3.And(c, touch(ls, k)) for c, ls in paths])))

        def get(k):
            # last iteration that stores k (caller has assumed has(k))
            jx = self.fresh(IntS, 'jw')
            i = z3.Int(self.fresh_name('i'))
            self.assume(z3.And(0 <= jx, jx < N))
            miss = z3.Or([z3.And(c, z3.Not(touch(ls, k))) for c, ls in paths])
            self.assume(z3.ForAll([i], z3.Implies(z3.And(jx < i, i < N), z3.substitute(miss, (j, i)))))
            cand = [(c, ls) for c, ls in paths if ls]
            x = self.choose(len(cand))
            c, ls = cand[x]
            sub = [(j, jx)]
            self.assume(z3.substitute(z3.And(c, touch(ls, k)), *sub))
            for l in reversed(ls):
                if l[0] == 'set':
                    kk = self.subst(l[1], sub)
                    if contains_inner_ref(l[2], base): raise Unsupported('dictionary of objects created in the loop')
                    if self.truth(self.eq_term(kk, k)): return self.subst(l[2], sub)
                else:
                    if self.decide(z3.substitute(zbool(l[1].has(k)), *sub)):
                        return self.subst(l[1].get(k), sub)
            raise Infeasible()
        # iteration order: supported if every iteration stores at most one key and keys are distinct
        seq = None
        cand = [(c, ls[0]) for c, ls in paths if ls]
        if all(len(ls) <= 1 for _, ls in paths) and all(l[0] == 'set' for _, l in cand) and self.distinct_keys([l[1] for _, l in cand], j, N):
            if len(paths) == 1:
                l = cand[0][1]
                seq = ASeq(N, lambda x: self.subst(l[1], [(j, zint(x))]))
            else:
                def pick(x):
                    for c, l in cand:
                        if self.decide(z3.substitute(c, (j, zint(x)))): return [self.subst(l[1], [(j, zint(x))])]
                    return []
                seq = LazySeq(ASeq(N, zint), pick)
            if not any(contains_inner_ref(l[2], base) for _, l in cand):
                def get(k):
                    jx = self.fresh(IntS, 'jw')
                    self.assume(z3.And(0 <= jx, jx < N))
                    x = self.choose(len(cand))
                    c, l = cand[x]
                    self.assume(z3.substitute(c, (j, jx)))
                    self.assume(zbool(self.eq_term(self.subst(l[1], [(j, jx)]), k)))
                    if not self.cur_feasible(): raise Infeasible()
                    return self.subst(l[2], [(j, jx)])
        return (('amap', AMap(has, get, seq)),)

    def invertible(self, layers, j):
        """(key, index function) if all layers store the same key K(.., j) and K is injective."""
        if not layers or any(l[0] != 'set' for l in layers): return None
        ts = [self.to_obj(l[1]) for l in layers]
        t = ts[0]
        if any(not z3.eq(t, u) for u in ts) or not z3.is_app(t) or t.num_args() < 1: return None
        inv = self.inverse.get(t.decl().name())
        rest = t.children()[:-1]
        if inv is None or not z3.eq(t.children()[-1], j) or any(self.mentions(x, j) for x in rest): return None
        return layers[0][1], lambda k: inv(*rest, k)

    def dict_effect_inv(self, paths, j, N, base, key, idx):
        cand = [(c, ls[-1]) for c, ls in paths if ls]
        at = lambda x, i: z3.substitute(x, (j, i))

        def hit(k):
            i = idx(self.to_obj(k))
            return i, z3.And(0 <= i, i < N, zbool(self.eq_term(self.subst(key, [(j, i)]), k)))

        def has(k):
            i, h = hit(k)
            self.exhaustive(paths, j, i, h)
            if len(cand) == len(paths): return z3.simplify(h)
            return z3.simplify(z3.And(h, z3.Or([at(c, i) for c, _ in cand])))

        def get(k):
            i, h = hit(k)
            self.assume(h)
            x = self.choose(len(cand))
            c, l = cand[x]
            self.assume(at(c, i))
            if not self.cur_feasible(): raise Infeasible()
            if contains_inner_ref(l[2], base): raise Unsupported('dictionary of objects created in the loop')
            return self.subst(l[2], [(j, i)])

        def pick(x):
            x = zint(x)
            for c, l in cand:
                if self.decide(at(c, x)): return [self.subst(key, [(j, x)])]
            return []
        seq = ASeq(N, lambda x: self.subst(key, [(j, zint(x))])) if len(cand) == len(paths) else LazySeq(ASeq(N, zint), pick)
        return (('amap', AMap(has, get, seq)),)

    def resolve_loopvar(self, v):
        sub = lambda x, jx: self.subst(x, [(v.j0, jx)])

        def pick(jx):
            if len(v.assign) == 1:
                self.assume(z3.substitute(v.assign[0][0], (v.j0, jx)))
                return sub(v.assign[0][1], jx)
            # merge equal constant values
            x = self.choose(len(v.assign))
            self.assume(z3.substitute(v.assign[x][0], (v.j0, jx)))
            if not self.cur_feasible(): raise Infeasible()
            return sub(v.assign[x][1], jx)
        N = v.n

        def old():
            if isinstance(v.old, (Poison, LoopPoison)): raise Unsupported('variable undefined before loop')
            if isinstance(v.old, LoopVar): return self.resolve_loopvar(v.old)
            return v.old
        if not v.keep:
            if self.decide(N > 0): return pick(z3.simplify(N - 1))
            return old()
        i = v.j0
        if self.choose(2) == 0:
            jx = self.fresh(IntS, 'jl')
            self.assume(z3.And(0 <= jx, jx < N))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(jx < i, i < N), z3.Or(v.keep))))
            r = pick(jx)
            if not self.cur_feasible(): raise Infeasible()
            return r
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), z3.Or(v.keep))))
        if not self.cur_feasible(): raise Infeasible()
        return old()

    def lookup_var(self, name, frame):
        a = frame
        while a is not None:
            fc = self.heap[a]
            if name in fc.vars:
                v = fc.vars[name]
                if isinstance(v, LoopVar):
                    v = self.resolve_loopvar(v)
                    fc = self.heap[a]
                    vs = dict(fc.vars); vs[name] = v
                    self.heap[a] = FrameCell(vs, fc.parent)
                if isinstance(v, LoopPoison): raise PoisonRead(v.loc)
                if isinstance(v, Poison):
                    raise Unsupported(f'variable {name} after/inside loop: {v.why}')
                return v
            a = fc.parent
        return KeyError

    def choose(self, k):
        r = super().choose(k)
        if self.jstack and k > 1:
            sel = self.fresh(IntS, 'sel')
            self.assume(sel == r)
        return r

    # ================================================= assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name): self.set_var(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.unpack(v, len(t.elts), star[0] if star else None)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            if isinstance(t.slice, ast.Slice): raise Unsupported('slice assignment')
            self.setitem(o, self.ev_index(t.slice), v)
        else: raise Unsupported('assignment target')

    def unpack(self, v, n, star=None):
        if isinstance(v, tuple): xs = list(v)
        elif isinstance(v, ASeq) and not isinstance(v.n, int):
            if star is not None: raise Unsupported('starred unpacking')
            if not self.decide(zint(v.n) == n): raise PyRaise(Exc(['builtins.ValueError']))
            return [v.at(i) for i in range(n)]
        else:
            segs = self.iter_segs(v)
            if all(s[0] == 'item' for s in segs): xs = [s[1] for s in segs]
            elif len(segs) == 1 and star is None:
                c = segs[0][1]
                if {len(x) for _, x in c.alts} != {1}: raise Unsupported('unpacking filtered sequence')
                if not self.decide(zint(c.n) == n): raise PyRaise(Exc(['builtins.ValueError']))
                return [self.comp_at(c, i)[0] for i in range(n)]
            else: raise Unsupported('unpacking')
        if star is not None:
            k = len(xs) - (n - 1)
            if k < 0: raise PyRaise(Exc(['builtins.ValueError']))
            return xs[:star] + [self.new_list(xs[star:star + k])] + xs[star + k:]
        if len(xs) != n: raise PyRaise(Exc(['builtins.ValueError']))
        return xs

    # ================================================= expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported(f'expression {type(e).__name__} (line {getattr(e, "lineno", "?")})')
        return m(e)

    def ev_index(self, e):
        return self.ev(e)

    def e_Constant(self, e): return Ext('Ellipsis') if e.value is Ellipsis else e.value
    def e_Name(self, e): return self.load_name(e.id, self.frame_addr)
    def e_NamedExpr(self, e):
        v = self.ev(e.value); self.assign(e.target, v); return v

    def e_Tuple(self, e): return tuple(self.ev_list(e.elts))
    def e_List(self, e):
        segs = self.ev_segs(e.elts)
        return self.alloc(ListCell(segs))

    def e_Set(self, e):
        return self.alloc(SetCell([('add', x) for x in self.ev_list(e.elts)]))

    def ev_segs(self, elts):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred): segs.extend(self.iter_segs(self.ev(x.value)))
            else: segs.append(('item', self.ev(x)))
        return segs

    def ev_list(self, elts):
        segs = self.ev_segs(elts)
        if any(s[0] != 'item' for s in segs): raise Unsupported('starred expression of unknown length')
        return [s[1] for s in segs]

    def e_Dict(self, e):
        r = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None: self.dict_update(r, self.ev(v))
            else: self.dict_set(r, self.ev(k), self.ev(v))
        return r

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if t != isand: return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not): return z3.Not(v) if self.pure and is_z3(v) and v.sort() == BoolS else not self.truth(v)
        if isinstance(e.op, ast.USub) and is_int(v): return -v
        if isinstance(e.op, ast.USub) and isinstance(v, float): return -v
        raise Unsupported('unary operator')

    def e_IfExp(self, e):
        return self.ev(e.body) if self.truth(self.ev(e.test)) else self.ev(e.orelse)

    def e_Compare(self, e):
        left = self.ev(e.left)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r)
            v = self.compare(op, left, right)
            if i == len(e.ops) - 1: return v
            if not self.truth(v): return v
            left = right

    def compare(self, op, a, b):
        if isinstance(op, ast.Is): return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, ast.Eq): return self.eq_term(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq_term(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, ast.In): return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if is_z3(a) and a.sort() == BoolS and is_int(b): a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if is_int(a) and is_int(b):
            f = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}
            return f[type(op)]()
        if isinstance(a, tuple) and isinstance(b, tuple) and all(isinstance(x, (int, str)) for x in a + b):
            f = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}
            return f[type(op)]()
        if isinstance(a, tuple) and isinstance(b, tuple) and all(is_int(x) for x in a + b) and type(op) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            strict, equal = (ast.Lt, ast.LtE), (ast.LtE, ast.GtE)
            r = z3.BoolVal(len(a) == len(b) and type(op) in equal or len(a) != len(b) and (len(a) < len(b)) == (type(op) in strict))
            for x, y in reversed(list(zip(a, b))):
                x, y = zint(x), zint(y)
                r = z3.If(x == y, r, x < y if type(op) in strict else x > y)
            return z3.simplify(r)
        if self.is_setlike(a) and self.is_setlike(b):
            A, B = self.as_aset(a), self.as_aset(b)
            k = z3.Const(self.fresh_name('ks'), Obj)
            if isinstance(op, ast.LtE): return z3.ForAll([k], z3.Implies(zbool(A.has(Sym(k))), zbool(B.has(Sym(k)))))
            if isinstance(op, ast.GtE): return z3.ForAll([k], z3.Implies(zbool(B.has(Sym(k))), zbool(A.has(Sym(k)))))
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        raise Unsupported(f'comparison {type(op).__name__} of {a!r} and {b!r}')

    def is_(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym):
                for h in self.is_hooks:
                    r = h(self, x, y)
                    if r is not NotImplemented: return r
        return self.identical(a, b)

    def contains(self, c, x):
        if isinstance(c, Sym):
            for h in self.contains_hooks:
                r = h(self, c, x)
                if r is not NotImplemented: return r
            raise Unsupported(f'membership in {c!r}')
        if is_str(c) and is_str(x):
            if isinstance(c, str) and isinstance(x, str): return x in c
            return z3.Contains(zstr(c), zstr(x))
        if isinstance(c, Ref):
            cc = self.cell(c)
            if isinstance(cc, DictCell):
                self.require_hashable(x)
                yn, _ = self.dict_find(c, x)
                return yn == 'yes'
            if isinstance(cc, SetCell):
                self.require_hashable(x)
                return self.set_contains(self.as_aset(c), x)
            if isinstance(cc, ListCell): return self.seq_contains(self.segs(c), x)
        if isinstance(c, ASet):
            return self.set_contains(c, x)
        if isinstance(c, tuple): return self.seq_contains([('item', y) for y in c], x)
        if isinstance(c, ConstContainer) and is_z3(x) and is_str(x) and all(isinstance(i[0] if c.k == 'dict' else i, str) for i in c.items):
            return z3.Or([x == k for k in sorted({i[0] if c.k == 'dict' else i for i in c.items})] or [z3.BoolVal(False)])
        if isinstance(c, ConstContainer):
            if c.k in ('dict', 'set', 'frozenset'): self.require_hashable(x)
            return self.seq_contains(self.iter_segs(c), x)
        if isinstance(c, (ASeq, Gen)):
            if getattr(c, 'has', None): return c.has(x)
            return self.seq_contains(self.iter_segs(c), x)
        raise Unsupported(f'membership in {c!r}')

    def require_hashable(self, x): pass

    def set_contains(self, s, x):
        t = s.has(x)
        if isinstance(t, bool): return t
        if z3.is_quantifier(t) or has_quant(t):
            # keep quantifiers in assumptions positive by naming the two cases
            return self.decide(t)
        return t

    def seq_contains(self, segs, x):
        r = []
        for s in segs:
            if s[0] == 'item':
                e = self.eq_term(s[1], x)
                if e is True: return True
                if e is not False: r.append(e)
        r = [z3.Or(r)] if r else []
        comps = [s[1] for s in segs if s[0] == 'comp']
        if not comps: return r[0] if r else False
        if r and self.decide(r[0]): return True
        for c in comps:
            if self.choose(2) == 0:
                jx = self.fresh(IntS, 'jx')
                self.assume(z3.And(0 <= jx, jx < zint(c.n)))
                vals = self.comp_at(c, jx)
                self.assume(z3.Or([zbool(self.eq_term(v, x)) for v in vals] or [z3.BoolVal(False)]))
                if not self.cur_feasible(): raise Infeasible()
                return True
            j = c.j0
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zint(c.n)), z3.Or(
                [z3.And([cond] + [z3.Not(zbool(self.eq_term(v, x))) for v in vals]) for cond, vals in c.alts]))))
            if not self.cur_feasible(): raise Infeasible()
        return False

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        o = BINOPS.get(type(op))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '%': lambda: a % b,
                        '//': lambda: a // b, '|': lambda: a | b, '&': lambda: a & b, '^': lambda: a ^ b,
                        '/': lambda: a / b, '**': lambda: a ** b}[o]()
            except ZeroDivisionError: raise PyRaise(Exc(['builtins.ValueError']))
        if is_int(a) and is_int(b):
            if o == '+': return zint(a) + zint(b)
            if o == '-': return zint(a) - zint(b)
            if o == '*': return zint(a) * zint(b)
        if is_str(a) and is_str(b) and o == '+': return self.concat([a, b])
        if o == '%' and isinstance(a, str): return self.percent(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and o == '+': return a + b
        if isinstance(a, Ref) and isinstance(self.cell(a), ListCell) and o == '+':
            return self.alloc(ListCell(self.segs(a) + tuple(self.iter_segs(b))))
        if isinstance(a, Ref) and isinstance(self.cell(a), ListCell) and o == '*' and isinstance(b, int):
            return self.alloc(ListCell(self.segs(a) * b))
        if isinstance(a, str) and isinstance(b, int) and o == '*': return a * b
        if o in ('-', '|', '&', '^') and (self.is_setlike(a) or self.is_setview(a)):
            A, B = self.as_aset(a), self.as_aset(b)
            f = {'-': lambda k: z3.And(zbool(A.has(k)), z3.Not(zbool(B.has(k)))),
                 '|': lambda k: z3.Or(zbool(A.has(k)), zbool(B.has(k))),
                 '&': lambda k: z3.And(zbool(A.has(k)), zbool(B.has(k))),
                 '^': lambda k: z3.Xor(zbool(A.has(k)), zbool(B.has(k)))}[o]
            return ASet(lambda k: z3.simplify(f(k)))
        if o == '|' and isinstance(a, Ref) and isinstance(self.cell(a), DictCell):
            r = self.alloc(self.cell(a)); self.dict_update(r, b); return r
        raise Unsupported(f'operator {o} on {a!r} and {b!r}')

    def is_setview(self, v): return isinstance(v, ASeq) and getattr(v, 'has', None) is not None

    # ---- strings
    def concat(self, parts):
        flat = []
        for p in parts:
            if isinstance(p, str):
                if not p: continue
                if flat and isinstance(flat[-1], str): flat[-1] += p
                else: flat.append(p)
            elif is_z3(p) and p.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                for c in p.children():
                    if z3.is_string_value(c):
                        s = zstr_value(c)
                        if flat and isinstance(flat[-1], str): flat[-1] += s
                        else: flat.append(s)
                    else: flat.append(c)
            elif z3.is_string_value(p):
                s = zstr_value(p)
                if flat and isinstance(flat[-1], str): flat[-1] += s
                else: flat.append(s)
            else: flat.append(p)
        if not flat: return ''
        if len(flat) == 1: return flat[0]
        return z3.Concat(*[zstr(x) for x in flat])

    def percent(self, fmt, arg):
        args = list(arg) if isinstance(arg, tuple) else [arg]
        parts = fmt.split('%s')
        if '%' in ''.join(parts) or len(parts) != len(args) + 1: raise Unsupported('% formatting')
        out = [parts[0]]
        for a, p in zip(args, parts[1:]): out += [self.to_str(a), p]
        return self.concat(out)

    def to_str(self, v, rep=False):
        if isinstance(v, bool) or v is None: return str(v)
        if is_str(v):
            if rep:
                if isinstance(v, str): return repr(v)
                f = z3.Function('py_repr', StrS, StrS)
                return f(v)
            return v
        if isinstance(v, (int, float)): return str(v)
        if is_int(v): return z3.Function('py_int_str', IntS, StrS)(v)
        if is_bool(v): return z3.If(v, z3.StringVal('True'), z3.StringVal('False'))
        if isinstance(v, Sym): return self.str_of(v.t) if not rep else z3.Function('py_repr_obj', Obj, StrS)(v.t)
        if isinstance(v, Ext): return self.str_of(self.to_obj(v))
        return self.fresh(StrS, 'str')

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant): parts.append(x.value)
            else:
                v = self.ev(x.value)
                if x.format_spec is not None:
                    parts.append(self.fresh(StrS, 'fmt'))
                else: parts.append(self.to_str(v, rep=(x.conversion == 114)))
        return self.concat(parts)

    # ---- comprehensions
    def e_ListComp(self, e): return self.comprehension(e, 'list')
    def e_SetComp(self, e): return self.comprehension(e, 'set')
    def e_GeneratorExp(self, e):
        r = self.comprehension(e, 'gen')
        return Gen(self.segs(r)) if isinstance(r, Ref) else r

    def e_DictComp(self, e): return self.comprehension(e, 'dict')

    def selection(self, e, kind, first):
        """{x for x in s if ...} and the like, for a set s with unknown elements."""
        g = e.generators[0]
        if kind == 'dict' or len(e.generators) > 1 or not isinstance(g.target, ast.Name) or not isinstance(e.elt, ast.Name) or e.elt.id != g.target.id: return None
        if isinstance(first, Ref) and isinstance(self.cell(first), SetCell): first = self.as_aset(first)
        if not isinstance(first, ASet) or first.seq is not None: return None
        x = z3.Const('element', self.set_element_sort)
        frame, pure = self.frame_addr, self.pure
        self.frame_addr, self.pure = self.new_frame({g.target.id: x}, frame), True
        try: cs = [self.ev(c) for c in g.ifs]
        finally: self.frame_addr, self.pure = frame, pure
        if not all(isinstance(c, bool) or (is_z3(c) and c.sort() == BoolS) for c in cs): raise Unsupported('condition of a comprehension over a set')
        r = ASet(lambda k: z3.And([zbool(first.has(k))] + [z3.substitute(zbool(c), (x, k)) for c in cs]))
        if kind == 'set': return self.alloc(SetCell([('union', r)]))
        if kind == 'gen': return r
        order, n = self.fresh_name('order'), z3.Int(self.fresh_name('number'))
        self.fact(n >= 0)
        lst = self.alloc(ListCell([('comp', self.comp_of_seq(ASeq(n, lambda j: z3.Function(order, IntS, self.set_element_sort)(zint(j)))))]))
        self.set_lists[id(self.cell(lst))] = (self.cell(lst), r)
        return lst

    set_element_sort = Obj

    def comprehension(self, e, kind):
        first = self.ev(e.generators[0].iter)
        r = self.selection(e, kind, first)
        if r is not None: return r
        if kind == 'gen': kind = 'list'
        old = self.frame_addr
        self.frame_addr = self.new_frame({}, old)
        acc = {'list': self.new_list, 'set': lambda: self.alloc(SetCell()), 'dict': self.new_dict}[kind]()

        def gen(i, it):
            g = e.generators[i]

            def body(v):
                self.assign(g.target, v)
                for c in g.ifs:
                    if not self.truth(self.ev(c)): return
                if i + 1 < len(e.generators): gen(i + 1, self.ev(e.generators[i + 1].iter))
                elif kind == 'list': self.list_append(acc, self.ev(e.elt))
                elif kind == 'set':
                    x = self.ev(e.elt)
                    self.require_hashable(x)
                    self.set_layer(acc, ('add', x))
                else:
                    k = self.ev(e.key)
                    self.dict_set(acc, k, self.ev(e.value))
            self.run_loop((e, i) if False else g, it, body)
        gen(0, first)
        self.frame_addr = old
        return acc

    def e_Lambda(self, e): return self.make_fn(e)

    def e_Starred(self, e): raise Unsupported('starred expression')

    # ---- lists
    def list_append(self, ref, v):
        c = self.cell(ref)
        self.write(ref, ListCell(c.segs + (('item', v),), c.acc, c.kind), 'list')

    def list_extend(self, ref, v):
        o = getattr(self.cell(v), 'origin', None) if isinstance(v, Ref) else None
        if o is not None:
            # the pieces of a split text: one element that stands for all of them
            return self.list_append(ref, Sym(z3.Function('split_pieces', StrS, StrS, Obj)(o[0], zstr(o[1])), ('splice', o[0], o[1])))
        segs = self.iter_segs(v)
        c = self.cell(ref)
        self.write(ref, ListCell(c.segs + tuple(segs), c.acc, c.kind), 'list')

    def set_layer(self, ref, layer):
        c = self.cell(ref)
        self.write(ref, SetCell(c.layers + (layer,), c.acc), 'set')

    def dict_update(self, ref, v):
        if isinstance(v, Ref) and isinstance(self.cell(v), DictCell):
            it = self.dict_concrete(v)
            if it is not None:
                for k, x in it: self.dict_set(ref, k, x)
                return
            c = self.cell(ref)
            self.write(ref, DictCell(c.layers + self.cell(v).layers, c.acc, c.pre), 'dict')
            return
        if isinstance(v, ConstContainer) and v.k == 'dict':
            for k, x in v.items: self.dict_set(ref, k, x)
            return
        if isinstance(v, Sym):
            m = self.sym_as_amap(v)
            c = self.cell(ref)
            self.write(ref, DictCell(c.layers + (('amap', m),), c.acc, c.pre), 'dict')
            return
        if isinstance(v, AMap):
            c = self.cell(ref)
            self.write(ref, DictCell(c.layers + (('amap', v),), c.acc, c.pre), 'dict')
            return
        segs = self.iter_segs(v)
        if all(s[0] == 'item' for s in segs):
            for s in segs:
                k, x = self.unpack(s[1], 2)
                self.dict_set(ref, k, x)
            return
        raise Unsupported('dict.update')

    def sym_as_amap(self, v): raise Unsupported(f'{v!r} as mapping')

    # ---- attribute, subscript
    def e_Attribute(self, e): return self.getattr(self.ev(e.value), e.attr)

    def getattr(self, o, name):
        if isinstance(o, Mod):
            v = self.attr_of_ext(o.name, [name])
            if v is KeyError: raise PyRaise(Exc(['builtins.AttributeError']))
            return v
        if isinstance(o, Sym):
            for h in self.attr_hooks:
                v = h(self, o, name)
                if v is not NotImplemented: return v
            raise Unsupported(f'attribute {name} of {o!r}')
        if isinstance(o, Ext):
            for h in self.attr_hooks:
                v = h(self, o, name)
                if v is not NotImplemented: return v
            if name == '__name__': return o.id.rsplit('.', 1)[1]
            if '.' in o.id:
                m, p = o.id.split('.', 1)
                if m in ('builtins', 'typing', 'inspect', 'types', 'enum', 'functools', 'sys', 'os', 'datetime', 're', 'io', 'shutil', 'posixpath', 'string', 'keyword', 'collections'):
                    v = self.attr_of_ext(m, p.split('.') + [name])
                    if v is KeyError: raise PyRaise(Exc(['builtins.AttributeError']))
                    return v
            raise Unsupported(f'attribute {name} of {o!r}')
        if is_str(o): return BM(o, ('str', name), 'str.' + name)
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ObjCell):
                for h in self.ref_hooks:
                    v = h(self, o, c, name)
                    if v is not NotImplemented: return v
                if name in c.attrs:
                    v = c.attrs[name]
                    if isinstance(v, LoopVar):
                        v = self.resolve_loopvar(v)
                        at = dict(c.attrs); at[name] = v
                        self.heap[o.a] = ObjCell(c.cls, at)
                    if isinstance(v, LoopPoison): raise PoisonRead(v.loc)
                    if isinstance(v, Poison): raise Unsupported(f'attribute {name}: {v.why}')
                    return v
                return self.class_attr(o, c, name)
            kind = {ListCell: 'list', DictCell: 'dict', SetCell: 'set'}.get(type(c))
            if kind: return BM(o, (kind, name), f'{kind}.{name}')
        if isinstance(o, (ASeq, ASet, Gen)):
            return BM(o, ('aset' if isinstance(o, ASet) else 'aseq', name), name)
        if isinstance(o, tuple): return BM(o, ('tuple', name), name)
        if isinstance(o, ConstContainer): return BM(o, ('const', name), name)
        if isinstance(o, Fn):
            if name in o.props: return o.props[name]
            if name in ('__name__', '__qualname__'): return o.qual.rsplit('.', 1)[-1]
        if isinstance(o, Exc):
            if name in o.attrs: return o.attrs[name]
            if name == 'args': return tuple(o.args)
            raise Unsupported(f'attribute {name} of exception')
        if isinstance(o, AMap): return BM(o, ('amap', name), name)
        if o is None: raise PyRaise(Exc(['builtins.AttributeError']))
        raise Unsupported(f'attribute {name} of {o!r}')

    def class_attr(self, o, c, name):
        fn = self.class_method(c.cls, name)
        if fn is None:
            fn = self.class_property(c.cls, name)
            if fn is not None: return self.call_fn(fn, [o], {})
        if fn is None: raise Unsupported(f'attribute {name} of object of {c.cls}')
        return BM(o, fn, name)

    def class_method(self, cls, name):
        """Method of a class of /repo (cls = 'module:Qual')."""
        if not isinstance(cls, str) or ':' not in cls: return None
        mod, qual = cls.split(':')
        d = self.reflect.resolve(mod, [qual, name])
        if d['k'] == 'func' and d['file'].startswith(self.reflect.repo + '/'):
            tree = load_ast(d['file'])
            node = find_def(tree, d['qual'])
            if node is None: raise Unsupported('source of ' + d['id'])
            fn = Fn(node, d['module'], None, d['qual'])
            fn.static_defaults = True
            return fn
        if d['k'] == 'const': return None
        c = self.reflect.resolve(mod, [qual])      # method behind a transparent decorator
        if (c.get('file') or '').startswith(self.reflect.repo + '/'):
            node = find_def(load_ast(c['file']), c['qual'] + '.' + name)
            if isinstance(node, ast.FunctionDef) and len(node.decorator_list) == 1:
                fn = Fn(node, c['module'], None, c['qual'] + '.' + name)
                fn.static_defaults = True
                if any(h(self, fn, ast.unparse(node.decorator_list[0])) for h in getattr(self, 'decorator_hooks', ())): return fn
        return None

    def class_property(self, cls, name):
        if not isinstance(cls, str) or ':' not in cls: return None
        mod, qual = cls.split(':')
        d = self.reflect.resolve(mod, [qual, name])
        c = self.reflect.resolve(mod, [qual])
        if d.get('type') != 'builtins.property' or not (c.get('file') or '').startswith(self.reflect.repo + '/'): return None
        node = find_def(load_ast(c['file']), c['qual'] + '.' + name)
        if node is None or [ast.unparse(x) for x in node.decorator_list] != ['property']: return None
        fn = Fn(node, c['module'], None, c['qual'] + '.' + name)
        fn.static_defaults = True
        return fn

    def setattr(self, o, name, v):
        if isinstance(o, Ref) and isinstance(self.cell(o), ObjCell):
            for h in self.setattr_hooks:
                if h(self, o, name, v) is not NotImplemented: return
            c = self.cell(o)
            at = dict(c.attrs); at[name] = v
            self.write(o, ObjCell(c.cls, at), name)
            return
        if isinstance(o, (Sym, Ext, Mod)):
            for h in self.setattr_hooks:
                if h(self, o, name, v) is not NotImplemented: return
            return self.external_write(f'attribute {name} of {o!r}')
        if isinstance(o, Fn):
            o.props = dict(o.props); o.props[name] = v
            return
        raise Unsupported(f'assignment to attribute {name} of {o!r}')

    def setitem(self, o, k, v):
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, DictCell): return self.dict_set(o, k, v)
            if isinstance(c, ListCell) and isinstance(k, int):
                segs = list(self.segs(o))
                items = all(s[0] == 'item' for s in segs)
                if items:
                    if not -len(segs) <= k < len(segs): raise PyRaise(Exc(['builtins.IndexError']))
                    segs[k] = ('item', v)
                    return self.write(o, ListCell(segs, c.acc, c.kind), 'list')
                if k < 0 and all(s[0] == 'item' for s in segs[k:]) and len(segs) >= -k:
                    segs[k] = ('item', v)
                    return self.write(o, ListCell(segs, c.acc, c.kind), 'list')
        if isinstance(o, Sym):
            for h in getattr(self, 'setitem_hooks', ()):
                if h(self, o, k, v) is not NotImplemented: return
        if isinstance(o, (Sym, ConstContainer)): return self.external_write(f'item of {o!r}')
        raise Unsupported(f'item assignment on {o!r}')

    def e_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower) if e.slice.lower else None
            hi = self.ev(e.slice.upper) if e.slice.upper else None
            st = self.ev(e.slice.step) if e.slice.step else None
            return self.slice(o, lo, hi, st)
        return self.getitem(o, self.ev_index(e.slice))

    def slice(self, o, lo, hi, st):
        if st is not None: 
            if isinstance(o, (str, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)): return o[lo:hi:st]
            raise Unsupported('slice step')
        if isinstance(o, (str, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi)): return o[lo:hi]
        if is_str(o):
            s = zstr(o)
            n = z3.Length(s)
            from .lib import rfind_slice
            r = rfind_slice(self, s, lo, hi)
            if r is not None: return r
            if is_z3(lo) and hi is None:
                # everything behind a prefix of the parts
                from .lib import flat
                p = flat(s)
                for i in range(1, len(p)):
                    if z3.eq(z3.simplify(lo - z3.Sum([z3.Length(x) for x in p[:i]])), z3.IntVal(0)):
                        return p[i] if len(p) == i + 1 else z3.Concat(*p[i:])

            def norm(x, default):
                if x is None: return default
                if isinstance(x, int):
                    if x >= 0: return z3.If(n < x, n, z3.IntVal(x)) if x > 0 else z3.IntVal(0)
                    return z3.If(n + x < 0, z3.IntVal(0), n + x)
                return z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(x > n, n, x))
            a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
            return z3.simplify(z3.SubString(s, a, z3.If(b - a < 0, z3.IntVal(0), b - a)))
        if isinstance(o, Ref) and isinstance(self.cell(o), ListCell): segs = list(self.segs(o))
        elif isinstance(o, (ASeq, tuple, Gen)): segs = self.iter_segs(o)
        elif isinstance(o, Sym): segs = self.iter_segs(o)
        else: raise Unsupported(f'slice of {o!r}')
        mk = (lambda sg: self.alloc(ListCell(sg))) if isinstance(o, Ref) else (lambda sg: tuple(s[1] for s in sg) if all(s[0] == 'item' for s in sg) else self.alloc(ListCell(sg)))
        if all(s[0] == 'item' for s in segs) and all(x is None or isinstance(x, int) for x in (lo, hi)): return mk(segs[lo:hi])
        if hi is None and isinstance(lo, int) and lo >= 0: return mk(self.drop(segs, lo))
        if hi is None and lo is None: return mk(segs)
        raise Unsupported('slice of abstract sequence')

    def drop(self, segs, k):
        segs = list(segs)
        while k and segs:
            if segs[0][0] == 'item':
                segs.pop(0); k -= 1
                continue
            c = segs[0][1]
            if {len(v) for _, v in c.alts} != {1}: raise Unsupported('slice of filtered sequence')
            n = zint(c.n)
            if self.decide(n >= k):
                j = z3.Int(self.fresh_name('jd'))
                alts = [(z3.substitute(cond, (c.j0, j + k)), [self.subst(v, [(c.j0, j + k)]) for v in vals]) for cond, vals in c.alts]
                segs[0] = ('comp', Comp(z3.simplify(n - k), j, alts))
                k = 0
            elif len(segs) == 1: return []
            else:
                for m in range(k):
                    if self.decide(n == m):
                        segs.pop(0); k -= m
                        break
                else: raise Unsupported('slice of abstract sequence')
        return segs

    def getitem(self, o, k):
        if isinstance(o, (tuple, str)) and isinstance(k, int):
            try: return o[k]
            except IndexError: raise PyRaise(Exc(['builtins.IndexError']))
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, DictCell):
                self.require_hashable(k)
                return self.dict_get(o, k)
            if isinstance(c, ListCell): return self.nth(self.segs(o), k)
        if isinstance(o, ConstContainer) and o.k == 'dict':
            if is_z3(k) and is_str(k) and o.texts():
                if not self.truth(self.contains(o, k)): raise PyRaise(Exc(['builtins.KeyError']))
                return o.lookup(k, o.texts()[-1][1])
            for kk, v in o.items:
                if self.truth(self.eq_term(kk, k)): return v
            raise PyRaise(Exc(['builtins.KeyError']))
        if isinstance(o, ConstContainer) and o.k == 'list': return self.nth(self.iter_segs(o), k)
        if isinstance(o, Sym):
            for h in self.item_hooks:
                v = h(self, o, k)
                if v is not NotImplemented: return v
        if isinstance(o, (ASeq, tuple)): return self.nth(self.iter_segs(o), k)
        if isinstance(o, Ext):
            for h in self.item_hooks:
                v = h(self, o, k)
                if v is not NotImplemented: return v
        if is_str(o) and is_int(k):
            s = zstr(o)
            n = z3.Length(s)
            kk = zint(k)
            if self.decide(z3.And(kk < n, kk >= -n)):
                i = z3.If(kk < 0, n + kk, kk)
                return z3.simplify(z3.SubString(s, i, 1))
            raise PyRaise(Exc(['builtins.IndexError']))
        raise Unsupported(f'subscript of {o!r}')

    # ================================================= calls
    def e_Call(self, e):
        # any / all over a generator: short circuit semantics
        f = self.ev(e.func)
        if isinstance(f, Ext) and f.id in ('builtins.any', 'builtins.all') and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.quantify(e.args[0], f.id == 'builtins.any')
        if isinstance(f, Ext) and f.id == 'builtins.next' and e.args and isinstance(e.args[0], ast.GeneratorExp):
            return self.next_gen(e)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value)
                r = self.star_arg(sv)
                if isinstance(r, StarSeq): args.append(r)
                else: args.extend(r)
            else: args.append(self.ev(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                it = self.dict_concrete(d) if isinstance(d, Ref) and isinstance(self.cell(d), DictCell) else None
                if it is None:
                    kwargs['**'] = d
                else:
                    for a, v in it: kwargs[a] = v
            else: kwargs[k.arg] = self.ev(k.value)
        return self.call(f, args, kwargs)

    def star_arg(self, sv):
        if isinstance(sv, Sym): return StarSeq(sv)
        segs = self.iter_segs(sv)
        if all(s[0] == 'item' for s in segs): return [s[1] for s in segs]
        return StarSeq(sv)

    def quantify(self, g, is_any):
        """any(...)/all(...): loop with early exit."""
        first = self.ev(g.generators[0].iter)
        old = self.frame_addr
        self.frame_addr = self.new_frame({}, old)

        class Hit(Exception): pass

        def gen(i, it):
            c = g.generators[i]

            def body(v):
                self.assign(c.target, v)
                for cond in c.ifs:
                    if not self.truth(self.ev(cond)): return
                if i + 1 < len(g.generators): gen(i + 1, self.ev(g.generators[i + 1].iter))
                elif self.truth(self.ev(g.elt)) == is_any: raise ReturnEx(is_any)
            self.run_loop(c, it, body)
        try:
            gen(0, first)
            r = not is_any
        except ReturnEx as e:
            r = e.value
        self.frame_addr = old
        return r

    def next_gen(self, e):
        g = e.args[0]
        first = self.ev(g.generators[0].iter)
        default = self.ev(e.args[1]) if len(e.args) > 1 else KeyError
        old = self.frame_addr
        self.frame_addr = self.new_frame({}, old)
        if len(g.generators) != 1: raise Unsupported('next over nested generators')
        c = g.generators[0]

        def body(v):
            self.assign(c.target, v)
            for cond in c.ifs:
                if not self.truth(self.ev(cond)): return
            raise ReturnEx(self.ev(g.elt))
        try:
            self.run_loop(c, first, body)
            r = default
        except ReturnEx as ex:
            r = ex.value
        self.frame_addr = old
        if r is KeyError: raise PyRaise(Exc(['builtins.StopIteration']))
        return r

    def call(self, f, args, kwargs):
        self.check_time()
        if isinstance(f, Model): return f.f(self, args, kwargs)
        if isinstance(f, Fn): return self.call_fn(f, args, kwargs)
        if isinstance(f, BM):
            if isinstance(f.fn, Fn): return self.call_fn(f.fn, [f.self_] + list(args), kwargs)
            if callable(f.fn): return f.fn(self, f.self_, args, kwargs)
            if isinstance(f.fn, tuple):
                from . import lib
                return lib.method(self, f.self_, f.fn[0], f.fn[1], args, kwargs)
        for h in self.call_hooks:
            v = h(self, f, args, kwargs)
            if v is not NotImplemented: return v
        if isinstance(f, Ext):
            m = self.models.get(f.id)
            if m is None:
                from . import lib
                m = lib.BUILTINS.get(f.id)
            if m is not None:
                self.stats['ext'].add(f.id)
                return m(self, args, kwargs)
            if f.id in EXC_BASES: return Exc([f.id], tuple(args))
            raise Unsupported(f'call of {f.id}')
        raise Unsupported(f'call of {f!r}')

    def fn_id(self, f): return f'{f.module}.{f.qual}'

    def call_fn(self, f, args, kwargs):
        c = self.contracts.get(self.fn_id(f))
        if c is not None and not f.spec:
            self.stats['contracted'].add(self.fn_id(f))
            return c(self, f, args, kwargs)
        return self.inline(f, args, kwargs)

    def inline(self, f, args, kwargs):
        if sum(1 for g in self.call_stack if g.node is f.node) > (0 if not f.spec else 3):
            raise Unsupported(f'recursive function {f.qual} without contract')
        if len(self.call_stack) > 40: raise Unsupported('call depth')
        if isinstance(f.node, ast.FunctionDef):
            if not f.spec: self.stats['inlined'].add(self.fn_id(f))
            if f.env is None:
                for d in f.node.decorator_list: self.check_decorator(f, d)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node)):
                return self.inline_generator(f, args, kwargs)
        vars = self.bind(f, args, kwargs)
        old, oldh = self.frame_addr, self.handling
        self.call_stack.append(f)
        self.frame_addr = self.new_frame(vars, f.env)
        self.handling = ()
        try:
            if isinstance(f.node, ast.Lambda): return self.ev(f.node.body)
            try:
                self.exec_block(f.node.body)
            except ReturnEx as r:
                return r.value
            return None
        finally:
            self.frame_addr = old
            self.handling = oldh
            self.call_stack.pop()

    def inline_generator(self, f, args, kwargs):
        """Generator function: evaluated eagerly into its sequence of values (assumes that
        the consumer does not interleave effects)."""
        raise Unsupported('generator function ' + f.qual)

    def check_decorator(self, f, d):
        name = ast.unparse(d)
        if name.split('(')[0].split('.')[-1] in ('staticmethod', 'property', 'wraps'): return
        for h in getattr(self, 'decorator_hooks', ()):
            if h(self, f, name): return
        raise Unsupported(f'decorator {name} of {f.qual}')

    def bind(self, f, args, kwargs):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        args, kwargs = list(args), dict(kwargs)
        if any(isinstance(x, StarSeq) for x in args) or '**' in kwargs:
            if not params and a.vararg and a.kwarg and len(args) == 1 and set(kwargs) == {'**'}:
                return {a.vararg.arg: args[0].v, a.kwarg.arg: kwargs['**']}
            raise Unsupported('call with unknown number of arguments')
        if len(args) > len(params):
            if not a.vararg: raise PyRaise(Exc(['builtins.TypeError']))
            vars[a.vararg.arg] = tuple(args[len(params):])
            args = args[:len(params)]
        elif a.vararg: vars[a.vararg.arg] = ()
        for p, v in zip(params, args): vars[p] = v
        kwo = [x.arg for x in a.kwonlyargs]
        for k in list(kwargs):
            if k in params or k in kwo:
                if k in vars: raise PyRaise(Exc(['builtins.TypeError']))
                vars[k] = kwargs.pop(k)
        if a.kwarg: vars[a.kwarg.arg] = self.new_dict(kwargs.items())
        elif kwargs: raise PyRaise(Exc(['builtins.TypeError']))
        nd = len(a.defaults)
        if getattr(f, 'static_defaults', False):
            dv = lambda node: self.static_default(f, node)
            defaults = [None] * nd
        else: dv = None
        for i, p in enumerate(params):
            if p not in vars:
                k = i - (len(params) - nd)
                if k < 0: raise PyRaise(Exc(['builtins.TypeError']))
                vars[p] = dv(a.defaults[k]) if dv else f.defaults[k]
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vars:
                if d is None: raise PyRaise(Exc(['builtins.TypeError']))
                vars[x.arg] = dv(d) if dv else f.kwdefaults[x.arg]
        return vars

    def static_default(self, f, node):
        if isinstance(node, (ast.List, ast.Dict, ast.Set, ast.Call)):
            raise Unsupported(f'mutable default argument of {f.qual}')
        old, self.frame_addr = self.frame_addr, None
        self.call_stack.append(f)
        try:
            return self.ev(node)
        finally:
            self.frame_addr = old
            self.call_stack.pop()


def z3util_vars(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        else: st.extend(x.children())
    return out


class StarSeq:
    def __init__(self, v): self.v = v


class LoopPoison:
    def __init__(self, loc, defined): self.loc, self.defined = loc, defined


class PoisonRead(Exception):
    def __init__(self, loc): self.loc = loc


def has_quant(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if z3.is_quantifier(x): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        st.extend(x.children())
    return False


def walk_own(node):
    """Nodes of a function body without nested functions."""
    st = list(node.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        st.extend(ast.iter_child_nodes(n))


def zstr_value(c):
    s = c.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)
