"""Loops with loop-carried state, proved to run in step with those of the specification.

For the k-th such loop of the code under contract and of its specification: the locations one
iteration may change are determined (fixed point over symbolic iterations) and set to arbitrary
values, the same for both sides; one iteration of both, on the same element, must lead to equal
values again. Together with equality on entry this is an inductive proof that both sides agree
after any number of iterations; behind the loop both go on with the same arbitrary values."""
import ast, itertools
import z3
from .engine import *


SORTS = dict(Bool=BoolS, Int=IntS, String=StrS)


class Coupling:
    def __init__(self, I, name):
        self.I, self.name, self.memo = I, name, {}
        self.reset(None, None)
        I.loop_hooks.append(self.hook)

    def reset(self, roots, frame):
        """Start of a path. roots: {'real': ref, 'spec': ref}"""
        self.roots, self.side, self.real, self.count, self.inside = roots, 'real', [], 0, False

    def switch(self):
        """The code under contract has been run, the specification comes next."""
        self.side, self.count, self.end_heap = 'spec', 0, dict(self.I.heap)

    # ------------------------------------------------------------ the hook
    def hook(self, I, key, iterable, body):
        if not isinstance(key, ast.For) or self.inside or self.roots is None: return NotImplemented
        if isinstance(iterable, Ref) and not isinstance(I.cell(iterable), ListCell): return NotImplemented
        if isinstance(iterable, (ASet, ConstContainer, LazySeq)) or isinstance(iterable, ASeq) and isinstance(iterable.n, int): return NotImplemented
        segs = [('comp', I.comp_of_seq(iterable))] if isinstance(iterable, ASeq) else I.iter_segs(iterable)
        if all(s[0] == 'item' for s in segs): return NotImplemented
        if len(segs) != 1 or {len(v) for _, v in segs[0][1].alts} != {1}: return NotImplemented
        comp = segs[0][1]
        if not I.decide(zint(comp.n) > 0): return False
        plan = self.once(('plan', id(key)), lambda: self.plan(key, comp, body))
        if not any(self.carried(p) for p in plan.values()): return NotImplemented     # no state is carried from one iteration to the next
        entry = dict(I.heap)
        rec = dict(key=key, comp=comp, body=body, plan=plan, entry=entry, frame=I.frame_addr, stack=list(I.call_stack), names=self.names())
        k = self.count
        self.count += 1
        if self.side == 'real':
            rec['after'] = self.values(plan, entry, f'after{k}')
            self.real.append(rec)
            self.put(rec['after'], entry)
        else:
            if k >= len(self.real):
                I.prove(False, f'{self.name}loop {k + 1} of the specification has a counterpart')
                raise Infeasible()
            other = self.real[k]
            m = self.once(('match', id(key)), lambda: self.match(other, rec, k))
            if m is None: raise Infeasible()
            self.put({m[l]: v for l, v in other['after'].items() if l in m}, entry)
        self.forget(rec)
        return False

    def once(self, key, make):
        """Paths are executed again from the start: what has been found out at this point is kept."""
        I = self.I
        k = (key, I.prefix_key_id())
        if k not in self.memo:
            r = make()
            self.memo[k] = (r, I.fresh_no)
        r, no = self.memo[k]
        I.fresh_no = max(I.fresh_no, no)
        return r

    def carried(self, p): return p['kind'] != 'dead'

    # ------------------------------------------------------------ what an iteration changes
    def plan(self, key, comp, body):
        I = self.I
        targets = {n.id for n in ast.walk(key.target) if isinstance(n, ast.Name)}
        entry, frame, base = dict(I.heap), I.frame_addr, I.next_addr
        plan = {}
        for attempt in range(8):
            logs = []

            def thunk():
                vals = self.values(plan, entry, 'inv')
                self.put(vals, entry)
                before = dict(I.heap)
                log = []
                I.log_stack = I.log_stack + [log]
                self.iterate(comp, body, self.index(comp))
                return self.changes({(a, w) for a, w in log if a < base}, before, frame, targets, entry)
            nob, cache = len(I.obligations), dict(I.proof_cache)
            self.inside = True
            try: res = I.explore(thunk)
            finally: self.inside = False
            I.fresh_no = max(I.fresh_no, I.max_fresh + 1)
            del I.obligations[nob:]
            I.proof_cache = cache
            new = {}
            for kind, val, pcs, heap, fs in res:
                if kind != 'normal': raise Unsupported(f'coupled loop that is left early ({kind})')
                for loc, d in val.items(): self.merge(new, loc, d)
            for loc, d in plan.items(): self.merge(new, loc, d)
            self.group(new, [val for kind, val, pcs, heap, fs in res], entry)
            if new == plan: return plan
            plan = new
        raise Unsupported('coupled loop does not stabilize')

    def merge(self, new, loc, d):
        if loc not in new:
            new[loc] = dict(d)
            return
        o = new[loc]
        if 'growth' in d or 'growth' in o: pass
        if o['kind'] == d['kind']:
            if o.get('sort') != d.get('sort'):
                if None in (o.get('sort'), d.get('sort')): o['sort'] = o.get('sort') or d.get('sort')
                else: raise Unsupported(f'loop-carried elements of several sorts')
            return
        ks = {o['kind'], d['kind']}
        if ks == {'append', 'blocks'}: o['kind'], o['sort'] = 'blocks', None
        elif ks == {'append', 'list'}: o['kind'], o['sort'] = 'list', o.get('sort') or d.get('sort')
        elif 'dead' in ks:
            for k in d:
                if o['kind'] == 'dead': o.update(d)
        else: raise Unsupported(f'loop-carried location that is changed in several ways: {ks}')

    def group(self, plan, changes, entry):
        """Lists that are equally long before the loop and grow equally share their length."""
        I = self.I
        groups = {}
        for loc, p in plan.items():
            p.pop('group', None)
            if p['kind'] != 'append': continue
            key = (len(entry[loc[0]].segs), tuple(ch.get(loc, {}).get('growth', 0) for ch in changes))
            groups.setdefault(key, []).append(loc)
        for i, (key, locs) in enumerate(sorted(groups.items(), key=lambda x: str(x[1]))):
            for loc in locs: plan[loc]['group'] = min(locs, key=str)
        for p in plan.values(): p.pop('growth', None)

    def changes(self, written, before, frame, targets, entry):
        I = self.I
        out = {}
        for a, w in sorted(written, key=str):
            old, new = before.get(a), I.heap.get(a)
            if isinstance(new, FrameCell):
                if w in targets and a == frame: continue
                y = new.vars.get(w)
                if w not in entry[a].vars:
                    out[(a, w)] = dict(kind='dead')
                    continue
                d = self.change(old.vars.get(w), y, before)
            elif isinstance(new, ObjCell): d = self.change(old.attrs.get(w), new.attrs.get(w), before)
            elif isinstance(new, ListCell): d = self.list_change(old, new)
            else: raise Unsupported(f'loop-carried {type(new).__name__}')
            if d: out[(a, w)] = d
        return out

    def sort(self, v):
        for s, f in (('Bool', is_bool), ('Int', is_int), ('String', is_str)):
            if f(v): return s
        raise Unsupported(f'loop-carried value {v!r}')

    def change(self, x, y, before):
        I = self.I
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.a == y.a: return None
            c = I.cell(y)
            if not isinstance(c, ListCell) or c.kind != 'list': raise Unsupported('loop-carried reference')
            sorts = {self.sort(s[1]) for s in c.segs if s[0] == 'item'}
            if len(sorts) > 1: raise Unsupported('loop-carried list of several sorts')
            if any(s[0] == 'comp' for s in c.segs) : raise Unsupported('loop-carried list that is made anew')
            return dict(kind='list', sort=min(sorts, default=None, key=str))
        if self.same(x, y): return None
        return dict(kind='scalar', sort=self.sort(y))

    def same(self, x, y):
        if is_z3(x) and is_z3(y): return z3.eq(x, y)
        return type(x) is type(y) and not is_z3(x) and x == y

    def list_change(self, old, new):
        I = self.I
        a, b = old.segs, new.segs
        if len(b) >= len(a) and all(x is y or x[0] == y[0] == 'item' and self.same(x[1], y[1]) for x, y in zip(a, b)):
            more = b[len(a):]
            if not more: return None
            if any(s[0] == 'comp' or isinstance(s[1], (Sym, tuple)) for s in more): return dict(kind='blocks')
            sorts = {self.sort(s[1]) for s in more}
            if len(sorts) > 1: raise Unsupported('loop-carried list of several sorts')
            return dict(kind='append', sort=sorts.pop(), growth=len(more))
        if len(a) == len(b):
            diff = [i for i, (x, y) in enumerate(zip(a, b)) if x is not y and not (x[0] == y[0] == 'item' and self.same(x[1], y[1]))]
            if len(diff) == 1 and b[diff[0]][0] == 'item': return dict(kind='element', at=diff[0], sort=self.sort(b[diff[0]][1]))
        raise Unsupported('loop-carried list')

    # ------------------------------------------------------------ arbitrary values
    def values(self, plan, entry, tag):
        """{location: value} with fresh constants; what was there before the loop is kept in lists that only grow."""
        I = self.I
        out, lens = {}, {}
        for loc in sorted(plan, key=str):
            p = plan[loc]
            hint = f'{tag}_{loc[1]}'
            if p['kind'] == 'scalar': out[loc] = ('scalar', I.fresh(SORTS[p['sort']], hint))
            elif p['kind'] == 'element': out[loc] = ('element', p['at'], I.fresh(SORTS[p['sort']], hint))
            elif p['kind'] == 'blocks': out[loc] = ('blocks', Sym(I.fresh(Obj, hint), 'block'))
            elif p['kind'] in ('append', 'list'):
                g = p.get('group', loc)
                if g not in lens:
                    lens[g] = I.fresh(IntS, hint + '_n')
                    I.assume(lens[g] >= 0)
                f = z3.Function(I.fresh_name(hint), IntS, SORTS[p['sort'] or 'String'])
                out[loc] = (p['kind'], I.comp_of_seq(ASeq(lens[g], (lambda f: lambda j: f(zint(j)))(f))))
            elif p['kind'] == 'dead': out[loc] = ('dead',)
        return out

    def put(self, vals, entry):
        I = self.I
        for (a, w), v in vals.items():
            c, e = I.heap[a], entry[a]
            if v[0] in ('scalar', 'list', 'dead'):
                if v[0] == 'list': x = I.alloc(ListCell([('comp', v[1])]))
                else: x = v[1] if v[0] == 'scalar' else Poison('carried from one iteration to the next')
                if isinstance(c, FrameCell):
                    d = dict(c.vars); d[w] = x
                    new = FrameCell(d, c.parent)
                else:
                    d = dict(c.attrs); d[w] = x
                    new = ObjCell(c.cls, d)
            elif v[0] == 'element':
                s = list(e.segs); s[v[1]] = ('item', v[2])
                new = ListCell(s, e.acc, e.kind)
            else: new = ListCell(e.segs + ((('item', v[1]) if v[0] == 'blocks' else ('comp', v[1])),), e.acc, e.kind)
            I.heap[a] = new
            for ws in I.log_stack: ws.append((a, w))

    def forget(self, rec):
        """Variables of the loop are not used behind it."""
        I = self.I
        fc = I.heap[rec['frame']]
        d = dict(fc.vars)
        for n in ast.walk(rec['key'].target):
            if isinstance(n, ast.Name): d[n.id] = Poison('loop variable')
        I.heap[rec['frame']] = FrameCell(d, fc.parent)

    def index(self, comp, j=None):
        I = self.I
        j = I.fresh(IntS, 'it')
        I.assume(z3.And(0 <= j, j < zint(comp.n)))
        return j

    def iterate(self, comp, body, j):
        for v in self.I.comp_at(comp, j):
            try: body(v)
            except ContinueEx: pass

    # ------------------------------------------------------------ both sides
    def names(self):
        """{address: name of the state variable} of the side that is running"""
        I = self.I
        ref = self.roots[self.side]
        out = {ref.a: 'self'}
        for f, v in I.cell(ref).attrs.items():
            if isinstance(v, Ref):
                out[v.a] = f
                c = I.cell(v)
                if isinstance(c, ListCell) and not c.acc:
                    for i, s in enumerate(c.segs):
                        if s[0] == 'item' and isinstance(s[1], Ref): out[s[1].a] = f'{f}[{i - len(c.segs)}]'
        return out

    def label(self, rec, loc):
        n = rec['names'].get(loc[0])
        if n is None: return None
        return (n, loc[1]) if n == 'self' else (n, None)

    def match(self, r, s, k):
        """Mapping of the locations of the loop r to those of s such that equality is kept, or None."""
        I = self.I
        N = f'{self.name}loop {k + 1} keeps in step with the specification'
        rl = {l: p for l, p in r['plan'].items() if p['kind'] != 'dead'}
        sl = {l: p for l, p in s['plan'].items() if p['kind'] != 'dead'}
        m, left, free = {}, [], list(sl)
        for l, p in rl.items():
            lab = self.label(r, l)
            if lab is None: left.append(l); continue
            for l2 in sl:
                if self.label(s, l2) == lab and l2 in free:
                    m[l] = l2
                    free.remove(l2)
                    break
            else:
                I.prove(False, N + f' (changes {lab})')
                return None
        named = [l2 for l2 in free if self.label(s, l2) is not None]
        if named or len(free) != len(left):
            I.prove(False, N + f' (changes {[self.label(s, l) for l in named]})' if named else N + ' (number of variables)')
            return None
        sig = lambda p: (p['kind'], str(p.get('sort')), p.get('at'))
        cands = [c for c in itertools.permutations(free) if all(sig(rl[a]) == sig(sl[b]) for a, b in zip(left, c))]
        if any(sig(rl[a]) != sig(sl[b]) for a, b in m.items()): cands = []
        cands = [c for c in cands if self.entry_equal(r, s, {**m, **dict(zip(left, c))})]
        if not cands:
            I.prove(False, N + ' (entry)')
            return None
        if not I.valid(zint(r['comp'].n) == zint(s['comp'].n)):
            I.prove(zint(r['comp'].n) == zint(s['comp'].n), N + ' (number of iterations)')
            return None
        for i, c in enumerate(cands):
            mm = {**m, **dict(zip(left, c))}
            last = i == len(cands) - 1
            if self.step(r, s, mm, N, last): return mm
        return None

    def entry_equal(self, r, s, m):
        I = self.I
        for a, b in m.items():
            x, y = r['entry'][a[0]], s['entry'][b[0]]
            if isinstance(x, FrameCell): x = x.vars.get(a[1])
            elif isinstance(x, ObjCell): x = x.attrs.get(a[1])
            if isinstance(y, FrameCell): y = y.vars.get(b[1])
            elif isinstance(y, ObjCell): y = y.attrs.get(b[1])
            if isinstance(x, Ref): x = r['entry'][x.a]
            if isinstance(y, Ref): y = s['entry'][y.a]
            try: q = I.seq_same(x.segs, y.segs) if isinstance(x, ListCell) and isinstance(y, ListCell) else I.eq_term(x, y)
            except Unsupported: return False
            if q is False or q is not True and not I.valid(q): return False
        return True

    def step(self, r, s, m, N, last):
        """One iteration of both on the same element and arbitrary equal values."""
        I = self.I
        results = []

        def thunk():
            here = dict(I.heap)
            # the heap the code under contract had on entry of its loop, next to that of the specification
            for a, c in r['entry'].items():
                if a not in s['plan_addrs'] and here.get(a) is self.end_heap.get(a): I.heap[a] = c
            vals = self.values(r['plan'], r['entry'], 'inv')
            self.put(vals, r['entry'])
            self.put({m[l]: v for l, v in vals.items() if l in m}, s['entry'])
            self.put({l: ('dead',) for l, p in s['plan'].items() if p['kind'] == 'dead'}, s['entry'])
            j = self.index(r['comp'])
            frame, stack = I.frame_addr, I.call_stack
            I.frame_addr, I.call_stack = r['frame'], list(r['stack'])
            I.self_ref, I.spec_mode_ = self.roots['real'], None
            try: self.iterate(r['comp'], r['body'], j)
            finally: I.frame_addr, I.call_stack = frame, stack
            I.self_ref = self.roots['spec']
            self.iterate(s['comp'], s['body'], j)
            ok = []
            for l, l2 in m.items():
                x, y = self.value(l), self.value(l2)
                try: q = I.seq_same(x, y) if isinstance(x, tuple) else I.eq_term(x, y)
                except Unsupported: q = False
                ok.append((self.label(r, l) or (l[1] or 'list', None), zbool(q)))
            if last:
                for (a, b), q in ok: I.prove(q, f'{N} ({a if b is None else b})')
            else: results.append(all(I.valid(q) for _, q in ok))
        s['plan_addrs'] = {l[0] for l in s['plan']}
        nob = len(I.obligations)
        self.inside = True
        try: I.explore(thunk)
        finally: self.inside = False
        I.fresh_no = max(I.fresh_no, I.max_fresh + 1)
        if last: return all(o.status == 'proved' for o in I.obligations[nob:])
        if all(results):
            I.prove(True, N)
            return True
        return False

    def value(self, loc):
        I = self.I
        c = I.heap[loc[0]]
        if isinstance(c, ListCell): return c.segs
        v = c.vars[loc[1]] if isinstance(c, FrameCell) else c.attrs[loc[1]]
        return I.segs(v) if isinstance(v, Ref) else v
