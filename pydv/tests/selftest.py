"""Self-test of the verifier: what holds is proved, what does not hold is not.

    python3-vt -m pydv.tests.selftest

Of the ok_ functions, too, CPython is asked (for some arguments): the semantics of the
verifier must not differ from that of Python."""
import ast, itertools, os, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
sys.path.insert(0, HERE)
import z3
from pydv.engine import *
from pydv.interp import Exec
from pydv.reflect import Reflect
from pydv.spec import repo_fn
import pydv_programs as programs

SAMPLES = dict(int=(-7, 0, 1, 3, 5, 6, 77, 12345), str=('', 'a', 'b', 'ab'), list=([], [1], [3, 4], [5, 5, 1], [9, 0, 2]))


def run_python(f, kinds):
    for args in itertools.product(*(SAMPLES[k] for k in kinds)):
        try:
            if f(*args) is not True: return False
        except Exception: return False
    return True


def run_verifier(name, kinds):
    R = Reflect(HERE)
    I = Exec(R, deadline=time.time() + 60)
    I.prove_timeout = 5000
    f = repo_fn(I, 'pydv_programs', [name])

    def arg(kind, i):
        if kind == 'int': return z3.Int(f'a{i}')
        if kind == 'str': return z3.String(f'a{i}')
        n, at = z3.Int(f'n{i}'), z3.Function(f'at{i}', IntS, IntS)
        I.assume(n >= 0)
        return ASeq(n, lambda j: at(zint(j)), 'list')

    def thunk():
        try: r = I.inline(f, [arg(k, i) for i, k in enumerate(kinds)], {})
        except PyRaise: r = False
        I.prove(r, name)
        return 'done'
    try: I.explore(thunk)
    except (Unsupported, Limit) as e: return None, str(e)
    finally: R.close()
    return bool(I.obligations) and all(o.status == 'proved' for o in I.obligations), ''


def main():
    wrong = 0
    for nd in ast.parse(open(os.path.join(HERE, 'pydv_programs.py')).read()).body:
        if not isinstance(nd, ast.FunctionDef) or not nd.name.startswith(('ok_', 'bad_')): continue
        kinds = [a.annotation.id for a in nd.args.args]
        holds = nd.name.startswith('ok_')
        python, (verdict, why) = run_python(getattr(programs, nd.name), kinds), run_verifier(nd.name, kinds)
        fine = python == holds and (verdict is True) == holds      # what the verifier does not support is not accepted
        wrong += not fine
        print(f"{'ok   ' if fine else 'WRONG'} {nd.name}: python {python}, verifier {verdict} {why}")
    sys.exit(1 if wrong else 0)


if __name__ == '__main__': main()
