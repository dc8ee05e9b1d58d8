"""Shared parts of the witness searches (run by the repository's own interpreter)."""
import os, random, sys, time

REPO = os.environ.get('PYDV_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CONTRACTS = os.path.join(os.path.dirname(HERE), 'contracts')


def setup():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("PYDV_DEBUG"): os.dup2(devnull, 2)


def load_spec(name, env):
    """Executes an executable specification with the given primitive observations."""
    path = os.path.join(CONTRACTS, name)
    with open(path, encoding='utf-8') as f: code = compile(f.read(), path, 'exec')
    ns = dict(env)
    exec(code, ns)
    for k, v in env.items(): ns[k] = v
    return ns


class Search:
    """Collects cases and failures; stops when time is up or enough failures are found."""
    def __init__(self, tier, seed, budget):
        self.tier, self.rnd, self.t_end = tier, random.Random(seed), time.time() + budget
        self.cases, self.seen, self.samples, self.failures, self.known = 0, set(), [], [], set()
        self.rule = ''

    def more(self): return time.time() < self.t_end and len(self.failures) < 10

    def case(self, key, sample=None):
        self.cases += 1
        h = hash(key)
        if h not in self.seen:
            self.seen.add(h)
            if len(self.samples) < 5 and len(self.seen) % 97 == 1: self.samples.append(sample if sample is not None else str(key)[:500])

    def fail(self, key, input, expected, observed):
        if any(f['key'] == key for f in self.failures): return
        self.failures.append(dict(key=key, input=input, expected=str(expected)[:800], observed=str(observed)[:800]))

    def result(self):
        return dict(cases=self.cases, distinct=len(self.seen), samples=self.samples, failures=self.failures,
                    known=sorted(self.known), rule=self.rule)
