"""Small programs for the self-test of the verifier: every function whose name begins with
ok_ returns True for all arguments, every function whose name begins with bad_ does not
(or raises an exception) for some arguments. Annotations choose the kind of the arguments."""


def double(xs): return [x + x for x in xs]


def absolute(x):
    if x < 0: return -x
    return x


def ok_branches(x: int): return absolute(x) >= 0
def bad_branches(x: int): return absolute(x) > 0
def ok_map(xs: list): return len(double(xs)) == len(xs)
def bad_map(xs: list): return len(double(xs)) > 0


def ok_loop(xs: list):
    ys = []
    for x in xs: ys.append(x)
    return len(ys) == len(xs)


def bad_loop(xs: list):
    ys = [0]
    for x in xs: ys.append(x)
    return len(ys) == len(xs)


def bad_loop_filter(xs: list):
    ys = []
    for x in xs:
        if x > 3: ys.append(x)
    return len(ys) == len(xs)


def ok_early_return(xs: list, y: int):
    def find():
        for x in xs:
            if x == y: return True
        return False
    return find() == any(x == y for x in xs)


def bad_early_return(xs: list, y: int):
    def find():
        for x in xs:
            if x == y: return True
            return False
        return False
    return find() == any(x == y for x in xs)


def ok_all(xs: list, y: int): return all(x < y for x in xs) == (not any(x >= y for x in xs))
def bad_all(xs: list, y: int): return all(x < y for x in xs) == (not any(x > y for x in xs))


def ok_dict(k: str, l: str, x: int):
    d = {}
    d[k] = x
    d[l] = x + 1
    return d[l] == x + 1 and (d[k] == x or k == l)


def bad_dict(k: str, l: str, x: int):
    d = {}
    d[k] = x
    d[l] = x + 1
    return d[k] == x


def bad_missing_key(k: str, l: str):
    d = {k: 1}
    return d[l] == 1


def ok_exception(x: int):
    try:
        if x > 5: raise ValueError('too big')
        r = 0
    except ValueError:
        r = 1
    finally:
        pass
    return (r == 1) == (x > 5)


def bad_exception(x: int):
    if x == 77: raise ValueError('rare')
    return True


def ok_alias(x: int):
    a = []
    b = a
    b.append(x)
    return len(a) == 1


def bad_alias(x: int):
    a = [x]
    b = list(a)
    b.append(x)
    return len(a) == 2


def ok_nested_alias(x: int):
    d = {'a': []}
    d['a'].append(x)
    d['a'] += [x]
    return d['a'] == [x, x]


def bad_augmented_copy(x: int):
    a = [x]
    b = a
    b = b + [x]
    return len(a) == 2


def bad_default(x: int):
    def f(acc=[]):
        acc.append(x)
        return len(acc)
    f()
    return f() == 1


def ok_closure(x: int):
    y = x
    def inc():
        nonlocal y
        y += 1
    inc()
    return y == x + 1


def bad_closure(x: int):
    y = x
    def inc():
        y = x + 1
        return y
    inc()
    return y == x + 1


def ok_string(a: str, b: str): return (a + b).startswith(a) and len(a + b) == len(a) + len(b)
def bad_string(a: str, b: str): return (a + b).startswith(b)
def ok_shortcircuit(k: str, l: str):
    d = {k: 1}
    return l != k or d[l] == 1


def bad_evaluation_order(k: str, l: str):
    d = {k: 1}
    return d[l] == 1 or l != k


def bad_index(xs: list): return xs[0] == xs[0]
def ok_index(xs: list): return not xs or xs[0] == xs[-len(xs)]
def bad_assert(x: int):
    assert x != 12345
    return True
