"""Small functions the verifier is tested on: r_* meet their contract, w_* (one planted mistake each) do not."""


def r_largest(xs):
    m = 0
    for x in xs:
        m = max(m, x)
    return m


def r_largest_if(xs):
    m = 0
    for x in xs:
        if x > m:
            m = x
    return m


def w_largest(xs):
    m = 0
    for x in xs:
        m = x
    return m


def w_largest_min(xs):
    m = 0
    for x in xs:
        m = min(m, x)
    return m


def r_largest_even(xs):
    m = 0
    for x in xs:
        if x % 2 == 0:
            m = max(x, m)
    return m


def w_largest_even(xs):
    m = 0
    for x in xs:
        if x % 2 == 1:
            m = max(x, m)
    return m


def r_count(xs):
    n = 0
    for x in xs:
        if x > 3:
            n += 1
    return n


def r_count_sum(xs):
    return len([x for x in xs if x > 3])


def w_count(xs):
    n = 0
    for x in xs:
        if x >= 3:
            n += 1
    return n


def w_count_all(xs):
    n = 0
    for x in xs:
        n += 1
    return n


def r_any(xs):
    b = False
    for x in xs:
        b = b or x > 3
    return b


def r_any_if(xs):
    b = False
    for x in xs:
        if x > 3:
            b = True
    return b


def r_any_break(xs):
    for x in xs:
        if x > 3:
            break
    else:
        return False
    return True


def w_any_last(xs):
    b = False
    for x in xs:
        b = x > 3
    return b


def w_any_all(xs):
    b = True
    for x in xs:
        b = b and x > 3
    return b


def r_filter(xs):
    out = []
    for x in xs:
        if x <= 3:
            continue
        out.append(x)
    return out


def w_filter(xs):
    out = []
    for x in xs:
        if x <= 3:
            break
        out.append(x)
    return out


def w_filter_extra(xs):
    out = [x for x in xs if x > 3]
    out += [x for x in xs if x == 1]
    return out


def r_abs(a):
    return a if a >= 0 else -a


def w_abs(a):
    return a if a >= -1 else -a


def r_floor(a, b):
    if b == 0:
        raise ValueError('zero')
    return a // b


def w_floor(a, b):
    if b == 0:
        return 0
    return a // b


def r_own_list(xs, x):
    ys = list(xs)
    ys.append(x)
    return xs


def w_own_list(xs, x):
    ys = xs
    ys.append(x)
    return xs


def r_default(d, k):
    if k not in d:
        return None
    return d[k]


def w_default(d, k):
    return d[k]


class Box(object):
    total = 0

    def __init__(self, v):
        self.v = v

    def bump(self, by=1):
        self.v += by
        return self


class Twice(Box):
    def bump(self, by=1):
        super(Twice, self).bump(by)
        return super().bump(by)


def r_box(v):
    b = Twice(v)
    c = b.bump(2)
    return b.v if c is b else None


def w_box(v):
    b = Twice(v)
    Box(v).bump(4)
    return b.v


def gen(xs):
    for x in xs:
        if x > 3:
            yield x


def r_first(xs):
    return next(gen(xs), None)


def w_first(xs):
    return next((x for x in xs if x >= 3), None)


def r_try(d, k):
    try:
        return d[k]
    except KeyError:
        return 0
    finally:
        d['seen'] = 1


def w_try(d, k):
    try:
        return d[k]
    except IndexError:
        return 0


def w_late(xs):
    fs = []
    for x in xs:
        fs.append(lambda: x)
    return [f() for f in fs]


# state carried from one iteration to the next
def w_filter_prev(xs):
    prev = None
    out = []
    for x in xs:
        if prev is not None and x > 3:
            out.append(x)
        prev = x
    return out


def w_filter_once(xs):
    done = False
    out = []
    for x in xs:
        if not done and x > 3:
            out.append(x)
            done = True
    return out


def w_filter_state(xs):
    b = Box(0)
    out = []
    for x in xs:
        if x > 3 and b.v != 'stop':
            out.append(x)
        b.v = 'stop'
    return out


def w_filter_closure(xs):
    state = 'first'
    out = []

    def step(x):
        nonlocal state
        if x > 3 and state == 'first':
            out.append(x)
        state = 'later'
    for x in xs:
        step(x)
    return out


def w_filter_two(xs):
    a, b = None, None
    out = []
    for x in xs:
        if b is None and x > 3:
            out.append(x)
        if a is not None:
            b = a
        a = x
    return out


def w_filter_exit(xs):
    prev = None
    for x in xs:
        if prev == 'stop':
            return []
        prev = 'stop'
    return [x for x in xs if x > 3]


def w_filter_seen(xs):
    seen = []
    out = []
    for x in xs:
        if x > 3 and not seen:
            out.append(x)
        seen.append(x)
    return out


def r_filter_inner(xs):
    parts = []
    for x in xs:
        part = []
        if x > 3:
            part.append(x)
        parts.append(part)
    return [x for part in parts for x in part]


def w_filter_inner(xs):
    parts = []
    for x in xs:
        part = []
        part.append(x)
        parts.append(part)
    return [x for part in parts for x in part]


def r_filter_dict(xs):
    ds = []
    for x in xs:
        d = {}
        d['big'] = x > 3
        d['x'] = x
        ds.append(d)
    return [d['x'] for d in ds if d['big']]


def w_filter_dict(xs):
    ds = []
    for x in xs:
        d = {}
        d['big'] = x > 2
        d['x'] = x
        ds.append(d)
    return [d['x'] for d in ds if d['big']]


def r_filter_alias(xs):
    parts = [[x] for x in xs]
    return [y for part in parts for y in part if y > 3]


def w_filter_alias(xs):
    parts = [[x] for x in xs]
    for part in parts:
        part.append(5)
    return [y for part in parts for y in part if y > 3]


def w_filter_shared(xs):
    one = [4]
    parts = [one for x in xs]
    one.append(5)
    return [y for part in parts for y in part if y > 3]


def w_filter_shared_loop(xs):
    one = []
    parts = []
    for x in xs:
        parts.append(one)
        if x > 3:
            one.append(x)
    return [y for part in parts for y in part]


def w_filter_nested(xs):
    out = []
    last = None
    for x in xs:
        for y in xs:
            if y > 3 and y == x and last is None:
                out.append(y)
            last = y
    return out


def r_filter_nested(xs):
    out = []
    for x in xs:
        last = None
        if last is None and x > 3:
            out.append(x)
        last = x
    return out
