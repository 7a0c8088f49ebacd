"""Models (assumed contracts) of builtins and standard-library functions."""
from interp import *     # noqa
import functools
import copy
import logging
import warnings as _warnings

M = {}


def model(*natives):
    def deco(f):
        for n in natives:
            try:
                hash(n)
                M[n] = f
            except TypeError:
                M[id(n)] = f
        return f
    return deco


@model(len)
def _len(I, a, k):
    return I.length(a[0])


@model(isinstance)
def _isinstance(I, a, k):
    return I.isinstance_(a[0], a[1])


@model(issubclass)
def _issubclass(I, a, k):
    return I.issubclass_(a[0], a[1])


def quant(I, c, forall):
    fs = []
    for p in I.iter_pieces(c):
        if not p.vars:
            t = I.truth(p.value) if p.guard is True else I.quiet(lambda: I.truth(p.value))
            fs.append(Implies(p.guard, t) if forall else And(p.guard, t))
        else:
            t = I.quiet(lambda: I.truth(p.value))
            fs.append(ForAll(p.vars, Implies(p.guard, t)) if forall else Exists(p.vars, B(And(p.guard, t))))
    return (And(*fs) if forall else Or(*fs)) if fs else forall


@model(any)
def _any(I, a, k):
    return quant(I, a[0], False)


@model(all)
def _all(I, a, k):
    return quant(I, a[0], True)


@model(sum)
def _sum(I, a, k):
    ps = I.iter_pieces(a[0])
    tot = a[1] if len(a) > 1 else 0
    for p in ps:
        if p.vars:
            if isinstance(p.value, LibV):
                return p.value.derived('')
            if I.library is not None:
                return I.library
            raise Unsupported('sum over symbolic collection')
        v = p.value
        if p.guard is not True:
            v, z = I.num2(v, 0)
            v = z3.If(p.guard, v, z)
        tot = I.binop('Add', tot, v)
    return tot


def _minmax(I, a, k, op):
    its = [Piece((), True, x) for x in a] if len(a) > 1 else I.iter_pieces(a[0])
    key = k.get('key')
    if key is not None:
        its2 = its
        if not all(p.single for p in its):
            raise Unsupported('min/max with key of symbolic collection')
        best = its[0].value
        bk = I.call(key, [best])
        for p in its[1:]:
            kk = I.call(key, [p.value])
            if I.test(I.compare('Lt' if op == 'min' else 'Gt', kk, bk)):
                best, bk = p.value, kk
        return best
    if all(p.single for p in its):
        if not its:
            if 'default' in k:
                return k['default']
            raise PyExc(ValueError, ())
        best = its[0].value
        for p in its[1:]:
            if (is_num(best) and is_num(p.value)) and (is_z3(best) or is_z3(p.value)):
                x, y = I.num2(best, p.value)
                best = z3.If(y < x if op == 'min' else y > x, y, x)
            elif I.test(I.compare('Lt' if op == 'min' else 'Gt', p.value, best)):
                best = p.value
        return best
    # bound of a symbolic collection
    if not I.decide(I.nonempty(ListV(its))):
        if 'default' in k:
            return k['default']
        raise PyExc(ValueError, ())
    w = I.some(ListV(its))
    if not is_num(w):
        raise Unsupported('min/max of symbolic non-numbers')
    for p in its:
        v, ww = I.num2(p.value, w)
        c = (v >= ww) if op == 'min' else (v <= ww)
        I.assume(ForAll(p.vars, Implies(p.guard, c)) if p.vars else Implies(p.guard, c))
    return w


@model(min)
def _min(I, a, k):
    return _minmax(I, a, k, 'min')


@model(max)
def _max(I, a, k):
    return _minmax(I, a, k, 'max')


@model(sorted)
def _sorted(I, a, k):
    if I.is_native(a[0]) and not k and not isinstance(a[0], (ObjV, RefV)):
        x = a[0]
        return I.lift(sorted(I.native(x) if not isinstance(x, DictV) else list(I.native(x))))
    ps = I.iter_pieces(a[0])
    r = I.born(ListV(ps))
    r.order = ('sorted', k.get('key'), k.get('reverse', False))
    if len(ps) > 1:
        # positions are not known: only membership is
        if all(p.single for p in ps):
            r.pieces = sort_pieces(I, ps, k.get('key'), k.get('reverse', False))
    return r


def sort_pieces(I, ps, key, reverse):
    """stable insertion sort of a concrete spine with symbolic comparisons"""
    out = []
    if reverse not in (False, True):
        raise Unsupported('reverse')
    for p in ps:
        kp = I.call(key, [p.value]) if key is not None else p.value
        i = len(out)
        while i > 0:
            o = out[i - 1]
            lt = I.compare('Lt' if not reverse else 'Gt', kp, o[0])
            if I.test(lt):
                i -= 1
            else:
                break
        out.insert(i, (kp, p))
    return [p for _, p in out]


@model(set, frozenset)
def _set(I, a, k):
    return I.born(SetV(I.iter_pieces(a[0]) if a else []))


@model(list)
def _list(I, a, k):
    if not a:
        return I.mklist([])
    if isinstance(a[0], ListV):
        r = I._m_list_copy(a[0])
        r.kind = 'list'
        return r
    return I.born(ListV(I.iter_pieces(a[0])))


@model(iter)
def _iter(I, a, k):
    c = a[0]
    if isinstance(c, ListV) and c.kind != 'iter':
        c = I._m_list_copy(c)
        c.kind = 'iter'
    return c


@model(next)
def _next(I, a, k):
    c = a[0]
    if not isinstance(c, ListV):
        raise Unsupported('next of %r' % (c,))
    if not I.decide(I.nonempty(c)):
        if len(a) > 1:
            return a[1]
        raise PyExc(StopIteration, ())
    if c.pieces[0].single:
        v, rest = c.pieces[0].value, ListV(c.pieces[1:])
        if c.length is not None and not c.concrete:
            n, at = c.length, c.at
            rest.length = n - 1
            rest.at = (lambda i: at(i + 1)) if at else None
    elif c.length is not None and c.at is not None:
        v, rest = c.at(z3.IntVal(0)), I.slice(c, 1, None, None)
    else:
        I.mark_approx('next')
        v = I.some(c)
        rest = ListV([Piece(p.vars, And(p.guard, I.slice_pred(p)), p.value) for p in c.pieces])
    n, at = rest.length, rest.at
    I.set_pieces(c, rest.pieces)
    c.length, c.at = n, at
    return v


@model(tuple)
def _tuple(I, a, k):
    if not a:
        return ()
    if isinstance(a[0], tuple):
        return a[0]
    ps = I.iter_pieces(a[0])
    if all(p.single for p in ps):
        return tuple(p.value for p in ps)
    r = I.born(ListV(ps, 'tuple'))
    if isinstance(a[0], ListV):
        r.length, r.at, r.order = a[0].length, a[0].at, a[0].order
        if hasattr(a[0], 'src'):
            r.src = a[0].src
    return r


@model(dict, collections.OrderedDict)
def _dict(I, a, k):
    d = I.born(DictV())
    if a:
        if isinstance(a[0], DictV):
            d.pieces = list(a[0].pieces)
            d.sym = a[0].sym
        else:
            for p in I.iter_pieces(a[0]):
                v = p.value
                if isinstance(v, ListV) and v.concrete:
                    v = tuple(v.items())
                if not isinstance(v, tuple) or len(v) != 2:
                    raise Unsupported('dict() of %r' % (v,))
                if p.single:
                    I.setitem(d, v[0], v[1])
                else:
                    I.add_piece(d, Piece(p.vars, p.guard, v))
    for x, y in k.items():
        I.setitem(d, x, y)
    return d


@model(collections.defaultdict)
def _ddict(I, a, k):
    d = I.born(DictV([], a[0] if a and a[0] is not None else None))
    if len(a) > 1:
        I._m_dict_update(d, a[1])
    return d


@model(collections.deque)
def _deque(I, a, k):
    return I.born(ListV(I.iter_pieces(a[0]) if a else [], 'deque'))


@model(range)
def _range(I, a, k):
    if I.library is not None and any(isinstance(x, LibV) for x in a):
        return LibV('range')
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if all(isinstance(x, int) for x in (lo, hi, st)):
        if len(range(lo, hi, st)) > 200:
            raise Unsupported('long range')
        return I.mklist(list(range(lo, hi, st)))
    if isinstance(st, int) and st == 0 or (is_z3(st) and I.decide(st == 0)):
        raise PyExc(ValueError, ())
    lo, hi = I.num2(lo, hi)
    st_ = z3.IntVal(st) if isinstance(st, int) else st
    if not (z3.is_int(lo) and z3.is_int(hi) and z3.is_int(st_)):
        raise PyExc(TypeError, ())
    if not I.decide(st_ > 0):
        if isinstance(st, int) and st == -1:
            i = z3.Int('r!%d' % I.tag())
            n = z3.simplify(z3.If(lo > hi, lo - hi, z3.IntVal(0)))
            return I.born(ListV([Piece((i,), z3.And(i <= lo, i > hi), i)], 'list', None, n, lambda ix: lo - ix))
        raise Unsupported('descending range')
    i = z3.Int('r!%d' % I.tag())
    if isinstance(st, int) and st == 1:
        n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        r = ListV([Piece((i,), z3.And(i >= lo, i < hi), i)], 'list', 'idx', n, lambda ix: lo + ix)
        return I.born(r)
    # value lo + q*st
    return I.born(ListV([Piece((i,), z3.And(i >= 0, lo + i * st_ < hi), lo + i * st_)], 'list', 'idx'))


@model(enumerate)
def _enumerate(I, a, k):
    c = a[0]
    st = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(c, ListV) and not c.concrete and c.length is not None and c.at is not None:
        i = z3.Int('n!%d' % I.tag())
        return I.born(ListV([Piece((i,), z3.And(i >= 0, i < c.length), (i + st, c.at(i)))], 'list', 'idx', c.length, lambda ix: (ix + st, c.at(ix))))
    ps = I.iter_pieces(c)
    if all(p.single for p in ps):
        return I.mklist([(i + st, p.value) for i, p in enumerate(ps)])
    f = I.freshfn('pos', *([v.sort() for v in ps[0].vars] + [z3.IntSort()])) if len(ps) == 1 else None
    if f is None:
        raise Unsupported('enumerate')
    pos = f(*ps[0].vars)
    I.assume(ForAll(ps[0].vars, Implies(ps[0].guard, pos >= 0)))
    return I.born(ListV([Piece(ps[0].vars, ps[0].guard, (pos, ps[0].value))]))


@model(zip)
def _zip(I, a, k):
    cs = []
    for c in a:
        if isinstance(c, tuple):
            c = I.mklist(list(c))
        elif not isinstance(c, ListV):
            c = I.born(ListV(I.iter_pieces(c)))
        cs.append(c)
    if any(c.concrete for c in cs) and all(c.concrete or (c.length is not None and c.at) for c in cs):
        out = []
        i = 0
        while True:
            row = []
            for c in cs:
                if c.concrete:
                    if i >= len(c.pieces):
                        return I.mklist(out)
                    row.append(c.items()[i])
                else:
                    if not I.decide(c.length > i):
                        return I.mklist(out)
                    row.append(c.at(z3.IntVal(i)))
            out.append(tuple(row))
            i += 1
    if all(c.length is not None and c.at is not None for c in cs):
        n = cs[0].length
        for c in cs[1:]:
            n = z3.If(c.length < n, c.length, n)
        i = z3.Int('z!%d' % I.tag())
        return I.born(ListV([Piece((i,), z3.And(i >= 0, i < n), tuple(c.at(i) for c in cs))], 'list', 'idx', n,
                            lambda ix: tuple(c.at(ix) for c in cs)))
    raise Unsupported('zip of symbolic collections')


@model(map)
def _map(I, a, k):
    f, c = a[0], a[1]
    out = []
    r = I.born(ListV())
    for p in I.iter_pieces(c):
        if p.single:
            out.append(Piece((), True, I.call(f, [p.value])))
        else:
            res = I.mklist([])

            def body(v):
                I.add_piece(res, Piece((), True, I.call(f, [v])))
            I.loop_many(p, body)
            out.extend(res.pieces)
    r.pieces = out
    return r


@model(filter)
def _filter(I, a, k):
    f, c = a[0], a[1]
    res = I.mklist([])
    for p in I.iter_pieces(c):
        def body(v):
            t = I.truth(v) if f is None else I.truth(I.call(f, [v]))
            if I.decide(t):
                I.add_piece(res, Piece((), True, v))
        if p.single:
            body(p.value)
        else:
            I.loop_many(p, body)
    return res


@model(reversed)
def _reversed(I, a, k):
    c = a[0]
    if isinstance(c, tuple):
        return I.mklist(list(reversed(c)))
    if isinstance(c, ListV) and c.concrete:
        return I.mklist(list(reversed(c.items())))
    if isinstance(c, ListV) and c.length is not None and c.at is not None:
        n, at = c.length, c.at
        i = z3.Int('v!%d' % I.tag())
        return I.born(ListV([Piece((i,), z3.And(i >= 0, i < n), at(n - 1 - i))], 'list', 'idx', n, lambda ix: at(n - 1 - ix)))
    raise Unsupported('reversed')


@model(str)
def _str(I, a, k):
    return I.fmt(a[0]) if a else ''


@model(repr)
def _repr(I, a, k):
    if I.is_native(a[0]):
        return repr(I.native(a[0]))
    return RefV(str, I.fresh('repr', Obj))


@model(int)
def _int(I, a, k):
    v = a[0] if a else 0
    if z3.is_real(v):
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if z3.is_int(v):
        return v
    if z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (RefV, StrV)):
        return I.call_uf('int_of', [v], INT)
    if isinstance(v, OpaqueV):
        return v
    return I.call_native(int, a, k)


@model(float)
def _float(I, a, k):
    v = a[0]
    if z3.is_int(v):
        return z3.ToReal(v)
    if z3.is_real(v):
        return v
    if isinstance(v, (RefV, StrV)):
        return I.call_uf('float_of', [v], REAL)
    return I.call_native(float, a, k)


@model(bool)
def _bool(I, a, k):
    return I.truth(a[0]) if a else False


@model(abs)
def _abs(I, a, k):
    v = a[0]
    if is_z3(v):
        return z3.If(v >= 0, v, -v)
    if hasattr(v, 'elementwise'):
        return v.elementwise(I, 'abs')
    return I.call_native(abs, a, k)


@model(math.ceil)
def _ceil(I, a, k):
    v = a[0]
    if z3.is_real(v):
        return -z3.ToInt(-v)
    if z3.is_int(v):
        return v
    return I.call_native(math.ceil, a, k)


@model(math.floor)
def _floor(I, a, k):
    v = a[0]
    if z3.is_real(v):
        return z3.ToInt(v)
    if z3.is_int(v):
        return v
    return I.call_native(math.floor, a, k)


@model(round)
def _round(I, a, k):
    if I.is_native(a[0]):
        return I.call_native(round, a, k)
    return OpaqueV('round')


@model(hash)
def _hash(I, a, k):
    v = a[0]
    if isinstance(v, ObjV):
        f = inspect.getattr_static(v.cls, '__hash__', None)
        if inspect.isfunction(f):
            return I.call(BoundV(f, v), [], {})
    return I.call_uf('hash', [v], INT)


@model(id)
def _id(I, a, k):
    return I.call_uf('id', [a[0]], INT)


@model(getattr)
def _getattr(I, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('getattr with symbolic name')
    if len(a) > 2:
        try:
            return I.getattr(a[0], a[1], a[2])
        except PyExc as e:
            if e.cls is AttributeError:
                return a[2]
            raise
    return I.getattr(a[0], a[1])


@model(hasattr)
def _hasattr(I, a, k):
    v, n = a
    if isinstance(v, ObjV):
        if n in v.attrs:
            return True
        return isinstance(v.cls, type) and hasattr(v.cls, n)
    if isinstance(v, RefV):
        sp, _ = I.spec_of(v.cls, n)
        if sp is not None:
            return True
        if isinstance(v.cls, type) and v.cls is not type:
            return hasattr(v.cls, n)
        raise Unsupported('hasattr on %r' % (v,))
    if isinstance(v, FuncV):
        return n in v.attrs
    if isinstance(v, LibV) and v.pycls is not None and hasattr(v.pycls, n):
        return True
    if isinstance(v, OpaqueV):
        I.opaque_test(v)
        return I.fresh('opq', z3.BoolSort())
    for c, t in ((ListV, list), (SetV, set), (DictV, dict), (StrV, str)):
        if isinstance(v, c):
            return hasattr(t, n)
    if getattr(v, 'pycls', None) is not None:
        return hasattr(v.pycls, n)
    if is_z3(v):
        return hasattr(int, n)
    return hasattr(v, n)


@model(setattr)
def _setattr(I, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('setattr with symbolic name')
    I.setattr(a[0], a[1], a[2])


@model(callable)
def _callable(I, a, k):
    if isinstance(a[0], (FuncV, BoundV, ModelV)):
        return True
    if isinstance(a[0], RefV):
        if a[0].cls is type:
            return True
        sp, _ = I.spec_of(a[0].cls, '__call__')
        if sp is not None:
            return True
        raise Unsupported('callable')
    return (not isinstance(a[0], Sym)) and callable(a[0])


@model(type)
def _type(I, a, k):
    v = a[0]
    if isinstance(v, RefV):
        if v.cls is type:
            return type
        if getattr(v, 'exact', False):
            return v.cls
        return RefV(type, I.dyn(v.term))
    if isinstance(v, ObjV):
        return v.cls
    for c, t in ((ListV, {'tuple': tuple}.get(getattr(v, 'kind', ''), list)), (SetV, set), (DictV, dict), (StrV, str)):
        if isinstance(v, c):
            return t
    if getattr(v, 'pycls', None) is not None:
        return v.pycls
    if is_z3(v):
        return bool if z3.is_bool(v) else int if z3.is_int(v) else float
    if isinstance(v, OpaqueV):
        return v.derived('') if v.free else OpaqueV('type')
    return type(v)


@model(functools.partial)
def _partial(I, a, k):
    f, pre = a[0], list(a[1:])
    return ModelV('partial', lambda I2, aa, kk: I2.call(f, pre + list(aa), dict(k, **kk)))


@model(functools.wraps)
def _wraps(I, a, k):
    return ModelV('wraps', lambda I2, aa, kk: aa[0])


@model(copy.copy)
def _copy(I, a, k):
    v = a[0]
    if isinstance(v, ListV):
        return I._m_list_copy(v)
    if isinstance(v, SetV):
        return I._m_set_copy(v)
    if isinstance(v, DictV):
        return I._m_dict_copy(v)
    if isinstance(v, ObjV):
        f = inspect.getattr_static(v.cls, '__copy__', None)
        if inspect.isfunction(f):
            return I.call(BoundV(f, v), [], {})
        return I.born(ObjV(v.cls, v.attrs, v.name))
    if isinstance(v, (RefV, StrV, tuple)) or is_z3(v):
        return v
    if hasattr(v, 'copy_'):
        return v.copy_(I)
    return v


def _iterfn(f):
    def m(I, a, k):
        def items(x):
            if isinstance(x, tuple):
                return list(x)
            if isinstance(x, (ListV, SetV)):
                return x.items()
            return list(I.native(x))
        xs = [items(x) for x in a if not isinstance(x, int)]
        n = [x for x in a if isinstance(x, int)]
        return I.mklist([tuple(t) for t in f(*(xs + n), **k)])
    return m


for _f in (itertools.permutations, itertools.combinations, itertools.product):
    M[_f] = _iterfn(_f)


@model(itertools.chain)
def _chain(I, a, k):
    ps = []
    for c in a:
        ps += I.iter_pieces(c)
    return I.born(ListV(ps))


def _chain_from(I, a, k):
    ps = []
    for p in I.iter_pieces(a[0]):
        if not p.single:
            raise Unsupported('chain.from_iterable')
        ps += I.iter_pieces(p.value)
    return I.born(ListV(ps))


M[itertools.chain.from_iterable] = _chain_from


@model(_warnings.warn)
def _warn(I, a, k):
    I.event('warn', ())
    return None


@model(_warnings.filterwarnings)
def _filterwarnings(I, a, k):
    return None


@model(_warnings.simplefilter)
def _simplefilter(I, a, k):
    return None


@model(print)
def _print(I, a, k):
    return None


for _n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log'):
    M[getattr(logging.Logger, _n)] = lambda I, a, k: None


@model(operator.or_)
def _or(I, a, k):
    return I.binop('BitOr', a[0], a[1])


@model(operator.and_)
def _and(I, a, k):
    return I.binop('BitAnd', a[0], a[1])


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('mod', 'Mod')):
    M[getattr(operator, _n)] = (lambda o: lambda I, a, k: I.binop(o, a[0], a[1]))(_o)
for _n, _o in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ):
    M[getattr(operator, _n)] = (lambda o: lambda I, a, k: I.compare(o, a[0], a[1]))(_o)
M[operator.not_] = lambda I, a, k: Not(I.truth(a[0]))
M[operator.contains] = lambda I, a, k: I.contains(a[0], a[1])


def _str_m(name):
    def f(I, a, k):
        return I.str_method(a[0], name, a[1:], k)
    return f


def install(I, extra=None):
    I.models.update(M)
    if extra:
        I.models.update(extra)
    return I
