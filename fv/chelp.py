"""Vocabulary shared by the contracts."""
from prove import *      # noqa
from core import *       # noqa


def forall(P, l, pred):
    """pred holds of every element of a collection value"""
    fs = []
    for p in l.pieces:
        if p.vars:
            # own bound variables, so that uses may be nested
            ren = [(v, z3.Const('%s~q%d' % (v.decl().name().split('~')[0], P.tag()), v.sort())) for v in p.vars]
            q = subst(Piece((), p.guard, p.value), ren)
            p = Piece([b for _, b in ren], q.guard, q.value)
        v = P.quiet(lambda: pred(p.value))
        fs.append(ForAll(p.vars, Implies(p.guard, v)) if p.vars else Implies(p.guard, v))
    return And(*fs) if fs else True


def exists(P, l, pred):
    return Not(forall(P, l, lambda x: Not(pred(x))))


def same_members(P, got, dom, want):
    """`got` holds exactly the members x of `dom` (a collection) with want(x)"""
    return And(forall(P, got, lambda x: And(P.contains(dom, x), want(x))),
               forall(P, dom, lambda x: Implies(want(x), P.contains(got, x))))


def isin(P, cls, lst):
    """cls (term) is a subclass of one in lst, as isinstance(obj, tuple(lst))"""
    return exists(P, lst, lambda c: P.sub(cls, c.term))


def opt(P, o, nm, et, owner):
    """(is None, the list) of an optional list attribute without deciding"""
    t = P.fn('%s.%s' % (owner, nm), Obj, Obj)(P.term(o))
    return P.fn('%s.%s?' % (owner, nm), Obj, z3.BoolSort())(P.term(o)), P.list_of(et, t)


def never_raises(out):
    return [('does-not-raise', False)] if out.kind == 'raise' else None


def is_a(P, x, *classes):
    return Or(*[P.sub(P.dyn(P.term(x)), P.lit(c)) for c in classes])


def simple(target_, name_=None, **attrs):
    """contract built from plain functions: simple(target, setup=..., post=..., cover=...)"""
    short = name_ or target_.split(':')[1]

    class C(Contract):
        target = target_

        def name(self):
            return short
    for k, v in attrs.items():
        if callable(v) and k not in ('target',):
            setattr(C, k, (lambda v: lambda self, *a: v(*a))(v))
        else:
            setattr(C, k, v)
    C.__name__ = short.replace('.', '_')
    return C


def fnref(spec):
    """the native function 'mod:Class.name', or None when it is gone"""
    try:
        return resolve(spec)[0]
    except (ImportError, AttributeError):
        return None


def callees(**kw):
    raise NotImplementedError


def as_uf(spec, ret, pick=None):
    """callee replaced by an uninterpreted function of its arguments (its own contract is proved elsewhere)"""
    nm = spec.split(':')[1]

    def m(P, args, kwargs):
        f = fnref(spec)
        sig = inspect.signature(f)
        ba = sig.bind(*args, **kwargs)
        ba.apply_defaults()
        vals = list(ba.arguments.values())
        if pick:
            vals = [ba.arguments[k] for k in pick]
        return P.call_uf('callee:' + nm, [P.hashable(v) for v in vals], ret)
    f = fnref(spec)
    return {f: m} if f is not None else {}
