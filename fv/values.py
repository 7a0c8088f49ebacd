"""Symbolic values of the verifier.

Scalars are z3 expressions (Int / Real / Bool).  Everything else a program can
name but the proof does not look into is a reference of the single sort Obj
(RefV).  Concrete Python values stand for themselves."""
import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)          # z3 only; the repository's own venv comes first
import z3

Obj = z3.DeclareSort('Obj')


class Unsupported(Exception):
    """The construct is outside the verifier's reach: the function is undecided."""


class Infeasible(Exception):
    pass


class Sym(object):
    pass


class RefV(Sym):
    """Immutable reference; attributes are uninterpreted functions of its term."""
    __slots__ = ('cls', 'term')

    def __init__(self, cls, term):
        self.cls, self.term = cls, term

    def __repr__(self):
        return '<%s %s>' % (getattr(self.cls, '__name__', self.cls), self.term)


class StrV(Sym):
    """String built by concatenation/formatting: a flat tuple of parts."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        flat = []
        for p in parts:
            if isinstance(p, StrV):
                flat.extend(p.parts)
            else:
                flat.append(p)
        out = []
        for p in flat:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
            elif p != '' if isinstance(p, str) else True:
                out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return 'Str' + repr(self.parts)


class ObjV(Sym):
    """Mutable heap object of a native class whose attributes are values."""
    def __init__(self, cls, attrs=None, name=None):
        self.cls, self.attrs, self.name = cls, dict(attrs or {}), name
        self.term = None

    def __repr__(self):
        return '<obj %s %s>' % (getattr(self.cls, '__name__', self.cls), self.name or hex(id(self))[-4:])


class OpaqueV(Sym):
    """A value nothing is known about."""
    free = False

    def __init__(self, why):
        self.why = why

    def derived(self, why):
        return self

    def __repr__(self):
        return '<opaque %s>' % (self.why,)


class LibV(OpaqueV):
    """A library value of the data layer.  Operations on it give further library values and
    every test on it may go either way: claims that hold hold whatever the data is."""
    free = True

    def __init__(self, why, pycls=None, hooks=None):
        self.why, self.pycls, self.hooks = why, pycls, hooks or {}

    def derived(self, why):
        return self if self.pycls is None and not self.hooks else LibV(self.why)

    @property
    def plain(self):
        """nothing is known or claimed about it"""
        return self.pycls is None and not self.hooks

    def __repr__(self):
        return '<library value %s>' % (self.why,)


def joined(vs, why):
    """one library value that stands for any of several"""
    for v in vs:
        if getattr(v, 'owned', None) is not None:
            return v
    return LibV(why)


class StarV(Sym):
    """*collection among the arguments of a call"""
    def __init__(self, of):
        self.of = of


def merged(*vs):
    vs = [v for v in vs if isinstance(v, OpaqueV)]
    return vs[0].derived('') if all(v.free for v in vs) else OpaqueV('mixed')


class Piece(object):
    """{ value(vars) | guard(vars) } in order of vars; `many` pieces have vars."""
    __slots__ = ('vars', 'guard', 'value')

    def __init__(self, vars, guard, value):
        self.vars, self.guard, self.value = tuple(vars), guard, value

    @property
    def single(self):
        return not self.vars and self.guard is True

    def __repr__(self):
        return 'Piece(%s | %s | %s)' % (self.vars, self.guard, self.value)


class ListV(Sym):
    within = None       # length of the list this one is a filter of

    def __init__(self, pieces=(), kind='list', order=None, length=None, at=None):
        self.pieces = list(pieces)
        self.kind, self.order, self.length, self.at = kind, order, length, at

    @property
    def concrete(self):
        return all(p.single for p in self.pieces)

    def items(self):
        if not self.concrete:
            raise Unsupported('elements of a symbolic collection')
        return [p.value for p in self.pieces]

    def __repr__(self):
        return 'ListV(%s)' % (self.pieces,)


class SetV(Sym):
    def __init__(self, pieces=()):
        self.pieces = list(pieces)

    @property
    def concrete(self):
        return all(p.single for p in self.pieces)

    def items(self):
        if not self.concrete:
            raise Unsupported('elements of a symbolic collection')
        return [p.value for p in self.pieces]

    def __repr__(self):
        return 'SetV(%s)' % (self.pieces,)


class DictV(Sym):
    """Later entries win.  value of a piece is (key, value)."""
    def __init__(self, pieces=(), default=None):
        self.pieces = list(pieces)
        self.default = default          # None, or callable producing default (defaultdict)
        self.sym = None                 # (has(k)->Bool, get(k)->Value, keysort) of an unknown mapping

    @property
    def concrete(self):
        return self.sym is None and all(p.single for p in self.pieces)

    def __repr__(self):
        return 'DictV(%s)' % (self.pieces,)


class FuncV(Sym):
    """Interpreted function (AST + defining environment)."""
    def __init__(self, node, env, glob, name, defaults=(), kwdefaults=None, owner=None, decorators=()):
        self.node, self.env, self.glob, self.name = node, env, glob, name
        self.defaults, self.kwdefaults, self.owner = defaults, kwdefaults or {}, owner
        self.attrs = {}

    def __repr__(self):
        return '<fn %s>' % self.name


class BoundV(Sym):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return '<bound %s of %s>' % (self.fn, self.self_)


class ModelV(Sym):
    """A python callable (interp, args, kwargs) -> value used as a function value."""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<model %s>' % self.name


class SuperV(Sym):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class PyExc(Exception):
    """An exception raised by the interpreted program."""
    def __init__(self, cls, args=()):
        self.cls, self.eargs = cls, tuple(args)

    def __str__(self):
        return '%s%s' % (getattr(self.cls, '__name__', self.cls), self.eargs)


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_bool(v):
    return isinstance(v, bool) or z3.is_bool(v)


def is_num(v):
    return (isinstance(v, (int, float)) and not isinstance(v, bool)) or z3.is_arith(v)


def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    return a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    return a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def _binder(vars, extra):
    return list(vars) + list(extra)


def Exists(vars, body):
    if isinstance(body, bool):
        return body if (not body) else (True if not vars else z3.Exists(list(vars), z3.BoolVal(True)))
    return z3.Exists(list(vars), body) if vars else body


def ForAll(vars, body, patterns=None):
    if isinstance(body, bool):
        return body if body or not vars else z3.ForAll(list(vars), z3.BoolVal(False))
    if not vars:
        return body
    return z3.ForAll(list(vars), body, patterns=patterns) if patterns else z3.ForAll(list(vars), body)


def mark_many(v):
    """`v` stands for one object per value of some variables: it may be read but not written to"""
    if isinstance(v, tuple):
        for x in v:
            mark_many(x)
    elif isinstance(v, (ListV, SetV, DictV)):
        if not getattr(v, 'many', False):
            v.many = True
            for p in v.pieces:
                mark_many(p.value)
    elif isinstance(v, ObjV):
        if not getattr(v, 'many', False):
            v.many = True
            for x in v.attrs.values():
                mark_many(x)
    return v


def subst(v, pairs):
    n = subst_(v, pairs)
    if n is not v and getattr(v, 'many', False) and isinstance(n, (ListV, SetV, DictV, ObjV)):
        n.many = True
    return n


def subst_(v, pairs):
    """Capture-free substitution of constants in a value."""
    if not pairs:
        return v
    if is_z3(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, RefV):
        return v.subst(pairs) if hasattr(v, 'subst') else type(v)(v.cls, z3.substitute(v.term, *pairs))
    if isinstance(v, StrV):
        return StrV([subst(p, pairs) for p in v.parts])
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, Piece):
        g = v.guard if isinstance(v.guard, bool) else z3.substitute(v.guard, *pairs)
        return Piece(v.vars, g, subst(v.value, pairs))
    if isinstance(v, ListV):
        n = ListV([subst(p, pairs) for p in v.pieces], v.kind, v.order,
                  subst(v.length, pairs) if is_z3(v.length) else v.length)
        if v.at is not None:
            n.at = lambda i, a=v.at: subst(a(i), pairs)
        return n
    if isinstance(v, SetV):
        return SetV([subst(p, pairs) for p in v.pieces])
    if isinstance(v, DictV):
        d = DictV([subst(p, pairs) for p in v.pieces], v.default)
        if v.sym:
            has, get = v.sym[0], v.sym[1]
            d.sym = (lambda k: subst(has(k), pairs), lambda k: subst(get(k), pairs)) + tuple(v.sym[2:])
        return d
    if isinstance(v, ObjV):
        o = ObjV(v.cls, {k: subst(x, pairs) for k, x in v.attrs.items()}, v.name)
        if v.term is not None:
            o.term = z3.substitute(v.term, *pairs)
        return o
    if hasattr(v, 'subst'):
        return v.subst(pairs)
    return v


def free_consts(v, acc=None):
    """names of uninterpreted constants occurring in a value"""
    acc = set() if acc is None else acc
    if is_z3(v):
        seen, st = set(), [v]
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(e.decl().name())
            if z3.is_quantifier(e):
                st.append(e.body())
            else:
                st.extend(e.children())
    elif isinstance(v, RefV):
        free_consts(v.term, acc)
    elif isinstance(v, StrV):
        for p in v.parts:
            free_consts(p, acc)
    elif isinstance(v, (tuple, list)):
        for p in v:
            free_consts(p, acc)
    elif isinstance(v, Piece):
        free_consts(v.guard, acc)
        free_consts(v.value, acc)
    elif isinstance(v, (ListV, SetV, DictV)):
        for p in v.pieces:
            free_consts(p, acc)
    elif isinstance(v, ObjV):
        for x in v.attrs.values():
            free_consts(x, acc)
    elif hasattr(v, 'consts'):
        for x in v.consts():
            free_consts(x, acc)
    return acc
