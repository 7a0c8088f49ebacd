"""Deductive verifier for the Python of /repo.

A symbolic interpreter runs the *parsed source of the real functions* (read
from /repo on every run) over all inputs allowed by a contract's precondition,
path by path; loops over symbolic collections are replaced by quantified
summaries or by an invariant, callees with a contract by their contract, other
repository callees are inlined.  Each path and postcondition gives a proof
obligation for z3 (cvc5 as a second opinion through SMT-LIB)."""
import ast
import builtins
import collections
import inspect
import itertools
import math
import operator
import os
import sys
import textwrap
import types
import warnings as _warnings
from values import *            # noqa: F401,F403
from values import _binder      # noqa: F401

REPO = '/repo'
MISSING = object()


# --------------------------------------------------------------- type language
class Ty(object):
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __repr__(self):
        return 'Ty(%s,%s)' % (self.kind, self.a)


INT, REAL, BOOL, STR, ANY = Ty('int'), Ty('real'), Ty('bool'), Ty('ref', str), Ty('ref', 'any')


def Ref(c):
    return Ty('ref', c)


def Opt(t):
    return Ty('opt', t)


def Lst(t):
    return Ty('list', t)


def St(t):
    return Ty('set', t)


def Map(k, v):
    return Ty('map', k, v)


def Tup(*t):
    return Ty('tuple', *t)


CLS = Ty('ref', type)


def Meth(args, ret):
    return ('method', list(args), ret)


def sort_of(t):
    return {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}.get(t.kind, Obj)


class SubRes(object):
    pass


class Frame(object):
    def __init__(self, prefix, alts):
        self.prefix, self.alts, self.idx = list(prefix), alts, 0
        self.born = 0
        self.reads, self.writes = set(), set()
        self.carried = set()
        self.fresh = []


class Env(object):
    def __init__(self, glob, parent=None, owner=None):
        self.vars, self.parent, self.glob, self.owner = {}, parent, glob, owner
        self.nonlocals = set()
        self.yields = None
        self.self_ = None
        self.born = 0
        self.fname = ''


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


def limit(solver, ms):
    """bound the work of a query, not its time: answers do not depend on the machine (about 2000 units a ms),
    and no timer thread interrupts the solver, which makes it crash at times"""
    solver.set('rlimit', ms * 2000)


class Interp(object):
    MAXDEPTH = 40

    def __init__(self, specs=None, contracts=None, models=None, timeout=4000, loop_specs=None, attr_models=None):
        self.specs = specs or {}
        self.contracts = contracts or {}     # native function -> callable(I, args, kwargs)
        self.models = models or {}           # id(native) -> callable(I, args, kwargs)
        self.attr_models = attr_models or {} # value class -> callable(I, v, name)
        self.loop_specs = loop_specs or {}
        self.timeout = timeout
        self.solver = z3.Solver()
        self.timeout = timeout
        limit(self.solver, timeout)
        self.pc = []                         # (tag, formula)
        self.axioms = []
        self.trail = []
        self.events = []
        self.frames = []
        self.ctr = 0
        self.lits = {}
        self.lit_by_id = {}
        self.classes = []
        self.approx = []
        self.depth = 0
        self.stack = []
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.solver_time = 0.0
        self.asked = {}
        self.len_cache = {}
        self.refwrites = set()
        self.max_paths = 4000
        self._base_axioms()

    # ----------------------------------------------------------- solver plumbing
    def _base_axioms(self):
        self.NONE = self.lit(None)
        self.litid = z3.Function('litid', Obj, z3.IntSort())
        x, y, w = z3.Consts('x!c y!c w!c', Obj)
        self.sub = z3.Function('subclass', Obj, Obj, z3.BoolSort())
        self.dyn = z3.Function('class_of', Obj, Obj)
        self.axiom(z3.ForAll([x], self.sub(x, x)))
        self.axiom(z3.ForAll([x, y, w], z3.Implies(z3.And(self.sub(x, y), self.sub(y, w)), self.sub(x, w)),
                             patterns=[z3.MultiPattern(self.sub(x, y), self.sub(y, w))]))

    def axiom(self, f):
        self.axioms.append(f)
        self.solver.add(f)

    def tag(self):
        self.ctr += 1
        return self.ctr

    def freshfn(self, name, *sorts):
        """a function nothing is known about; follows when a loop is generalised"""
        c = self.fresh(name, Obj)
        f = self.fn('fn!' + name, *((Obj,) + sorts))
        return lambda *a: f(c, *a)

    def fresh(self, name, sort):
        c = z3.Const('%s!%d' % (name, self.tag()), sort)
        if self.frames:
            self.frames[-1].fresh.append(c)
        return c

    def assume(self, f, tag='fact'):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.pc.append((tag, f))
        self.solver.add(f)

    def check(self, f):
        """sat / unsat / unknown of pc and f"""
        import time
        t = time.time()
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        self.solver_time += time.time() - t
        return r

    def feasible(self, f):
        # an undecided branch is explored
        limit(self.solver, min(self.timeout, 1500))
        r = self.check(f)
        limit(self.solver, self.timeout)
        return r != z3.unsat

    def entailed(self, f):
        if isinstance(f, bool):
            return f
        return self.check(z3.Not(f)) == z3.unsat

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        fr = self.frames[-1]
        i = fr.idx
        if i < len(fr.prefix):
            d = fr.prefix[i]
            fr.idx += 1
        else:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if t and f:
                fr.alts.append(fr.prefix[:i] + [False])
                d = True
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise Infeasible()
            fr.prefix.append(d)
            fr.idx += 1
        self.assume(c if d else Not(c), 'dec')
        return d

    def _run_frame(self, thunk, prefix, stack):
        fr = Frame(prefix, stack)
        fr.born = self.tag()
        self.frames.append(fr)
        mark, pcm, evm, axm = len(self.trail), len(self.pc), len(self.events), len(self.axioms)
        apx = len(self.approx)
        depth, stk = self.depth, list(self.stack)
        self.solver.push()
        r = SubRes()
        r.value = None
        try:
            try:
                r.value = thunk()
                r.kind = 'normal'
            except PyExc as e:
                r.kind, r.value = 'raise', e
            except ReturnSig as e:
                r.kind, r.value = 'return', e.v
            except BreakSig:
                r.kind = 'break'
            except ContinueSig:
                r.kind = 'normal'
            except Infeasible:
                r.kind = 'infeasible'
            r.pc = self.pc[pcm:]
            r.events = self.events[evm:]
            r.approx = self.approx[apx:]
            r.fresh = fr.fresh
            r.writes = self._collapse(mark, fr)
            r.carried = set(fr.carried)
            r.prefix = fr.prefix
            r.frame = fr
            if r.kind != 'infeasible' and getattr(self, 'on_path', None) and len(self.frames) == 1:
                self.on_path(r)
        finally:
            self._undo(mark, fr.born)
            del self.pc[pcm:]
            del self.events[evm:]
            del self.approx[apx:]
            self.solver.pop()
            for a in self.axioms[axm:]:
                self.solver.add(a)
            self.frames.pop()
            self.depth, self.stack = depth, stk
        return r

    def explore(self, thunk):
        res, stack, n = [], [[]], 0
        while stack:
            n += 1
            if n > self.max_paths:
                raise Unsupported('too many paths')
            r = self._run_frame(thunk, stack.pop(), stack)
            if r.kind != 'infeasible':
                res.append(r)
        return res

    # ------------------------------------------------------------- trail / state
    def _log_read(self, key, born):
        for fr in reversed(self.frames):
            if born < fr.born:
                if key not in fr.writes:
                    fr.reads.add(key)
            else:
                break

    def _log_write(self, key, born):
        for fr in reversed(self.frames):
            if born < fr.born:
                if key in fr.reads:
                    fr.carried.add(key)
                fr.writes.add(key)
            else:
                break

    def set_env(self, env, name, val):
        self.trail.append(('env', env, name, env.vars.get(name, MISSING)))
        self._log_write(('env', id(env), name), env.born)
        env.vars[name] = val

    def set_attr(self, o, name, val):
        self.writable(o)
        self.trail.append(('attr', o, name, o.attrs.get(name, MISSING)))
        self._log_write(('attr', id(o), name), getattr(o, 'born', 0))
        o.attrs[name] = val

    def touch(self, c):
        self._log_read(('c', id(c)), getattr(c, 'born', 0))

    def writable(self, c):
        if getattr(c, 'many', False):
            raise Unsupported('write to an element of a symbolic collection')
        if getattr(c, 'frozen', None):
            self.oblige('leaves-%s-alone' % c.frozen, False)

    def add_piece(self, c, p):
        self.writable(c)
        if p.vars:
            mark_many(p.value)
        self.trail.append(('pieces', c, list(c.pieces), 'append'))
        self._log_write(('c', id(c)), getattr(c, 'born', 0))
        c.pieces.append(p)
        self._drop_shape(c)

    def _drop_shape(self, c):
        if isinstance(c, ListV):
            self.trail.append(('shape', c, c.length, c.at, c.order))
            c.length = c.at = None
            c.order = None

    def set_pieces(self, c, pieces):
        self.writable(c)
        self.trail.append(('pieces', c, list(c.pieces), 'replace'))
        self._log_write(('c', id(c)), getattr(c, 'born', 0))
        c.pieces[:] = list(pieces)
        self._drop_shape(c)

    def _undo(self, mark, since=None):
        """take back the writes to state older than `since`; what was made since then is a result"""
        while len(self.trail) > mark:
            t = self.trail.pop()
            if since is not None and t[0] in ('attr', 'pieces', 'shape') and getattr(t[1], 'born', 0) >= since:
                continue
            if t[0] == 'env':
                if t[3] is MISSING:
                    t[1].vars.pop(t[2], None)
                else:
                    t[1].vars[t[2]] = t[3]
            elif t[0] == 'attr':
                if t[3] is MISSING:
                    t[1].attrs.pop(t[2], None)
                else:
                    t[1].attrs[t[2]] = t[3]
            elif t[0] == 'pieces':
                t[1].pieces[:] = t[2]
            elif t[0] == 'shape':
                t[1].length, t[1].at, t[1].order = t[2], t[3], t[4]
            elif t[0] == 'undo':
                t[1]()

    def _collapse(self, mark, fr):
        """writes to state that existed before the frame: list of (kind,obj,key,new)"""
        out, seen = [], set()
        for t in self.trail[mark:]:
            if t[0] == 'env' and t[1].born < fr.born:
                k = ('env', id(t[1]), t[2])
                if k not in seen:
                    seen.add(k)
                    out.append(('env', t[1], t[2], t[1].vars.get(t[2], MISSING)))
            elif t[0] == 'attr' and getattr(t[1], 'born', 0) < fr.born:
                k = ('attr', id(t[1]), t[2])
                if k not in seen:
                    seen.add(k)
                    out.append(('attr', t[1], t[2], t[1].attrs.get(t[2], MISSING)))
            elif t[0] == 'pieces' and getattr(t[1], 'born', 0) < fr.born:
                k = ('c', id(t[1]))
                if k not in seen:
                    seen.add(k)
                    repl = any(u[0] == 'pieces' and u[1] is t[1] and u[3] == 'replace' for u in self.trail[mark:])
                    out.append(('replace' if repl else 'append', t[1], None, list(t[1].pieces[len(t[2]):])))
        return out

    def born(self, v):
        v.born = self.tag()
        return v

    def mklist(self, items, kind='list'):
        return self.born(ListV([Piece((), True, x) for x in items], kind))

    def mark_approx(self, why):
        self.approx.append(why)

    def opaque_test(self, *vs, what='test of an opaque value'):
        for v in vs:
            if isinstance(v, OpaqueV) and not v.free:
                self.mark_approx(what)
                return

    # -------------------------------------------------------------------- terms
    def lit(self, v):
        key = ('cls', v) if isinstance(v, type) else (type(v).__name__, v)
        try:
            t = self.lits.get(key)
        except TypeError:
            key = ('id', id(v))
            t = self.lits.get(key)
        if t is not None:
            return t
        n = len(self.lits)
        nm = v.__name__ if isinstance(v, type) else repr(v)
        t = z3.Const('lit:%s' % nm[:60] + ('' if len(nm) <= 60 else '#%d' % n), Obj)
        self.lits[key] = t
        self.lit_by_id[n] = v
        if n == 0:
            self.litid = z3.Function('litid', Obj, z3.IntSort())
        self.axiom(self.litid(t) == n)
        if isinstance(v, type):
            for c, ct in self.classes:
                self.axiom(self.sub(t, ct) if issubclass(v, c) else z3.Not(self.sub(t, ct)))
                self.axiom(self.sub(ct, t) if issubclass(c, v) else z3.Not(self.sub(ct, t)))
            self.classes.append((v, t))
        return t

    def fn(self, name, *sorts):
        return z3.Function(name, *sorts)

    def term(self, v):
        """z3 term of sort Obj denoting a value"""
        if isinstance(v, RefV):
            return v.term
        if is_z3(v):
            s = v.sort()
            if s == Obj:
                return v
            nm = {'Int': 'box_int', 'Real': 'box_real', 'Bool': 'box_bool'}.get(str(s))
            if nm is None:
                raise Unsupported('box %s' % s)
            if nm == 'box_bool':
                return z3.If(v, self.lit(True), self.lit(False))
            f, g = self.fn(nm, s, Obj), self.fn('un' + nm, Obj, s)
            a = (g(f(v)) == v)
            self.axiom_once(('box', v.get_id()), a, v)
            return f(v)
        if isinstance(v, StrV):
            ps = [self.term(p) for p in v.parts]
            if not ps:
                return self.lit('')
            t = ps[-1]
            cat = self.fn('str_cat', Obj, Obj, Obj)
            for p in reversed(ps[:-1]):
                t = cat(p, t)
            return t
        if isinstance(v, tuple):
            ts = [self.term(x) for x in v]
            f = self.fn('tuple%d' % len(ts), *([Obj] * (len(ts) + 1))) if ts else None
            if not ts:
                return self.lit(())
            t = f(*ts)
            for i, x in enumerate(ts):
                self.axiom_once(('tup', i, t.get_id()), self.fn('tuple%d_%d' % (len(ts), i), Obj, Obj)(t) == x, t)
            return t
        if isinstance(v, ObjV):
            if v.term is None:
                if '__term__' in v.attrs:
                    return v.attrs['__term__'].term
                v.term = self.fresh('obj', Obj)
            return v.term
        if isinstance(v, bool) or v is None or isinstance(v, (str, type, bytes)):
            return self.lit(v)
        if isinstance(v, int):
            return self.term(z3.IntVal(v))
        if isinstance(v, float):
            if v != v:
                c = z3.Const("NaN_cell", Obj)
                self.axiom_once("NaN_cell", self.fn("is_missing", Obj, z3.BoolSort())(c))
                return c
            return self.term(real(v))
        if isinstance(v, Sym):
            raise Unsupported('term of %r' % (v,))
        return self.lit(v)

    def axiom_once(self, key, f, keep=None):
        # facts about terms: valid universally, asserted as path facts
        self.assume(f)

    def to_sort(self, v, sort):
        if sort == Obj:
            return self.term(v)
        if sort == z3.IntSort():
            if isinstance(v, bool):
                return z3.IntVal(int(v))
            if isinstance(v, int):
                return z3.IntVal(v)
            if z3.is_int(v):
                return v
            if z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if sort == z3.RealSort():
            if isinstance(v, (int, float)):
                return real(v)
            if z3.is_int(v):
                return z3.ToReal(v)
            if z3.is_real(v):
                return v
        if sort == z3.BoolSort() and is_bool(v):
            return B(v)
        raise Unsupported('cannot convert %r to %s' % (v, sort))

    def make(self, t, name):
        """fresh symbolic value of a type"""
        if t.kind in ('int', 'real', 'bool'):
            return self.fresh(name, sort_of(t))
        c = self.fresh(name, Obj)
        return self.from_term(t, c, name)

    def from_term(self, t, c, name='v'):
        if t.kind == 'ref':
            if t.a[0] not in ('any',):
                self.assume(c != self.NONE)
            return RefV(t.a[0], c)
        if t.kind == 'opt':
            if t.a[0].kind == 'ref':
                if self.decide(c == self.NONE):
                    return None
                return RefV(t.a[0].a[0], c)
            if self.decide(c == self.NONE):
                return None
            return self.from_term(t.a[0], c, name)
        if t.kind in ('int', 'real', 'bool'):
            return self.fn('unbox_' + t.kind, Obj, sort_of(t))(c)
        if t.kind == 'list':
            return self.list_of(t.a[0], c)
        if t.kind == 'set':
            f = self.fn('set_member', Obj, Obj, z3.BoolSort())
            x = self.fresh('e', Obj)
            self.frames[-1].fresh.pop()
            return self.born(SetV([Piece((x,), f(c, x), self.quiet_from(t.a[0], x))]))
        if t.kind == 'map':
            return self.map_of(t, c)
        if t.kind == 'tuple':
            return tuple(self.from_term(x, self.fn('proj%d' % i, Obj, Obj)(c)) for i, x in enumerate(t.a))
        raise Unsupported('from_term %r' % t)

    def quiet_from(self, t, c):
        """value of a term inside a binder (no facts, no decisions)"""
        if t.kind == 'ref':
            return RefV(t.a[0], c)
        if t.kind in ('int', 'real', 'bool'):
            return self.fn('unbox_' + t.kind, Obj, sort_of(t))(c)
        if t.kind == 'tuple':
            return tuple(self.quiet_from(x, self.fn('proj%d' % i, Obj, Obj)(c)) for i, x in enumerate(t.a))
        if t.kind == 'list':
            return self.list_of(t.a[0], c)
        if t.kind == 'opt' and t.a[0].kind == 'ref':
            return RefV('any', c)
        if t.kind == 'set':
            x = z3.Const('e!%d' % self.tag(), Obj)
            return self.born(SetV([Piece((x,), self.fn('set_member', Obj, Obj, z3.BoolSort())(c, x), self.quiet_from(t.a[0], x))]))
        if t.kind == 'map':
            return self.map_of(t, c)
        raise Unsupported('quiet_from %r' % t)

    def list_of(self, et, c):
        n = self.fn('len_of', Obj, z3.IntSort())(c)
        s = sort_of(et)
        at = self.fn('at_' + str(s), Obj, z3.IntSort(), s)
        i = z3.Int('i!%d' % self.tag())

        def val(ix):
            v = at(c, ix)
            return v if s != Obj else mark_many(self.quiet_from(et, v))
        self.assume(n >= 0)
        l = ListV([Piece((i,), z3.And(i >= 0, i < n), val(i))], 'list', 'idx', n, val)
        l.ety = et
        l.src = c
        return self.born(l)

    def map_of(self, t, c):
        kt, vt = t.a
        ks, vs = sort_of(kt), sort_of(vt)
        has = self.fn('has_' + str(ks), Obj, ks, z3.BoolSort())
        get = self.fn('get_%s_%s' % (ks, vs), Obj, ks, vs)
        d = DictV()

        def fget(k):
            v = get(c, self.to_sort(k, ks))
            return v if vs != Obj else self.quiet_from(vt, v)
        d.sym = (lambda k: has(c, self.to_sort(k, ks)), fget, kt, vt, c)
        return self.born(d)

    def fresh_list(self, et, name):
        return self.list_of(et, self.fresh(name, Obj))

    def fresh_set(self, et, name):
        return self.from_term(St(et), self.fresh(name, Obj))

    def call_uf(self, name, args, ret):
        """uninterpreted application with typed result"""
        ts, ss = [], []
        for a in args:
            if is_num(a):
                a = a if is_z3(a) else (z3.IntVal(a) if isinstance(a, int) else real(a))
            if is_bool(a):
                a = B(a)
            t = a if is_z3(a) else self.term(a)
            ts.append(t)
            ss.append(t.sort())
        if ret.kind == 'opt' and ret.a[0].kind != 'ref':
            isn = self.fn(name + '?', *(ss + [z3.BoolSort()]))(*ts)
            if self.decide(isn):
                return None
            return self.call_uf(name, args, ret.a[0])
        rs = sort_of(ret)
        v = self.fn(name, *(ss + [rs]))(*ts)
        return v if rs != Obj else self.from_term(ret, v)

    # ---------------------------------------------------------------- attributes
    def spec_of(self, cls, name):
        if isinstance(cls, type):
            for c in cls.__mro__:
                sp = self.specs.get(c)
                if sp and name in sp:
                    return sp[name], c
            if cls is type and type in self.specs and name in self.specs[type]:
                return self.specs[type][name], type
        sp = self.specs.get(cls)
        if sp and name in sp:
            return sp[name], cls
        return None, None

    def getattr(self, v, name, default=MISSING):
        if isinstance(v, OpaqueV):
            if v.free and name in v.hooks:
                return v.hooks[name]
            return v.derived('attr') if v.free else OpaqueV('attr %s of %s' % (name, v.why))
        for c, m in self.attr_models.items():
            if isinstance(v, c):
                r = m(self, v, name)
                if r is not NotImplemented:
                    return r
        if isinstance(v, ObjV):
            if name in v.attrs:
                self._log_read(('attr', id(v), name), getattr(v, 'born', 0))
                return v.attrs[name]
            if name == '__class__':
                return v.cls
            if name == '__dict__':
                return DictV([Piece((), True, (k, x)) for k, x in v.attrs.items()])
            sp, c = self.spec_of(v.cls, name)
            if sp is not None and ('__term__' in v.attrs or (isinstance(sp, tuple) and sp[0] == 'model')):
                return self.spec_value(v, v.attrs.get('__term__'), name, sp, c)
            return self.class_attr(v, v.cls, name, default)
        if isinstance(v, RefV):
            sp, c = self.spec_of(v.cls, name)
            if sp is not None:
                return self.spec_value(v, v, name, sp, c)
            if name == '__class__':
                return RefV(type, self.dyn(v.term))
            if v.cls is str:
                return ModelV('str.' + name, lambda I, a, k, s=v, n=name: I.str_method(s, n, a, k))
            if isinstance(v.cls, type) and v.cls is not type:
                if getattr(v, 'exact', False) or not self._overridden(v.cls, name):
                    return self.class_attr(v, v.cls, name, default)
            if default is not MISSING:
                raise Unsupported('getattr default on symbolic %s.%s' % (v.cls, name))
            raise Unsupported('attribute %s of %r not specified' % (name, v))
        if isinstance(v, SuperV):
            obj = v.self_
            cls = obj.cls if not isinstance(obj, type) else obj
            mro = cls.__mro__
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], obj, c)
            if name == '__init__':
                return ModelV('object.__init__', lambda I, a, k: None)
            raise Unsupported('super().%s' % name)
        if isinstance(v, (ListV, SetV, DictV, StrV, tuple)):
            m = getattr(self, '_m_%s_%s' % (type(v).__name__.rstrip('V').lower() if not isinstance(v, tuple) else 'list', name), None)
            if isinstance(v, StrV):
                return ModelV('str.' + name, lambda I, a, k, s=v, n=name: I.str_method(s, n, a, k))
            if m is None:
                if default is not MISSING:
                    return default
                raise Unsupported('method %s of %s' % (name, type(v).__name__))
            return ModelV(name, lambda I, a, k, o=v, mm=m: mm(o, *a, **k))
        if isinstance(v, FuncV):
            if name in v.attrs:
                return v.attrs[name]
            if name == '__name__':
                return v.name
            if default is not MISSING:
                return default
            raise Unsupported('function attribute %s' % name)
        if isinstance(v, ModelV) or isinstance(v, BoundV):
            raise Unsupported('attribute %s of %r' % (name, v))
        if is_z3(v):
            if default is not MISSING:
                return default
            raise Unsupported('attribute %s of scalar' % name)
        if isinstance(v, Sym):
            if hasattr(v, 'attr'):
                return v.attr(self, name)
            raise Unsupported('attribute %s of %r' % (name, v))
        # native
        if isinstance(v, type):
            for c in v.__mro__:
                if name in c.__dict__:
                    x = c.__dict__[name]
                    if isinstance(x, staticmethod):
                        return self.lift(x.__func__)
                    if isinstance(x, classmethod):
                        return BoundV(x.__func__, v)
                    if isinstance(x, property):
                        return x
                    if inspect.isfunction(x):
                        return x
                    break
        try:
            r = getattr(v, name)
        except AttributeError:
            if default is not MISSING:
                return default
            raise PyExc(AttributeError, (name,))
        return self.lift(r)

    def _overridden(self, cls, name):
        base = None
        for c in cls.__mro__:
            if name in c.__dict__:
                base = c.__dict__[name]
                break
        st, seen = list(cls.__subclasses__()), set()
        while st:
            c = st.pop()
            if c in seen:
                continue
            seen.add(c)
            if name in c.__dict__ and c.__dict__[name] is not base:
                return True
            st.extend(c.__subclasses__())
        return False

    def spec_value(self, v, ref, name, sp, c):
        if isinstance(sp, Ty):
            if name in self.refwrites:
                raise Unsupported('read of %s after a write through a reference' % name)
            return self.call_uf('%s.%s' % (getattr(c, '__name__', c), name), [ref], sp)
        if isinstance(sp, tuple) and sp[0] == 'method':
            def app(I, a, k, nm='%s.%s' % (getattr(c, '__name__', c), name)):
                args = list(a) + [k[x] for x in sorted(k)]
                if k:
                    nm = nm + '(' + ','.join(sorted(k)) + ')'
                return I.call_uf(nm, [ref] + [I.hashable(x) for x in args], sp[2])
            return ModelV(name, app)
        if isinstance(sp, tuple) and sp[0] == 'model':
            return ModelV(name, lambda I, a, k: sp[1](I, v, *a, **k))
        if isinstance(sp, tuple) and sp[0] == 'prop':
            return sp[1](self, v)
        raise Unsupported('spec %r' % (sp,))

    def hashable(self, v):
        if isinstance(v, ListV) and v.concrete:
            return tuple(self.hashable(x) for x in v.items())
        if isinstance(v, ListV) and getattr(v, 'src', None) is not None:
            return RefV('any', v.src)
        return v

    def bind(self, x, obj, owner):
        if isinstance(x, property):
            return self.call(x.fget, [obj], {}, owner=owner)
        if isinstance(x, staticmethod):
            return x.__func__
        if isinstance(x, classmethod):
            return BoundV(x.__func__, obj.cls if isinstance(obj, (ObjV, RefV)) else obj)
        if inspect.isfunction(x) or isinstance(x, (types.BuiltinFunctionType, types.WrapperDescriptorType,
                                                   types.MethodDescriptorType, FuncV)):
            return BoundV(x, obj)
        return self.lift(x)

    def class_attr(self, v, cls, name, default=MISSING):
        if isinstance(cls, type):
            for c in cls.__mro__:
                if name in c.__dict__:
                    if c is object and not name.startswith('__'):
                        continue
                    return self.bind(c.__dict__[name], v, c)
        if default is not MISSING:
            return default
        if isinstance(v, RefV):
            raise Unsupported('attribute %s of %r not specified' % (name, v))
        raise PyExc(AttributeError, ('%s' % name,))

    def setattr(self, o, name, val):
        if isinstance(o, ObjV):
            p = inspect.getattr_static(o.cls, name, None) if isinstance(o.cls, type) else None
            if isinstance(p, property) and p.fset is not None:
                self.call(p.fset, [o, val], {})
                return
            self.set_attr(o, name, val)
        elif isinstance(o, RefV):
            self.refwrites.add(name)
            self.trail.append(('undo', lambda n=name: self.refwrites.discard(n)))
            self.event('setattr', (o, name, val))
        elif isinstance(o, FuncV):
            o.attrs[name] = val
        elif isinstance(o, OpaqueV):
            if o.free and '__setattr__' in o.hooks:
                self.call(o.hooks['__setattr__'], [name, val], {})
        elif hasattr(o, 'set_attr'):
            o.set_attr(self, name, val)
        else:
            raise Unsupported('setattr on %r' % (o,))

    def event(self, name, data):
        self.events.append(Piece((), True, (name,) + tuple(data)))

    def lift(self, v):
        if isinstance(v, list):
            return self.mklist([self.lift(x) for x in v])
        if isinstance(v, (set, frozenset)):
            return self.born(SetV([Piece((), True, self.lift(x)) for x in sorted(v, key=repr)]))
        if isinstance(v, dict):
            return self.born(DictV([Piece((), True, (self.lift(k), self.lift(x))) for k, x in v.items()]))
        if isinstance(v, tuple) and type(v) is tuple:
            return tuple(self.lift(x) for x in v)
        return v

    def native(self, v):
        """concrete native python value or raise Unsupported"""
        if isinstance(v, ListV):
            if not v.concrete:
                raise Unsupported('symbolic list')
            r = [self.native(x) for x in v.items()]
            return r
        if isinstance(v, SetV):
            if not v.concrete:
                raise Unsupported('symbolic set')
            return {self.native(x) for x in v.items()}
        if isinstance(v, DictV):
            if not v.concrete:
                raise Unsupported('symbolic dict')
            return {self.native(p.value[0]): self.native(p.value[1]) for p in v.pieces}
        if isinstance(v, tuple):
            return tuple(self.native(x) for x in v)
        if isinstance(v, Sym) or is_z3(v):
            raise Unsupported('symbolic value %r' % (v,))
        return v

    def is_native(self, v):
        try:
            self.native(v)
            return True
        except Unsupported:
            return False

    # --------------------------------------------------------------- truth, eq
    def nonempty(self, c):
        self.touch(c)
        fs = []
        for p in c.pieces:
            if p.guard is True and not p.vars:
                return True
            fs.append(Exists(p.vars, B(p.guard)) if p.vars else p.guard)
        if isinstance(c, DictV) and c.sym:
            k = z3.Const('k!%d' % self.tag(), sort_of(c.sym[2]))
            fs.append(Exists([k], c.sym[0](k)))
        return Or(*fs) if fs else False

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if is_z3(v):
            if z3.is_bool(v):
                return v
            return v != 0
        if isinstance(v, (ListV, SetV, DictV)):
            return self.nonempty(v)
        if isinstance(v, RefV) and hasattr(type(v), 'truth'):
            return v.truth(self)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, StrV):
            return True if any(isinstance(p, str) and p for p in v.parts) else self.term(v) != self.lit('')
        if isinstance(v, RefV):
            if v.cls is str:
                return v.term != self.lit('')
            if v.cls == 'any':
                raise Unsupported('truth of untyped reference')
            sp, _ = self.spec_of(v.cls, '__bool__')
            if sp is not None:
                return self.truth(self.call(self.getattr(v, '__bool__'), [], {}))
            if isinstance(v.cls, type) and (hasattr(v.cls, '__len__') or hasattr(v.cls, '__bool__')) and v.cls is not type:
                sp, _ = self.spec_of(v.cls, '__len__')
                n = self.call(self.getattr(v, '__len__'), [], {})
                return self.truth(n)
            return True
        if isinstance(v, ObjV):
            for m in ('__bool__', '__len__'):
                if isinstance(v.cls, type) and hasattr(v.cls, m) and inspect.isfunction(inspect.getattr_static(v.cls, m)):
                    return self.truth(self.call(self.getattr(v, m), [], {}))
            return True
        if isinstance(v, OpaqueV):
            self.opaque_test(v, what='truth of ' + v.why)
            return self.fresh('opaque', z3.BoolSort())
        if isinstance(v, (FuncV, BoundV, ModelV)):
            return True
        if hasattr(v, 'truth'):
            return v.truth(self)
        if isinstance(v, Sym):
            raise Unsupported('truth of %r' % (v,))
        return bool(v)

    def test(self, v):
        return self.decide(self.truth(v))

    def py_eq(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if hasattr(x, 'py_eq') and isinstance(x, Sym):
                return x.py_eq(self, y)
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            self.opaque_test(a, b)
            return self.fresh('opq', z3.BoolSort())
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.py_eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            x, y = (a, b) if isinstance(a, ObjV) else (b, a)
            m = inspect.getattr_static(x.cls, '__eq__', None) if isinstance(x.cls, type) else None
            if inspect.isfunction(m):
                r = self.call(BoundV(m, x), [y], {})
                if r is NotImplemented:
                    return False
                return self.truth(r)
            if isinstance(y, ObjV):
                return False
            if isinstance(y, RefV):
                return self.term(x) == y.term
            return False
        if isinstance(a, (RefV, StrV)) or isinstance(b, (RefV, StrV)):
            if a is None or b is None:
                o = a if b is None else b
                if isinstance(o, StrV):
                    return False
                return self.is_none(o)
            if isinstance(a, StrV) or isinstance(b, StrV):
                o = a if isinstance(b, StrV) else b
                if isinstance(o, RefV) and o.cls not in (str, 'any'):
                    return False
                if not isinstance(o, (RefV, StrV, str)):
                    return False
                return self.term(a) == self.term(b)
            if isinstance(a, RefV) and isinstance(b, RefV):
                if isinstance(a.cls, type) and isinstance(b.cls, type):
                    if not (issubclass(a.cls, b.cls) or issubclass(b.cls, a.cls)):
                        return False
                for x, y in ((a, b), (b, a)):
                    sp, _ = self.spec_of(x.cls, '__eq__')
                    if sp == 'term':
                        return a.term == b.term
                    if sp is not None:
                        return self.truth(self.spec_value(x, x, '__eq__', sp, None).fn(self, [y], {}))
                x = a if isinstance(a.cls, type) else b
                m = inspect.getattr_static(x.cls, '__eq__', None) if isinstance(x.cls, type) else None
                if inspect.isfunction(m) and x.cls is not type:
                    r = self.call(BoundV(m, x), [b if x is a else a], {})
                    return self.truth(r)
                return a.term == b.term
            o, r = (b, a) if isinstance(a, RefV) else (a, b)
            # r: RefV, o: native or container
            if isinstance(o, (ListV, SetV, DictV)):
                if r.cls == 'any':
                    raise Unsupported('eq of untyped reference and container')
                return False
            if isinstance(r.cls, type) and not is_z3(o) and not isinstance(o, r.cls) and r.cls is not type:
                return False
            if r.cls is type and not isinstance(o, type):
                return False
            return r.term == self.term(o)
        if isinstance(a, (ListV,)) and isinstance(b, (ListV,)):
            self.touch(a), self.touch(b)
            if (a.kind == 'tuple') != (b.kind == 'tuple'):
                return False
            if a.concrete and b.concrete:
                if len(a.pieces) != len(b.pieces):
                    return False
                return And(*[self.py_eq(x, y) for x, y in zip(a.items(), b.items())])
            if a.concrete and not a.pieces:
                return Not(self.nonempty(b))
            if b.concrete and not b.pieces:
                return Not(self.nonempty(a))
            if a.length is not None and b.length is not None and a.at and b.at:
                i = z3.Int('q!%d' % self.tag())
                e = self.quiet(lambda: self.py_eq(a.at(i), b.at(i)))
                return And(a.length == b.length, ForAll([i], Implies(And(i >= 0, i < a.length), e)))
            raise Unsupported('equality of symbolic lists')
        if isinstance(a, SetV) and isinstance(b, SetV):
            return And(self.subset(a, b), self.subset(b, a))
        if isinstance(a, DictV) and isinstance(b, DictV) and a.concrete and b.concrete:
            if len(a.pieces) != len(b.pieces):
                return False
            fs = []
            for p in a.pieces:
                h = [q for q in b.pieces if self.py_eq(p.value[0], q.value[0]) is True]
                if not h:
                    x, y = SetV(self._live_items(a)), SetV(self._live_items(b))
                    return And(self.subset(x, y), self.subset(y, x))
                fs.append(self.py_eq(p.value[1], h[0].value[1]))
            return And(*fs)
        if isinstance(a, DictV) and isinstance(b, DictV):
            self.touch(a), self.touch(b)
            x, y = SetV(self._live_items(a)), SetV(self._live_items(b))
            return And(self.subset(x, y), self.subset(y, x))
        if is_z3(a) or is_z3(b):
            if a is None or b is None or isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
                return False
            if is_bool(a) and is_bool(b):
                return Iff(a, b)
            a2, b2 = self.num2(a, b)
            return a2 == b2
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (ListV, SetV, DictV)) != isinstance(b, (ListV, SetV, DictV)):
                return False
            if type(a) is not type(b):
                return False
            return False
        try:
            return bool(a == b)
        except Exception:
            return a is b

    def quiet(self, thunk):
        """evaluate under a binder: no decisions may be taken"""
        rs = self.explore(thunk)
        if len(rs) != 1 or rs[0].kind != 'normal':
            fs = []
            for r in rs:
                if r.kind != 'normal':
                    raise Unsupported('exception under binder')
                v = r.value
                if not is_bool(v):
                    raise Unsupported('branching value under binder')
                fs.append(And(*([f for t, f in r.pc if t == 'dec'] + [v])))
            res = Or(*fs)
        else:
            res = rs[0].value
        made = set()
        for r in rs:
            made |= {c.decl().name() for c in r.fresh}
        if made and (made & free_consts(res)):
            raise Unsupported('fresh value under binder')
        for r in rs:
            self.approx.extend(r.approx)
        return res

    def num2(self, a, b):
        def n(x):
            if isinstance(x, bool):
                return z3.IntVal(int(x))
            if isinstance(x, int):
                return z3.IntVal(x)
            if isinstance(x, float):
                return real(x)
            if z3.is_bool(x):
                return z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if z3.is_arith(x):
                return x
            raise Unsupported('number expected: %r' % (x,))
        a, b = n(a), n(b)
        if z3.is_int(a) and z3.is_real(b):
            a = z3.ToReal(a)
        if z3.is_real(a) and z3.is_int(b):
            b = z3.ToReal(b)
        return a, b

    def is_none(self, v):
        if v is None:
            return True
        if isinstance(v, RefV):
            return v.term == self.NONE if v.cls == 'any' else False
        if isinstance(v, OpaqueV):
            if getattr(v, 'present', False):
                return False
            self.opaque_test(v, what='is None of ' + v.why)
            return self.fresh('opq', z3.BoolSort())
        return False

    def py_is(self, a, b):
        if a is None or b is None:
            return self.is_none(b if a is None else a)
        if isinstance(a, RefV) and isinstance(b, RefV):
            return a.term == b.term
        if isinstance(a, (RefV,)) or isinstance(b, (RefV,)):
            r, o = (a, b) if isinstance(a, RefV) else (b, a)
            if isinstance(o, type):
                return r.term == self.lit(o)
            if isinstance(o, bool):
                return r.term == self.lit(o) if r.cls == 'any' else False
            if isinstance(o, ObjV):
                return r.term == self.term(o)
            return False
        if is_bool(a) and is_bool(b):
            return Iff(a, b)
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            self.opaque_test(a, b)
            return self.fresh('opq', z3.BoolSort())
        if is_z3(a) or is_z3(b):
            return False
        return a is b

    def contains(self, c, x):
        if isinstance(c, tuple):
            return Or(*[self.py_eq(x, y) for y in c])
        if isinstance(c, (ListV, SetV, DictV)):
            self.touch(c)
            if self.library is not None and (isinstance(x, LibV) and c.pieces or any(
                    p.vars and isinstance(p.value[0] if isinstance(c, DictV) else p.value, LibV) for p in c.pieces)):
                return self.fresh('opq', z3.BoolSort())
            fs = []
            for p in c.pieces:
                y = p.value[0] if isinstance(c, DictV) else p.value
                if not p.vars:
                    fs.append(And(p.guard, self.py_eq(x, y)))
                else:
                    nv = [z3.Const('%s~%d' % (v.decl().name(), self.tag()), v.sort()) for v in p.vars]
                    pr = list(zip(p.vars, nv))
                    e = self.quiet(lambda: self.py_eq(x, subst(y, pr)))
                    fs.append(Exists(nv, And(subst(p.guard, pr), e)))
            if isinstance(c, DictV) and c.sym:
                fs.append(c.sym[0](x))
            return Or(*fs) if fs else False
        if isinstance(c, OpaqueV) or isinstance(x, OpaqueV):
            self.opaque_test(c, x)
            return self.fresh('opq', z3.BoolSort())
        if isinstance(c, ObjV) or isinstance(c, RefV):
            return self.truth(self.call(self.getattr(c, '__contains__'), [x], {}))
        if hasattr(c, 'contains'):
            return c.contains(self, x)
        if isinstance(c, StrV) or isinstance(x, StrV) or isinstance(x, RefV) and isinstance(c, (str, RefV)):
            return self.call_uf('str_contains', [c, x], BOOL)
        if isinstance(c, (str,)) and isinstance(x, str):
            return x in c
        c2 = self.lift(c)
        if c2 is not c:
            return self.contains(c2, x)
        if self.is_native(x):
            return x in c
        try:
            it = list(c)
        except TypeError:
            raise Unsupported('membership in %r' % (c,))
        return Or(*[self.py_eq(x, self.lift(y)) for y in it])

    def subset(self, a, b):
        fs = []
        for p in a.pieces:
            y = p.value[0] if isinstance(a, DictV) else p.value
            if not p.vars:
                fs.append(Implies(p.guard, self.contains(b, y)))
            else:
                nv = [z3.Const('%s~%d' % (v.decl().name(), self.tag()), v.sort()) for v in p.vars]
                pr = list(zip(p.vars, nv))
                e = self.quiet(lambda: self.contains(b, subst(y, pr)))
                fs.append(ForAll(nv, Implies(subst(p.guard, pr), e)))
        return And(*fs) if fs else True

    def length(self, c):
        if isinstance(c, (tuple, str)):
            return len(c)
        if isinstance(c, ListV):
            self.touch(c)
            if c.length is not None:
                return c.length
            if c.concrete:
                return len(c.pieces)
        if isinstance(c, (SetV, DictV)):
            self.touch(c)
            if c.concrete:
                vals = c.items() if isinstance(c, SetV) else [p.value[0] for p in c.pieces]
                n, kept = 0, []
                ok = True
                for v in vals:
                    e = [self.py_eq(v, k) for k in kept]
                    if any(x is True for x in e):
                        continue
                    if any(x is not False for x in e):
                        ok = False
                        break
                    kept.append(v)
                if ok:
                    return len(kept)
        if isinstance(c, (ListV, SetV, DictV)):
            if isinstance(c, (SetV, DictV)) and not getattr(c, 'sym', None) and all(not p.vars for p in c.pieces):
                ks = [p.value[0] if isinstance(c, DictV) else p.value for p in c.pieces]
                if all(self.py_eq(x, y) is False for i, x in enumerate(ks) for y in ks[:i]):
                    return z3.Sum([z3.If(B(p.guard), 1, 0) for p in c.pieces])
            if isinstance(c, ListV) and all(not p.vars for p in c.pieces):
                return z3.Sum([z3.If(B(p.guard), 1, 0) for p in c.pieces])
            key = (type(c).__name__,) + tuple((tuple(v.get_id() for v in p.vars), id(p)) for p in c.pieces)
            n = self.len_cache.get(key)
            if n is None:
                # a function of everything the elements depend on, so that it follows when a loop is generalised
                bound = set(v.decl().name() for p in c.pieces for v in p.vars)
                cs = {}
                for p in c.pieces:
                    for e in ([] if p.guard is True or p.guard is False else [p.guard]):
                        const_terms(e, cs)
                    for v in terms_in(p.value):
                        const_terms(v, cs)
                cs = [cs[k] for k in sorted(cs) if k not in bound]
                n = self.fn('len!%d' % self.tag(), *([x.sort() for x in cs] + [z3.IntSort()]))(*cs)
                self.len_cache[key] = n
                self._keep = getattr(self, '_keep', [])
                self._keep.append(list(c.pieces))
            self.assume(z3.And(n >= 0, (n == 0) == Not(self.nonempty(c))))
            if isinstance(c, ListV) and len(c.pieces) == 1 and c.pieces[0].vars:
                # more than one element exactly when two different bindings are present
                p = c.pieces[0]
                two = []
                for k in (1, 2):
                    two.append([(v, z3.Const('%s~l%d' % (v.decl().name().split('~')[0], self.tag()), v.sort())) for v in p.vars])
                g = [B(subst(Piece((), p.guard, True), t).guard) for t in two]
                vs = [b for t in two for _, b in t]
                diff = Or(*[x[1] != y[1] for x, y in zip(*two)])
                self.assume((n >= 2) == z3.Exists(vs, And(g[0], g[1], diff)))
                if c.within is not None:
                    v, w = p.vars[0], z3.Int('%s~w%d' % (p.vars[0].decl().name().split('~')[0], self.tag()))
                    gw = B(subst(Piece((), p.guard, True), [(v, w)]).guard)
                    self.assume(z3.And(n <= c.within, (n == c.within) == z3.ForAll([w], z3.Implies(z3.And(w >= 0, w < c.within), gw))))
            return n
        if isinstance(c, (ObjV, RefV)):
            return self.call(self.getattr(c, '__len__'), [], {})
        if isinstance(c, OpaqueV):
            if c.free and '__len__' in c.hooks:
                return self.call(c.hooks['__len__'], [], {})
            return c.derived('') if c.free else OpaqueV('len')
        if hasattr(c, 'length'):
            return c.length(self)
        if isinstance(c, Sym) or is_z3(c):
            raise Unsupported('len of %r' % (c,))
        try:
            return len(c)
        except TypeError:
            raise PyExc(TypeError, ())

    def some_of(self, c, pred):
        fs = []
        for p in c.pieces:
            if p.single:
                fs.append(pred(p.value))
                continue
            nv = [z3.Const('%s~%d' % (v.decl().name(), self.tag()), v.sort()) for v in p.vars]
            pr = list(zip(p.vars, nv))
            f = self.quiet(lambda: pred(subst(p.value, pr)))
            fs.append(Exists(nv, B(And(subst(p.guard, pr), f))))
        return Or(*fs) if fs else False

    # ------------------------------------------------------------ isinstance
    def isinstance_(self, v, cls):
        if isinstance(cls, tuple):
            return Or(*[self.isinstance_(v, c) for c in cls])
        if isinstance(cls, ListV):
            return self.some_of(cls, lambda c: self.isinstance_(v, c))
        if isinstance(cls, RefV):
            if isinstance(v, RefV):
                return self.sub(self.dyn(v.term), cls.term)
            raise Unsupported('isinstance of symbolic class')
        if cls is None:
            raise PyExc(TypeError, ())
        if isinstance(v, LibV) and v.pycls is not None and isinstance(cls, type):
            return issubclass(v.pycls, cls)
        if isinstance(v, OpaqueV):
            self.opaque_test(v, what='isinstance of ' + v.why)
            return self.fresh('opq', z3.BoolSort())
        if isinstance(v, RefV):
            if v.cls is type:
                if cls is type:
                    return True
                if getattr(v, 'maybe', None) is None:
                    return issubclass(type, cls)
            if v.cls == 'any':
                return self.inst_pred(v, cls)
            if not isinstance(v.cls, type):
                return False
            if issubclass(v.cls, cls):
                return True
            if getattr(v, 'exact', False):
                return False
            if issubclass(cls, v.cls):
                return self.inst_pred(v, cls)
            return False
        if isinstance(v, ObjV):
            return isinstance(v.cls, type) and issubclass(v.cls, cls)
        if isinstance(v, StrV):
            return issubclass(str, cls)
        if isinstance(v, ListV):
            return issubclass({'list': list, 'tuple': tuple, 'gen': types.GeneratorType,
                               'deque': collections.deque}.get(v.kind, list), cls)
        if isinstance(v, SetV):
            return issubclass(set, cls)
        if isinstance(v, DictV):
            return issubclass(collections.defaultdict if v.default else dict, cls)
        if isinstance(v, (FuncV, ModelV, BoundV)):
            return issubclass(types.FunctionType, cls)
        if hasattr(v, 'pycls'):
            return issubclass(v.pycls, cls)
        if is_z3(v):
            if z3.is_bool(v):
                return issubclass(bool, cls)
            if z3.is_int(v):
                return issubclass(int, cls)
            return issubclass(float, cls)
        return isinstance(v, cls)

    def inst_pred(self, v, cls):
        t = self.lit(cls)
        d = self.dyn(v.term)
        if isinstance(v.cls, type):
            self.assume(self.sub(d, self.lit(v.cls)))
        key = d.get_id()
        self._keepd = getattr(self, '_keepd', [])
        self._keepd.append(d)
        prev = self.asked.setdefault(key, [])
        for c in prev:
            if not issubclass(c, cls) and not issubclass(cls, c):
                self.assume(z3.Not(z3.And(self.sub(d, self.lit(c)), self.sub(d, t))))
        if cls not in prev:
            prev.append(cls)
        return self.sub(d, t)

    def issubclass_(self, a, cls):
        if isinstance(cls, tuple):
            return Or(*[self.issubclass_(a, c) for c in cls])
        if isinstance(cls, ListV):
            return self.some_of(cls, lambda c: self.issubclass_(a, c))
        if isinstance(a, type) and isinstance(cls, type):
            return issubclass(a, cls)
        if isinstance(a, (RefV, type)) and isinstance(cls, (RefV, type)):
            ta = a.term if isinstance(a, RefV) else self.lit(a)
            tc = cls.term if isinstance(cls, RefV) else self.lit(cls)
            return self.sub(ta, tc)
        if isinstance(a, OpaqueV) or isinstance(cls, OpaqueV):
            self.opaque_test(a, cls)
            return self.fresh('opq', z3.BoolSort())
        raise Unsupported('issubclass(%r, %r)' % (a, cls))


def terms_in(v):
    """the solver terms a value is made of"""
    if is_z3(v):
        return [v]
    if isinstance(v, RefV):
        return [v.term]
    if isinstance(v, StrV):
        return [t for p in v.parts for t in terms_in(p)]
    if isinstance(v, (tuple, list)):
        return [t for p in v for t in terms_in(p)]
    return []


def const_terms(e, acc):
    """name -> term of the uninterpreted constants in e"""
    seen, st = set(), [e]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.decl().name().startswith('lit:'):
            acc[e.decl().name()] = e
        if z3.is_quantifier(e):
            st.append(e.body())
        else:
            st.extend(e.children())
    return acc


def real(x):
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
        raise Unsupported('non-finite float')
    if isinstance(x, float):
        from fractions import Fraction
        f = Fraction(x)
        return z3.RatVal(f.numerator, f.denominator)
    return z3.RealVal(x)
