"""Statements, expressions, calls and loop summaries."""
from core import *      # noqa: F401,F403
from core import _warnings
import core
import textwrap

_AST = {}


def source_of(fn):
    """AST of a real function, parsed from the current file in /repo"""
    code = fn.__code__
    key = (code.co_filename, code.co_firstlineno, fn.__name__)
    if key in _AST:
        return _AST[key]
    path = code.co_filename
    with open(path) as f:
        tree = ast.parse(f.read())
    best = None
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            ln = n.lineno
            if isinstance(n, ast.FunctionDef) and n.decorator_list:
                ln = min(ln, min(d.lineno for d in n.decorator_list))
            if ln == code.co_firstlineno and (isinstance(n, ast.Lambda) == (fn.__name__ == '<lambda>')):
                if isinstance(n, ast.Lambda):
                    names = [a.arg for a in n.args.args]
                    if tuple(names) != code.co_varnames[:code.co_argcount]:
                        continue
                    if best is not None:
                        raise Unsupported('ambiguous lambda')
                best = n
    if best is None:
        raise Unsupported('no source for %s' % fn)
    _AST[key] = best
    return best


def has_yield(node):
    st = list(node.body) if not isinstance(node, ast.Lambda) else []
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


LIBRARY = ('pandas', 'numpy', 'dask', 'distributed', 'tqdm', 'os', 'shutil', 'posixpath', 'cloudpickle', 'time', 'logging', '_io')


class Verifier(Interp):
    forks = {}
    library = None      # the library value calls with symbolic arguments return, for contracts about what is passed on


    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None, owner=None):
        kwargs = kwargs or {}
        args = list(args)
        if any(isinstance(a, StarV) for a in args) and not getattr(f, 'stars', False) and not (isinstance(f, OpaqueV) and f.free):
            raise Unsupported('starred symbolic collection')
        if isinstance(f, ModelV):
            return f.fn(self, args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, FuncV):
            return self.invoke(f.node, f.env, f.glob, f.name, f.defaults, f.kwdefaults, args, kwargs, f.owner)
        if isinstance(f, OpaqueV):
            if f.free:
                if '__call__' in f.hooks:
                    return self.call(f.hooks['__call__'], args, kwargs)
                return f.derived('')
            self.havoc_args(args, kwargs)
            return OpaqueV('call of ' + f.why)
        if isinstance(f, RefV):
            if f.cls is type:
                m = self.models.get('symbolic class')
                if m:
                    return m(self, f, args, kwargs)
            sp, _ = self.spec_of(f.cls, '__call__')
            if sp is not None:
                return self.call(self.getattr(f, '__call__'), args, kwargs)
            raise Unsupported('call of %r' % (f,))
        if isinstance(f, ObjV):
            return self.call(self.getattr(f, '__call__'), args, kwargs)
        if isinstance(f, Sym) or is_z3(f):
            if hasattr(f, 'call'):
                return f.call(self, args, kwargs)
            raise Unsupported('call of %r' % (f,))
        # native
        if inspect.ismethod(f):
            return self.call(f.__func__, [self.lift(f.__self__)] + args, kwargs)
        m = self.models.get(self.key_of(f))
        if m is not None:
            if self.library is not None and not getattr(m, 'forced', False) and (getattr(f, '__module__', None) or '').split('.')[0] in LIBRARY and \
                    any(isinstance(a, LibV) for a in args + list(kwargs.values())):
                self.used_models.add('library %s' % getattr(f, '__qualname__', f))
                return self.library
            self.used_models.add(getattr(f, '__qualname__', str(f)))
            return m(self, args, kwargs)
        if inspect.isfunction(f):
            c = self.contracts.get(self.key_of(f))
            if c is not None and not (self.depth == 0):
                self.used_contracts.add('%s.%s' % (f.__module__, f.__qualname__))
                return c(self, args, kwargs)
            if (f.__module__ or '').startswith(('featuretools', 'fv_selftest', 'contracts.')):
                node = source_of(f)
                g = f.__globals__
                env = None
                if f.__closure__:
                    env = Env(g)
                    for n, cell in zip(f.__code__.co_freevars, f.__closure__):
                        try:
                            env.vars[n] = self.lift(cell.cell_contents)
                        except ValueError:
                            pass
                own = owner or self.owner_of(f)
                if self.depth > 0:
                    self.inlined.add('%s.%s' % (f.__module__, f.__qualname__))
                return self.invoke(node, env, g, f.__qualname__, tuple(self.lift(x) for x in (f.__defaults__ or ())),
                                   {k: self.lift(v) for k, v in (f.__kwdefaults__ or {}).items()}, args, kwargs, own)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        return self.call_native(f, args, kwargs)

    @staticmethod
    def key_of(f):
        try:
            hash(f)
            return f
        except TypeError:
            return id(f)

    def owner_of(self, f):
        q = f.__qualname__.split('.')
        if len(q) >= 2 and q[-2] != '<locals>':
            m = sys.modules.get(f.__module__)
            o = m
            for p in q[:-1]:
                o = getattr(o, p, None)
            if isinstance(o, type):
                return o
        return None

    def construct(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            if inspect.isfunction(getattr(cls, '__init__', None)) and cls.__module__.startswith('featuretools'):
                pass
            o = ObjV(cls, {'args': tuple(args)})
            o.born = self.tag()
            return o
        if cls.__module__.startswith(('featuretools', 'fv_selftest', 'contracts.')):
            new = inspect.getattr_static(cls, '__new__', None)
            if isinstance(new, staticmethod):
                new = new.__func__
            if inspect.isfunction(new):
                o = self.call(new, [cls] + list(args), kwargs)
                if not (isinstance(o, (ObjV, RefV)) and isinstance(o.cls, type) and issubclass(o.cls, cls)):
                    return o
                init = inspect.getattr_static(cls, '__init__', None)
                if inspect.isfunction(init):
                    self.call(BoundV(init, o), args, kwargs)
                return o
            o = ObjV(cls)
            o.born = self.tag()
            init = inspect.getattr_static(cls, '__init__', None)
            if inspect.isfunction(init):
                self.call(BoundV(init, o), args, kwargs)
            return o
        return self.call_native(cls, args, kwargs)

    def call_native(self, f, args, kwargs):
        if any(isinstance(a, OpaqueV) for a in list(args) + list(kwargs.values())):
            return merged(*args, *kwargs.values())
        try:
            na = [self.native(a) for a in args]
            nk = {k: self.native(a) for k, a in kwargs.items()}
        except Unsupported:
            if self.library is not None and (getattr(f, '__module__', None) or '').split('.')[0] in LIBRARY:
                self.used_models.add('library %s' % getattr(f, '__qualname__', f))
                return self.library
            if isinstance(getattr(f, '__self__', None), str) and f.__name__ in ('format', 'join'):
                return self.str_method(f.__self__, f.__name__, args, kwargs)
            raise Unsupported('call of %s.%s with symbolic arguments' % (getattr(f, '__module__', ''), getattr(f, '__qualname__', f)))
        mod = getattr(f, '__module__', None) or ''
        if not (mod.split('.')[0] in ('', 'builtins', 'math', 're', 'operator', 'itertools', 'collections', 'datetime',
                                      'numpy', 'string', 'functools', 'copy', '_operator', 'pandas', 'types', 'enum', 'json') or isinstance(getattr(f, '__self__', None), (str, tuple, int, float))):
            if self.library is not None and mod.split('.')[0] in LIBRARY:
                self.used_models.add('library %s' % getattr(f, '__qualname__', f))
                return self.library
            raise Unsupported('external call %s.%s' % (mod, getattr(f, '__qualname__', f)))
        try:
            with _warnings.catch_warnings():
                _warnings.simplefilter('ignore')
                return self.lift(f(*na, **nk))
        except Exception as e:
            raise PyExc(type(e), e.args)

    def havoc_args(self, args, kwargs):
        for a in list(args) + list(kwargs.values()):
            if isinstance(a, (ObjV, ListV, SetV, DictV)):
                self.mark_approx('unknown callee may change its arguments')

    def bind_args(self, a, defaults, kwdefaults, args, kwargs, name):
        out = {}
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        kwargs = dict(kwargs)
        if len(args) > len(pos) and not a.vararg:
            raise PyExc(TypeError, ('%s takes %d positional arguments' % (name, len(pos)),))
        for p, v in zip(pos, args):
            out[p] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[len(pos):])
        nd = len(defaults)
        for i, p in enumerate(pos):
            if p in out:
                if p in kwargs:
                    raise PyExc(TypeError, ('multiple values for %s' % p,))
                continue
            if p in kwargs:
                out[p] = kwargs.pop(p)
            elif i >= len(pos) - nd:
                out[p] = defaults[i - (len(pos) - nd)]
            else:
                raise PyExc(TypeError, ('missing argument %s of %s' % (p, name),))
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                out[k.arg] = kwargs.pop(k.arg)
            elif k.arg in kwdefaults:
                out[k.arg] = kwdefaults[k.arg]
            else:
                raise PyExc(TypeError, ('missing argument %s' % k.arg,))
        if a.kwarg:
            out[a.kwarg.arg] = self.born(DictV([Piece((), True, (k, v)) for k, v in kwargs.items()]))
        elif kwargs:
            raise PyExc(TypeError, ('unexpected keyword %s for %s' % (sorted(kwargs), name),))
        return out

    def invoke(self, node, penv, glob, name, defaults, kwdefaults, args, kwargs, owner):
        if self.depth > self.MAXDEPTH:
            raise Unsupported('inlining too deep at %s' % name)
        env = Env(glob, penv, owner)
        env.born = self.tag()
        env.fname = name
        env.vars.update(self.bind_args(node.args, defaults, kwdefaults, args, kwargs, name))
        if args:
            env.self_ = args[0]
        if isinstance(node, ast.Lambda):
            self.depth += 1
            try:
                return self.ev(node.body, env)
            finally:
                self.depth -= 1
        if self.stack.count(id(node)) > 6:
            raise Unsupported('recursion without contract: %s' % name)
        env.loops = {}
        k = 0
        for n in ast.walk(node):
            if isinstance(n, (ast.For, ast.While)):
                env.loops[id(n)] = k
                k += 1
        gen = has_yield(node)
        if gen:
            env.yields = self.mklist([], 'gen')
        self.depth += 1
        self.stack.append(id(node))
        try:
            try:
                self.block(node.body, env)
                r = None
            except ReturnSig as e:
                r = e.v
            return env.yields if gen else r
        finally:
            self.depth -= 1
            if self.stack:
                self.stack.pop()

    # -------------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            self.ex(s, env)

    def ex(self, s, env):
        m = getattr(self, 'ex_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        try:
            m(s, env)
        except Unsupported as e:
            if not getattr(e, 'line', None):
                e.line = s.lineno
                e.fname = env.fname
            raise

    def ex_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def ex_Pass(self, s, env):
        pass

    def ex_Return(self, s, env):
        raise ReturnSig(self.ev(s.value, env) if s.value else None)

    def ex_Break(self, s, env):
        raise BreakSig()

    def ex_Continue(self, s, env):
        raise ContinueSig()

    def ex_Import(self, s, env):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            self.set_env(env, a.asname or a.name.split('.')[0], m if a.asname else sys.modules[a.name.split('.')[0]])

    def ex_ImportFrom(self, s, env):
        import importlib
        pkg = env.glob.get('__package__')
        m = importlib.import_module(('.' * s.level) + (s.module or ''), pkg)
        for a in s.names:
            self.set_env(env, a.asname or a.name, getattr(m, a.name))

    def ex_Global(self, s, env):
        raise Unsupported('global')

    def ex_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def ex_Assert(self, s, env):
        if not self.test(self.ev(s.test, env)):
            raise PyExc(AssertionError, ())

    def ex_If(self, s, env):
        if self.library is not None and id(s) not in self.forks:
            # data-dependent code that only computes data: one outcome stands for all
            jumps = []

            def once():
                try:
                    self.if_(s, env)
                except ContinueSig:
                    jumps.append(s)
                    raise
            rs = self.explore(once)
            new = {}
            for r in rs:
                if r.kind != 'normal' or r.events or jumps:
                    break
                for kind, obj, key, val in r.writes:
                    old = obj.vars.get(key) if kind == 'env' else None
                    if kind != 'env' or not isinstance(val, LibV) or hasattr(val, 'owned') or hasattr(old, 'owned'):
                        break
                    new[(id(obj), key)] = (obj, key, val)
                else:
                    continue
                break
            else:
                if rs:
                    for obj, key, val in new.values():
                        self.set_env(obj, key, val)
                    for r in rs:
                        self.approx.extend(r.approx)
                    return
            self.forks[id(s)] = s
        self.if_(s, env)

    def if_(self, s, env):
        if self.test(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def ex_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(env, 'handling', None)
            e = env
            while cur is None and e is not None:
                cur = getattr(e, 'handling', None)
                e = e.parent
            if cur is None:
                raise Unsupported('bare raise')
            raise cur
        node = s.exc
        # message text is dropped: only the exception class is kept
        if isinstance(node, ast.Call):
            c = self.ev(node.func, env)
            if isinstance(c, type) and issubclass(c, BaseException):
                raise PyExc(c, ())
        v = self.ev(node, env)
        if isinstance(v, type):
            raise PyExc(v, ())
        if isinstance(v, ObjV):
            raise PyExc(v.cls, ())
        raise Unsupported('raise %r' % (v,))

    def ex_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        c = self.ev(h.type, env)
                        ok = isinstance(e.cls, type) and issubclass(e.cls, c if isinstance(c, (type, tuple)) else object)
                    if ok:
                        if h.name:
                            self.set_env(env, h.name, ObjV(e.cls, {'args': e.eargs}))
                        old = getattr(env, 'handling', None)
                        env.handling = e
                        try:
                            self.block(h.body, env)
                        finally:
                            env.handling = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            self.block(s.finalbody, env)
            raise
        self.block(s.finalbody, env)

    def ex_With(self, s, env):
        exits = []
        for it in s.items:
            cm = self.ev(it.context_expr, env)
            if hasattr(cm, 'enter'):
                v = cm.enter(self)
            elif isinstance(cm, OpaqueV):
                v = cm.derived('') if cm.free else OpaqueV('with')
            else:
                raise Unsupported('with %r' % (cm,))
            exits.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.block(s.body, env)

    def ex_FunctionDef(self, s, env):
        f = self.mkfunc(s, env, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            f = self.call(dv, [f], {})
        self.set_env(env, s.name, f)

    def mkfunc(self, s, env, name):
        df = tuple(self.ev(d, env) for d in s.args.defaults)
        kd = {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        return FuncV(s, env, env.glob, env.fname + '.<locals>.' + name, df, kd, env.owner)

    def ex_ClassDef(self, s, env):
        raise Unsupported('class definition')

    def ex_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.set_env(env, t.id, OpaqueV('deleted'))
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                self.delitem(o, k)
            else:
                raise Unsupported('del attribute')

    def delitem(self, o, k):
        if isinstance(o, DictV):
            self._m_dict_pop(o, k)
        elif isinstance(o, ListV) and o.concrete and isinstance(k, int):
            it = list(o.pieces)
            del it[k]
            self.set_pieces(o, it)
        elif hasattr(o, 'delitem'):
            o.delitem(self, k)
        elif isinstance(o, LibV):
            if '__delitem__' in o.hooks:
                self.call(o.hooks['__delitem__'], [k], {})
        else:
            raise Unsupported('del item')

    def ex_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def ex_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def ex_AugAssign(self, s, env):
        t = s.target
        cur = self.ev(self.as_load(t), env)
        v = self.ev(s.value, env)
        if isinstance(s.op, ast.Add) and isinstance(cur, ListV) and cur.kind == 'list':
            self._m_list_extend(cur, v)
            return
        if isinstance(s.op, ast.BitOr) and isinstance(cur, SetV):
            self._m_set_update(cur, v)
            return
        if isinstance(cur, LibV) and '__iop__' in cur.hooks:
            self.call(cur.hooks['__iop__'], [v], {})
        self.assign(t, self.binop(type(s.op).__name__, cur, v), env)

    @staticmethod
    def as_load(t):
        import copy
        t = copy.deepcopy(t)
        for n in ast.walk(t):
            if hasattr(n, 'ctx'):
                n.ctx = ast.Load()
        return t

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
            self.set_env(e, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts)
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            self.setitem(o, self.ev(t.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, elts):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, OpaqueV):
            return [v.derived('') if v.free else OpaqueV('unpacked')] * n
        if isinstance(v, tuple):
            it = list(v)
        elif isinstance(v, (ListV, SetV)) and v.concrete:
            self.touch(v)
            it = v.items()
        elif isinstance(v, ListV) and v.length is not None and v.at is not None and not star:
            if not self.decide(v.length == n):
                raise PyExc(ValueError, ())
            it = [v.at(z3.IntVal(i)) for i in range(n)]
        elif isinstance(v, ListV) and not star:
            if not self.decide(self.py_eq(self.length(v), n)):
                raise PyExc(ValueError, ())
            if n == 1:
                return [self.some(v)]
            raise Unsupported('unpack of symbolic list')
        elif isinstance(v, Sym) or is_z3(v):
            raise Unsupported('unpack of %r' % (v,))
        else:
            it = [self.lift(x) for x in v]
        if star:
            i = star[0]
            k = n - i - 1
            return it[:i] + [self.mklist(it[i:len(it) - k])] + it[len(it) - k:]
        if len(it) != n:
            raise PyExc(ValueError, ('unpack',))
        return it

    def some(self, c):
        """an element of a nonempty collection (which one is not known)"""
        for p in c.pieces:
            g = Exists(p.vars, B(p.guard)) if p.vars else p.guard
            if self.decide(g):
                if p.vars:
                    nv = [self.fresh('w', v.sort()) for v in p.vars]
                    pr = list(zip(p.vars, nv))
                    self.assume(subst(p.guard, pr))
                    return subst(p.value, pr)
                return p.value
        raise PyExc(IndexError, ())

    def setitem(self, o, k, v):
        if isinstance(o, DictV):
            if o.concrete and not isinstance(k, Sym):
                for i, p in enumerate(o.pieces):
                    if self.py_eq(p.value[0], k) is True:
                        ps = list(o.pieces)
                        ps[i] = Piece((), True, (p.value[0], v))
                        self.set_pieces(o, ps)
                        return
            self.add_piece(o, Piece((), True, (k, v)))
        elif isinstance(o, ListV) and o.concrete and isinstance(k, int):
            ps = list(o.pieces)
            try:
                ps[k] = Piece((), True, v)
            except IndexError:
                raise PyExc(IndexError, ())
            self.set_pieces(o, ps)
        elif isinstance(o, OpaqueV):
            if o.free and '__setitem__' in o.hooks:
                self.call(o.hooks['__setitem__'], [k, v], {})
        elif hasattr(o, 'setitem'):
            o.setitem(self, k, v)
        elif isinstance(o, (ObjV, RefV)):
            self.call(self.getattr(o, '__setitem__'), [k, v], {})
        else:
            raise Unsupported('item assignment on %r' % (o,))

    # -------------------------------------------------------------------- loops
    def iter_pieces(self, it):
        if isinstance(it, (ListV, SetV)):
            self.touch(it)
            return list(it.pieces)
        if isinstance(it, DictV):
            self.touch(it)
            ps = self._m_dict_keys(it).pieces
            return list(ps)
        if isinstance(it, tuple):
            return [Piece((), True, x) for x in it]
        if isinstance(it, (ObjV, RefV)):
            return self.iter_pieces(self.iterated(it))
        if isinstance(it, LibV):
            # any number of library values
            x = z3.Const('item!%d' % self.tag(), Obj)
            return [Piece((x,), self.freshfn('items', Obj, z3.BoolSort())(x), it.derived(''))]
        if isinstance(it, OpaqueV):
            raise Unsupported('iteration over ' + it.why)
        if hasattr(it, 'iter_pieces'):
            return it.iter_pieces(self)
        if isinstance(it, Sym) or is_z3(it):
            raise Unsupported('iteration over %r' % (it,))
        try:
            return [Piece((), True, self.lift(x)) for x in it]
        except TypeError as e:
            raise PyExc(TypeError, e.args)

    def iterated(self, it):
        """the list an object with its own __iter__ stands for"""
        n = 0
        while isinstance(it, (ObjV, RefV)) and n < 5:
            it = self.call(self.getattr(it, '__iter__'), [], {})
            n += 1
        return it

    def ex_For(self, s, env):
        it = self.ev(s.iter, env)
        e0 = env
        while e0 is not None and not hasattr(e0, 'loops'):
            e0 = e0.parent
        spec = self.loop_specs.get((env.fname, e0.loops.get(id(s)) if e0 else None))
        if spec is not None:
            return spec(self, s, env, it)
        live = isinstance(it, ListV) and it.kind == 'list'
        it = self.iterated(it)
        pieces = self.iter_pieces(it)
        i = 0
        try:
            while i < len(pieces):
                p = pieces[i]
                i += 1
                if not p.vars:
                    if p.guard is True or self.decide(p.guard):
                        try:
                            self.assign(s.target, p.value, env)
                            self.block(s.body, env)
                        except ContinueSig:
                            pass
                        if live and len(it.pieces) != len(pieces):
                            pieces = list(it.pieces)
                else:
                    def body(val):
                        self.assign(s.target, val, env)
                        self.block(s.body, env)
                    self.loop_many(p, body, it)
        except BreakSig:
            return
        self.block(s.orelse, env)

    def loop_many(self, p, body, it=None):
        nv = [z3.Const('%s~%d' % (v.decl().name(), self.tag()), v.sort()) for v in p.vars]
        pr = list(zip(p.vars, nv))
        guard, val = subst(p.guard, pr), subst(p.value, pr)

        def thunk():
            if guard is not True:
                self.assume(guard, 'guard')
            body(val)
        within = it.length if isinstance(it, ListV) and it.length is not None and len(it.pieces) == 1 and it.order == 'idx' else None
        vague = {}
        for attempt in range(8):
            rs = self.explore(thunk)
            if not rs:
                return
            folds, done = self.folds(nv, guard, rs, thunk, within)
            if folds is not None:
                rs = folds
            # an iteration starts with whatever the ones before it left in the variables it reads
            new = {k: w for k, w in self.carried_state(rs).items() if k not in done and k not in vague}
            if not new:
                break
            for k, (kind, obj, key, vals) in new.items():
                old = (obj.vars if kind == 'env' else {} if kind == 'c' else obj.attrs).get(key, MISSING)
                free = isinstance(old, OpaqueV) and old.free and all(isinstance(v, OpaqueV) and v.free for v in vals)
                if kind == 'c':
                    vague[k] = None
                    self.make_unknown(obj)
                    continue
                vague[k] = joined([old] + list(vals), 'loop-carried %s' % key) if free else OpaqueV('loop-carried %s' % key)
                self.apply_write(kind, obj, key, vague[k])
        else:
            raise Unsupported('loop state does not settle')
        self.summarize(nv, guard, rs, set(done) | {('c', k[1], None) for k in vague if k[0] == 'c'}, within)
        for env, key, v in done.values():
            self.set_env(env, key, v)
        for k, (kind, obj, key, vals) in self.carried_state(rs).items():
            if k in vague and kind == 'c':
                self.make_unknown(obj)
            elif k in vague:
                self.apply_write(kind, obj, key, vague[k])

    def carried_state(self, rs):
        """{key: (kind, object, name, values written)} of the variables and attributes some iterations read and some write"""
        reads, carried, out = set(), set(), {}
        for r in rs:
            reads |= r.frame.reads
            carried |= r.carried
        for r in rs:
            for kind, obj, key, new in r.writes:
                rk = (kind, id(obj), key) if kind in ('env', 'attr') else ('c', id(obj))
                if kind not in ('env', 'attr') and not (self.library is not None and isinstance(obj, (DictV, ListV, SetV))):
                    continue
                if rk in reads or rk in carried or kind == 'replace':
                    out.setdefault(rk, (kind if len(rk) == 3 else 'c', obj, key, []))[3].append(new)
        return out

    def make_unknown(self, d):
        """a collection of anything (contracts about library values only)"""
        if isinstance(d, ListV):
            i = z3.Int('i!%d' % self.tag())
            n = self.fresh('unknown length', z3.IntSort())
            self.assume(n >= 0)
            e = joined([p.value for p in d.pieces], 'element')
            self.set_pieces(d, [Piece((i,), z3.And(i >= 0, i < n), e)])
            d.length, d.order, d.at = n, 'idx', lambda ix: e
            return
        if isinstance(d, SetV):
            e = joined([p.value for p in d.pieces], 'element')
            x = z3.Const('x!%d' % self.tag(), Obj)
            self.set_pieces(d, [Piece((x,), self.freshfn('members', Obj, z3.BoolSort())(x), e)])
            return
        e = joined([p.value[1] for p in d.pieces], 'entry')
        old = d.sym
        self.trail.append(('undo', lambda: setattr(d, 'sym', old)))
        self.set_pieces(d, [])
        known = self.fn('unknown dictionary %d' % self.tag(), Obj, z3.BoolSort())
        d.sym = (lambda k: known(self.term(k)), lambda k: e, ANY)

    # accumulating loops: x = max(x, f(item)), x += k, x = x or f(item), ...
    def folds(self, nv, guard, rs, thunk, within):
        """(results with the accumulators made arbitrary, {write key: (env, name, final value)}); (None, {}) when there is nothing of the kind"""
        normal = [r for r in rs if r.kind == 'normal']
        reads, carried = set(), set()
        for r in normal:
            reads |= r.frame.reads
            carried |= r.carried
        cand = {}
        for r in normal:
            for kind, obj, key, new in r.writes:
                rk = ('env', id(obj), key)
                if kind == 'env' and (rk in carried or rk in reads):
                    v0 = obj.vars.get(key, MISSING)
                    if isinstance(v0, (bool, int)) or is_z3(v0) and v0.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT, z3.Z3_BOOL_SORT):
                        cand[rk] = (obj, key, v0)
        if not cand:
            return None, {}
        cs = {}
        for rk, (obj, key, v0) in cand.items():
            z0 = z3.BoolVal(v0) if isinstance(v0, bool) else z3.IntVal(v0) if isinstance(v0, int) else v0
            srt = z0.sort()
            if srt.kind() == z3.Z3_INT_SORT and any(is_z3(w) and w.sort().kind() == z3.Z3_REAL_SORT
                                                    for r in normal for k_, o_, n_, w in r.writes if k_ == 'env' and o_ is obj and n_ == key):
                z0, srt = z3.ToReal(z0), z3.RealSort()
            cs[rk] = (z3.Const('acc!%d' % self.tag(), srt), z0)

        def again():
            for rk, (obj, key, v0) in cand.items():
                self.set_env(obj, key, cs[rk][0])
            thunk()
        mark = len(self.approx)
        rs2 = self.explore(again)
        names = {c.decl().name() for c, _ in cs.values()}
        if any(r.kind != 'normal' for r in rs2) or any(r.approx for r in rs2):
            return None, {}
        out = {}
        for rk, (obj, key, v0) in cand.items():
            c, z0 = cs[rk]
            cases = []
            for r in rs2:
                v = c
                for kind, o, k_, new in r.writes:
                    if kind == 'env' and o is obj and k_ == key:
                        v = new
                if isinstance(v, bool):
                    v = z3.BoolVal(v)
                elif isinstance(v, int):
                    v = z3.IntVal(v)
                if not is_z3(v):
                    return None, {}
                if v.sort() != c.sort():
                    if v.sort().kind() == z3.Z3_INT_SORT and c.sort().kind() == z3.Z3_REAL_SORT:
                        v = z3.ToReal(v)
                    else:
                        return None, {}
                if free_consts(v) & (names - {c.decl().name()}):
                    return None, {}
                cases.append((r, v))
            f = self.fold_of(nv, guard, c, z0, cases, names, within)
            if f is None:
                return None, {}
            out[rk] = (obj, key, f)
        for r in rs2:
            # whatever else depends on the accumulators is known only up to their (arbitrary) value at that time
            r.fresh = list(r.fresh) + [c for c, _ in cs.values()]
            r.writes = [w for w in r.writes if not (w[0] == 'env' and ('env', id(w[1]), w[2]) in cand)]
            if r.writes and any(free_consts(f) & names for t, f in r.pc if is_z3(f)):
                r.approx = list(r.approx) + ['branch on an accumulator']
        return rs2, out

    def fold_of(self, nv, guard, c, z0, cases, names, within):
        cn = c.decl().name()
        split = []

        def rec(r, cond, v):
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                rec(r, cond + [v.arg(0)], v.arg(1))
                rec(r, cond + [z3.Not(v.arg(0))], v.arg(2))
            else:
                split.append((r, cond, v))
        for r, v in cases:
            rec(r, [B(f) for t, f in r.pc if t == 'dec'], z3.simplify(v) if not z3.is_app_of(v, z3.Z3_OP_ITE) else v)
        fr = lambda t: free_consts(t) & names
        hyp = lambda r: [B(f) for t, f in r.pc if t == 'fact'] + [B(guard)]

        def valid(r, hs, goal):
            s = z3.Solver()
            limit(s, self.timeout)
            s.add(*self.axioms)
            s.add(*[g for _, g in self.pc])
            s.add(*hyp(r))
            s.add(*hs)
            s.add(z3.Not(goal))
            return s.check() == z3.unsat
        sk = {id(r): self.skolem(nv, r) for r, _ in cases}
        S = lambda r, f: subst(f, sk[id(r)])
        pure = lambda cond: B(And(*[x for x in cond if not fr(x)]))
        if c.sort().kind() == z3.Z3_BOOL_SORT:
            if any(fr(x) for r, cond, v in split for x in cond if not x.eq(c) and not x.eq(z3.Not(c))):
                return None
            at = lambda val: [z3.And(B(guard), S(r, z3.substitute(z3.And(*(cond + [v])) if cond else v, (c, z3.BoolVal(val))))) for r, cond, v in split]
            no = lambda val: [z3.And(B(guard), S(r, z3.substitute(z3.And(*(cond + [z3.Not(v)])) if cond else z3.Not(v), (c, z3.BoolVal(val))))) for r, cond, v in split]
            keeps_true = all(valid(r, cond + [c], v) for r, cond, v in split)
            keeps_false = all(valid(r, cond + [z3.Not(c)], z3.Not(v)) for r, cond, v in split)
            if keeps_true:
                return z3.Or(z0, z3.Exists(nv, z3.Or(*at(False))))
            if keeps_false:
                return z3.And(z0, z3.Not(z3.Exists(nv, z3.Or(*no(True)))))
            return None
        # counting
        steps = [z3.simplify(v - c) for r, cond, v in split]
        if all(z3.is_int_value(d) or z3.is_rational_value(d) for d in steps) and not any(fr(x) for r, cond, v in split for x in cond):
            ks = {d.as_fraction() if z3.is_rational_value(d) else d.as_long() for d in steps} - {0}
            if len(ks) == 1 and c.sort().kind() == z3.Z3_INT_SORT:
                k = ks.pop()
                on = [z3.And(*([B(guard)] + [S(r, x) for x in cond])) for (r, cond, v), d in zip(split, steps) if d.as_long() != 0]
                bound = [z3.Const('%s!c%d' % (v.decl().name().split('~')[0], self.tag()), v.sort()) for v in nv]
                g = z3.substitute(z3.Or(*on), *list(zip(nv, bound)))
                l = self.born(ListV([Piece(tuple(bound), g, tuple(bound) if len(bound) > 1 else RefV('item', bound[0]) if bound[0].sort() == Obj else bound[0])]))
                if len(bound) == 1 and z3.is_int(bound[0]):
                    l.within = within
                return z0 + k * self.length(l)
            return None
        # largest / smallest
        gs = []
        for r, cond, v in split:
            if not v.eq(c) and not z3.simplify(v - c).eq(z3.IntVal(0)):
                if fr(v) or (gs and not gs[0].eq(v)):
                    return None
                gs.append(v)
        if not gs:
            return z0
        g = gs[0]
        isc = lambda v: not v.eq(g)
        elig = B(Or(*[pure(cond) for r, cond, v in split if not isc(v)]))
        for up in (True, False):
            le = (lambda a, b: a <= b) if up else (lambda a, b: a >= b)
            if all(valid(r, cond + [elig], le(g, c)) if isc(v) else valid(r, cond, le(c, g)) for r, cond, v in split):
                F = self.fresh('extreme', c.sort())
                r0 = cases[0][0]
                gg, ee = S(r0, g), S(r0, elig)
                if len(cases) > 1 and any(free_consts(x) & {k.decl().name() for r, _ in cases for k in r.fresh} for x in (g, elig)):
                    return None
                self.assume(le(z0, F))
                self.assume(z3.ForAll(nv, z3.Implies(z3.And(B(guard), ee), le(gg, F))))
                self.assume(z3.Or(F == z0, z3.Exists(nv, z3.And(B(guard), ee, F == gg))))
                return F
        return None

    def skolem(self, nv, r):
        pr = []
        for c in r.fresh:
            f = self.fn('sk!%s' % c.decl().name(), *([v.sort() for v in nv] + [c.sort()]))
            pr.append((c, f(*nv)))
        return pr

    def summarize(self, nv, guard, rs, done=(), within=None):
        writes = {}
        order = []
        exits = []
        alldec = []
        for r in rs:
            sk = self.skolem(nv, r)
            r.sk = sk
            r.dec = And(*[subst(f, sk) for t, f in r.pc if t == 'dec'])
            for t, f in r.pc:
                if t == 'fact':
                    self.assume(ForAll(nv, Implies(And(guard, r.dec), subst(f, sk))))
            self.approx.extend(r.approx)
            if r.kind in ('raise', 'return', 'break'):
                exits.append(r)
        normal = [r for r in rs if r.kind == 'normal']
        if exits:
            if os.environ.get("FV_X"): print("EXITS", [(r.kind, str(r.value), getattr(r.value,"eargs",None), getattr(r.value,"line",None)) for r in exits][:3])
            E = Or(*[r.dec for r in exits])
            ex = Exists(nv, B(And(guard, E)))
            if self.decide(ex):
                w = [self.fresh('w', v.sort()) for v in nv]
                pw = list(zip(nv, w))
                self.assume(subst(B(And(guard, E)), pw))
                groups = []
                for r in exits:
                    for g in groups:
                        if self._same_exit(g[0], r):
                            g.append(r)
                            break
                    else:
                        groups.append([r])
                if len(groups) > 1:
                    self.mark_approx('first of several exits')
                chosen = groups[-1]
                for g in groups[:-1]:
                    if self.decide(subst(B(Or(*[r.dec for r in g])), pw)):
                        chosen = g
                        break
                else:
                    self.assume(subst(B(Or(*[r.dec for r in chosen])), pw))
                for r in chosen:
                    for t, f in r.pc:
                        if t == 'fact':
                            f = subst(subst(f, r.sk), pw)
                            self.assume(f if len(chosen) == 1 else Implies(subst(B(r.dec), pw), f))
                r = chosen[0]
                if len(chosen) > 1 and r.kind != 'break':
                    # locals differ between the merged exits; nothing is known about them if the exception is caught
                    for x in chosen:
                        for kind, obj, key, new in x.writes:
                            self.apply_write(kind, obj, key, OpaqueV('merged exits'))
                    r.writes = []
                if any(x.writes for x in normal):
                    self.havoc_writes([x for x in normal], 'early exit')
                for kind, obj, key, new in r.writes:
                    self.apply_write(kind, obj, key, subst(subst(new, r.sk), pw) if kind != 'append'
                                     else [subst(subst(q, r.sk), pw) for q in new])
                for ev_ in r.events:
                    self.events.append(subst(subst(ev_, r.sk), pw))
                if r.kind == 'raise':
                    raise PyExc(r.value.cls, r.value.eargs)
                if r.kind == 'return':
                    v = subst(subst(r.value, r.sk), pw)
                    if free_consts(v) & {x.decl().name() for x in w}:
                        self.mark_approx('first match')
                    raise ReturnSig(v)
                raise BreakSig()
        # generalise the effects of the normal iterations
        carried = set()
        for r in normal:
            carried |= r.carried
        allreads = set()
        for r in normal:
            allreads |= r.frame.reads
        wr = {}
        for r in normal:
            for kind, obj, key, new in r.writes:
                k = (kind if kind in ('env', 'attr') else 'c', id(obj), key)
                wr.setdefault(k, []).append((r, kind, obj, key, new))
        for k, lst in wr.items():
            kind, obj, key = lst[0][1], lst[0][2], lst[0][3]
            if k in done:
                continue
            rk = ('env', id(obj), key) if kind == 'env' else ('attr', id(obj), key) if kind == 'attr' else ('c', id(obj))
            car = rk in carried or (rk in allreads)
            if kind in ('env', 'attr'):
                vals = [x[4] for x in lst]
                same = all(self._same_const(v, vals[0]) for v in vals)
                if same and not (free_consts(vals[0]) & ({v.decl().name() for v in nv} | {c.decl().name() for r in normal for c in r.fresh})):
                    wrote = Or(*[x[0].dec for x in lst])
                    ex = Exists(nv, B(And(guard, wrote)))
                    if car:
                        self.apply_write(kind, obj, key, OpaqueV('loop-carried %s' % key))
                    elif self.decide(ex):
                        self.apply_write(kind, obj, key, vals[0])
                else:
                    self.apply_write(kind, obj, key, OpaqueV('loop variable %s' % (key,)))
            else:
                if car or any(x[1] == 'replace' for x in lst):
                    raise Unsupported('loop-carried container')
                # one element per iteration of a loop over an indexed list: an indexed list again
                mapped = isinstance(obj, ListV) and not obj.pieces and within is not None and len(rs) == 1 and len(lst) == 1 and \
                    len(lst[0][4]) == 1 and not lst[0][4][0].vars and lst[0][4][0].guard is True and len(nv) == 1
                if mapped:
                    v = subst(lst[0][4][0].value, lst[0][0].sk)
                    self.add_piece(obj, Piece(tuple(nv), guard, v))
                    obj.length, obj.order, obj.at = within, 'idx', (lambda ix, v=v: subst(v, [(nv[0], ix)]))
                    continue
                for (r, _, o, _, new) in lst:
                    for q in new:
                        q2 = subst(q, r.sk)
                        ps = list(q.vars)
                        npiece = Piece(tuple(nv) + tuple(ps), And(guard, r.dec, q2.guard), q2.value)
                        self.add_piece(o, npiece)
        for r in normal:
            for e in r.events:
                e2 = subst(e, r.sk)
                self.events.append(Piece(tuple(nv) + tuple(e2.vars), And(guard, r.dec, e2.guard), e2.value))

    def _same_exit(self, a, b):
        """two ways of leaving a loop that cannot be told apart afterwards"""
        if a.kind != b.kind or a.events or b.events or a.kind == 'break' and (a.writes or b.writes):
            return False
        if any(w[0] != 'env' for w in a.writes + b.writes):
            return False
        if a.kind == 'return':
            v, w = a.value, b.value
            return v is w or (isinstance(v, (bool, int, str, type(None))) and type(v) is type(w) and v == w)
        if a.kind == 'raise':
            return a.value.cls is b.value.cls
        return True

    def _same_const(self, a, b):
        if a is MISSING or b is MISSING:
            return a is b
        if a is b:
            return True
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            return False
        try:
            return self.py_eq(a, b) is True
        except Unsupported:
            return False

    def apply_write(self, kind, obj, key, new):
        if kind == 'env':
            self.set_env(obj, key, new if new is not MISSING else OpaqueV('deleted'))
        elif kind == 'attr':
            self.set_attr(obj, key, new)
        elif kind == 'append':
            for q in new:
                self.add_piece(obj, q)
        elif self.library is not None and isinstance(obj, (ListV, SetV, DictV)):
            self.make_unknown(obj)
        else:
            raise Unsupported('container rewritten in loop')

    def havoc_writes(self, rs, why):
        for r in rs:
            for kind, obj, key, new in r.writes:
                if kind in ('env', 'attr'):
                    self.apply_write(kind, obj, key, OpaqueV(why))
                else:
                    self.mark_approx(why)
                    self.set_pieces(obj, obj.pieces + [Piece((z3.Const('h!%d' % self.tag(), Obj),), self.fresh('hv', z3.BoolSort()), OpaqueV(why))])

    def ex_While(self, s, env):
        e0 = env
        spec = self.loop_specs.get((env.fname, getattr(e0, 'loops', {}).get(id(s))))
        if spec is not None:
            return spec(self, s, env, None)
        n = 0
        while True:
            t = self.truth(self.ev(s.test, env))
            if not isinstance(t, bool):
                n += 1
                if n > 3 and not self.entailed(t) and not self.entailed(Not(t)):
                    raise Unsupported('while loop without invariant')
            if not self.decide(t):
                break
            n += 1
            if n > 60:
                raise Unsupported('while loop without invariant')
            try:
                self.block(s.body, env)
            except BreakSig:
                return
            except ContinueSig:
                pass
        self.block(s.orelse, env)

    # -------------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def ev_Constant(self, e, env):
        return e.value

    def lookup(self, name, env):
        x = env
        while x is not None:
            if name in x.vars:
                self._log_read(('env', id(x), name), x.born)
                return x.vars[name]
            x = x.parent
        if name in env.glob:
            return self.lift_global(env.glob[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(NameError, (name,))

    def lift_global(self, v):
        return self.lift(v)

    def ev_Name(self, e, env):
        if e.id == 'super':
            return ModelV('super', lambda I, a, k: SuperV(env_owner(env), env_self(env)) if not a else SuperV(a[0], a[1]))
        return self.lookup(e.id, env)

    def ev_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, e.attr)

    def ev_Tuple(self, e, env):
        return tuple(self.spread(e.elts, env))

    def spread(self, elts, env, call=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if call and isinstance(v, OpaqueV) and v.free:
                    out.append(StarV(v))
                    continue
                ps = self.iter_pieces(v)
                if not all(p.single for p in ps):
                    if not call:
                        raise Unsupported('starred symbolic collection')
                    out.append(StarV(v))
                    continue
                out.extend(p.value for p in ps)
            else:
                out.append(self.ev(x, env))
        return out

    def ev_List(self, e, env):
        ps = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ps.extend(self.iter_pieces(self.ev(x.value, env)))
            else:
                ps.append(Piece((), True, self.ev(x, env)))
        return self.born(ListV(ps))

    def ev_Set(self, e, env):
        return self.born(SetV([Piece((), True, x) for x in self.spread(e.elts, env)]))

    def ev_Dict(self, e, env):
        d = self.born(DictV())
        for k, v in zip(e.keys, e.values):
            if k is None:
                self._m_dict_update(d, self.ev(v, env))
            else:
                self.setitem(d, self.ev(k, env), self.ev(v, env))
        return d

    def ev_IfExp(self, e, env):
        if self.test(self.ev(e.test, env)):
            return self.ev(e.body, env)
        return self.ev(e.orelse, env)

    def ev_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.test(v)
            if isand and not t:
                return False if is_z3(v) else v
            if not isand and t:
                return True if z3.is_bool(v) else v
        return v

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        n = type(e.op).__name__
        if n == 'Not':
            return Not(self.truth(v))
        if hasattr(v, 'unop'):
            return v.unop(self, n)
        if isinstance(v, OpaqueV):
            return v.derived('') if v.free else OpaqueV('unary')
        if isinstance(v, ObjV):
            m = {'USub': '__neg__', 'Invert': '__invert__'}.get(n)
            return self.call(self.getattr(v, m), [], {})
        if n == 'USub':
            if is_num(v):
                return -v
            if isinstance(v, RefV) and v.cls == 'any':
                self.used_models.add('operators of library values')
                return self.call_uf('op:neg', [v], ANY)
        if n == 'Invert' and z3.is_bool(v):
            return Not(v)
        if not isinstance(v, Sym) and not is_z3(v):
            return {'USub': operator.neg, 'UAdd': operator.pos, 'Invert': operator.invert}[n](v)
        raise Unsupported('unary %s' % n)

    def ev_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))

    DUNDER = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'),
              'Div': ('__truediv__', '__rtruediv__'), 'Mod': ('__mod__', '__rmod__'), 'FloorDiv': ('__floordiv__', '__rfloordiv__'),
              'BitAnd': ('__and__', '__rand__'), 'BitOr': ('__or__', '__ror__'), 'Pow': ('__pow__', '__rpow__')}

    def binop(self, op, a, b):
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            return merged(a, b)
        for x, y, refl in ((a, b, False), (b, a, True)):
            if hasattr(x, 'binop') and isinstance(x, Sym):
                r = x.binop(self, op, y, refl)
                if r is not NotImplemented:
                    return r
        for x, y, i in ((a, b, 0), (b, a, 1)):
            if isinstance(x, ObjV) and op in self.DUNDER and isinstance(x.cls, type):
                m = inspect.getattr_static(x.cls, self.DUNDER[op][i], None)
                if inspect.isfunction(m):
                    return self.call(BoundV(m, x), [y], {})
        if isinstance(a, RefV) and op in self.DUNDER:
            sp, _ = self.spec_of(a.cls, self.DUNDER[op][0])
            if sp is not None:
                return self.call(self.getattr(a, self.DUNDER[op][0]), [b], {})
        if op == 'Mod' and isinstance(a, (str, StrV)):
            return self.percent(a, b)
        if op == 'Add':
            if isinstance(a, (str, StrV)) or (isinstance(a, RefV) and a.cls is str):
                return self.concat(a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, ListV) and isinstance(b, ListV):
                self.touch(a), self.touch(b)
                r = self.born(ListV(a.pieces + b.pieces, a.kind))
                if a.length is not None or a.concrete:
                    la, lb = self.length(a), self.length(b)
                    r.length = la + lb
                    fa, fb = self.at_of(a), self.at_of(b)
                    if fa and fb:
                        r.at = lambda i: self.ite_val(i < la, lambda: fa(i), lambda: fb(i - la))
                return r
        if isinstance(a, SetV) and isinstance(b, SetV):
            if op == 'BitOr':
                return self._m_set_union(a, b)
            if op == 'BitAnd':
                return self._m_set_intersection(a, b)
            if op == 'Sub':
                return self._m_set_difference(a, b)
        if op == 'Mult' and isinstance(a, (str,)) and isinstance(b, int):
            return a * b
        if op == 'Mult' and isinstance(a, ListV) and isinstance(b, int) and not isinstance(b, bool):
            return self.born(ListV(a.pieces * b, a.kind))
        if op == 'Mult' and isinstance(a, ListV) and a.concrete and len(a.pieces) == 1 and z3.is_int(b):
            v = a.items()[0]
            i = z3.Int('rep!%d' % self.tag())
            n = z3.If(b > 0, b, z3.IntVal(0))
            return self.born(ListV([Piece((i,), z3.And(i >= 0, i < b), v)], 'list', 'idx', n, lambda ix: v))
        if is_z3(a) or is_z3(b):
            if op in ('BitAnd', 'BitOr') and is_bool(a) and is_bool(b):
                return And(a, b) if op == 'BitAnd' else Or(a, b)
            if not (is_num(a) or is_bool(a)) or not (is_num(b) or is_bool(b)):
                raise PyExc(TypeError, ('operand',)) if not isinstance(a, Sym) and not isinstance(b, Sym) else Unsupported('arithmetic on %r, %r' % (a, b))
            return self.arith(op, a, b)
        if op in ('Add', 'Sub') and any(isinstance(x, RefV) and x.cls == 'any' for x in (a, b)):
            self.used_models.add('operators of library values')
            return self.call_uf('op:' + op, [self.hashable(a), self.hashable(b)], ANY)
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise Unsupported('%s on %r, %r' % (op, a, b))
        f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'Mod': operator.mod,
             'FloorDiv': operator.floordiv, 'Pow': operator.pow, 'BitAnd': operator.and_, 'BitOr': operator.or_}[op]
        try:
            return self.lift(f(a, b))
        except Exception as ex:
            raise PyExc(type(ex), ex.args)

    def at_of(self, l):
        if l.at is not None:
            return l.at
        if l.concrete:
            items = l.items()

            def at(i):
                if not items:
                    return None
                v = items[-1]
                for k in range(len(items) - 2, -1, -1):
                    v = self.ite_val(i == k, lambda k=k: items[k], lambda v=v: v)
                return v
            return at

    def ite_val(self, c, fa, fb):
        if isinstance(c, bool) or z3.is_true(c) or z3.is_false(c):
            return fa() if (c is True or not isinstance(c, bool) and z3.is_true(c)) else fb()
        a, b = fa(), fb()
        if a is None:
            return b
        if b is None or a is b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite_val(c, lambda x=x: x, lambda y=y: y) for x, y in zip(a, b))
        if isinstance(a, RefV) or isinstance(b, RefV) or isinstance(a, StrV) or isinstance(a, str):
            t = z3.If(c, self.term(a), self.term(b))
            ca = a.cls if isinstance(a, RefV) else str
            cb = b.cls if isinstance(b, RefV) else str
            return RefV(ca if ca == cb else 'any', t)
        if is_bool(a) and is_bool(b):
            return z3.If(c, B(a), B(b))
        if is_num(a) and is_num(b):
            return z3.If(c, z3.IntVal(a) if isinstance(a, int) else a, z3.IntVal(b) if isinstance(b, int) else b)
        return OpaqueV('conditional value')

    def arith(self, op, a, b):
        a, b = self.num2(a, b)
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op in ('Div', 'Mod', 'FloorDiv'):
            if self.decide(b == 0):
                raise PyExc(ZeroDivisionError, ())
        if op == 'Div':
            return (z3.ToReal(a) if z3.is_int(a) else a) / (z3.ToReal(b) if z3.is_int(b) else b)
        if op in ('Mod', 'FloorDiv'):
            if z3.is_int(a):
                if self.decide(b > 0):
                    q = a / b
                else:
                    q = -a / (-b)
                return q if op == 'FloorDiv' else a - q * b
            q = z3.ToReal(z3.ToInt(a / b))
            return q if op == 'FloorDiv' else a - q * b
        raise Unsupported('arith %s' % op)

    CMP = {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}

    def ev_Compare(self, e, env):
        a = self.ev(e.left, env)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(c, env)
            r = self.compare(type(op).__name__, a, b)
            if len(e.ops) == 1:
                return r
            res = And(res, self.truth(r))
            if i < len(e.ops) - 1 and not self.decide(res):
                return False
            a = b
        return res

    def compare(self, op, a, b):
        if op == 'Is':
            return self.py_is(a, b)
        if op == 'IsNot':
            return Not(self.py_is(a, b))
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return Not(self.contains(b, a))
        for x, y, refl in ((a, b, False), (b, a, True)):
            if hasattr(x, 'compare') and isinstance(x, Sym):
                r = x.compare(self, op, y, refl)
                if r is not NotImplemented:
                    return r
        if op == 'Eq':
            return self.py_eq(a, b)
        if op == 'NotEq':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, ObjV) and isinstance(x.cls, type):
                    m = inspect.getattr_static(x.cls, '__ne__', None)
                    if inspect.isfunction(m):
                        return self.call(BoundV(m, x), [y], {})
            return Not(self.py_eq(a, b))
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            self.opaque_test(a, b, what='comparison')
            return self.fresh('opq', z3.BoolSort())
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            x, y, o = (a, b, op) if isinstance(a, ObjV) else (b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}[op])
            m = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[o]
            f = inspect.getattr_static(x.cls, m, None)
            if inspect.isfunction(f):
                return self.call(BoundV(f, x), [y], {})
            raise Unsupported('ordering of objects')
        if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
            if not is_z3(a) and not is_z3(b):
                return self.CMP[op](a, b)
            for x, y, o in ((a, b, op), (b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}[op])):
                if isinstance(y, float) and math.isinf(y):
                    return (o in ('Lt', 'LtE')) == (y > 0)
            a, b = self.num2(a, b)
            return self.CMP[op](a, b)
        if isinstance(a, SetV) and isinstance(b, SetV):
            if op == 'LtE':
                return self.subset(a, b)
            if op == 'GtE':
                return self.subset(b, a)
        if isinstance(a, tuple) and isinstance(b, tuple) and not (self.is_native(a) and self.is_native(b)):
            # lexicographic
            if not a or not b:
                return self.CMP[op](len(a), len(b))
            st = self.truth(self.compare('Lt' if op in ('Lt', 'LtE') else 'Gt', a[0], b[0]))
            return Or(st, And(self.py_eq(a[0], b[0]), self.truth(self.compare(op, a[1:], b[1:]))))
        if isinstance(a, Sym) or isinstance(b, Sym) or is_z3(a) or is_z3(b):
            if all(isinstance(x, (RefV, StrV, str)) for x in (a, b)):
                lt = self.fn('str_lt', Obj, Obj, z3.BoolSort())
                ta, tb = self.term(a), self.term(b)
                f = {'Lt': lambda: lt(ta, tb), 'Gt': lambda: lt(tb, ta), 'LtE': lambda: z3.Not(lt(tb, ta)), 'GtE': lambda: z3.Not(lt(ta, tb))}[op]
                self.assume(z3.And(z3.Not(z3.And(lt(ta, tb), lt(tb, ta))), z3.Or(lt(ta, tb), lt(tb, ta), ta == tb), z3.Implies(ta == tb, z3.Not(lt(ta, tb)))))
                return f()
            raise Unsupported('%s on %r, %r' % (op, a, b))
        try:
            return self.lift(self.CMP[op](a, b))
        except Exception as ex:
            raise PyExc(type(ex), ex.args)

    def ev_Lambda(self, e, env):
        df = tuple(self.ev(d, env) for d in e.args.defaults)
        return FuncV(e, env, env.glob, env.fname + '.<lambda>', df, {}, env.owner)

    def ev_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    parts.append(self.call_uf('format_conv', [self.fmt(x)], STR))
                else:
                    parts.append(self.fmt(x))
        return self.mkstr(parts)

    def ev_FormattedValue(self, e, env):
        return self.fmt(self.ev(e.value, env))

    def ev_Starred(self, e, env):
        raise Unsupported('starred')

    def ev_Yield(self, e, env):
        x = env
        while x.yields is None:
            x = x.parent
        v = self.ev(e.value, env) if e.value else None
        self.add_piece(x.yields, Piece((), True, v))
        return None

    def ev_YieldFrom(self, e, env):
        x = env
        while x.yields is None:
            x = x.parent
        for p in self.iter_pieces(self.ev(e.value, env)):
            self.add_piece(x.yields, p)
        return None

    def ev_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, env) if e.slice.lower else None
            hi = self.ev(e.slice.upper, env) if e.slice.upper else None
            st = self.ev(e.slice.step, env) if e.slice.step else None
            return self.slice(o, lo, hi, st)
        if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
            ks = []
            for x in e.slice.elts:
                if isinstance(x, ast.Slice):
                    ks.append(slice(self.ev(x.lower, env) if x.lower else None, self.ev(x.upper, env) if x.upper else None))
                else:
                    ks.append(self.ev(x, env))
            return self.getitem(o, tuple(ks))
        return self.getitem(o, self.ev(e.slice, env))

    def slice(self, o, lo, hi, st):
        if hasattr(o, 'slice') and isinstance(o, Sym):
            return o.slice(self, lo, hi, st)
        if isinstance(o, OpaqueV):
            if o.free and '__slice__' in o.hooks:
                return self.call(o.hooks['__slice__'], [], {})
            return o.derived('') if o.free else OpaqueV('slice')
        if isinstance(o, (tuple, str)):
            return o[slice(lo, hi, st)]
        if isinstance(o, ListV):
            self.touch(o)
            if o.concrete and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return self.born(ListV(o.pieces[slice(lo, hi, st)], o.kind))
            if lo is None and hi is None and st is None:
                return self._m_list_copy(o)
            if o.length is not None and o.at is not None and st is None:
                n = o.length

                def norm(x, d):
                    if x is None:
                        return d
                    x = z3.IntVal(x) if isinstance(x, int) else x
                    x = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), x)
                    return z3.If(x > n, n, x)
                a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
                m = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
                i = z3.Int('s!%d' % self.tag())
                at = o.at
                r = ListV([Piece((i,), z3.And(i >= 0, i < m), at(i + a))], o.kind, 'idx', m, lambda ix: at(ix + a))
                return self.born(r)
            # prefix/suffix of a collection: elements are among the originals
            v = [Piece(p.vars, And(p.guard, self.slice_pred(p)), p.value) for p in o.pieces]
            self.mark_approx('slice')
            r = ListV(v, o.kind)
            if st is None:
                n = self.length(o)
                n = z3.IntVal(n) if isinstance(n, int) else n

                def nrm(x, d):
                    if x is None:
                        return d
                    x = z3.IntVal(x) if isinstance(x, int) else x
                    x = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), x)
                    return z3.If(x > n, n, x)
                a, b = nrm(lo, z3.IntVal(0)), nrm(hi, n)
                r.length = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
                self.assume((r.length == 0) == B(Not(self.nonempty(r))))
            return self.born(r)
        if isinstance(o, ObjV) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return self.call(self.getattr(o, '__getitem__'), [slice(lo, hi, st)], {})
        if isinstance(o, Sym) and hasattr(o, 'getitem'):
            return o.getitem(self, slice(lo, hi, st))
        raise Unsupported('slice of %r' % (o,))

    def slice_pred(self, p):
        f = self.freshfn('in_slice', *([v.sort() for v in p.vars] + [z3.BoolSort()]))
        return f(*p.vars)

    def getitem(self, o, k):
        if isinstance(k, slice):
            return self.slice(o, k.start, k.stop, k.step)
        if isinstance(o, OpaqueV):
            if o.free and '__getitem__' in o.hooks:
                return self.call(o.hooks['__getitem__'], [k], {})
            return o.derived('') if o.free else OpaqueV('item of ' + o.why)
        if hasattr(o, 'getitem') and isinstance(o, Sym):
            return o.getitem(self, k)
        if isinstance(o, tuple):
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise PyExc(IndexError, ())
        if isinstance(o, ListV):
            self.touch(o)
            if isinstance(k, int) and o.concrete:
                try:
                    return o.items()[k]
                except IndexError:
                    raise PyExc(IndexError, ())
            if o.length is not None and o.at is not None and (isinstance(k, int) or z3.is_int(k)):
                kk = z3.IntVal(k) if isinstance(k, int) else k
                if isinstance(k, int):
                    idx = kk if k >= 0 else o.length + k
                else:
                    idx = z3.If(kk >= 0, kk, o.length + kk)
                if not self.decide(z3.And(idx >= 0, idx < o.length)):
                    raise PyExc(IndexError, ())
                return o.at(z3.simplify(idx))
            if (isinstance(k, int) or z3.is_int(k)) and o.pieces and all(not p.vars for p in o.pieces):
                # optional elements: the k-th present one
                n = z3.IntVal(0)
                tot = z3.Sum([z3.If(B(p.guard), 1, 0) for p in o.pieces])
                kk = z3.IntVal(k) if isinstance(k, int) else k
                kk = tot + kk if isinstance(k, int) and k < 0 else (kk if isinstance(k, int) else z3.If(kk >= 0, kk, tot + kk))
                for p in o.pieces:
                    if self.decide(And(p.guard, n == kk)):
                        return p.value
                    n = n + z3.If(B(p.guard), 1, 0)
                raise PyExc(IndexError, ())
            if isinstance(k, int) and k in (0, -1):
                if not self.decide(self.nonempty(o)):
                    raise PyExc(IndexError, ())
                self.mark_approx('first element')
                return self.some(o)
            raise Unsupported('index of symbolic list')
        if isinstance(o, DictV):
            return self.dict_get(o, k)
        if isinstance(o, (ObjV, RefV)):
            return self.call(self.getattr(o, '__getitem__'), [k], {})
        if isinstance(o, (dict, list)):
            return self.getitem(self.lift(o), k)
        if isinstance(o, type):
            raise Unsupported('subscript of class')
        if isinstance(o, Sym) or is_z3(o) or is_z3(k):
            raise Unsupported('subscript %r' % (o,))
        try:
            return self.lift(o[self.native(k)])
        except (KeyError, IndexError, TypeError) as ex:
            raise PyExc(type(ex), ex.args)

    def dict_get(self, d, k, default=MISSING):
        self.touch(d)
        for p in reversed(d.pieces):
            key = p.value[0]
            if not p.vars:
                if self.decide(And(p.guard, self.py_eq(key, k))):
                    return p.value[1]
            else:
                nv = [z3.Const('%s~%d' % (v.decl().name(), self.tag()), v.sort()) for v in p.vars]
                pr = list(zip(p.vars, nv))
                q = subst(p, pr)
                cond = And(q.guard, self.quiet(lambda: self.py_eq(q.value[0], k)))
                if self.decide(Exists(nv, B(cond))):
                    w = [self.fresh('w', v.sort()) for v in nv]
                    self.assume(subst(B(cond), list(zip(nv, w))))
                    return subst(q.value[1], list(zip(nv, w)))
        if d.sym:
            if self.decide(d.sym[0](k)):
                return d.sym[1](k)
        if default is not MISSING:
            return default
        if d.default is not None:
            v = self.call(d.default, [], {})
            self.setitem(d, k, v)
            return v
        raise PyExc(KeyError, (k,))

    # ---------------------------------------------------------- comprehensions
    def comp(self, gens, i, env, leaf, src=None):
        if i == len(gens):
            return [Piece((), True, leaf(env))]
        g = gens[i]
        it = self.iterated(self.ev(g.iter, env))
        if src is not None:
            src.append(it)
        out = []
        for p in self.iter_pieces(it):
            def run(val, e2=None):
                e2 = Env(env.glob, env, env.owner)
                e2.born = self.tag()
                e2.fname = env.fname
                self.assign(g.target, val, e2)
                conds = []
                for c in g.ifs:
                    t = self.truth(self.ev(c, e2))
                    if t is True:
                        continue
                    if t is False:
                        return None, e2
                    conds.append(t)
                    self.assume(t, 'dec')
                return self.comp(gens, i + 1, e2, leaf), e2
            if not p.vars and p.guard is True and not g.ifs:
                r, _ = run(p.value)
                out.extend(r or [])
                continue
            if not p.vars and not g.ifs and p.guard is not True:
                if self.decide(p.guard):
                    r, _ = run(p.value)
                    out.extend(r or [])
                continue
            nv = [z3.Const('%s~%d' % (v.decl().name(), self.tag()), v.sort()) for v in p.vars]
            pr = list(zip(p.vars, nv))
            guard, val = subst(p.guard, pr), subst(p.value, pr)

            def thunk():
                if guard is not True:
                    self.assume(guard, 'guard')
                return run(val)[0]
            rs = self.explore(thunk)
            normal = []
            for r in rs:
                if r.kind == 'normal' and r.value is None:
                    continue
                normal.append(r)
            if not p.vars:
                # single element with a condition: keep it precise
                for r in normal:
                    if r.kind != 'normal':
                        dec = And(*[f for t, f in r.pc if t == 'dec'])
                        if self.decide(And(guard, dec)):
                            raise r.value if r.kind == 'raise' else Unsupported('control flow in comprehension')
                        continue
                    dec = And(*[f for t, f in r.pc if t == 'dec'])
                    for t, f in r.pc:
                        if t == 'fact':
                            self.assume(Implies(And(guard, dec), f))
                    self.approx.extend(r.approx)
                    for q in r.value:
                        out.append(Piece(q.vars, And(guard, dec, q.guard), q.value))
                    self.events.extend(Piece(e.vars, And(guard, dec, e.guard), e.value) for e in r.events)
                continue
            saved = [r for r in normal]
            for r in saved:
                r.pieces = r.value if r.kind == 'normal' else []
            self.summarize(nv, guard, saved)
            for r in saved:
                if r.kind == 'normal':
                    for q in r.pieces:
                        q2 = subst(q, r.sk)
                        mark_many(q2.value)
                        out.append(Piece(tuple(nv) + tuple(q2.vars), And(guard, r.dec, q2.guard), q2.value))
        return out

    def _comp_len(self, e, env, pieces, src):
        return None

    def ev_ListComp(self, e, env):
        src = []
        ps = self.comp(e.generators, 0, env, lambda en: self.ev(e.elt, en), src)
        r = self.born(ListV(ps))
        self._shape(r, e, src[0])
        return r

    def _shape(self, r, e, it):
        """a pure map over an indexed list is an indexed list; a filter of one is not longer"""
        if len(e.generators) == 1 and e.generators[0].ifs and len(r.pieces) == 1 and len(r.pieces[0].vars) == 1 and z3.is_int(r.pieces[0].vars[0]):
            if isinstance(it, ListV) and it.length is not None and len(it.pieces) == 1 and it.order == 'idx':
                r.within = it.length
        if len(e.generators) == 1 and not e.generators[0].ifs and len(r.pieces) == 1 and len(r.pieces[0].vars) == 1:
            p = r.pieces[0]
            if z3.is_int(p.vars[0]):
                if isinstance(it, ListV) and it.length is not None and len(it.pieces) == 1:
                    r.length = it.length
                    r.order = 'idx'
                    v = p.vars[0]
                    r.at = lambda ix: subst(p.value, [(v, ix)])

    def ev_GeneratorExp(self, e, env):
        src = []
        r = self.born(ListV(self.comp(e.generators, 0, env, lambda en: self.ev(e.elt, en), src), 'gen'))
        self._shape(r, e, src[0])
        return r

    def ev_SetComp(self, e, env):
        return self.born(SetV(self.comp(e.generators, 0, env, lambda en: self.ev(e.elt, en))))

    def ev_DictComp(self, e, env):
        return self.born(DictV(self.comp(e.generators, 0, env, lambda en: (self.ev(e.key, en), self.ev(e.value, en)))))

    def ev_Call(self, e, env):
        f = self.ev(e.func, env)
        args = self.spread(e.args, env, True)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not (isinstance(d, DictV) and d.concrete):
                    raise Unsupported('** of symbolic mapping')
                for p in d.pieces:
                    kw[p.value[0]] = p.value[1]
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    # ------------------------------------------------------------------ strings
    def mkstr(self, parts):
        s = StrV(parts)
        if all(isinstance(p, str) for p in s.parts):
            return ''.join(s.parts)
        return s

    def fmt(self, x):
        if isinstance(x, (str, StrV)):
            return x
        if isinstance(x, RefV) and x.cls is str:
            return x
        if isinstance(x, OpaqueV):
            return RefV(str, self.fresh('opqstr', Obj))
        if self.is_native(x) and not isinstance(x, (ObjV,)):
            try:
                return str(self.native(x))
            except Exception:
                pass
        if isinstance(x, (ObjV,)):
            for m in ('__str__', '__repr__'):
                f = inspect.getattr_static(x.cls, m, None)
                if inspect.isfunction(f):
                    return self.fmt(self.call(BoundV(f, x), [], {}))
        try:
            return RefV(str, self.fn('str_of', Obj, Obj)(self.term(self.hashable(x))))
        except Unsupported:
            return RefV(str, self.fresh('strof', Obj))

    def concat(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        for x in (a, b):
            if x is None or is_num(x):
                raise PyExc(TypeError, ())
        return self.mkstr([a, b])

    def percent(self, a, b):
        if isinstance(a, StrV):
            raise Unsupported('format of symbolic template')
        vals = list(b) if isinstance(b, tuple) else [b]
        import re as _re
        out, pos = [], 0
        for m in _re.finditer(r'%(%|[-+ 0-9.]*[sdirf])', a):
            out.append(a[pos:m.start()])
            if m.group(1) == '%':
                out.append('%')
            else:
                if not vals:
                    raise PyExc(TypeError, ())
                v = self.fmt(vals.pop(0))
                out.append(v if m.group(1) in ('s', 'd', 'i') else self.call_uf('fmt_' + m.group(1), [v], STR) if not isinstance(v, str) else v)
            pos = m.end()
        out.append(a[pos:])
        return self.mkstr(out)

    def str_method(self, s, name, args, kw):
        if name == 'format':
            if isinstance(s, str):
                import string
                out, i = [], 0
                for litt, field, spec, conv in string.Formatter().parse(s):
                    out.append(litt)
                    if field is not None:
                        if field == '':
                            v = args[i]
                            i += 1
                        elif field.isdigit():
                            v = args[int(field)]
                        elif field in kw:
                            v = kw[field]
                        else:
                            raise Unsupported('format field')
                        v = self.fmt(v)
                        out.append(v if not spec else self.call_uf('fmt:' + spec, [v], STR))
                return self.mkstr(out)
            raise Unsupported('format')
        if name == 'join':
            it = args[0]
            ps = self.iter_pieces(it)
            if all(p.single for p in ps):
                out = []
                for i, p in enumerate(ps):
                    if i:
                        out.append(s)
                    if not isinstance(p.value, (str, StrV, RefV)):
                        raise PyExc(TypeError, ())
                    out.append(p.value)
                return self.mkstr(out)
            src = self.hashable(it)
            if isinstance(it, ListV) and it.length is not None and it.at is not None:
                return self.call_uf('join', [s, self.seq_term(it)], STR)
            return RefV(str, self.fresh('joined', Obj))
        if self.is_native(s) and all(self.is_native(a) for a in args):
            return self.call_native(getattr(s, name), args, kw)
        if name == '__contains__':
            return self.call_uf('str_contains', [s, args[0]], BOOL)
        if name in ('startswith', 'endswith', 'isdigit'):
            return self.call_uf('str.' + name, [s] + list(args), BOOL)
        if name in ('split', 'splitlines', 'rsplit'):
            return self.call_uf('str.' + name, [s] + list(args), Lst(STR))
        if name in ('lower', 'upper', 'strip', 'title', 'capitalize', 'replace', 'rstrip', 'lstrip'):
            return self.call_uf('str.' + name, [s] + list(args), STR)
        raise Unsupported('str.%s on symbolic string' % name)

    def seq_term(self, l):
        """a term that determines the whole sequence"""
        if getattr(l, 'src', None) is not None:
            return RefV('any', l.src)
        if l.concrete:
            return RefV('any', self.term(tuple(l.items())))
        if l.length is None or l.at is None:
            raise Unsupported('sequence term')
        c = self.fresh('seq', Obj)
        i = z3.Int('i!%d' % self.tag())
        self.assume(self.fn('len_of', Obj, z3.IntSort())(c) == l.length)
        v = self.quiet(lambda: self.term(l.at(i)))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l.length), self.fn('at_Obj', Obj, z3.IntSort(), Obj)(c, i) == v)))
        return RefV('any', c)

    # --------------------------------------------------------- container methods
    def _m_list_append(self, l, x):
        self.add_piece(l, Piece((), True, x))

    def _m_list_extend(self, l, xs):
        for p in self.iter_pieces(xs):
            self.add_piece(l, p)

    def _m_list_insert(self, l, i, x):
        if i != 0 and not l.concrete:
            raise Unsupported('insert')
        self.touch(l)
        ps = list(l.pieces)
        ps.insert(i, Piece((), True, x))
        self.set_pieces(l, ps)

    def _m_list_copy(self, l):
        self.touch(l)
        if isinstance(l, tuple):
            return l
        r = ListV(l.pieces, l.kind, l.order, l.length, l.at)
        for a in ('src', 'ety'):
            if hasattr(l, a) and l.length is not None:
                setattr(r, a, getattr(l, a))
        return self.born(r)

    def _m_list_pop(self, l, i=-1):
        self.touch(l)
        if l.concrete:
            if not l.pieces:
                raise PyExc(IndexError, ())
            ps = list(l.pieces)
            v = ps.pop(i).value
            self.set_pieces(l, ps)
            return v
        raise Unsupported('pop of symbolic list')

    def _m_list_popleft(self, l):
        return self._m_list_pop(l, 0)

    def _m_list_appendleft(self, l, x):
        return self._m_list_insert(l, 0, x)

    def _m_list_remove(self, l, x):
        self.touch(l)
        if isinstance(l, ListV) and l.concrete:
            ps = list(l.pieces)
            for i, p in enumerate(ps):
                if self.decide(self.py_eq(p.value, x)):
                    del ps[i]
                    self.set_pieces(l, ps)
                    return None
            raise PyExc(ValueError, ())
        if not self.decide(self.contains(l, x)):
            raise PyExc(ValueError, ())
        self.mark_approx('list.remove of first occurrence only')
        ps = []
        for p in l.pieces:
            if not p.vars:
                ps.append(Piece((), And(p.guard, Not(self.py_eq(p.value, x))), p.value))
            else:
                ps.append(Piece(p.vars, And(p.guard, Not(self.quiet(lambda: self.py_eq(p.value, x)))), p.value))
        self.set_pieces(l, ps)

    def _m_list_index(self, l, x):
        it = list(l) if isinstance(l, tuple) else (l.items() if l.concrete else None)
        if it is None:
            raise Unsupported('index of symbolic list')
        for i, y in enumerate(it):
            if self.decide(self.py_eq(x, y)):
                return i
        raise PyExc(ValueError, ())

    def _m_list_count(self, l, x):
        it = list(l) if isinstance(l, tuple) else (l.items() if l.concrete else None)
        if it is None:
            raise Unsupported('count on symbolic list')
        n = 0
        for y in it:
            e = self.py_eq(x, y)
            n = n + (z3.If(e, 1, 0) if is_z3(e) else int(e))
        return n

    def _m_list_sort(self, l, key=None, reverse=False):
        self.touch(l)
        if self.is_native(l) and key is None:
            self.set_pieces(l, [Piece((), True, x) for x in sorted(self.native(l), reverse=reverse)])
            return None
        ps = list(l.pieces)
        self.set_pieces(l, ps)
        l.order = ('sorted', key, reverse)
        if len(ps) > 1 and l.concrete:
            l.pieces[:] = self.shuffle(ps)
        return None

    def shuffle(self, ps):
        return ps

    def _m_list_reverse(self, l):
        self.touch(l)
        if not l.concrete:
            raise Unsupported('reverse')
        self.set_pieces(l, list(reversed(l.pieces)))

    def _m_set_add(self, s, x):
        self.add_piece(s, Piece((), True, x))

    def _m_set_update(self, s, *xss):
        for xs in xss:
            for p in self.iter_pieces(xs):
                self.add_piece(s, p)

    def _m_set_union(self, s, *xss):
        self.touch(s)
        ps = list(s.pieces)
        for xs in xss:
            ps += self.iter_pieces(xs)
        return self.born(SetV(ps))

    def _filtered(self, c, pred):
        ps = []
        for p in c.pieces:
            if not p.vars:
                g = And(p.guard, pred(p.value))
            else:
                g = And(p.guard, self.quiet(lambda: pred(p.value)))
            if g is not False:
                ps.append(Piece(p.vars, g, p.value))
        return ps

    def _m_set_intersection(self, s, xs):
        self.touch(s)
        xs = xs if isinstance(xs, (SetV, ListV, DictV, tuple)) else self.lift(xs)
        return self.born(SetV(self._filtered(s, lambda v: self.contains(xs, v))))

    def _m_set_difference(self, s, *xss):
        self.touch(s)
        r = s
        for xs in xss:
            r = SetV(self._filtered(r, lambda v: Not(self.contains(xs, v))))
        return self.born(SetV(r.pieces))

    def _m_set_issubset(self, s, o):
        return self.subset(s, o)

    def _m_set_issuperset(self, s, o):
        return self.subset(SetV(self.iter_pieces(o)), s)

    def _m_set_isdisjoint(self, s, o):
        return Not(self.nonempty(SetV(self._filtered(s, lambda v: self.contains(o, v)))))

    def _m_set_copy(self, s):
        self.touch(s)
        return self.born(SetV(s.pieces))

    def _m_set_discard(self, s, x):
        self.touch(s)
        self.set_pieces(s, self._filtered(s, lambda v: Not(self.py_eq(v, x))))

    def _m_set_remove(self, s, x):
        if not self.decide(self.contains(s, x)):
            raise PyExc(KeyError, ())
        self._m_set_discard(s, x)

    def _m_dict_get(self, d, k, default=None):
        return self.dict_get(d, k, default)

    def _m_dict_keys(self, d):
        self.touch(d)
        ps = []
        for p in d.pieces:
            if p.single and not isinstance(p.value[0], Sym) and any(
                    q.single and self._native_eq(q.value[0], p.value[0]) for q in ps_keys(ps)):
                continue
            ps.append(Piece(p.vars, p.guard, p.value[0]))
        if d.sym:
            k = z3.Const('k!%d' % self.tag(), sort_of(d.sym[2]))
            ps.append(Piece((k,), d.sym[0](k), k if k.sort() != Obj else self.quiet_from(d.sym[2], k)))
        return self.born(ListV(ps))

    @staticmethod
    def _native_eq(a, b):
        if isinstance(a, Sym) or isinstance(b, Sym) or is_z3(a) or is_z3(b):
            return a is b
        try:
            return bool(a == b)
        except Exception:
            return False

    def _live_items(self, d):
        """pieces not overridden by a later one"""
        out = []
        ps = d.pieces
        for i, p in enumerate(ps):
            later = ps[i + 1:]
            if p.single and all(q.single for q in later):
                g = And(*[Not(self.py_eq(p.value[0], q.value[0])) for q in later])
            elif not later:
                g = True
            else:
                if p.vars:
                    g = self.quiet(lambda: And(*[Not(self.contains(SetV([Piece(q.vars, q.guard, q.value[0])]), p.value[0])) for q in later]))
                else:
                    g = And(*[Not(self.contains(SetV([Piece(q.vars, q.guard, q.value[0])]), p.value[0])) for q in later])
            g = And(p.guard, g)
            if g is not False:
                out.append(Piece(p.vars, g, p.value))
        if d.sym:
            k = z3.Const('k!%d' % self.tag(), sort_of(d.sym[2]))
            kv = k if k.sort() != Obj else self.quiet_from(d.sym[2], k)
            ov = And(*[Not(self.contains(SetV([Piece(q.vars, q.guard, q.value[0])]), kv)) for q in ps])
            out.append(Piece((k,), And(d.sym[0](k), ov), (kv, d.sym[1](k))))
        return out

    def _m_dict_items(self, d):
        self.touch(d)
        return self.born(ListV(self._live_items(d)))

    def _m_dict_values(self, d):
        self.touch(d)
        return self.born(ListV([Piece(p.vars, p.guard, p.value[1]) for p in self._live_items(d)]))

    def _m_dict_copy(self, d):
        self.touch(d)
        r = DictV(d.pieces, d.default)
        r.sym = d.sym
        return self.born(r)

    def _m_dict_update(self, d, *others, **kw):
        for o in others:
            if not isinstance(o, DictV):
                raise Unsupported('dict.update')
            if o.sym:
                raise Unsupported('update from symbolic mapping')
            for p in o.pieces:
                if p.single:
                    self.setitem(d, p.value[0], p.value[1])
                else:
                    self.add_piece(d, p)
        for k, v in kw.items():
            self.setitem(d, k, v)

    def _m_dict_setdefault(self, d, k, v=None):
        if self.decide(self.contains(d, k)):
            return self.dict_get(d, k)
        self.setitem(d, k, v)
        return v

    def _m_dict_pop(self, d, k, default=MISSING):
        self.touch(d)
        if d.sym:
            raise Unsupported('pop from symbolic mapping')
        if not self.decide(self.contains(d, k)):
            if default is MISSING:
                raise PyExc(KeyError, (k,))
            return default
        v = self.dict_get(d, k)
        self.set_pieces(d, [Piece(p.vars, And(p.guard, Not(self.py_eq(p.value[0], k)) if not p.vars else self.quiet(lambda: Not(self.py_eq(p.value[0], k)))), p.value)
                            for p in d.pieces if not (p.single and self.py_eq(p.value[0], k) is True)])
        d.pieces[:] = [p for p in d.pieces if p.guard is not False]
        return v


def ps_keys(ps):
    return [Piece(p.vars, p.guard, (p.value,)) for p in ps]


def env_owner(env):
    e = env
    while e is not None:
        if e.owner is not None:
            return e.owner
        e = e.parent
    raise Unsupported('super() outside class')


def env_self(env):
    e = env
    while e is not None:
        if e.self_ is not None:
            return e.self_
        e = e.parent
    raise Unsupported('super() outside method')
