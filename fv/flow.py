"""Contracts about what a function hands on: data values are library values nothing is known about,
so every branch taken on data is explored, and each call made along the way must be given
the settings the caller was given."""
from chelp import *
from values import LibV


def same(P, a, b):
    """the value handed on is the one expected"""
    if a is b:
        return True
    if isinstance(a, LibV) or isinstance(b, LibV):
        return False
    if a is None or b is None:
        return P.is_none(a if b is None else b)
    return P.py_eq(a, b)


def is_instance(P, args, kwargs):
    """is_instance(obj, modules, classnames) of a library value: decided when its class is known"""
    cs = library_classes(args[1], args[2])
    if isinstance(args[0], LibV) and args[0].pycls is None:
        return P.fresh('opq', z3.BoolSort()) if cs else False
    return P.isinstance_(args[0], cs)


def library_classes(modules, names):
    mods = modules if isinstance(modules, tuple) else (modules,)
    names = names if isinstance(names, tuple) else (names,) * len(mods)
    return tuple(getattr(m, n) for m, n in zip(mods, names) if m is not None)


class Flow(Contract):
    library = True
    timeout = 10000
    keep = ()           # settings this contract is about

    def expected(self, P, ctx):
        """setting -> expected value"""
        return ctx

    def calls(self):
        """'mod:Func' -> (model of the result | None, {parameter: setting})"""
        return {}

    def contracts(self):
        out = {}
        gi = fnref('featuretools.utils.gen_utils:is_instance')
        if gi is not None:
            out[gi] = is_instance
        for spec, (ret, params) in self.calls().items():
            f = fnref(spec)
            if f is None:
                raise Unsupported('%s is gone' % spec)
            out[f] = self.stub(spec, f, ret, params)
        return out

    def stub(self, spec, f, ret, params):
        short = spec.split(':')[1]

        def m(P, args, kwargs):
            try:
                ba = inspect.signature(f).bind(*args, **kwargs)
            except TypeError:
                raise PyExc(TypeError, ())
            ba.apply_defaults()
            flat = dict(ba.arguments)
            for par, prm in inspect.signature(f).parameters.items():
                if prm.kind == prm.VAR_KEYWORD:
                    flat.update(flat.pop(par, {}))
            want = self.expected(P, P.flow)
            for par, setting in params.items():
                if setting not in self.keep:
                    continue
                if par not in flat:
                    raise Unsupported('%s has no parameter %s' % (short, par))
                w = want[setting]
                got = flat[par]
                ok = w(got) if callable(w) and not isinstance(w, Sym) else same(P, got, w)
                P.oblige('%s-receives-%s' % (short, par), ok if isinstance(ok, bool) else B(ok))
            P.reached.add(short)
            return ret(P, flat) if callable(ret) else LibV('result of ' + short)
        return m

    def post(self, P, ctx, out):
        return []

    def cover(self, P, ctx, out):
        # calls that only some data leads to may lie in loop bodies: recorded as they are made
        return [('call of ' + s.split(':')[1], True if s.split(':')[1] in P.reached else False) for s, (r, ps) in self.calls().items()
                if any(x in self.keep for x in ps.values())]

    def setup(self, P):
        P.reached = getattr(P, 'reached', set())
        args, kwargs, P.flow = self.start(P)
        return args, kwargs, P.flow
