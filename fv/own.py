"""Frame conditions on data: a value of the caller's (a dataframe, a series, an array) that the code may read but not write.
What is derived from it is a new value, unless the operation gives a view of it."""
from flow import *
from values import LibV, ModelV, Sym

VIEWS = {'loc', 'iloc', 'at', 'iat', 'ix', 'values', 'index', 'columns', 'T', 'array', '_data', '_values'}
WRITERS = {'insert', 'pop', 'update', 'sort', 'extend', 'clear', 'remove', 'setdefault', 'popitem', 'fill', 'put', 'resize',
           'itemset', 'partition', 'setflags', 'reverse', 'set_value', 'add_categories!', '__setitem__', '__delitem__'}
VIEW_METHODS = {'to_numpy', 'view', 'ravel', 'reshape', 'squeeze', 'transpose', 'get', 'xs', 'items', 'iteritems', 'swapaxes'}


class Hooks(dict):
    def __init__(self, v):
        self.v = v

    def __contains__(self, name):
        return name in ('__setitem__', '__setattr__', '__delitem__', '__iop__', '__getitem__', '__slice__') or not name.startswith('__')

    def __bool__(self):
        return True

    def __getitem__(self, name):
        v = self.v
        if name in v.known:
            return v.known[name]
        if name in ('__setitem__', '__setattr__', '__delitem__', '__iop__'):
            return ModelV(name, lambda I, a, k: v.written(I, name))
        if name == '__getitem__':
            return ModelV(name, lambda I, a, k: LibV('part') if isinstance(a[0], (LibV, ListV, SetV, tuple)) or z3.is_expr(a[0]) and z3.is_bool(a[0]) else v.view())
        if name == '__slice__':
            return ModelV(name, lambda I, a, k: v.view())
        if name in VIEWS:
            return v.view()
        return LibV(name, hooks={'__call__': ModelV(name, lambda I, a, k: v.method(I, name, a, k))})


class OwnV(LibV):
    def __init__(self, owner, pycls=None, known=()):
        LibV.__init__(self, owner, pycls, None)
        self.owned, self.known = owner, dict(known)
        self.hooks = Hooks(self)

    def derived(self, why):
        return LibV(self.why)

    def view(self):
        return OwnV(self.owned)

    def written(self, I, how):
        I.oblige('leaves-%s-alone' % self.owned.replace(' ', '-'), False)
        return LibV('')

    def method(self, I, name, args, kw):
        if name in WRITERS:
            self.written(I, name)
        if 'inplace' in kw:
            t = I.truth(kw['inplace'])
            if t is not False:
                I.oblige('leaves-%s-alone' % self.owned.replace(' ', '-'), Not(t))
        if name in VIEW_METHODS or kw.get('copy') is False or kw.get('deep') is False:
            return self.view()
        if name in ('head', 'tail') and not (args and args[0] == 0 and args[0] is not False):
            return self.view()
        return LibV(self.why)


def frozen(v, owner):
    """an object or collection of the caller's that must not be written to"""
    v.frozen = owner.replace(' ', '-')
    return v


def owned_in(P, v, deep=4):
    """the caller's data that can be reached from a value"""
    if getattr(v, 'owned', None) is not None:
        return [v.owned]
    if deep and isinstance(v, (tuple, list)):
        return [o for x in v for o in owned_in(P, x, deep - 1)]
    if deep and isinstance(v, (ListV, SetV, DictV)):
        return [o for p in v.pieces for o in owned_in(P, p.value, deep - 1)]
    return []


class Frame(Flow):
    """leaves the caller's data alone; with `fresh`, what it returns is not the caller's data either"""
    fresh = False
    timeout = 5000

    def name(self):
        return self.target.split(':')[1] + " leaves the caller's data alone"

    def post(self, P, ctx, out):
        fs = [('nothing-of-the-callers-was-written', not any(isinstance(e.value, tuple) and e.value[0] == 'setattr' for e in P.events))]
        if self.fresh and out.kind == 'normal':
            fs.append(('returns-new-data', not owned_in(P, out.value)))
        return fs

    def cover(self, P, ctx, out):
        return [(out.kind, True)]
