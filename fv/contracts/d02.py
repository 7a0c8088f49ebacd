"""Primitive options."""
from chelp import *
from featuretools.feature_base import feature_base as fb
from featuretools.entityset.entity import Entity
from featuretools.variable_types import Discrete
MOD = 'featuretools.primitives.options_utils:'


def options(P, keys, name='o'):
    """an option dictionary: any of the keys present, any values"""
    d = P.born(DictV())
    has, val = {}, {}
    for k in keys:
        has[k] = P.fresh('%s.has_%s' % (name, k), z3.BoolSort())
        val[k] = P.make(St(STR) if 'entities' in k else Map(STR, St(STR)), '%s.%s' % (name, k))
        d.pieces.append(Piece((), has[k], (k, val[k])))
    return d, has, val


class VariableFilter(Contract):
    target = MOD + 'variable_filter'
    groupby, given = False, None        # given: whether variables to include are

    def name(self):
        return 'variable_filter' + ('/groupby' if self.groupby else '') + ('' if self.given is None else ' [variables to include]' if self.given else ' [no variables to include]')

    def keys(self):
        g = 'groupby_' if self.groupby else ''
        return ['include_%svariables' % g, 'ignore_%svariables' % g, 'include_%sentities' % g, 'ignore_%sentities' % g]

    def setup(self, P):
        f = P.make(Ref(fb.FeatureBase), 'f')
        d, has, val = options(P, self.keys())
        if self.given is not None:
            P.assume(has[self.keys()[0]] == z3.BoolVal(self.given))
        return [f, d], ({'groupby': True} if self.groupby else {}), (f, has, val)

    def post(self, P, ctx, out):
        f, has, val = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        iv, gv, ie, ge = self.keys()
        deps = P.call(P.getattr(f, 'get_dependencies'), [], {'deep': True})

        def ok(b):
            ident = is_a(P, b, fb.IdentityFeature)
            eid = P.getattr(P.getattr(b, 'entity'), 'id')
            nm = P.call(P.getattr(b, 'get_name'), [], {})

            def listed(k):
                m = val[k]
                return And(has[k], P.contains(m, eid))

            def named(k):
                return P.contains(val[k].sym[1](eid), nm)
            included = And(ident, listed(iv))
            by_entity = And(Implies(has[ie], P.contains(val[ie], eid)), Not(And(has[ge], P.contains(val[ge], eid))))
            return Or(And(included, named(iv)),
                      And(Not(included), Not(And(ident, listed(gv), named(gv))), by_entity))
        want = And(forall(P, deps, ok), ok(f))
        if self.groupby:
            want = And(want, P.sub(P.getattr(f, 'variable_type').term, P.lit(Discrete)))
        return [('accepts-exactly-what-the-options-allow', Iff(B(P.truth(out.value)), B(want)))]

    def cover(self, P, ctx, out):
        return [('can accept', P.truth(out.value)), ('can reject', Not(P.truth(out.value)))]


class VariableFilterG(VariableFilter):
    groupby, given = True, True


class VariableFilterH(VariableFilter):
    groupby, given = True, False


class IgnoreEntity(Contract):
    target = MOD + 'ignore_entity_for_primitive'
    groupby, n = False, 2

    def name(self):
        return 'ignore_entity_for_primitive' + ('/groupby' if self.groupby else '')

    def setup(self, P):
        ks = ['include_variables', 'include_entities', 'include_groupby_variables', 'include_groupby_entities', 'ignore_groupby_entities']
        os_, hs, vs = [], [], []
        for i in range(self.n):
            d, has, val = options(P, ks, 'o%d' % i)
            val['ignore_entities'] = P.make(St(STR), 'o%d.ignore_entities' % i)
            d.pieces.append(Piece((), True, ('ignore_entities', val['ignore_entities'])))
            os_.append(d)
            hs.append(has)
            vs.append(val)
        e = P.make(Ref(Entity), 'entity')
        return [P.mklist(os_), e], ({'groupby': True} if self.groupby else {}), (e, hs, vs)

    def post(self, P, ctx, out):
        e, hs, vs = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        eid = P.getattr(e, 'id')

        def ign(has, val):
            inn = lambda k: And(has[k], P.contains(val[k], eid))
            notin = lambda k: And(has[k], Not(P.contains(val[k], eid)))
            g = And(Not(inn('include_groupby_variables')),
                    Or(notin('include_groupby_entities'), inn('ignore_groupby_entities'))) if self.groupby else False
            v = And(Not(inn('include_variables')),
                    Or(notin('include_entities'), P.contains(val['ignore_entities'], eid)))
            return Or(g, v)
        want = Or(*[ign(h, v) for h, v in zip(hs, vs)])
        return [('ignored-exactly-when-an-option-says-so', Iff(B(P.truth(out.value)), B(want)))]

    def cover(self, P, ctx, out):
        return [('can ignore', P.truth(out.value)), ('can keep', Not(P.truth(out.value)))]


class IgnoreEntityG(IgnoreEntity):
    groupby, n = True, 1



class FilterMatches(Contract):
    target = MOD + 'filter_matches_by_options'
    n, per_input, comm = 2, True, False

    def name(self):
        return 'filter_matches_by_options/%s%s' % ('one option per input' if self.per_input else 'one option for all',
                                                  '/commutative' if self.comm else '')

    def contracts(self):
        return as_uf(MOD + 'variable_filter', BOOL, ['f', 'options', 'groupby'])

    def setup(self, P):
        ms = P.fresh_list(Tup(*[Ref(fb.FeatureBase)] * self.n), 'matches')
        os_ = [P.make(Ref(dict), 'option%d' % i) for i in range(self.n if self.per_input else 1)]
        g = P.fresh('groupby', z3.BoolSort())
        return [ms, P.mklist(list(os_))], {'groupby': g, 'commutative': self.comm}, (ms, os_, g)

    def post(self, P, ctx, out):
        ms, os_, g = ctx
        if out.kind == 'raise':
            return [('does-not-raise', False)]
        vf = lambda f, o: P.call_uf('callee:variable_filter', [f, o, g], BOOL)
        tup = lambda x: x if isinstance(x, tuple) else tuple(x.items())
        valid = lambda t: And(*[vf(f, os_[i if self.per_input else 0]) for i, f in enumerate(tup(t))])
        same = lambda a, b: And(*[P.term(x) == P.term(y) for x, y in zip(tup(a), tup(b))])
        rev = lambda t: tuple(reversed(tup(t)))
        got = out.value
        if not self.comm:
            return [('keeps-only-matches-the-options-allow', forall(P, got, lambda t: And(valid(t), exists(P, ms, lambda m: same(m, t))))),
                    ('keeps-every-match-the-options-allow', forall(P, ms, lambda m: Implies(valid(m), exists(P, got, lambda t: same(m, t)))))]
        return [('keeps-only-orders-the-options-allow', forall(P, got, lambda t: And(valid(t), exists(P, ms, lambda m: Or(same(m, t), same(m, rev(t))))))),
                ('keeps-an-order-of-every-match-the-options-allow',
                 forall(P, ms, lambda m: Implies(Or(valid(m), valid(rev(m))),
                                                 exists(P, got, lambda t: Or(same(m, t), same(m, rev(t))))))),
                ('keeps-the-given-order-when-allowed', forall(P, ms, lambda m: Implies(valid(m), exists(P, got, lambda t: same(m, t)))))]


class FilterMatchesOne(FilterMatches):
    per_input = False


class FilterMatchesComm(FilterMatches):
    comm = True


CONTRACTS = [VariableFilterG, VariableFilterH, VariableFilter, IgnoreEntity, IgnoreEntityG, FilterMatches, FilterMatchesOne, FilterMatchesComm]
